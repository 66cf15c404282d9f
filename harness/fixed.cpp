// A fixed-capacity string under sequences of STEPS operations, against the text cut to its capacity. All bytes are free.
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
typedef String<CAP> S;
struct Ref
{
    char b[ 256 ];
    int  n;
    void cut()
    {
        if ( n > CAP ) n = CAP;
    }
};
static Ref   r, o;
static int   srcLen;
static char* src;
static const char* source( bool terminated )
{
    static const int len[] = { 0, 1, CAP - 1, CAP, CAP + 1, CAP + 3 };
    srcLen = len[ vf_choice( 6, "length" ) ];
    delete[] src;
    src = new char[ srcLen + terminated ];
    for ( int i = 0; i < srcLen; i++ )
    {
        src[ i ] = 'k';
        if ( i < 2 || i > CAP - 2 )
        {
            vf_symbolic( src + i, 1, "byte" );
            vf_assume( src[ i ] != 0 );
        }
    }
    if ( terminated ) src[ srcLen ] = 0;
    return src;
}
static void rset( const char* s, int n )
{
    Ref t;
    for ( int i = 0; i < n; i++ ) t.b[ i ] = s[ i ];
    t.n = n;
    t.cut();
    r = t;
}
static void rapp( const char* s, int n )
{
    Ref t = r;
    for ( int i = 0; i < n; i++ ) t.b[ t.n + i ] = s[ i ];
    t.n += n;
    t.cut();
    r = t;
}
static int length( const char* s )
{
    int n = 0;
    while ( s[ n ] ) n++;
    return n;
}
static void check( const S& s, const Ref& e )
{
    const char* p = s;
    for ( int i = 0; i < e.n; i++ ) vf_assert( p[ i ] == e.b[ i ], "a fixed-capacity string has another character" );
    vf_assert( p[ e.n ] == 0, "a fixed-capacity string is not terminated at its end" );
    vf_assert( s.GetStringLength() == e.n, "a fixed-capacity string reports another length" );
}
static S* make( int way )
{
    S* s;
    switch ( way )
    {
        case 0: s = new S( source( true ) ); break;
        case 1: s = new S( source( false ), srcLen ); break;
        case 2: s = new S( source( true ), srcLen + 4 ); break;
        case 3: s = new S; *s = source( true ); break;
        default:
        {
            S x( source( true ) );
            s = new S( x );
        }
    }
    rset( src, srcLen );
    return s;
}
static void op( S& a, S& b )
{
    switch ( vf_choice( 24, "operation" ) )
    {
        case 0: a = source( true ); rset( src, srcLen ); break;
        case 1: a.Set( source( false ), srcLen ); rset( src, srcLen ); break;
        case 2: a.Set( source( true ), srcLen + 2 ); rset( src, srcLen ); break;
        case 3: a += source( true ); rapp( src, srcLen ); break;
        case 4: a.AppendString( source( false ), srcLen ); rapp( src, srcLen ); break;
        case 5: a.AppendString( source( true ), srcLen + 2 ); rapp( src, srcLen ); break;
        case 6: { char k = (char)vf_u8( "char" ); vf_assume( k != 0 ); a += k; rapp( &k, 1 ); break; }
        case 7: a = b; rset( o.b, o.n ); break;
        case 8: a += b; rapp( o.b, o.n ); break;
        case 9: a = a; break;
        case 10: a += a; rapp( r.b, r.n ); break;
        case 11: if ( r.n > 1 ) { a = (const char*)a + 1; rset( r.b + 1, r.n - 1 ); } break;
        case 12: if ( r.n > 1 ) { a += (const char*)a + 1; rapp( r.b + 1, r.n - 1 ); } break;
        case 13: a.AppendString( a, CAP ); rapp( r.b, r.n ); break;
        case 14:
        {
            S c = a + source( true );
            check( a, r );
            rapp( src, srcLen );
            check( c, r );
            a = c;
            break;
        }
        case 15: a = (int32)-12345; rset( "-12345", 6 ); break;
        case 16: a = (uint32)4000000000u; rset( "4000000000", 10 ); break;
        case 17: a = (int64)-9000000000ll; rset( "-9000000000", 11 ); break;
        case 18: a += (int32)120; rapp( "120", 3 ); break;
        case 19: a += (uint64)~0ull; rapp( "18446744073709551615", 20 ); break;
        case 20: a = a + (int64)-7; rapp( "-7", 2 ); break;
        case 21: if ( r.n > 0 ) { int n = (int)vf_choice( 2, "cut" ) ? r.n - 1 : r.n / 2; a.SetStringLength( n ); r.n = n; } break;
        case 22:
        {
            int c = 0; // the order of the two texts as unsigned bytes
            for ( int i = 0; !c; i++ )
            {
                int x = i < r.n ? (unsigned char)r.b[ i ] : 0, y = i < o.n ? (unsigned char)o.b[ i ] : 0;
                if ( x != y ) c = x < y ? -1 : 1;
                if ( !x || !y ) break;
            }
            const char* p = b;
            vf_assert( ( a == b ) == ( c == 0 ) && ( a == p ) == ( c == 0 ) && ( a != b ) == ( c != 0 ) && ( a != p ) == ( c != 0 ), "equality of strings is wrong" );
            vf_assert( ( a < p ) == ( c < 0 ) && ( a >= p ) == ( c >= 0 ) && ( a <= p ) == ( c <= 0 ) && ( a > p ) == ( c > 0 ), "the order of strings is wrong" );
            break;
        }
        default:
        {
            S x( (int32)2147483647 ), y( (uint32)4294967295u ), z( (int64)-1 );
            Ref t = r;
            rset( "2147483647", 10 ); check( x, r );
            rset( "4294967295", 10 ); check( y, r );
            rset( "-1", 2 ); check( z, r );
            r = t;
        }
    }
    check( a, r );
    check( b, o );
}
extern "C" void vf_main()
{
    S* b = make( 0 );
    o = r;
    check( *b, o );
    S* a = make( (int)vf_choice( 5, "construction" ) );
    check( *a, r );
    for ( int i = 0; i < STEPS; i++ ) op( *a, *b );
    vf_observe( (uint64_t)r.n );
    delete a;
    delete b;
    delete[] src;
    vf_reach( "end" );
}
