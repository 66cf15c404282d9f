// Two dynamic strings under sequences of operations, against plain byte arrays. SHAPES initial shapes, STEPS operations from the lists LIST1, LIST2
// of target lengths; the text has free bytes at its ends and around the sizes of the inline and the allocated buffers.
#include <new>
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
struct Ref
{
    char b[ 720 ];
    int  n;
};
static char    pool[ 300 ];
static Ref     ra, rb;
static char*   src;
static int     srcLen;
static char    P( int i ) { return pool[ i % 150 ]; }
static bool    fails;
static const char* source( int n, bool terminated )
{
    srcLen = n;
    if ( fails ) // nothing of the harness may fail
    {
        char* q = src + 300 - n;
        for ( int i = 0; i < n; i++ ) q[ i ] = P( i );
        q[ n ] = 0;
        return q;
    }
    delete[] src;
    src = new char[ n + terminated ];
    for ( int i = 0; i < n; i++ ) src[ i ] = P( i );
    if ( terminated ) src[ n ] = 0;
    return src;
}
static void rset( Ref& r, const char* s, int n )
{
    for ( int i = 0; i < n; i++ ) r.b[ i ] = s[ i ];
    r.n = n;
}
static void rapp( Ref& r, const char* s, int n )
{
    for ( int i = 0; i < n; i++ ) r.b[ r.n + i ] = s[ i ];
    r.n += n;
}
static void rapps( Ref& r, const char* s )
{
    while ( *s ) r.b[ r.n++ ] = *s++;
}
static void check( const String<>& s, const Ref& r )
{
    const char* p = s;
    vf_assert( s.GetStringLength() == r.n, "a string reports another length" );
    for ( int i = 0; i < r.n; i++ ) vf_assert( p[ i ] == r.b[ i ], "a string has another character" );
    vf_assert( p[ r.n ] == 0, "a string is not terminated at its length" );
}
static void intact( const String<>& s )
{
    int n = 0;
    while ( ( (const char*)s )[ n ] ) n++;
    vf_assert( s.GetStringLength() == n, "after a failed allocation a string is not terminated at its length" );
}
static void both( const String<>& a, const String<>& b )
{
    check( a, ra );
    check( b, rb );
}
// one of N ways to get a string with the text of length n
static void make( String<>* at, Ref& r, int n, int way )
{
    const char* s;
    switch ( way )
    {
        case 0: new ( at ) String<>( source( n, true ) ); break;
        case 1: new ( at ) String<>( source( n, false ), n ); break;
        case 2: // in a bigger buffer than it needs
        {
            s = source( n, true );
            new ( at ) String<>( (int64)0 );
            for ( int i = 0; i < n; i++ ) ( i ? *at += s[ i ] : at->Set( s, 1 ) );
            if ( !n ) at->SetStringLength( 0 );
            break;
        }
        case 3: // by copying
        {
            String<> x( source( n, true ) );
            new ( at ) String<>( x );
            check( x, ( rset( r, src, n ), r ) );
            break;
        }
        case 4: // by concatenation
        {
            s = source( n, true );
            String<> x( s, n / 2 );
            new ( at ) String<>( x + ( s + n / 2 ) );
            break;
        }
        default: // by cutting
        {
            String<> x( source( n + 40, true ) );
            x.SetStringLength( n );
            new ( at ) String<>( static_cast<String<>&&>( x ) );
        }
    }
    rset( r, src, n );
}
static void special( String<>& a, String<>& b, int op )
{
    switch ( op )
    {
        case 0: a = b; ra = rb; break;
        case 1:
            a  = static_cast<String<>&&>( b );
            ra = rb;
            b  = "moved from";
            rset( rb, "moved from", 10 );
            break;
        case 2: a += b; rapp( ra, rb.b, rb.n ); break;
        case 3: a = a; break;
        case 4: { int n = ra.n; a += a; rapp( ra, ra.b, n ); break; }
        case 5: // its own tail
            if ( ra.n > 1 )
            {
                int n = ra.n;
                a += (const char*)a + 1;
                rapp( ra, ra.b + 1, n - 1 );
            }
            break;
        case 6:
            if ( ra.n > 1 )
            {
                a = (const char*)a + 1;
                for ( int i = 1; i < ra.n; i++ ) ra.b[ i - 1 ] = ra.b[ i ];
                ra.n--;
            }
            break;
        case 7: // its own head
            if ( ra.n > 1 )
            {
                int n = ra.n - 1;
                a.AppendString( a, n );
                rapp( ra, ra.b, n );
            }
            break;
        case 8: a.PurgeString(); ra.n = 0; break;
        case 9: a = (int32)-2147483647 - 1; ra.n = 0; rapps( ra, "-2147483648" ); break;
        case 10: a = (uint32)4000000000u; ra.n = 0; rapps( ra, "4000000000" ); break;
        case 11: a = (int64)-9000000000000000000ll; ra.n = 0; rapps( ra, "-9000000000000000000" ); break;
        case 12: a += (int32)-1234567890; rapps( ra, "-1234567890" ); break;
        case 13: a += (uint32)4000000001u; rapps( ra, "4000000001" ); break;
        case 14: a += (int64)-9000000000000000001ll; rapps( ra, "-9000000000000000001" ); break;
        case 15: a += (uint64)18000000000000000001ull; rapps( ra, "18000000000000000001" ); break;
        case 16: a = a + (int32)5; rapps( ra, "5" ); break;
        case 17: a = a + (uint32)6; rapps( ra, "6" ); break;
        case 18: a = a + (int64)7; rapps( ra, "7" ); break;
        case 19: a = a + (const char*)b; rapp( ra, rb.b, rb.n ); break;
        case 20: a = static_cast<String<>&&>( static_cast<String<>&>( a ) ); a = b; ra = rb; break; // what a self move leaves is open
        case 21: // move out of it and use it again
        {
            String<> x( static_cast<String<>&&>( a ) );
            check( x, ra );
            a = "again";
            a += x;
            Ref t = ra;
            rset( ra, "again", 5 );
            rapp( ra, t.b, t.n );
            break;
        }
        case 22: // what is moved from is empty or unchanged, and can be appended to
        {
            String<> x( static_cast<String<>&&>( a ) );
            check( x, ra );
            int n = a.GetStringLength();
            vf_assert( ( (const char*)a )[ n ] == 0, "a string that was moved from is not terminated" );
            a.PurgeString();
            a = static_cast<String<>&&>( x );
            break;
        }
        case 23: a = 1.5F; { String<15> t = Text::FloatToString( 1.5F ); ra.n = 0; rapps( ra, t ); } break;
        case 24: // a copy is independent
        {
            String<> x( a );
            check( x, ra );
            x += 'q';
            x.SetStringLength( 1 );
            break;
        }
        case 25: // a middle part of itself
            if ( ra.n > 2 )
            {
                int n = ra.n - 2;
                a.Set( (const char*)a + 1, n );
                for ( int i = 0; i < n; i++ ) ra.b[ i ] = ra.b[ i + 1 ];
                ra.n = n;
            }
            break;
        default: // equality
        {
            bool e = ra.n == rb.n;
            for ( int i = 0; e && i < ra.n; i++ ) e = ra.b[ i ] == rb.b[ i ];
            vf_assert( ( a == b ) == e && ( a != b ) == !e && ( a == (const char*)b ) == e && ( a != (const char*)b ) == !e, "two strings compare equal although they differ, or the other way round" );
        }
    }
}
static const int NSPECIAL = 27;
static void toward( String<>& a, int t, int op )
{
    switch ( op )
    {
        case 0: a = source( t, true ); rset( ra, src, t ); break;
        case 1: a.Set( source( t, false ), t ); rset( ra, src, t ); break;
        case 2: a.Set( source( t, true ), t + 9 ); rset( ra, src, t ); break;
        case 3:
            if ( t >= ra.n )
            {
                a += source( t - ra.n, true );
                rapp( ra, src, srcLen );
            }
            break;
        case 4:
            if ( t >= ra.n )
            {
                a.AppendString( source( t - ra.n, false ), t - ra.n );
                rapp( ra, src, srcLen );
            }
            break;
        case 5:
            if ( t >= ra.n )
            {
                a.AppendString( source( t - ra.n, true ), t - ra.n + 9 );
                rapp( ra, src, srcLen );
            }
            break;
        case 6:
            while ( ra.n < t )
            {
                char k = P( ra.n );
                a += k;
                ra.b[ ra.n++ ] = k;
            }
            break;
        default: // shorten, or lengthen and fill
            a.SetStringLength( t );
            vf_assert( a.GetStringLength() == t && ( (const char*)a )[ t ] == 0, "setting the length sets another" );
            for ( int i = ra.n; i < t; i++ ) ( (char*)a )[ i ] = ra.b[ i ] = 'f';
            ra.n = t;
    }
}
static const int NTOWARD = 8;
static const int T1[] = { LIST1 }, T2[] = { LIST2 };
static void step( String<>& a, String<>& b, const int* T, int nt )
{
    int op = (int)vf_choice( NSPECIAL + NTOWARD, "operation" );
    int t = op < NSPECIAL ? 0 : T[ vf_choice( nt, "target" ) ];
#ifdef FAIL
    if ( T == T2 )
    {
        if ( op >= NSPECIAL ) source( 300, true );
        fails = true;
        vf_alloc_armed = 1;
        vf_fail_at     = vf_choice( 4, "failing" );
        vf_alloc_count = 0;
        try
        {
            if ( op < NSPECIAL ) special( a, b, op );
            else toward( a, t, op - NSPECIAL );
            vf_alloc_armed = 0;
            fails = false;
            vf_assert( !vf_alloc_failed, "an allocation failure is swallowed" );
            return;
        }
        catch ( std::bad_alloc& )
        {
            vf_alloc_armed = 0;
            fails = false;
            vf_assert( vf_alloc_failed, "an allocation failure is reported that did not happen" );
            intact( a );
            intact( b );
            a = "as new";
            rset( ra, "as new", 6 );
            b += 'x';
            a += b;
            intact( a );
            intact( b );
            vf_reach( "failed" );
            return;
        }
    }
    else
#endif
    if ( op < NSPECIAL ) special( a, b, op );
    else toward( a, t, op - NSPECIAL );
    both( a, b );
}
extern "C" void vf_main()
{
    for ( int i = 0; i < 150; i++ ) pool[ i ] = (char)( 'a' + ( i * 7 ) % 26 );
    static const int at[] = { 0, 14, 15, 62, 63 };
    for ( int i : at )
    {
        vf_symbolic( &pool[ i ], 1, "byte" );
        vf_assume( pool[ i ] != 0 );
    }
    alignas( String<> ) static char A[ sizeof( String<> ) ], B[ sizeof( String<> ) ];
    String<>&a = *(String<>*)A, &b = *(String<>*)B;
    int way = (int)vf_choice( 6, "construction" );
    make( &a, ra, T1[ vf_choice( sizeof T1 / sizeof *T1, "length" ) ], way );
    make( &b, rb, vf_choice( 2, "other" ) ? 20 : 3, 0 );
    both( a, b );
    for ( int i = 0; i < STEPS; i++ ) step( a, b, i < STEPS - 1 ? T1 : T2, i < STEPS - 1 ? sizeof T1 / sizeof *T1 : sizeof T2 / sizeof *T2 );
    vf_observe( (uint64_t)ra.n );
    a.~String();
    b.~String();
    delete[] src;
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
    vf_reach( "end" );
}
