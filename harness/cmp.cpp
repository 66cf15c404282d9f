// Comparisons of texts: FN selects the functions, N is the number of free bytes of each text.
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
static uint32 fold( uint32 c ) { return c - ( ( c - 'a' < 26U ) ? 32U : 0U ); }
static bool   digit( uint32 c ) { return c - '0' < 10U; }
// the order of the first max bytes of two texts, a text ending at its first zero byte: -1, 0 or 1
static int order( const unsigned char* a, const unsigned char* b, int max, bool caseless )
{
    int  r    = 0;
    bool done = false;
    for ( int i = 0; i < max; i++ )
    {
        uint32 x = a[ i ], y = b[ i ];
        if ( caseless ) x = fold( x ), y = fold( y );
        r    = done ? r : x < y ? -1 : x > y ? 1 : 0;
        done = done | ( r != 0 ) | ( x == 0 );
    }
    return r;
}
// a text of n free bytes, none of them zero, in a block of its size; zero padded copy for the reference
static char* text( unsigned char* copy, int size, int n, bool end, const char* name )
{
    unsigned char* p = new unsigned char[ n + end ? n + end : 1 ];
    vf_symbolic( p, n, name );
    for ( int i = 0; i < n; i++ ) vf_assume( p[ i ] != 0 );
    if ( end ) p[ n ] = 0;
    for ( int i = 0; i < size; i++ ) copy[ i ] = i < n ? p[ i ] : 0;
    return (char*)p;
}
#if FN >= 3
#define SIZE 64
// The order of numbered texts: characters one by one, digit runs as one item that compares by its value, then by its number of digits.
static int run( const unsigned char* a, int i ) { int n = 0; while ( digit( a[ i + n ] ) ) n++; return n; }
static int numbered( const unsigned char* a, const unsigned char* b, bool caseless )
{
    for ( int i = 0, j = 0;; )
    {
        if ( digit( a[ i ] ) & digit( b[ j ] ) )
        {
            int  m = run( a, i ), n = run( b, j ), w = m > n ? m : n, r = 0;
            for ( int k = 0; k < w; k++ ) // both padded with zeros to the longer length
            {
                int x = k < w - m ? '0' : a[ i + k - ( w - m ) ], y = k < w - n ? '0' : b[ j + k - ( w - n ) ];
                r     = r ? r : x < y ? -1 : x > y ? 1 : 0;
            }
            if ( !r ) r = m < n ? -1 : m > n ? 1 : 0;
            if ( r ) return r;
            i += m;
            j += n;
        }
        else
        {
            uint32 x = a[ i++ ], y = b[ j++ ];
            if ( caseless ) x = fold( x ), y = fold( y );
            if ( x != y ) return x < y ? -1 : 1;
            if ( !x ) return 0;
        }
    }
}
#endif
#define SAME( e, v, what ) vf_assert( ( e ) == ( v ), what " is wrong" )
extern "C" void vf_main()
{
#if FN == 1 || FN == 2 || FN == 5
    unsigned char a[ N + 2 ], b[ N + 2 ];
    int           m = (int)vf_choice( N + 1, "length1" ), n = (int)vf_choice( N + 1, "length2" );
#if FN == 2
    int max = (int)vf_choice( N + 2, "max" );
    char *s = text( a, N + 2, m, m < max, "text1" ), *t = text( b, N + 2, n, n < max, "text2" );
    int r = order( a, b, max, false ), c = order( a, b, max, true );
#define ARGS s, t, max
#else
    char *s = text( a, N + 2, m, true, "text1" ), *t = text( b, N + 2, n, true, "text2" );
    int r = order( a, b, N + 2, false ), c = order( a, b, N + 2, true );
#define ARGS s, t
#endif
#if FN != 5
    SAME( Text::CompareText( ARGS ), r == 0, "CompareText" );
    SAME( Text::CompareTextLessThan( ARGS ), r < 0, "CompareTextLessThan" );
    SAME( Text::CompareTextLessEqual( ARGS ), r <= 0, "CompareTextLessEqual" );
    SAME( Text::CompareTextCaseless( ARGS ), c == 0, "CompareTextCaseless" );
    SAME( Text::CompareTextLessThanCaseless( ARGS ), c < 0, "CompareTextLessThanCaseless" );
    SAME( Text::CompareTextLessEqualCaseless( ARGS ), c <= 0, "CompareTextLessEqualCaseless" );
#else
    {
        const String<> x( s ), y( t );
        SAME( x == t, r == 0, "String == text" );
        SAME( x == y, r == 0, "String == String" );
        SAME( x != t, r != 0, "String != text" );
        SAME( x != y, r != 0, "String != String" );
        SAME( x < t, r < 0, "String < text" );
        SAME( x <= t, r <= 0, "String <= text" );
        SAME( x > t, r > 0, "String > text" );
        SAME( x >= t, r >= 0, "String >= text" );
    }
    {
        const String<N + 1> x( s ), y( t );
        SAME( x == t, r == 0, "String<n> == text" );
        SAME( x == y, r == 0, "String<n> == String<n>" );
        SAME( x != t, r != 0, "String<n> != text" );
        SAME( x != y, r != 0, "String<n> != String<n>" );
        SAME( x < t, r < 0, "String<n> < text" );
        SAME( x <= t, r <= 0, "String<n> <= text" );
        SAME( x > t, r > 0, "String<n> > text" );
        SAME( x >= t, r >= 0, "String<n> >= text" );
    }
    {
        const ConstCharKey x( s );
        const StringKey    y( s );
        const FileNameKey  z( s );
        SAME( x == t, r == 0, "ConstCharKey ==" );
        SAME( x != t, r != 0, "ConstCharKey !=" );
        SAME( x < t, r < 0, "ConstCharKey <" );
        SAME( y == t, r == 0, "StringKey ==" );
        SAME( y != t, r != 0, "StringKey !=" );
        SAME( y < t, r < 0, "StringKey <" );
        SAME( z == t, c == 0, "FileNameKey ==" );
        SAME( z != t, c != 0, "FileNameKey !=" );
    }
#endif
    if ( r ) vf_reach( "different" );
    else vf_reach( "equal" );
#else // FN 3: free texts; FN 4: numbers of 0 to N digits after PRE and before POST free bytes
    unsigned char a[ SIZE ], b[ SIZE ];
    int           m = (int)vf_choice( N + 1, "length1" ), n = (int)vf_choice( N + 1, "length2" );
#if FN == 4
    m += PRE + POST, n += PRE + POST;
#endif
    char *s = text( a, SIZE, m, true, "text1" ), *t = text( b, SIZE, n, true, "text2" );
#if FN == 4
    for ( int i = PRE; i < m - POST; i++ ) vf_assume( digit( a[ i ] ) );
    for ( int i = PRE; i < n - POST; i++ ) vf_assume( digit( b[ i ] ) );
    for ( int i = 0; i < PRE; i++ ) vf_assume( !digit( a[ i ] ) & !digit( b[ i ] ) );
    for ( int i = 1; i <= POST; i++ ) vf_assume( !digit( a[ m - i ] ) & !digit( b[ n - i ] ) );
#endif
    int r = numbered( a, b, false ), c = numbered( a, b, true );
    SAME( Text::CompareNumberedTextLessThan( s, t ), r < 0, "CompareNumberedTextLessThan" );
    SAME( Text::CompareNumberedTextLessThan( t, s ), r > 0, "CompareNumberedTextLessThan the other way round" );
    SAME( Text::CompareNumberedTextLessThanCaseless( s, t ), c < 0, "CompareNumberedTextLessThanCaseless" );
    SAME( Text::CompareNumberedTextLessThanCaseless( t, s ), c > 0, "CompareNumberedTextLessThanCaseless the other way round" );
    {
        const FileNameKey z( s );
        SAME( z < t, c < 0, "FileNameKey <" );
    }
    if ( r ) vf_reach( "different" );
    else vf_reach( "equal" );
#endif
    delete[] (unsigned char*)s;
    delete[] (unsigned char*)t;
}
