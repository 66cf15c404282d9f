// Every integer becomes its decimal text, in every function that takes one. FN selects the function, W the type:
// 1 int32, 2 uint32, 3 int64, 4 uint64.
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
#if W == 1
typedef int32 T;
#elif W == 2
typedef uint32 T;
#elif W == 3
typedef int64 T;
#else
typedef uint64 T;
#endif
static char ref[ 24 ];
static int  refLen;
// the decimal text, most significant digit first
static void decimal( T v )
{
    bool neg = W % 2 && (int64)v < 0;
#if W <= 2
    uint32 m = neg ? 0u - (uint32)v : (uint32)v;
#else
    uint64 m = neg ? 0u - (uint64)v : (uint64)v;
#endif
    char d[ 24 ];
    int  k = 0;
    do
    {
        d[ k++ ] = (char)( '0' + m % 10 );
        m /= 10;
    } while ( m );
    refLen = 0;
    if ( neg ) ref[ refLen++ ] = '-';
    while ( k ) ref[ refLen++ ] = d[ --k ];
    ref[ refLen ] = 0;
}
// s is prefix + ref, cut to max characters
static void is( const char* s, const char* prefix, int max )
{
    int n = 0;
    for ( ; *prefix && n < max; n++ ) vf_assert( s[ n ] == *prefix++, "the text before the number is lost" );
    for ( int i = 0; i < refLen && n < max; i++, n++ ) vf_assert( s[ n ] == ref[ i ], "an integer is printed as another number" );
    vf_assert( s[ n ] == 0, "the text of an integer is not terminated at its end" );
}
template <class S> static void full( const S& s, const char* prefix )
{
    is( s, prefix, 1000 );
    int k = 0;
    while ( prefix[ k ] ) k++;
    vf_assert( s.GetStringLength() == k + refLen, "the length of the text is wrong" );
}
extern "C" void vf_main()
{
    T v;
    vf_symbolic( &v, sizeof v, "value" );
    decimal( v );
#if FN == 1 // into a buffer of the caller, with every limit
    {
        int max = (int)vf_choice( 24, "max" );
        char b[ 32 ];
        for ( int i = 0; i < 32; i++ ) b[ i ] = '#';
#if W == 1
        int n = Text::IntegerToString( v, b + 4, max );
#else
        int n = Text::Integer64ToString( v, b + 4, max );
#endif
        is( b + 4, "", max );
        int want = refLen < max ? refLen : max;
        vf_assert( n == want, "the returned length is not that of the text" );
        for ( int i = 0; i < 4; i++ ) vf_assert( b[ i ] == '#', "something before the destination is changed" );
        for ( int i = 4 + want + 1; i < 32; i++ ) vf_assert( b[ i ] == '#', "something after the text is changed" );
    }
#elif FN == 2 // strings of fixed capacity
    {
#if W <= 3
        String<31> a( v );
        full( a, "" );
        String<5> c( v );
        is( c, "", 5 );
        String<31> e( "n: " );
        full( e + v, "n: " );
        a = v;
        full( a, "" );
#endif
        String<31> d( "value " );
        d += v;
        full( d, "value " );
        String<12> g( "12345678" );
        g += v;
        is( g, "12345678", 12 );
    }
#elif FN == 3 // strings of any length
    {
#if W <= 3
        String<> a( v );
        full( a, "" );
        a += 'x';
        vf_assert( a.GetStringLength() == refLen + 1 && ( (const char*)a )[ refLen ] == 'x', "a string made of an integer cannot grow" );
        String<> b;
        b = v;
        full( b, "" );
        String<> l( "a text that is longer than an integer" );
        l = v;
        full( l, "" );
        full( String<>( "n: " ) + v, "n: " );
        full( String<>( "a prefix that needs the heap: " ) + v, "a prefix that needs the heap: " );
#endif
        String<> d( "v " );
        d += v;
        full( d, "v " );
        String<> e( "a prefix that needs the heap, and is almost as long as a block" );
        e += v;
        full( e, "a prefix that needs the heap, and is almost as long as a block" );
        e += v;
        String<> f;
        f += v;
        full( f, "" );
    }
#elif FN == 4 // the functions that make a string
#if W == 1
    full( Text::IntegerToString( v ), "" );
#else
    full( Text::Integer64ToString( v ), "" );
#endif
#endif
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
    vf_reach( "end" );
}
