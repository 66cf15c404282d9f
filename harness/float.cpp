// The decimal text of floats. MODE 1: any float with an exponent from E0 to E1 - 1 (fixed notation), value of the text;
// MODE 2: any float that has a text of its own (zeros, denormals, infinities, NaN), any limit;
// MODE 3: floats of both notations with free low bits, any limit: lengths, storage, termination;
// MODE 4: floats in exponent notation (representative values): value of the text.
#include "TSText.h"
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
static float mk( uint32 u ) { float f; __builtin_memcpy( &f, &u, 4 ); return f; }
static int len( const char* s ) { int n = 0; while ( s[ n ] ) n++; return n; }
// Value in units of 10^-7 and power of ten of a text "[-]digits.digits[e[-]digits]", at most seven decimals.
static int64 value( const char* s, int* power, int* neg, int* point = nullptr, int64* frac = nullptr )
{
    int64 v = 0;
    int i = 0, d = 0;
    *neg = 0;
    *power = 0;
    if ( s[ i ] == '-' ) *neg = 1, i++;
    vf_assert( s[ i ] >= '0' && s[ i ] <= '9', "the text begins with a digit" );
    int lead = i;
    for ( ; s[ i ] >= '0' && s[ i ] <= '9'; i++ ) v = v * 10 + ( s[ i ] - '0' );
    vf_assert( s[ lead ] != '0' || i == lead + 1, "the text has no leading zero" );
    vf_assert( s[ i ] == '.', "the text has a point" );
    if ( point ) *point = i;
    i++;
    int64 f = 0;
    for ( ; s[ i ] >= '0' && s[ i ] <= '9'; i++ ) v = v * 10 + ( s[ i ] - '0' ), f = f * 10 + ( s[ i ] - '0' ), d++;
    vf_assert( d >= 1 && d <= 7, "the text has one to seven decimals" );
    vf_assert( d == 1 || s[ i - 1 ] != '0', "the text has no trailing zero" );
    for ( ; d < 7; d++ ) v *= 10, f *= 10;
    if ( frac ) *frac = f;
    if ( s[ i ] == 'e' )
    {
        int n = 0, e = 0;
        i++;
        if ( s[ i ] == '-' ) n = 1, i++;
        vf_assert( s[ i ] >= '1' && s[ i ] <= '9', "the exponent is a number" );
        for ( ; s[ i ] >= '0' && s[ i ] <= '9'; i++ ) e = e * 10 + ( s[ i ] - '0' );
        *power = n ? -e : e;
    }
    vf_assert( s[ i ] == 0, "the text is a number" );
    return v;
}
#if MODE == 1
extern "C" void vf_main()
{
    uint32 e = E0 + vf_choice( E1 - E0, "exponent" );
    uint32 m = vf_u32( "fraction" );
    vf_assume( ( m & 0x7F800000 ) == 0 );
#ifdef FREE
    m = ( m & ( 0x80000000 | FREE ) ) | ( REST & ~FREE );
#endif
    float x = mk( m | ( e << 23 ) );
    if ( e == 113 ) vf_assume( ( m & 0x7FFFFF ) >= 0x51B718 ); // 1e-4
    if ( e == 143 ) vf_assume( ( m & 0x7FFFFF ) < 0x435000 ); // 1e5
    struct { char t[ 16 ]; } b;
    int n = Text::FloatToString( x, b.t, 15 );
    vf_assert( n == len( b.t ), "the returned length is the length of the text" );
    int p, neg, point;
    int64 f, v = value( b.t, &p, &neg, &point, &f );
    vf_assert( p == 0, "fixed notation" );
    vf_assert( neg == (int)( m >> 31 ), "sign" );
    uint32 mant = ( m & 0x7FFFFF ) | 0x800000, whole = mant >> ( 150 - e > 24 ? 24 : 150 - e );
    // Usually the text has the decimal digits of the whole part, and the fractions are compared.
    int is = 1;
    uint32 w = whole;
    for ( int i = point - 1; i >= neg; i-- ) is &= (uint32)( b.t[ i ] - '0' ) == w % 10, w /= 10;
    is &= w == 0;
    // The fraction with 23 bits, and its decimal digits one by one: usually the text has them and ends somewhere.
    uint32 frac = e >= 127 ? ( mant << ( e - 127 ) ) & 0x7FFFFF : mant >> ( 127 - e ), rem = frac;
    int k = 0;
    for ( ; k < 7 && b.t[ point + 1 + k ]; k++ )
    {
        rem *= 10;
        is &= (uint32)( b.t[ point + 1 + k ] - '0' ) == rem >> 23;
        rem &= 0x7FFFFF;
    }
    int64 off;
    if ( is )
    {
        off = rem;
        for ( ; k < 7; k++ ) off *= 10;
    }
    else off = v * 0x800000 - ( (int64)whole * 0x800000 + frac ) * 10000000;
    vf_assert( off < 108 * 0x800000 && off > -108 * 0x800000, "the text denotes the float to within 0.000011" );
    vf_reach( "end" );
}
#elif MODE == 2
extern "C" void vf_main()
{
    uint32 b = vf_u32( "float" ), k = vf_choice( 3, "kind" );
    int max = (int)vf_choice( 9, "limit" ) - 1;
    uint32 ex = ( b >> 23 ) & 255;
    if ( k == 0 ) vf_assume( ex == 0 );
    if ( k == 1 ) vf_assume( ex == 255 && ( b & 0x7FFFFF ) == 0 );
    if ( k == 2 ) vf_assume( ex == 255 && ( b & 0x7FFFFF ) != 0 );
    char t[ 12 ];
    for ( int i = 0; i < 12; i++ ) t[ i ] = '#';
    int n = Text::FloatToString( mk( b ), t, max );
    int lim = max < 0 ? 0 : max;
    vf_assert( n >= 0 && n <= lim, "the limit is respected" );
    vf_assert( t[ n ] == 0 && len( t ) == n, "the returned length is the length of the text" );
    for ( int i = n + 1; i < 12; i++ ) vf_assert( t[ i ] == '#' || i <= lim, "nothing is written beyond the limit" );
    if ( max >= 4 )
    {
        int neg = k && ( b >> 31 );
        vf_assert( n == 3 + neg && ( !neg || t[ 0 ] == '-' ), "length and sign" );
        const char* w = k == 0 ? "0.0" : k == 1 ? "INF" : "NAN";
        for ( int i = 0; i < 3; i++ ) vf_assert( t[ neg + i ] == w[ i ], "text" );
    }
    vf_reach( "end" );
}
#elif MODE == 3
extern "C" void vf_main()
{
    // values and the number of free low bits
    static const uint32 V[][ 2 ] = { { 0x3FC00000, 8 }, { 0x3F7FFF00, 8 }, { 0x42F6E979, 4 }, { 0x47C34F00, 6 }, { 0x38D1B717, 0 }, { 0x3DCCCCCD, 3 }, { 0x411FFFF0, 4 },
                                     { 0x49742400, 0 }, { 0x7F7FFFFF, 0 }, { 0x00800000, 0 }, { 0x2B8CBCCC, 0 }, { 0x38D1B716, 0 }, { 0x47C35000, 0 } };
    uint32 k = vf_choice( sizeof( V ) / 8, "float" ), neg = vf_choice( 2, "negative" ), free = vf_u32( "free" );
    free &= ( 1u << V[ k ][ 1 ] ) - 1;
    float x = mk( ( V[ k ][ 0 ] + free ) | ( neg << 31 ) );
    int max = (int)vf_choice( 18, "limit" ) - 1;
    char t[ 24 ], full[ 24 ];
    for ( int i = 0; i < 24; i++ ) t[ i ] = '#';
    int n = Text::FloatToString( x, t, max );
    int lim = max < 0 ? 0 : max;
    vf_assert( n >= 0 && n <= lim, "the limit is respected" );
    vf_assert( t[ n ] == 0 && len( t ) == n, "the returned length is the length of the text" );
    for ( int i = lim + 1; i < 24; i++ ) vf_assert( t[ i ] == '#', "nothing is written beyond the limit" );
    if ( max == 16 )
    {
        int p, s;
        int64 v = value( t, &p, &s );
        vf_assert( s == (int)neg, "sign" );
        (void)v;
        // The strings that are made from floats.
        String<15> s15( x );
        vf_assert( len( s15 ) == ( n < 15 ? n : 15 ), "String<15>" );
        for ( int i = 0; i < n; i++ ) vf_assert( s15[ i ] == t[ i ], "String<15>" );
        String<15> f15( Text::FloatToString( x ) );
        for ( int i = 0; i <= n; i++ ) vf_assert( f15[ i ] == t[ i ], "FloatToString" );
        String<> d( x );
        vf_assert( d.GetStringLength() == n, "String<>" );
        for ( int i = 0; i <= n; i++ ) vf_assert( d[ i ] == t[ i ], "String<>" );
        String<> a( "longer than that" );
        a = x;
        vf_assert( a.GetStringLength() == n, "assignment" );
        for ( int i = 0; i <= n; i++ ) vf_assert( a[ i ] == t[ i ], "assignment" );
        String<4> s4( x );
        vf_assert( len( s4 ) <= 4, "String<4>" );
        vf_reach( "full" );
    }
    vf_reach( "end" );
}
#else
extern "C" void vf_main()
{
    // decimal mantissa in units of 10^-7 (from 1 to 10) and the power, by the double value of the float
    uint32 ex = E0 + vf_choice( E1 - E0, "exponent" ), k = vf_choice( 4, "fraction" ), neg = vf_choice( 2, "negative" );
    static const uint32 F[ 4 ] = { 0, 0x2AAAAB, 0x555555, 0x7FFFFF };
    float x = mk( ( ex << 23 ) | F[ k ] );
    if ( x >= 1e-4F && x < 1e5F ) vf_end();
    char t[ 24 ];
    int n = Text::FloatToString( neg ? -x : x, t, 23 );
    vf_assert( n == len( t ), "the returned length is the length of the text" );
    int p, s;
    double v = (double)value( t, &p, &s ) / 1e7, w = x;
    vf_assert( s == (int)neg, "sign" );
    for ( int i = p; i > 0; i-- ) w /= 10;
    for ( int i = p; i < 0; i++ ) w *= 10;
    double d = v - w;
    vf_assert( d < 0.0001 && d > -0.0001, "the text denotes the float to within 0.0001 of its mantissa" );
    vf_assert( v < 10.5 && v > 0.1, "the mantissa has one digit" );
    vf_reach( "end" );
}
#endif
