// The functions of TSMath.h that are defined without approximation, and the lane-wise operations of TSSimd.h,
// for every bit pattern of their arguments. PART selects the functions.
#ifdef TERATHON_NO_SIMD
    #define Terathon TerathonPlain // a second copy of the library's functions, as built without SIMD
    #include "TSMath.cpp"
#else
    #include "TSMath.h"
#endif
#include "vf.h"
using namespace Terathon;
#pragma STDC FP_CONTRACT OFF
static uint32 bits( float f ) { uint32 u; __builtin_memcpy( &u, &f, 4 ); return u; }
static float mk( uint32 u ) { float f; __builtin_memcpy( &f, &u, 4 ); return f; }
static bool nan( float f ) { return ( ( bits( f ) & 0x7FFFFFFF ) > 0x7F800000 ); }
static float any( const char* n ) { return mk( vf_u32( n ) ); }
static float num( const char* n ) { float f = any( n ); vf_assume( !nan( f ) ); return f; }
#ifndef E0
    #define E0 0
    #define E1 57
#endif
// Every float, the exponent split into cases: one by one where it matters for rounding.
static float anysplit()
{
    uint32 m = vf_u32( "fraction" ), k = E0 + vf_choice( E1 - E0, "exponent" );
    m &= 0x807FFFFF;
    if ( k < 53 ) return mk( m | ( ( 102 + k ) << 23 ) );
    uint32 e = vf_u32( "rest" );
    if ( k == 53 ) e = 0;
    if ( k == 54 ) vf_assume( e >= 1 && e < 102 );
    if ( k == 55 ) vf_assume( e >= 155 && e < 255 );
    if ( k == 56 ) e = 255;
    return mk( m | ( e << 23 ) );
}
// The integer below or above: for the number of bits behind the point, clear them and, where the result moves away
// from zero, count the integer part up by one (which carries into the exponent as it should).
static float toward( float x, uint32 up )
{
    uint32 b = bits( x ), neg = b >> 31, e = ( b >> 23 ) & 255;
    if ( e >= 150 ) return x;
    if ( e < 127 ) return x == 0 ? x : neg == up ? 0.0F : neg ? -1.0F : 1.0F;
    uint32 unit = 1u << ( 150 - e ), frac = b & ( unit - 1 );
    return mk( b - frac + ( ( frac != 0 ) & ( neg != up ) ) * unit );
}
static float down( float x ) { return toward( x, 0 ); }
static float up( float x ) { return toward( x, 1 ); }
static int same( float a, float b ) { return ( bits( a ) == bits( b ) ) | ( a == b ) | ( (int)nan( a ) & (int)nan( b ) ); } // zeros equal, NaN is NaN
#define EQ( a, b ) vf_assert( same( a, b ), #a )
static float lo( float a, float b ) { return a < b ? a : b; }
static float hi( float a, float b ) { return a > b ? a : b; }

#ifndef TERATHON_NO_SIMD
struct V4 { float f[ 4 ]; };
static vec_float ld( const V4& v ) { return _mm_loadu_ps( v.f ); }
static V4 st( const vec_float& v ) { V4 r; _mm_storeu_ps( r.f, v ); return r; }
static const char* const LN[ 6 ][ 4 ] = { { "a0", "a1", "a2", "a3" }, { "b0", "b1", "b2", "b3" }, { "c0", "c1", "c2", "c3" }, { "d0", "d1", "d2", "d3" }, { "e0", "e1", "e2", "e3" }, { "p0", "p1", "p2", "p3" } };
static V4 vec( int k, bool withnan = false )
{
    V4 v;
    for ( int i = 0; i < 4; i++ ) v.f[ i ] = withnan ? any( LN[ k ][ i ] ) : num( LN[ k ][ i ] );
    return v;
}
template <class F> static void lanes( const vec_float& r, const char* msg, F f )
{
    V4 q = st( r );
    int ok = 1;
    for ( int i = 0; i < 4; i++ ) ok &= same( q.f[ i ], f( i ) );
    vf_assert( ok, msg );
}
template <class F> static void laneX( const vec_float& r, const char* msg, F f )
{
    V4 q = st( r );
    vf_assert( same( q.f[ 0 ], f( 0 ) ), msg );
}
template <class F> static void laneb( const vec_float& r, const char* msg, F f ) // bits
{
    V4 q = st( r );
    int ok = 1;
    for ( int i = 0; i < 4; i++ ) ok &= bits( q.f[ i ] ) == f( i );
    vf_assert( ok, msg );
}
#define L( r, e ) lanes( r, #r, [ & ]( int i ) -> float { return e; } )
#define LX( r, e ) laneX( r, #r, [ & ]( int i ) -> float { return e; } )
#define LB( r, e ) laneb( r, #r, [ & ]( int i ) -> uint32 { return e; } )
#define A a.f[ i ]
#define B b.f[ i ]
#define C c.f[ i ]
#endif
#if PART == 1 // sign, minimum, maximum, clamping
static void part()
{
    float x = num( "x" ), y = num( "y" ), z = num( "z" ), w = num( "w" );
    uint32 b = bits( x );
    vf_assert( bits( Fabs( x ) ) == ( b & 0x7FFFFFFF ) || ( x == 0 && Fabs( x ) == 0 ), "Fabs" );
    vf_assert( bits( Fnabs( x ) ) == ( b | 0x80000000 ) || ( x == 0 && Fnabs( x ) == 0 ), "Fnabs" );
    EQ( Fsgn( x ), x > 0 ? 1.0F : x < 0 ? -1.0F : 0.0F );
    EQ( Fnsgn( x ), x > 0 ? -1.0F : x < 0 ? 1.0F : 0.0F );
    if ( x != 0 )
    {
        EQ( NonzeroFsgn( x ), x < 0 ? -1.0F : 1.0F );
        EQ( NonzeroFnsgn( x ), x < 0 ? 1.0F : -1.0F );
    }
    else
    {
        vf_assert( Fabs( NonzeroFsgn( x ) ) == 1.0F, "NonzeroFsgn of zero" );
        vf_assert( Fabs( NonzeroFnsgn( x ) ) == 1.0F, "NonzeroFnsgn of zero" );
    }
    EQ( Fmin( x, y ), lo( x, y ) );
    EQ( Fmax( x, y ), hi( x, y ) );
    EQ( Fmin( x, y, z ), lo( lo( x, y ), z ) );
    EQ( Fmax( x, y, z ), hi( hi( x, y ), z ) );
    EQ( Fmin( x, y, z, w ), lo( lo( x, y ), lo( z, w ) ) );
    EQ( Fmax( x, y, z, w ), hi( hi( x, y ), hi( z, w ) ) );
    EQ( FminZero( x ), lo( x, 0 ) );
    EQ( FmaxZero( x ), hi( x, 0 ) );
    EQ( Saturate( x ), x < 0 ? 0.0F : x > 1 ? 1.0F : x );
    if ( y <= z ) EQ( Clamp( x, y, z ), x < y ? y : x > z ? z : x );
    vf_reach( "end" );
}
#elif PART == 2 // rounding
#ifndef TERATHON_NO_SIMD
static V4 all( float x ) { return V4{ { x, x, x, x } }; }
static void vround( const V4& a )
{
    vec_float va = ld( a ), f, c;
    L( VecFloor( va ), down( A ) );
    L( VecCeil( va ), up( A ) );
    VecFloorCeil( va, &f, &c );
    L( f, down( A ) );
    L( c, up( A ) );
    LX( VecFloorScalar( va ), down( A ) );
    LX( VecCeilScalar( va ), up( A ) );
    VecFloorCeilScalar( va, &f, &c );
    LX( f, down( A ) );
    LX( c, up( A ) );
}
static void vpositive( const V4& a )
{
    vec_float va = ld( a ), f, c;
    L( VecPositiveFloor( va ), down( A ) );
    L( VecPositiveCeil( va ), up( A ) );
    VecPositiveFloorCeil( va, &f, &c );
    L( f, down( A ) );
    L( c, up( A ) );
    LX( VecPositiveFloorScalar( va ), down( A ) );
    LX( VecPositiveCeilScalar( va ), up( A ) );
    VecPositiveFloorCeilScalar( va, &f, &c );
    LX( f, down( A ) );
    LX( c, up( A ) );
}
static void vnegative( const V4& a )
{
    vec_float va = ld( a ), f, c;
    L( VecNegativeFloor( va ), down( A ) );
    L( VecNegativeCeil( va ), up( A ) );
    VecNegativeFloorCeil( va, &f, &c );
    L( f, down( A ) );
    L( c, up( A ) );
    LX( VecNegativeFloorScalar( va ), down( A ) );
    LX( VecNegativeCeilScalar( va ), up( A ) );
    VecNegativeFloorCeilScalar( va, &f, &c );
    LX( f, down( A ) );
    LX( c, up( A ) );
}
#endif
static void part()
{
    float x = anysplit(), f, c, fl = down( x ), ce = up( x );
    EQ( Floor( x ), fl );
    EQ( Ceil( x ), ce );
    FloorCeil( x, &f, &c );
    EQ( f, fl );
    EQ( c, ce );
    EQ( Frac( x ), x - Floor( x ) );
#ifndef TERATHON_NO_SIMD
    vround( all( x ) );
    vround( V4{ { 0.75F, -1.75F, 2.25F, -3.25F } } );
    vpositive( V4{ { 0.75F, 1.75F, 2.25F, 3.25F } } );
    vnegative( V4{ { -0.75F, -1.75F, -2.25F, -3.25F } } );
#endif
    if ( x >= 0 && x <= 8388608.0F )
    {
        EQ( PositiveFloor( x ), fl );
        EQ( PositiveCeil( x ), ce );
        PositiveFloorCeil( x, &f, &c );
        EQ( f, fl );
        EQ( c, ce );
        EQ( PositiveFrac( x ), x - PositiveFloor( x ) );
#ifndef TERATHON_NO_SIMD
        vpositive( all( x ) );
#endif
        vf_reach( "positive" );
    }
    if ( x <= 0 && x >= -8388608.0F )
    {
        EQ( NegativeFloor( x ), fl );
        EQ( NegativeCeil( x ), ce );
        NegativeFloorCeil( x, &f, &c );
        EQ( f, fl );
        EQ( c, ce );
        EQ( NegativeFrac( x ), x - NegativeFloor( x ) );
#ifndef TERATHON_NO_SIMD
        vnegative( all( x ) );
#endif
        vf_reach( "negative" );
    }
    vf_reach( "end" );
}
#elif PART == 3 // loads, stores, shuffles, bit operations, selection, comparison
template <int p3, int p2, int p1, int p0> static void shuf( const V4& a, const V4& b )
{
    LB( ( VecShuffle<p3, p2, p1, p0>( ld( a ), ld( b ) ) ), bits( i == 0 ? a.f[ p0 ] : i == 1 ? a.f[ p1 ] : i == 2 ? b.f[ p2 ] : b.f[ p3 ] ) );
}
static void part()
{
    V4 a = vec( 0, true ), b = vec( 1, true ), c = vec( 2, true );
    vec_float va = ld( a ), vb = ld( b ), vc = ld( c );
    alignas( 16 ) float al[ 5 ] = { a.f[ 0 ], a.f[ 1 ], a.f[ 2 ], a.f[ 3 ], 7.0F };
    alignas( 16 ) float un[ 5 ] = { 7.0F, a.f[ 0 ], a.f[ 1 ], a.f[ 2 ], a.f[ 3 ] };
    LB( VecLoad( al ), bits( A ) );
    LB( VecLoadUnaligned( un + 1 ), bits( A ) );
    vf_assert( bits( st( VecLoadScalar( al + 1 ) ).f[ 0 ] ) == bits( a.f[ 1 ] ), "VecLoadScalar" );
    LB( VecLoadSmearScalar( al + 2 ), bits( a.f[ 2 ] ) );
    LB( VecFloatGetZero(), 0 );
    LB( VecFloatGetMinusZero(), 0x80000000 );
    LB( VecLoadVectorConstant<0x12345678>(), 0x12345678 );
    vf_assert( bits( st( VecLoadScalarConstant<0x12345678>() ).f[ 0 ] ) == 0x12345678, "VecLoadScalarConstant" );
    LB( VecSmearX( va ), bits( a.f[ 0 ] ) );
    LB( VecSmearY( va ), bits( a.f[ 1 ] ) );
    LB( VecSmearZ( va ), bits( a.f[ 2 ] ) );
    LB( VecSmearW( va ), bits( a.f[ 3 ] ) );
    shuf<0, 1, 2, 3>( a, b );
    shuf<3, 2, 1, 0>( a, b );
    shuf<1, 3, 0, 2>( a, b );
    shuf<2, 0, 3, 1>( a, b );
    shuf<0, 0, 3, 3>( a, b );
    alignas( 16 ) float o[ 5 ];
    auto clear = [ & ]() { for ( int i = 0; i < 5; i++ ) o[ i ] = mk( 0x7FABCDE0 + i ); };
    auto want = [ & ]( int n, int from, const char* msg )
    {
        int ok = 1;
        for ( int i = 0; i < 5; i++ ) ok &= bits( o[ i ] ) == ( i < n ? bits( a.f[ from + i ] ) : 0x7FABCDE0u + i );
        vf_assert( ok, msg );
    };
    clear(), VecStore( va, o ), want( 4, 0, "VecStore" );
    clear(), VecStoreUnaligned( va, o ), want( 4, 0, "VecStoreUnaligned" );
    clear(), VecStoreX( va, o ), want( 1, 0, "VecStoreX" );
    clear(), VecStoreY( va, o ), want( 1, 1, "VecStoreY" );
    clear(), VecStoreZ( va, o ), want( 1, 2, "VecStoreZ" );
    clear(), VecStoreW( va, o ), want( 1, 3, "VecStoreW" );
    clear(), VecStore3D( va, o ), want( 3, 0, "VecStore3D" );
    VecStoreUnaligned( va, un + 1 );
    vf_assert( bits( un[ 0 ] ) == bits( 7.0F ) && bits( un[ 4 ] ) == bits( a.f[ 3 ] ), "VecStoreUnaligned away from a multiple of 16" );
    LB( VecAnd( va, vb ), bits( A ) & bits( B ) );
    LB( ( va & vb ), bits( A ) & bits( B ) );
    LB( VecAndc( va, vb ), bits( A ) & ~bits( B ) );
    LB( VecOr( va, vb ), bits( A ) | bits( B ) );
    LB( ( va | vb ), bits( A ) | bits( B ) );
    LB( VecXor( va, vb ), bits( A ) ^ bits( B ) );
    LB( ( va ^ vb ), bits( A ) ^ bits( B ) );
    LB( VecSelect( va, vb, VecMaskCmplt( vc, va ) ), C < A ? bits( B ) : bits( A ) );
    LB( VecMaskCmpeq( va, vb ), A == B ? 0xFFFFFFFF : 0 );
    LB( VecMaskCmplt( va, vb ), A < B ? 0xFFFFFFFF : 0 );
    LB( VecMaskCmpgt( va, vb ), A > B ? 0xFFFFFFFF : 0 );
    vf_assert( VecCmpeqScalar( va, vb ) == ( a.f[ 0 ] == b.f[ 0 ] ) || nan( a.f[ 0 ] ) || nan( b.f[ 0 ] ), "VecCmpeqScalar" );
    vf_assert( VecCmpltScalar( va, vb ) == ( a.f[ 0 ] < b.f[ 0 ] ) || nan( a.f[ 0 ] ) || nan( b.f[ 0 ] ), "VecCmpltScalar" );
    vf_assert( VecCmpgtScalar( va, vb ) == ( a.f[ 0 ] > b.f[ 0 ] ) || nan( a.f[ 0 ] ) || nan( b.f[ 0 ] ), "VecCmpgtScalar" );
    int n = 0, l = 0, g = 0;
    for ( int i = 0; i < 3; i++ ) n |= (int)nan( A ) | (int)nan( B ), l |= A < B, g |= A > B;
    vf_assert( n | ( VecCmpltAny3D( va, vb ) == ( l != 0 ) ), "VecCmpltAny3D" );
    vf_assert( n | ( VecCmpgtAny3D( va, vb ) == ( g != 0 ) ), "VecCmpgtAny3D" );
    vf_reach( "end" );
}
#elif PART == 4 // sign, minimum, rounding in each lane
static void part()
{
    V4 a = vec( 0 ), b = vec( 1 );
    vec_float va = ld( a ), vb = ld( b ), f, c;
    L( VecNegate( va ), -A );
    L( ( -va ), -A );
    L( VecMin( va, vb ), lo( A, B ) );
    L( VecMax( va, vb ), hi( A, B ) );
    LX( VecMinScalar( va, vb ), lo( A, B ) );
    LX( VecMaxScalar( va, vb ), hi( A, B ) );
    L( VecFsgn( va ), A > 0 ? 1.0F : A < 0 ? -1.0F : 0.0F );
    L( VecFnsgn( va ), A > 0 ? -1.0F : A < 0 ? 1.0F : 0.0F );
    L( VecNonzeroFsgn( va ), A > 0 ? 1.0F : A < 0 ? -1.0F : ( bits( A ) >> 31 ) ? -1.0F : 1.0F );
    L( VecNonzeroFnsgn( va ), A > 0 ? -1.0F : A < 0 ? 1.0F : ( bits( A ) >> 31 ) ? 1.0F : -1.0F );
    vf_reach( "end" );
}
#elif PART == 6 // arithmetic
static int oneof( float r, float a, float b, float c ) { return same( r, a ) | same( r, b ) | same( r, c ); }
static float sum3( float r, float a, float b, float c ) { return oneof( r, ( a + b ) + c, ( b + c ) + a, ( a + c ) + b ) ? r : ( a + b ) + c; } // any order
static void part()
{
    V4 a = vec( 0 ), b = vec( 1 ), c = vec( 2 );
    vec_float va = ld( a ), vb = ld( b ), vc = ld( c );
    L( VecAdd( va, vb ), A + B );
    L( ( va + vb ), A + B );
    LX( VecAddScalar( va, vb ), A + B );
    L( VecSub( va, vb ), A - B );
    L( ( va - vb ), A - B );
    LX( VecSubScalar( va, vb ), A - B );
    L( VecMul( va, vb ), A * B );
    L( ( va * vb ), A * B );
    LX( VecMulScalar( va, vb ), A * B );
    L( VecDiv( va, vb ), A / B );
    L( ( va / vb ), A / B );
    LX( VecDivScalar( va, vb ), A / B );
    L( VecMadd( va, vb, vc ), A * B + C );
    LX( VecMaddScalar( va, vb, vc ), A * B + C );
    L( VecNmsub( va, vb, vc ), C - A * B );
    LX( VecNmsubScalar( va, vb, vc ), C - A * B );
    vf_reach( "end" );
}
#elif PART == 7 // products
static int same3( float r, float a, float b, float c ) { return same( r, ( a + b ) + c ) | same( r, ( b + c ) + a ) | same( r, ( a + c ) + b ); } // any order
static int same4( float r, float a, float b, float c, float d )
{
    int k = same( r, ( a + b ) + ( c + d ) ) | same( r, ( a + c ) + ( b + d ) ) | same( r, ( a + d ) + ( b + c ) );
    k |= same3( r, a + b, c, d ) | same3( r, a + c, b, d ) | same3( r, a + d, b, c );
    return k | same3( r, b + c, a, d ) | same3( r, b + d, a, c ) | same3( r, c + d, a, b );
}
// Small whole numbers, for which every order of the operations is exact: a wrong lane or sign is found without long searches.
static V4 small( int k )
{
    static const int P[ 24 ] = { 2, 11, -23, 31, 41, -59, 67, 79, 97, 109, -127, 149, 163, 179, -193, 211, 229, 241, 257, -271, 283, -307, 317, 337 };
    V4 v;
    for ( int i = 0; i < 4; i++ ) v.f[ i ] = (float)( P[ 4 * k + i ] + (int)( vf_u32( LN[ k ][ i ] ) & 3 ) );
    return v;
}
static void products( const V4& a, const V4& b, const V4& c, const V4& d, const V4& p, uint32 k )
{
    vec_float va = ld( a ), vb = ld( b ), vc = ld( c ), vd = ld( d ), vp = ld( p );
    float x = a.f[ 0 ] * b.f[ 0 ], y = a.f[ 1 ] * b.f[ 1 ], z = a.f[ 2 ] * b.f[ 2 ], w = a.f[ 3 ] * b.f[ 3 ];
    if ( k == 0 )
    {
        vf_assert( same3( st( VecHorizontalSum3D( va ) ).f[ 0 ], a.f[ 0 ], a.f[ 1 ], a.f[ 2 ] ), "VecHorizontalSum3D" );
        vf_assert( same3( st( VecDot3D( va, vb ) ).f[ 0 ], x, y, z ), "VecDot3D" );
        vf_assert( same4( st( VecDot4D( va, vb ) ).f[ 0 ], x, y, z, w ), "VecDot4D" );
        vf_assert( same4( st( VecPlaneDotPoint3D( va, vb ) ).f[ 0 ], x, y, z, a.f[ 3 ] ), "VecPlaneDotPoint3D" );
    }
    if ( k == 1 )
    {
        float e = st( VecDot3D( va, vb ) ).f[ 0 ];
        V4 q = st( VecProject3D( va, vb ) ), r = st( VecReject3D( va, vb ) );
        int ok = 1, ok2 = 1;
        for ( int i = 0; i < 3; i++ ) ok &= same( q.f[ i ], B * e ), ok2 &= same( r.f[ i ], A - B * e );
        vf_assert( ok, "VecProject3D" );
        vf_assert( ok2, "VecReject3D" );
    }
    if ( k == 2 )
    {
        V4 q = st( VecCross3D( va, vb ) );
        int ok = 1;
        for ( int i = 0; i < 3; i++ )
        {
            int j = ( i + 1 ) % 3, l = ( i + 2 ) % 3;
            ok &= same( q.f[ i ], a.f[ j ] * b.f[ l ] - a.f[ l ] * b.f[ j ] );
        }
        vf_assert( ok, "VecCross3D" );
    }
    if ( k == 3 )
    {
        V4 q = st( VecTransformVector3D( va, vb, vc, vp ) );
        int ok = 1;
        for ( int i = 0; i < 3; i++ ) ok &= same3( q.f[ i ], A * p.f[ 0 ], B * p.f[ 1 ], C * p.f[ 2 ] );
        vf_assert( ok, "VecTransformVector3D" );
    }
    if ( k == 4 )
    {
        V4 q = st( VecTransformPoint3D( va, vb, vc, vd, vp ) );
        int ok = 1;
        for ( int i = 0; i < 3; i++ ) ok &= same4( q.f[ i ], A * p.f[ 0 ], B * p.f[ 1 ], C * p.f[ 2 ], d.f[ i ] );
        vf_assert( ok, "VecTransformPoint3D" );
    }
}
static void part()
{
    uint32 k = vf_choice( 10, "function" );
    if ( k < 5 ) products( small( 0 ), small( 1 ), small( 2 ), small( 3 ), small( 5 ), k );
    else products( vec( 0 ), vec( 1 ), vec( 2 ), vec( 3 ), vec( 5 ), k - 5 );
    vf_reach( "end" );
}
#elif PART == 8 // conversion and integer lanes
template <class T, int n> struct I { T v[ n ]; };
template <class T> static I<T, 16 / sizeof( T )> so( const __m128i& v ) { I<T, 16 / sizeof( T )> r; _mm_storeu_si128( (__m128i*)r.v, v ); return r; }
#define CHK( T, r, e ) { auto q = so<T>( r ); int ok = 1; for ( int i = 0; i < (int)( 16 / sizeof( T ) ); i++ ) ok &= q.v[ i ] == (T)( e ); vf_assert( ok, #r ); }
static int sat( int v, int l, int h ) { return v < l ? l : v > h ? h : v; }
static void part()
{
    struct alignas( 16 ) Buf { uint8 x[ 48 ]; } s, t;
    vf_symbolic( &s, 32, "s" );
    vf_symbolic( &t, 32, "t" );
    int8 *s8 = (int8*)s.x, *t8 = (int8*)t.x;
    int16 *s16 = (int16*)s.x, *t16 = (int16*)t.x;
    int32 *s32 = (int32*)s.x, *t32 = (int32*)t.x;
    uint16* u16 = (uint16*)s.x;
    __m128i a = VecInt8Load( s8 ), b = VecInt8Load( t8 );
    CHK( int8, VecInt8Load( s8 ), s8[ i ] );
    CHK( int8, VecInt8LoadUnaligned( s8 + 3 ), s8[ i + 3 ] );
    CHK( uint8, VecUInt8Load( s.x ), s.x[ i ] );
    CHK( uint8, VecUInt8LoadUnaligned( s.x + 3 ), s.x[ i + 3 ] );
    CHK( int16, VecInt16Load( s16 ), s16[ i ] );
    CHK( int16, VecInt16LoadUnaligned( s16 + 3 ), s16[ i + 3 ] );
    CHK( uint16, VecUInt16Load( u16 ), u16[ i ] );
    CHK( uint16, VecUInt16LoadUnaligned( u16 + 3 ), u16[ i + 3 ] );
    CHK( int8, VecInt8GetZero(), 0 );
    CHK( int16, VecInt16GetZero(), 0 );
    CHK( int32, VecInt32GetZero(), 0 );
    CHK( uint8, VecInt8GetInfinity(), 0x80 );
    int32 o;
    VecInt32StoreX( a, &o ), vf_assert( o == s32[ 0 ], "VecInt32StoreX" );
    VecInt32StoreY( a, &o ), vf_assert( o == s32[ 1 ], "VecInt32StoreY" );
    VecInt32StoreZ( a, &o ), vf_assert( o == s32[ 2 ], "VecInt32StoreZ" );
    VecInt32StoreW( a, &o ), vf_assert( o == s32[ 3 ], "VecInt32StoreW" );
    CHK( int16, VecInt32PackSaturate( a ), sat( s32[ i & 3 ], -32768, 32767 ) );
    CHK( int16, VecInt32PackSaturate( a, b ), sat( i < 4 ? s32[ i & 3 ] : t32[ i & 3 ], -32768, 32767 ) );
    CHK( int8, VecInt16PackSaturate( a ), sat( s16[ i & 7 ], -128, 127 ) );
    CHK( uint8, VecInt16PackUnsignedSaturate( a ), sat( s16[ i & 7 ], 0, 255 ) );
    CHK( int16, VecInt8UnpackA( a ), s8[ i ] );
    CHK( int16, VecInt8UnpackB( a ), s8[ i + 8 ] );
    CHK( uint16, VecUInt8UnpackA( a ), s.x[ i ] );
    CHK( uint16, VecUInt8UnpackB( a ), s.x[ i + 8 ] );
    CHK( int32, VecInt16UnpackA( a ), s16[ i ] );
    CHK( int32, VecInt16UnpackB( a ), s16[ i + 4 ] );
    CHK( uint32, VecUInt16UnpackA( a ), u16[ i ] );
    CHK( uint32, VecUInt16UnpackB( a ), u16[ i + 4 ] );
    CHK( int8, VecInt8MergeA( a, b ), ( i & 1 ? t8 : s8 )[ i / 2 ] );
    CHK( int8, VecInt8MergeB( a, b ), ( i & 1 ? t8 : s8 )[ 8 + i / 2 ] );
    CHK( uint8, VecUInt8MergeA( a, b ), (uint8)( i & 1 ? t8 : s8 )[ i / 2 ] );
    CHK( uint8, VecUInt8MergeB( a, b ), (uint8)( i & 1 ? t8 : s8 )[ 8 + i / 2 ] );
    CHK( int16, VecInt16Deinterleave( a ), s16[ i < 4 ? 2 * i : 2 * i - 7 ] );
    CHK( int32, VecInt32Add( a, b ), (uint32)s32[ i ] + (uint32)t32[ i ] );
    CHK( int32, VecInt32Sub( a, b ), (uint32)s32[ i ] - (uint32)t32[ i ] );
    vf_reach( "end" );
}
#elif PART == 9 // conversion between floats and integers
static void part()
{
    int32 n = (int32)vf_u32( "n" );
    float x = any( "x" );
    alignas( 16 ) int32 m[ 4 ] = { n, 3, -7, 0 };
    V4 r = st( VecInt32ConvertFloat( _mm_load_si128( (const __m128i*)m ) ) );
    vf_assert( same( r.f[ 0 ], (float)n ) && r.f[ 1 ] == 3 && r.f[ 2 ] == -7 && r.f[ 3 ] == 0, "VecInt32ConvertFloat" );
    if ( x > -2147483648.0F && x < 2147483648.0F )
    {
        V4 a = { { x, 2.5F, -3.5F, 0.75F } };
        vf_assert( VecTruncateConvert( ld( a ) ) == (int32)x, "VecTruncateConvert" );
        int32 q[ 4 ];
        _mm_storeu_si128( (__m128i*)q, VecConvertInt32( ld( a ) ) );
        vf_assert( q[ 0 ] == (int32)__builtin_rintf( x ) && q[ 1 ] == 2 && q[ 2 ] == -4 && q[ 3 ] == 1, "VecConvertInt32" );
        vf_reach( "range" );
    }
    vf_reach( "end" );
}
#endif
extern "C" void vf_main() { part(); }
