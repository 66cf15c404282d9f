// The integer primitives of TSBasic.h against their definitions, for every argument of their domain.
#include "TSBasic.h"
#include "vf.h"
using namespace Terathon;
static int32 i32( const char* n ) { return (int32)vf_u32( n ); }
static int64 i64( const char* n ) { return (int64)vf_u64( n ); }
template <int32 m>
static void mods( int32 x )
{
    if ( x < 0 || x >= m ) return;
    vf_assert( IncMod<m>( x ) == ( x == m - 1 ? 0 : x + 1 ), "IncMod" );
    vf_assert( DecMod<m>( x ) == ( x ? x - 1 : m - 1 ), "DecMod" );
}
extern "C" void vf_main()
{
    int32 x = i32( "x" ), y = i32( "y" );
    int64 X = i64( "X" ), Y = i64( "Y" );
    if ( x != INT32_MIN ) { int32 a = Abs( x ); vf_assert( a >= 0 && ( a == x || a == -x ), "Abs" ); }
    if ( X != INT64_MIN ) { int64 a = Abs64( X ); vf_assert( a >= 0 && ( a == X || a == -X ), "Abs64" ); }
    vf_assert( Sgn( x ) == ( x > 0 ? 1 : x < 0 ? -1 : 0 ), "Sgn" );
    vf_assert( Sgn64( X ) == ( X > 0 ? 1 : X < 0 ? -1 : 0 ), "Sgn64" );
    int32 mn = Min( x, y ), mx = Max( x, y );
    vf_assert( mn <= x && mn <= y && ( mn == x || mn == y ), "Min" );
    vf_assert( mx >= x && mx >= y && ( mx == x || mx == y ), "Max" );
    int64 mN = Min64( X, Y ), mX = Max64( X, Y );
    vf_assert( mN <= X && mN <= Y && ( mN == X || mN == Y ), "Min64" );
    vf_assert( mX >= X && mX >= Y && ( mX == X || mX == Y ), "Max64" );
    vf_assert( MinZero( x ) == ( x < 0 ? x : 0 ), "MinZero" );
    vf_assert( MaxZero( x ) == ( x > 0 ? x : 0 ), "MaxZero" );
    vf_assert( MinZero64( X ) == ( X < 0 ? X : 0 ), "MinZero64" );
    vf_assert( MaxZero64( X ) == ( X > 0 ? X : 0 ), "MaxZero64" );
    mods<1>( x );
    mods<2>( x );
    mods<3>( x );
    mods<7>( x );
    mods<0x7FFFFFFF>( x );
    if ( x >= 0 && y >= 0 ) vf_assert( OverflowZero( x, y ) == ( x < y ? x : 0 ), "OverflowZero" );
    {
        int32 a = x, b = y;
        Exchange( a, b );
        vf_assert( a == y && b == x, "Exchange" );
        Exchange( a, a );
        vf_assert( a == y, "Exchange of a value with itself" );
        int64 A = X, B = Y;
        Exchange( A, B );
        vf_assert( A == Y && B == X, "Exchange of 64-bit values" );
        uint32 fx = vf_u32( "fx" ), fy = vf_u32( "fy" );
        vf_assume( ( fx & 0x7F800000 ) != 0x7F800000 && ( fy & 0x7F800000 ) != 0x7F800000 );
        float f, g;
        __builtin_memcpy( &f, &fx, 4 );
        __builtin_memcpy( &g, &fy, 4 );
        Exchange( f, g );
        uint32 rf, rg;
        __builtin_memcpy( &rf, &f, 4 );
        __builtin_memcpy( &rg, &g, 4 );
        vf_assert( rf == fy && rg == fx, "Exchange of floats" );
    }
    uint32 n = vf_u32( "n" ), i = vf_u32( "i" );
    int32 c = Cntlz( n );
    if ( n == 0 ) vf_assert( c == 32, "Cntlz of zero" );
    else
    {
        vf_assert( c >= 0 && c <= 31 && ( n >> ( 31 - c ) ) == 1, "Cntlz" );
        int32 l = IntLog2( n );
        vf_assert( l >= 0 && l <= 31 && ( n >> l ) == 1, "IntLog2" );
        uint32 f = Pow2Floor( n );
        vf_assert( f <= n && f != 0 && ( f & ( f - 1 ) ) == 0 && f > n / 2, "Pow2Floor" );
        if ( n <= 0x80000000u )
        {
            uint32 p = Pow2Ceil( n );
            vf_assert( p >= n && ( p & ( p - 1 ) ) == 0 && p / 2 < n, "Pow2Ceil" );
        }
    }
    (void)i;
    vf_reach( "end" );
}
