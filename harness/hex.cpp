// The hexadecimal and type-code texts of every integer.
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
// without branches: -1 if c is no hexadecimal digit
static int hexval( char ch )
{
    int c = (unsigned char)ch, d = ( c >= '0' ) & ( c <= '9' ), u = ( c >= 'A' ) & ( c <= 'F' ), l = ( c >= 'a' ) & ( c <= 'f' );
    return ( -d & ( c - '0' ) ) | ( -u & ( c - 'A' + 10 ) ) | ( -l & ( c - 'a' + 10 ) ) | -( 1 - ( d | u | l ) );
}
template <int L>
static void hexis( const String<L>& s, uint64 v, int n )
{
    for ( int i = 0; i < n; i++ ) vf_assert( hexval( s[ i ] ) == (int)( ( v >> ( 4 * ( n - 1 - i ) ) ) & 15 ), "a hexadecimal digit is wrong" );
    vf_assert( s[ n ] == 0, "a hexadecimal text has another length" );
}
extern "C" void vf_main()
{
    uint64 v = vf_u64( "value" );
    uint32 t = vf_u32( "type" );
#if FN == 1
    switch ( vf_choice( 4, "function" ) )
    {
    case 0: hexis( Text::Integer64ToHexString16( v ), v, 16 ); break;
    case 1: hexis( Text::IntegerToHexString8( t ), t, 8 ); break;
    case 2: hexis( Text::IntegerToHexString4( t ), t & 0xFFFF, 4 ); break;
    default: hexis( Text::IntegerToHexString2( t ), t & 0xFF, 2 );
    }
#else // type codes: up to four bytes, most significant first; leading zero byte means three characters
    char e[ 8 ];
    int  n = 0;
    for ( int i = 3; i >= 0; i-- )
    {
        char c = (char)( t >> ( 8 * i ) );
        if ( i == 3 && c == 0 ) continue;
        e[ n++ ] = c;
    }
    e[ n ] = 0;
    String<4> s = Text::TypeToString( t );
    bool inner = false; // a zero byte inside: the text ends there
    for ( int i = 0; i <= n; i++ )
    {
        if ( !inner ) vf_assert( s[ i ] == e[ i ], "a type code has other characters than its bytes" );
        if ( e[ i ] == 0 ) inner = true;
    }
    int len = s.GetStringLength();
    if ( len == n )
    {
        uint32 back = Text::StringToType( s );
        vf_assert( back == ( n == 4 ? t : t << 8 ), "a type text is read back as another code" );
        vf_reach( "back" );
    }
    String<31> h = Text::TypeToHexCharString( t );
    vf_assert( h[ 0 ] == '0' && h[ 1 ] == 'x', "the hexadecimal form of a type code has another prefix" );
    for ( int i = 0; i < 8; i++ ) vf_assert( hexval( h[ 2 + i ] ) == (int)( ( t >> ( 4 * ( 7 - i ) ) ) & 15 ), "a hexadecimal digit of a type code is wrong" );
    vf_assert( h[ 10 ] == ' ' && h[ 11 ] == '\'', "the hexadecimal form of a type code has another separator" );
    for ( int i = 0; i < len; i++ ) vf_assert( h[ 12 + i ] == s[ i ], "the hexadecimal form of a type code shows other characters" );
    vf_assert( h[ 12 + len ] == '\'' && h[ 13 + len ] == 0, "the hexadecimal form of a type code ends otherwise" );
#endif
    vf_reach( "end" );
}
