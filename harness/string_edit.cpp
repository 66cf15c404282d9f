// The editing functions of dynamic strings on every text of up to N free bytes after a fixed beginning.
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
static char t[ 200 ], e[ 800 ];
static int  n, m;
static void is( const String<>& s )
{
    const char* p = s;
    vf_assert( s.GetStringLength() == m, "an edited string reports another length" );
    for ( int i = 0; i < m; i++ ) vf_assert( p[ i ] == e[ i ], "an edited string has another character" );
    vf_assert( p[ m ] == 0, "an edited string is not terminated at its length" );
}
static int hexval( int c ) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
extern "C" void vf_main()
{
    static const int fixed[] = { 0, 9, 12, 58 };
    int k = fixed[ vf_choice( 4, "fixed" ) ], f = (int)vf_choice( N + 1, "free" );
    for ( n = 0; n < k; n++ ) t[ n ] = (char)( 'A' + n );
    for ( int i = 0; i < f; i++ )
    {
        vf_symbolic( &t[ n ], 1, "byte" );
        vf_assume( t[ n ] != 0 );
        n++;
    }
    t[ n ] = 0;
    int op = (int)vf_choice( 5, "operation" );
    if ( op >= 3 ) // one kind of character at a time
        for ( int i = k; i < n; i++ )
        {
            unsigned char c = (unsigned char)t[ i ];
            int special = ( c < 32 ) | ( c == 127 ), quoted = ( c == '"' ) | ( c == '\\' ), letter = ( c >= 7 ) & ( c <= 13 );
            switch ( vf_choice( 4, "kind" ) )
            {
                case 0: vf_assume( !( special | quoted ) ); break;
                case 1: vf_assume( letter ); break;
                case 2: vf_assume( quoted ); break;
                default: vf_assume( special & !letter );
            }
        }
    String<> s( t );
    String<>* r = nullptr;
    m = n;
    switch ( op )
    {
        case 0:
            for ( int i = 0; i < n; i++ ) e[ i ] = t[ i ] >= 'A' && t[ i ] <= 'Z' ? (char)( t[ i ] + 32 ) : t[ i ];
            r = &s.ConvertToLowerCase();
            break;
        case 1:
            for ( int i = 0; i < n; i++ ) e[ i ] = t[ i ] >= 'a' && t[ i ] <= 'z' ? (char)( t[ i ] - 32 ) : t[ i ];
            r = &s.ConvertToUpperCase();
            break;
        case 2:
        {
            char x = (char)vf_u8( "from" ), y = (char)vf_u8( "to" );
            vf_assume( y != 0 );
            for ( int i = 0; i < n; i++ ) e[ i ] = t[ i ] == x ? y : t[ i ];
            r = &s.ReplaceChar( x, y );
            break;
        }
        default: // escape sequences: reading them back gives the text
        {
            r = &s.EncodeEscapeSequences();
            const unsigned char* p = (const unsigned char*)(const char*)s;
            int o = 0;
            for ( int i = 0; i < n; i++ )
            {
                int c = (unsigned char)t[ i ];
                if ( c >= 32 && c != 127 && c != '"' && c != '\\' )
                {
                    vf_assert( p[ o ] == c, "an ordinary character is changed by escaping" );
                    o++;
                    continue;
                }
                vf_assert( p[ o ] == '\\', "a character is not escaped" );
                int want = c == 7 ? 'a' : c == 8 ? 'b' : c == 9 ? 't' : c == 10 ? 'n' : c == 11 ? 'v' : c == 12 ? 'f' : c == 13 ? 'r' : c == '"' ? '"' : c == '\\' ? '\\' : 'x';
                vf_assert( p[ o + 1 ] == want, "a character is escaped as another one" );
                o += 2;
                if ( want == 'x' )
                {
                    vf_assert( hexval( p[ o ] ) == c / 16 && hexval( p[ o + 1 ] ) == c % 16, "a control character is escaped as another one" );
                    o += 2;
                }
            }
            m = o;
            for ( int i = 0; i < m; i++ ) e[ i ] = (char)p[ i ];
        }
    }
    vf_assert( r == &s, "an editing function returns another string" );
    is( s );
    if ( op == 4 ) s.SetStringLength( m = m < 5 ? m : 5 ), is( s );
    s += '!';
    e[ m++ ] = '!';
    is( s );
    String<> c( s );
    is( c );
    vf_observe( (uint64_t)m );
    vf_reach( "end" );
}
