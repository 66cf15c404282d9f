// Texts of every size in a range, with a few free bytes: long strings and names, arrays and objects
// with many entries, deep nesting, long numbers and long whitespace.
#pragma once
#include "vf.h"
struct Sized
{
#ifdef SIZES // exceptional sizes
    unsigned char b[ 70000 ];
#else
    unsigned char b[ 2048 ];
#endif
    int n = 0;
    void ch( int c ) { b[ n++ ] = (unsigned char)c; }
    void s( const char* p ) { while ( *p ) ch( *p++ ); }
    void num( int v ) { if ( v >= 10 ) num( v / 10 ); ch( '0' + v % 10 ); }
    void name( int kind, int i, int k )
    {
        // distinct names of several patterns and lengths
        ch( '"' );
        if ( kind == 0 ) { ch( 'a' + i % 26 ); if ( i >= 26 ) ch( 'a' + i / 26 ); }
        else if ( kind == 1 ) { ch( 'z' - i % 26 ); if ( i >= 26 ) ch( 'z' - i / 26 ); }
        else { ch( 'a' + ( i * 7 ) % 26 ); s( "xx" + ( i & 1 ) ); if ( i >= 26 ) ch( 'q' ); }
        ch( '"' );
    }
    void build( int lim, int big )
    {
        unsigned char h[ 3 ];
        vf_symbolic( h, 3, "free" );
#ifdef SIZES
        static const int kinds[] = KINDS, sizes[] = SIZES;
        int kind = kinds[ vf_choice( sizeof kinds / sizeof *kinds, "kind" ) ];
        int k    = sizes[ vf_choice( sizeof sizes / sizeof *sizes, "size" ) ];
#else
        int kind = (int)vf_choice( 9, "kind" );
        int k    = (int)vf_choice( (uint32_t)( kind <= 1 || kind >= 7 ? big : lim ), "n_size" );
#endif
        switch ( kind )
        {
            case 0: // a string of length k
                s( "[\"" );
                for ( int i = 0; i < k; i++ ) ch( i == k - 1 ? h[ 0 ] : i == 0 ? h[ 1 ] : 'a' + i % 26 );
                s( "\"]" );
                break;
            case 1: // a name of length k
                s( "{\"" );
                for ( int i = 0; i < k; i++ ) ch( i == k - 1 ? h[ 0 ] : 'a' + i % 26 );
                s( "\":true}" );
                break;
            case 2: // k elements
                ch( '[' );
                for ( int i = 0; i < k; i++ )
                {
                    if ( i ) ch( ',' );
                    if ( i == k - 1 ) ch( h[ 0 ] );
                    else num( i );
                }
                ch( ']' );
                break;
            case 3: case 4: case 5: // k members in three orders
                ch( '{' );
                for ( int i = 0; i < k; i++ )
                {
                    if ( i ) ch( ',' );
                    name( kind - 3, i, k );
                    ch( ':' );
                    if ( i == k - 1 ) { ch( '"' ); ch( h[ 0 ] ); ch( '"' ); }
                    else num( i );
                }
                ch( '}' );
                break;
            case 6: // k levels
                for ( int i = 0; i < k; i++ )
                    if ( i & 1 ) s( "{\"a\":" );
                    else ch( '[' );
                s( "12" );
                for ( int i = k - 1; i >= 0; i-- ) ch( i == k / 2 ? h[ 0 ] : i & 1 ? '}' : ']' );
                break;
            case 7: // k digits, then an exponent or a fraction
                s( "[-1" );
                for ( int i = 0; i < k; i++ ) ch( '0' + i * 7 % 10 );
                if ( k & 1 ) ch( '.' );
                else ch( 'e' );
                ch( '1' );
                s( "," );
                ch( h[ 0 ] );
                ch( ']' );
                break;
            case 9: case 10: // k newlines or spaces
                s( "[1" );
                for ( int i = 0; i < k; i++ ) ch( kind == 9 ? '\n' : ' ' );
                ch( h[ 0 ] );
                s( "\"\"" );
                ch( h[ 1 ] );
                break;
            case 8: // k escapes after each other
                ch( '"' );
                for ( int i = 0; i < k; i++ )
                    if ( n < 900 ) s( i % 3 == 0 ? "\\n" : i % 3 == 1 ? "\\u20aC" : "\\uD83d\\ude00" );
                ch( h[ 0 ] );
                ch( '"' );
                for ( int i = 0; i < k / 8; i++ ) ch( i == 0 ? h[ 1 ] : " \n\t\r"[ i & 3 ] );
                break;
        }
        b[ n ] = 0;
    }
};
