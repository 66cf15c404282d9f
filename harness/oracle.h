// Independent reference for RFC 8259 texts, used by the harnesses. Shares nothing with the library.
#pragma once
#include "vf.h"

namespace oracle
{
    enum Verdict { kReject = 0, kAccept = 1, kUnspecified = 2 };

    struct Scan
    {
        const unsigned char* b;
        int  n;           // number of bytes
        int  i     = 0;
        bool bad   = false;
        int  tok   = 0;   // start of the token touching the failure
        int  tokEnd = -1; // end of the last scalar token
        int  tokBeg = 0;
        bool loneSurrogate = false;
        int  maxDepth = 0;

        int at( int k ) const { return k < n ? b[ k ] : -1; }
        int cur() const { return at( i ); }
        void fail() { bad = true; }
        void ws()
        {
            for ( ;; )
            {
                int c = cur();
                if ( c == ' ' || c == '\t' || c == '\n' || c == '\r' ) i++;
                else return;
            }
        }
        static int hex( int c )
        {
            if ( c >= '0' && c <= '9' ) return c - '0';
            if ( c >= 'a' && c <= 'f' ) return c - 'a' + 10;
            if ( c >= 'A' && c <= 'F' ) return c - 'A' + 10;
            return -1;
        }
        bool digit( int c ) const { return c >= '0' && c <= '9'; }
        // four hexadecimal digits at i; on failure i is at the offending byte
        int hex4()
        {
            int v = 0;
            for ( int k = 0; k < 4; k++ )
            {
                int h = hex( cur() );
                if ( h < 0 ) { fail(); return -1; }
                v = v * 16 + h;
                i++;
            }
            return v;
        }
        // i at the byte after the opening quote; decodes into out when given
        void str( unsigned char* out, int& len )
        {
            len = 0;
            auto put = [ & ]( int c ) { if ( out ) out[ len ] = (unsigned char)c; len++; };
            for ( ;; )
            {
                int c = cur();
                if ( c < 0x20 ) { fail(); return; } // end of text or control character
                if ( c == '"' ) { i++; return; }
                if ( c == '\\' )
                {
                    i++;
                    c = cur();
                    int v = c == '"' ? '"' : c == '\\' ? '\\' : c == '/' ? '/' : c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : -1;
                    if ( v >= 0 ) { put( v ); i++; continue; }
                    if ( c != 'u' ) { fail(); return; }
                    i++;
                    int u = hex4();
                    if ( bad ) return;
                    if ( u == 0 ) { i--; fail(); return; } // documented exception: no zero characters in strings
                    if ( u >= 0xD800 && u <= 0xDBFF && at( i ) == '\\' && at( i + 1 ) == 'u' )
                    {
                        int lo = 0, k = 0;
                        for ( ; k < 4; k++ )
                        {
                            int h = hex( at( i + 2 + k ) );
                            if ( h < 0 ) break;
                            lo = lo * 16 + h;
                        }
                        if ( k == 4 && lo >= 0xDC00 && lo <= 0xDFFF )
                        {
                            i += 6;
                            u = 0x10000 + ( ( u - 0xD800 ) << 10 ) + ( lo - 0xDC00 );
                        }
                        else loneSurrogate = true;
                    }
                    else if ( u >= 0xD800 && u <= 0xDFFF ) loneSurrogate = true;
                    if ( u < 0x80 ) put( u );
                    else if ( u < 0x800 ) { put( 0xC0 | ( u >> 6 ) ); put( 0x80 | ( u & 63 ) ); }
                    else if ( u < 0x10000 ) { put( 0xE0 | ( u >> 12 ) ); put( 0x80 | ( ( u >> 6 ) & 63 ) ); put( 0x80 | ( u & 63 ) ); }
                    else { put( 0xF0 | ( u >> 18 ) ); put( 0x80 | ( ( u >> 12 ) & 63 ) ); put( 0x80 | ( ( u >> 6 ) & 63 ) ); put( 0x80 | ( u & 63 ) ); }
                    continue;
                }
                if ( c < 0x80 ) { put( c ); i++; continue; }
                // UTF-8, table 3-7 of the Unicode standard
                int need, lo = 0x80, hi = 0xBF;
                if ( c >= 0xC2 && c <= 0xDF ) need = 1;
                else if ( c >= 0xE0 && c <= 0xEF ) { need = 2; if ( c == 0xE0 ) lo = 0xA0; }
                else if ( c >= 0xF0 && c <= 0xF4 ) { need = 3; if ( c == 0xF0 ) lo = 0x90; if ( c == 0xF4 ) hi = 0x8F; }
                else { fail(); return; }
                if ( c == 0xED && at( i + 1 ) >= 0xA0 && at( i + 1 ) <= 0xBF ) loneSurrogate = true;
                int st = i;
                i++;
                for ( int k = 0; k < need; k++ )
                {
                    int d = cur();
                    if ( d < lo || d > hi ) { fail(); return; }
                    lo = 0x80;
                    hi = 0xBF;
                    i++;
                }
                for ( int k = st; k < i; k++ ) put( b[ k ] );
            }
        }
        void num()
        {
            if ( cur() == '-' ) i++;
            if ( cur() == '0' ) i++;
            else if ( digit( cur() ) ) while ( digit( cur() ) ) i++;
            else { fail(); return; }
            if ( cur() == '.' )
            {
                i++;
                if ( !digit( cur() ) ) { fail(); return; }
                while ( digit( cur() ) ) i++;
            }
            if ( cur() == 'e' || cur() == 'E' )
            {
                i++;
                if ( cur() == '+' || cur() == '-' ) i++;
                if ( !digit( cur() ) ) { fail(); return; }
                while ( digit( cur() ) ) i++;
            }
        }
        void lit( const char* s )
        {
            for ( ; *s; s++ )
            {
                if ( cur() != *s ) { fail(); return; }
                i++;
            }
        }
        void value( int depth )
        {
            if ( depth > maxDepth ) maxDepth = depth;
            int c = cur();
            if ( c == '[' )
            {
                i++;
                ws();
                if ( cur() == ']' ) { i++; return; }
                for ( ;; )
                {
                    value( depth + 1 );
                    if ( bad ) return;
                    ws();
                    if ( cur() == ',' ) { i++; ws(); continue; }
                    if ( cur() == ']' ) { i++; return; }
                    fail();
                    return;
                }
            }
            if ( c == '{' )
            {
                i++;
                ws();
                if ( cur() == '}' ) { i++; return; }
                for ( ;; )
                {
                    if ( cur() != '"' ) { fail(); return; }
                    tokBeg = i;
                    i++;
                    int len;
                    str( nullptr, len );
                    if ( bad ) return;
                    tokEnd = i;
                    ws();
                    if ( cur() != ':' ) { fail(); return; }
                    i++;
                    ws();
                    value( depth + 1 );
                    if ( bad ) return;
                    ws();
                    if ( cur() == ',' ) { i++; ws(); continue; }
                    if ( cur() == '}' ) { i++; return; }
                    fail();
                    return;
                }
            }
            tokBeg = i;
            if ( c == '"' ) { i++; int len; str( nullptr, len ); }
            else if ( c == 't' ) lit( "true" );
            else if ( c == 'f' ) lit( "false" );
            else if ( c == 'n' ) lit( "null" );
            else if ( c == '-' || digit( c ) ) num();
            else { fail(); return; }
            if ( !bad ) tokEnd = i;
        }
        // Result: kAccept / kReject / kUnspecified; after kReject, i is the first byte at which the
        // text stops being the beginning of a valid text, and tok <= i the start of the token there.
        Verdict text()
        {
            ws();
            value( 0 );
            if ( !bad )
            {
                ws();
                if ( i != n ) fail();
            }
            if ( bad )
            {
                // the failure lies inside token tokBeg (its end was not reached) or touches its end
                tok = ( tokEnd < tokBeg || tokEnd == i ) && tokBeg <= i ? tokBeg : i;
                return kReject;
            }
            return loneSurrogate ? kUnspecified : kAccept;
        }
    };
} // namespace oracle
