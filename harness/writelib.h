// What a written text has to look like, given the text it comes from.
#pragma once
#include "jsonlib.h"

// Walks two valid texts and asserts that they say the same, with members in the same order (a
// repeated name of the first text counts once).
struct Mirror
{
    oracle::Scan a, b;
    unsigned char x[ kTextMax ], y[ kTextMax ];
    bool inf = false; // the first text has a number beyond the range of double

    void strings()
    {
        int n, m;
        a.i++;
        b.i++;
        a.str( x, n );
        b.str( y, m );
        vf_assert( n == m, "a string or name is written with another length" );
        for ( int i = 0; i < n; i++ ) vf_assert( x[ i ] == y[ i ], "a string or name is written with other bytes" );
    }
    double number( oracle::Scan& s )
    {
        int st = s.i;
        s.num();
        bool neg = s.b[ st ] == '-';
        int  p   = neg ? st + 1 : st;
        double d = vf_dec2double( (const char*)s.b + p, (size_t)( s.i - p ) );
        return neg ? -d : d;
    }
    void value()
    {
        int c = a.cur(), d = b.cur();
        if ( c == '"' )
        {
            vf_assert( d == '"', "a string is not written as a string" );
            strings();
        }
        else if ( c == 't' || c == 'f' || c == 'n' )
        {
            vf_assert( c == d, "a literal is written as something else" );
            a.i += c == 'f' ? 5 : 4;
            b.i += c == 'f' ? 5 : 4;
        }
        else if ( c == '[' )
        {
            vf_assert( d == '[', "an array is not written as an array" );
            a.i++; b.i++;
            a.ws(); b.ws();
            if ( a.cur() != ']' )
                for ( ;; )
                {
                    vf_assert( b.cur() != ']', "an array is written with too few elements" );
                    value();
                    a.ws(); b.ws();
                    if ( a.cur() != ',' ) break;
                    vf_assert( b.cur() == ',', "an array is written with too few elements" );
                    a.i++; b.i++;
                    a.ws(); b.ws();
                }
            vf_assert( b.cur() == ']', "an array is written with too many elements" );
            a.i++; b.i++;
        }
        else if ( c == '{' )
        {
            vf_assert( d == '{', "an object is not written as an object" );
            a.i++; b.i++;
            a.ws(); b.ws();
            int st[ kMembersMax < 64 ? 64 : kMembersMax ], n = 0;
            if ( a.cur() != '}' )
                for ( ;; )
                {
                    // a repetition of an earlier name of this object?
                    bool dup = false;
                    oracle::Scan s = a;
                    int len;
                    s.i++;
                    s.str( x, len );
                    for ( int k = 0; k < n; k++ )
                    {
                        oracle::Scan t { a.b, a.n };
                        t.i = st[ k ] + 1;
                        int m;
                        t.str( y, m );
                        bool eq = m == len;
                        for ( int q = 0; eq && q < m; q++ ) eq = x[ q ] == y[ q ];
                        dup |= eq;
                    }
                    if ( dup )
                    {
                        a = s;
                        a.ws();
                        a.i++;
                        a.ws();
                        a.value( 0 );
                    }
                    else
                    {
                        if ( n )
                        {
                            vf_assert( b.cur() == ',', "an object is written with too few members" );
                            b.i++;
                            b.ws();
                        }
                        vf_assert( b.cur() == '"', "an object is written with too few members" );
                        st[ n++ ] = a.i;
                        strings();
                        a.ws(); b.ws();
                        a.i++; b.i++;
                        a.ws(); b.ws();
                        value();
                        b.ws();
                    }
                    a.ws();
                    if ( a.cur() != ',' ) break;
                    a.i++;
                    a.ws();
                }
            vf_assert( b.cur() == '}', "an object is written with too many members" );
            a.i++; b.i++;
        }
        else
        {
            double p = number( a );
            vf_assert( b.digit( d ) || d == '-', "a number is not written as a number" );
            double q = number( b );
            vf_assert( dbits( p ) == dbits( q ), "a number is written with another value" );
        }
    }
};

// every nested value starts a line, indented by depth * len characters ch
static inline void checkIndentation( const unsigned char* b, int n, int len, int ch )
{
    int depth = 0;
    for ( int i = 0; i < n; i++ )
    {
        if ( b[ i ] == '"' )
        {
            for ( i++; b[ i ] != '"'; i++ ) if ( b[ i ] == '\\' ) i++;
            continue;
        }
        bool nl = false;
        if ( b[ i ] == '[' || b[ i ] == '{' ) { depth++; nl = b[ i + 1 ] != ( b[ i ] == '[' ? ']' : '}' ); }
        else if ( b[ i ] == ']' || b[ i ] == '}' ) depth--;
        else if ( b[ i ] == ',' ) nl = true;
        if ( nl ) vf_assert( i + 1 < n && b[ i + 1 ] == '\n', "a nested value does not start a line" );
        if ( b[ i ] == '\n' && i + 1 < n && ch != '\n' )
        {
            int k = 0;
            while ( i + 1 < n && b[ i + 1 ] == ch ) { k++; i++; }
            int want = ( b[ i + 1 ] == ']' || b[ i + 1 ] == '}' ? depth - 1 : depth ) * len;
            vf_assert( k == want, "a line is indented by another number of characters than asked for" );
        }
    }
}
// the first text holds a number whose double is infinite
static inline bool hasInfinity( const unsigned char* b, int n )
{
    for ( int i = 0; i < n; i++ )
    {
        if ( b[ i ] == '"' ) { for ( i++; b[ i ] != '"'; i++ ) if ( b[ i ] == '\\' ) i++; continue; }
        if ( b[ i ] >= '0' && b[ i ] <= '9' )
        {
            oracle::Scan s { b, n };
            s.i = i;
            s.num();
            double d = vf_dec2double( (const char*)b + i, (size_t)( s.i - i ) );
            if ( !( d - d == 0 ) ) return true;
            i = s.i - 1;
        }
    }
    return false;
}
