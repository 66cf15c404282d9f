// Text templates: '?' is any byte, '@' a byte of the alphabet, everything else is itself.
#pragma once
#include "vf.h"
#ifndef ALPHA
#define ALPHA ""
#endif

template <int N>
static inline void fillText( const char ( &t )[ N ], const char* alpha, unsigned char* b, const char* name )
{
    int holes = 0;
    for ( int i = 0; i < N - 1; i++ ) holes += t[ i ] == '?' || t[ i ] == '@';
    unsigned char h[ N ];
    if ( holes ) vf_symbolic( h, holes, name );
    int k = 0;
    for ( int i = 0; i < N - 1; i++ )
    {
        b[ i ] = (unsigned char)t[ i ];
        if ( b[ i ] == '?' ) b[ i ] = h[ k++ ];
        else if ( b[ i ] == '@' )
        {
            b[ i ] = h[ k++ ];
            int ok = 0;
            for ( const char* p = alpha; *p; p++ ) ok |= b[ i ] == (unsigned char)*p;
            vf_assume( ok );
        }
    }
    b[ N - 1 ] = 0;
}

#ifdef TPL
enum { TPLN = sizeof( TPL ) - 1 };
// fills b[0..TPLN); with VARLEN the text may stop anywhere after the first VARLEN bytes
static inline int fillTemplate( unsigned char* b )
{
    fillText( TPL, ALPHA, b, "text" );
    int n = TPLN;
#ifdef VARLEN
    n = (int)vf_choice( TPLN + 1 - VARLEN, "n_len" ) + VARLEN;
#endif
    return n;
}
#endif
