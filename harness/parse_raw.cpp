// Buffers of N arbitrary bytes with no terminator of their own, parsed twice.
#include "jsonlib.h"
extern "C" void vf_main()
{
    int n = (int)vf_choice( N + 1, "n_len" );
    unsigned char b[ N + 1 ];
    vf_symbolic( b, N, "text" );
    {
        StructuredData sd;
        Array<char>    a;
        a.ReserveArrayElementCount( n );
        for ( int i = 0; i < n; i++ ) a.AppendArrayElement( (char)b[ i ] );
        ParseResult r = sd.Parse( a );
        if ( n < 2 ) vf_assert( r.status == Status::kTextBufferContentsInvalid, "a buffer with room for no text is not reported as such" );
        else if ( b[ n - 1 ] ) vf_assert( r.status == Status::kUnterminatedTextBuffer, "an unterminated buffer is not reported as such" );
        else
        {
            checkParse( sd, r, b, n - 1, 1 );
            r = sd.Parse( a );
            checkParse( sd, r, b, n - 1, 3 );
        }
        vf_reach( "end" );
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
