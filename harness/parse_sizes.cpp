// Acceptance, tree and position for texts of every size in a range.
#include "jsonlib.h"
#include "sizes.h"
static Sized z;
extern "C" void vf_main()
{
    z.build( LIM, BIG );
    {
        StructuredData sd;
        Array<char>    t;
        setText( t, z.b, z.n );
        ParseResult r = sd.Parse( t );
        checkParse( sd, r, z.b, z.n, WHAT );
    }
    if ( WHAT & 8 ) vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
