// Every text of a template: acceptance, tree and error position against the oracle.
#include "jsonlib.h"
#include "tpl.h"
extern "C" void vf_main()
{
    unsigned char b[ TPLN + 1 ];
    int n = fillTemplate( b );
    {
        StructuredData sd;
        Array<char>    t;
        setText( t, b, n );
        ParseResult r = sd.Parse( t );
        checkParse( sd, r, b, n, WHAT );
    }
    if ( WHAT & 8 ) vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
