// A file and a buffer with the same bytes parse alike, however reads are split; faults are reported.
#include "jsonlib.h"
#include "tpl.h"
static unsigned char text[ TPLN + 1 ], data[ TPLN + 1 ];
extern "C" void vf_main()
{
    int n = fillTemplate( text );
    for ( int i = 0; i < n; i++ ) data[ i ] = text[ i ];
    vf_file* f = vf_fs_add( "in", data, (uint64_t)n, TPLN, 1 );
    vf_read_mode = SHORT;
    uint32_t fault = 0;
#ifdef FAULT
    // 0 none, 1 open, 2 fstat, 3 a file shorter than its size, 4 missing file, 5.. the read that fails
    fault = vf_choice( FAULT, "fault" );
    if ( fault == 1 ) vf_open_fail = 1;
    if ( fault == 2 ) vf_fstat_fail = 1;
    if ( fault == 3 )
    {
        f->use_override        = 1;
        f->fstat_size_override = (uint64_t)n + 1 + vf_choice( 9, "n_more" );
    }
    if ( fault == 4 ) f->exists = 0;
    if ( fault >= 5 )
    {
        vf_read_fail_armed = 1;
        vf_read_fail_at    = fault - 5;
    }
#endif
    {
        StructuredData sd;
#ifdef USED
        Array<char> old;
        setText( old, (const unsigned char*)"[7]", 3 );
        vf_assert( sd.Parse( old ).status == Status::kOk, "a valid text is rejected" );
#endif
        ParseResult r = sd.Parse( "in" );
        vf_assert( vf_open_fds == 0 && f->opens == f->closes && vf_fs_errors == 0, "the descriptor is not closed exactly once" );
        vf_observe( (uint64_t)r.status );
        bool damaged = vf_io_failed || fault == 3 || fault == 4;
        if ( damaged )
        {
            vf_assert( r.status != Status::kOk, "a file that could not be read is accepted" );
            if ( fault == 1 || fault == 4 ) vf_assert( r.status == Status::KFileOpenError, "a file that cannot be opened is reported as something else" );
            if ( fault == 3 || fault >= 5 ) vf_assert( r.status == Status::KFileReadError, "a file that cannot be read is reported as something else" );
            vf_assert( r.errorLine == 0 && r.errorColumn == 0, "a failure to read is reported with a place in the text" );
            vf_reach( "fault" );
        }
        else
        {
            StructuredData bd;
            Array<char>    a;
            setText( a, text, n );
            ParseResult q = bd.Parse( a );
            vf_assert( r.status == q.status && r.errorLine == q.errorLine && r.errorColumn == q.errorColumn, "a file and a buffer with the same bytes give different results" );
            checkParse( sd, r, text, n, 3 );
            vf_reach( "same" );
        }
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
