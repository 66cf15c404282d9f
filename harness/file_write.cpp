// Success leaves exactly the serialization in the file, whatever it held; faults are reported.
#include "jsonlib.h"
#include "tpl.h"
static unsigned char text[ TPLN + 1 ], ref[ 400 ], out[ 400 ], before[ 400 ];
#ifndef OLD
#define OLD 3
#endif
extern "C" void vf_main()
{
    int n = fillTemplate( text );
    vf_file* g = vf_fs_add( "ref", ref, 0, 400, 0 );
    vf_file* f = vf_fs_add( "out", out, 0, 400, 0 );
    {
        StructuredData sd;
        Array<char>    t;
        setText( t, text, n );
        vf_assume( sd.Parse( t ).status == Status::kOk );
        vf_assert( sd.Write( "ref" ) == Status::kOk, "a healthy write fails" );
        // what the file holds before: nothing, a shorter, an equal and a longer text
        int old = (int)vf_choice( OLD + 1, "old" );
        uint64_t oldSize = old == 0 ? 0 : old == 1 ? 3 : old == 2 ? g->size + 7 : g->size;
        if ( old )
        {
            f->exists = 1;
            f->size   = oldSize;
            vf_symbolic( out, 12, "oldtext" );
            for ( uint64_t i = 12; i < oldSize; i++ ) out[ i ] = 'x';
        }
        for ( uint64_t i = 0; i < oldSize; i++ ) before[ i ] = out[ i ];
        vf_write_mode = SHORT;
        uint32_t fault = 0;
#ifdef FAULT
        // 0 none, 1 open, 2 no document, 3 a full disk, 4.. the write that fails
        fault = vf_choice( FAULT, "fault" );
        if ( fault == 1 ) vf_open_fail = 1;
        if ( fault == 3 ) f->cap = vf_choice( 24, "n_room" );
        if ( fault >= 4 )
        {
            vf_write_fail_armed = 1;
            vf_write_fail_at    = fault - 4;
        }
        if ( fault == 3 && f->cap < oldSize ) vf_assume( f->exists == 0 );
#endif
        StructuredData none;
        Status w = fault == 2 ? none.Write( "out" ) : sd.Write( "out" );
        vf_assert( vf_open_fds == 0 && f->opens == f->closes && vf_fs_errors == 0, "the descriptor is not closed exactly once" );
        vf_observe( (uint64_t)w );
        if ( fault == 1 || fault == 2 )
        {
            vf_assert( w == ( fault == 1 ? Status::KFileOpenError : Status::kInvalidStructuredData ), "a write that cannot start is reported as something else" );
            vf_assert( f->exists == ( old != 0 ) && f->size == oldSize && f->writes == 0, "a write that cannot start changes the file" );
            for ( uint64_t i = 0; i < oldSize; i++ ) vf_assert( out[ i ] == before[ i ], "a write that cannot start changes the file" );
            vf_reach( "refused" );
        }
        else if ( vf_io_failed )
        {
            vf_assert( w != Status::kOk, "a failed write is reported as a success" );
            vf_reach( "fault" );
        }
        else
        {
            vf_assert( w == Status::kOk, "a healthy write fails" );
            vf_assert( f->exists && f->size == g->size, "the file holds more or less than the document" );
            for ( uint64_t i = 0; i < g->size; i++ ) vf_assert( out[ i ] == ref[ i ], "the file holds something else than the document" );
            vf_reach( "same" );
        }
#ifdef FAULT
        // the document is still there and can be written once the fault is gone
        if ( fault )
        {
            vf_open_fail = vf_write_fail_armed = 0;
            f->cap = 400;
            vf_assert( sd.Write( "out" ) == Status::kOk && f->size == g->size, "a document cannot be written after a failed write" );
            for ( uint64_t i = 0; i < g->size; i++ ) vf_assert( out[ i ] == ref[ i ], "a document is written differently after a failed write" );
            vf_reach( "again" );
        }
#endif
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
