// File sizes around and beyond the limit.
#include "jsonlib.h"
static unsigned char data[ 65600 ];
extern "C" void vf_main()
{
    for ( unsigned i = 0; i < sizeof data; i++ ) data[ i ] = ' ';
    vf_file* f = vf_fs_add( "in", data, 0, sizeof data, 1 );
    StructuredData sd;
    int kind = (int)vf_choice( 3, "kind" );
    if ( kind == 0 ) // any size beyond the limit
    {
        uint64_t size = vf_u64( "size" );
        vf_assume( size > 65534 && size < ( 1ull << 62 ) );
        f->size = sizeof data;
        f->use_override = 1;
        f->fstat_size_override = size;
        ParseResult r = sd.Parse( "in" );
        vf_assert( r.status == Status::KFileTooLarge && r.errorLine == 0, "a file beyond the size limit is not reported as such" );
        vf_assert( !sd.GetRootJsonValue(), "a file beyond the size limit leaves a tree" );
        vf_reach( "large" );
    }
    else
    {
        int size = 65533 + (int)vf_choice( 2, "n_size" );
        f->size = (uint64_t)size;
        data[ size - 1 ] = kind == 1 ? '7' : vf_u8( "last" );
        data[ 40000 ]    = kind == 1 ? ' ' : '[';
        vf_read_mode = 0;
        ParseResult r = sd.Parse( "in" );
        vf_assert( ( r.status == Status::kOk ) == ( kind == 1 || data[ size - 1 ] == ']' ), "a file within the size limit is parsed differently" );
        vf_assert( r.status == Status::kOk || ( r.errorLine == 1 && ( r.errorColumn == size || r.errorColumn == size + 1 ) ) || data[ size - 1 ] == '\n', "wrong place" );
        vf_reach( "within" );
    }
    vf_assert( vf_open_fds == 0 && f->opens == 1 && f->closes == 1 && vf_fs_errors == 0, "the descriptor is not closed exactly once" );
}
