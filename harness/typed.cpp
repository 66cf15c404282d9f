// Typed data through serialization, writing, parsing and deserialization.
#include "typed.h"
typedef TYPE Data;
static unsigned char out[ 4000 ];
extern "C" void vf_main()
{
    vf_file* f = vf_fs_add( "f", out, 0, sizeof out, 0 );
    {
        Data a;
        fill( a );
        StructuredData sd;
#ifdef USED // the document holds something else already
        {
            Data old;
            fill( old );
            vf_assert( sd.SerializeFrom( old ) == Status::kOk, "serialization fails" );
        }
#endif
#ifdef INPLACE // serialized into the value of a used document
        vf_assert( Serialize( sd.GetRootJsonValue(), a ) == Status::kOk, "serialization into a used value fails" );
#else
        vf_assert( sd.SerializeFrom( a ) == Status::kOk, "serialization fails" );
#endif
        Data b;
#ifdef DIRTY
        fill( b );
#endif
        vf_assert( Validate( sd, b ) == Status::kOk, "serialized data is not valid for its own type" );
        vf_assert( sd.DeserializeTo( b ) == Status::kOk, "serialized data cannot be read back" );
        vf_assert( eq( a, b ), "serialized data is read back differently" );
        vf_reach( "memory" );
#ifdef THROUGH
        vf_assert( sd.Write( "f" ) == Status::kOk, "serialized data cannot be written" );
        StructuredData again;
        vf_assert( again.Parse( "f" ).status == Status::kOk, "written data cannot be parsed" );
        Data c;
        vf_assert( Validate( again, c ) == Status::kOk, "written data is not valid for its own type" );
        vf_assert( again.DeserializeTo( c ) == Status::kOk, "written data cannot be read back" );
        vf_assert( eq( a, c ), "written data is read back differently" );
        vf_reach( "file" );
#endif
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
