// Any single allocation fails while something is parsed, written, serialized, deserialized, validated or looked up.
#include "writelib.h"
#include "typed.h"
#ifdef TPL
#include "tpl.h"
static unsigned char text[ TPLN + 1 ];
#endif
static unsigned char out[ 4000 ];

static void arm()
{
    vf_fail_at      = vf_u32( "failing_allocation" );
    vf_alloc_count  = 0;
    vf_alloc_failed = 0;
    vf_alloc_armed  = 1;
}
static void disarm() { vf_alloc_armed = 0; }

// the call came back with this status
static void judge( Status s, Status right )
{
    if ( vf_alloc_failed )
    {
        vf_assert( s == right || s == Status::kException, "a failed allocation is reported as something else" );
        if ( s == Status::kException ) vf_reach( "exception" );
    }
    else
    {
        vf_assert( s == right, "a call gives a wrong status although no allocation failed" );
        vf_reach( "done" );
    }
    vf_observe( (uint64_t)s );
}
#ifdef TPL
static void treeIs( const StructuredData& sd, int n )
{
    TreeCheck t { { text, n } };
    t.s.ws();
    t.value( sd.GetRootJsonValue() );
}
#endif

extern "C" void vf_main()
{
    vf_file* f = vf_fs_add( "f", out, 0, sizeof out, 0 );
#ifdef TPL
    int n = fillTemplate( text );
    oracle::Scan s { text, n };
    bool valid = s.text() == oracle::kAccept;
#endif
    {
#if OP == 1 || OP == 2 // parse a buffer or a file
        StructuredData sd;
        Array<char>    t;
        setText( t, text, n );
#ifdef USED
        {
            Array<char> u;
            static const unsigned char older[] = "[{\"q\":\"an older text of this document\"}]";
            setText( u, older, (int)sizeof older - 1 );
            vf_assert( sd.Parse( u ).status == Status::kOk, "harness: the older text" );
        }
#endif
        StructuredData ref;
        ParseResult    right = ref.Parse( t );
        vf_assert( ( right.status == Status::kOk ) == valid, "a text is judged wrongly" );
#if OP == 2
        for ( int i = 0; i < n; i++ ) out[ i ] = text[ i ];
        f->size   = n;
        f->exists = 1;
        arm();
        ParseResult r = sd.Parse( "f" );
#else
        arm();
        ParseResult r = sd.Parse( t );
#endif
        disarm();
        judge( r.status, right.status );
        if ( r.status == Status::kOk ) treeIs( sd, n );
        else
        {
#if OP == 1
            vf_assert( sd.GetRootJsonValue() == nullptr, "a failed parse leaves a tree" );
#endif
        }
        r = sd.Parse( t );
        vf_assert( r.status == right.status, "the document cannot be used after a failed allocation" );
        if ( valid ) treeIs( sd, n );
#elif OP == 3 // write
        StructuredData sd;
        Array<char>    t;
        setText( t, text, n );
        vf_assume( valid );
        vf_assert( sd.Parse( t ).status == Status::kOk, "harness: a valid text is rejected" );
        for ( int round = 0; round < 2; round++ )
        {
            if ( round == 0 ) arm();
            Status w = sd.Write( "f", INDENT, ' ' );
            disarm();
            if ( round == 0 ) judge( w, Status::kOk );
            else vf_assert( w == Status::kOk, "a document cannot be written after a failed allocation" );
            if ( w == Status::kOk )
            {
                vf_assert( f->size < sizeof out, "harness bound" );
                out[ f->size ] = 0;
                oracle::Scan o { out, (int)f->size };
                vf_assert( o.text() == oracle::kAccept, "what is written is not JSON" );
                Mirror m { { text, n }, { out, (int)f->size } };
                m.a.ws();
                m.b.ws();
                m.value();
                checkIndentation( out, (int)f->size, INDENT, ' ' );
            }
            vf_assert( vf_open_fds == 0, "a file stays open" );
        }
        treeIs( sd, n );
#elif OP == 4 // serialize
        TYPE a;
        fill( a );
        StructuredData sd;
#ifdef USED
        {
            TYPE old;
            fill( old );
            vf_assert( sd.SerializeFrom( old ) == Status::kOk, "serialization fails" );
        }
#endif
        for ( int round = 0; round < 2; round++ )
        {
            if ( round == 0 ) arm();
            Status w = sd.SerializeFrom( a );
            disarm();
            if ( round == 0 ) judge( w, Status::kOk );
            else vf_assert( w == Status::kOk, "a document cannot be serialized into after a failed allocation" );
            if ( w == Status::kOk )
            {
                TYPE b;
                vf_assert( sd.DeserializeTo( b ) == Status::kOk && eq( a, b ), "serialized data is read back differently" );
            }
#ifdef REST
            else if ( vf_choice( 2, "write_rest" ) ) sd.Write( "f" ); // whatever is left can be written or not, but is in order
#endif
        }
#elif OP == 5 // deserialize
        TYPE a, b;
        fill( a );
        StructuredData sd;
        vf_assert( sd.SerializeFrom( a ) == Status::kOk, "serialization fails" );
#ifdef USED
        fill( b );
#endif
        arm();
        Status d = sd.DeserializeTo( b );
        disarm();
        judge( d, Status::kOk );
        if ( d == Status::kOk ) vf_assert( eq( a, b ), "data is read wrongly" );
        vf_assert( sd.DeserializeTo( b ) == Status::kOk && eq( a, b ), "data cannot be read after a failed allocation" );
#elif OP == 6 // validate
        TYPE a;
        fill( a );
        StructuredData sd;
        vf_assert( sd.SerializeFrom( a ) == Status::kOk, "serialization fails" );
        TYPE c;
        arm();
        Status d = Validate( sd, c );
        disarm();
        judge( d, Status::kOk );
        vf_assert( Validate( sd, c ) == Status::kOk, "data cannot be validated after a failed allocation" );
#elif OP == 7 // look up
        StructuredData sd;
        Array<char>    t;
        setText( t, text, n );
        vf_assert( valid && sd.Parse( t ).status == Status::kOk, "harness: a valid text is rejected" );
        const ObjectValue* o = sd.GetRootJsonValue()->AsJsonObjectValue();
        arm();
        const double*   d = o->FindNumber( NAME );
        const String<>* q = o->FindString( NAME );
        const bool*     b = o->FindBool( NAME );
        const Null*     z = o->FindJsonNull( NAME );
        const Array<Value*>* v = o->FindJsonValueArray( NAME );
        const ObjectValue*   w = o->FindJsonObjectValue( NAME );
        disarm();
        vf_assert( d && *d == 7 && !q && !b && !z && !v && !w, "a lookup is wrong" );
        vf_reach( "done" );
#elif OP == 8 // report
        arm();
        String<256> m = ParseResultToString( ParseResult { Status::kExpectedColon, 12, 34 } );
        String<256> k = StatusToString( Status::kException );
        disarm();
        vf_assert( m[ 0 ] && k[ 0 ], "a message is empty" );
        vf_reach( "done" );
#endif
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
    vf_assert( vf_open_fds == 0 && vf_fs_errors == 0, "a file stays open" );
}
