// A parsed text is written; what is written is checked as a text (WHAT&1) and by reading it back (WHAT&2).
#include "writelib.h"
#ifdef LIM
#include "sizes.h"
static Sized z;
#else
#include "tpl.h"
static unsigned char text[ TPLN + 1 ];
#endif
static unsigned char out1[ CAP ], out2[ CAP ];
#ifndef MAXIND
#define MAXIND 2
#endif
extern "C" void vf_main()
{
#ifdef LIM
    z.build( LIM, BIG );
    unsigned char* text = z.b;
    int n = z.n;
#else
    int n = fillTemplate( text );
#endif
    oracle::Scan s { text, n };
    vf_assume( s.text() == oracle::kAccept );
#ifdef FIXED
    for ( int i = 0; i < n; i++ ) // everything outside strings, one path per accepted text
    {
        text[ i ] = (unsigned char)vf_concrete( text[ i ] );
        if ( text[ i ] == '"' ) for ( i++; text[ i ] != '"'; i++ ) if ( text[ i ] == '\\' ) i++;
    }
#endif
    vf_file* f1 = vf_fs_add( "one", out1, 0, CAP, 0 );
    vf_file* f2 = vf_fs_add( "two", out2, 0, CAP, 0 );
    uint32_t len = 2;
    int      ch  = ' ';
#ifdef IND
    len = vf_choice( MAXIND + 1, "n_indent" );
    ch  = " \t\n\r"[ vf_choice( 4, "char" ) ];
#endif
    {
        StructuredData sd;
        Array<char>    t;
        setText( t, text, n );
        vf_assert( sd.Parse( t ).status == Status::kOk, "a valid text is rejected" );
#ifdef IND
        Status w = sd.Write( "one", len, (char)ch );
#else
        Status w = sd.Write( "one" );
#endif
        vf_observe( (uint64_t)w );
        if ( w != Status::kOk )
        {
            vf_assert( hasInfinity( text, n ), "a document that can be written is refused" );
            vf_reach( "refused" );
            vf_end();
        }
        vf_assert( f1->size < CAP && f1->exists, "harness bound" );
        out1[ f1->size ] = 0;
        if ( WHAT & 1 )
        {
            oracle::Scan o { out1, (int)f1->size };
            vf_assert( o.text() != oracle::kReject, "what is written is not JSON" );
            Mirror m { { text, n }, { out1, (int)f1->size } };
            m.a.ws();
            m.b.ws();
            m.value();
            m.b.ws();
            vf_assert( m.b.i == (int)f1->size, "something follows the document" );
            checkIndentation( out1, (int)f1->size, (int)len, ch );
            vf_reach( "text" );
        }
        if ( WHAT & 2 )
        {
            StructuredData again;
            ParseResult r;
            if ( f1->size <= 65534 ) r = again.Parse( "one" );
            else // more than is read from a file
            {
                Array<char> bytes;
                setText( bytes, out1, (int)f1->size );
                r = again.Parse( bytes );
            }
            vf_assert( r.status == Status::kOk, "what is written is not accepted" );
            TreeCheck c { { text, n } };
            c.s.ws();
            c.value( again.GetRootJsonValue() );
#ifdef IND
            w = again.Write( "two", len, (char)ch );
#else
            w = again.Write( "two" );
#endif
            vf_assert( w == Status::kOk && f1->size == f2->size, "writing the tree that was read back gives another length" );
            for ( uint64_t i = 0; i < f1->size; i++ ) vf_assert( out1[ i ] == out2[ i ], "writing the tree that was read back gives other bytes" );
            vf_reach( "again" );
        }
    }
}
