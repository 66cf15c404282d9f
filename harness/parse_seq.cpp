// Several parses with one document object: texts of two templates, unterminated and empty buffers,
// missing files, in every order. The last result has to be that of a fresh object.
#include "jsonlib.h"
#include "tpl.h"
#ifndef STEPS
#define STEPS 2
#endif
static unsigned char t1[ sizeof( TPL1 ) ], t2[ sizeof( TPL2 ) ];
enum { N1 = sizeof( TPL1 ) - 1, N2 = sizeof( TPL2 ) - 1 };

static bool treeIs( const StructuredData& sd, const unsigned char* b, int n )
{
    oracle::Scan s { b, n };
    if ( s.text() != oracle::kAccept ) return false;
    TreeCheck t { { b, n } };
    t.s.ws();
    t.value( sd.GetRootJsonValue() );
    return true;
}
extern "C" void vf_main()
{
    fillText( TPL1, ALPHA, t1, "text1" );
    fillText( TPL2, ALPHA, t2, "text2" );
    static const unsigned char good[] = "{\"k\":[\"v\",2]}";
    {
        StructuredData       sd;
        const unsigned char* held  = nullptr; // text the document should hold
        int                  heldN = 0;
        for ( int step = 0; step < STEPS; step++ )
        {
            int kind = (int)vf_choice( 6, "step" );
            const unsigned char* b = kind == 0 ? t1 : kind == 1 ? t2 : good;
            int                  n = kind == 0 ? N1 : kind == 1 ? N2 : (int)sizeof( good ) - 1;
            bool accepted = false;
            if ( kind <= 3 )
            {
                Array<char> a;
                setText( a, b, n );
                if ( kind == 3 ) a.SetArrayElementCount( n ); // without its terminator
                ParseResult r = sd.Parse( a );
                StructuredData fresh;
                ParseResult f = fresh.Parse( a );
                vf_assert( r.status == f.status && r.errorLine == f.errorLine && r.errorColumn == f.errorColumn, "a used document gives another result than a fresh one" );
                vf_assert( kind != 3 || r.status == Status::kUnterminatedTextBuffer, "an unterminated buffer is not reported as such" );
                if ( r.status == Status::kOk )
                {
                    held     = b;
                    accepted = true;
                    heldN = n;
                    vf_reach( "ok" );
                }
                else vf_reach( "failed" );
                vf_observe( (uint64_t)r.status );
            }
            else if ( kind == 4 )
            {
                Array<char> a;
                if ( vf_choice( 2, "one" ) ) setText( a, b, 0 );
                vf_assert( sd.Parse( a ).status == Status::kTextBufferContentsInvalid, "an empty buffer is not reported as such" );
            }
            else vf_assert( sd.Parse( "missing" ).status == Status::KFileOpenError, "a missing file is not reported as such" );
            // nothing, or the text that was last accepted
            if ( const Value* root = sd.GetRootJsonValue() )
            {
                vf_assert( held != nullptr, "a document holds a tree although nothing was accepted" );
                treeIs( sd, held, heldN );
            }
            else
            {
                vf_assert( !accepted, "an accepted text leaves no tree" );
                held = nullptr;
            }
        }
        vf_reach( "end" );
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
