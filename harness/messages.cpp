// The message of every status and the text of every parse result.
#include "C4Json.h"
#include "vf.h"
using namespace Terathon;
using namespace C4;
static const char* const meaning[] = { "ok", "open", "read", "large", "invalid json text", "unterminated", "opening curly", "closing curly&comma", "opening square", "closing square&comma", "illegal char",
                                       "escape", "colon", "begin&quotes", "ending&quotes", "number&invalid", "true&false", "null", "json value&object", "end of file", "premature", "leading zeros",
                                       "structure&invalid", "not found&object", "exception", "type&invalid", "name&find", "write" };
static const int           count     = sizeof meaning / sizeof *meaning;
static int  lower( int c ) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool contains( const char* s, const char* w ) // every part of w, without regard to case
{
    while ( true )
    {
        int n = 0;
        while ( w[ n ] && w[ n ] != '&' ) n++;
        bool found = false;
        for ( int i = 0; s[ i ] && !found; i++ )
        {
            found = true;
            for ( int k = 0; k < n && found; k++ ) found = lower( s[ i + k ] ) == w[ k ];
        }
        if ( !found ) return false;
        if ( !w[ n ] ) return true;
        w += n + 1;
    }
}
static char d[ 24 ];
static int  decimal( int32 v )
{
    char t[ 16 ];
    int  k = 0, n = 0;
    if ( v < 0 ) d[ n++ ] = '-';
    uint32 m = v < 0 ? 0u - (uint32)v : (uint32)v;
    do
    {
        t[ k++ ] = (char)( '0' + m % 10 );
        m /= 10;
    } while ( m );
    while ( k ) d[ n++ ] = t[ --k ];
    return n;
}
static int at;
static void next( const char* s, const char* w, int n )
{
    for ( int i = 0; i < n; i++, at++ ) vf_assert( s[ at ] == w[ i ], "the text of a parse result is not its message followed by its place" );
}
static int len( const char* s )
{
    int n = 0;
    while ( s[ n ] ) n++;
    return n;
}
extern "C" void vf_main()
{
    static_assert( (int)Json::Status::KFileWriteError == 27, "" );
    int           i = (int)vf_choice( count, "status" );
    Json::Status  s = (Json::Status)i;
    String<256>   m = Json::StatusToString( s );
    vf_assert( len( m ) > 0 && len( m ) < 200, "a status has no message or a very long one" );
    vf_assert( contains( m, meaning[ i ] ), "the message of a status does not state its meaning" );
    for ( int k = 0; k < count; k++ )
    {
        String<256> o = Json::StatusToString( (Json::Status)k );
        bool        same = true;
        for ( int c = 0; same; c++ )
        {
            same = ( (const char*)o )[ c ] == ( (const char*)m )[ c ];
            if ( !( (const char*)m )[ c ] ) break;
        }
        vf_assert( same == ( k == i ), "two statuses have the same message" );
    }
    Json::ParseResult r;
    r.status      = s;
    r.errorLine   = (int32)vf_u32( "line" );
    r.errorColumn = (int32)vf_u32( "column" );
    vf_assume( r.errorLine >= 0 && r.errorColumn >= 0 );
    if ( r.errorLine == 0 ) vf_assume( r.errorColumn == 0 ); // no place
    else vf_assume( r.errorColumn > 0 && s != Json::Status::kOk && s != Json::Status::kException );
    String<256> t = Json::ParseResultToString( r );
    next( t, m, len( m ) );
    if ( r.errorLine )
    {
        next( t, ". Line: ", 8 );
        int n = decimal( r.errorLine );
        next( t, d, n );
        next( t, ", column: ", 10 );
        n = decimal( r.errorColumn );
        next( t, d, n );
        vf_reach( "place" );
    }
    vf_assert( t[ at ] == 0, "the text of a parse result goes on after its place" );
    vf_reach( "end" );
}
