// Files and writes of thousands of bytes, transferred in large and small parts, with a fault.
#include "jsonlib.h"
#ifndef PIECES
#define PIECES 2
#endif
static unsigned char text[ 66000 ], data[ 66000 ], ref[ 90000 ], out[ 90000 ];
static int n = 0;
static void ch( int c ) { text[ n++ ] = (unsigned char)c; }
static int letter( int i ) { return 'a' + ( i * ( i / 5 + 3 ) + i / 26 ) % 26; }
// a text of exactly k bytes, in the layout of the writer with an empty indentation
static void build( int kind, int k, unsigned char h )
{
    if ( kind == 0 ) // one long string
    {
        ch( '"' );
        while ( n < k - 1 ) ch( n == k / 2 ? h : letter( n ) );
        ch( '"' );
    }
    else // strings of different lengths
    {
        ch( '[' );
        for ( int i = 0; n < k - 140; i++ )
        {
            ch( '"' );
            for ( int j = 0; j <= i % 90; j++ ) ch( letter( n ) );
            ch( '"' );
            ch( ',' );
        }
        ch( '"' );
        while ( n < k - 2 ) ch( n == k - 20 ? h : letter( n ) );
        ch( '"' );
        ch( ']' );
    }
    text[ n ] = 0;
}
extern "C" void vf_main()
{
    static const int sizes[] = SIZES;
    unsigned char    h       = vf_u8( "free" );
    int              kind    = (int)vf_choice( 2, "kind" );
    build( kind, sizes[ vf_choice( sizeof sizes / sizeof *sizes, "size" ) ], h );
    uint32_t  fault = vf_choice( 4, "fault" ); // 0 none, else the transfer that fails
    vf_file*  f     = vf_fs_add( "in", data, (uint64_t)n, 65600, 1 );
    for ( int i = 0; i < n; i++ ) data[ i ] = text[ i ];
    {
        StructuredData sd, bd;
        Array<char>    t;
        setText( t, text, n );
        ParseResult q = bd.Parse( t );
#if WHAT == 1
        vf_read_mode = 2;
        vf_pieces    = PIECES;
        if ( fault )
        {
            vf_read_fail_armed = 1;
            vf_read_fail_at    = fault - 1;
        }
        ParseResult r = sd.Parse( "in" );
        vf_assert( vf_open_fds == 0 && f->opens == f->closes && vf_fs_errors == 0, "the descriptor is not closed exactly once" );
        if ( vf_io_failed )
        {
            vf_assert( r.status == Status::KFileReadError && !sd.GetRootJsonValue(), "a file that cannot be read is reported as something else" );
            vf_reach( "fault" );
            return;
        }
        vf_assert( r.status == q.status && r.errorLine == q.errorLine && r.errorColumn == q.errorColumn, "a file and a buffer with the same bytes give different results" );
        if ( r.status != Status::kOk ) { vf_reach( "rejected" ); return; }
        vf_reach( "accepted" );
#else
        if ( q.status != Status::kOk ) return;
        ParseResult r = sd.Parse( t );
#endif
        vf_file* g = vf_fs_add( "ref", ref, 0, 90000, 0 );
        vf_assert( bd.Write( "ref" ) == Status::kOk, "a healthy write fails" );
        vf_file* o = vf_fs_add( "out", out, 0, 90000, 0 );
#if WHAT != 1
        vf_write_mode = 2;
        vf_pieces     = PIECES;
        if ( fault )
        {
            vf_write_fail_armed = 1;
            vf_write_fail_at    = fault * ( kind + 1 ) - 1;
        }
#endif
        Status w = sd.Write( "out" );
        vf_assert( vf_open_fds == 0 && o->opens == 1 && o->closes == 1 && vf_fs_errors == 0, "the descriptor is not closed exactly once" );
        if ( vf_io_failed )
        {
            vf_assert( w != Status::kOk, "a failed write is reported as a success" );
            vf_reach( "fault" );
            return;
        }
        vf_assert( w == Status::kOk && o->size == g->size, "the file holds more or less than the document" );
        vf_assert( !__builtin_memcmp( out, ref, g->size ), "the file holds something else than the document" );
        if ( kind == 0 )
        {
            vf_assert( g->size >= (uint64_t)n && !__builtin_memcmp( ref, text, n / 2 ), "the file holds something else than the document" );
        }
        vf_reach( "same" );
    }
}
