// Native replay: takes the symbolic inputs from a file (argv[1], lines "name hex").
#include "vf.h"
#include <exception>
#include <fstream>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

struct In { char name[ 64 ]; unsigned char* data; size_t n; };
static In*    ins;
static size_t nin, pos;
static uint64_t obs = 14695981039346656037ULL;

static void quit( int code ) { fflush( stdout ); fflush( stderr ); _exit( code ); }

struct Blk { void* p; int kind; size_t n; };
static Blk*   blks;
static size_t nblk, cblk;

extern "C"
{
    void vf_symbolic( void* p, size_t n, const char* name )
    {
        if ( pos >= nin ) { printf( "VF-DIVERGE no input left for %s\n", name ); quit( 3 ); }
        In& i = ins[ pos++ ];
        if ( strcmp( i.name, name ) || i.n != n ) { printf( "VF-DIVERGE expected %s(%zu), harness asked %s(%zu)\n", i.name, i.n, name, n ); quit( 3 ); }
        memcpy( p, i.data, n );
    }
    void vf_assume( int c ) { if ( !c ) { printf( "VF-ASSUME false\n" ); quit( 4 ); } }
    void vf_assert_( int c, const char* msg ) { if ( !c ) { printf( "VF-ASSERT %s\n", msg ); quit( 10 ); } }
    void vf_fail( const char* msg ) { printf( "VF-ASSERT %s\n", msg ); quit( 10 ); }
    void vf_reach( const char* ) {}
    void vf_observe( uint64_t v )
    {
        for ( int i = 0; i < 8; i++ ) { obs ^= ( v >> ( 8 * i ) ) & 0xff; obs *= 1099511628211ULL; }
    }
    uint64_t vf_concrete( uint64_t v ) { return v; }
    int      vf_is_concrete( uint64_t ) { return 1; }
    double   vf_dec2double( const char* p, size_t n )
    {
        static char b[ 70000 ];
        if ( n >= sizeof b ) quit( 5 );
        memcpy( b, p, n );
        b[ n ] = 0;
        return strtod( b, nullptr );
    }
    void* vf_sys_alloc( size_t n, int kind )
    {
        void* p = malloc( n );
        if ( !p ) quit( 6 );
        if ( nblk == cblk ) { cblk = cblk ? cblk * 2 : 1024; blks = (Blk*)realloc( blks, cblk * sizeof( Blk ) ); }
        blks[ nblk++ ] = { p, kind, n };
        return p;
    }
    void vf_sys_free( void* p, int kind )
    {
        for ( size_t i = nblk; i-- > 0; )
            if ( blks[ i ].p == p )
            {
                if ( blks[ i ].kind != kind ) { printf( "VF-FREE allocation/release mismatch\n" ); quit( 13 ); }
                blks[ i ] = blks[ --nblk ];
                free( p );
                return;
            }
        printf( "VF-FREE release of a block that is not allocated\n" );
        quit( 14 );
    }
    void vf_print( const char* s, uint64_t v ) { fprintf( stderr, "%s %llu\n", s, (unsigned long long)v ); }
    void vf_end()
    {
        if ( nblk && getenv( "VF_LEAK" ) )
        {
            printf( "VF-LEAK %zu block(s), first of %zu bytes\n", nblk, blks[ 0 ].n );
            quit( 11 );
        }
        printf( "VF-OBS %016llx\n", (unsigned long long)obs );
        quit( 0 );
    }
    void vf_main();
}
static void onTerminate() { printf( "VF-TERMINATE\n" ); quit( 12 ); }

int main( int argc, char** argv )
{
    if ( argc < 2 ) return 2;
    std::set_terminate( onTerminate );
    FILE* f = fopen( argv[ 1 ], "r" );
    if ( !f ) return 2;
    ins = (In*)malloc( sizeof( In ) * 100000 );
    static char line[ 400000 ];
    while ( fgets( line, sizeof line, f ) )
    {
        char* sp = strchr( line, ' ' );
        if ( !sp ) continue;
        *sp = 0;
        In i;
        snprintf( i.name, sizeof i.name, "%s", line );
        char* h = sp + 1;
        size_t n = strcspn( h, "\r\n" ) / 2;
        i.data = (unsigned char*)malloc( n + 1 );
        i.n = n;
        for ( size_t k = 0; k < n; k++ ) { unsigned v; sscanf( h + 2 * k, "%2x", &v ); i.data[ k ] = (unsigned char)v; }
        ins[ nin++ ] = i;
    }
    fclose( f );
    nblk = 0; // blocks made by static constructors before main are not counted
    vf_main();
    vf_end();
}
