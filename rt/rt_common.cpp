// Shared by the symbolic and the native build: heap entry points and the in-memory file system.
#include "vf.h"
#include <new>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C"
{
    int      vf_alloc_armed = 0;
    uint32_t vf_alloc_count = 0;
    uint32_t vf_fail_at     = 0;
    int      vf_alloc_failed = 0;
    uint64_t vf_live_blocks = 0;
    uint64_t vf_max_request = 0;
}

static bool vf_should_fail( size_t n )
{
    if ( n > ( size_t( 1 ) << 26 ) ) return true; // no harness needs blocks over 64 MB: the allocator refuses
    if ( !vf_alloc_armed ) return false;
    if ( n > vf_max_request ) vf_max_request = n;
    uint32_t k = vf_alloc_count++;
    if ( k == vf_fail_at )
    {
        vf_alloc_failed = 1;
        return true;
    }
    return false;
}

static void* vf_new( size_t n, int kind )
{
    if ( vf_should_fail( n ) ) throw std::bad_alloc();
    vf_live_blocks++;
    return vf_sys_alloc( n, kind );
}
static void* vf_new_nothrow( size_t n, int kind ) noexcept
{
    if ( vf_should_fail( n ) ) return nullptr;
    vf_live_blocks++;
    return vf_sys_alloc( n, kind );
}
static void vf_delete( void* p, int kind ) noexcept
{
    if ( !p ) return;
    vf_live_blocks--;
    vf_sys_free( p, kind );
}

void* operator new( size_t n ) { return vf_new( n, 1 ); }
void* operator new[]( size_t n ) { return vf_new( n, 2 ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return vf_new_nothrow( n, 1 ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return vf_new_nothrow( n, 2 ); }
void  operator delete( void* p ) noexcept { vf_delete( p, 1 ); }
void  operator delete[]( void* p ) noexcept { vf_delete( p, 2 ); }
void  operator delete( void* p, size_t ) noexcept { vf_delete( p, 1 ); }
void  operator delete[]( void* p, size_t ) noexcept { vf_delete( p, 2 ); }
void  operator delete( void* p, const std::nothrow_t& ) noexcept { vf_delete( p, 1 ); }
void  operator delete[]( void* p, const std::nothrow_t& ) noexcept { vf_delete( p, 2 ); }

// ------------------------------------------------------------------ file system model
extern "C"
{
    vf_file  vf_files[ 4 ];
    int      vf_nfiles = 0, vf_open_fds = 0, vf_fs_errors = 0, vf_read_mode = 0, vf_write_mode = 0, vf_open_fail = 0, vf_fstat_fail = 0, vf_close_fail = 0;
    int      vf_read_fail_armed = 0, vf_write_fail_armed = 0, vf_io_failed = 0, vf_zero_reads = 0;
    uint32_t vf_read_fail_at = 0, vf_read_count = 0, vf_write_fail_at = 0, vf_write_count = 0;
}
struct vf_fd { int used; int file; uint64_t pos; int flags; };
static vf_fd vf_fds[ 8 ];
enum { VF_FD0 = 3 };

static bool vf_streq( const char* a, const char* b )
{
    while ( *a && *a == *b ) { a++; b++; }
    return *a == *b;
}

extern "C" vf_file* vf_fs_add( const char* name, void* data, uint64_t size, uint64_t cap, int exists )
{
    vf_file* f = &vf_files[ vf_nfiles++ ];
    f->name = name; f->data = (unsigned char*)data; f->size = size; f->cap = cap; f->exists = exists;
    f->use_override = 0; f->opens = f->closes = f->writes = f->reads = 0;
    return f;
}
extern "C" vf_file* vf_fs_find( const char* name )
{
    for ( int i = 0; i < vf_nfiles; i++ ) if ( vf_streq( vf_files[ i ].name, name ) ) return &vf_files[ i ];
    return nullptr;
}

static int vf_do_open( const char* name, int flags )
{
    vf_file* f = vf_fs_find( name );
    if ( vf_open_fail ) { errno = EACCES; vf_io_failed = 1; return -1; }
    if ( !f ) { errno = ENOENT; return -1; }
    if ( !f->exists )
    {
        if ( !( flags & O_CREAT ) ) { errno = ENOENT; return -1; }
        f->exists = 1;
        f->size = 0;
    }
    else if ( ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }
    int acc = flags & O_ACCMODE;
    if ( ( flags & O_TRUNC ) && acc != O_RDONLY ) f->size = 0;
    for ( int i = 0; i < 8; i++ )
        if ( !vf_fds[ i ].used )
        {
            vf_fds[ i ].used = 1;
            vf_fds[ i ].file = int( f - vf_files );
            vf_fds[ i ].pos = 0;
            vf_fds[ i ].flags = flags;
            vf_open_fds++;
            f->opens++;
            return VF_FD0 + i;
        }
    errno = EMFILE;
    return -1;
}
static vf_fd* vf_getfd( int fd )
{
    int i = fd - VF_FD0;
    if ( i < 0 || i >= 8 || !vf_fds[ i ].used ) { vf_fs_errors++; errno = EBADF; return nullptr; }
    return &vf_fds[ i ];
}
static uint64_t vf_some( uint64_t n, const char* name ) // 1..n
{
    uint8_t k;
    vf_symbolic( &k, 1, name );
    vf_assume( k >= 1 );
    vf_assume( k <= ( n > 255 ? 255 : n ) );
    return vf_concrete( k );
}

extern "C"
{
    int vf_open( const char* name, int flags, ... ) { return vf_do_open( name, flags ); }
    int vf_openat( int, const char* name, int flags, ... ) { return vf_do_open( name, flags ); }
    int vf_creat( const char* name, unsigned ) { return vf_do_open( name, O_CREAT | O_WRONLY | O_TRUNC ); }
    int vf_close( int fd )
    {
        vf_fd* d = vf_getfd( fd );
        if ( !d ) return -1;
        vf_files[ d->file ].closes++;
        d->used = 0;
        vf_open_fds--;
        if ( vf_close_fail ) { errno = EIO; return -1; }
        return 0;
    }
    // a part of a large transfer, at most vf_pieces times
    int vf_pieces = 0;
    static uint64_t vf_piece( uint64_t m, const char* name )
    {
        if ( m < 64 || vf_pieces <= 0 ) return m;
        vf_pieces--;
        switch ( vf_choice( 7, name ) )
        {
            case 1: return 1;
            case 2: return m / 2;
            case 3: return m - 1;
            case 4: return m < 4096 ? m : 4096;
            case 5: return m < 32768 ? m : 32768;
            case 6: return m < 255 ? m : 255;
        }
        return m;
    }
    static long vf_do_read( vf_fd* d, void* buf, size_t n, uint64_t* pos )
    {
        vf_file& f = vf_files[ d->file ];
        if ( ( d->flags & O_ACCMODE ) == O_WRONLY ) { vf_fs_errors++; errno = EBADF; return -1; }
        f.reads++;
        if ( vf_read_fail_armed )
        {
            uint32_t k = vf_read_count++;
            if ( k == vf_read_fail_at ) { vf_io_failed = 1; errno = EIO; return -1; }
        }
        uint64_t avail = *pos < f.size ? f.size - *pos : 0;
        uint64_t m = n < avail ? n : avail;
        if ( m > 1 && vf_read_mode == 1 ) m = vf_some( m, "read_len" );
        else if ( vf_read_mode == 2 ) m = vf_piece( m, "read_piece" );
        if ( m == 0 ) vf_zero_reads++;
        unsigned char* o = (unsigned char*)buf;
        if ( m ) __builtin_memcpy( o, f.data + *pos, m );
        *pos += m;
        return (long)m;
    }
    long vf_read( int fd, void* buf, size_t n )
    {
        vf_fd* d = vf_getfd( fd );
        return d ? vf_do_read( d, buf, n, &d->pos ) : -1;
    }
    long vf_pread( int fd, void* buf, size_t n, long off )
    {
        vf_fd* d = vf_getfd( fd );
        uint64_t p = (uint64_t)off;
        return d ? vf_do_read( d, buf, n, &p ) : -1;
    }
    static long vf_do_write( vf_fd* d, const void* buf, size_t n, uint64_t* pos )
    {
        vf_file& f = vf_files[ d->file ];
        if ( ( d->flags & O_ACCMODE ) == O_RDONLY ) { vf_fs_errors++; errno = EBADF; return -1; }
        f.writes++;
        if ( vf_write_fail_armed )
        {
            uint32_t k = vf_write_count++;
            if ( k == vf_write_fail_at ) { vf_io_failed = 1; errno = ENOSPC; return -1; }
        }
        uint64_t m = n;
        if ( d->flags & O_APPEND ) *pos = f.size;
        if ( *pos + m > f.cap ) { vf_io_failed = 1; if ( *pos >= f.cap ) { errno = ENOSPC; return -1; } m = f.cap - *pos; }
        if ( m > 1 && vf_write_mode == 1 ) m = vf_some( m, "write_len" );
        else if ( vf_write_mode == 2 ) m = vf_piece( m, "write_piece" );
        for ( uint64_t i = f.size; i < *pos; i++ ) f.data[ i ] = 0;
        const unsigned char* s = (const unsigned char*)buf;
        if ( m ) __builtin_memcpy( f.data + *pos, s, m );
        *pos += m;
        if ( *pos > f.size ) f.size = *pos;
        return (long)m;
    }
    long vf_write( int fd, const void* buf, size_t n )
    {
        vf_fd* d = vf_getfd( fd );
        return d ? vf_do_write( d, buf, n, &d->pos ) : -1;
    }
    long vf_pwrite( int fd, const void* buf, size_t n, long off )
    {
        vf_fd* d = vf_getfd( fd );
        uint64_t p = (uint64_t)off;
        return d ? vf_do_write( d, buf, n, &p ) : -1;
    }
    int vf_fstat( int fd, struct stat* st )
    {
        vf_fd* d = vf_getfd( fd );
        if ( !d ) return -1;
        if ( vf_fstat_fail ) { vf_io_failed = 1; errno = EIO; return -1; }
        vf_file& f = vf_files[ d->file ];
        __builtin_memset( st, 0, sizeof( *st ) );
        st->st_mode = S_IFREG | 0644;
        st->st_size = (long)( f.use_override ? f.fstat_size_override : f.size );
        return 0;
    }
    int vf_stat( const char* name, struct stat* st )
    {
        vf_file* f = vf_fs_find( name );
        if ( !f || !f->exists ) { errno = ENOENT; return -1; }
        __builtin_memset( st, 0, sizeof( *st ) );
        st->st_mode = S_IFREG | 0644;
        st->st_size = (long)( f->use_override ? f->fstat_size_override : f->size );
        return 0;
    }
    long vf_lseek( int fd, long off, int whence )
    {
        vf_fd* d = vf_getfd( fd );
        if ( !d ) return -1;
        vf_file& f = vf_files[ d->file ];
        long b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)d->pos : (long)( f.use_override ? f.fstat_size_override : f.size );
        if ( b + off < 0 ) { errno = EINVAL; return -1; }
        d->pos = (uint64_t)( b + off );
        return (long)d->pos;
    }
    int vf_ftruncate( int fd, long n )
    {
        vf_fd* d = vf_getfd( fd );
        if ( !d ) return -1;
        vf_file& f = vf_files[ d->file ];
        if ( (uint64_t)n > f.cap ) { errno = EFBIG; return -1; }
        for ( uint64_t i = f.size; i < (uint64_t)n; i++ ) f.data[ i ] = 0;
        f.size = (uint64_t)n;
        return 0;
    }
    int vf_fsync( int fd ) { return vf_getfd( fd ) ? 0 : -1; }
    int vf_unlink( const char* name )
    {
        vf_file* f = vf_fs_find( name );
        if ( !f || !f->exists ) { errno = ENOENT; return -1; }
        f->exists = 0;
        f->size = 0;
        return 0;
    }
}
