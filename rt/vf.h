// Harness interface. The same harness is (a) executed symbolically by llsym and (b) compiled
// natively to replay concrete inputs against the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>

extern "C"
{
    void     vf_symbolic( void* p, size_t n, const char* name );
    void     vf_assume( int c );
    void     vf_assert_( int c, const char* msg );
    void     vf_reach( const char* label );
    void     vf_observe( uint64_t v );
    uint64_t vf_concrete( uint64_t v );        // fork over every feasible value
    int      vf_is_concrete( uint64_t v );
    void     vf_end();
    double   vf_dec2double( const char* p, size_t n ); // value of an unsigned decimal literal
    void*    vf_sys_alloc( size_t n, int kind );
    void     vf_sys_free( void* p, int kind );
    void     vf_print( const char* s, uint64_t v );
    void     vf_fail( const char* s );

    // allocation control (rt_common.cpp)
    extern int      vf_alloc_armed;   // count allocations and fail number vf_fail_at (0-based)
    extern uint32_t vf_alloc_count;
    extern uint32_t vf_fail_at;
    extern int      vf_alloc_failed;  // an injected failure happened
    extern uint64_t vf_live_blocks;   // heap blocks currently allocated
    extern uint64_t vf_max_request;   // largest request seen while armed

    // in-memory file system (rt_common.cpp)
    struct vf_file
    {
        const char* name;
        unsigned char* data;
        uint64_t size, cap;
        int exists;
        uint64_t fstat_size_override; // reported by fstat when use_override
        int use_override;
        int opens, closes, writes, reads;
    };
    extern vf_file  vf_files[ 4 ];
    extern int      vf_nfiles;
    extern int      vf_open_fds;      // currently open descriptors
    extern int      vf_fs_errors;     // protocol errors (bad descriptor, double close ...)
    extern int      vf_read_mode;     // 0 full, 1 nondeterministic short reads, 2 parts of large reads
    extern int      vf_write_mode;    // 0 full, 1 nondeterministic short writes, 2 parts of large writes
    extern int      vf_pieces;        // parts that mode 2 may still deliver
    extern int      vf_open_fail;     // 1: every open fails
    extern int      vf_fstat_fail;    // 1: fstat fails
    extern int      vf_close_fail;    // 1: close reports an error
    extern int      vf_read_fail_armed; extern uint32_t vf_read_fail_at; extern uint32_t vf_read_count;   // n-th read returns -1
    extern int      vf_write_fail_armed; extern uint32_t vf_write_fail_at; extern uint32_t vf_write_count; // n-th write returns -1
    extern int      vf_io_failed;     // an injected I/O failure was delivered
    extern int      vf_zero_reads;    // reads that returned 0 (end of file)
    vf_file* vf_fs_add( const char* name, void* data, uint64_t size, uint64_t cap, int exists );
    vf_file* vf_fs_find( const char* name );
}

static inline uint32_t vf_u32( const char* name ) { uint32_t v; vf_symbolic( &v, 4, name ); return v; }
static inline uint64_t vf_u64( const char* name ) { uint64_t v; vf_symbolic( &v, 8, name ); return v; }
static inline uint8_t  vf_u8( const char* name ) { uint8_t v; vf_symbolic( &v, 1, name ); return v; }
// symbolic choice in [0,n), made concrete by forking
static inline uint32_t vf_choice( uint32_t n, const char* name )
{
    uint8_t v;
    vf_symbolic( &v, 1, name );
    vf_assume( v < n );
    return (uint32_t)vf_concrete( v );
}
static inline double vf_double( const char* name ) { double d; vf_symbolic( &d, 8, name ); return d; }

#define vf_assert( c, msg ) vf_assert_( ( c ) ? 1 : 0, msg )
