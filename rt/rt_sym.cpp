// Symbolic build only: the parts of libc / libstdc++ that the code under test and the harnesses
// reach, as ordinary code the executor runs, plus the system-call entry points (-> rt_common.cpp).
// Compiled with -fno-builtin.
#include "vf.h"
#include <charconv>
#include <errno.h>
#include <limits.h>
#include <new>
#include <stdarg.h>
#include <stdexcept>
#include <sys/stat.h>
#include <bits/stl_tree.h>

extern "C"
{
    int  vf_open( const char*, int, ... );
    int  vf_close( int );
    long vf_read( int, void*, size_t );
    long vf_write( int, const void*, size_t );
    long vf_pread( int, void*, size_t, long );
    long vf_pwrite( int, const void*, size_t, long );
    int  vf_fstat( int, struct stat* );
    int  vf_stat( const char*, struct stat* );
    long vf_lseek( int, long, int );
    int  vf_ftruncate( int, long );
    int  vf_fsync( int );
    int  vf_unlink( const char* );
    int  vf_host_fmt( char* buf, size_t n, const char* fmt, int prec, uint64_t bits, int isDouble );
    void vf_register_decimal( const char* p, size_t n, uint64_t bits );
    void vf_unsupported_feature( const char* ); // never defined: reaching it is reported as unsupported

    int  open( const char* n, int f, ... ) { return vf_open( n, f ); }
    int  open64( const char* n, int f, ... ) { return vf_open( n, f ); }
    int  creat( const char* n, unsigned ) { return vf_open( n, 01 | 0100 | 01000 ); }
    int  close( int fd ) { return vf_close( fd ); }
    long read( int fd, void* b, size_t n ) { return vf_read( fd, b, n ); }
    long write( int fd, const void* b, size_t n ) { return vf_write( fd, b, n ); }
    long __read_chk( int fd, void* b, size_t n, size_t ) { return vf_read( fd, b, n ); }
    long pread( int fd, void* b, size_t n, long o ) { return vf_pread( fd, b, n, o ); }
    long pwrite( int fd, const void* b, size_t n, long o ) { return vf_pwrite( fd, b, n, o ); }
    int  fstat( int fd, struct stat* s ) noexcept { return vf_fstat( fd, s ); }
    int  fstat64( int fd, struct stat64* s ) noexcept { return vf_fstat( fd, (struct stat*)s ); }
    int  stat( const char* n, struct stat* s ) noexcept { return vf_stat( n, s ); }
    long lseek( int fd, long o, int w ) noexcept { return vf_lseek( fd, o, w ); }
    long lseek64( int fd, long o, int w ) noexcept { return vf_lseek( fd, o, w ); }
    int  ftruncate( int fd, long n ) noexcept { return vf_ftruncate( fd, n ); }
    int  fsync( int fd ) { return vf_fsync( fd ); }
    int  fdatasync( int fd ) { return vf_fsync( fd ); }
    int  unlink( const char* n ) noexcept { return vf_unlink( n ); }
    int  remove( const char* n ) noexcept { return vf_unlink( n ); }

    static int vf_errno_cell;
    int* __errno_location() noexcept { return &vf_errno_cell; }

    // ---------------------------------------------------------------- memory / strings
    void* malloc( size_t n ) noexcept { return vf_sys_alloc( n, 0 ); }
    void  free( void* p ) noexcept { if ( p ) vf_sys_free( p, 0 ); }
    void* calloc( size_t a, size_t b ) noexcept
    {
        char* p = (char*)vf_sys_alloc( a * b, 0 );
        for ( size_t i = 0; i < a * b; i++ ) p[ i ] = 0;
        return p;
    }

    size_t strlen( const char* s ) noexcept
    {
        size_t n = 0;
        while ( s[ n ] ) n++;
        return n;
    }
    size_t strnlen( const char* s, size_t m ) noexcept
    {
        size_t n = 0;
        while ( n < m && s[ n ] ) n++;
        return n;
    }
    int strcmp( const char* a, const char* b ) noexcept
    {
        for ( ;; a++, b++ )
        {
            unsigned char x = *a, y = *b;
            if ( x != y ) return x < y ? -1 : 1;
            if ( !x ) return 0;
        }
    }
    int strncmp( const char* a, const char* b, size_t n ) noexcept
    {
        for ( ; n; a++, b++, n-- )
        {
            unsigned char x = *a, y = *b;
            if ( x != y ) return x < y ? -1 : 1;
            if ( !x ) return 0;
        }
        return 0;
    }
    int memcmp( const void* a, const void* b, size_t n ) noexcept
    {
        const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
        for ( size_t i = 0; i < n; i++ ) if ( p[ i ] != q[ i ] ) return p[ i ] < q[ i ] ? -1 : 1;
        return 0;
    }
    int   bcmp( const void* a, const void* b, size_t n ) noexcept { return memcmp( a, b, n ); }
    char* strcpy( char* d, const char* s ) noexcept
    {
        char* r = d;
        while ( ( *d++ = *s++ ) ) {}
        return r;
    }
    char* strncpy( char* d, const char* s, size_t n ) noexcept
    {
        size_t i = 0;
        for ( ; i < n && s[ i ]; i++ ) d[ i ] = s[ i ];
        for ( ; i < n; i++ ) d[ i ] = 0;
        return d;
    }
    char* strcat( char* d, const char* s ) noexcept
    {
        strcpy( d + strlen( d ), s );
        return d;
    }
}
#undef strchr
#undef memchr
#undef strstr
#undef strrchr
extern "C"
{
    const void* vf_memchr( const void* s, int c, size_t n ) __asm__( "memchr" );
    const void* vf_memchr( const void* s, int c, size_t n )
    {
        const unsigned char* p = (const unsigned char*)s;
        for ( size_t i = 0; i < n; i++ ) if ( p[ i ] == (unsigned char)c ) return p + i;
        return nullptr;
    }
    const char* vf_strchr( const char* s, int c ) __asm__( "strchr" );
    const char* vf_strchr( const char* s, int c )
    {
        for ( ;; s++ )
        {
            if ( *s == (char)c ) return s;
            if ( !*s ) return nullptr;
        }
    }
    const char* vf_strrchr( const char* s, int c ) __asm__( "strrchr" );
    const char* vf_strrchr( const char* s, int c )
    {
        const char* r = nullptr;
        for ( ;; s++ )
        {
            if ( *s == (char)c ) r = s;
            if ( !*s ) return r;
        }
    }
    const char* vf_strpbrk( const char* s, const char* a ) __asm__( "strpbrk" );
    const char* vf_strpbrk( const char* s, const char* a )
    {
        for ( ; *s; s++ ) for ( const char* q = a; *q; q++ ) if ( *q == *s ) return s;
        return nullptr;
    }
    size_t strspn( const char* s, const char* a ) noexcept
    {
        size_t n = 0;
        for ( ; s[ n ]; n++ )
        {
            const char* q = a;
            while ( *q && *q != s[ n ] ) q++;
            if ( !*q ) break;
        }
        return n;
    }
    size_t strcspn( const char* s, const char* a ) noexcept
    {
        size_t n = 0;
        for ( ; s[ n ]; n++ )
        {
            const char* q = a;
            while ( *q && *q != s[ n ] ) q++;
            if ( *q ) break;
        }
        return n;
    }
    const char* vf_strstr( const char* s, const char* t ) __asm__( "strstr" );
    const char* vf_strstr( const char* s, const char* t )
    {
        size_t n = strlen( t );
        for ( ;; s++ )
        {
            if ( strncmp( s, t, n ) == 0 ) return s;
            if ( !*s ) return nullptr;
        }
    }

    // ---------------------------------------------------------------- ctype
    int isdigit( int c ) noexcept { return c >= '0' && c <= '9'; }
    int isxdigit( int c ) noexcept { return ( c >= '0' && c <= '9' ) || ( c >= 'a' && c <= 'f' ) || ( c >= 'A' && c <= 'F' ); }
    int isspace( int c ) noexcept { return c == ' ' || ( c >= 9 && c <= 13 ); }
    int isalpha( int c ) noexcept { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); }
    int isalnum( int c ) noexcept { return isalpha( c ) || isdigit( c ); }
    int isupper( int c ) noexcept { return c >= 'A' && c <= 'Z'; }
    int islower( int c ) noexcept { return c >= 'a' && c <= 'z'; }
    int isprint( int c ) noexcept { return c >= 32 && c < 127; }
    int iscntrl( int c ) noexcept { return ( c >= 0 && c < 32 ) || c == 127; }
    int ispunct( int c ) noexcept { return isprint( c ) && c != ' ' && !isalnum( c ); }
    int tolower( int c ) noexcept { return isupper( c ) ? c + 32 : c; }
    int toupper( int c ) noexcept { return islower( c ) ? c - 32 : c; }
    int abs( int x ) noexcept { return x < 0 ? -x : x; }
    long labs( long x ) noexcept { return x < 0 ? -x : x; }

    // ---------------------------------------------------------------- numbers
    static int vf_ci( const char* s, const char* t )
    {
        int n = 0;
        for ( ; t[ n ]; n++ ) if ( ( s[ n ] | 32 ) != t[ n ] ) return 0;
        return n;
    }
    static double vf_scan_unsigned( const char* p, const char* lim, const char** endp )
    {
        auto at = [ & ]( const char* q ) -> char { return q == lim ? 0 : *q; };
        if ( at( p ) == '0' && ( at( p + 1 ) | 32 ) == 'x' && ( isxdigit( (unsigned char)at( p + 2 ) ) || ( at( p + 2 ) == '.' && isxdigit( (unsigned char)at( p + 3 ) ) ) ) )
        {
            const char* q = p + 2;
            double v = 0, sc = 1;
            bool dot = false;
            for ( ;; q++ )
            {
                char c = at( q );
                if ( c == '.' && !dot ) { dot = true; continue; }
                if ( !isxdigit( (unsigned char)c ) ) break;
                int d = c <= '9' ? c - '0' : ( c | 32 ) - 'a' + 10;
                v = v * 16 + d;
                if ( dot ) sc *= 16;
            }
            if ( ( at( q ) | 32 ) == 'p' ) vf_unsupported_feature( "hexadecimal exponent" );
            *endp = q;
            return v / sc;
        }
        const char* q = p;
        int nd = 0;
        while ( isdigit( (unsigned char)at( q ) ) ) { q++; nd++; }
        if ( at( q ) == '.' )
        {
            const char* r = q + 1;
            int m = 0;
            while ( isdigit( (unsigned char)at( r ) ) ) { r++; m++; }
            if ( nd + m > 0 ) q = r;
            nd += m;
        }
        if ( nd == 0 ) { *endp = nullptr; return 0; }
        if ( ( at( q ) | 32 ) == 'e' )
        {
            const char* r = q + 1;
            if ( at( r ) == '+' || at( r ) == '-' ) r++;
            if ( isdigit( (unsigned char)at( r ) ) )
            {
                while ( isdigit( (unsigned char)at( r ) ) ) r++;
                q = r;
            }
        }
        *endp = q;
        return vf_dec2double( p, (size_t)( q - p ) );
    }
    double strtod( const char* s, char** endp ) noexcept
    {
        const char* p = s;
        while ( isspace( (unsigned char)*p ) ) p++;
        bool neg = false;
        if ( *p == '-' || *p == '+' ) { neg = *p == '-'; p++; }
        const char* e = nullptr;
        double v;
        if ( vf_ci( p, "infinity" ) ) { v = __builtin_inf(); e = p + 8; }
        else if ( vf_ci( p, "inf" ) ) { v = __builtin_inf(); e = p + 3; }
        else if ( vf_ci( p, "nan" ) ) { v = __builtin_nan( "" ); e = p + 3; }
        else v = vf_scan_unsigned( p, nullptr, &e );
        if ( !e )
        {
            if ( endp ) *endp = (char*)s;
            return 0;
        }
        if ( endp ) *endp = (char*)e;
        return neg ? -v : v;
    }
    float  strtof( const char* s, char** e ) noexcept { return (float)strtod( s, e ); }
    double atof( const char* s ) noexcept { return strtod( s, nullptr ); }

    static unsigned long long vf_scan_int( const char* s, char** endp, int base, bool& neg, bool& ovf, unsigned long long lim )
    {
        const char* p = s;
        while ( isspace( (unsigned char)*p ) ) p++;
        neg = false;
        ovf = false;
        if ( *p == '-' || *p == '+' ) { neg = *p == '-'; p++; }
        if ( ( base == 0 || base == 16 ) && *p == '0' && ( p[ 1 ] | 32 ) == 'x' && isxdigit( (unsigned char)p[ 2 ] ) ) { p += 2; base = 16; }
        else if ( base == 0 ) base = *p == '0' ? 8 : 10;
        unsigned long long v = 0;
        bool any = false;
        for ( ;; p++ )
        {
            int c = (unsigned char)*p, d;
            if ( isdigit( c ) ) d = c - '0';
            else if ( isalpha( c ) ) d = ( c | 32 ) - 'a' + 10;
            else break;
            if ( d >= base ) break;
            any = true;
            if ( v > ( lim - d ) / base ) ovf = true;
            v = v * base + d;
        }
        if ( endp ) *endp = (char*)( any ? p : s );
        return v;
    }
    unsigned long strtoul( const char* s, char** e, int b ) noexcept
    {
        bool n, o;
        unsigned long v = vf_scan_int( s, e, b, n, o, ~0ULL );
        if ( o ) { errno = ERANGE; return ~0UL; }
        return n ? -v : v;
    }
    unsigned long long strtoull( const char* s, char** e, int b ) noexcept { return strtoul( s, e, b ); }
    long strtol( const char* s, char** e, int b ) noexcept
    {
        bool n, o;
        unsigned long v = vf_scan_int( s, e, b, n, o, 0x8000000000000000ULL );
        if ( o || ( !n && v > LONG_MAX ) ) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; }
        return n ? (long)-v : (long)v;
    }
    long long strtoll( const char* s, char** e, int b ) noexcept { return strtol( s, e, b ); }
    int       atoi( const char* s ) noexcept { return (int)strtol( s, nullptr, 10 ); }
    long      atol( const char* s ) noexcept { return strtol( s, nullptr, 10 ); }

    // Text of a double the value of which is symbolic. One text shape per exponent class; the
    // digits are bits of the value. prec17: the text determines the value (>=17 significant
    // digits); otherwise the last 4 bits are lost. The value is registered with the text, so that
    // reading the text back yields it.
    static int vf_fmt_sym( char* o, double d, bool lossless )
    {
        uint64_t b;
        __builtin_memcpy( &b, &d, 8 );
        int n = 0;
        if ( b >> 63 ) o[ n++ ] = '-';
        b &= 0x7fffffffffffffffULL;
        uint64_t e = b >> 52;
        if ( e == 0x7ff )
        {
            bool nan = ( b & 0xfffffffffffffULL ) != 0;
            o[ n ] = nan ? 'n' : 'i';
            o[ n + 1 ] = nan ? 'a' : 'n';
            o[ n + 2 ] = nan ? 'n' : 'f';
            return n + 3;
        }
        int st = n;
        if ( b == 0 ) { o[ n++ ] = '0'; return n; }
        uint64_t v = lossless ? b : b & ~15ULL;
        auto dig = [ & ]( int sh ) -> char { return char( '0' | ( ( v >> sh ) & 7 ) ); };
        // 17 digits: bits 0..50
        if ( e < 1010 || e > 1079 )
        {
            o[ n++ ] = '1';
            o[ n++ ] = '.';
            for ( int i = 0; i < 16; i++ ) o[ n++ ] = dig( 3 * i + 4 );
            o[ n++ ] = 'e';
            o[ n++ ] = e < 1010 ? '-' : '+';
            o[ n++ ] = dig( 52 );
            o[ n++ ] = dig( 55 );
            o[ n++ ] = dig( 58 );
        }
        else if ( e < 1023 )
        {
            o[ n++ ] = '0';
            o[ n++ ] = '.';
            for ( int i = 0; i < 17; i++ ) o[ n++ ] = dig( 3 * i );
        }
        else if ( e < 1076 )
        {
            o[ n++ ] = '1';
            for ( int i = 0; i < 7; i++ ) o[ n++ ] = dig( 3 * i );
            o[ n++ ] = '.';
            for ( int i = 7; i < 16; i++ ) o[ n++ ] = dig( 3 * i );
        }
        else
        {
            o[ n++ ] = '1';
            for ( int i = 0; i < 16; i++ ) o[ n++ ] = dig( 3 * i );
        }
        vf_register_decimal( o + st, (size_t)( n - st ), v );
        return n;
    }

    static int vf_utoa( char* o, unsigned long long v, int base, bool up )
    {
        char t[ 24 ];
        int n = 0;
        do
        {
            int d = (int)( v % base );
            t[ n++ ] = char( d < 10 ? '0' + d : ( up ? 'A' : 'a' ) + d - 10 );
            v /= base;
        } while ( v );
        for ( int i = 0; i < n; i++ ) o[ i ] = t[ n - 1 - i ];
        return n;
    }

    int vsnprintf( char* buf, size_t cap, const char* f, va_list ap ) noexcept
    {
        size_t len = 0;
        auto put = [ & ]( char c ) { if ( len + 1 < cap ) buf[ len ] = c; len++; };
        for ( ; *f; f++ )
        {
            if ( *f != '%' ) { put( *f ); continue; }
            f++;
            bool minus = false, zero = false, plus = false, alt = false;
            for ( ;; f++ )
            {
                if ( *f == '-' ) minus = true;
                else if ( *f == '0' ) zero = true;
                else if ( *f == '+' ) plus = true;
                else if ( *f == '#' ) alt = true;
                else break;
            }
            int width = 0, prec = -1;
            if ( *f == '*' ) { width = va_arg( ap, int ); f++; }
            else while ( *f >= '0' && *f <= '9' ) width = width * 10 + ( *f++ - '0' );
            if ( *f == '.' )
            {
                f++;
                prec = 0;
                if ( *f == '*' ) { prec = va_arg( ap, int ); f++; }
                else while ( *f >= '0' && *f <= '9' ) prec = prec * 10 + ( *f++ - '0' );
            }
            int lng = 0;
            for ( ;; f++ )
            {
                if ( *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' ) lng = 1;
                else if ( *f == 'h' ) lng--;
                else break;
            }
            char t[ 512 ];
            int n = 0;
            char cv = *f;
            if ( cv == '%' ) t[ n++ ] = '%';
            else if ( cv == 'c' ) t[ n++ ] = (char)va_arg( ap, int );
            else if ( cv == 's' )
            {
                const char* s = va_arg( ap, const char* );
                for ( int i = 0; ( prec < 0 || i < prec ) && s[ i ]; i++ ) put( s[ i ] );
                continue;
            }
            else if ( cv == 'd' || cv == 'i' || cv == 'u' || cv == 'x' || cv == 'X' || cv == 'o' )
            {
                unsigned long long v;
                bool sg = cv == 'd' || cv == 'i', neg = false;
                if ( lng > 0 ) v = va_arg( ap, unsigned long long );
                else
                {
                    unsigned u = va_arg( ap, unsigned );
                    if ( lng == -1 ) u = sg ? (unsigned)(short)u : (unsigned short)u;
                    if ( lng == -2 ) u = sg ? (unsigned)(signed char)u : (unsigned char)u;
                    v = sg ? (unsigned long long)(long long)(int)u : u;
                }
                if ( sg && (long long)v < 0 ) { neg = true; v = 0 - v; }
                char g[ 32 ];
                int m = vf_utoa( g, v, cv == 'o' ? 8 : ( cv == 'x' || cv == 'X' ) ? 16 : 10, cv == 'X' );
                if ( neg ) t[ n++ ] = '-';
                else if ( plus && sg ) t[ n++ ] = '+';
                if ( alt && cv != 'd' ) vf_unsupported_feature( "# in a format" );
                int padz = prec > m ? prec - m : 0;
                if ( zero && !minus && prec < 0 && width > n + m ) padz = width - n - m;
                while ( padz-- > 0 ) t[ n++ ] = '0';
                for ( int i = 0; i < m; i++ ) t[ n++ ] = g[ i ];
            }
            else if ( cv == 'g' || cv == 'e' || cv == 'f' || cv == 'G' || cv == 'E' || cv == 'F' || cv == 'a' )
            {
                double d = va_arg( ap, double );
                uint64_t bits;
                __builtin_memcpy( &bits, &d, 8 );
                if ( prec < 0 && cv != 'a' ) prec = 6;
                if ( vf_is_concrete( bits ) )
                {
                    char ff[ 5 ] = { '%', '.', '*', cv, 0 };
                    if ( alt || zero || plus ) vf_unsupported_feature( "flags in a floating-point format" );
                    n = vf_host_fmt( t, 500, ff, prec, bits, 1 );
                }
                else n = vf_fmt_sym( t, d, cv == 'a' || ( ( cv == 'g' || cv == 'G' ) && prec >= 17 ) || ( ( cv == 'e' || cv == 'E' ) && prec >= 16 ) );
            }
            else if ( cv == 'p' ) t[ n++ ] = '?';
            else vf_unsupported_feature( "printf conversion" );
            int pad = width > n ? width - n : 0;
            if ( !minus ) while ( pad-- > 0 ) put( ' ' );
            for ( int i = 0; i < n; i++ ) put( t[ i ] );
            if ( minus ) while ( pad-- > 0 ) put( ' ' );
        }
        if ( cap ) buf[ len < cap ? len : cap - 1 ] = 0;
        return (int)len;
    }
    int __vsnprintf_chk( char* b, size_t n, int, size_t, const char* f, va_list ap ) noexcept { return vsnprintf( b, n, f, ap ); }
    int vsprintf( char* b, const char* f, va_list ap ) noexcept { return vsnprintf( b, 1u << 20, f, ap ); }
    int snprintf( char* b, size_t n, const char* f, ... ) noexcept
    {
        va_list ap;
        va_start( ap, f );
        int r = vsnprintf( b, n, f, ap );
        va_end( ap );
        return r;
    }
    int __snprintf_chk( char* b, size_t n, int, size_t, const char* f, ... ) noexcept
    {
        va_list ap;
        va_start( ap, f );
        int r = vsnprintf( b, n, f, ap );
        va_end( ap );
        return r;
    }
    int sprintf( char* b, const char* f, ... ) noexcept
    {
        va_list ap;
        va_start( ap, f );
        int r = vsnprintf( b, 1u << 20, f, ap );
        va_end( ap );
        return r;
    }
    int printf( const char*, ... ) { return 0; }
    int puts( const char* ) { return 0; }
    int putchar( int c ) { return c; }
    int fflush( struct _IO_FILE* ) { return 0; }
}

// ---------------------------------------------------------------- libstdc++
namespace std
{
    struct VfError { int k; };
    void __throw_length_error( const char* ) { throw VfError { 1 }; }
    void __throw_logic_error( const char* ) { throw VfError { 2 }; }
    void __throw_out_of_range( const char* ) { throw VfError { 3 }; }
    void __throw_out_of_range_fmt( const char*, ... ) { throw VfError { 3 }; }
    void __throw_invalid_argument( const char* ) { throw VfError { 4 }; }
    void __throw_bad_alloc() { throw std::bad_alloc(); }
    void __throw_bad_array_new_length() { throw std::bad_array_new_length(); }
    void __throw_bad_cast() { throw VfError { 5 }; }
    void __throw_bad_function_call() { throw VfError { 6 }; }

    // The ordered-tree primitives of libstdc++ on an unbalanced tree (same observable order).
    _Rb_tree_node_base* _Rb_tree_increment( _Rb_tree_node_base* x ) throw()
    {
        if ( x->_M_right )
        {
            x = x->_M_right;
            while ( x->_M_left ) x = x->_M_left;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while ( x == y->_M_right ) { x = y; y = y->_M_parent; }
        if ( x->_M_right != y ) x = y;
        return x;
    }
    const _Rb_tree_node_base* _Rb_tree_increment( const _Rb_tree_node_base* x ) throw() { return _Rb_tree_increment( const_cast<_Rb_tree_node_base*>( x ) ); }
    _Rb_tree_node_base* _Rb_tree_decrement( _Rb_tree_node_base* x ) throw()
    {
        if ( x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x ) return x->_M_right; // header
        if ( x->_M_left )
        {
            x = x->_M_left;
            while ( x->_M_right ) x = x->_M_right;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while ( x == y->_M_left ) { x = y; y = y->_M_parent; }
        return y;
    }
    const _Rb_tree_node_base* _Rb_tree_decrement( const _Rb_tree_node_base* x ) throw() { return _Rb_tree_decrement( const_cast<_Rb_tree_node_base*>( x ) ); }
    void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h ) throw()
    {
        x->_M_parent = p;
        x->_M_left = nullptr;
        x->_M_right = nullptr;
        x->_M_color = _S_black; // the header stays the only red node
        if ( left )
        {
            p->_M_left = x; // also makes leftmost = x when p is the header
            if ( p == &h ) { h._M_parent = x; h._M_right = x; }
            else if ( p == h._M_left ) h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if ( p == h._M_right ) h._M_right = x;
        }
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase( _Rb_tree_node_base* const z, _Rb_tree_node_base& h ) throw()
    {
        auto repl = [ & ]( _Rb_tree_node_base* a, _Rb_tree_node_base* b ) {
            if ( h._M_parent == a ) h._M_parent = b;
            else if ( a->_M_parent->_M_left == a ) a->_M_parent->_M_left = b;
            else a->_M_parent->_M_right = b;
            if ( b ) b->_M_parent = a->_M_parent;
        };
        if ( !z->_M_left || !z->_M_right )
        {
            _Rb_tree_node_base* c = z->_M_left ? z->_M_left : z->_M_right;
            repl( z, c );
        }
        else
        {
            _Rb_tree_node_base* y = z->_M_right;
            while ( y->_M_left ) y = y->_M_left;
            if ( y->_M_parent != z )
            {
                repl( y, y->_M_right );
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            repl( z, y );
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        _Rb_tree_node_base* r = h._M_parent;
        if ( !r ) h._M_left = h._M_right = &h;
        else
        {
            _Rb_tree_node_base* a = r;
            while ( a->_M_left ) a = a->_M_left;
            h._M_left = a;
            a = r;
            while ( a->_M_right ) a = a->_M_right;
            h._M_right = a;
        }
        return z;
    }

    static to_chars_result vf_to_chars( char* f, char* l, double d, const char* fmt, int prec, bool lossless )
    {
        char t[ 512 ];
        uint64_t bits;
        __builtin_memcpy( &bits, &d, 8 );
        int n;
        if ( vf_is_concrete( bits ) ) n = vf_host_fmt( t, 500, fmt, prec, bits, 1 );
        else n = vf_fmt_sym( t, d, lossless );
        if ( n > l - f ) return { l, errc::value_too_large };
        for ( int i = 0; i < n; i++ ) f[ i ] = t[ i ];
        return { f + n, errc {} };
    }
    to_chars_result to_chars( char* f, char* l, double d ) noexcept { return vf_to_chars( f, l, d, "%.*g", 17, true ); }
    to_chars_result to_chars( char* f, char* l, double d, chars_format, int p ) noexcept { return vf_to_chars( f, l, d, "%.*g", p, p >= 17 ); }
    from_chars_result from_chars( const char* f, const char* l, double& v, chars_format ) noexcept
    {
        const char* p = f;
        bool neg = false;
        if ( p != l && *p == '-' ) { neg = true; p++; }
        const char* e = nullptr;
        double d = vf_scan_unsigned( p, l, &e );
        if ( !e ) return { f, errc::invalid_argument };
        v = neg ? -d : d;
        return { e, errc {} };
    }
} // namespace std

// what the library headers only declare
#include <string>
template class std::basic_string<char>;
