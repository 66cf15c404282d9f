// Helpers on texts: FN selects the functions, N is the number of free bytes.
#include "TSString.h"
#include "vf.h"
#include <utility>
using namespace Terathon;
// a text of n free bytes, none of them zero, in a block of its size
static unsigned char* text( int n, bool end, const char* name )
{
    unsigned char* p = new unsigned char[ n + end ? n + end : 1 ];
    vf_symbolic( p, n, name );
    for ( int i = 0; i < n; i++ ) vf_assume( p[ i ] != 0 );
    if ( end ) p[ n ] = 0;
    return p;
}
static char* block( int n ) // n bytes to write to
{
    char* p = new char[ n ];
    for ( int i = 0; i < n; i++ ) p[ i ] = '#';
    return p;
}
static bool digit( uint32 c ) { return c - '0' < 10U; }
static uint32 fold( uint32 c ) { return c - ( ( c - 'a' < 26U ) ? 32U : 0U ); }
#define SAME( e, v, what ) vf_assert( ( e ) == ( v ), what " is wrong" )
#if FN == 4
// the compile-time hashes of the texts with one free character
template <size_t... I> static uint32 h1( uint32 c, std::index_sequence<I...> ) { static const uint32 t[] = { Text::StaticHash<char( I )>::value... }; return t[ c ]; }
template <size_t... I> static uint32 h2( uint32 c, std::index_sequence<I...> ) { static const uint32 t[] = { Text::StaticHash<char( I ), 'b'>::value... }; return t[ c ]; }
template <size_t... I> static uint32 h3( uint32 c, std::index_sequence<I...> ) { static const uint32 t[] = { Text::StaticHash<'a', char( I )>::value... }; return t[ c ]; }
template <size_t... I> static uint32 h17( uint32 c, std::index_sequence<I...> )
{
    static const uint32 t[] = { Text::StaticHash<'q', 'w', '\xC3', 'r', 't', 'z', 'u', 'i', 'o', 'p', char( I ), 's', 'd', 'f', '\x80', 'h', 'j'>::value... };
    return t[ c ];
}
#endif
extern "C" void vf_main()
{
#if FN == 1 // searching for a character, counting, copying
    int            n = (int)vf_choice( N + 1, "length" ), max = (int)vf_choice( N + 2, "max" );
    unsigned char *p = text( n, true, "text" ), *q = new unsigned char[ max <= n ? ( max ? max : 1 ) : n + 1 ];
    uint32         k = vf_u32( "k" );
    vf_assume( k != 0 );
    for ( int i = 0; i < max && i <= n; i++ ) q[ i ] = p[ i ]; // without a terminator where the limit comes first
    int at = -1, atq = -1, count = 0;
    for ( int i = n - 1; i >= 0; i-- )
    {
        bool hit = p[ i ] == k;
        at       = hit ? i : at;
        atq      = hit & ( i < max ) ? i : atq;
        count += hit & ( i < max );
    }
    const char *s = (const char*)p, *t = (const char*)q;
    SAME( Text::FindChar( s, k ), at, "FindChar" );
    SAME( Text::FindChar( t, k, max ), atq, "FindChar with a limit" );
    SAME( Text::CountChars( t, k, max ), count, "CountChars" );
    SAME( Text::GetTextLength( s ), n, "GetTextLength" );
    SAME( Text::FindChar( t, k, -1 ), -1, "FindChar with a negative limit" );
    char *d = block( n + 1 ), *e = block( max + 1 );
    SAME( Text::CopyText( s, d ), n, "the result of CopyText" );
    for ( int i = 0; i <= n; i++ ) vf_assert( (unsigned char)d[ i ] == p[ i ], "CopyText copies other characters" );
    int m = max < n ? max : n;
    SAME( Text::CopyText( t, e, max ), m, "the result of CopyText with a limit" );
    for ( int i = 0; i < m; i++ ) vf_assert( (unsigned char)e[ i ] == p[ i ], "CopyText with a limit copies other characters" );
    vf_assert( e[ m ] == 0, "CopyText with a limit does not terminate the copy" );
    for ( int i = m + 1; i <= max; i++ ) vf_assert( e[ i ] == '#', "CopyText with a limit writes after the copy" );
    vf_reach( at < 0 ? "none" : "found" );
    delete[] p; delete[] q; delete[] d; delete[] e;
#elif FN == 2 // searching outside of quotes
    int            n = (int)vf_choice( N + 1, "length" ), at = -1;
    unsigned char* p = text( n, true, "text" );
    uint32         k = vf_u32( "k" );
    vf_assume( k != 0 );
    bool in = false, esc = false;
    for ( int i = 0; i < n; i++ )
    {
        bool quote = ( p[ i ] == '"' ) & !( in & esc );
        at         = ( at < 0 ) & !in & ( p[ i ] != '"' ) & ( p[ i ] == k ) ? i : at;
        esc        = in & !esc & ( p[ i ] == '\\' ); // a quote after a backslash does not end quoted text
        in         = in ^ quote;
    }
    SAME( Text::FindUnquotedChar( (const char*)p, k ), at, "FindUnquotedChar" );
    vf_reach( at < 0 ? "none" : "found" );
    delete[] p;
#elif FN == 3 // searching for a text
    int            n = (int)vf_choice( N + 1, "length1" ), m = (int)vf_choice( M + 1, "length2" ), at = -1, atc = -1;
    unsigned char *p = text( n, true, "text1" ), *q = text( m, true, "text2" );
    for ( int i = n - m; i >= 0; i-- )
    {
        bool same = true, samec = true;
        for ( int j = 0; j < m; j++ ) same = same & ( p[ i + j ] == q[ j ] ), samec = samec & ( fold( p[ i + j ] ) == fold( q[ j ] ) );
        at  = same ? i : at;
        atc = samec ? i : atc;
    }
    int a = Text::FindText( (const char*)p, (const char*)q ), b = Text::FindTextCaseless( (const char*)p, (const char*)q );
    if ( m ) // the result for an empty text is left open
    {
        SAME( a, at, "FindText" );
        SAME( b, atc, "FindTextCaseless" );
    }
    vf_reach( at < 0 ? "none" : "found" );
    delete[] p; delete[] q;
#elif FN == 4 // hashes
    unsigned char  c = (unsigned char)vf_u32( "c" );
    unsigned char  a[] = { c, 0 }, b[] = { c, 'b', 0 }, d[] = { 'a', c, 0 }, e[] = { 'q', 'w', 0xC3, 'r', 't', 'z', 'u', 'i', 'o', 'p', c, 's', 'd', 'f', 0x80, 'h', 'j', 0 };
    SAME( Text::Hash( "" ), 0, "the hash of the empty text" );
    if ( c )
    {
        SAME( Text::Hash( (const char*)a ), h1( c, std::make_index_sequence<256>() ), "the hash of one character" );
        SAME( Text::Hash( (const char*)b ), h2( c, std::make_index_sequence<256>() ), "the hash of two characters" );
        SAME( Text::Hash( (const char*)d ), h3( c, std::make_index_sequence<256>() ), "the hash of two characters" );
        SAME( Text::Hash( (const char*)e ), h17( c, std::make_index_sequence<256>() ), "the hash of 17 characters" );
    }
    vf_reach( "end" );
#elif FN == 5 // paths
    int            n = (int)vf_choice( N + 1, "length" ), name = n, dir = 0, prefix = 0;
    unsigned char* p = text( n, true, "text" );
    for ( int i = 0; i < n; i++ )
    {
        bool slash = p[ i ] == '/';
        prefix     = slash & !prefix ? i + 1 : prefix;
        dir        = slash ? i + 1 : dir;
        name       = slash ? n : p[ i ] == '.' ? i : name;
    }
    SAME( Text::GetResourceNameLength( (const char*)p ), name, "GetResourceNameLength" );
    SAME( Text::GetDirectoryPathLength( (const char*)p ), dir, "GetDirectoryPathLength" );
    SAME( Text::GetPrefixDirectoryLength( (const char*)p ), prefix, "GetPrefixDirectoryLength" );
    vf_reach( dir ? "slash" : "none" );
    delete[] p;
#elif FN == 6 // reading integers and floats
    int            n = (int)vf_choice( N + 1, "length" ), max = (int)vf_choice( N + 2, "max" ), i = 0;
    unsigned char* p = text( n, true, "text" );
    const char*    s = (const char*)p;
    char *         a = block( max + 1 ), *b = block( max + 1 );
    i = p[ 0 ] == '-';
    while ( digit( p[ i ] ) ) i++;
    int w = i < max ? i : max, r = Text::ReadInteger( s, a, max );
    SAME( r, w, "the result of ReadInteger" );
    for ( int k = 0; k < w; k++ ) vf_assert( (unsigned char)a[ k ] == p[ k ], "ReadInteger stores other characters" );
    vf_assert( a[ w ] == 0, "ReadInteger does not terminate its text" );
    r = Text::ReadFloat( s, b, max );
    vf_assert( r >= 0 && r <= max && r <= n, "ReadFloat reads too many characters" );
    for ( int k = 0; k < r; k++ )
    {
        unsigned char c = p[ k ];
        vf_assert( (unsigned char)b[ k ] == c, "ReadFloat stores other characters" );
        vf_assert( digit( c ) | ( c == '-' ) | ( c == '+' ) | ( c == '.' ) | ( c == 'e' ) | ( c == 'E' ), "ReadFloat reads other characters" );
    }
    vf_assert( b[ r ] == 0, "ReadFloat does not terminate its text" );
    if ( digit( p[ i ? i - 1 : 0 ] ) ) // a whole part: a well-formed number that no other character of numbers follows
    {
        if ( p[ i ] == '.' && digit( p[ i + 1 ] ) ) for ( i++; digit( p[ i ] ); ) i++;
        if ( p[ i ] == 'e' || p[ i ] == 'E' )
        {
            int k = i + 1 + ( p[ i + 1 ] == '-' );
            if ( digit( p[ k ] ) ) for ( i = k; digit( p[ i ] ); ) i++;
        }
        unsigned char c = p[ i ];
        if ( !( ( c == '-' ) | ( c == '+' ) | ( c == '.' ) | ( c == 'e' ) | ( c == 'E' ) ) )
        {
            SAME( r, i < max ? i : max, "the result of ReadFloat" );
            vf_reach( "number" );
        }
    }
    vf_reach( "end" );
    delete[] p; delete[] a; delete[] b;
#elif FN == 7 // reading strings and types
    int            n = (int)vf_choice( N + 1, "length" ), max = (int)vf_choice( N + 1, "max" ), i = 0, m = 0, left = 0;
    unsigned char* p = text( n, true, "text" );
    const char*    s = (const char*)p;
    char*          a = block( max + 1 );
    unsigned char  w[ N + 1 ];
    int            r = Text::ReadString( s, a, max );
    if ( p[ 0 ] == '"' )
    {
        for ( i = 1; p[ i ]; )
        {
            if ( p[ i ] == '"' ) { i++; break; }
            int e = p[ i ] == '\\';
            if ( m == max ) { left = e; break; }
            i += e;
            if ( p[ i ] ) w[ m++ ] = p[ i++ ];
        }
        vf_assert( r >= i && r <= i + left, "the result of ReadString of quoted text is wrong" );
        vf_reach( "quoted" );
    }
    else
    {
        bool open = false; // whether a comment of another kind ends the string is left open
        while ( m < max && p[ m ] > 32 && !( p[ m ] == '/' && p[ m + 1 ] == '/' ) )
        {
            if ( p[ m ] == '/' && p[ m + 1 ] == '*' ) open = true;
            w[ m ] = p[ m ], m++;
        }
        if ( open ) m = r;
        SAME( r, m, "the result of ReadString" );
        vf_reach( "plain" );
    }
    vf_assert( m <= max, "ReadString stores too many characters" );
    for ( int k = 0; k < m; k++ ) vf_assert( (unsigned char)a[ k ] == w[ k ], "ReadString stores other characters" );
    vf_assert( a[ m ] == 0, "ReadString does not terminate its text" );
    for ( int k = m + 1; k <= max; k++ ) vf_assert( a[ k ] == '#', "ReadString writes after its text" );
    delete[] p; delete[] a;
#elif FN == 8 // type codes
    int            n = (int)vf_choice( N + 1, "length" ), i = 0;
    unsigned char* p = text( n, true, "text" );
    const char*    s = (const char*)p;
    uint32         type = 77, v = 0;
    int            r = Text::ReadType( s, &type );
    if ( p[ 0 ] == '\'' )
    {
        for ( i = 1; p[ i ]; )
        {
            if ( p[ i ] == '\'' ) { i++; break; }
            i += p[ i ] == '\\';
            if ( p[ i ] ) v = v * 256 + p[ i++ ];
        }
        vf_reach( "type" );
    }
    SAME( r, i, "the result of ReadType" );
    SAME( type, v, "the type of ReadType" );
    uint32 t = 0;
    for ( int k = 0; k < 4; k++ ) t = t * 256 + ( k < n ? p[ k ] : 0 );
    SAME( Text::StringToType( s ), t, "StringToType" );
    if ( n )
    {
        const String<4> x = Text::TypeToString( t );
        int             m = n < 4 ? n : 4;
        SAME( Text::GetTextLength( x ), m, "the length of TypeToString" );
        for ( int k = 0; k < m; k++ ) vf_assert( (unsigned char)( (const char*)x )[ k ] == p[ k ], "TypeToString is not the text of the type" );
    }
    vf_reach( "end" );
    delete[] p;
#elif FN == 9 // every type code
    uint32           t = vf_u32( "type" );
    const String<4>  x = Text::TypeToString( t );
    const String<31> y = Text::TypeToHexCharString( t );
    const char *     s = x, *h = y;
    int              k = 0;
    if ( t >> 16 ) // with three characters, they may be in the low bytes
    {
        uint32 v = t >> 24 ? t : t << 8;
        for ( ; k < 4 && (unsigned char)( v >> 24 ); k++, v <<= 8 ) vf_assert( (unsigned char)s[ k ] == v >> 24, "TypeToString is not the text of the type" );
        vf_assert( s[ k ] == 0, "TypeToString is longer than the type" );
    }
    k = Text::GetTextLength( s );
    vf_assert( k <= 4, "TypeToString is too long" );
    vf_assert( h[ 0 ] == '0' && h[ 1 ] == 'x', "TypeToHexCharString does not begin with 0x" );
    for ( int i = 0; i < 8; i++ )
    {
        uint32 d = ( t >> ( 28 - 4 * i ) ) & 15;
        vf_assert( (unsigned char)h[ 2 + i ] == ( d < 10 ? '0' + d : 'A' + d - 10 ), "a digit of TypeToHexCharString is wrong" );
    }
    vf_assert( h[ 10 ] == ' ' && h[ 11 ] == '\'', "TypeToHexCharString does not quote the type" );
    for ( int i = 0; i < k; i++ ) vf_assert( h[ 12 + i ] == s[ i ], "a character of TypeToHexCharString is wrong" );
    vf_assert( h[ 12 + k ] == '\'' && h[ 13 + k ] == 0, "TypeToHexCharString does not end with the quote" );
    vf_reach( "end" );
#endif
}
