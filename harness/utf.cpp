// UTF-8 and UTF-16: FN selects what is checked, N is the number of free bytes or words.
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
// one character of a terminated text: its bytes (1 and 0xFFFD if it is malformed). Encoded surrogates count as characters of three bytes.
static int decode( const unsigned char* p, uint32* code )
{
    uint32 c = p[ 0 ];
    *code    = c;
    if ( c < 0x80 ) return 1;
    *code = 0xFFFD;
    int n = c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
    if ( !n ) return 0;
    uint32 v = n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
    for ( int i = 1; i < n; i++ )
    {
        if ( p[ i ] < 0x80 || p[ i ] > 0xBF ) return 0;
        v = v * 64 + ( p[ i ] & 0x3F );
    }
    if ( n == 3 && v < 0x800 ) return 0;
    if ( n == 4 && ( v < 0x10000 || v > 0x10FFFF ) ) return 0;
    *code = v;
    return n;
}
static int encode( uint32 c, unsigned char* p )
{
    if ( c < 0x80 ) { p[ 0 ] = (unsigned char)c; return 1; }
    if ( c < 0x800 ) { p[ 0 ] = (unsigned char)( 0xC0 + c / 64 ); p[ 1 ] = (unsigned char)( 0x80 + c % 64 ); return 2; }
    if ( c < 0x10000 ) { p[ 0 ] = (unsigned char)( 0xE0 + c / 4096 ); p[ 1 ] = (unsigned char)( 0x80 + c / 64 % 64 ); p[ 2 ] = (unsigned char)( 0x80 + c % 64 ); return 3; }
    p[ 0 ] = (unsigned char)( 0xF0 + c / 262144 );
    p[ 1 ] = (unsigned char)( 0x80 + c / 4096 % 64 );
    p[ 2 ] = (unsigned char)( 0x80 + c / 64 % 64 );
    p[ 3 ] = (unsigned char)( 0x80 + c % 64 );
    return 4;
}
static unsigned char* bytes( int n ) // a terminated text of n free bytes in a block of its size
{
    unsigned char* p = new unsigned char[ n + 1 ];
    vf_symbolic( p, n, "text" );
    for ( int i = 0; i < n; i++ ) vf_assume( p[ i ] != 0 );
    p[ n ] = 0;
    return p;
}
static uint16* words( int n )
{
    uint16* p = new uint16[ n + 1 ];
    vf_symbolic( p, 2 * n, "words" );
    for ( int i = 0; i < n; i++ ) vf_assume( p[ i ] != 0 );
    p[ n ] = 0;
    return p;
}
extern "C" void vf_main()
{
#if FN == 1 // one code
    uint32 c = vf_u32( "code" ), d = 1;
    char   b[ 8 ] = { '#', '#', '#', '#', '#', '#', '#', '#' };
    int    n = Text::WriteUnicodeChar( b, c );
    vf_assert( n == Text::GetUnicodeCharByteCount( c ), "the predicted size of a character is not the size of its encoding" );
    if ( c > 0x10FFFF )
    {
        vf_assert( n == 0 && b[ 0 ] == '#', "a code above the last one is encoded" );
        vf_reach( "end" );
        return;
    }
    if ( c >= 0xD800 && c <= 0xDFFF ) { vf_reach( "end" ); return; }
    unsigned char e[ 4 ];
    int           m = encode( c, e );
    vf_assert( n == m, "the encoding of a character is not the shortest" );
    for ( int i = 0; i < m; i++ ) vf_assert( (unsigned char)b[ i ] == e[ i ], "the encoding of a character is wrong" );
    for ( int i = m; i < 8; i++ ) vf_assert( b[ i ] == '#', "something is written after the encoding of a character" );
    vf_assert( Text::ValidateUnicodeChar( b ) == m, "a well-formed character is not recognised" );
    vf_assert( Text::ReadUnicodeChar( b, &d ) == m && d == c, "a character is not read back" );
    vf_assert( Text::GetNextUnicodeCharByteCount( b, 8 ) == m && Text::GetPreviousUnicodeCharByteCount( b + m, m ) == m, "the size of a neighbouring character is wrong" );
    vf_reach( "scalar" );
#elif FN == 2 // one character of any bytes
    unsigned char* p = bytes( (int)vf_choice( 5, "length" ) );
    uint32         c, d = 1;
    int            m = decode( p, &c );
    if ( c >= 0xD800 && c <= 0xDFFF ) // left open, but the two functions agree
    {
        int n = Text::ReadUnicodeChar( (const char*)p, &d ), v = Text::ValidateUnicodeChar( (const char*)p );
        vf_assert( v == 0 ? n == 1 && d == 0xFFFD : v == 3 && n == 3 && d == c, "an encoded surrogate is treated in two ways" );
    }
    else
    {
        vf_assert( Text::ValidateUnicodeChar( (const char*)p ) == m, "a malformed character is taken for well-formed, or the other way round" );
        int n = Text::ReadUnicodeChar( (const char*)p, &d );
        vf_assert( d == c && n == ( m ? m : 1 ), "a character is read as another one" );
        vf_reach( m ? "valid" : "malformed" );
    }
    delete[] p;
#elif FN == 3 // counting in any text
    int            len = (int)vf_choice( N + 1, "length" ), chars = 0, at = 0, cut = (int)vf_choice( N + 2, "max" ), before = -1;
    unsigned char* p   = bytes( len );
    const char*    s   = (const char*)p;
    bool           ok  = true;
    int            start[ N + 2 ];
    while ( p[ at ] )
    {
        uint32 c;
        int    m = decode( p + at, &c );
        if ( !m ) ok = false;
        start[ chars++ ] = at;
        at += m ? m : 1;
    }
    start[ chars ] = at;
    int a = Text::GetUnicodeCharCount( s ), b = Text::GetUnicodeCharCount( s, cut ), c = Text::GetUnicodeCharStringByteCount( s, cut );
    int e = cut <= len ? Text::GetPreviousUnicodeCharByteCount( s + cut, cut ) : 0, f = Text::GetNextUnicodeCharByteCount( s, cut );
    vf_assert( a >= 0 && a <= len && b >= 0 && b <= a && b <= cut, "more characters are counted than there are bytes" );
    vf_assert( c >= 0 && c <= len, "the bytes of characters go beyond the text" );
    vf_assert( e >= 0 && e <= cut && f >= 0 && f <= cut, "the size of a neighbouring character is larger than the limit" );
    if ( ok )
    {
        vf_assert( a == chars, "characters are counted wrongly" );
        int begun = 0;
        while ( begun < chars && start[ begun ] < cut ) begun++;
        vf_assert( b == begun, "the characters within a limit are counted wrongly" );
        vf_assert( c == start[ cut < chars ? cut : chars ], "the bytes of a number of characters are counted wrongly" );
        for ( int i = 0; i < chars; i++ ) if ( start[ i + 1 ] == cut ) before = start[ i ];
        if ( before >= 0 ) vf_assert( e == cut - before, "the size of the previous character is wrong" );
        if ( len ) vf_assert( f == ( start[ 1 ] < cut ? start[ 1 ] : cut ), "the size of the next character is wrong" );
        vf_reach( "valid" );
    }
    delete[] p;
#elif FN == 4 // UTF-16 to UTF-8
    uint16*       w = words( (int)vf_choice( N + 1, "length" ) );
    unsigned char e[ 4 * N + 1 ];
    int           n = 0, cut = (int)vf_choice( 3 * N + 2, "max" ), fit = 0;
    bool          paired = true, full = false;
    int           units = 0;
    for ( int i = 0; w[ i ]; i++ )
    {
        uint32 c = w[ i ];
        if ( c >= 0xD800 && c <= 0xDFFF )
        {
            if ( c > 0xDBFF || w[ i + 1 ] < 0xDC00 || w[ i + 1 ] > 0xDFFF )
            {
                paired = false;
                continue;
            }
            c = 0x10000 + ( c - 0xD800 ) * 0x400 + ( w[ ++i ] - 0xDC00 );
            units++;
        }
        units++;
        n += encode( c, e + n );
        if ( n > cut ) full = true;
        if ( !full ) fit = n;
    }
    vf_assert( Text::GetUnicodeStringLength( w ) == n, "the predicted length of the UTF-8 text is wrong" );
    unsigned char* o = new unsigned char[ cut + 1 ];
    Text::ConvertWideTextToString( w, (char*)o, cut );
    for ( int i = 0; i < fit; i++ ) vf_assert( o[ i ] == e[ i ], "a character is converted to another one" );
    vf_assert( o[ fit ] == 0, "a converted text does not end with the last character that fits" );
    if ( !full )
    {
        String<> s( w );
        vf_assert( s.GetStringLength() == n, "a string made of wide text has another length" );
        for ( int i = 0; i <= n; i++ ) vf_assert( (unsigned char)( (const char*)s )[ i ] == ( i < n ? e[ i ] : 0 ), "a string made of wide text differs" );
        s += 'x';
        vf_assert( s.GetStringLength() == n + 1, "a string made of wide text cannot grow" );
        vf_assert( Text::GetWideTextCharCount( (const char*)o ) == units, "the predicted length of the UTF-16 text is wrong" );
        if ( paired )
        {
            uint16* back = new uint16[ units + 1 ];
            Text::ConvertStringToWideText( (const char*)o, back, units );
            for ( int i = 0; i <= units; i++ ) vf_assert( back[ i ] == w[ i ], "a text is not the same after conversion to UTF-8 and back" );
            delete[] back;
            vf_reach( "back" );
        }
    }
    delete[] o;
    delete[] w;
#else // UTF-8 to UTF-16
    unsigned char* p = bytes( (int)vf_choice( N + 1, "length" ) );
    uint16         e[ N + 1 ];
    int            n = 0, cut = (int)vf_choice( N + 2, "max" ), fit = 0;
    bool           ok = true, full = false;
    for ( int at = 0; p[ at ]; )
    {
        uint32 c;
        int    m = decode( p + at, &c );
        if ( c >= 0xD800 && c <= 0xDFFF ) { delete[] p; return; } // left open
        if ( !m ) ok = false;
        at += m ? m : 1;
        if ( c >= 0x10000 )
        {
            e[ n++ ] = (uint16)( 0xD800 + ( c - 0x10000 ) / 0x400 );
            e[ n++ ] = (uint16)( 0xDC00 + c % 0x400 );
        }
        else e[ n++ ] = (uint16)c;
        if ( n > cut ) full = true;
        if ( !full ) fit = n;
    }
    vf_assert( Text::GetWideTextCharCount( (const char*)p ) == n, "the predicted length of the UTF-16 text is wrong" );
    uint16* o = new uint16[ cut + 1 ];
    Text::ConvertStringToWideText( (const char*)p, o, cut );
    for ( int i = 0; i < fit; i++ ) vf_assert( o[ i ] == e[ i ], "a character is converted to another one" );
    vf_assert( o[ fit ] == 0, "a converted text does not end with the last character that fits" );
    if ( ok && !full )
    {
        int len = 0;
        while ( p[ len ] ) len++;
        vf_assert( Text::GetUnicodeStringLength( o ) == len, "the predicted length of the UTF-8 text is wrong" );
        char* back = new char[ len + 1 ];
        Text::ConvertWideTextToString( o, back, len );
        for ( int i = 0; i <= len; i++ ) vf_assert( (unsigned char)back[ i ] == p[ i ], "a text is not the same after conversion to UTF-16 and back" );
        delete[] back;
        vf_reach( "back" );
    }
    delete[] o;
    delete[] p;
#endif
    vf_reach( "end" );
}
