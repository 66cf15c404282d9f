// Typed data of several shapes: arbitrary contents, comparison, prototypes.
#pragma once
#include "jsonlib.h"

#ifndef MAXN
#define MAXN 2
#endif
#ifdef LONGTEXT
static const unsigned char lens[] = { 40, 1, 70 };
#else
static const unsigned char lens[] = { 0, 1, 3, 15, 16, 17, 63, 64, 70 };
#endif
#ifndef LENS
#define LENS 3
#endif

static inline int anyText( char* b )
{
    int n = lens[ vf_choice( LENS, "n_len" ) ];
    for ( int i = 0; i < n; i++ ) b[ i ] = (char)( 'a' + i % 26 );
    if ( n )
    {
        char c[ 2 ];
        vf_symbolic( c, 2, "text" );
        vf_assume( c[ 0 ] > 0 );
        vf_assume( c[ 1 ] > 0 );
        b[ n - 1 ] = c[ 0 ];
        if ( n > 1 ) b[ n / 2 ] = c[ 1 ];
    }
    b[ n ] = 0;
    return n;
}
static inline void fill( double& d )
{
#ifdef DOUBLES
    vf_symbolic( &d, 8, "number" );
    vf_assume( ( ( dbits( d ) >> 52 ) & 0x7FF ) != 0x7FF );
#else
    static const double v[] = { 0.0, -0.0, 1.0 / 3, -1.7976931348623157e308, 5e-324 };
    static int next;
    d = v[ next++ % 5 ];
#endif
}
static inline void fill( bool& b ) { b = vf_choice( 2, "bool" ); }
static inline void fill( Null& ) {}
static inline void fill( String<>& s )
{
    char t[ 80 ];
    anyText( t );
    s = t;
}
static inline void fill( std::string& s )
{
    char t[ 80 ];
    anyText( t );
    s = t;
}
static inline bool eq( const double& a, const double& b ) { return dbits( a ) == dbits( b ); }
static inline bool eq( const bool& a, const bool& b ) { return a == b; }
static inline bool eq( const Null&, const Null& ) { return true; }
static inline bool eq( const String<>& a, const String<>& b )
{
    int n = a.GetStringLength();
    if ( b.GetStringLength() != n ) return false;
    const char *p = a, *q = b;
    for ( int i = 0; i <= n; i++ ) if ( p[ i ] != q[ i ] ) return false;
    return true;
}
static inline bool eq( const std::string& a, const std::string& b ) { return a == b; }

template <class T> static void fill( Array<T>& a );
template <class T> static void fill( ObjectMap<T>& a );
template <class T> static void fill( std::vector<T>& a );
template <class T> static void fill( std::map<std::string, T>& a );
template <class T> static bool eq( const Array<T>& a, const Array<T>& b );
template <class T> static bool eq( const ObjectMap<T>& a, const ObjectMap<T>& b );
template <class T> static bool eq( const std::vector<T>& a, const std::vector<T>& b );
template <class T> static bool eq( const std::map<std::string, T>& a, const std::map<std::string, T>& b );

struct Basic
{
    String<> text;
    double   number = 0;
    bool     flag   = false;
    Null     nothing;
};
#define BASIC_PROTO "text", object.text, "number", object.number, "flag", object.flag, "nothing", object.nothing
DEFINE_JSON4C4_FUNCTIONS( Basic, BASIC_PROTO )
static inline void fill( Basic& a ) { fill( a.text ); fill( a.number ); fill( a.flag ); }
static inline bool eq( const Basic& a, const Basic& b ) { return eq( a.text, b.text ) && eq( a.number, b.number ) && eq( a.flag, b.flag ); }

struct Point
{
    double x = 0, y = 0;
};
#define POINT_PROTO "y", object.y, Json::optional, "x", object.x
namespace Json = C4::Json;
DEFINE_JSON4C4_FUNCTIONS( Point, POINT_PROTO )
static inline void fill( Point& a ) { fill( a.x ); fill( a.y ); }
static inline bool eq( const Point& a, const Point& b ) { return eq( a.x, b.x ) && eq( a.y, b.y ); }

struct Nested
{
    Basic            basic;
    Array<Point>     points;
    Array<String<>>  names;
    String<>         last;
    Point            maybe;
};
#define NESTED_PROTO "the basic one", object.basic, "points", object.points, "names", object.names, Json::optional, "maybe", object.maybe, "last", object.last
DEFINE_JSON4C4_FUNCTIONS( Nested, NESTED_PROTO )
static inline void fill( Nested& a ) { fill( a.basic ); fill( a.points ); fill( a.names ); fill( a.last ); fill( a.maybe ); }
static inline bool eq( const Nested& a, const Nested& b ) { return eq( a.basic, b.basic ) && eq( a.points, b.points ) && eq( a.names, b.names ) && eq( a.last, b.last ) && eq( a.maybe, b.maybe ); }

class Member
{
public:
    Member() {}
    double          a = 0;
    String<>        b;
    Array<bool>     c;
    Point           d;
#define MEMBER_PROTO "a", a, "b", b, "c", c, "d", d
    DEFINE_JSON4C4_MEMBER_FUNCTIONS( MEMBER_PROTO )
};
static inline void fill( Member& m ) { fill( m.a ); fill( m.b ); fill( m.c ); fill( m.d ); }
static inline bool eq( const Member& a, const Member& b ) { return eq( a.a, b.a ) && eq( a.b, b.b ) && eq( a.c, b.c ) && eq( a.d, b.d ); }

struct Std
{
    std::string                        s;
    std::vector<double>                v;
    std::vector<std::string>           w;
    std::map<std::string, std::string> m;
    std::map<std::string, Point>       p;
};
#define STD_PROTO "s", object.s, "v", object.v, "w", object.w, "m", object.m, "p", object.p
DEFINE_JSON4C4_FUNCTIONS( Std, STD_PROTO )
static inline void fill( Std& a ) { fill( a.s ); fill( a.v ); fill( a.w ); fill( a.m ); fill( a.p ); }
static inline bool eq( const Std& a, const Std& b ) { return eq( a.s, b.s ) && eq( a.v, b.v ) && eq( a.w, b.w ) && eq( a.m, b.m ) && eq( a.p, b.p ); }

struct Maps
{
    ObjectMap<double>   numbers;
    ObjectMap<String<>> texts;
    ObjectMap<Point>    points;
};
#define MAPS_PROTO "numbers", object.numbers, "texts", object.texts, "points", object.points
DEFINE_JSON4C4_FUNCTIONS( Maps, MAPS_PROTO )
static inline void fill( Maps& a ) { fill( a.numbers ); fill( a.texts ); fill( a.points ); }
static inline bool eq( const Maps& a, const Maps& b ) { return eq( a.numbers, b.numbers ) && eq( a.texts, b.texts ) && eq( a.points, b.points ); }

// an array as the whole value of a structure
struct Wrapped
{
    Array<double> all;
};
#define WRAPPED_PROTO object.all
DEFINE_JSON4C4_FUNCTIONS( Wrapped, WRAPPED_PROTO )
static inline void fill( Wrapped& a ) { fill( a.all ); }
static inline bool eq( const Wrapped& a, const Wrapped& b ) { return eq( a.all, b.all ); }

// optional members of every kind
struct Choices
{
    std::string         s;
    Array<double>       v;
    ObjectMap<bool>     m;
    bool                f = false;
    Null                n;
    String<>            t;
    std::vector<Point>  p;
};
#define CHOICES_PROTO Json::optional, "s", object.s, Json::optional, "v", object.v, Json::optional, "m", object.m, Json::optional, "f", object.f, Json::optional, "n", object.n, Json::optional, "t", object.t, Json::optional, "p", object.p
DEFINE_JSON4C4_FUNCTIONS( Choices, CHOICES_PROTO )
static inline void fill( Choices& a ) { fill( a.s ); fill( a.v ); fill( a.m ); fill( a.f ); fill( a.t ); fill( a.p ); }
static inline bool eq( const Choices& a, const Choices& b ) { return eq( a.s, b.s ) && eq( a.v, b.v ) && eq( a.m, b.m ) && eq( a.f, b.f ) && eq( a.t, b.t ) && eq( a.p, b.p ); }

// a structure whose members lie beside those of another structure in one object
struct Flat
{
    Point  base;
    double z = 0;
};
#define FLAT_PROTO object.base, "z", object.z
DEFINE_JSON4C4_FUNCTIONS( Flat, FLAT_PROTO )
static inline void fill( Flat& a ) { fill( a.base ); fill( a.z ); }
static inline bool eq( const Flat& a, const Flat& b ) { return eq( a.base, b.base ) && eq( a.z, b.z ); }

template <class T>
static void fill( Array<T>& a )
{
    a.PurgeArray();
    int n = (int)vf_choice( MAXN + 1, "n_count" );
    for ( int i = 0; i < n; i++ )
    {
        T t;
        fill( t );
        a.AppendArrayElement( t );
    }
}
template <class T>
static void fill( std::vector<T>& a )
{
    a.clear();
    int n = (int)vf_choice( MAXN + 1, "n_count" );
    for ( int i = 0; i < n; i++ )
    {
        T t;
        fill( t );
        a.push_back( t );
    }
}
static const char* const keys[] = { "b", "", "a long key with more bytes than fit", "a", "c", "d" };
template <class T>
static void fill( ObjectMap<T>& a )
{
    a.PurgeMap();
    int n = (int)vf_choice( MAXN + 1, "n_count" );
    for ( int i = 0; i < n; i++ )
    {
        auto* e = new ObjectMapElement<T>;
        e->name = keys[ i ];
        fill( e->data );
        a.InsertMapElement( e );
    }
}
template <class T>
static void fill( std::map<std::string, T>& a )
{
    a.clear();
    int n = (int)vf_choice( MAXN + 1, "n_count" );
    for ( int i = 0; i < n; i++ ) fill( a[ keys[ i ] ] );
}
template <class T>
static bool eq( const Array<T>& a, const Array<T>& b )
{
    if ( a.GetArrayElementCount() != b.GetArrayElementCount() ) return false;
    for ( int i = 0; i < a.GetArrayElementCount(); i++ ) if ( !eq( a[ i ], b[ i ] ) ) return false;
    return true;
}
template <class T>
static bool eq( const std::vector<T>& a, const std::vector<T>& b )
{
    if ( a.size() != b.size() ) return false;
    for ( size_t i = 0; i < a.size(); i++ )
    {
        const T x = a[ i ], y = b[ i ];
        if ( !eq( x, y ) ) return false;
    }
    return true;
}
template <class T>
static bool eq( const ObjectMap<T>& a, const ObjectMap<T>& b )
{
    if ( a.GetMapElementCount() != b.GetMapElementCount() ) return false;
    for ( const auto* e : a )
    {
        const auto* o = b.FindMapElement( e->name );
        if ( !o || !eq( e->data, o->data ) ) return false;
    }
    return true;
}
template <class T>
static bool eq( const std::map<std::string, T>& a, const std::map<std::string, T>& b )
{
    if ( a.size() != b.size() ) return false;
    for ( auto& [ k, v ] : a )
    {
        auto i = b.find( k );
        if ( i == b.end() || !eq( v, i->second ) ) return false;
    }
    return true;
}

struct LongNamed
{
    LongNamed() {}
    String<>        first;
    Array<bool>     second;
    Point           third;
};
#define LONGNAMED_PROTO "a name that is long enough for the heap", object.first, "another name that is long enough", object.second, Json::optional, "an optional name that is long enough", object.third
DEFINE_JSON4C4_FUNCTIONS( LongNamed, LONGNAMED_PROTO )
static inline void fill( LongNamed& a ) { fill( a.first ); fill( a.second ); fill( a.third ); }
static inline bool eq( const LongNamed& a, const LongNamed& b ) { return eq( a.first, b.first ) && eq( a.second, b.second ) && eq( a.third, b.third ); }
