// Validation and deserialization of documents that fit a type or do not.
#include "typed.h"
typedef TYPE Data;

// what fits what, from the tree alone
static bool fits( const Value* v, const double& ) { return kindOf( v ) == 2; }
static bool fits( const Value* v, const bool& ) { return kindOf( v ) == 3; }
static bool fits( const Value* v, const Null& ) { return kindOf( v ) == 4; }
static bool fits( const Value* v, const String<>& ) { return kindOf( v ) == 1; }
static bool fits( const Value* v, const std::string& ) { return kindOf( v ) == 1; }
template <class T> static bool fits( const Value* v, const Array<T>& );
template <class T> static bool fits( const Value* v, const std::vector<T>& );
template <class T> static bool fits( const Value* v, const ObjectMap<T>& );
template <class T> static bool fits( const Value* v, const std::map<std::string, T>& );
template <class T> static bool has( const Value* v, const char* name, const T& t, bool optional = false );
static bool fits( const Value* v, const Basic& t ) { return has( v, "text", t.text ) && has( v, "number", t.number ) && has( v, "flag", t.flag ) && has( v, "nothing", t.nothing ); }
static bool fits( const Value* v, const Point& t ) { return has( v, "y", t.y ) && has( v, "x", t.x, true ); }
static bool fits( const Value* v, const Nested& t ) { return has( v, "the basic one", t.basic ) && has( v, "points", t.points ) && has( v, "names", t.names ) && has( v, "maybe", t.maybe, true ) && has( v, "last", t.last ); }
static bool fits( const Value* v, const Member& t ) { return has( v, "a", t.a ) && has( v, "b", t.b ) && has( v, "c", t.c ) && has( v, "d", t.d ); }
static bool fits( const Value* v, const Std& t ) { return has( v, "s", t.s ) && has( v, "v", t.v ) && has( v, "w", t.w ) && has( v, "m", t.m ) && has( v, "p", t.p ); }
static bool fits( const Value* v, const Maps& t ) { return has( v, "numbers", t.numbers ) && has( v, "texts", t.texts ) && has( v, "points", t.points ); }
static bool fits( const Value* v, const Wrapped& t ) { return fits( v, t.all ); }
static bool fits( const Value* v, const Flat& t ) { return fits( v, t.base ) && has( v, "z", t.z ); }
static bool fits( const Value* v, const Choices& t )
{
    return has( v, "s", t.s, true ) && has( v, "v", t.v, true ) && has( v, "m", t.m, true ) && has( v, "f", t.f, true ) && has( v, "n", t.n, true ) && has( v, "t", t.t, true ) && has( v, "p", t.p, true );
}
template <class T>
static bool elements( const Value* v )
{
    if ( kindOf( v ) != 5 ) return false;
    for ( Value* e : *v->GetDataAsPointerTo<Array<Value*>>() ) if ( !fits( e, T() ) ) return false;
    return true;
}
template <class T>
static bool members( const Value* v )
{
    if ( kindOf( v ) != 6 ) return false;
    for ( Value* e : *v->AsJsonObjectValue() ) if ( !fits( e, T() ) ) return false;
    return true;
}
template <class T> static bool fits( const Value* v, const Array<T>& ) { return elements<T>( v ); }
template <class T> static bool fits( const Value* v, const std::vector<T>& ) { return elements<T>( v ); }
template <class T> static bool fits( const Value* v, const ObjectMap<T>& ) { return members<T>( v ); }
template <class T> static bool fits( const Value* v, const std::map<std::string, T>& ) { return members<T>( v ); }
static const Value* member( const Value* v, const char* name )
{
    if ( kindOf( v ) != 6 ) return nullptr;
    for ( const Value* e : *v->AsJsonObjectValue() )
    {
        const char *p = e->name, *q = name;
        while ( *p && *p == *q ) { p++; q++; }
        if ( *p == *q ) return e;
    }
    return nullptr;
}
template <class T>
static bool has( const Value* v, const char* name, const T& t, bool optional )
{
    if ( kindOf( v ) != 6 ) return false;
    const Value* e = member( v, name );
    return e ? fits( e, t ) : optional;
}

// Pattern: $ is any of the values below, ~...; a member or element that is there or not, ? any letter.
static const char* const values[] = { "1", "\"s\"", "true", "null", "[]", "{}", "{\"y\":1}", "{\"x\":2}", "[1]", "{\"y\":3,\"x\":\"no\"}", "[{\"y\":1},{\"x\":1}]", "[\"a\",2]", "{\"y\":3,\"x\":4}", "[{\"y\":1,\"x\":2}]", "[true]" };
static unsigned char text[ 400 ];
static int n;
static void build( const char* p )
{
    bool comma = false; // something was emitted at this level
    unsigned char h[ 4 ];
    int k = 0;
    vf_symbolic( h, 4, "letters" );
    for ( ; *p; p++ )
    {
        if ( *p == '~' )
        {
            if ( vf_choice( 2, "there" ) ) continue;
            int depth = 0;
            while ( *++p != ';' || depth-- ) if ( *p == '~' ) depth++;
        }
        else if ( *p == ';' )
        {
            if ( p[ 1 ] ) text[ n++ ] = ',';
        }
        else if ( *p == '$' )
        {
            for ( const char* s = values[ vf_choice( VALUES, "value" ) ]; *s; s++ ) text[ n++ ] = (unsigned char)*s;
        }
        else if ( *p == '?' )
        {
            vf_assume( h[ k ] >= 'a' && h[ k ] <= 'z' );
            text[ n++ ] = h[ k++ ];
        }
        else
        {
            if ( ( *p == '}' || *p == ']' ) && n && text[ n - 1 ] == ',' ) n--;
            text[ n++ ] = (unsigned char)*p;
        }
    }
}

extern "C" void vf_main()
{
    build( PATTERN );
    {
        StructuredData sd;
        Data a, b;
#ifdef EMPTY // a document without a value
        vf_assert( Validate( sd, a ) == sd.DeserializeTo( a ) && Validate( sd, a ) != Status::kOk, "a document without a value is accepted" );
#endif
        Array<char> t;
        setText( t, text, n );
        vf_assert( sd.Parse( t ).status == Status::kOk, "harness: a valid text is rejected" );
        Status v = Validate( sd, a );
        Status d = sd.DeserializeTo( b );
        vf_assert( v == d, "validation and deserialization report different things" );
        bool ok = fits( sd.GetRootJsonValue(), a );
        vf_assert( ( v == Status::kOk ) == ok, ok ? "a document that fits is refused" : "a document that does not fit is accepted" );
        vf_observe( (uint64_t)d );
        if ( ok ) vf_reach( "fits" );
        else vf_reach( "refused" );
#ifdef POINT // an absent optional member leaves its target alone
        Point q;
        q.x = vf_double( "before" );
        Point before = q;
        if ( sd.DeserializeTo( q ) == Status::kOk )
        {
            const Value* e = member( sd.GetRootJsonValue(), "x" );
            vf_assert( dbits( q.x ) == dbits( e ? *e->GetDataAsPointerTo<double>() : before.x ), "an optional member is not taken when present and left alone when absent" );
            vf_assert( dbits( q.y ) == dbits( *member( sd.GetRootJsonValue(), "y" )->GetDataAsPointerTo<double>() ), "a required member is not taken" );
            vf_reach( "optional" );
        }
#endif
#ifdef CHOICES
        Choices q;
        q.s = "before it was there";
        q.t = "it was before that";
        q.v.AppendArrayElement( 7.0 );
        q.f = true;
        q.p.push_back( Point() );
        if ( sd.DeserializeTo( q ) == Status::kOk )
        {
            const Value *r = sd.GetRootJsonValue(), *e;
            e = member( r, "s" );
            vf_assert( e ? eq( String<>( q.s.c_str() ), *e->GetDataAsPointerTo<String<>>() ) : q.s == "before it was there", "an optional string is not taken when present and left alone when absent" );
            e = member( r, "t" );
            vf_assert( e ? eq( q.t, *e->GetDataAsPointerTo<String<>>() ) : eq( q.t, String<>( "it was before that" ) ), "an optional text is not taken when present and left alone when absent" );
            e = member( r, "v" );
            vf_assert( e ? q.v.GetArrayElementCount() == e->GetDataAsPointerTo<Array<Value*>>()->GetArrayElementCount() : q.v.GetArrayElementCount() == 1 && q.v[ 0 ] == 7.0, "an optional array is not taken when present and left alone when absent" );
            e = member( r, "p" );
            vf_assert( e ? (int)q.p.size() == e->GetDataAsPointerTo<Array<Value*>>()->GetArrayElementCount() : q.p.size() == 1, "an optional vector is not taken when present and left alone when absent" );
            e = member( r, "m" );
            vf_assert( q.m.GetMapElementCount() == ( e ? e->AsJsonObjectValue()->GetMapElementCount() : 0 ), "an optional map is not taken when present and left alone when absent" );
            e = member( r, "f" );
            vf_assert( q.f == ( e ? *e->GetDataAsPointerTo<bool>() : true ), "an optional boolean is not taken when present and left alone when absent" );
            vf_reach( "optional" );
        }
#endif
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
