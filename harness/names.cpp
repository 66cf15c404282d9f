// Objects built by parsing or by insertion, with arbitrary names: lookup, typed lookup, iteration, repetition.
#include "jsonlib.h"

#ifndef ROOM
#define ROOM 80
#endif
#ifndef FIXED
#define FIXED 0 // the first members have given names, in one of three orders
#endif
static unsigned char nm[ K + 1 ][ ROOM ]; // K names, then the name looked up
static int           ln[ K + 1 ];
static const char    prefix[] = PREFIX;

static void anyName( int i )
{
    unsigned char c[ L + 1 ];
    vf_symbolic( c, L + 1, "name" );
    int n = vf_choice( L + 1, "len" ), m = 0;
    for ( const char* p = prefix; *p; p++ ) nm[ i ][ m++ ] = (unsigned char)*p;
    for ( int k = 0; k < n; k++ )
    {
#ifdef PARSE
        vf_assume( c[ k ] >= 0x20 && c[ k ] < 0x7F && c[ k ] != '"' && c[ k ] != '\\' );
#else
        vf_assume( c[ k ] != 0 );
#endif
        nm[ i ][ m++ ] = c[ k ];
    }
    nm[ i ][ m ] = 0;
    ln[ i ]      = m;
}
static void fixedName( int i, int order )
{
    int j = order == 0 ? i : order == 1 ? FIXED - 1 - i : i * 11 % ( FIXED + !FIXED ), m = 0;
    for ( const char* p = prefix; *p; p++ ) nm[ i ][ m++ ] = (unsigned char)*p;
    // b, bc, c, cd, d, ... leave names before, between and after for the free ones
    nm[ i ][ m++ ] = (unsigned char)( 'b' + j / 2 % 23 );
    if ( j & 1 ) nm[ i ][ m++ ] = (unsigned char)( 'c' + j / 46 );
    else if ( j >= 46 ) nm[ i ][ m++ ] = 'x';
    nm[ i ][ m ] = 0;
    ln[ i ]      = m;
}
static bool same( int i, int k )
{
    if ( ln[ i ] != ln[ k ] ) return false;
    bool eq = true;
    for ( int q = 0; q < ln[ i ]; q++ ) eq &= nm[ i ][ q ] == nm[ k ][ q ];
    return eq;
}
static bool before( const unsigned char* a, const unsigned char* b )
{
    while ( *a && *a == *b ) { a++; b++; }
    return *a < *b;
}
static bool first( int i ) // no earlier member has this name
{
    for ( int k = 0; k < i; k++ ) if ( same( k, i ) ) return false;
    return true;
}
// the kind of member i: 1 + ( i + TURN ) % 6
static int kind( int i ) { return 1 + ( i + TURN ) % 6; }
static Value* make( int k )
{
    switch ( k )
    {
        case 1: { String<> t( "t" ); return Detail::CreateValueFor( t ); }
        case 2: { double d = 0; return Detail::CreateValueFor( d ); }
        case 3: { bool b = false; return Detail::CreateValueFor( b ); }
        case 4: return Detail::CreateValueFor( Null() );
        case 5: { Array<double> a; return Detail::CreateValueFor( a ); }
    }
    ObjectMap<double> m;
    return Detail::CreateValueFor( m );
}
static void check( const ObjectValue* o, const Value* const* who )
{
    // lookup
    int hit = -1;
    for ( int i = 0; i < K; i++ ) if ( hit < 0 && same( i, K ) ) hit = i;
    const char*  q = (const char*)nm[ K ];
    const Value* e = o->FindMapElement( q );
    vf_assert( ( e != nullptr ) == ( hit >= 0 ), hit >= 0 ? "a member is not found under its name" : "a member is found under another name" );
    int k = 0;
    if ( hit >= 0 )
    {
        vf_reach( "hit" );
        k = kind( hit );
        vf_assert( kindOf( e ) == k && ( !who || e == who[ hit ] ), "another member than the first of that name is found" );
        vf_assert( sameText( e->name, nm[ K ], ln[ K ] ), "the member found has another name" );
    }
    else vf_reach( "miss" );
    const void* r[] = { o->FindString( q ), o->FindNumber( q ), o->FindBool( q ), o->FindJsonNull( q ), o->FindJsonValueArray( q ), o->FindJsonObjectValue( q ) };
    for ( int t = 1; t <= 6; t++ ) vf_assert( ( r[ t - 1 ] != nullptr ) == ( t == k ), "a typed lookup answers for another type or not for its own" );
    if ( hit >= 0 )
    {
        const void* d[] = { e->GetDataAsPointerTo<String<>>(), e->GetDataAsPointerTo<double>(), e->GetDataAsPointerTo<bool>(), e->GetDataAsPointerTo<Null>(), e->GetDataAsPointerTo<Array<Value*>>(), e->AsJsonObjectValue() };
        vf_assert( r[ k - 1 ] == d[ k - 1 ], "a typed lookup gives other data than the member's" );
    }
    // iteration
    int          count = 0, distinct = 0;
    const Value* last  = nullptr;
    for ( const Value* v : *o )
    {
        if ( last ) vf_assert( before( (const unsigned char*)(const char*)last->name, (const unsigned char*)(const char*)v->name ), "members are not visited in ascending order of their names" );
        last = v;
        count++;
    }
    for ( int i = 0; i < K; i++ ) distinct += first( i );
    vf_assert( count == distinct, "iteration does not visit every member once" );
    if ( distinct < K ) vf_reach( "repeated" );
    vf_assert( vf_fs_errors == 0, "file protocol" );
}

extern "C" void vf_main()
{
    int order = FIXED ? (int)vf_choice( 3, "order" ) : 0;
    for ( int i = 0; i <= K; i++ )
        if ( i < FIXED ) fixedName( i, order );
        else anyName( i );
    {
        StructuredData sd;
#ifdef PARSE
        static unsigned char text[ 400 + K * ( ROOM + 12 ) ];
        static const char* const lit[] = { "\"t\"", "0", "false", "null", "[]", "{}" };
        int n = 0;
        text[ n++ ] = '{';
        for ( int i = 0; i < K; i++ )
        {
            if ( i ) text[ n++ ] = ',';
            text[ n++ ] = '"';
            for ( int k = 0; k < ln[ i ]; k++ ) text[ n++ ] = nm[ i ][ k ];
            text[ n++ ] = '"';
            text[ n++ ] = ':';
            for ( const char* p = lit[ kind( i ) - 1 ]; *p; p++ ) text[ n++ ] = (unsigned char)*p;
        }
        text[ n++ ] = '}';
        {
            Array<char> t;
            setText( t, text, n );
            vf_assert( sd.Parse( t ).status == Status::kOk, "an object is refused" );
        }
        check( sd.GetRootJsonValue()->AsJsonObjectValue(), nullptr );
#else
        ObjectMap<double> none;
        vf_assert( sd.SerializeFrom( none ) == Status::kOk, "an empty object cannot be made" );
        ObjectValue* o = sd.GetRootJsonValue()->AsJsonObjectValue();
        Value*       who[ K ];
        for ( int i = 0; i < K; i++ )
        {
            who[ i ]       = make( kind( i ) );
            who[ i ]->name = (const char*)nm[ i ];
            bool in        = o->InsertAccountedMapElement( who[ i ] );
            vf_assert( in == first( i ), in ? "a repeated name is inserted" : "a new name is refused" );
            if ( !in ) delete who[ i ];
        }
        check( o, who );
#ifdef REMOVE // take one out again: the others are still found
        int   gone = vf_choice( K, "gone" );
        if ( first( gone ) )
        {
            o->RemoveMapElement( who[ gone ] );
            delete who[ gone ];
            for ( int i = 0; i < K; i++ )
                if ( first( i ) ) vf_assert( o->FindMapElement( (const char*)nm[ i ] ) == ( i == gone ? nullptr : who[ i ] ), "removing a member makes another one disappear" );
            vf_reach( "removed" );
        }
#endif
#endif
    }
    vf_assert( vf_live_blocks == 0, "memory is leaked" );
}
