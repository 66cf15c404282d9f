// An array of elements with BASE inline ones under sequences of STEPS operations, against a plain sequence. START elements at most in the beginning.
// POD: elements are plain integers. FAIL: each allocation of the last operation fails.
#include <new>
#include "TSArray.h"
#include "TSString.h"
#include "vf.h"
using namespace Terathon;
#define MAXV 40
static int         live, moves;
static const void* last;   // the element destroyed before
static bool        ordered; // elements are to be destroyed in descending order
#ifdef POD
typedef uint32 Elem;
static uint32 get( const Elem& e ) { return e; }
#define DEFAULT 0
#else
struct Elem // owns memory and knows its place
{
    uint32*     value;
    const Elem* self;
    Elem() : value( new uint32( 7 ) ), self( this ) { live++; }
    explicit Elem( uint32 v ) : value( new uint32( v ) ), self( this ) { live++; }
    Elem( const Elem& e ) : value( nullptr ), self( this )
    {
        vf_assert( e.self == &e && e.value, "an element is copied from something that is no element" );
        value = new uint32( *e.value );
        live++;
    }
    Elem( Elem&& e ) noexcept : value( e.value ), self( this )
    {
        vf_assert( e.self == &e, "an element is moved from something that is no element" );
        e.value = nullptr;
        live++;
    }
    ~Elem()
    {
        vf_assert( self == this, "something that is no element is destroyed" );
        if ( ordered ) vf_assert( !last || (const void*)this < last, "elements are not destroyed in reverse order" );
        last = this;
        self = nullptr;
        delete value;
        live--;
    }
    Elem& operator=( const Elem& ) = delete;
    bool operator==( const Elem& e ) const { return *value == *e.value; }
    bool operator!=( const Elem& e ) const { return *value != *e.value; }
};
static uint32 get( const Elem& e ) { vf_assert( e.self == &e && e.value, "an element of the array is not one" ); return *e.value; }
#define DEFAULT 7
#endif
typedef Array<Elem, BASE> Arr;
struct Ref
{
    uint32 v[ MAXV ];
    int    n;
};
static Ref   r;
static Elem* stable;      // where the elements are to stay
static int   stableCount; // up to this count
static uint32 pool[ 16 ];
static int    taken;
static uint32 value() { return pool[ taken++ % 16 ]; }
static void check( const Arr& a )
{
    vf_assert( a.GetArrayElementCount() == r.n, "an array has another number of elements" );
    vf_assert( a.Empty() == ( r.n == 0 ), "an array is empty or not wrongly" );
    vf_assert( a.end() - a.begin() == r.n, "the range of an array is not its count of elements" );
    for ( int i = 0; i < r.n; i++ ) vf_assert( get( a[ i ] ) == r.v[ i ], "an array has another element" );
    if ( stableCount && r.n <= stableCount ) vf_assert( a.begin() == stable, "the elements move although their place is reserved" );
    if ( r.n > stableCount ) stableCount = 0;
}
static void append( uint32 v ) { r.v[ r.n++ ] = v; }
static void insert( int at, uint32 v )
{
    if ( at >= r.n )
    {
        while ( r.n < at ) append( DEFAULT );
        append( v );
        return;
    }
    for ( int i = r.n++; i > at; i-- ) r.v[ i ] = r.v[ i - 1 ];
    r.v[ at ] = v;
}
static void plain( Arr& a, int from ) // plain elements that are not initialized by the array are set here
{
#ifdef POD
    for ( int i = from; i < r.n && i < a.GetArrayElementCount(); i++ ) a[ i ] = r.v[ i ];
#endif
    (void)a, (void)from;
}
static int pick( int n, const char* name ) { return (int)vf_choice( n, name ); }
static bool armed;
static char* other; // where another array is made
static void go()
{
#ifdef FAIL
    vf_fail_at      = vf_u32( "failing_allocation" );
    vf_alloc_count  = 0;
    vf_alloc_failed = 0;
    vf_alloc_armed  = 1;
    armed           = true;
#endif
}
static void done() { vf_alloc_armed = 0; }
#define DO( ... ) do { if ( final ) go(); __VA_ARGS__; done(); } while ( 0 )
static void step( Arr*& p, bool final )
{
    Arr& a = *p;
    int  n = r.n;
    Ref  old = r;
    (void)final;
    uint32 v = value();
    Elem   e( v );
    switch ( pick( 15, "operation" ) )
    {
        case 0:
        {
            append( v );
            Elem* at = nullptr;
            DO( at = a.AppendArrayElement( e ) );
            vf_assert( at == a.begin() + n && get( e ) == v, "appending returns the place of another element or changes its argument" );
            break;
        }
        case 1:
        {
            append( v );
            Elem* at = nullptr;
            DO( at = a.AppendArrayElement( static_cast<Elem&&>( e ) ) );
            vf_assert( at == a.begin() + n, "appending returns the place of another element" );
            break;
        }
        case 2:
        {
            append( DEFAULT );
            Elem* at = nullptr;
            DO( at = a.AppendArrayElement() );
            vf_assert( at == a.begin() + n, "appending returns the place of another element" );
            plain( a, n );
            break;
        }
        case 3: // an element of its own
            if ( n )
            {
                int i = pick( n, "own" );
                append( r.v[ i ] );
                DO( a.AppendArrayElement( a[ i ] ) );
            }
            break;
        case 4:
        {
            int i = pick( n + 3, "index" );
            insert( i, v );
            if ( vf_choice( 2, "move" ) ) DO( a.InsertArrayElement( i, static_cast<Elem&&>( e ) ) );
            else DO( a.InsertArrayElement( i, e ) );
            for ( int k = n; k < i; k++ ) if ( k < a.GetArrayElementCount() ) plain( a, k );
            break;
        }
        case 5:
            if ( n )
            {
                int i = pick( n + 2, "index" ), k = pick( n, "own" );
                insert( i, r.v[ k ] );
                DO( a.InsertArrayElement( i, a[ k ] ) );
                plain( a, n < i ? n : i );
            }
            break;
        case 6:
        {
            int i = pick( n + 2, "index" );
            DO( a.RemoveArrayElement( i ) );
            if ( i < n ) for ( r.n--; i < r.n; i++ ) r.v[ i ] = r.v[ i + 1 ];
            break;
        }
        case 7:
            DO( a.RemoveLastArrayElement() );
            if ( n ) r.n--;
            break;
        case 8:
        {
            int c = pick( n + 6, "count" );
            r.n   = c < n ? c : n;
            while ( r.n < c ) append( DEFAULT );
            ordered = c < n, last = nullptr;
            DO( a.SetArrayElementCount( c ) );
            ordered = false;
            plain( a, n );
            break;
        }
        case 9:
        {
            int c = pick( n + 6, "count" ), k = pick( n + 1, "own" );
            r.n   = c < n ? c : n;
            while ( r.n < c ) append( k < n ? old.v[ k ] : v );
            ordered = c < n, last = nullptr;
            DO( a.SetArrayElementCount( c, k < n ? a[ k ] : e ) );
            ordered = false;
            break;
        }
        case 10:
            ordered = true, last = nullptr;
            DO( a.ClearArray() );
            ordered = false;
            r.n     = 0;
            break;
        case 11:
            ordered = true, last = nullptr;
            DO( a.PurgeArray() );
            ordered     = false;
            r.n         = 0;
            stableCount = 0;
            break;
        case 12:
        {
            int c = pick( 4, "reserve" ) * 5 + n;
            if ( stableCount < c ) stableCount = 0;
            DO( a.ReserveArrayElementCount( c ) );
            if ( c > stableCount ) stable = a.begin(), stableCount = c;
            break;
        }
        case 13: // copied
        {
            char* place = (char*)p;
            Arr*  q     = nullptr;
            other       = new char[ sizeof( Arr ) ];
            DO( q = new ( other ) Arr( a ) );
            stableCount = 0;
            check( a );
            vf_assert( *q == a, "a copy of an array is not equal to it" );
            a.~Arr();
            delete[] place;
            p     = q;
            other = nullptr;
            break;
        }
        default: // moved
        {
            char* place = (char*)p;
            Arr*  q     = nullptr;
            other       = new char[ sizeof( Arr ) ];
            DO( q = new ( other ) Arr( static_cast<Arr&&>( a ) ) );
            stableCount = 0;
            vf_assert( a.GetArrayElementCount() == 0, "an array that was moved is not empty" );
            { // and is of use
                Elem x( v );
                a.AppendArrayElement( x );
                vf_assert( a.GetArrayElementCount() == 1 && get( a[ 0 ] ) == v, "an array that was moved cannot be used again" );
            }
            a.~Arr();
            delete[] place;
            p     = q;
            other = nullptr;
        }
    }
}
extern "C" void vf_main()
{
    vf_symbolic( pool, sizeof pool, "values" );
    {
        char* place = new char[ sizeof( Arr ) ];
        int   k     = pick( START + 1, "start" );
#if BASE == 0
        int  reserved = pick( 3, "reserved" ) * 3;
        Arr* p        = new ( place ) Arr( reserved );
        stable = p->begin(), stableCount = reserved;
#else
        Arr* p = new ( place ) Arr;
        stable = p->begin(), stableCount = BASE;
        vf_assert( (char*)stable >= (char*)p && (char*)( stable + BASE ) <= (char*)( p + 1 ), "the first elements are not inside the array" );
#endif
        for ( int i = 0; i < k; i++ )
        {
            uint32 v = value();
            Elem   e( v );
            p->AppendArrayElement( e );
            append( v );
        }
        check( *p );
        for ( int i = 0; i < STEPS; i++ )
        {
#ifdef FAIL
            Ref  old    = r;
            bool failed = false;
            try { step( p, i == STEPS - 1 ); }
            catch ( std::bad_alloc& )
            {
                done();
                failed = true;
            }
            if ( failed )
            {
                vf_assert( armed, "harness: an exception without a failed allocation" );
                ordered = false;
                int n   = p->GetArrayElementCount();
                vf_assert( n >= old.n && n <= r.n, "after a failed allocation an array has lost elements" );
                for ( int j = 0; j < old.n; j++ ) vf_assert( get( ( *p )[ j ] ) == old.v[ j ], "after a failed allocation an array has other elements" );
                for ( int j = 0; j < n; j++ ) get( ( *p )[ j ] );
                r   = old;
                r.n = n;
                delete[] other;
                other = nullptr;
                for ( int j = old.n; j < n; j++ ) r.v[ j ] = get( ( *p )[ j ] );
                stableCount = 0;
                for ( int j = 0; j < 6; j++ ) // and the array is of use
                {
                    Elem e( 9 );
                    p->AppendArrayElement( e );
                    append( 9 );
                }
                vf_reach( "failed" );
            }
#else
            step( p, false );
#endif
            check( *p );
#ifndef POD
            vf_assert( live == r.n, "elements are not constructed and destroyed one for one" );
#endif
        }
        uint32 v = vf_u32( "search" );
        Elem   e( v );
        int    at = -1;
        for ( int i = r.n - 1; i >= 0; i-- ) at = r.v[ i ] == v ? i : at;
        vf_assert( p->FindArrayElementIndex( e ) == at, "FindArrayElementIndex is wrong" );
        {
            Arr q( *p );
            vf_assert( q == *p, "equal arrays are different" );
            if ( r.n )
            {
                q.RemoveLastArrayElement();
                vf_assert( !( q == *p ), "arrays of different counts are equal" );
                q.AppendArrayElement( e );
                vf_assert( ( q == *p ) == ( r.v[ r.n - 1 ] == v ), "arrays with another element are equal" );
            }
        }
        p->~Arr();
        delete[] (char*)p;
    }
    vf_assert( live == 0, "elements are left after the array" );
    vf_reach( "end" );
}
