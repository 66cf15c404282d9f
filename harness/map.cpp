// The ordered map against a reference set, for every sequence of OPS operations on maps of several shapes.
#include "vf.h"
#include "TSMap.h"
using namespace Terathon;
static int born, dead;
struct Elem : MapElement<Elem>
{
    typedef int KeyType;
    int         key;
    int         tag;
    Elem( int k, int t ) : key( k ), tag( t ) { born++; }
    ~Elem() { dead++; }
    KeyType GetKey() const { return key; }
};
#ifndef OPS
#define OPS 2
#endif
// What a map should hold: elements in ascending order of their (symbolic) keys.
struct Ref
{
    Elem* e[ 24 ];
    int   n = 0;
    // index of the element with the key, or -1 - (where it would go)
    int find( int k ) const
    {
        for ( int i = 0; i < n; i++ )
        {
            if ( e[ i ]->key == k ) return i;
            if ( k < e[ i ]->key ) return -1 - i;
        }
        return -1 - n;
    }
    void put( int i, Elem* x )
    {
        for ( int j = n; j > i; j-- ) e[ j ] = e[ j - 1 ];
        e[ i ] = x;
        n++;
    }
    void drop( int i )
    {
        n--;
        for ( int j = i; j < n; j++ ) e[ j ] = e[ j + 1 ];
    }
};
static Ref ref, side;

// height of a subtree, which is held against the height of the balanced trees of its size
static int height( const Elem* e, int* size )
{
    if ( !e ) return *size = 0;
    int ls, rs, l = height( e->GetLeftSubnode(), &ls ), r = height( e->GetRightSubnode(), &rs );
    *size = 1 + ls + rs;
    // least sizes of balanced trees of height 1,2,3...
    int h = 0, a = 1, b = 2;
    while ( a <= *size ) { h++; int t = a + b + 1; a = b; b = t; }
    l = 1 + ( l > r ? l : r );
    vf_assert( l <= h, "the tree is higher than a balanced one" );
    return l;
}
#ifdef AVL
// the number of balanced trees with n elements and height h, and the elements of the k-th one in level order
static int counts[ 14 ][ 8 ];
static int shapeCount( int n, int h )
{
    return h < 0 ? 0 : counts[ n ][ h ];
}
static void countShapes()
{
    counts[ 0 ][ 0 ] = 1;
    for ( int h = 1; h < 6; h++ )
        for ( int n = 1; n < 14; n++ )
            for ( int l = 0; l < n; l++ )
            {
                int r = n - 1 - l;
                counts[ n ][ h ] += shapeCount( l, h - 1 ) * ( shapeCount( r, h - 1 ) + shapeCount( r, h - 2 ) ) + shapeCount( l, h - 2 ) * shapeCount( r, h - 1 );
            }
}
static int levelKeys[ 8 ][ 24 ], levelCount[ 8 ];
static void shape( int n, int h, int k, int lo, int depth )
{
    if ( n == 0 ) return;
    for ( int l = 0; l < n; l++ )
    {
        int r = n - 1 - l;
        for ( int way = 0; way < 3; way++ )
        {
            int hl = way == 2 ? h - 2 : h - 1, hr = way == 1 ? h - 2 : h - 1;
            int cr = shapeCount( r, hr ), c = shapeCount( l, hl ) * cr;
            if ( k < c )
            {
                levelKeys[ depth ][ levelCount[ depth ]++ ] = lo + l;
                shape( l, hl, k / cr, lo, depth + 1 );
                shape( r, hr, k % cr, lo + l + 1, depth + 1 );
                return;
            }
            k -= c;
        }
    }
}
#endif
static void checkOne( Map<Elem>& m, Map<Elem>& o, const Ref& r )
{
    Elem* it = m.GetFirstMapElement();
    for ( int i = 0; i < r.n; i++ )
    {
        vf_assert( m.FindMapElement( r.e[ i ]->key ) == r.e[ i ], "lookup gives another element than the one inserted under the key" );
        vf_assert( it == r.e[ i ], "iteration does not visit the elements in key order" );
        vf_assert( m[ i ] == r.e[ i ], "indexing does not give the elements in key order" );
        vf_assert( m.Member( r.e[ i ] ) && !o.Member( r.e[ i ] ) && r.e[ i ]->GetOwningMap() == &m, "an element does not know its map" );
        it = it->GetNextMapElement();
    }
    vf_assert( it == nullptr, "iteration visits more than the elements" );
    vf_assert( m.GetMapElementCount() == r.n && m.Empty() == ( r.n == 0 ), "the count is wrong" );
    vf_assert( m[ r.n ] == nullptr, "indexing past the end gives an element" );
    it = m.GetLastMapElement();
    for ( int i = r.n - 1; i >= 0; i-- )
    {
        vf_assert( it == r.e[ i ], "backward iteration does not visit the elements in key order" );
        it = it->GetPreviousMapElement();
    }
    vf_assert( it == nullptr, "backward iteration visits more than the elements" );
    int c = 0;
    for ( Elem* e : m ) { (void)e; c++; }
    vf_assert( c == r.n, "range iteration is wrong" );
    int size;
    height( m.GetRootMapElement(), &size );
    vf_assert( size == r.n, "the tree has another number of elements" );
}
static void check( Map<Elem>& m, Map<Elem>& o )
{
    checkOne( m, o, ref );
    checkOne( o, m, side );
}
static void insert( Map<Elem>& m, int k )
{
    int i = ref.find( k );
    Elem* e = new Elem( k, 0 );
    bool ok = m.InsertMapElement( e );
    vf_assert( ok == ( i < 0 ), "insertion is refused or not at the wrong time" );
    if ( ok ) ref.put( -1 - i, e );
    else
    {
        vf_assert( !e->GetOwningMap(), "a refused element belongs to the map" );
        delete e;
    }
}

extern "C" void vf_main()
{
    {
        Map<Elem> m, o;
#ifdef SYMKEYS
        // the first elements have any keys, in any order
        int32_t ks[ SYMKEYS ];
        vf_symbolic( ks, sizeof ks, "keys" );
        for ( int i = 0; i < SYMKEYS; i++ )
        {
            insert( m, ks[ i ] );
        }
        check( m, o );
#elif defined AVL
        {
            // every balanced tree of AVL to AVLTO elements
            int n = AVL + (int)vf_choice( AVLTO - AVL + 1, "size" ), total = 0, h = 0;
            countShapes();
            for ( int i = 0; i < 7; i++ ) total += shapeCount( n, i );
            int k = (int)vf_choice( total, "shape" );
            while ( k >= shapeCount( n, h ) ) k -= shapeCount( n, h++ );
            shape( n, h, k, 0, 0 );
            for ( int i = 0; i < 8; i++ )
                for ( int j = 0; j < levelCount[ i ]; j++ ) insert( m, levelKeys[ i ][ j ] * 100 );
            check( m, o );
        }
#else
        static const signed char shapes[][ 24 ] = {
            { 7, 4, 10, 2, 6, 9, 11, 1, 3, 5, 8, 0, -1 },    // sparsest balanced tree of height 5, heavy on the left
            { 5, 2, 8, 1, 3, 6, 10, 4, 7, 9, 11, 12, -1 },   // its mirror image
            { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1 },
            { 12, 10, 8, 6, 4, 2, 0, -1 },
            { 3, 1, 5, -1 },
            { -1 },
            { 12, 7, 17, 4, 10, 15, 19, 2, 6, 9, 11, 14, 16, 18, 1, 3, 5, 8, 13, 0, -1 } }; // sparsest of height 6
        int s = FIRST + (int)vf_choice( SHAPES, "shape" );
        for ( int i = 0; shapes[ s ][ i ] >= 0; i++ ) insert( m, ( shapes[ s ][ i ] - 6 ) * 100 );
        check( m, o );
#endif
        side.put( 0, new Elem( SIDE, 5 ) );
        o.InsertMapElement( side.e[ 0 ] );
        for ( int step = 0; step < OPS; step++ )
        {
#ifdef OPLIST
            static const signed char ops[] = OPLIST;
            int op = ops[ vf_choice( sizeof ops, "op" ) ];
#else
            int op = (int)vf_choice( 8, "op" );
#endif
            int k  = (int)vf_u32( "key" );
            int i = ref.find( k );
            Elem* cur = i >= 0 ? ref.e[ i ] : nullptr;
            switch ( op )
            {
                case 0:
                    vf_assert( m.FindMapElement( k ) == cur, "lookup of an arbitrary key is wrong" );
                    insert( m, k );
                    break;
                case 1:
                {
                    Elem* e   = new Elem( k, 3 );
                    Elem* old = m.InsertReplaceMapElement( e );
                    vf_assert( old == cur, "replacing insertion does not return the replaced element" );
                    if ( old )
                    {
                        ref.e[ i ] = e;
                        vf_assert( !old->GetOwningMap() && !m.Member( old ), "a replaced element still belongs to the map" );
                        delete old;
                        vf_assert( m.InsertReplaceMapElement( e ) == nullptr, "replacing an element by itself does something" );
                    }
                    else ref.put( -1 - i, e );
                    break;
                }
                case 2:
                    vf_assume( cur != nullptr );
                    m.RemoveMapElement( cur );
                    vf_assert( !cur->GetOwningMap() && !m.Member( cur ), "a removed element still belongs to the map" );
                    vf_assert( !cur->GetNextMapElement() && !cur->GetPreviousMapElement(), "a removed element is still linked" );
                    delete cur;
                    ref.drop( i );
                    break;
                case 3:
                    vf_assume( cur != nullptr );
                    cur->Detach();
                    vf_assert( !cur->GetOwningMap(), "a detached element still belongs to the map" );
                    cur->Detach();
                    ref.drop( i );
                    check( m, o );
                    vf_assert( m.InsertMapElement( cur ), "a detached element is not inserted again" );
                    ref.put( i, cur );
                    break;
                case 4:
                    vf_assume( cur != nullptr );
                    delete cur;
                    ref.drop( i );
                    break;
                case 5:
                {
                    MapReservation r;
                    bool ok = m.ReserveMapElement( k, &r );
                    vf_assert( ok == !cur, "reservation is refused or not at the wrong time" );
                    if ( ok )
                    {
                        Elem* e = new Elem( k, 4 );
                        m.InsertMapElement( e, &r );
                        ref.put( -1 - i, e );
                    }
                    break;
                }
                case 6: // move an element of the other map
                {
                    vf_assume( side.n > 0 );
                    Elem* x = side.e[ 0 ];
                    i = ref.find( x->key );
                    bool ok = m.InsertMapElement( x );
                    vf_assert( ok == ( i < 0 ), "an element of another map is inserted or not at the wrong time" );
                    if ( ok )
                    {
                        ref.put( -1 - i, x );
                        side.drop( 0 );
                    }
                    break;
                }
                case 7: // move an element to the other map
                {
                    vf_assume( cur != nullptr );
                    int q = side.find( k );
                    Elem* old = o.InsertReplaceMapElement( cur );
                    vf_assert( old == ( q >= 0 ? side.e[ q ] : nullptr ), "replacing insertion into the other map returns something else" );
                    ref.drop( i );
                    if ( old )
                    {
                        side.e[ q ] = cur;
                        delete old;
                    }
                    else side.put( -1 - q, cur );
                    break;
                }
            }
            check( m, o );
        }
        vf_reach( "end" );
        uint64_t sum = 0;
        for ( Elem* e : m ) sum = sum * 31 + (uint64_t)e->tag;
        sum = sum * 31 + (uint64_t)m.GetMapElementCount();
        vf_observe( sum );
#ifdef WIPE
        if ( vf_choice( 2, "wipe" ) )
        {
            m.RemoveAllMapElements();
            vf_assert( m.Empty() && m.GetMapElementCount() == 0, "the map is not empty after removing everything" );
            for ( int i = 0; i < ref.n; i++ )
            {
                vf_assert( !ref.e[ i ]->GetOwningMap() && !ref.e[ i ]->GetNextMapElement(), "an element is still linked after removing everything" );
                vf_assert( m.InsertMapElement( ref.e[ i ] ), "re-insertion is refused" );
            }
        }
        else
        {
            int d = dead, n = m.GetMapElementCount();
            m.PurgeMap();
            vf_assert( dead == d + n, "purging does not delete every element once" );
            ref.n = 0;
        }
        check( m, o );
#endif
    }
    vf_assert( born == dead, "destroying the maps does not destroy each element once" );
}
