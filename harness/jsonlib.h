// Helpers over the public API of the library.
#pragma once
#include "C4Json.h"
#include "oracle.h"

using namespace C4::Json;
using Terathon::Array;
using Terathon::int32;
using Terathon::Map;
using Terathon::MapElement;
using Terathon::String;
using Terathon::uint32;

// text[0..n) plus the terminator the API asks for
static inline void setText( Array<char>& a, const unsigned char* b, int n )
{
    a.SetArrayElementCount( n + 1, 0 );
    for ( int i = 0; i < n; i++ ) a[ i ] = (char)b[ i ];
    a[ n ] = 0;
}

static inline uint64_t dbits( double d )
{
    uint64_t v;
    __builtin_memcpy( &v, &d, 8 );
    return v;
}

// which single kind a value reports: 1 string 2 number 3 bool 4 null 5 array 6 object, 0 none or several
static inline int kindOf( const Value* v )
{
    int k = 0, n = 0;
    if ( v->GetDataAsPointerTo<String<>>() ) { k = 1; n++; }
    if ( v->GetDataAsPointerTo<double>() ) { k = 2; n++; }
    if ( v->GetDataAsPointerTo<bool>() ) { k = 3; n++; }
    if ( v->GetDataAsPointerTo<Null>() ) { k = 4; n++; }
    if ( v->GetDataAsPointerTo<Array<Value*>>() ) { k = 5; n++; }
    if ( v->AsJsonObjectValue() ) { k = 6; n++; }
    return n == 1 ? k : 0;
}

static inline bool sameText( const String<>& s, const unsigned char* b, int n )
{
    if ( s.GetStringLength() != n ) return false;
    const char* p = s;
    for ( int i = 0; i < n; i++ ) if ( (unsigned char)p[ i ] != b[ i ] ) return false;
    return p[ n ] == 0;
}

#if defined SIZES && defined DEEP // deep nesting
enum { kTextMax = 400, kNamesMax = 40, kMembersMax = 4 };
#elif defined SIZES // exceptional sizes
enum { kTextMax = 66000, kNamesMax = 66000, kMembersMax = 1200 };
#else
enum { kTextMax = 400, kNamesMax = 800, kMembersMax = 64 };
#endif

// Walks a text the oracle accepted and checks that the tree is what the text says.
struct TreeCheck
{
    oracle::Scan s;
    unsigned char buf[ kTextMax ];

    void value( const Value* v )
    {
        vf_assert( v != nullptr, "a value of the text is missing from the tree" );
        int c = s.cur();
        if ( c == '"' )
        {
            s.i++;
            int len;
            s.str( buf, len );
            const String<>* d = v->GetDataAsPointerTo<String<>>();
            vf_assert( d && kindOf( v ) == 1, "a string of the text is not a string in the tree" );
            vf_assert( sameText( *d, buf, len ), "a string has other content than the text says" );
        }
        else if ( c == 't' || c == 'f' )
        {
            s.lit( c == 't' ? "true" : "false" );
            const bool* d = v->GetDataAsPointerTo<bool>();
            vf_assert( d && kindOf( v ) == 3, "a boolean of the text is not a boolean in the tree" );
            vf_assert( *d == ( c == 't' ), "a boolean has the wrong value" );
        }
        else if ( c == 'n' )
        {
            s.lit( "null" );
            vf_assert( v->GetDataAsPointerTo<Null>() && kindOf( v ) == 4, "a null of the text is not a null in the tree" );
        }
        else if ( c == '[' )
        {
            const Array<Value*>* d = v->GetDataAsPointerTo<Array<Value*>>();
            vf_assert( d && kindOf( v ) == 5, "an array of the text is not an array in the tree" );
            s.i++;
            s.ws();
            int n = 0;
            if ( s.cur() != ']' )
                for ( ;; )
                {
                    vf_assert( n < d->GetArrayElementCount(), "an array has too few elements" );
                    value( ( *d )[ n ] );
                    n++;
                    s.ws();
                    if ( s.cur() != ',' ) break;
                    s.i++;
                    s.ws();
                }
            s.i++;
            vf_assert( d->GetArrayElementCount() == n, "an array has too many elements" );
        }
        else if ( c == '{' )
        {
            const ObjectValue* o = v->AsJsonObjectValue();
            vf_assert( o && kindOf( v ) == 6, "an object of the text is not an object in the tree" );
            s.i++;
            s.ws();
            int n = 0;
            unsigned char pool[ kNamesMax ]; // the names so far, one after the other
            int used = 0;
            int offs[ kMembersMax ], lens[ kMembersMax ];
            if ( s.cur() != '}' )
                for ( ;; )
                {
                    s.i++;
                    int len;
                    s.str( buf, len );
                    buf[ len ] = 0;
                    bool dup = false;
                    for ( int k = 0; k < n; k++ )
                    {
                        bool eq = lens[ k ] == len;
                        for ( int q = 0; eq && q < len; q++ ) eq = pool[ offs[ k ] + q ] == buf[ q ];
                        dup |= eq;
                    }
                    s.ws();
                    s.i++;
                    s.ws();
                    if ( dup )
                    {
                        // a repeated name: the first value stays; skip this one
                        s.value( 0 );
                    }
                    else
                    {
                        vf_assert( n < kMembersMax && used + len <= kNamesMax, "harness bound" );
                        offs[ n ] = used;
                        for ( int q = 0; q < len; q++ ) pool[ used++ ] = buf[ q ];
                        lens[ n++ ] = len;
                        const Value* e = o->FindMapElement( (const char*)buf );
                        vf_assert( e != nullptr, "a member of the object cannot be found under its name" );
                        vf_assert( sameText( e->name, buf, len ), "a member has another name than the text says" );
                        value( e );
                    }
                    s.ws();
                    if ( s.cur() != ',' ) break;
                    s.i++;
                    s.ws();
                }
            s.i++;
            int cnt = 0;
            for ( const Value* e : *o ) { (void)e; cnt++; }
            vf_assert( cnt == n, "an object has another number of members than the text says" );
        }
        else
        {
            int st = s.i;
            s.num();
            bool neg = s.b[ st ] == '-';
            int  p   = neg ? st + 1 : st;
            double d = vf_dec2double( (const char*)s.b + p, (size_t)( s.i - p ) );
            if ( neg ) d = -d;
            const double* t = v->GetDataAsPointerTo<double>();
            vf_assert( t && kindOf( v ) == 2, "a number of the text is not a number in the tree" );
            vf_assert( dbits( *t ) == dbits( d ), "a number has another value than the text says" );
        }
    }
};

// checks the outcome of parsing text[0..n); bits of `what`: 1 acceptance, 2 tree, 4 error position
static inline void checkParse( const StructuredData& sd, const ParseResult& r, const unsigned char* b, int n, int what )
{
    oracle::Scan s { b, n };
    oracle::Verdict v = s.text();
    const Value* root = sd.GetRootJsonValue();
    if ( r.status == Status::kOk )
    {
        vf_reach( "accepted" );
        if ( what & 1 ) vf_assert( v != oracle::kReject, "a text outside the grammar is accepted" );
        if ( ( what & 2 ) && v != oracle::kReject ) // (an unpaired surrogate, where accepted, is its three bytes)
        {
            TreeCheck t { { b, n } };
            t.s.ws();
            t.value( root );
            vf_reach( "tree" );
        }
    }
    else
    {
        vf_reach( "rejected" );
        if ( what & 1 ) vf_assert( v != oracle::kAccept, "a valid text is rejected" );
        if ( ( what & 4 ) && v == oracle::kReject && !s.loneSurrogate && r.errorLine != 0 )
        {
            vf_reach( "position" );
            // the reported place is a place of the text between the start of the offending token
            // and the first byte that cannot continue a valid text
            bool ok = false;
            int line = 1, col = 1;
            for ( int i = 0; i <= s.i; i++ )
            {
                if ( i >= s.tok && line == r.errorLine && col == r.errorColumn ) ok = true;
                if ( i < n && b[ i ] == '\n' ) { line++; col = 1; }
                else col++;
            }
            vf_assert( ok, "the reported line and column are not those of the error" );
        }
        if ( ( what & 4 ) && v == oracle::kReject && n >= 1 ) vf_assert( r.errorLine > 0 && r.errorColumn > 0, "a syntax error is reported without its place" );
    }
    vf_observe( (uint64_t)r.status );
    vf_observe( (uint64_t)r.errorLine * 1000 + r.errorColumn );
}
