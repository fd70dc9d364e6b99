// Not instrumented, optimised: walks a RingBufferSimple through 2^32 put/get pairs, so that its internal counters roll over, and
// explores every put/get sequence around the roll-over point from byte snapshots of the real object.
#include "../mc.hpp"
#include "RingBufferSimple.hpp"
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace ReiserRT::Core;

namespace { enum class V : uint32_t {}; }     // internal linkage keeps these template instances apart from the instrumented ones
namespace far {
namespace {
template< class T, class = void > struct Val { static T of( uint64_t i ) { return static_cast< T >( (uint32_t)( i * 2654435761u + 12345 ) ); } };
alignas( 16 ) char cells[ 64 ];
template< class T > struct Val< T, std::enable_if_t< std::is_pointer< T >::value > > { static T of( uint64_t i ) { return (T)( (uintptr_t)cells + 8 * ( i % 1000003 ) ); } };
template< class T > struct Val< T, std::enable_if_t< std::is_floating_point< T >::value > > { static T of( uint64_t i ) { return (T)i / 3 - 1000; } };
template<> struct Val< bool > { static bool of( uint64_t i ) { return ( i * 2654435761u >> 20 ) & 1; } };
struct S { int x; char y; };
template<> struct Val< int S::* > { static int S::* of( uint64_t i ) { return i & 1 ? &S::x : (int S::*)nullptr; } };
template<> struct Val< V > { static inline V of( uint64_t i ) { return V( (uint32_t)( i * 2654435761u + 12345 ) ); } };
struct Model { uint64_t in, out; };
template< class T > bool put( RingBufferSimple< T > & r, Model & m, size_t cap ) {
    bool ok = true; try { r.put( Val< T >::of( m.in ) ); } catch ( const RingBufferOverflow & ) { ok = false; }
    MC_CHECK( ok == ( m.in - m.out < cap ), "after %llu puts and %llu gets (size %zu): put %s", (unsigned long long)m.in, (unsigned long long)m.out, cap, ok ? "succeeded on a full buffer" : "threw RingBufferOverflow" );
    if ( ok ) ++m.in;
    return ok;
}
template< class T > bool get( RingBufferSimple< T > & r, Model & m, size_t cap ) {
    bool ok = true; T v{}; try { v = r.get(); } catch ( const RingBufferUnderflow & ) { ok = false; }
    MC_CHECK( ok == ( m.in != m.out ), "after %llu puts and %llu gets (size %zu): get %s", (unsigned long long)m.in, (unsigned long long)m.out, cap, ok ? "succeeded on an empty buffer" : "threw RingBufferUnderflow" );
    if ( ok ) { MC_CHECK( v == Val< T >::of( m.out ), "after %llu puts and %llu gets (size %zu): get did not return the oldest value", (unsigned long long)m.in, (unsigned long long)m.out, cap ); ++m.out; }
    return ok;
}
// memory of the object: itself and the heap blocks its words point to
struct Snap {
    std::vector< std::pair< char *, size_t > > parts;
    Snap( void * r, size_t n ) { add( (char *)r, n ); for ( size_t i = 0; i < parts.size(); ++i ) { if ( i > 0 ) break; for ( size_t o = 0; o + 8 <= parts[ i ].second; o += 8 ) { void * p; memcpy( &p, parts[ i ].first + o, 8 ); uintptr_t b; size_t s; if ( mc::block_of( p, b, s ) ) { bool have = false; for ( auto & q : parts ) if ( (uintptr_t)q.first >= b && (uintptr_t)q.first < b + s ) have = true; if ( !have ) add( (char *)b, s ); } } } }
    void add( char * p, size_t n ) { parts.push_back( { p, n } ); }
    std::string save() const { std::string s; for ( auto & p : parts ) s.append( p.first, p.second ); return s; }
    void load( const std::string & s ) const { size_t o = 0; for ( auto & p : parts ) { memcpy( p.first, s.data() + o, p.second ); o += p.second; } }
};
// every sequence of put and get, successful or failing, from the present state on, until more than `last` puts were made. States are
// the concrete bytes of the buffer together with the model.
template< class T > uint64_t search( RingBufferSimple< T > & r, Model m, uint64_t last ) {
    const size_t cap = r.getSize(); Snap s( &r, sizeof r );
    struct Node { Model m; std::string mem; }; std::set< std::pair< std::pair< uint64_t, uint64_t >, std::string > > seen; std::vector< Node > todo; uint64_t trans = 0;
    auto push = [ & ]( const Model & x ) { if ( x.in > last ) return; std::string a = s.save(); if ( seen.insert( { { x.in, x.out }, a } ).second ) todo.push_back( { x, std::move( a ) } ); };
    push( m );
    while ( !todo.empty() ) {
        Node n = std::move( todo.back() ); todo.pop_back(); mc::tick( 1 );
        for ( int k = 0; k < 2; ++k ) { s.load( n.mem ); Model x = n.m; k ? put( r, x, cap ) : get( r, x, cap ); ++trans; MC_CHECK( r.getSize() == cap, "getSize changed" ); push( x ); }
        MC_CHECK( seen.size() < 2000000, "harness: too many states" );
    }
    mc::count( seen.size(), trans ); return seen.size();
}
}
void rollover( unsigned n, int pattern ) {
    using R = RingBufferSimple< V >;
    auto rp = std::make_unique< R >( n ); R & r = *rp; const size_t cap = r.getSize(); Model m{ 0, 0 };
    const uint64_t top = 1ull << 32, window = 3 * (uint64_t)cap + 8, stopAt = cap > 4096 ? top : top - window;
    if ( pattern || cap > 4096 ) { for ( size_t i = 0; i < cap / 2; ++i ) put( r, m, cap ); }
    uint64_t nextSweep = 0, steps = 0;
    while ( m.in < stopAt ) {
        uint64_t until = m.in + 65536; if ( until > stopAt ) until = stopAt;
        while ( m.in < until ) {      // steady state: exceptions propagate and end the scenario
            r.put( Val< V >::of( m.in ) ); ++m.in; V v = r.get(); if ( v != Val< V >::of( m.out ) ) mc::fail( "after %llu puts (size %zu): get did not return the oldest value", (unsigned long long)m.in, cap ); ++m.out; ++steps;
        }
        mc::tick( 1 );
        if ( m.in >= nextSweep && m.in + 2 * cap < stopAt ) { nextSweep = m.in + std::max< uint64_t >( 1 << 20, 64 * cap ); size_t lvl = m.in - m.out; while ( put( r, m, cap ) ) {} while ( get( r, m, cap ) ) {} get( r, m, cap ); while ( m.in - m.out < lvl ) put( r, m, cap ); }
    }
    mc::count( steps, 2 * steps );
    if ( cap > 4096 ) { for ( int k = 0; k < 3; ++k ) { while ( put( r, m, cap ) ) {} while ( get( r, m, cap ) ) {} } return; }
    while ( get( r, m, cap ) ) {}
    mc::outcome( search( r, m, top + window ) );
}
template< class T > void bfs( size_t req ) { auto r = std::make_unique< RingBufferSimple< T > >( req ); mc::outcome( search( *r, Model{ 0, 0 }, 4 * r->getSize() + 4 ) ); }
void bfsType( int t, size_t req ) {
    switch ( t ) {
    case 0: bfs< int >( req ); break; case 1: bfs< uint8_t >( req ); break; case 2: bfs< uint64_t >( req ); break; case 3: bfs< const char * >( req ); break; case 4: bfs< void * >( req ); break;
    case 5: bfs< double >( req ); break; case 6: bfs< bool >( req ); break; case 7: bfs< int16_t >( req ); break; case 8: bfs< float >( req ); break; case 9: bfs< S * >( req ); break; case 10: bfs< const void * >( req ); break;
    case 11: bfs< int * const * >( req ); break; case 12: bfs< int S::* >( req ); break; default: bfs< V >( req ); break;
    }
}
} // namespace far
