// Helpers shared by the scenario files. Oracle state lives in globals (restored before every execution and part of
// the state hash) and is touched only inside mc::Quiet, so it is neither a source of races nor of false ones.
#pragma once
#include "mc.hpp"
#include <cstring>
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <utility>
#include <vector>

namespace h {

// Runs the bodies as threads t1..tn. All are created before any runs. join() waits for all of them.
struct Par {
    std::thread th[ 16 ]; unsigned n = 0;
    template< class F > unsigned go( F f ) { th[ n++ ] = std::thread( std::move( f ) ); return mc::num_threads() - 1; }
    void join() { mc::wait_all(); for ( unsigned i = 0; i < n; ++i ) th[ i ].join(); n = 0; }
};
template< class... F > void par( F... f ) { Par p; ( p.go( f ), ... ); p.join(); }

// Concurrent history + brute-force linearizability check. Precedence is kept as bit masks of completed operations
// instead of time stamps, so that executions differing only in irrelevant order share states.
struct Hist {
    static constexpr int MAX = 64, MAIN = 16, EACH = 9;     // operations get an index that depends only on their thread
    struct Op { int kind, arg, ret; uint64_t before; bool done; };
    Op op[ MAX ]; int n; uint64_t doneMask; int8_t cnt[ 10 ];
    int inv( int kind, int arg = 0 ) {
        mc::Quiet q; unsigned t = mc::self(); if ( t > 5 ) mc::fail( "harness: too many threads" );
        int k = cnt[ t ]++; if ( k >= ( t ? EACH : MAIN ) ) mc::fail( "harness: history too long" );
        int i = t ? MAIN + ( (int)t - 1 ) * EACH + k : k; op[ i ] = Op{ kind, arg, 0, doneMask, false }; if ( i >= n ) n = i + 1; return i; }
    void res( int i, int ret ) { mc::Quiet q; op[ i ].ret = ret; op[ i ].done = true; doneMask |= 1ull << i; }
};
// Step( state&, op ) returns whether op with its recorded result is legal in state, and updates the state. Operations without
// response may be linearised or not (Step sees done == false and must accept any result).
template< class State, class Step >
bool linRec( const Hist & hs, const int * ix, int n, uint64_t all, uint64_t mask, const State & s, Step & step ) {
    if ( ( mask & all ) == all ) return true;
    for ( int k = 0; k < n; ++k ) {
        int i = ix[ k ]; if ( mask & ( 1ull << i ) ) continue;
        if ( hs.op[ i ].before & ~mask ) continue;     // an operation that completed before this one began is still missing
        State t = s; if ( !step( t, hs.op[ i ] ) ) continue;
        if ( linRec( hs, ix, n, all, mask | ( 1ull << i ), t, step ) ) return true;
    }
    return false;
}
template< class State, class Step >
bool linearizable( const Hist & hs, State init, Step step ) {
    mc::Quiet q; int ix[ Hist::MAX ], n = 0; uint64_t all = 0;
    for ( int i = 0; i < hs.n; ++i ) if ( hs.op[ i ].kind ) { ix[ n++ ] = i; if ( hs.op[ i ].done ) all |= 1ull << i; }
    return linRec( hs, ix, n, all, 0, init, step );
}

inline std::string fmt( const char * f, ... ) __attribute__(( format( printf, 1, 2 ) ));
inline std::string fmt( const char * f, ... ) { char b[ 300 ]; va_list a; va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a ); return b; }

struct Boom { int id; };    // exception type thrown by user code in scenarios: deliberately not a std::exception
}
