// Oracle for memory handed out of one arena: live pieces lie inside one heap block, are aligned and do not overlap.
#pragma once
#include "common.hpp"
namespace h {
// ---- memory oracle -----------------------------------------------------------------------------------------------
struct Live { char * p; size_t n; bool used; };
struct Mem { Live v[ 600 ]; int n, count; uintptr_t arena; size_t arenaSize; const char * ctx; };
static Mem mem;
// a block of n bytes at p was handed out
inline void enter( void * pv, size_t n, bool alignedForPointers = true ) {
    mc::Quiet q; char * p = (char *)pv; uintptr_t b; size_t s;
    MC_CHECK( mc::block_of( p, b, s ), "memory handed out at %p is not part of any heap block (%s)", pv, mem.ctx );
    MC_CHECK( (uintptr_t)p + n <= b + s, "memory handed out (%zu bytes) ends %zu bytes behind the pool (%s)", n, (size_t)( (uintptr_t)p + n - b - s ), mem.ctx );
    if ( !mem.arena ) { mem.arena = b; mem.arenaSize = s; } else MC_CHECK( mem.arena == b, "memory handed out does not belong to the pool (%s)", mem.ctx );
    MC_CHECK( !alignedForPointers || (uintptr_t)p % sizeof( void * ) == 0, "memory handed out is not aligned for pointers (offset %zu) (%s)", (size_t)( (uintptr_t)p - b ), mem.ctx );
    int slot = -1;
    for ( int i = 0; i < mem.n; ++i ) { Live & l = mem.v[ i ]; if ( !l.used ) { slot = i; continue; } MC_CHECK( p + n <= l.p || l.p + l.n <= p, "two live objects share memory: offsets %zu (%zu bytes) and %zu (%zu bytes) (%s)", (size_t)( (uintptr_t)p - b ), n, (size_t)( (uintptr_t)l.p - b ), l.n, mem.ctx ); }
    if ( slot < 0 ) { MC_CHECK( mem.n < 600, "harness: too many objects" ); slot = mem.n++; }
    mem.v[ slot ] = Live{ p, n, true }; ++mem.count;
}
inline void leave( void * p ) { mc::Quiet q; for ( int i = 0; i < mem.n; ++i ) if ( mem.v[ i ].used && mem.v[ i ].p == p ) { mem.v[ i ].used = false; mem.v[ i ].p = nullptr; mem.v[ i ].n = 0; --mem.count; return; } mc::fail( "an object is destroyed that does not exist (%s)", mem.ctx ); }

}
