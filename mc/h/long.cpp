// Long histories: tens of thousands of rounds on one object (beyond every 8- and 16-bit counter), through the paths on which
// state could silently accumulate: blocked calls, hand-over, exceptions, refusals, roll-over, exhaustion. One schedule each.
// Also arenas of more than 4 GiB (offsets beyond every 32-bit computation).
#include "mem.hpp"
#include "Semaphore.hpp"
#include "Mutex.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <mutex>
#include <semaphore.h>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
const int L = 66000;
struct Sig { sem_t s; explicit Sig( int n = 0 ) { sem_init( &s, 0, n ); } ~Sig() { sem_destroy( &s ); } void up() { sem_post( &s ); } void down() { sem_wait( &s ); } };
int turn, inside, runs, lim;      // oracle state, touched under Quiet

// ---- Semaphore --------------------------------------------------------------------------------------------------------
// every take blocks until the other side gives
void semPing( size_t max, bool functors ) {
    Semaphore a( 0, max ), b( 0, max ); h::Par p;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); if ( functors ) b.take( [ & ] { mc::Quiet z; ++runs; } ); else b.take(); { mc::Quiet z; MC_CHECK( turn == 1, "round %d: a take succeeded without a give", i ); turn = 2; } if ( functors ) a.give( [ & ] { mc::Quiet z; ++runs; } ); else a.give(); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { { mc::Quiet z; turn = 1; } if ( functors ) b.give( [ & ] { mc::Quiet z; ++runs; } ); else b.give(); if ( functors ) a.take( [ & ] { mc::Quiet z; ++runs; } ); else a.take(); mc::Quiet z; MC_CHECK( turn == 2, "round %d: a take succeeded without a give", i ); } } );
    p.join(); MC_CHECK( a.getAvailableCount() == 0 && b.getAvailableCount() == 0, "after %d rounds %zu and %zu units are left, expected none", L, a.getAvailableCount(), b.getAvailableCount() );
    { mc::Quiet z; MC_CHECK( !functors || runs == 4 * L, "%d functors ran, expected %d", runs, 4 * L ); } mc::outcome( functors );
}
// bounded: each give waits for a take
void semBounded( size_t max ) {
    Semaphore s( 0, max ); h::Par p; static int net; { mc::Quiet z; lim = (int)max; }
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); s.give( [ i ] { mc::Quiet z; ++net; MC_CHECK( net <= lim, "round %d: %d units, the maximum is %d", i, net, lim ); } ); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) s.take( [ i ] { mc::Quiet z; --net; MC_CHECK( net >= 0, "round %d: a take succeeded without a unit", i ); } ); } );
    p.join(); MC_CHECK( s.getAvailableCount() == 0, "%zu units are left after as many takes as gives", s.getAvailableCount() );
    for ( size_t i = 0; i < max; ++i ) s.give(); bool through = false; p.go( [ & ] { s.give(); mc::Quiet z; through = true; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !through, "give exceeds the maximum after %d rounds", L ); } s.take(); p.join(); mc::outcome( max );
}
// functors that fail, in blocked and unblocked calls, never consume or add a unit
void semThrow( bool give ) {
    Semaphore s( give ? 2 : 0, 2 ); Sig ack; h::Par p;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); bool t = false; try { if ( give ) s.give( [ i ] { throw i; } ); else s.take( [ i ] { throw i; } ); } catch ( int v ) { t = v == i; } MC_CHECK( t, "round %d: the functor's exception did not arrive", i ); if ( give ) s.give(); else s.take(); size_t c = s.getAvailableCount(); MC_CHECK( c == ( give ? 2u : 0u ), "round %d: count is %zu after a failed and a successful call", i, c ); ack.up(); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { if ( give ) s.take(); else s.give(); ack.down(); } } );
    p.join(); mc::outcome( give );
}
void semSaturate() {   // overflow refusals and refusals after abort leave no trace
    Semaphore s( ~size_t( 0 ) ); const size_t M = s.getAvailableCount(); int n = 0; for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); try { s.give(); } catch ( const SemaphoreOverflow & ) { ++n; } } MC_CHECK( n == L && s.getAvailableCount() == M, "%d of %d gives beyond the limit were refused, count %zu", n, L, s.getAvailableCount() );
    for ( int i = 0; i < L; ++i ) { s.take(); } MC_CHECK( s.getAvailableCount() == M - L, "count is wrong after %d takes", L ); s.abort(); n = 0;
    for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); try { s.take(); } catch ( const SemaphoreAborted & ) { ++n; } s.abort(); } MC_CHECK( n == L, "%d of %d takes after abort were refused", n, L ); n = 0; for ( int i = 0; i < L; ++i ) try { s.give(); } catch ( const SemaphoreAborted & ) { ++n; } MC_CHECK( n == L, "%d of %d gives after abort were refused", n, L ); mc::outcome( n );
}
void semMany( size_t n ) {  // counts beyond 16 bits
    Semaphore s( 0 ); for ( size_t i = 0; i < n; ++i ) s.give(); MC_CHECK( s.getAvailableCount() == n, "count %zu after %zu gives", s.getAvailableCount(), n ); for ( size_t i = 0; i < n; ++i ) s.take(); MC_CHECK( s.getAvailableCount() == 0, "count %zu after as many takes", s.getAvailableCount() );
    bool through = false; h::Par p; p.go( [ & ] { s.take(); mc::Quiet z; through = true; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !through, "a take succeeded without a unit" ); } s.give(); p.join(); mc::outcome( n );
}
// ---- Mutex ------------------------------------------------------------------------------------------------------------
void mutexLong() {
    Mutex m; Sig a, b; h::Par p; int tries = 0;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); a.down(); bool g = m.try_lock(); { mc::Quiet z; MC_CHECK( !g, "round %d: try_lock obtained a held mutex", i ); ++tries; } m.lock(); { mc::Quiet z; MC_CHECK( !inside, "round %d: two owners", i ); inside = 2; } { mc::Quiet z; inside = 0; } m.unlock(); b.up(); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { if ( i & 1 ) m.lock(); else { bool g = m.try_lock(); MC_CHECK( g, "round %d: try_lock refused a free mutex", i ); } { mc::Quiet z; MC_CHECK( !inside, "round %d: two owners", i ); inside = 1; } a.up(); mc::wait_quiescent(); { mc::Quiet z; inside = 0; } m.unlock(); b.down(); } } );
    p.join(); { mc::Quiet z; MC_CHECK( tries == L, "%d rounds", tries ); } bool g = m.try_lock(); MC_CHECK( g, "the mutex is not free at the end" ); m.unlock(); mc::outcome( 1 );
}
// ---- RingBufferGuarded ------------------------------------------------------------------------------------------------
void ringPing( size_t n ) {   // every get blocks
    RingBufferGuarded< int > r( n ); Sig ack; h::Par p;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); int v = r.get(); MC_CHECK( v == i, "round %d: got %d", i, v ); ack.up(); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::wait_quiescent(); r.put( i ); ack.down(); } } );
    p.join(); mc::outcome( n );
}
void ringRoll( size_t n ) {  // roll-over with every fill level; capacity and emptiness stay exact
    RingBufferGuarded< int > r( n ); int in = 0, out = 0, cap = (int)n;
    for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); while ( in - out < 1 + i % cap ) { r.put( in ); ++in; } int v = r.get(); MC_CHECK( v == out, "round %d: got %d, expected %d", i, v, out ); ++out; }
    while ( out < in ) { int v = r.get(); MC_CHECK( v == out, "got %d, expected %d", v, out ); ++out; }
    bool got = false; h::Par p; p.go( [ & ] { int v = r.get(); MC_CHECK( v == 7, "got %d, expected 7", v ); mc::Quiet z; got = true; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !got, "get from an empty buffer succeeds" ); } r.put( 7 ); p.join();
    for ( size_t i = 0; i < n; ++i ) r.put( 8 ); bool put = false; p.go( [ & ] { r.put( 9 ); mc::Quiet z; put = true; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !put, "the capacity grew" ); } for ( size_t i = 0; i < n; ++i ) MC_CHECK( r.get() == 8, "wrong value" ); p.join(); MC_CHECK( r.get() == 9, "wrong value" ); mc::outcome( n );
}
// ---- pools ------------------------------------------------------------------------------------------------------------
struct { long born, dead; } ov;
struct Obj { long id; virtual ~Obj() { mc::Quiet z; ++ov.dead; h::leave( this ); } explicit Obj( long i, bool fail ) : id( i ) { { mc::Quiet z; ++ov.born; } if ( fail ) { { mc::Quiet z; ++ov.dead; } throw h::Boom{ (int)i }; } h::enter( this, sizeof *this ); } };
void poolLong( size_t req ) {
    ObjectPool< Obj > p( req ); int cap = (int)p.getSize(), used = 0, low = cap; std::vector< ObjectPool< Obj >::ObjectPtrType > v( cap ); { mc::Quiet z; h::mem.ctx = "long history"; }
    for ( int i = 0; i < L; ++i ) {
        mc::tick( 1 ); int k = ( i / 3 + i ) % ( 2 * cap + 3 );
        if ( i % 3 == 0 && used < cap ) { bool t = false; try { p.createObj< Obj >( (long)i, true ); } catch ( const h::Boom & b ) { t = b.id == i; } MC_CHECK( t, "round %d: the constructor's exception did not arrive", i ); if ( cap - used - 1 < low ) low = cap - used - 1; }
        if ( used == cap ) { bool t = false; try { p.createObj< Obj >( (long)i, false ); } catch ( const RingBufferUnderflow & ) { t = true; } MC_CHECK( t, "round %d: an exhausted pool does not refuse", i ); }
        int s = k % cap; if ( v[ s ] ) { v[ s ].reset(); --used; } else { v[ s ] = p.createObj< Obj >( (long)i, false ); ++used; if ( cap - used < low ) low = cap - used; }
        auto st = p.getRunningStateStatistics(); MC_CHECK( (int)st.runningCount == cap - used && (int)st.lowWatermark == low, "round %d: %u blocks free (low watermark %u), expected %d (%d)", i, st.runningCount, st.lowWatermark, cap - used, low );
        mc::Quiet z; MC_CHECK( ov.born - ov.dead == used, "round %d: %ld objects alive, expected %d", i, ov.born - ov.dead, used );
    }
    v.clear(); mc::Quiet z; MC_CHECK( ov.born == ov.dead, "%ld objects never destroyed", ov.born - ov.dead ); mc::outcome( req );
}
struct Elem { int a; Elem() : a( 4 ) { mc::Quiet z; ++ov.born; if ( inside && ov.born % inside == 0 ) { ++ov.dead; throw h::Boom{ 1 }; } } ~Elem() { mc::Quiet z; ++ov.dead; } };
void blockLong( size_t req, size_t len ) {
    BlockPool< Elem > p( req, len ); int cap = (int)p.getSize(), used = 0; std::vector< BlockPool< Elem >::BlockPtrType > v( cap ); { mc::Quiet z; inside = 17; }
    for ( int i = 0; i < L; ++i ) {
        mc::tick( 1 ); int s = ( i / 5 + i ) % cap;
        if ( v[ s ] ) { v[ s ].reset(); --used; } else try { v[ s ] = p.getBlock(); ++used; } catch ( const h::Boom & ) {}
        auto st = p.getRunningStateStatistics(); MC_CHECK( (int)st.runningCount == cap - used, "round %d: %u blocks free, expected %d", i, st.runningCount, cap - used );
        mc::Quiet z; MC_CHECK( ov.born - ov.dead == (long)( used * len ), "round %d: %ld elements alive, expected %zu", i, ov.born - ov.dead, used * len );
    }
    v.clear(); mc::Quiet z; MC_CHECK( ov.born == ov.dead, "%ld elements never destroyed", ov.born - ov.dead ); mc::outcome( req );
}
// ---- MessageQueue -----------------------------------------------------------------------------------------------------
struct { long alive, last, disp; } qv;
struct Msg : MessageBase {
    int id; bool fail, live; Msg( int i, bool f, bool ctor ) : id( i ), fail( f ), live( true ) { { mc::Quiet z; ++qv.alive; } if ( ctor ) { { mc::Quiet z; --qv.alive; } live = false; throw h::Boom{ i }; } }
    Msg( Msg && o ) : id( o.id ), fail( o.fail ), live( true ) { mc::Quiet z; ++qv.alive; } ~Msg() override { if ( live ) { mc::Quiet z; --qv.alive; } }
    const char * name() const override { return id & 1 ? "odd" : "even"; }
    void dispatch() override { { mc::Quiet z; qv.last = id; ++qv.disp; } if ( fail ) throw h::Boom{ id }; }
};
void mqLong( size_t N, int fill, bool lockable ) {
    MessageQueue q( N, sizeof( Msg ), lockable ); int in = 0, out = 0, high = 0, cap = (int)N; std::vector< char > failing( L * 2 + 100 );
    auto stats = [ & ]( int i ) { auto s = q.getRunningStateStatistics(); if ( in - out > high ) high = in - out; MC_CHECK( (int)s.runningCount == in - out && (int)s.highWatermark == high && (int)s.size == cap, "round %d: statistics %u/%u, expected %d/%d", i, s.runningCount, s.highWatermark, in - out, high ); };
    auto get = [ & ]( int i ) { bool w = i % 4 == 0, wf = i % 44 == 0; bool t = false; int run = 0; try { if ( w ) q.getAndDispatch( [ & ] { ++run; if ( wf ) throw h::Boom{ -5 }; } ); else q.getAndDispatch(); } catch ( const h::Boom & b ) { t = true; MC_CHECK( b.id == ( wf ? -5 : out ), "round %d: a different exception arrived", i ); }
        MC_CHECK( run == w, "round %d: the wake-up functor ran %d times", i, run ); MC_CHECK( t == ( wf || failing[ out ] ), "round %d: an exception was %s", i, t ? "invented" : "swallowed" ); if ( !wf ) { { mc::Quiet z; MC_CHECK( qv.last == out, "round %d: message %ld dispatched, expected %d", i, qv.last, out ); } if ( !t ) MC_CHECK( !strcmp( q.getNameOfLastMessageDispatched(), out & 1 ? "odd" : "even" ), "round %d: wrong name of the last message", i ); } ++out; stats( i ); };
    for ( int i = 0; i < L; ++i ) {
        mc::tick( 1 );
        if ( i % 3 == 0 && in - out < cap ) { bool t = false; try { q.emplace< Msg >( -1, false, true ); } catch ( const h::Boom & b ) { t = b.id == -1; } MC_CHECK( t, "round %d: the constructor's exception did not arrive", i ); }
        int want = 1 + ( fill + i ) % cap; while ( in - out < want ) { failing[ in ] = in % 7 == 0; if ( in & 2 ) q.emplace< Msg >( in, in % 7 == 0, false ); else { Msg m( in, in % 7 == 0, false ); q.put( std::move( m ) ); } ++in; stats( i ); }
        if ( lockable ) { auto l = q.getAutoDispatchLock(); if ( i & 1 ) { l.unlock(); l.lock(); } }
        get( i ); if ( i % 997 == 0 ) { q.purge(); out = in; stats( i ); }
        mc::Quiet z; MC_CHECK( qv.alive == in - out, "round %d: %ld messages alive, expected %d", i, qv.alive, in - out );
    }
    while ( out < in ) get( 1 ); mc::Quiet z; MC_CHECK( qv.alive == 0, "%ld messages leaked", qv.alive ); mc::outcome( N );
}
// every put blocks
void ringBack( size_t n ) {
    RingBufferGuarded< int > r( n ); h::Par p;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); r.put( i ); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::wait_quiescent(); int v = r.get(); MC_CHECK( v == i, "round %d: got %d", i, v ); } } );
    p.join(); mc::outcome( n );
}
// the consumer blocks in every round; the producer blocks in every round; both with a lock held around the dispatch by a third
void mqPing( size_t N, bool producerBlocks, bool lockable ) {
    MessageQueue q( N, sizeof( Msg ), lockable ); Sig go, ack; h::Par p;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); if ( producerBlocks ) mc::wait_quiescent(); q.getAndDispatch(); { mc::Quiet z; MC_CHECK( qv.last == i, "round %d: message %ld dispatched", i, qv.last ); } if ( !producerBlocks ) ack.up(); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { if ( !producerBlocks ) mc::wait_quiescent(); q.emplace< Msg >( i, false, false ); if ( !producerBlocks ) ack.down(); } } );
    p.join(); auto s = q.getRunningStateStatistics(); MC_CHECK( s.runningCount == 0 && (int)s.highWatermark <= (int)N, "statistics %u/%u at the end", s.runningCount, s.highWatermark ); mc::Quiet z; MC_CHECK( qv.alive == 0 && qv.disp == L, "%ld messages dispatched, %ld alive", qv.disp, qv.alive ); mc::outcome( N );
}
// the lock excludes dispatch in every round
struct LMsg : MessageBase { void dispatch() override { mc::Quiet z; MC_CHECK( !inside, "a message is dispatched while the dispatch lock is held" ); ++qv.disp; } };
void mqLockLong() {
    MessageQueue q( 2, sizeof( LMsg ), true ); h::Par p; Sig go;
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { go.down(); q.getAndDispatch(); } } );
    p.go( [ & ] { for ( int i = 0; i < L; ++i ) { mc::tick( 1 ); { auto l = q.getAutoDispatchLock(); { mc::Quiet z; inside = 1; } q.emplace< LMsg >(); go.up(); mc::wait_quiescent(); if ( i % 3 == 1 ) { { mc::Quiet z; inside = 0; } l.unlock(); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( qv.disp == i + 1, "round %d: nothing dispatched although the lock is free", i ); } l.lock(); { mc::Quiet z; inside = 1; } } if ( i % 3 == 2 ) { auto l2 = std::move( l ); mc::wait_quiescent(); { mc::Quiet z; inside = 0; } } { mc::Quiet z; inside = 0; } } mc::wait_quiescent(); mc::Quiet z; MC_CHECK( qv.disp == i + 1, "round %d: %ld messages dispatched after the lock was released", i, qv.disp ); } } );
    p.join(); mc::outcome( 1 );
}
// ---- nothing allocates, ever ------------------------------------------------------------------------------------------
template< class F > void still( const char * what, int n, F f ) { f( 0 ); uint64_t e = mc::heap_events(); for ( int i = 1; i < n; ++i ) { mc::tick( 1 ); f( i ); if ( e != mc::heap_events() ) mc::fail( "%s uses the heap in its round %d", what, i ); } }
struct PMsg : MessageBase { long x[ 3 ]; void dispatch() override {} };
void heapLong( int N ) {
    const int R = 70000;
    Semaphore s( 3, 6 ); still( "Semaphore", R, [ & ]( int ) { s.take(); s.give(); s.getAvailableCount(); } );
    Mutex m; still( "Mutex", R, [ & ]( int ) { m.lock(); m.unlock(); if ( m.try_lock() ) m.unlock(); } );
    RingBufferGuarded< void * > r( N ); int level = 0; still( "RingBufferGuarded", R, [ & ]( int i ) { int want = ( i * 7 ) % ( N + 1 ); while ( level < want ) { r.put( &r ); ++level; } while ( level > want ) { r.get(); --level; } } );
    ObjectPool< Obj > op( N ); { ObjectPool< Obj >::ObjectPtrType v[ 64 ]; int used = 0; still( "ObjectPool", R / 8, [ & ]( int i ) { int want = i < 2 * N ? i % ( N + 1 ) : ( i * 7 ) % ( N + 1 ); while ( used < want ) { v[ used ] = op.createObj< Obj >( 1, false ); ++used; } while ( used > want ) v[ --used ].reset(); (void)op.getRunningStateStatistics(); } ); }
    BlockPool< long > bp( N, 3 ); { std::vector< BlockPool< long >::BlockPtrType > v( N ); int used = 0; still( "BlockPool", R / 8, [ & ]( int i ) { int want = ( i * 7 ) % ( N + 1 ); while ( used < want ) v[ used++ ] = bp.getBlock(); while ( used > want ) v[ --used ].reset(); } ); }
    MessageQueue q( N, sizeof( PMsg ), true ); int lv = 0; still( "MessageQueue", R / 4, [ & ]( int i ) { int want = ( i * 7 ) % ( N + 1 ); while ( lv < want ) { if ( lv & 1 ) q.emplace< PMsg >(); else q.put( PMsg{} ); ++lv; } while ( lv > want ) { q.getAndDispatch(); --lv; } { auto l = q.getAutoDispatchLock(); l.unlock(); l.lock(); } q.getRunningStateStatistics(); q.getNameOfLastMessageDispatched(); if ( i % 50 == 0 ) { q.purge(); lv = 0; } } );
    mc::outcome( N );
}
// blocked calls do not allocate either
void heapBlocked() {
    const int R = 20000; Semaphore s( 0, 1 ); RingBufferGuarded< int > r( 2 ); MessageQueue q( 1, sizeof( PMsg ) ); Mutex m; Sig ack; h::Par p;
    p.go( [ & ] { still( "a blocked call", R, [ & ]( int ) { s.take(); ack.up(); r.get(); ack.up(); q.getAndDispatch(); ack.up(); m.lock(); m.unlock(); ack.up(); } ); } );
    p.go( [ & ] { still( "a call that unblocks another", R, [ & ]( int ) { mc::wait_quiescent(); s.give(); ack.down(); mc::wait_quiescent(); r.put( 1 ); ack.down(); m.lock(); mc::wait_quiescent(); q.emplace< PMsg >(); ack.down(); mc::wait_quiescent(); m.unlock(); ack.down(); } ); } );
    p.join(); mc::outcome( 1 );
}
// ---- arenas of more than 4 GiB ----------------------------------------------------------------------------------------
const size_t G = ( size_t( 1 ) << 30 ) + 4104;
struct WObj { int i; explicit WObj( int k ) : i( k ) {} virtual ~WObj() = default; };
void wideObjects() {
    mc::big_heap(); { mc::Quiet z; h::mem.ctx = "more than 4 GiB"; } ObjectPool< WObj > p( 8, G ); std::vector< ObjectPool< WObj >::ObjectPtrType > v;
    for ( int i = 0; i < 6; ++i ) { v.push_back( p.createObj< WObj >( i ) ); h::enter( v[ i ].get(), G ); MC_CHECK( v[ i ]->i == i, "object %d is not the one created", i ); mc::big_drop( (char *)v[ i ].get() + 4096, G - 8192 ); }
    for ( int i = 0; i < 6; ++i ) { MC_CHECK( v[ i ]->i == i, "object %d was overwritten", i ); h::leave( v[ i ].get() ); } mc::outcome( 1 );
}
struct Mega { char c[ 1 << 20 ]; };
void wideBlocks() {
    mc::big_heap(); { mc::Quiet z; h::mem.ctx = "more than 4 GiB"; } const size_t len = 1025; BlockPool< Mega > p( 8, len ); std::vector< BlockPool< Mega >::BlockPtrType > v;
    for ( int i = 0; i < 6; ++i ) { v.push_back( p.getBlock() ); h::enter( v[ i ].get(), len * sizeof( Mega ) ); v[ i ][ 0 ].c[ 0 ] = (char)i; v[ i ][ len - 1 ].c[ sizeof( Mega ) - 1 ] = (char)i; mc::big_drop( (char *)v[ i ].get() + 4096, len * sizeof( Mega ) - 8192 ); }
    for ( int i = 0; i < 6; ++i ) { MC_CHECK( v[ i ][ 0 ].c[ 0 ] == i && v[ i ][ len - 1 ].c[ sizeof( Mega ) - 1 ] == i, "block %d was overwritten", i ); h::leave( v[ i ].get() ); } mc::outcome( 1 );
}
void * last; struct WMsg : MessageBase { int i; explicit WMsg( int k ) : i( k ) { h::enter( this, G ); mc::Quiet z; last = this; } ~WMsg() override { h::leave( this ); } void dispatch() override { mc::Quiet z; qv.last = i; } };
void wideMessages() {
    mc::big_heap(); { mc::Quiet z; h::mem.ctx = "more than 4 GiB"; } MessageQueue q( 6, G );
    for ( int r = 0; r < 2; ++r ) { for ( int i = 0; i < 6; ++i ) { q.emplace< WMsg >( i ); char * at; { mc::Quiet z; at = (char *)last; } mc::big_drop( at + 4096, G - 8192 ); } for ( int i = 0; i < 6; ++i ) { q.getAndDispatch(); mc::Quiet z; MC_CHECK( qv.last == i, "message %ld dispatched, expected %d", qv.last, i ); } } mc::outcome( 1 );
}
// ---- sizes whose product does not fit in 64 bits: construction fails with bad_alloc, or everything holds as usual ---------
const size_t TOP = ~size_t( 0 );
size_t oddSize( int k ) { static const size_t v[] = { TOP, TOP - 1, TOP - 6, TOP - 7, TOP - 8, TOP - 15, TOP / 2, TOP / 2 + 1, TOP / 2 + 9, TOP / 4 + 1, TOP / 4 + 9, TOP / 8 + 1, TOP / 8 + 3, TOP / 16 + 1, TOP / 16 + 3, TOP / 24 + 1, TOP / 3 + 1, ( size_t( 1 ) << 44 ) + 16, ( size_t( 1 ) << 52 ), ( size_t( 1 ) << 60 ) + 1 }; return v[ k ]; }
const int NODD = 20;
struct Small { long v{ 7 }; };
void oddObjects() {
    static const size_t ns[] = { 1, 2, 3, 4, 8, 16, 1u << 20 }; size_t n = ns[ mc::choose( 7 ) ], m = oddSize( mc::choose( NODD ) ); std::string c = h::fmt( "ObjectPool of %zu elements of %zu bytes", n, m );
    try { ObjectPool< Small > p( n, m ); { mc::Quiet z; h::mem.ctx = c.c_str(); } auto a = p.createObj< Small >(); h::enter( a.get(), m ); auto b = p.createObj< Small >(); h::enter( b.get(), m ); } catch ( const std::bad_alloc & ) { mc::outcome( 1 ); }
}
template< typename T > void oddBlocks() {
    static const size_t ns[] = { 1, 2, 3, 4, 8, 16, 1u << 20 }; size_t n = ns[ mc::choose( 7 ) ], e = oddSize( mc::choose( NODD ) ); std::string c = h::fmt( "BlockPool of %zu blocks of %zu elements of %zu bytes", n, e, sizeof( T ) );
    try { BlockPool< T > p( n, e ); { mc::Quiet z; h::mem.ctx = c.c_str(); } MC_CHECK( e <= TOP / sizeof( T ), "%s: construction succeeded", c.c_str() ); auto a = p.getBlock(); h::enter( a.get(), e * sizeof( T ) ); MC_CHECK( a.get_deleter().getNumElements() == e, "%s: a block has %zu elements", c.c_str(), a.get_deleter().getNumElements() ); } catch ( const std::bad_alloc & ) { mc::outcome( 1 ); }
}
size_t oddLen; struct OMsg : MessageBase { OMsg() { h::enter( this, oddLen ); } ~OMsg() override { h::leave( this ); } void dispatch() override {} };
void oddMessages( bool manySlots ) {
    static const size_t ns[] = { 1, 2, 3, 8, 9, 16, 24, 32 }; size_t a = ns[ mc::choose( 8 ) ], b = oddSize( mc::choose( NODD ) ); size_t n = manySlots ? b : a, m = manySlots ? a : b; std::string c = h::fmt( "MessageQueue of %zu messages of %zu bytes", n, m );
    try { MessageQueue q( n, m ); { mc::Quiet z; h::mem.ctx = c.c_str(); oddLen = m; } if ( sizeof( OMsg ) > ( m + 7 ) / 8 * 8 && m <= TOP - 7 ) { try { q.emplace< OMsg >(); mc::fail( "%s: a message of %zu bytes was accepted", c.c_str(), sizeof( OMsg ) ); } catch ( const MessageQueueElementSizeError & ) {} } else for ( int i = 0; i < 3; ++i ) q.emplace< OMsg >(); } catch ( const std::bad_alloc & ) { mc::outcome( 1 ); }
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts o; o.one().race( false ).steps( 100000000 ); o.max_steps = 100000000;
    for ( size_t m : { size_t( 0 ), size_t( 1 ), size_t( 9 ) } ) for ( int f = 0; f < 2; ++f ) r.add( f ? "C01,C02,C03" : "C01,C02", h::fmt( "long/sem/ping%zu%s", m, f ? "f" : "" ), f ? m != 1 : m != 0, o, [ = ] { semPing( m, f ); } );
    for ( size_t m : { 1, 2, 5 } ) r.add( "C01,C02,C03", h::fmt( "long/sem/bounded%zu", m ), m == 5, o, [ = ] { semBounded( m ); } );
    for ( int g = 0; g < 2; ++g ) r.add( "C01,C03", h::fmt( "long/sem/throw%d", g ), 0, o, [ = ] { semThrow( g ); } );
    r.add( "C01,C04,C05", "long/sem/saturate", 0, o, [] { semSaturate(); } ); r.add( "C01,C02", "long/sem/many", 0, o, [] { semMany( 70000 ); } );
    r.add( "C06", "long/mutex", 0, o, [] { mutexLong(); } );
    for ( size_t n : { 1, 2, 5 } ) { r.add( "C09", h::fmt( "long/ring/ping%zu", n ), n == 5, o, [ = ] { ringPing( n ); } ); r.add( "C09", h::fmt( "long/ring/back%zu", n ), n == 2, o, [ = ] { ringBack( n ); } ); r.add( "C09", h::fmt( "long/ring/roll%zu", n ), n == 1, o, [ = ] { ringRoll( n ); } ); }
    for ( size_t n : { 2, 8 } ) { r.add( "C11,C13,C14", h::fmt( "long/pool/%zu", n ), n == 8, o, [ = ] { poolLong( n ); } ); r.add( "C11,C15", h::fmt( "long/block/%zu", n ), n == 8, o, [ = ] { blockLong( n, 3 ); } ); }
    for ( size_t n : { 1, 2, 3, 7 } ) for ( int l = 0; l < 2; ++l ) r.add( l ? "C16,C17,C18,C20,C25" : "C16,C17,C20,C25", h::fmt( "long/mq/%zu%s", n, l ? "L" : "" ), !( n == 1 && l ) && !( n == 3 && !l ), o, [ = ] { mqLong( n, 0, l ); } );
    for ( size_t n : { 1, 3 } ) for ( int pb = 0; pb < 2; ++pb ) r.add( "C16", h::fmt( "long/mq/ping%zu.%d", n, pb ), n == 3 && pb == 0, o, [ = ] { mqPing( n, pb, n == 3 ); } );
    r.add( "C18", "long/mq/lock", 0, o, [] { mqLockLong(); } );
    r.add( "C24", "long/heap/3", 0, o, [] { heapLong( 3 ); } ); r.add( "C24", "long/heap/64", 1, o, [] { heapLong( 64 ); } ); r.add( "C24", "long/heap/blocked", 0, o, [] { heapBlocked(); } );
    r.add( "C11,C12", "long/wide/objects", 0, o, [] { wideObjects(); } ); r.add( "C11,C12", "long/wide/blocks", 0, o, [] { wideBlocks(); } ); r.add( "C16,C22", "long/wide/messages", 0, o, [] { wideMessages(); } );
    r.add( "C12,C13", "long/odd/objects", 0, o, [] { oddObjects(); } ); r.add( "C12,C15", "long/odd/blocks8", 0, o, [] { oddBlocks< long >(); } ); r.add( "C12,C15", "long/odd/blocks12", 0, o, [] { struct E { int v[ 3 ]; E() {} }; oddBlocks< E >(); } ); r.add( "C12,C15", "long/odd/blocks1", 0, o, [] { oddBlocks< char >(); } );
    r.add( "C22", "long/odd/slots", 0, o, [] { oddMessages( true ); } ); r.add( "C22", "long/odd/sizes", 0, o, [] { oddMessages( false ); } );
}
