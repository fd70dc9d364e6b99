// C27: constructors are all-or-nothing. For every class and configuration, every allocation the constructor makes fails in turn
// (and every mutex it initialises): the caller gets the exception, nothing leaks, nothing is destroyed twice, other instances
// are untouched, and the next attempt yields an instance that works - also while no further memory is available. The same for
// user constructors that run out of memory inside of an operation.
#include "mem.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include "RingBufferGuarded.hpp"
#include "RingBufferSimple.hpp"
#include "Semaphore.hpp"
#include <cerrno>
#include <mutex>
#include <new>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
int ran; int alive;
struct Msg : MessageBase { int v; explicit Msg( int x ) : v( x ) {} void dispatch() override { mc::Quiet q; ran += v; } };
struct Small { int v = 7; Small() = default; };
struct Obj { int v; explicit Obj( int x ) : v( x ) {} virtual ~Obj() = default; };

// Use: everything the class does that succeeds; run while no memory is available.
struct MutexC { using T = Mutex; int a = 0; std::unique_ptr< T > make() const { return std::make_unique< T >(); }
    static void use( T & m, const MutexC & ) { m.lock(); m.unlock(); MC_CHECK( m.try_lock(), "try_lock fails on a free mutex" ); m.unlock(); } };
struct SemC { using T = Semaphore; size_t init, max; std::unique_ptr< T > make() const { return std::make_unique< T >( init, max ); }
    static void use( T & s, const SemC & c ) { MC_CHECK( s.getAvailableCount() == c.init, "initial count" ); int n = 0; for ( size_t i = 0; i < c.init; ++i ) s.take(); auto f = [ &n ] { ++n; }; Semaphore::FunctionType fn{ std::ref( f ) }; s.give( fn ); s.take( fn ); MC_CHECK( n == 2, "functors not invoked" ); for ( size_t i = 0; i < c.init; ++i ) s.give(); MC_CHECK( s.getAvailableCount() == c.init, "count after use" ); } };
template< class V > struct RingC { using T = RingBufferSimple< V >; size_t n; std::unique_ptr< T > make() const { return std::make_unique< T >( n ); }
    static void use( T & r, const RingC & ) { size_t k = r.getSize(); for ( size_t i = 0; i < k; ++i ) r.put( V( (uintptr_t)i + 1 ) ); for ( size_t i = 0; i < k; ++i ) MC_CHECK( r.get() == V( (uintptr_t)i + 1 ), "value %zu lost", i ); } };
template< class V > struct GuardC { using T = RingBufferGuarded< V >; size_t n; bool prime; std::unique_ptr< T > make() const { auto r = std::make_unique< T >( n, prime ); if ( prime ) { typename T::PrimingFunctionType f = []( size_t i ) { return V( (uintptr_t)i + 1 ); }; r->prime( f ); } return r; }
    static void use( T & r, const GuardC & c ) { size_t k = c.n; if ( !c.prime ) for ( size_t i = 0; i < k; ++i ) r.put( V( (uintptr_t)i + 1 ) );
        for ( size_t i = 0; i < k; ++i ) MC_CHECK( r.get() == V( (uintptr_t)i + 1 ), "value %zu lost", i ); if ( c.prime ) for ( size_t i = 0; i < k; ++i ) r.put( V( (uintptr_t)i + 1 ) ); } };
struct PoolC { using T = ObjectPool< Obj >; size_t n, sz; std::unique_ptr< T > make() const { return std::make_unique< T >( n, sz ); }
    static void use( T & p, const PoolC & ) { { auto a = p.createObj< Obj >( 3 ); auto b = p.createObj< Obj >( 4 ); MC_CHECK( a->v == 3 && b->v == 4 && p.getRunningStateStatistics().runningCount + 2 == p.getSize(), "objects damaged" ); } MC_CHECK( p.getRunningStateStatistics().runningCount == p.getSize(), "blocks lost" ); } };
struct BlkC { using T = BlockPool< Small >; size_t n, per; std::unique_ptr< T > make() const { return std::make_unique< T >( n, per ); }
    static void use( T & p, const BlkC & c ) { { auto a = p.getBlock(); auto b = p.getBlock(); for ( size_t i = 0; i < c.per; ++i ) MC_CHECK( a[ i ].v == 7 && b[ i ].v == 7, "elements damaged" ); } MC_CHECK( p.getRunningStateStatistics().runningCount == p.getSize(), "blocks lost" ); } };
struct QueC { using T = MessageQueue; size_t n, sz; bool lk; std::unique_ptr< T > make() const { return std::make_unique< T >( n, sz, lk ); }
    static void use( T & q, const QueC & c ) { int r0; { mc::Quiet z; r0 = ran; } q.put( Msg( 1 ) ); q.getAndDispatch(); size_t k = c.n < 9 ? c.n : 9; for ( size_t i = 0; i < k; ++i ) q.emplace< Msg >( 1 ); for ( size_t i = 0; i < k; ++i ) q.getAndDispatch(); if ( c.lk ) { auto l = q.getAutoDispatchLock(); }
        mc::Quiet z; MC_CHECK( ran - r0 == (int)k + 1, "%d of %zu messages dispatched", ran - r0, k + 1 ); MC_CHECK( q.getRunningStateStatistics().runningCount == 0, "slots lost" ); } };

// every failing allocation (1..40; those beyond the last one of the constructor leave it alone) and every failing mutex
template< class C > void ctor( const C & c, int twice = 2 ) {
    std::unique_ptr< typename C::T > other = c.make(), obj;     // a second instance beside it
    uint64_t live = mc::heap_bytes_live();
    int tries = 1 + mc::choose( twice );                        // fails once or twice in a row
    for ( int t = 0; t < tries; ++t ) {
        int n = 1 + mc::choose( 40 + 6 ); bool mem = n <= 40; const int CODE[] = { ENOTSUP, EAGAIN, ENOMEM, EPERM, EINVAL, EBUSY }; int code = mem ? 0 : CODE[ mc::choose( 6 ) ]; bool nomem = false, nomtx = false, foreign = false;
        { std::unique_ptr< typename C::T > o;
          if ( mem ) mc::oom( n ); else for ( int i = 41; i <= n; ++i ) mc::inject( "init", nullptr, i == n ? code : 0 );
          try { o = c.make(); } catch ( const std::bad_alloc & ) { nomem = true; } catch ( const std::system_error & e ) { nomtx = e.code().value() == code; foreign = !nomtx; }
          bool hit = !( mem ? mc::oom_pending() : mc::faults_pending() ); mc::oom( 0 ); mc::faults_clear();
          MC_CHECK( !foreign, "construction fails with another error than the one of the system" );
          MC_CHECK( !nomem || ( mem && hit ), "std::bad_alloc although memory is available" ); MC_CHECK( !nomtx || ( !mem && hit ), "std::system_error although the system reports no error" );
          if ( hit && !mem && !nomtx ) mc::fail( "constructed although a mutex it needs could not be initialised" );
          if ( o ) { mc::oom( 1 ); C::use( *o, c ); mc::oom( 0 ); }    // (if the failed allocation was not essential, it has to work without)
          else MC_CHECK( nomem || nomtx, "no instance and no exception" ); }
        MC_CHECK( mc::heap_bytes_live() == live, "%lld bytes leak when construction fails (%s %d)", (long long)( mc::heap_bytes_live() - live ), mem ? "allocation" : "mutex", mem ? n : n - 40 );
    }
    obj = c.make(); mc::oom( 1 ); C::use( *obj, c ); C::use( *other, c ); mc::oom( 0 );
    other.reset(); mc::oom( 1 ); C::use( *obj, c ); mc::oom( 0 ); mc::outcome( tries );
}

// ---- user constructors that run out of memory inside of an operation -----------------------------------------------------------
template< bool NoEx > struct Own { std::unique_ptr< int > p, q; Own() : p( new int( 1 ) ), q( new int( 2 ) ) { mc::Quiet z; ++alive; } explicit Own( int ) : Own() {} virtual ~Own() { mc::Quiet z; --alive; } Own( Own && o ) : p( std::move( o.p ) ), q( new int( 3 ) ) { mc::Quiet z; ++alive; } };
struct OwnMsg : MessageBase, Own< false > { OwnMsg() = default; OwnMsg( OwnMsg && ) = default; void dispatch() override { MC_CHECK( *p == 1 && *q >= 2, "message damaged" ); mc::Quiet z; ++ran; } };
template< class F > bool starved( int n, F f ) { bool bad = false; mc::oom( n ); try { f(); } catch ( const std::bad_alloc & ) { bad = true; } bool hit = !mc::oom_pending(); mc::oom( 0 ); MC_CHECK( bad == hit, bad ? "std::bad_alloc although memory was available" : "an operation succeeds although its user constructor failed" ); return bad; }
template< class Pool, class Get > void opPool( int depth, int elems, Get get ) {
    Pool p( 2, elems ? elems : sizeof( Own< false > ) ); using Ptr = decltype( get( p ) ); Ptr v[ 2 ]; int per = elems ? elems : 1;
    for ( int d = 0; d < depth; ++d ) {
        int k = mc::choose( 2 ), n = mc::choose( 2 * per + 2 ); int have = !!v[ 0 ] + !!v[ 1 ];
        if ( !n ) { v[ k ].reset(); } else if ( !v[ k ] ) { uint64_t live = mc::heap_bytes_live(); if ( starved( n, [ & ] { v[ k ] = get( p ); } ) ) { MC_CHECK( !v[ k ] && mc::heap_bytes_live() == live, "memory leaks when an element runs out of memory" ); } else ++have; } else continue;
        have = !!v[ 0 ] + !!v[ 1 ]; auto s = p.getRunningStateStatistics(); int al; { mc::Quiet z; al = alive; }
        MC_CHECK( al == have * per, "%d elements alive, expected %d", al, have * per ); MC_CHECK( (int)s.runningCount == 2 - have, "runningCount %d with %d blocks in use", (int)s.runningCount, have );
    }
    for ( auto & x : v ) x.reset(); for ( auto & x : v ) x = get( p ); for ( auto & x : v ) x.reset();     // both blocks are still there
    mc::Quiet z; mc::outcome( 1 ); MC_CHECK( !alive, "%d elements are never destroyed", alive );
}
void opQueue( int depth, bool lk ) {
    { MessageQueue q( 2, sizeof( OwnMsg ), lk ); int held = 0, r = 0;
      for ( int d = 0; d < depth; ++d ) {
          int k = mc::choose( 3 ); uint64_t live = mc::heap_bytes_live();
          if ( k == 2 ) { if ( !held ) continue; q.getAndDispatch(); --held; ++r; }
          else if ( held == 2 ) continue;
          else { int n = 1 + mc::choose( 5 ); if ( starved( n, [ & ] { if ( k ) q.emplace< OwnMsg >(); else q.put( OwnMsg() ); } ) ) MC_CHECK( mc::heap_bytes_live() == live, "memory leaks when a message runs out of memory" ); else ++held; }
          auto s = q.getRunningStateStatistics(); mc::Quiet z; MC_CHECK( alive == held && ran == r, "%d messages alive, %d dispatched; expected %d, %d", alive, ran, held, r ); MC_CHECK( (int)s.runningCount == held, "runningCount %d, expected %d", (int)s.runningCount, held );
      }
      while ( held ) { q.getAndDispatch(); --held; } for ( int i = 0; i < 2; ++i ) q.emplace< OwnMsg >(); q.getAndDispatch(); }       // both slots are still there; one message is left for the destructor
    mc::Quiet z; MC_CHECK( !alive, "%d messages are never destroyed", alive );
}
}
void mc_scenarios( mc::Registry & r ) {
    Opts o; o.mode = Opts::PLAIN; auto add = [ & ]( std::string n, int t, auto f ) { r.add( "C27", n, t, o, f ); };
    add( "oom/mutex", 0, [] { ctor( MutexC{} ); } );
    for ( size_t i : { 0, 2 } ) for ( size_t m : { 0, 3 } ) add( h::fmt( "oom/sem/%zu_%zu", i, m ), 0, [ = ] { ctor( SemC{ i, m } ); } );
    for ( size_t n : { 1, 3, 64, 3000 } ) {
        add( h::fmt( "oom/ring/ptr/%zu", n ), 0, [ = ] { ctor( RingC< int * >{ n }, n < 1000 ? 2 : 1 ); } ); add( h::fmt( "oom/ring/int/%zu", n ), 0, [ = ] { ctor( RingC< int >{ n }, n < 1000 ? 2 : 1 ); } );
        for ( bool p : { false, true } ) { add( h::fmt( "oom/guarded/void/%zu/%d", n, p ), 0, [ = ] { ctor( GuardC< void * >{ n, p }, n < 1000 ? 2 : 1 ); } ); add( h::fmt( "oom/guarded/int/%zu/%d", n, p ), 0, [ = ] { ctor( GuardC< int >{ n, p }, n < 1000 ? 2 : 1 ); } ); }
        add( h::fmt( "oom/pool/%zu", n ), 0, [ = ] { ctor( PoolC{ n, sizeof( Obj ) + n }, n < 1000 ? 2 : 1 ); } );
        add( h::fmt( "oom/block/%zu", n ), 0, [ = ] { ctor( BlkC{ n, n == 3000 ? 2 : n }, n < 1000 ? 2 : 1 ); } );
        for ( bool l : { false, true } ) add( h::fmt( "oom/queue/%zu/%d", n, l ), 0, [ = ] { ctor( QueC{ n, sizeof( Msg ) + n, l }, n < 1000 ? 2 : 1 ); } );
    }
    for ( int d : { 3, 4, 5 } ) {
        int t = d > 4; add( h::fmt( "oom/objOp/%d", d ), t, [ = ] { opPool< ObjectPool< Own< false > > >( d, 0, []( auto & p ) { return p.template createObj< Own< false > >( 1 ); } ); } );
        for ( int e : { 1, 2, 3 } ) add( h::fmt( "oom/blkOp/%d/%d", e, d ), t || ( e == 3 && d > 3 ), [ = ] { opPool< BlockPool< Own< false > > >( d, e, []( auto & p ) { return p.getBlock(); } ); } );
        for ( bool l : { false, true } ) add( h::fmt( "oom/queOp/%d/%d", l, d ), t, [ = ] { opQueue( d, l ); } );
    }
}
