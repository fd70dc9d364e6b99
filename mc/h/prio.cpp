// C07: priority inheritance on every lock of the library, under a preemptive fixed-priority scheduler on one processor in which the
// arrival of each thread is a choice at every scheduling step (so a thread can be preempted at every point of its critical sections).
#include "common.hpp"
#include "Mutex.hpp"
#include "Semaphore.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <cerrno>
#include <memory>
#include <mutex>
#include <system_error>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
unsigned highId[ 2 ]; int nHigh; const char * what; int mediumSteps, waited;
// the medium-priority computation touches none of the library's objects
void medium( int steps ) {
    for ( int i = 0; i < steps; ++i ) {
        mc::point();
        mc::Quiet q; ++mediumSteps;
        for ( int k = 0; k < nHigh; ++k ) MC_CHECK( !( mc::is_blocked( highId[ k ] ) && !mc::is_cond_blocked( highId[ k ] ) ), "%s: an unrelated medium-priority computation runs while the high-priority thread waits for the lock", what );
    }
}
// low runs `lo`, high runs `hi`, an unrelated thread computes at a priority in between
template< class A, class B > void inversion( const char * name, A lo, B hi ) {
    { mc::Quiet q; what = name; }
    std::thread l( lo ); unsigned li = mc::num_threads() - 1;
    std::thread m( [] { medium( 2 ); } ); unsigned mi = mc::num_threads() - 1;
    std::thread t( hi ); unsigned ti = mc::num_threads() - 1;
    mc::set_prio( li, 1 ); mc::set_prio( mi, 2 ); mc::set_prio( ti, 3 ); { mc::Quiet q; highId[ 0 ] = ti; nHigh = 1; }
    mc::wait_all(); l.join(); m.join(); t.join(); mc::outcome( mediumSteps );
}
// two high-priority threads waiting for the same lock
template< class A, class B, class C > void inversion2( const char * name, A lo, B h1, C h2 ) {
    { mc::Quiet q; what = name; }
    std::thread l( lo ); unsigned li = mc::num_threads() - 1; std::thread m( [] { medium( 2 ); } ); unsigned mi = mc::num_threads() - 1;
    std::thread t( h1 ); unsigned ti = mc::num_threads() - 1; std::thread u( h2 ); unsigned ui = mc::num_threads() - 1;
    mc::set_prio( li, 1 ); mc::set_prio( mi, 2 ); mc::set_prio( ti, 3 ); mc::set_prio( ui, 4 ); { mc::Quiet q; highId[ 0 ] = ti; highId[ 1 ] = ui; nHigh = 2; }
    mc::wait_all(); l.join(); m.join(); t.join(); u.join(); mc::outcome( mediumSteps );
}
using Fn = std::function< void() >;
struct Op { const char * name; Fn f; };
void work() { mc::point(); mc::point(); }

void mutexCase( int a, int b ) {
    Mutex m; auto op = [ & ]( int k ) { switch ( k ) { case 0: { std::lock_guard< Mutex > g( m ); work(); } break; case 1: m.lock(); work(); m.unlock(); m.lock(); m.unlock(); break; case 2: if ( m.try_lock() ) { work(); m.unlock(); } break; } };
    inversion( "Mutex", [ & ] { op( a ); }, [ & ] { op( b ); } );
}
void mutex2() { Mutex m; auto op = [ & ] { std::lock_guard< Mutex > g( m ); work(); }; inversion2( "Mutex with two waiters", op, op, op ); }
void semCase( int a, int b, bool bounded ) {
    Semaphore s( 4, bounded ? 10 : 0 );
    auto op = [ & ]( int k ) { try { switch ( k ) { case 0: s.take(); break; case 1: s.give(); break; case 2: s.take( [] { work(); } ); break; case 3: s.give( [] { work(); } ); break; case 4: (void)s.getAvailableCount(); break; case 5: s.abort(); break; case 6: try { s.take( [] { throw h::Boom{ 1 }; } ); } catch ( const h::Boom & ) {} break; case 7: try { s.give( [] { throw h::Boom{ 1 }; } ); } catch ( const h::Boom & ) {} break; } } catch ( const SemaphoreAborted & ) {} };
    inversion( "Semaphore", [ & ] { op( a ); }, [ & ] { op( b ); } );
}
// somebody really waits for a unit, so that give has a waiter to wake and take wakes up while the lock is contended
void semWait( int a ) {
    Semaphore s( 0, 1 );
    auto tk = [ & ] { try { s.take(); } catch ( const SemaphoreAborted & ) {} };
    if ( a == 0 ) inversion2( "Semaphore with a waiter", [ & ] { s.give(); s.give(); }, tk, tk );
    else if ( a == 1 ) inversion2( "Semaphore with a waiter", [ & ] { tk(); tk(); }, [ & ] { s.give(); }, [ & ] { s.give(); } );
    else inversion2( "Semaphore with a waiter", [ & ] { s.abort(); }, tk, tk );
}
void ringCase( int a, int b ) {
    RingBufferGuarded< int > r( 4 ); r.put( 1 ); r.put( 2 );
    auto op = [ & ]( int k ) { try { switch ( k ) { case 0: r.put( 3 ); break; case 1: (void)r.get(); break; case 2: r.abort(); break; } } catch ( const std::runtime_error & ) {} };
    inversion( "RingBufferGuarded", [ & ] { op( a ); }, [ & ] { op( b ); } );
}
struct Obj { virtual ~Obj() { } int x = 0; };
void poolCase( int a, int b ) {
    ObjectPool< Obj > p( 4 ); auto mine = p.createObj< Obj >(), yours = p.createObj< Obj >();
    auto op = [ & ]( int k, ObjectPool< Obj >::ObjectPtrType & o ) { switch ( k ) { case 0: { auto x = p.createObj< Obj >(); } break; case 1: o.reset(); break; case 2: (void)p.getRunningStateStatistics(); o = p.createObj< Obj >(); break; } };
    inversion( "ObjectPool", [ & ] { op( a, mine ); }, [ & ] { op( b, yours ); } );
}
void blockCase( int a, int b ) {
    BlockPool< int > p( 4, 3 ); auto mine = p.getBlock(), yours = p.getBlock();
    auto op = [ & ]( int k, BlockPool< int >::BlockPtrType & o ) { switch ( k ) { case 0: { auto x = p.getBlock(); } break; case 1: o.reset(); break; } };
    inversion( "BlockPool", [ & ] { op( a, mine ); }, [ & ] { op( b, yours ); } );
}
struct Msg : MessageBase { void dispatch() override { work(); } };
void mqCase( int a, int b, bool locking ) {
    MessageQueue q( 4, sizeof( Msg ), locking ); q.emplace< Msg >(); q.emplace< Msg >();
    auto op = [ & ]( int k ) { switch ( k ) { case 0: q.emplace< Msg >(); break; case 1: q.getAndDispatch(); break; case 2: q.put( Msg{} ); break; case 3: { auto l = q.getAutoDispatchLock(); work(); } break; case 4: { auto l = q.getAutoDispatchLock(); l.unlock(); l.lock(); work(); } break; case 5: (void)q.getRunningStateStatistics(); break; } };
    inversion( locking ? "MessageQueue with dispatch locking" : "MessageQueue", [ & ] { op( a ); }, [ & ] { op( b ); } );
}
// the n-th instance of a class is as good as the first: others exist, or existed, before it
template< class T, class Make > std::vector< std::unique_ptr< T > > crowd( Make mk ) {
    static const int NS[] = { 1, 2, 9, 33, 257 }; std::vector< std::unique_ptr< T > > v; int n = NS[ mc::choose( 5 ) ]; for ( int i = 0; i < n; ++i ) v.push_back( mk() ); if ( mc::choose( 2 ) ) v.clear(); return v;
}
void crowded( int k ) {
    switch ( k ) {
    case 0: { auto v = crowd< Mutex >( [] { return std::make_unique< Mutex >(); } ); mutexCase( 0, 0 ); break; }
    case 1: { auto v = crowd< Semaphore >( [] { return std::make_unique< Semaphore >( 1 ); } ); semCase( 2, 0, true ); break; }
    case 2: { auto v = crowd< ObjectPool< Obj > >( [] { return std::make_unique< ObjectPool< Obj > >( 2 ); } ); poolCase( 0, 1 ); break; }
    case 3: { auto v = crowd< BlockPool< int > >( [] { return std::make_unique< BlockPool< int > >( 2, 2 ); } ); blockCase( 0, 1 ); break; }
    case 4: { auto v = crowd< RingBufferGuarded< int > >( [] { return std::make_unique< RingBufferGuarded< int > >( 2 ); } ); ringCase( 0, 1 ); break; }
    case 5: { auto v = crowd< MessageQueue >( [] { return std::make_unique< MessageQueue >( 2, sizeof( Msg ), false ); } ); mqCase( 0, 1, false ); break; }
    case 6: { auto v = crowd< MessageQueue >( [] { return std::make_unique< MessageQueue >( 2, sizeof( Msg ), true ); } ); mqCase( 3, 1, true ); break; }
    }
}
// an instance whose n-th mutex could at first not be initialised is refused, or its locks are as good as any
void faulted( int k ) {
    static const int CODE[] = { ENOTSUP, EAGAIN, ENOMEM, EPERM, EINVAL, EBUSY }; int n = 1 + mc::choose( 3 ), code = CODE[ mc::choose( 6 ) ];
    for ( int i = 1; i <= n; ++i ) mc::inject( "init", nullptr, i == n ? code : 0 );
    try { switch ( k ) {
        case 0: mutexCase( 0, 0 ); break; case 1: semCase( 2, 0, true ); break; case 2: poolCase( 0, 1 ); break; case 3: blockCase( 0, 1 ); break; case 4: ringCase( 0, 1 ); break; case 5: mqCase( 0, 1, false ); break; case 6: mqCase( 3, 1, true ); break; } }
    catch ( const std::system_error & ) { mc::outcome( 999 ); }
    mc::faults_clear();
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts o; o.pr( true ); o.races = false;
    r.add( "C07", "prio/mutex", 0, o, [] { int a = mc::choose( 3 ), b = mc::choose( 3 ); mutexCase( a, b ); } );
    for ( int k = 0; k < 7; ++k ) { r.add( "C07", h::fmt( "prio/crowd/%d", k ), 0, o, [ k ] { crowded( k ); } ); r.add( "C07", h::fmt( "prio/fault/%d", k ), 0, o, [ k ] { faulted( k ); } ); }
    r.add( "C07", "prio/mutexTwo", 0, o, [] { mutex2(); } );
    for ( int a = 0; a < 8; ++a ) r.add( "C07", h::fmt( "prio/sem/%d", a ), 0, o, [ a ] { int b = mc::choose( 8 ); semCase( a, b, mc::choose( 2 ) ); } );
    for ( int a = 0; a < 3; ++a ) r.add( "C07", h::fmt( "prio/semWait/%d", a ), 0, o, [ a ] { semWait( a ); } );
    r.add( "C07", "prio/ring", 0, o, [] { int a = mc::choose( 3 ); ringCase( a, mc::choose( 3 ) ); } );
    r.add( "C07", "prio/objectPool", 0, o, [] { int a = mc::choose( 3 ); poolCase( a, mc::choose( 3 ) ); } );
    r.add( "C07", "prio/blockPool", 0, o, [] { int a = mc::choose( 2 ); blockCase( a, mc::choose( 2 ) ); } );
    for ( int a = 0; a < 3; ++a ) r.add( "C07", h::fmt( "prio/mq/%d", a ), 0, o, [ a ] { mqCase( a, mc::choose( 3 ), false ); } );
    for ( int a = 0; a < 5; ++a ) r.add( "C07", h::fmt( "prio/mqLock/%d", a ), 0, o, [ a ] { mqCase( a, mc::choose( 5 ), true ); } );
}
