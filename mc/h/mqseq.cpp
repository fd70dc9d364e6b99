// MessageQueue, sequential exploration: C18 (AutoDispatchLock as an object), C21 (purge), C22 (geometry and size gate);
// the sequential model of the whole queue also serves C16, C17, C20 and C25.
#include "common.hpp"
#include "mem.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <algorithm>
#include <set>
using namespace ReiserRT::Core;
using mc::Opts;
using ADL = MessageQueue::AutoDispatchLock;

namespace {
// ---------------------------------------------------------------------------------------------- C18: lock objects
struct LockModel { int8_t slot[ 4 ], bound[ 4 ]; bool held[ 2 ]; };      // slot: 0 no object, 1 object not holding, 2 object holding; bound: queue it belongs to or -1
LockModel lm; int8_t dispatched[ 2 ]; char opLog[ 200 ];
struct Ping : MessageBase { int q; explicit Ping( int x ) : q( x ) {} void dispatch() override { mc::Quiet z; ++dispatched[ q ]; } };
void locks( int nq, int ns, int depth, bool faulty = false ) {
    MessageQueue * q[ 2 ]; for ( int i = 0; i < nq; ++i ) q[ i ] = new MessageQueue( 2, sizeof( Ping ), true );
    alignas( ADL ) unsigned char mem[ 4 ][ sizeof( ADL ) ]; memset( mem, 0, sizeof mem ); auto at = [ & ]( int i ) { return reinterpret_cast< ADL * >( mem[ i ] ); };
    pthread_mutex_t * nh[ 2 ]; for ( int i = 0; i < nq; ++i ) nh[ i ] = (pthread_mutex_t *)q[ i ]->getAutoDispatchLock().native_handle();
    { mc::Quiet z; for ( auto & b : lm.bound ) b = -1; }
    auto fails = [ & ]( int k, auto && f ) { mc::inject( "lock", nh[ k ], EDEADLK ); bool threw = false; try { f(); } catch ( const std::system_error & ) { threw = true; } MC_CHECK( !mc::faults_pending(), "the dispatch lock was not requested" ); return threw; };
    auto kill = [ & ]( int i ) { at( i )->~ADL(); memset( mem[ i ], 0, sizeof( ADL ) ); mc::Quiet z; if ( lm.slot[ i ] == 2 ) lm.held[ lm.bound[ i ] ] = false; lm.slot[ i ] = 0; lm.bound[ i ] = -1; };
    for ( int d = 0; d < depth; ++d ) {
        // operations possible now: none of them may block
        struct O { char k; int8_t a, b; } ops[ 100 ]; int n = 0; 
        { mc::Quiet z;
          ops[ n++ ] = O{ '.', 0, 0 };
          if ( faulty ) for ( int k = 0; k < nq; ++k ) ops[ n++ ] = O{ 'G', 0, (int8_t)k };
          bool fresh = true;    // slots are interchangeable: a new object goes into the first free one
          for ( int i = 0; i < ns; ++i ) {
              if ( !lm.slot[ i ] ) { if ( fresh ) { fresh = false; for ( int k = 0; k < nq; ++k ) if ( !lm.held[ k ] ) ops[ n++ ] = O{ 'A', (int8_t)i, (int8_t)k }; for ( int j = 0; j < ns; ++j ) if ( lm.slot[ j ] ) ops[ n++ ] = O{ 'M', (int8_t)i, (int8_t)j }; } continue; }
              ops[ n++ ] = O{ 'D', (int8_t)i, 0 }; ops[ n++ ] = O{ 'U', (int8_t)i, 0 };
              if ( lm.slot[ i ] == 1 && ( lm.bound[ i ] < 0 || !lm.held[ lm.bound[ i ] ] ) ) ops[ n++ ] = O{ 'L', (int8_t)i, 0 };
              if ( faulty && lm.bound[ i ] >= 0 ) ops[ n++ ] = O{ 'F', (int8_t)i, 0 };
              for ( int j = 0; j < ns; ++j ) if ( lm.slot[ j ] ) ops[ n++ ] = O{ '=', (int8_t)i, (int8_t)j };
          } }
        O o = ops[ mc::choose( n ) ]; if ( o.k == '.' ) break;
        mc::note( "%c %d %d", o.k, o.a, o.b );
        switch ( o.k ) {
        case 'A': new ( mem[ o.a ] ) ADL( q[ o.b ]->getAutoDispatchLock() ); { mc::Quiet z; lm.slot[ o.a ] = 2; lm.bound[ o.a ] = o.b; lm.held[ o.b ] = true; } break;
        case 'M': new ( mem[ o.a ] ) ADL( std::move( *at( o.b ) ) ); { mc::Quiet z; lm.slot[ o.a ] = lm.slot[ o.b ]; lm.bound[ o.a ] = lm.bound[ o.b ]; lm.slot[ o.b ] = 1; lm.bound[ o.b ] = -1; } break;
        case 'D': kill( o.a ); break;
        case 'U': at( o.a )->unlock(); { mc::Quiet z; if ( lm.slot[ o.a ] == 2 ) { lm.held[ lm.bound[ o.a ] ] = false; lm.slot[ o.a ] = 1; } } break;
        case 'L': at( o.a )->lock(); { mc::Quiet z; if ( lm.bound[ o.a ] >= 0 ) { lm.held[ lm.bound[ o.a ] ] = true; lm.slot[ o.a ] = 2; } } break;
        case 'F': { ADL & l = *at( o.a ); int b; { mc::Quiet z; b = lm.bound[ o.a ]; } MC_CHECK( fails( b, [ & ] { l.lock(); } ), "lock pretends success although the system refuses the lock" ); } break;     // and nothing has changed
        case 'G': MC_CHECK( fails( o.b, [ & ] { ADL l( q[ o.b ]->getAutoDispatchLock() ); } ), "getAutoDispatchLock pretends success although the system refuses the lock" ); break;
        case '=': { ADL & r = *at( o.b ); *at( o.a ) = std::move( r ); mc::Quiet z;
            if ( o.a != o.b ) { if ( lm.slot[ o.a ] == 2 ) lm.held[ lm.bound[ o.a ] ] = false; lm.slot[ o.a ] = lm.slot[ o.b ]; lm.bound[ o.a ] = lm.bound[ o.b ]; lm.slot[ o.b ] = 1; lm.bound[ o.b ] = -1; } break; }
        }
        for ( int i = 0; i < ns; ++i ) { int s, b; { mc::Quiet z; s = lm.slot[ i ]; b = lm.bound[ i ]; } if ( s ) MC_CHECK( ( at( i )->native_handle() != nullptr ) == ( b >= 0 ), "AutoDispatchLock %d %s its queue's lock after operation %c %d %d", i, b >= 0 ? "lost" : "still refers to", o.k, o.a, o.b ); }
    }
    // probe: a dispatch of queue k must be excluded exactly while some object holds its lock
    h::Par p; for ( int k = 0; k < nq; ++k ) { q[ k ]->emplace< Ping >( k ); MessageQueue * qq = q[ k ]; p.go( [ qq ] { qq->getAndDispatch(); } ); }
    mc::wait_quiescent();
    { mc::Quiet z; uint64_t out = 0; for ( int k = 0; k < nq; ++k ) { out = out * 3 + lm.held[ k ]; MC_CHECK( dispatched[ k ] == !lm.held[ k ], lm.held[ k ] ? "a message is dispatched although an AutoDispatchLock of its queue holds the lock" : "dispatch is excluded although no AutoDispatchLock holds the lock" ); } for ( int i = 0; i < ns; ++i ) out = out * 3 + lm.slot[ i ]; mc::outcome( out ); }
    for ( int i = 0; i < ns; ++i ) { bool s; { mc::Quiet z; s = lm.slot[ i ]; } if ( s ) kill( i ); }
    mc::wait_quiescent();
    { mc::Quiet z; for ( int k = 0; k < nq; ++k ) MC_CHECK( dispatched[ k ] == 1, "dispatch is still excluded although every AutoDispatchLock was destroyed" ); }
    p.join(); for ( int k = 0; k < nq; ++k ) delete q[ k ];
}

// ---------------------------------------------------------------------------------------------- C17, C18: the system refuses the dispatch lock to a dispatch
struct { int made, dead, ran, in, out, woke; } rf;
struct RMsg : MessageBase { int id; explicit RMsg( int i ) : id( i ) { mc::Quiet z; ++rf.made; } RMsg( RMsg && o ) : id( o.id ) { mc::Quiet z; ++rf.made; } ~RMsg() override { mc::Quiet z; ++rf.dead; }
    void dispatch() override { mc::Quiet z; MC_CHECK( id == rf.out, "message %d dispatched, expected %d", id, rf.out ); ++rf.ran; } };
void refused( int N, int depth ) {
    rf = {};
    { MessageQueue q( N, sizeof( RMsg ), true ); void * nh = (void *)q.getAutoDispatchLock().native_handle(); int fill = 0, ran = 0;
    for ( int d = 0; d < depth + N; ++d ) {
        int op = d < depth ? mc::choose( 5 ) : 1;     // in the end everything is dispatched
        if ( op == 4 ) break;
        switch ( op ) {
        case 0: if ( fill == N ) continue; if ( rf.in % 2 ) q.put( RMsg( rf.in ) ); else q.emplace< RMsg >( rf.in ); ++rf.in; ++fill; break;
        case 1: if ( !fill ) continue; if ( d % 2 ) q.getAndDispatch(); else q.getAndDispatch( [] { ++rf.woke; } ); ++ran; ++rf.out; --fill; break;
        default: { if ( !fill ) continue; mc::inject( "lock", nh, op == 2 ? EAGAIN : EDEADLK ); int code = 0, woke = rf.woke; try { if ( op == 2 ) q.getAndDispatch(); else q.getAndDispatch( [] { ++rf.woke; } ); } catch ( const std::system_error & x ) { code = x.code().value(); }
            MC_CHECK( !mc::faults_pending(), "dispatch without asking for the dispatch lock" ); MC_CHECK( code == ( op == 2 ? EAGAIN : EDEADLK ), "the system refuses the dispatch lock, getAndDispatch reports %d", code ); MC_CHECK( rf.woke == woke + ( op == 3 ), "wake-up functor ran %d times", rf.woke - woke ); ++rf.out; --fill; } break;
        }
        int dead = rf.dead; MC_CHECK( rf.ran == ran, "%d dispatches, expected %d", rf.ran, ran ); MC_CHECK( rf.made - dead == fill, "%d message objects exist, %d are enqueued", rf.made - dead, fill ); MC_CHECK( (int)q.getRunningStateStatistics().runningCount == fill, "runningCount %d with %d messages enqueued", (int)q.getRunningStateStatistics().runningCount, fill );
    }
    while ( fill < N ) { q.emplace< RMsg >( rf.in++ ); ++fill; } while ( fill-- ) { q.getAndDispatch(); ++rf.out; }     // full capacity, in order
    }
    MC_CHECK( rf.made == rf.dead, "%d messages made, %d destroyed", rf.made, rf.dead ); mc::outcome( rf.ran * 100 + rf.in );
}
// ---------------------------------------------------------------------------------------------- sequential queue model
constexpr int IDS = 16;
struct Model { int8_t q[ 12 ], kind[ IDS ], st[ IDS ]; int n, N, hw, name; uint64_t born, dead, ran; };    // st: 0 none, 1 alive, 2 dispatching
Model md; int next_; int dispatchOf;
enum K { PLAIN, CTOR, MOVE, DISP };
struct Tmp { int id, kind; };
const char * const nm[ IDS + 1 ] = { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "?" };
struct NoLead {}; struct Lead { long lead[ 2 ] = { 5, 6 }; virtual ~Lead() { lead[ 0 ] = 0; } };
// Lead first: the MessageBase part does not lie at the start of the message
template< class First > struct SMx : First, MessageBase {
    int id, kind, live; unsigned pay;
    void born() { mc::Quiet z; MC_CHECK( !md.st[ id ], "message %d is constructed twice", id ); md.st[ id ] = 1; ++md.born; h::enter( this, sizeof *this ); }
    void boom() { live = 0; { mc::Quiet z; md.st[ id ] = 0; ++md.dead; h::leave( this ); } throw h::Boom{ id }; }
    SMx( Tmp t ) : id( t.id ), kind( t.kind ), live( 0 ), pay( t.id * 7 + 1 ) {}
    SMx( int i, int k ) : id( i ), kind( k ), live( 1 ), pay( i * 7 + 1 ) { born(); if ( k == CTOR ) boom(); }
    SMx( SMx && o ) : id( o.id ), kind( o.kind ), live( 1 ), pay( o.pay ) { born(); o.pay = 0; if ( kind == MOVE ) boom(); }
    ~SMx() override { if ( !live ) return; mc::Quiet z; MC_CHECK( pay == (unsigned)id * 7 + 1, "the payload of message %d changed", id ); MC_CHECK( md.st[ id ] == 1 || md.st[ id ] == 3, "message %d is destroyed in state %d", id, md.st[ id ] ); md.st[ id ] = 0; ++md.dead; pay = 0; h::leave( this ); }
    const char * name() const override { return nm[ id ]; }
    void dispatch() override { { mc::Quiet z; MC_CHECK( md.st[ id ] == 1, "message %d is dispatched in state %d", id, md.st[ id ] ); MC_CHECK( pay == (unsigned)id * 7 + 1, "the payload of message %d changed", id ); MC_CHECK( dispatchOf == id, "message %d is dispatched, %d was expected", id, dispatchOf ); md.st[ id ] = 3; ++md.ran; } if ( kind == DISP ) throw h::Boom{ id }; }
};
using SM = SMx< Lead >; using SM0 = SMx< NoLead >;
struct SBig : MessageBase { unsigned char x[ sizeof( SM ) ]; SBig() { mc::fail( "a message that is too large is constructed" ); } SBig( int ) {} SBig( SBig && ) : MessageBase() { mc::fail( "a message that is too large is constructed" ); } void dispatch() override {} };
// every sequence over the alphabet up to the depth that never blocks; 'P' purge
void seqModel( int N, const char * alphabet, int depth, bool lockable, int preroll ) {
    MessageQueue * q = new MessageQueue( (size_t)N, sizeof( SM ), lockable );
    { mc::Quiet z; md.N = N; md.name = -1; h::mem.ctx = "sequential"; memset( opLog, 0, sizeof opLog ); }
    int no = 0; auto freshId = [ & ] { mc::Quiet z; do next_ = ( next_ + 1 ) % IDS; while ( md.st[ next_ ] ); return next_; };
    auto invariants = [ & ]( char k ) {
        auto s = q->getRunningStateStatistics(); mc::Quiet z;
        if ( mc::on( "C20" ) || mc::on( "C21" ) ) { MC_CHECK( s.size == (size_t)N && (int)s.runningCount == md.n, "statistics: size %zu runningCount %u with %d messages after %s", s.size, s.runningCount, md.n, opLog ); }
        if ( mc::on( "C20" ) ) MC_CHECK( (int)s.highWatermark == md.hw, "statistics: highWatermark %u, expected %d after %s", s.highWatermark, md.hw, opLog );
        MC_CHECK( h::mem.count == md.n && (int)( md.born - md.dead ) == md.n, "%d messages alive, %d enqueued after %s", h::mem.count, md.n, opLog ); (void)k;
    };
    auto run = [ & ]( char k ) {
        { mc::Quiet z; if ( no < 190 ) opLog[ no++ ] = k; }
        if ( strchr( "pexXb", k ) ) {
            int id = freshId(); bool boom = false; int kd = k == 'x' ? CTOR : k == 'X' ? MOVE : k == 'b' ? DISP : PLAIN;
            { mc::Quiet z; if ( md.n + 1 > md.hw ) md.hw = md.n + 1; }
            try { if ( id % 3 ) { if ( k == 'p' || k == 'X' ) { SM m( Tmp{ id, kd } ); q->put( std::move( m ) ); } else q->emplace< SM >( id, kd ); }
                else { if ( k == 'p' || k == 'X' ) { SM0 m( Tmp{ id, kd } ); q->put( std::move( m ) ); } else q->emplace< SM0 >( id, kd ); } } catch ( const h::Boom & b ) { boom = true; MC_CHECK( b.id == id, "foreign exception" ); }
            MC_CHECK( boom == ( k == 'x' || k == 'X' ), "%c: exception %s after %s", k, boom ? "thrown" : "swallowed", opLog );
            mc::Quiet z; if ( !boom ) { md.q[ md.n++ ] = (int8_t)id; md.kind[ id ] = (int8_t)kd; }
        } else if ( strchr( "gwW", k ) ) {
            int id, kd; { mc::Quiet z; id = md.q[ 0 ]; kd = md.kind[ id ]; dispatchOf = k == 'W' ? -1 : id; }
            int boom = -1, wk = 0; uint64_t r0; { mc::Quiet z; r0 = md.ran; }
            auto wake = [ & ] { ++wk; { mc::Quiet z; MC_CHECK( md.ran == r0, "woken after the dispatch" ); } if ( k == 'W' ) throw h::Boom{ 500 }; };
            try { if ( k == 'g' ) q->getAndDispatch(); else q->getAndDispatch( std::ref( wake ) ); } catch ( const h::Boom & b ) { boom = b.id; }
            MC_CHECK( boom == ( k == 'W' ? 500 : kd == DISP ? id : -1 ), "%c: exception %d after %s", k, boom, opLog ); MC_CHECK( k == 'g' || wk == 1, "the wake-up functor ran %d times after %s", wk, opLog );
            mc::Quiet z; MC_CHECK( md.ran == r0 + ( k != 'W' ), "%d dispatches in one call after %s", (int)( md.ran - r0 ), opLog ); MC_CHECK( !md.st[ id ], "message %d is not the one that was taken and destroyed after %s", id, opLog ); if ( k != 'W' ) md.name = id;
            memmove( md.q, md.q + 1, 11 ); md.q[ --md.n ] = 0; dispatchOf = -1;
        } else if ( k == 'P' ) {
            uint64_t r0; { mc::Quiet z; r0 = md.ran; dispatchOf = -1; }
            q->purge();
            mc::Quiet z; MC_CHECK( md.ran == r0, "purge dispatches messages after %s", opLog ); for ( int i = 0; i < md.n; ++i ) MC_CHECK( !md.st[ md.q[ i ] ], "message %d survives purge after %s", md.q[ i ], opLog ); memset( md.q, 0, sizeof md.q ); md.n = 0;
        } else if ( k == 'o' || k == 'O' ) {
            bool thrown = false; try { if ( k == 'o' ) q->emplace< SBig >(); else q->put( SBig( 1 ) ); } catch ( const MessageQueueElementSizeError & ) { thrown = true; }
            MC_CHECK( thrown, "a message that is too large is accepted after %s", opLog );
        } else if ( k == 'l' ) { auto l = q->getAutoDispatchLock(); ADL m( std::move( l ) ); m.unlock(); m.lock(); }
        int want; { mc::Quiet z; want = md.name; } const char * s = q->getNameOfLastMessageDispatched();
        if ( mc::on( "C25" ) ) MC_CHECK( want < 0 ? !strcmp( s, "[NONE]" ) : s == nm[ want ], "the last message dispatched is named %s, expected %s after %s", s, want < 0 ? "[NONE]" : nm[ want ], opLog );
        invariants( k );
    };
    for ( int i = 0; i < preroll; ++i ) { run( 'e' ); run( 'g' ); }
    int fill = mc::choose( N + 1 ); for ( int i = 0; i < fill; ++i ) run( i % 2 ? 'p' : 'e' );
    invariants( '0' );
    for ( int d = 0; d < depth; ++d ) {
        char can[ 20 ]; int n = 0; can[ n++ ] = '.';
        { mc::Quiet z; for ( const char * c = alphabet; *c; ++c ) { if ( strchr( "pexXb", *c ) && md.n == N ) continue; if ( strchr( "gwW", *c ) && !md.n ) continue; can[ n++ ] = *c; } }
        char k = can[ mc::choose( n ) ]; if ( k == '.' ) break; run( k );
    }
    // afterwards: exactly N fit, in order
    int have; { mc::Quiet z; have = md.n; mc::outcome( md.n * 1000003ull + md.born * 1009 + md.ran * 31 + md.hw ); }
    for ( int i = have; i < N; ++i ) run( i % 2 ? 'e' : 'p' );
    bool through = false; h::Par p; int id = freshId(); p.go( [ &, id ] { q->emplace< SM >( id, (int)PLAIN ); mc::Quiet z; through = true; } );
    mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !through, "more than %d messages fit into the queue after %s", N, opLog ); }
    for ( int i = 0; i < N; ++i ) {
        int first; { mc::Quiet z; first = md.q[ 0 ]; dispatchOf = first; } 
        try { q->getAndDispatch(); } catch ( const h::Boom & ) {} 
        { mc::Quiet z; MC_CHECK( !md.st[ first ], "messages are not dispatched in order after %s", opLog ); memmove( md.q, md.q + 1, 11 ); md.q[ --md.n ] = 0; }
        if ( i == 0 ) { p.join(); mc::Quiet z; MC_CHECK( through, "a blocked producer was not released after %s", opLog ); }
    }
    { mc::Quiet z; dispatchOf = id; } q->getAndDispatch();
    delete q; mc::Quiet z; MC_CHECK( md.born == md.dead && h::mem.count == 0, "%d messages were never destroyed after %s", (int)( md.born - md.dead ), opLog );
}
// purge while another thread holds the dispatch lock, or the purging thread itself does; every depth, fill level, rollover
void purgeHeld( int maxN ) {
    int N = 1 + mc::choose( maxN ), roll = mc::choose( 2 * N + 2 ), fill = mc::choose( N + 1 ), mode = mc::choose( 4 ), twice = mc::choose( 2 );
    MessageQueue * q = new MessageQueue( (size_t)N, sizeof( SM ), mode > 0 ); { mc::Quiet z; md.N = N; h::mem.ctx = "purge"; snprintf( opLog, sizeof opLog, "N=%d roll=%d fill=%d mode=%d", N, roll, fill, mode ); }
    int id = 0;
    for ( int i = 0; i < roll; ++i ) { { mc::Quiet z; dispatchOf = id; } q->emplace< SM >( id, (int)PLAIN ); q->getAndDispatch(); id = ( id + 1 ) % IDS; }
    for ( int i = 0; i < fill; ++i ) { if ( i % 2 ) q->emplace< SM0 >( id, (int)PLAIN ); else q->emplace< SM >( id, (int)PLAIN ); id = ( id + 1 ) % IDS; }
    uint64_t ran; { mc::Quiet z; ran = md.ran; dispatchOf = -1; }
    bool done = false; h::Par p; uint64_t heap = 0;
    auto doPurge = [ & ] { uint64_t h0 = mc::heap_events(); for ( int k = 0; k <= twice; ++k ) q->purge(); mc::Quiet z; heap = mc::heap_events() - h0; done = true; };
    if ( mode == 2 ) { auto l = q->getAutoDispatchLock(); doPurge(); }
    else if ( mode == 3 ) { auto l = q->getAutoDispatchLock(); p.go( doPurge ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( done, "purge waits for a held dispatch lock (%s)", opLog ); } p.join(); }
    else doPurge();
    auto s = q->getRunningStateStatistics();
    { mc::Quiet z; MC_CHECK( md.born == md.dead && h::mem.count == 0, "%d messages survive purge (%s)", (int)( md.born - md.dead ), opLog ); MC_CHECK( md.ran == ran, "purge dispatched messages (%s)", opLog ); MC_CHECK( s.runningCount == 0 && s.size == (size_t)N, "runningCount is %u after purge (%s)", s.runningCount, opLog );
      if ( mc::on( "C24" ) ) MC_CHECK( heap == 0, "purge uses the heap (%s)", opLog ); mc::outcome( N * 1000 + fill * 10 + mode ); }
    // as good as new
    for ( int round = 0; round < 3; ++round ) {
        int first = id; for ( int i = 0; i < N; ++i ) { q->emplace< SM >( id, (int)PLAIN ); id = ( id + 1 ) % IDS; }
        for ( int i = 0; i < N; ++i ) { { mc::Quiet z; dispatchOf = first; } q->getAndDispatch(); first = ( first + 1 ) % IDS; }
    }
    delete q;
}
// purge with a producer or dispatcher blocked in an unrelated queue and with threads that used this queue before
// ---------------------------------------------------------------------------------------------- C22: geometry
int expectId; size_t reqSize;
template< int K > struct Geo : MessageBase {
    unsigned char b[ K ];
    static unsigned char pat( int id, int i ) { return (unsigned char)( id * 37 + i * 11 + 5 ); }
    int8_t id; bool real; 
    explicit Geo( int i, bool r = true ) : id( (int8_t)i ), real( r ) { if ( r ) h::enter( this, sizeof *this ); for ( int k = 0; k < K; ++k ) b[ k ] = pat( i, k ); }
    Geo( Geo && o ) : id( o.id ), real( true ) { h::enter( this, sizeof *this ); memcpy( b, o.b, K ); }
    void good( const char * when ) const { for ( int k = 0; k < K; ++k ) if ( b[ k ] != pat( id, k ) ) mc::fail( "byte %d of message %d (size %zu, requested %zu) changed before its %s", k, id, sizeof( Geo ), reqSize, when ); }
    ~Geo() override { if ( real ) { good( "destruction" ); h::leave( this ); } }
    void dispatch() override { good( "dispatch" ); mc::Quiet z; MC_CHECK( id == expectId, "message %d dispatched, expected %d", id, expectId ); }
};
// MessageBase is not the first base / is a virtual base / appears behind two others
struct Other { long a = 0x1111; virtual ~Other() = default; virtual int f() { return 1; } };
struct Plain2 { char c[ 5 ] = { 'a', 'b', 'c', 'd', 'e' }; };
template< class Base > struct Wrap : Base {
    int id; bool real; long tail = 0x7777;
    explicit Wrap( int i, bool r = true ) : id( i ), real( r ) { if ( r ) h::enter( this, sizeof *this ); }
    Wrap( Wrap && o ) : id( o.id ), real( true ) { h::enter( this, sizeof *this ); }
    ~Wrap() override { if ( real ) { MC_CHECK( tail == 0x7777 && this->sane(), "message %d (size %zu) changed", id, sizeof *this ); h::leave( this ); } }
    void dispatch() override { MC_CHECK( tail == 0x7777 && this->sane(), "message %d (size %zu) changed", id, sizeof *this ); mc::Quiet z; MC_CHECK( id == expectId, "message %d dispatched, expected %d", id, expectId ); }
};
struct B0 : MessageBase { bool sane() const { return true; } };
struct B1 : Other, MessageBase { bool sane() const { return a == 0x1111; } };
struct B2 : Other, Plain2, MessageBase { bool sane() const { return a == 0x1111 && c[ 4 ] == 'e'; } };
struct B3 : virtual MessageBase { long z = 5; bool sane() const { return z == 5; } };
struct B4a : virtual MessageBase { long y = 6; }; struct B4 : B4a, B3 { bool sane() const { return y == 6 && z == 5; } };
struct B5 : Plain2, MessageBase { bool sane() const { return c[ 0 ] == 'a'; } };
struct B6 : Other, B5 { bool sane() const { return a == 0x1111 && B5::sane(); } };
struct B7 : MessageBase { alignas( 16 ) long z[ 2 ] = { 7, 8 }; bool sane() const { return z[ 0 ] == 7 && z[ 1 ] == 8; } };     // more than pointer aligned: only used where the slots happen to be
struct Ops { size_t size; void ( *emplace )( MessageQueue &, int ); void ( *put )( MessageQueue &, int ); const char * name; size_t align; };
template< class T > Ops opsOf( const char * n ) { return Ops{ sizeof( T ), []( MessageQueue & q, int i ) { q.emplace< T >( i ); }, []( MessageQueue & q, int i ) { T t( i, false ); q.put( std::move( t ) ); }, n, alignof( T ) }; }
Ops all[] = { opsOf< Geo< 1 > >( "8+1" ), opsOf< Geo< 7 > >( "8+7" ), opsOf< Geo< 14 > >( "8+14" ), opsOf< Geo< 15 > >( "8+15" ), opsOf< Geo< 22 > >( "8+22" ), opsOf< Geo< 31 > >( "8+31" ), opsOf< Geo< 38 > >( "8+38" ), opsOf< Geo< 46 > >( "8+46" ), opsOf< Geo< 54 > >( "8+54" ), opsOf< Geo< 62 > >( "8+62" ), opsOf< Geo< 119 > >( "8+119" ),
    opsOf< Wrap< B0 > >( "single base" ), opsOf< Wrap< B1 > >( "second base" ), opsOf< Wrap< B2 > >( "third base" ), opsOf< Wrap< B3 > >( "virtual base" ), opsOf< Wrap< B4 > >( "shared virtual base" ), opsOf< Wrap< B5 > >( "behind plain data" ), opsOf< Wrap< B6 > >( "base of second base" ), opsOf< Wrap< B7 > >( "16-byte aligned" ) };
constexpr int NT = sizeof all / sizeof *all;
bool tryAdd( MessageQueue & q, const Ops & o, bool put, int id ) {
    try { if ( put ) o.put( q, id ); else o.emplace( q, id ); } catch ( const MessageQueueElementSizeError & ) { return false; } return true;
}
void geometry( size_t lo, size_t hi, int maxN ) {
    size_t req = lo + (size_t)mc::choose( (int)( hi - lo + 1 ) ); int N = 1 + mc::choose( maxN ); int t = mc::choose( NT );
    size_t cap = ( req + sizeof( void * ) - 1 ) / sizeof( void * ) * sizeof( void * );
    MessageQueue * q = new MessageQueue( (size_t)N, req ); { mc::Quiet z; reqSize = req; h::mem.ctx = "geometry"; h::mem.arena = 0; }
    auto addOne = [ & ]( int type, bool put, int id, int fill ) { bool ok = tryAdd( *q, all[ type ], put, id ); MC_CHECK( ok == ( all[ type ].size <= cap ), "%s of a message of %zu bytes (%s) is %s by a queue for %zu bytes (depth %d, %d enqueued)", put ? "put" : "emplace", all[ type ].size, all[ type ].name, ok ? "accepted" : "refused", req, N, fill ); return ok; };
    int id = 0, fits[ NT ], nf = 0; for ( int i = 0; i < NT; ++i ) if ( all[ i ].size <= cap && cap % all[ i ].align == 0 ) fits[ nf++ ] = i;
    bool in = all[ t ].size <= cap; mc::outcome( in * 1000 + nf );
    if ( in && cap % all[ t ].align ) { delete q; return; }
    if ( !in ) {
        // refused at every fill level, full included, without blocking and without consuming anything
        for ( int f = 0; f <= ( nf ? N : 0 ); ++f ) { addOne( t, false, 99, f ); addOne( t, true, 99, f ); auto s = q->getRunningStateStatistics(); MC_CHECK( (int)s.runningCount == f, "a refused message consumed a slot (runningCount %u, %d enqueued, size %zu, requested %zu)", s.runningCount, f, all[ t ].size, req ); if ( nf && f < N ) addOne( fits[ f % nf ], f & 1, f, f ); }
        for ( int f = 0; nf && f < N; ++f ) { { mc::Quiet z; expectId = f; } q->getAndDispatch(); }
        delete q; return;
    }
    // several rounds over the whole queue: only this type, then mixed with all others that fit
    for ( int round = 0; round < 4; ++round ) {
        int from = id; for ( int i = 0; i < N; ++i, ++id ) addOne( round < 2 || i % 2 == 0 ? t : fits[ ( i / 2 + round ) % nf ], ( i + round ) & 1, id % 100, i );
        int half = round == 3 ? N / 2 : N; for ( int i = 0; i < half; ++i ) { { mc::Quiet z; expectId = ( from + i ) % 100; } q->getAndDispatch(); }
        if ( round == 3 ) { mc::Quiet z; if ( N & 1 ) break; }
    }
    if ( N % 2 == 0 ) q->purge();        // the others are left to the destructor
    delete q; mc::Quiet z; MC_CHECK( h::mem.count == 0, "%d messages were never destroyed (depth %d, requested %zu)", h::mem.count, N, req );
}
void big( size_t req, int N ) {
    MessageQueue * q = new MessageQueue( (size_t)N, req ); { mc::Quiet z; reqSize = req; h::mem.ctx = "big"; h::mem.arena = 0; }
    for ( int round = 0; round < 2; ++round ) { for ( int i = 0; i < N; ++i ) tryAdd( *q, all[ ( i * 7 + round ) % ( NT - 1 ) ], i & 1, i % 100 ); for ( int i = 0; i < N; ++i ) { { mc::Quiet z; expectId = i % 100; } q->getAndDispatch(); } }
    delete q; mc::Quiet z; MC_CHECK( h::mem.count == 0, "messages were never destroyed" ); mc::outcome( N ); 
}
// queues deeper than small counters hold: filled to the brim, statistics at every step, dispatched in order, refilled, purged
struct Nth : MessageBase { int n, m; explicit Nth( int i ) : n( i ), m( ~i ) {} Nth( Nth && o ) : n( o.n ), m( o.m ) {} void dispatch() override { mc::Quiet z; MC_CHECK( n == expectId && m == ~n, "message %d dispatched, expected %d", n, expectId ); ++expectId; } };
void deepQueue( int N ) {
    MessageQueue * q = new MessageQueue( (size_t)N, sizeof( Nth ) ); int in = 0, out = 0, high = 0; { mc::Quiet z; expectId = 0; }
    auto stats = [ & ] { auto s = q->getRunningStateStatistics(); MC_CHECK( (int)s.size == N && (int)s.runningCount == in - out && (int)s.highWatermark == high, "queue for %d messages, %d enqueued, %d at most: statistics are size %zu, runningCount %u, highWatermark %u", N, in - out, high, s.size, s.runningCount, s.highWatermark ); };
    auto put = [ & ] { if ( in & 1 ) q->put( Nth{ in } ); else q->emplace< Nth >( in ); ++in; high = std::max( high, in - out ); stats(); };
    auto get = [ & ] { q->getAndDispatch(); ++out; { mc::Quiet z; MC_CHECK( expectId == out, "%d messages dispatched, expected %d", expectId, out ); } stats(); };
    for ( int round = 0; round < 2; ++round ) {
        while ( in - out < N ) put();
        bool through = false; h::Par p; p.go( [ & ] { q->emplace< Nth >( in ); mc::Quiet z; through = true; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !through, "more than %d messages fit", N ); }
        q->getAndDispatch(); ++out; p.join(); ++in; { mc::Quiet z; MC_CHECK( through, "the producer blocked at %d messages was not released", N ); } stats();
        int leave = round ? N / 2 : 0; while ( in - out > leave ) get();
    }
    if ( N & 1 ) { q->purge(); { mc::Quiet z; expectId = out = in; } stats(); for ( int i = 0; i < N; ++i ) put(); get(); }
    delete q; mc::outcome( N );
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    for ( int n : { 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537 } ) { Opts one; one.one().race( false ).steps( 100000000 ); r.add( "C16,C20,C21", h::fmt( "mqseq/deep/%d", n ), 0, one, [ n ] { deepQueue( n ); } ); }
    Opts one = Opts().one(), st;
    // C18
    r.add( "C18", "mqseq/locks1x2", 0, st, [] { locks( 1, 2, 7 ); } );
    r.add( "C18", "mqseq/locks2x2", 0, st, [] { locks( 2, 2, 6 ); } );
    r.add( "C18", "mqseq/locks2x3", 0, st, [] { locks( 2, 3, 4 ); } );
    for ( int N = 1; N <= 3; ++N ) { Opts one; one.one().race( false ); r.add( "C17,C18,C20", h::fmt( "mqseq/refused/n%d", N ), 0, one, [ N ] { refused( N, 6 ); } ); r.add( "C17,C18,C20", h::fmt( "mqseq/refusedlong/n%d", N ), 1, one, [ N ] { refused( N, 9 ); } ); }
    r.add( "C18", "mqseq/lockfaults1x2", 0, st, [] { locks( 1, 2, 10, true ); } );
    r.add( "C18", "mqseq/lockfaults2x2", 0, st, [] { locks( 2, 2, 5, true ); } );
    r.add( "C18", "mqseq/lockfaults1x3", 0, st, [] { locks( 1, 3, 7, true ); } );
    r.add( "C18", "mqseq/lockfaults2x2long", 1, st, [] { locks( 2, 2, 7, true ); } );
    r.add( "C18", "mqseq/locks1x2long", 1, st, [] { locks( 1, 2, 12 ); } );
    r.add( "C18", "mqseq/locks2x3long", 1, st, [] { locks( 2, 3, 9 ); } );
    // C21 and the sequential model
    for ( int N = 1; N <= 3; ++N ) {
        r.add( "C21", h::fmt( "mqseq/purge/n%d", N ), 0, one, [ = ] { seqModel( N, "exbgWP", 4, N == 2, 0 ); } );
        r.add( "C21", h::fmt( "mqseq/purgeroll/n%d", N ), 0, one, [ = ] { seqModel( N, "egP", 5, false, N ); } );
        r.add( "C16,C17,C20,C25", h::fmt( "mqseq/model/n%d", N ), 0, one, [ = ] { seqModel( N, N == 2 ? "peXbgwWl" : "pexXbgwWP", 4, N == 2, N - 1 ); } );
        r.add( "C21", h::fmt( "mqseq/purgelong/n%d", N ), 1, one, [ = ] { seqModel( N, "pexXbgwWPo", 6, false, N ); } );
        r.add( "C16,C17,C20,C25", h::fmt( "mqseq/modellong/n%d", N ), 1, one, [ = ] { seqModel( N, "pexXbgwWPoO", 6, false, 2 * N ); } );
        r.add( "C22", h::fmt( "mqseq/gate/n%d", N ), 0, one, [ = ] { seqModel( N, "egxboOP", 4, false, 0 ); } );
    }
    r.add( "C21,C24", "mqseq/purgeheld", 0, one, [] { purgeHeld( 5 ); } );
    r.add( "C21", "mqseq/purgeheldlong", 1, one, [] { purgeHeld( 12 ); } );
    // C22
    for ( size_t lo = 0; lo < 160; lo += 20 ) r.add( "C22", h::fmt( "mqseq/geo/%zu", lo ), 0, one, [ = ] { geometry( lo, lo + 19, 5 ); } );
    for ( size_t lo = 0; lo < 160; lo += 20 ) r.add( "C22", h::fmt( "mqseq/geolong/%zu", lo ), 1, one, [ = ] { geometry( lo, lo + 19, 17 ); } );
    for ( size_t req : { size_t( 144 ), size_t( 145 ), size_t( 1000 ), size_t( 4096 ), size_t( 4097 ) } ) for ( int N : { 31, 32, 33, 255, 257, 500 } ) r.add( "C22", h::fmt( "mqseq/big/%zu.%d", req, N ), N > 40, one, [ = ] { big( req, N ); } );
}
