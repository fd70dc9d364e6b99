// MessageQueue under all schedules: C16 (exactly once, FIFO, depth), C17 (lifetime, exceptions), C18 (dispatch lock),
// C19 (abort, destruction), C20 (statistics), C25 (dispatch protocol), C23, C24
#include "common.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <mutex>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
// alphabet per thread
//  p put   e emplace   x emplace with a throwing constructor   X put with a throwing move constructor   b emplace a message whose dispatch throws
//  c emplace a message whose dispatch emplaces another one     m emplace a message with the default name      o emplace/put of a message too large
//  g getAndDispatch   w with wake-up functor   W with a throwing wake-up functor
//  l hold an AutoDispatchLock   u hold, unlock, lock again, release   v lock moved to another object
//  s statistics   n name of the last message   a abort   D destroy the queue
enum Kind { PLAIN, THROWCTOR, THROWMOVE, THROWDISPATCH, CHILD, NONAME };
enum Ret { OK = 1, ABORTED = 2, BOOM = 3, SIZE = 4 };         // a dispatcher records 10 + message number
enum St : int8_t { UNBORN, BUILDING, QUEUED, RUNNING, DISPATCHED, GONE };
constexpr int NM = 72;
struct M { int8_t st, kind, by; char * at; int size; };
struct Disp { int8_t op, msg, wake; char how; int8_t nm; };
struct W {
    h::Hist hs, nm; M m[ NM ]; Disp g[ 6 ]; char cur[ 6 ]; int N; bool lockable; bool dying, aborted, abBegun, abDone, abSeen; int8_t dispatching, lockHeld, dispatchers; char * arena; size_t arenaSize;
    long certain, possible, maxCertain, maxPossible, hwSeen; const char * prog; int shared; bool lastNone; };
W w;
const char * const names[ NM ] = {
#define N8( a ) a "0", a "1", a "2", a "3", a "4", a "5", a "6", a "7"
    N8( "a" ), N8( "b" ), N8( "c" ), N8( "d" ), N8( "e" ), N8( "f" ), N8( "g" ), N8( "h" ), N8( "i" ) };
char nameBuf[ NM ][ 8 ];
MessageQueue * theQ;
int doOp( MessageQueue & q, char k );
int nameNo( const char * s );
void peak() { if ( w.certain > w.maxCertain ) w.maxCertain = w.certain; if ( w.possible > w.maxPossible ) w.maxPossible = w.possible; }
void plus( long & c ) { ++c; peak(); }

// a message object comes to life inside the queue
void born( void * pv, size_t n, int id, int kind ) {
    mc::Quiet q; char * p = (char *)pv; M & m = w.m[ id ]; uintptr_t b; size_t s;
    MC_CHECK( m.st == UNBORN, "message %d is constructed in the queue twice (%s)", id, w.prog );
    MC_CHECK( mc::block_of( p, b, s ) && (uintptr_t)p + n <= b + s, "a message lies outside of the queue's memory (%s)", w.prog );
    for ( auto & o : w.m ) if ( o.st > UNBORN && o.st < GONE ) MC_CHECK( p + n <= o.at || o.at + o.size <= p, "the memory of message %d is given to message %d while the former is still alive (state %d) (%s)", int( &o - w.m ), id, o.st, w.prog );
    int live = 0; for ( auto & o : w.m ) live += o.st > UNBORN && o.st < GONE;
    MC_CHECK( live < w.N, "%d messages alive in a queue of %d (%s)", live + 1, w.N, w.prog );
    m = M{ BUILDING, (int8_t)kind, 0, p, (int)n }; plus( w.certain );
}
void gone( void * pv, int id ) {
    mc::Quiet q; M & m = w.m[ id ];
    MC_CHECK( m.st != UNBORN && m.st != GONE && m.at == pv, "message %d is destroyed %s (%s)", id, m.st == GONE ? "a second time" : "although it was never constructed", w.prog );
    MC_CHECK( m.st != RUNNING, "message %d is destroyed while its dispatch is running (%s)", id, w.prog );
    Disp & g = w.g[ mc::self() ];
    if ( g.op >= 0 && g.msg < 0 ) { g.msg = (int8_t)id; w.hs.res( g.op, 10 + id ); }   // taken but never dispatched (wake-up functor threw)
    m.st = GONE; m.at = nullptr; m.size = 0; --w.certain;
}
struct Temp { int id, kind; };
struct Msg : MessageBase {
    int id, kind; bool inQueue; mutable bool named = false; unsigned pay[ 3 ]; int * user;
    void load( int * u ) { for ( int i = 0; i < 3; ++i ) pay[ i ] = (unsigned)( id * 977 + i * 31 + 7 ); user = u; }
    bool good() const { return pay[ 0 ] == (unsigned)( id * 977 + 7 ) && pay[ 1 ] == (unsigned)( id * 977 + 38 ) && pay[ 2 ] == (unsigned)( id * 977 + 69 ); }
    Msg( Temp t, int * u ) : id( t.id ), kind( t.kind ), inQueue( false ) { load( u ); }
    Msg( int i, int k, int * u ) : id( i ), kind( k ), inQueue( true ) { born( this, sizeof *this, i, k ); mc::point(); load( u ); built( k == THROWCTOR ); }
    Msg( Msg && o ) : id( o.id ), kind( o.kind ), inQueue( true ) { born( this, sizeof *this, id, kind ); load( o.user ); MC_CHECK( o.good(), "put does not move from the caller's message (%s)", w.prog ); built( kind == THROWMOVE ); o.pay[ 0 ] = 0; }
    void built( bool boom ) { if ( boom ) { inQueue = false; gone( this, id ); throw h::Boom{ id }; } mc::Quiet q; w.m[ id ].st = QUEUED; }
    ~Msg() override { if ( inQueue ) { MC_CHECK( good(), "the payload of message %d changed before its destruction (%s)", id, w.prog ); gone( this, id ); pay[ 0 ] = pay[ 1 ] = 0; id = -1; } }
    // (C23) a name made up when asked for: whoever obtains it from the queue may read it
    const char * name() const override { if ( !mc::on( "C23" ) || mc::on( "C25" ) ) return names[ id ]; char * b = nameBuf[ id ]; if ( !named ) { named = true; b[ 0 ] = 'n'; b[ 1 ] = 0; } return b; }
    void dispatch() override {
        int me = mc::self(), nmOp = -1;
        { mc::Quiet q; M & m = w.m[ id ]; Disp & g = w.g[ me ];
          MC_CHECK( g.op >= 0, "message %d is dispatched by a thread that did not call getAndDispatch (%s)", id, w.prog );
          MC_CHECK( g.msg < 0, "message %d is dispatched by a call that already took message %d (%s)", id, g.msg, w.prog );
          MC_CHECK( m.st == QUEUED, "message %d is dispatched in state %d (%s)", id, m.st, w.prog );
          MC_CHECK( g.how == 'g' || g.wake == 1, "message %d is dispatched after %d calls of the wake-up functor (%s)", id, g.wake, w.prog );
          MC_CHECK( g.how != 'W', "message %d is dispatched although the wake-up functor threw (%s)", id, w.prog );
          m.st = RUNNING; m.by = (int8_t)me; g.msg = (int8_t)id; ++w.dispatching;
          if ( w.lockable && mc::on( "C18" ) ) { MC_CHECK( !w.lockHeld, "message %d is dispatched while an AutoDispatchLock is held (%s)", id, w.prog ); MC_CHECK( w.dispatching == 1, "%d dispatches run at once with dispatch locking enabled (%s)", w.dispatching, w.prog ); } }
        w.hs.res( w.g[ me ].op, 10 + id ); if ( w.g[ me ].nm >= 0 ) { { mc::Quiet q; w.nm.op[ w.g[ me ].nm ].arg = nameNo( name() ); } w.nm.res( w.g[ me ].nm, 0 ); }
        MC_CHECK( good(), "the payload of message %d changed before its dispatch (%s)", id, w.prog );
        if ( user ) MC_CHECK( *user == id, "what the producer wrote before enqueueing message %d is not visible to its dispatch (%s)", id, w.prog );
        if ( w.lockable && mc::on( "C23" ) ) ++w.shared;
        if ( mc::on( "C25" ) && w.dispatchers == 1 ) { const char * s = theQ->getNameOfLastMessageDispatched(); MC_CHECK( s == name(), "the last message dispatched is named %s during the dispatch of %s (%s)", s, name(), w.prog ); }
        (void)nmOp; mc::point();
        if ( w.lockable && mc::on( "C18" ) ) { mc::Quiet q; MC_CHECK( !w.lockHeld && w.dispatching == 1, "an AutoDispatchLock or another dispatch entered during the dispatch of message %d (%s)", id, w.prog ); }
        struct End { int id; ~End() { mc::Quiet q; w.m[ id ].st = DISPATCHED; --w.dispatching; } } end{ id };
        if ( kind == CHILD ) { MC_CHECK( theQ, "harness" ); if ( doOp( *theQ, 'e' ) == ABORTED ) throw h::Boom{ id + 1000 }; }
        if ( kind == THROWDISPATCH ) throw h::Boom{ id };
        MC_CHECK( good(), "the payload of message %d changed during its dispatch (%s)", id, w.prog );
    }
};
struct NoName : Msg { using Msg::Msg; const char * name() const override { return MessageBase::name(); } };
struct Big : MessageBase { unsigned char c[ sizeof( Msg ) ]; Big() { mc::fail( "a message that is too large is constructed (%s)", w.prog ); } Big( int ) {} Big( Big && ) : MessageBase() { mc::fail( "a message that is too large is constructed (%s)", w.prog ); } void dispatch() override {} };

int userData[ NM ];
void holdCheck( bool in ) { mc::Quiet q; if ( in ) { MC_CHECK( !w.lockHeld, "two AutoDispatchLocks are held at once (%s)", w.prog ); MC_CHECK( !w.dispatching, "an AutoDispatchLock is granted while a message is being dispatched (%s)", w.prog ); } w.lockHeld = in; }
void held() { holdCheck( true ); if ( mc::on( "C23" ) ) ++w.shared; mc::point(); { mc::Quiet q; MC_CHECK( !w.dispatching, "a message is dispatched while an AutoDispatchLock is held (%s)", w.prog ); } holdCheck( false ); }
__attribute__(( noinline )) int putOp( MessageQueue & q, char k, int i ) {
    bool begun = false; int r = OK; uint64_t he = 0; int id = i; int * u = nullptr;
    if ( mc::on( "C23" ) ) { u = &userData[ id ]; *u = id; }
    { mc::Quiet z; if ( k != 'o' ) { begun = true; plus( w.possible ); } }
    try {
        switch ( k ) {
        case 'p': { Msg m( Temp{ id, PLAIN }, u ); he = mc::heap_events(); q.put( std::move( m ) ); break; }
        case 'X': { Msg m( Temp{ id, THROWMOVE }, u ); he = mc::heap_events(); q.put( std::move( m ) ); break; }
        case 'e': he = mc::heap_events(); q.emplace< Msg >( id, (int)PLAIN, u ); break;
        case 'x': he = mc::heap_events(); q.emplace< Msg >( id, (int)THROWCTOR, u ); break;
        case 'b': he = mc::heap_events(); q.emplace< Msg >( id, (int)THROWDISPATCH, u ); break;
        case 'c': he = mc::heap_events(); q.emplace< Msg >( id, (int)CHILD, u ); break;
        case 'm': he = mc::heap_events(); q.emplace< NoName >( id, (int)NONAME, u ); break;
        case 'o': if ( i % 2 ) q.emplace< Big >(); else q.put( Big( 1 ) ); break;
        }
    }
    catch ( const h::Boom & b ) { MC_CHECK( ( k == 'x' || k == 'X' ) && b.id == id, "%c failed with somebody else's exception (%s)", k, w.prog ); r = BOOM; }
    catch ( const MessageQueueElementSizeError & ) { MC_CHECK( k == 'o', "%c of a message that fits was refused (%s)", k, w.prog ); r = SIZE; }
    catch ( const SemaphoreAborted & ) { r = ABORTED; }
    catch ( const RingBufferStateError & ) { r = ABORTED; }
    catch ( const std::exception & e ) { mc::fail( "%c failed with unexpected exception %s (%s)", k, e.what(), w.prog ); }
    MC_CHECK( k != 'o' || r == SIZE, "a message that is too large was accepted (%s)", w.prog );
    MC_CHECK( !( ( k == 'x' || k == 'X' ) && r == OK ), "the exception of a message's constructor was swallowed (%s)", w.prog );
    if ( r == OK && mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "enqueueing a message used the heap (%s)", w.prog );
    mc::Quiet z; if ( begun && r != OK ) --w.possible;
    if ( r != OK && k != 'o' ) MC_CHECK( w.m[ id ].st == UNBORN || w.m[ id ].st == GONE, "message %d is left in state %d by a %c that failed (%s)", id, w.m[ id ].st, k, w.prog );
    if ( r == OK ) MC_CHECK( w.m[ id ].st >= QUEUED, "message %d is not enqueued although %c returned (%s)", id, k, w.prog );
    return r;
}
__attribute__(( noinline )) int getOp( MessageQueue & q, char k, int i ) {
    int t = mc::self(), r = OK; { mc::Quiet z; w.g[ t ] = Disp{ (int8_t)i, -1, 0, k, -1 }; }
    if ( mc::on( "C25" ) ) { int ni = w.nm.inv( 'W', -1 ); mc::Quiet z; w.g[ t ].nm = (int8_t)ni; }
    uint64_t he = mc::heap_events(); int boom = -1;
    try {
        if ( k == 'g' ) q.getAndDispatch();
        else {
            auto wake = [ t, k ] { { mc::Quiet z; Disp & g = w.g[ t ]; MC_CHECK( ++g.wake == 1 && g.msg < 0, "wake-up functor called again or after the dispatch (%s)", w.prog ); int avail = 0; for ( auto & m : w.m ) avail += m.st == QUEUED; MC_CHECK( avail, "wake-up functor called with no message available (%s)", w.prog ); } mc::point(); if ( k == 'W' ) throw h::Boom{ 5000 + t }; };
            MessageQueue::WakeupCallFunctionType f( std::ref( wake ) ); he = mc::heap_events();
            q.getAndDispatch( f );
        }
    }
    catch ( const h::Boom & b ) { boom = b.id; r = BOOM; }
    catch ( const SemaphoreAborted & ) { r = ABORTED; }
    catch ( const RingBufferStateError & ) { r = ABORTED; }
    catch ( const std::exception & e ) { mc::fail( "%c failed with unexpected exception %s (%s)", k, e.what(), w.prog ); }
    mc::Quiet z; Disp g = w.g[ t ]; w.g[ t ] = Disp{ -1, -1, 0, 0, -1 };
    if ( r == ABORTED ) { MC_CHECK( g.msg < 0 && !g.wake, "getAndDispatch threw the abort exception although it had taken message %d (%s)", g.msg, w.prog ); w.hs.res( i, ABORTED ); return r; }
    MC_CHECK( g.msg >= 0, "getAndDispatch returned without having taken a message (%s)", w.prog ); const M & m = w.m[ g.msg ];
    MC_CHECK( m.st == GONE, "message %d is in state %d after its dispatch (%s)", g.msg, m.st, w.prog ); --w.possible;
    if ( k == 'W' ) MC_CHECK( r == BOOM && boom == 5000 + t, "the exception of the wake-up functor did not arrive (%s)", w.prog );
    else if ( m.kind == THROWDISPATCH ) MC_CHECK( r == BOOM && boom == g.msg, "the exception of the dispatch did not arrive (%s)", w.prog );
    else if ( m.kind == CHILD ) MC_CHECK( r == OK || boom == g.msg + 1000, "foreign exception (%s)", w.prog );
    else { MC_CHECK( r == OK, "foreign exception (%s)", w.prog ); if ( mc::on( "C24" ) && k != 'c' ) MC_CHECK( he == mc::heap_events(), "dispatching a message used the heap (%s)", w.prog ); }
    return r;
}
void statOp( MessageQueue & q ) {
    long before; { mc::Quiet z; before = w.hwSeen; }
    auto s = q.getRunningStateStatistics(); mc::Quiet z; if ( !mc::on( "C20" ) ) return;
    MC_CHECK( s.size == (size_t)w.N, "statistics: size is %zu, expected %d (%s)", s.size, w.N, w.prog );
    MC_CHECK( s.runningCount <= (unsigned)w.N, "statistics: runningCount is %u in a queue of %d (%s)", s.runningCount, w.N, w.prog );
    MC_CHECK( s.highWatermark <= (unsigned)w.N, "statistics: highWatermark is %u in a queue of %d (%s)", s.highWatermark, w.N, w.prog );
    MC_CHECK( s.runningCount <= s.highWatermark, "statistics: runningCount %u above highWatermark %u (%s)", s.runningCount, s.highWatermark, w.prog );
    MC_CHECK( (long)s.highWatermark >= before, "statistics: highWatermark fell from %ld to %u (%s)", before, s.highWatermark, w.prog );
    if ( (long)s.highWatermark > w.hwSeen ) w.hwSeen = s.highWatermark;
}
int nameNo( const char * s ) { if ( !strcmp( s, "[NONE]" ) ) return 0; if ( !strcmp( s, "Unforgiven" ) ) return 99; for ( int i = 0; i < NM; ++i ) if ( s == names[ i ] || s == nameBuf[ i ] ) return i + 1; mc::fail( "the name of the last message is %s (%s)", s, w.prog ); }
// isAborted is for derived classes
struct Peek : MessageQueue { using MessageQueue::MessageQueue; static bool aborted( MessageQueue & q ) { return ( q.*( &Peek::isAborted ) )(); } };
void abortedOp( MessageQueue & q ) {
    bool must; { mc::Quiet z; must = w.abDone || w.abSeen; } bool is = Peek::aborted( q ); mc::Quiet z;
    MC_CHECK( is || !must, "isAborted is false after abort%s (%s)", w.abDone ? "" : ", and after it was true", w.prog );
    MC_CHECK( !is || w.abBegun, "isAborted is true without abort (%s)", w.prog ); w.abSeen |= is;
}
__attribute__(( noinline )) int doOp( MessageQueue & q, char k ) {
    int t = mc::self(), r = OK; char was; { mc::Quiet z; was = w.cur[ t ]; w.cur[ t ] = k; }
    if ( strchr( "pexXbcmo", k ) ) { int i = w.hs.inv( 'p' ); { mc::Quiet z; w.hs.op[ i ].arg = i; } r = putOp( q, k, i ); w.hs.res( i, r ); }
    else if ( strchr( "gwW", k ) ) { int i = w.hs.inv( 'g' ); r = getOp( q, k, i ); }
    else if ( k == 's' ) statOp( q );
    else if ( k == 'n' ) { int i = w.nm.inv( 'n' ); const char * s = q.getNameOfLastMessageDispatched(); int v; if ( mc::on( "C23" ) ) MC_CHECK( s[ 0 ], "the name of the last message is not readable (%s)", w.prog ); { mc::Quiet z; v = nameNo( s ); } w.nm.res( i, v ); }
    else if ( k == 'a' ) { int i = w.hs.inv( 'a' ); { mc::Quiet z; w.abBegun = true; } q.abort(); w.hs.res( i, OK ); mc::Quiet z; w.aborted = w.abDone = true; }
    else if ( k == 'i' ) abortedOp( q );
    else if ( k == 'l' || k == 'u' || k == 'v' || k == 'V' ) {
        uint64_t he = mc::heap_events();
        if ( !w.lockable ) { bool thrown = false; try { q.getAutoDispatchLock(); } catch ( const MessageQueueDispatchLockingDisabled & ) { thrown = true; } MC_CHECK( thrown, "getAutoDispatchLock succeeds although dispatch locking is disabled (%s)", w.prog ); }
        else {
            { auto l = q.getAutoDispatchLock();
              held();
              if ( k == 'u' ) { l.unlock(); mc::point(); l.lock(); held(); }
              if ( k == 'v' ) { MessageQueue::AutoDispatchLock l2( std::move( l ) ); l.unlock(); held(); l2.unlock(); mc::point(); }
              if ( k == 'V' ) { MessageQueue::AutoDispatchLock l2( std::move( l ) ); l2.unlock(); mc::point(); MessageQueue::AutoDispatchLock l3 = q.getAutoDispatchLock(); l2 = std::move( l3 ); held(); } }
            if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "dispatch locking used the heap (%s)", w.prog );
        }
    }
    { mc::Quiet z; w.cur[ t ] = was; }
    return r;
}
// ---- reference: one FIFO queue ----
struct S { int8_t q[ 14 ], n; bool ab; };
bool step( S & s, const h::Hist::Op & o ) {
    switch ( o.kind ) {
    case 'a': s.ab = true; return true;
    case 'p':
        if ( !o.done || o.ret == OK ) { if ( s.ab || s.n >= 14 ) return false; s.q[ (int)s.n++ ] = (int8_t)o.arg; return true; }
        return o.ret == ABORTED ? s.ab : true;
    case 'g':
        if ( o.ret == ABORTED ) return s.ab;
        if ( s.ab || !s.n || s.q[ 0 ] != o.ret - 10 ) return false;
        memmove( s.q, s.q + 1, 13 ); s.q[ (int)--s.n ] = 0; return true;
    }
    return false;
}
struct Cnt { int prod, cons; };
Cnt blocked() { mc::Quiet q; Cnt c{ 0, 0 }; for ( unsigned t = 0; t < 6 && t < mc::num_threads(); ++t ) { if ( w.cur[ t ] && strchr( "pexXbcmo", w.cur[ t ] ) ) ++c.prod; if ( w.g[ t ].op >= 0 && w.g[ t ].msg < 0 ) ++c.cons; } return c; }
int used() { int n = 0; for ( auto & m : w.m ) n += m.st > UNBORN && m.st < GONE; return n; }
int waiting() { int n = 0; for ( auto & m : w.m ) n += m.st == QUEUED; return n; }
Cnt quiesce( const char * when ) {
    mc::wait_quiescent(); Cnt c = blocked(); mc::Quiet q; int u = used(), v = waiting();
    MC_CHECK( !( c.cons && v ), "%d thread(s) blocked in getAndDispatch although %d message(s) are enqueued %s (%s)", c.cons, v, when, w.prog );
    MC_CHECK( !( c.prod && u < w.N ), "%d thread(s) blocked enqueueing although only %d of %d slots are used %s (%s)", c.prod, u, w.N, when, w.prog );
    return c;
}
void quietStats( MessageQueue & q, const char * when ) {
    if ( !mc::on( "C20" ) ) return;
    auto s = q.getRunningStateStatistics(); mc::Quiet z; int u = used();
    MC_CHECK( s.size == (size_t)w.N, "statistics: size is %zu, expected %d (%s)", s.size, w.N, w.prog );
    MC_CHECK( (int)s.runningCount == u, "statistics: runningCount is %u with %d messages %s (%s)", s.runningCount, u, when, w.prog );
    MC_CHECK( (long)s.highWatermark >= w.maxCertain && (long)s.highWatermark <= std::min( (long)w.N, w.maxPossible ), "statistics: highWatermark is %u, expected between %ld and %ld %s (%s)", s.highWatermark, w.maxCertain, std::min( (long)w.N, w.maxPossible ), when, w.prog );
}
// names: reads must be consistent with writes that happen between taking a message and its dispatch
bool nameStep( int & s, const h::Hist::Op & o ) { if ( o.kind == 'W' ) { if ( o.arg < 0 ) return false; s = o.arg; return true; } return o.ret == s; }
void checkNames() {
    mc::Quiet z; h::Hist & hs = w.nm; bool any = false; for ( int i = 0; i < hs.n; ++i ) any |= hs.op[ i ].kind == 'n';
    if ( any && !h::linearizable( hs, 0, nameStep ) ) mc::fail( "the name of the last message dispatched is not one it can have been (%s)", w.prog );
}
void runPart( MessageQueue * q, const char * part ) {
    for ( const char * x = part; *x && *x != '/'; ++x ) {
        if ( x != part ) mc::point();
        bool d; { mc::Quiet z; d = w.dying; if ( *x == 'D' ) w.dying = true; } if ( d ) return;
        if ( *x == 'D' ) { int i = w.hs.inv( 'a' ); delete q; w.hs.res( i, OK ); { mc::Quiet z; theQ = nullptr; w.aborted = true; } return; }
        doOp( *q, *x );
    }
}
void drive( int N, int held, bool lockable, const char * prog, bool endings ) {
    { mc::Quiet z; w.N = N; w.prog = prog; w.lockable = lockable; for ( auto & g : w.g ) g = Disp{ -1, -1, 0, 0, -1 }; w.dispatchers = 0; for ( const char * p = prog; *p; ) { bool d = false; for ( ; *p && *p != '/'; ++p ) d |= !!strchr( "gwW", *p ); w.dispatchers += d; if ( *p ) ++p; } }
    MessageQueue * q = new MessageQueue( (size_t)N, sizeof( Msg ), lockable ); { mc::Quiet z; theQ = q; }
    MC_CHECK( nameNo( q->getNameOfLastMessageDispatched() ) == 0, "a new queue names a last message (%s)", prog );
    S s0; memset( &s0, 0, sizeof s0 ); quietStats( *q, "at first" );
    for ( int i = 0; i < held; ++i ) doOp( *q, i % 2 ? 'e' : 'p' );
    bool hasAbort = strpbrk( prog, "aD" );
    h::Par p; const char * x = prog;
    for ( ;; ) { const char * part = x; p.go( [ q, part ] { runPart( q, part ); } ); while ( *x && *x != '/' ) ++x; if ( !*x ) break; ++x; }
    bool gone = false;
    if ( hasAbort ) {
        mc::wait_quiescent(); bool done; { mc::Quiet z; done = w.aborted; gone = w.dying; }
        if ( !done ) { MC_CHECK( !gone, "the destructor does not return (%s)", prog ); doOp( *q, 'a' ); mc::wait_quiescent(); }
        Cnt c = blocked(); MC_CHECK( c.prod + c.cons == 0, "%d thread(s) still blocked after abort or destruction (%s)", c.prod + c.cons, prog );
        p.join();
    } else {
        Cnt c = quiesce( "when nothing else can run" );
        int mode = ( c.prod + c.cons && endings ) ? 1 + mc::choose( 2 ) : 0;
        if ( mode == 0 ) { for ( int guard = 0; c.prod + c.cons; ++guard ) { MC_CHECK( guard < 12, "harness: releasing does not end (%s)", prog );
                if ( c.prod && c.cons ) mc::fail( "producers and dispatchers blocked at the same time (%s)", prog );
                doOp( *q, c.cons ? 'e' : 'g' ); c = quiesce( "after one more message or slot was provided" ); } }
        else if ( mode == 1 ) doOp( *q, 'a' );
        else { { mc::Quiet z; w.dying = true; } int i = w.hs.inv( 'a' ); delete q; w.hs.res( i, OK ); gone = true; Cnt e = blocked(); MC_CHECK( e.prod + e.cons == 0, "the destructor returned while %d thread(s) are still blocked inside the queue (%s)", e.prod + e.cons, prog ); { mc::Quiet z; w.aborted = true; } }
        p.join();
    }
    bool ab; { mc::Quiet z; ab = w.aborted; }
    if ( !gone ) {
        if ( mc::on( "C19" ) ) abortedOp( *q );
        if ( !ab ) { if ( !w.dying ) quietStats( *q, "when all calls have returned" ); while ( waiting() ) doOp( *q, 'g' ); quietStats( *q, "after everything was dispatched" ); { mc::Quiet z; MC_CHECK( used() == 0, "%d message(s) were neither dispatched nor destroyed (%s)", used(), prog ); } }
        else { int before; { mc::Quiet z; before = used(); } MC_CHECK( doOp( *q, 'g' ) == ABORTED && doOp( *q, 'e' ) == ABORTED && doOp( *q, 'p' ) == ABORTED && doOp( *q, 'w' ) == ABORTED, "a call after abort succeeded (%s)", prog ); { mc::Quiet z; MC_CHECK( used() == before, "a call after abort changed the messages (%s)", prog ); } }
    }
    MC_CHECK( h::linearizable( w.hs, s0, step ), "calls and dispatches are not those of one FIFO queue in any order consistent with the calls (%s, depth %d, %d messages at first)", prog, N, held );
    if ( mc::on( "C25" ) ) checkNames();
    uint64_t o = 7; { mc::Quiet z; for ( int i = 0; i < w.hs.n; ++i ) o = o * 31 + w.hs.op[ i ].kind * 8 + w.hs.op[ i ].ret; } mc::outcome( o );
    if ( !gone && !ab ) {      // the whole capacity is there, in order
        { mc::Quiet z; memset( &w.hs, 0, sizeof w.hs ); memset( &w.m, 0, sizeof w.m ); }
        for ( int i = 0; i < N; ++i ) MC_CHECK( doOp( *q, i % 2 ? 'p' : 'e' ) == OK, "enqueue failed (%s)", prog );
        quietStats( *q, "with a full queue" );
        for ( int i = 0; i < N; ++i ) { doOp( *q, 'g' ); mc::Quiet z; MC_CHECK( w.m[ i ].st == GONE && used() == N - 1 - i, "messages are not dispatched in order (%s)", prog ); }
        quietStats( *q, "at the end" );
        if ( mc::on( "C25" ) ) { const char * s = q->getNameOfLastMessageDispatched(); MC_CHECK( s == names[ N - 1 ], "the last message dispatched is named %s (%s)", s, prog ); }
    }
    if ( !gone ) delete q;
    { mc::Quiet z; MC_CHECK( used() == 0, "%d message(s) were never destroyed (%s)", used(), prog ); }
}
std::vector< std::string > seqs( const std::string & al, int lo, int hi ) {
    std::vector< std::string > r, cur{ "" }; for ( int l = 1; l <= hi; ++l ) { std::vector< std::string > nx; for ( auto & c : cur ) for ( char x : al ) nx.push_back( c + x ); if ( l >= lo ) r.insert( r.end(), nx.begin(), nx.end() ); cur = nx; } return r;
}
std::vector< std::string > multi( const std::vector< std::string > & a, int k ) {
    std::vector< std::string > r; std::function< void( size_t, std::string, int ) > rec = [ & ]( size_t from, std::string s, int left ) { if ( !left ) { r.push_back( s ); return; } for ( size_t i = from; i < a.size(); ++i ) rec( i, s.empty() ? a[ i ] : s + "/" + a[ i ], left - 1 ); };
    rec( 0, "", k ); return r;
}
std::vector< std::string > prod( const std::vector< std::string > & a, const std::vector< std::string > & b ) { std::vector< std::string > r; for ( auto & x : a ) for ( auto & y : b ) r.push_back( x + "/" + y ); return r; }
std::vector< std::string > with( std::vector< std::string > v, const char * any ) { std::vector< std::string > x; for ( auto & p : v ) if ( p.find_first_of( any ) != std::string::npos ) x.push_back( p ); return x; }
std::vector< std::string > atMost( std::vector< std::string > v, const char * any, int n ) { std::vector< std::string > x; for ( auto & p : v ) { int k = 0; for ( char c : p ) k += !!strchr( any, c ); if ( k <= n ) x.push_back( p ); } return x; }
void family( mc::Registry & r, const char * props, const std::string & name, int tier, Opts o, std::vector< std::string > progs, int N, int held, bool lockable, unsigned parts, bool endings = false ) {
    for ( unsigned k = 0; k < parts; ++k ) { auto * pv = new std::vector< std::string >; for ( size_t i = k; i < progs.size(); i += parts ) pv->push_back( progs[ i ] );
        if ( pv->empty() ) continue;
        r.add( props, name + h::fmt( "/n%d.%d%s", N, held, lockable ? "L" : "" ) + ( parts > 1 ? h::fmt( "/part%u", k ) : std::string() ), tier, o, [ = ] { drive( N, held, lockable, ( *pv )[ mc::choose( (int)pv->size() ) ].c_str(), endings ); } ); }
}
} // namespace


std::vector< std::string > ops( std::vector< std::string > v, size_t lo, size_t hi ) { std::vector< std::string > x; for ( auto & p : v ) { size_t k = 0; for ( char c : p ) k += c != '/'; if ( k >= lo && k <= hi ) x.push_back( p ); } return x; }

void mc_scenarios( mc::Registry & r ) {
    Opts o;
    struct C { int N, held; };
    const std::vector< C > small{ C{ 1, 0 }, C{ 1, 1 }, C{ 2, 1 }, C{ 3, 3 }, C{ 2, 2 } };
    for ( auto c : { C{ 1, 0 }, C{ 1, 1 }, C{ 2, 0 }, C{ 2, 1 }, C{ 3, 3 }, C{ 2, 2 } } ) {
        // C16: producers and dispatchers
        family( r, "C16,C20,C23,C24,C25", "mq/two", 0, o, multi( seqs( "peg", 1, 2 ), 2 ), c.N, c.held, false, 4 );
        family( r, "C16", "mq/three", 0, o, multi( seqs( "eg", 1, 1 ), 3 ), c.N, c.held, false, 10 );
        family( r, "C16,C17,C20,C25", "mq/child", 0, o, ops( with( multi( seqs( "ecg", 1, 2 ), 2 ), "c" ), 2, 3 ), c.N == 1 ? 6 : 7, std::min( c.held, 1 ), false, 2 );
        family( r, "C16", "mq/two3", 1, o, multi( seqs( "eg", 1, 3 ), 2 ), c.N, c.held, false, 16 );
        family( r, "C16", "mq/three2pb", 0, Opts( o ).pb( 2 ), ops( multi( seqs( "eg", 1, 2 ), 3 ), 4, 5 ), c.N, c.held, false, 4 );
        family( r, "C16", "mq/three2", 1, o, multi( seqs( "eg", 1, 2 ), 3 ), c.N, c.held, false, 32 );
        family( r, "C16", "mq/four", 1, Opts( o ).pb( 2 ), multi( seqs( "eg", 1, 1 ), 4 ), c.N, c.held, false, 5 );
        family( r, "C16", "mq/burst", c.held != c.N || c.N == 1, o, { "e/e/gg", "g/g/ee" }, c.N, c.held, false, 2 );
        family( r, "C16", "mq/burst3", 1, o, { "e/e/ggg", "g/g/eee", "ee/g/gg", "gg/e/ee" }, c.N, c.held, false, 4 );
        family( r, "C16", "mq/burst4", 1, Opts( o ).pb( 3 ), { "e/e/e/gg", "e/e/e/ggg", "g/g/g/ee", "g/g/g/eee", "ee/ee/gg/gg" }, c.N, c.held, false, 5 );
        family( r, "C16", "mq/childL", 1, o, ops( with( multi( seqs( "ecgl", 1, 2 ), 2 ), "c" ), 2, 4 ), c.N == 1 ? 6 : 7, std::min( c.held, 1 ), true, 12 );
        // C17: exceptions
        family( r, "C17,C20,C23,C25", "mq/ex2", 0, o, ops( with( multi( seqs( "exXbgW", 1, 2 ), 2 ), "xXbW" ), 2, 3 ), c.N, c.held, false, 8 );
        family( r, "C17", "mq/ex22", 1, o, with( multi( seqs( "exXbgW", 2, 2 ), 2 ), "xXbW" ), c.N, c.held, false, 16 );
        family( r, "C17,C18", "mq/exL", c.held > 1, o, ops( with( multi( seqs( "exbgWwol", 1, 2 ), 2 ), "xbWo" ), 2, 3 ), c.N, c.held, true, 8 );
        family( r, "C17", "mq/ex3", c.N > 1, o, with( multi( seqs( "exbgW", 1, 1 ), 3 ), "xbW" ), c.N, c.held, false, 16 );
        family( r, "C17", "mq/ex32pb", 0, Opts( o ).pb( 1 ), ops( with( multi( seqs( "exbgW", 1, 2 ), 3 ), "xbW" ), 4, 4 ), c.N, c.held, false, 4 );
        family( r, "C17", "mq/ex32", 1, o, ops( with( multi( seqs( "exbgW", 1, 2 ), 3 ), "xbW" ), 4, 4 ), c.N, c.held, false, 24 );
        // C20: statistics
        family( r, "C20", "mq/stat", 0, o, ops( with( multi( seqs( "exbgs", 1, 2 ), 2 ), "s" ), 2, 3 ), c.N, c.held, false, 4 );
        family( r, "C20", "mq/stat0", 0, o, ops( multi( seqs( "eg", 1, 2 ), 2 ), 2, 3 ), c.N, c.held, false, 2 );
        family( r, "C20", "mq/stat22", 0, o, with( multi( seqs( "exbgWs", 1, 2 ), 2 ), "s" ), c.N, c.held, false, 16 );
        family( r, "C20", "mq/stat3", c.N > 1, o, multi( seqs( "exbgs", 1, 1 ), 3 ), c.N, c.held, false, 16 );
        family( r, "C20", "mq/stat32pb", 0, Opts( o ).pb( 1 ), ops( with( multi( seqs( "exgWs", 1, 2 ), 3 ), "s" ), 4, 4 ), c.N, c.held, false, 4 );
        family( r, "C20", "mq/stat32", 1, o, ops( with( multi( seqs( "exgWs", 1, 2 ), 3 ), "s" ), 4, 4 ), c.N, c.held, false, 24 );
    }
    // one operation interrupted anywhere by an arbitrary history of others
    for ( auto c : { C{ 1, 0 }, C{ 1, 1 }, C{ 2, 0 }, C{ 2, 1 }, C{ 2, 2 }, C{ 4, 1 } } ) {
        family( r, "C16,C20,C23,C25", "mq/one4", 0, o, prod( seqs( "egpWw", 1, 1 ), seqs( "eg", 3, 4 ) ), c.N, c.held, false, c.N == 4 ? 6 : 2 );
        family( r, "C20,C23", "mq/oneStat4", 0, o, prod( seqs( "s", 1, 1 ), seqs( "egx", 2, 4 ) ), c.N, c.held, false, c.N == 4 ? 6 : 2 );
        family( r, "C17,C25", "mq/oneEx4", 0, o, prod( seqs( "xbW", 1, 1 ), seqs( "eg", 3, 4 ) ), c.N, c.held, false, c.N == 4 ? 6 : 2 );
        family( r, "C17,C20", "mq/ex4One", 0, o, prod( seqs( "eg", 1, 1 ), with( seqs( "exbg", 3, 3 ), "xb" ) ), c.N, c.held, false, c.N == 4 ? 6 : 2 );
        family( r, "C18,C23", "mq/oneLock4", 0, o, prod( seqs( "lgw", 1, 1 ), seqs( "egl", 3, 3 ) ), c.N, c.held, true, 2 );
        family( r, "C19,C23", "mq/oneAbort4", 0, o, prod( seqs( "aD", 1, 1 ), seqs( "eg", 3, 4 ) ), c.N, c.held, false, c.N == 4 ? 6 : 2 );
        family( r, "C19", "mq/abortOne4", 0, o, prod( seqs( "egp", 1, 1 ), with( seqs( "ega", 3, 3 ), "a" ) ), c.N, c.held, false, c.N == 4 ? 6 : 2 );
        family( r, "C16,C20", "mq/one6", 1, o, prod( seqs( "eg", 1, 1 ), seqs( "eg", 5, 6 ) ), c.N, c.held, false, 4 );
        family( r, "C16,C20", "mq/pair4", 1, o, prod( seqs( "eg", 2, 2 ), seqs( "eg", 3, 4 ) ), c.N, c.held, false, 8 );
    }
    for ( auto c : small ) {
        // C18: dispatch lock
        family( r, "C18,C16,C17,C20,C24,C25", "mq/lock2", 0, o, ops( with( multi( seqs( "egbluvV", 1, 2 ), 2 ), "luvV" ), 2, 3 ), c.N, c.held, true, 4 );
        family( r, "C18", "mq/lock3", 0, o, with( multi( seqs( "egl", 1, 1 ), 3 ), "l" ), c.N, c.held, true, 2 );
        family( r, "C18", "mq/disp", 0, o, multi( seqs( "gw", 1, 1 ), 2 ), 4, 1 + c.held, true, 1 );
        family( r, "C18", "mq/nolock", 0, o, multi( seqs( "lg", 1, 1 ), 2 ), c.N, c.held, false, 1 );
        family( r, "C18", "mq/lock22", 0, o, with( multi( seqs( "egWluV", 1, 2 ), 2 ), "luV" ), c.N, c.held, true, 16 );
        family( r, "C18", "mq/lock33", 0, o, with( multi( seqs( "egbluv", 1, 1 ), 3 ), "luv" ), c.N, c.held, true, 16 );
        family( r, "C18", "mq/lock32pb", 0, Opts( o ).pb( 2 ), ops( with( multi( seqs( "eglu", 1, 2 ), 3 ), "lu" ), 4, 4 ), c.N, c.held, true, 4 );
        family( r, "C18", "mq/lock32", 1, o, ops( with( multi( seqs( "egbluv", 1, 2 ), 3 ), "luv" ), 4, 4 ), c.N, c.held, true, 24 );
        family( r, "C18", "mq/lock4", 1, Opts( o ).pb( 3 ), with( multi( seqs( "egl", 1, 1 ), 4 ), "l" ), c.N, c.held, true, 8 );
        // C19: abort, destruction
        for ( bool l : { false, true } ) {
            family( r, "C19,C16,C17,C18", "mq/abort2", 0, o, ops( atMost( with( multi( seqs( "pegba", 1, 2 ), 2 ), "a" ), "a", 2 ), 2, l ? 2 : 3 ), c.N, c.held, l, 4 );
            family( r, "C19,C17,C18,C23", "mq/destroy2", 0, o, ops( prod( { "D" }, seqs( "egbWsnl", 1, 2 ) ), 2, 3 ), c.N, c.held, l, 2 );
            family( r, "C19", "mq/abort22", 0, o, with( multi( seqs( "egbxa", 1, 2 ), 2 ), "a" ), c.N, c.held, l, 16 );
            family( r, "C19", "mq/abort3", 0, o, with( multi( seqs( "egcWla", 1, 1 ), 3 ), "a" ), c.N, c.held, l, 16 );
            family( r, "C19", "mq/destroy3", c.held == 2 || c.held == 3, o, prod( prod( { "D" }, seqs( "egcWsl", 1, 1 ) ), seqs( "egb", 1, 2 ) ), c.N, c.held, l, 16 );
        }
        family( r, "C19", "mq/abort32pb", 0, Opts( o ).pb( 1 ), ops( with( multi( seqs( "egbxa", 1, 2 ), 3 ), "a" ), 4, 4 ), c.N, c.held, false, 4 );
        family( r, "C19", "mq/abort32", 1, o, ops( with( multi( seqs( "egbxa", 1, 2 ), 3 ), "a" ), 4, 4 ), c.N, c.held, false, 24 );
        family( r, "C19", "mq/abort4", 1, Opts( o ).pb( 3 ), with( multi( seqs( "ega", 1, 1 ), 4 ), "a" ), c.N, c.held, false, 8 );
        family( r, "C19", "mq/destroy4", 1, Opts( o ).pb( 3 ), prod( { "D" }, multi( seqs( "eg", 1, 1 ), 3 ) ), c.N, c.held, false, 6 );
        family( r, "C19,C23", "mq/isAborted", 0, o, ops( with( multi( seqs( "eia", 1, 2 ), 2 ), "i" ), 2, 4 ), c.N, c.held, false, 2 );
        family( r, "C19,C23", "mq/isAborted3", 0, o, with( multi( seqs( "gia", 1, 1 ), 3 ), "i" ), c.N, c.held, false, 4 );
        family( r, "C19", "mq/abort3s", 0, o, with( multi( seqs( "ega", 1, 1 ), 3 ), "a" ), c.N, c.held, false, 2 );
        family( r, "C19", "mq/end", 0, o, ops( multi( seqs( "egb", 1, 2 ), 2 ), 2, 3 ), c.N, c.held, false, 2, true );
        // C25: protocol
        family( r, "C25", "mq/proto", 0, o, ops( with( multi( seqs( "embgwWn", 1, 2 ), 2 ), "gwW" ), 2, 3 ), c.N, c.held, false, 8 );
        family( r, "C25", "mq/protoL", 0, o, ops( multi( seqs( "egwnl", 1, 2 ), 2 ), 2, 3 ), c.N, c.held, true, 4 );
        family( r, "C25", "mq/proto32pb", 0, Opts( o ).pb( 1 ), ops( with( multi( seqs( "embgWn", 1, 2 ), 3 ), "gW" ), 4, 4 ), c.N, c.held, c.N == 2, 4 );
        family( r, "C25", "mq/proto22", 1, o, with( multi( seqs( "embgwWn", 2, 2 ), 2 ), "gwW" ), c.N, c.held, false, 32 );
        family( r, "C25", "mq/proto3", c.N > 1, o, with( multi( seqs( "embgWn", 1, 1 ), 3 ), "gW" ), c.N, c.held, true, 16 );
        // C23: data races, C24: heap
        for ( bool l : { false, true } ) {
            family( r, "C23", "mq/race2", 0, o, ops( multi( seqs( l ? "egsnl" : "pegwsn", 1, 2 ), 2 ), 2, 3 ), c.N, c.held, l, 4 );
            family( r, "C23", "mq/race22", 0, o, ops( multi( seqs( l ? "egsnl" : "pegwsn", 1, 2 ), 2 ), 4, 4 ), c.N, c.held, l, 16 );
            family( r, "C23", "mq/race3", c.held == 3, Opts( o ).pb( c.held == 3 ? 3 : -1 ), multi( seqs( l ? "egl" : "egs", 1, 1 ), 3 ), c.N, c.held, l, 4 );
            family( r, "C23", "mq/raceA", 0, o, ops( with( multi( seqs( "egsnla", 1, 2 ), 2 ), "a" ), 2, 3 ), c.N, c.held, l, 4 );
            family( r, "C24", "mq/heap2", 0, o, ops( multi( seqs( l ? "egul" : "pegwsn", 1, 2 ), 2 ), 2, 3 ), c.N, c.held, l, 4 );
            family( r, "C23", "mq/race33", 1, Opts( o ).pb( c.held == 3 ? 3 : -1 ), ops( multi( seqs( "egxbnl", 1, 2 ), 3 ), 4, 5 ), c.N, c.held, l, 32 );
            family( r, "C24", "mq/heap22", 1, o, multi( seqs( "pegwWxbs", 1, 2 ), 2 ), c.N, c.held, l, 16 );
        }
    }
}
