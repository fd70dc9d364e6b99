// User code that throws anything at all, user code that re-enters the library, and perfect forwarding:
// C03 (Semaphore functors), C10 (prime/flush functions), C13 (constructors), C15 (element constructors), C16/C17/C25 (messages)
#include "mem.hpp"
#include "Semaphore.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <cxxabi.h>
#include <future>
#include <ios>
#include <new>
#include <typeinfo>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
// ---- every kind of thing that can be thrown -------------------------------------------------------------------------
struct Derived : SemaphoreAborted { int id; explicit Derived( int i ) : SemaphoreAborted( "derived" ), id( i ) {} };
struct DerivedState : RingBufferStateError { int id; explicit DerivedState( int i ) : RingBufferStateError( "derived" ), id( i ) {} };
struct Big { long v[ 40 ]; explicit Big( int i ) { for ( auto & x : v ) x = i; } };
enum Small : char { S0 = 7 };
const char * const text = "thrown text";
const int KINDS = 23;
const char * const kindName[ KINDS ] = { "user struct", "int", "const char*", "enum", "large struct", "nullptr", "std::runtime_error", "std::logic_error", "std::bad_alloc", "std::system_error", "std::bad_function_call", "std::exception", "SemaphoreAborted", "SemaphoreOverflow", "class derived from SemaphoreAborted", "RingBufferUnderflow", "RingBufferOverflow", "RingBufferStateError", "class derived from RingBufferStateError", "MessageQueueElementSizeError", "ObjectPoolElementSizeError", "std::ios_base::failure", "pointer to an exception" };
[[noreturn]] void raise( int k, int id ) {
    switch ( k ) {
    case 0: throw h::Boom{ id };  case 1: throw id;  case 2: throw text;  case 3: throw S0;  case 4: throw Big( id );  case 5: throw nullptr;
    case 6: throw std::runtime_error( std::to_string( id ) );  case 7: throw std::logic_error( std::to_string( id ) );  case 8: throw std::bad_alloc();
    case 9: throw std::system_error( id, std::generic_category() );  case 10: throw std::bad_function_call();  case 11: throw std::exception();
    case 12: throw SemaphoreAborted( std::to_string( id ).c_str() );  case 13: throw SemaphoreOverflow( std::to_string( id ).c_str() );  case 14: throw Derived( id );
    case 15: throw RingBufferUnderflow( std::to_string( id ).c_str() );  case 16: throw RingBufferOverflow( std::to_string( id ).c_str() );  case 17: throw RingBufferStateError( std::to_string( id ).c_str() );  case 18: throw DerivedState( id );
    case 19: throw MessageQueueElementSizeError( std::to_string( id ).c_str() );  case 20: throw ObjectPoolElementSizeError( std::to_string( id ).c_str() );  case 21: throw std::ios_base::failure( "io" );
    default: static std::runtime_error e( "static" ); throw (std::exception *)&e;
    }
}
// 1 when f throws exactly what raise( k, id ) throws, 0 when it returns; anything else is a violation
template< class F > int caught( int k, int id, const char * where, F f ) {
    const std::type_info * t = nullptr; bool same = false; auto num = [ id ]( const std::exception & e ) { return std::to_string( id ) == e.what(); };
    try { f(); return 0; }
    catch ( const h::Boom & b ) { t = abi::__cxa_current_exception_type(); same = k == 0 && b.id == id; }
    catch ( int v ) { same = k == 1 && v == id; }
    catch ( std::nullptr_t ) { same = k == 5; }
    catch ( const char * s ) { same = k == 2 && s == text; }
    catch ( Small s ) { same = k == 3 && s == S0; }
    catch ( const Big & b ) { same = k == 4; for ( long x : b.v ) same &= x == id; }
    catch ( const std::exception & e ) { t = abi::__cxa_current_exception_type();
        switch ( k ) {
        case 6: same = *t == typeid( std::runtime_error ) && num( e ); break;  case 7: same = *t == typeid( std::logic_error ) && num( e ); break;  case 8: same = *t == typeid( std::bad_alloc ); break;
        case 9: same = *t == typeid( std::system_error ) && static_cast< const std::system_error & >( e ).code().value() == id; break;  case 10: same = *t == typeid( std::bad_function_call ); break;  case 11: same = *t == typeid( std::exception ); break;
        case 12: same = *t == typeid( SemaphoreAborted ) && num( e ); break;  case 13: same = *t == typeid( SemaphoreOverflow ) && num( e ); break;  case 14: same = *t == typeid( Derived ) && static_cast< const Derived & >( e ).id == id; break;
        case 15: same = *t == typeid( RingBufferUnderflow ) && num( e ); break;  case 16: same = *t == typeid( RingBufferOverflow ) && num( e ); break;  case 17: same = *t == typeid( RingBufferStateError ) && num( e ); break;  case 18: same = *t == typeid( DerivedState ) && static_cast< const DerivedState & >( e ).id == id; break;
        case 19: same = *t == typeid( MessageQueueElementSizeError ) && num( e ); break;  case 20: same = *t == typeid( ObjectPoolElementSizeError ) && num( e ); break;  case 21: same = *t == typeid( std::ios_base::failure ); break;
        } }
    catch ( std::exception * p ) { same = k == 22 && !strcmp( p->what(), "static" ); }
    catch ( ... ) {}
    MC_CHECK( same, "%s: user code threw %s, the caller received something else (%s)", where, kindName[ k ], t ? t->name() : "?" );
    return 1;
}
// one representative of each way exceptions can be told apart, for the scenarios with many schedules
const int FEW[] = { 0, 1, 6, 10, 12, 13, 17, 15 }; constexpr int NFEW = sizeof FEW / sizeof *FEW;

// ---- Semaphore --------------------------------------------------------------------------------------------------------
struct { int runs, done, waiting; } sv;
void semExc() {
    int k = mc::choose( KINDS ); bool give = mc::choose( 2 ); int pre = mc::choose( 3 ), form = mc::choose( 2 );
    // pre 0: goes through at once; 1: blocked until the other side acts; 2: there is a competitor
    size_t init = give ? ( pre == 1 ? 2 : 1 ) : ( pre == 1 ? 0 : 1 ); char ctx[ 100 ]; { mc::Quiet z; snprintf( ctx, sizeof ctx, "%s with a functor", give ? "give" : "take" ); }
    Semaphore s( init, 2 ); h::Par p; const char * c = ctx;
    auto fn = [ k ] { { mc::Quiet z; ++sv.runs; } raise( k, 41 ); };
    p.go( [ & ] { int r = caught( k, 41, c, [ & ] { if ( form ) { Semaphore::FunctionType f( std::ref( fn ) ); if ( give ) s.give( f ); else s.take( f ); } else if ( give ) s.give( fn ); else s.take( fn ); } ); MC_CHECK( r == 1, "%s: an exception (%s) was swallowed", c, kindName[ k ] ); mc::Quiet z; ++sv.done; } );
    if ( pre == 1 ) p.go( [ & ] { if ( give ) s.take(); else s.give(); mc::Quiet z; ++sv.done; } );
    if ( pre == 2 ) { p.go( [ & ] { if ( give ) s.give(); else s.take(); mc::Quiet z; ++sv.done; } ); }
    mc::wait_quiescent();
    { mc::Quiet z; if ( sv.done != 1 + ( pre == 1 || pre == 2 ) ) { sv.waiting = 1; } }
    bool stuck; { mc::Quiet z; stuck = sv.waiting; }
    // the competitor may have been first; then the throwing call waits until the other side acts once more
    long want = (long)init + ( pre == 1 ? ( give ? -1 : 1 ) : pre == 2 ? ( give ? 1 : -1 ) : 0 );
    if ( stuck ) { MC_CHECK( pre == 2, "%s is stranded after an exception (%s)", c, kindName[ k ] ); if ( give ) s.take(); else s.give(); want += give ? -1 : 1; mc::wait_quiescent(); }
    { mc::Quiet z; MC_CHECK( sv.done == 1 + ( pre > 0 ), "a call is stranded after %s threw %s", c, kindName[ k ] ); MC_CHECK( sv.runs == 1, "the functor ran %d times (%s)", sv.runs, kindName[ k ] ); }
    p.join(); MC_CHECK( (long)s.getAvailableCount() == want, "the count is %zu after %s threw %s, expected %ld", s.getAvailableCount(), c, kindName[ k ], want );
    // fully usable: down to nothing, up to the maximum and one more of each blocks
    for ( long i = want; i > 0; --i ) s.take();
    int n = 0; p.go( [ & ] { s.take(); mc::Quiet z; ++n; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( !n, "more units than expected after %s threw %s", c, kindName[ k ] ); } s.give(); p.join();
    s.give(); s.give(); p.go( [ & ] { s.give(); mc::Quiet z; ++n; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( n == 1, "more room than expected after %s threw %s", c, kindName[ k ] ); } s.take(); p.join();
    mc::outcome( k * 100 + give * 10 + pre * 2 + stuck );
}
// any number of failures in a row leaves no trace
void semMany() {
    Semaphore s( 1, 2 ); int k = mc::choose( KINDS );
    for ( int i = 0; i < 300; ++i ) { MC_CHECK( caught( k, i, "take", [ & ] { s.take( [ & ] { raise( k, i ); } ); } ) && caught( k, i, "give", [ & ] { s.give( [ & ] { raise( k, i ); } ); } ), "an exception (%s) was swallowed", kindName[ k ] ); MC_CHECK( s.getAvailableCount() == 1, "the count is %zu after %d failures (%s)", s.getAvailableCount(), i + 1, kindName[ k ] ); }
    bool blocked = true; h::Par p; s.take(); p.go( [ & ] { s.take(); mc::Quiet z; blocked = false; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( blocked, "take succeeds without a unit" ); } s.give(); p.join(); mc::outcome( k );
}
// ---- RingBufferGuarded ------------------------------------------------------------------------------------------------
void ringExc() {
    int k = mc::choose( KINDS ), n = 1 + mc::choose( 5 ), at = mc::choose( n ), what = mc::choose( 2 );
    if ( what ) { // flush, with rolled-over contents
        RingBufferGuarded< int > b( n ); int roll = mc::choose( 3 ); for ( int i = 0; i < roll; ++i ) { b.put( 90 + i ); b.get(); } for ( int i = 0; i < n; ++i ) b.put( i ); b.abort(); int next = 0;
        MC_CHECK( caught( k, 5, "flush", [ & ] { b.flush( [ & ]( int v ) { MC_CHECK( v == next, "flush handed over %d, expected %d", v, next ); ++next; if ( v == at ) raise( k, 5 ); } ); } ), "flush swallowed an exception (%s)", kindName[ k ] );
        MC_CHECK( next == at + 1, "flush went on after an exception (%s)", kindName[ k ] );
        b.flush( [ & ]( int v ) { MC_CHECK( v == next, "flush after an exception handed over %d, expected %d (%s)", v, next, kindName[ k ] ); ++next; } ); MC_CHECK( next == n, "flush after an exception lost values (%s)", kindName[ k ] );
        b.flush( []( int ) { mc::fail( "flush hands over a value twice" ); } ); mc::outcome( k * 50 + n * 8 + at );
    } else {      // prime: the exception arrives, the buffer is not ready
        RingBufferGuarded< int > b( n, true ); int next = 0;
        MC_CHECK( caught( k, 6, "prime", [ & ] { b.prime( [ & ]( size_t i ) { MC_CHECK( (int)i == next, "priming index %zu, expected %d", i, next ); ++next; if ( (int)i == at ) raise( k, 6 ); return (int)i; } ); } ), "prime swallowed an exception (%s)", kindName[ k ] );
        MC_CHECK( next == at + 1, "prime went on after an exception (%s)", kindName[ k ] );
        for ( int i = 0; i < 2; ++i ) { bool bad = true; try { if ( i ) b.put( 1 ); else b.get(); } catch ( const RingBufferStateError & ) { bad = false; } MC_CHECK( !bad, "%s succeeds although prime failed (%s)", i ? "put" : "get", kindName[ k ] ); }
        b.abort(); bool thrown = false; try { b.get(); } catch ( const std::runtime_error & ) { thrown = true; } MC_CHECK( thrown, "get succeeds after abort" ); mc::outcome( k * 50 + n * 8 + at );
    }
}
// ---- ObjectPool -------------------------------------------------------------------------------------------------------
struct { int born, dead, alive; } ov;
struct Obj {
    int id, live; virtual ~Obj() { if ( live ) { mc::Quiet z; ++ov.dead; --ov.alive; h::leave( this ); } live = 0; }
    Obj( int i, int k ) : id( i ), live( 0 ) { { mc::Quiet z; ++ov.born; } if ( k >= 0 ) raise( k, i ); { mc::Quiet z; ++ov.alive; } h::enter( this, sizeof *this ); live = 1; }
};
// fails after its base was constructed: the base is destroyed
struct Late : Obj { long x[ 3 ]; Late( int i, int k ) : Obj( i, -1 ) { if ( k >= 0 ) raise( k, i ); x[ 0 ] = 4; } };
// a member fails after another member was constructed
struct Part { int * n; explicit Part( int * p ) : n( p ) { ++*n; } ~Part() { --*n; } };
struct Members : Obj { Part a; struct Bad { Bad( int k, int i ) { if ( k >= 0 ) raise( k, i ); } } b; Members( int i, int k, int * n ) : Obj( i, -1 ), a( n ), b( k, i ) {} };
void poolExc() {
    int k = mc::choose( KINDS ), req = 2 << mc::choose( 2 ), fill = mc::choose( req ), kind = mc::choose( 3 ); int parts = 0;
    ObjectPool< Obj > p( req, sizeof( Members ) + sizeof( Late ) ); std::vector< ObjectPool< Obj >::ObjectPtrType > v( req ); { mc::Quiet z; h::mem.ctx = "exceptions"; }
    for ( int i = 0; i < fill; ++i ) v[ i ] = p.createObj< Obj >( i, -1 );
    for ( int round = 0; round < 2 * req + 1; ++round ) {
        int r = caught( k, round, "createObj", [ & ] { if ( kind == 0 ) p.createObj< Obj >( round, k ); else if ( kind == 1 ) p.createObj< Late >( round, k ); else p.createObj< Members >( round, k, &parts ); } );
        MC_CHECK( r == 1, "createObj swallowed an exception (%s)", kindName[ k ] ); auto s = p.getRunningStateStatistics();
        mc::Quiet z; MC_CHECK( ov.alive == fill && parts == 0, "%d objects and %d members alive after a failed construction, expected %d and none (%s)", ov.alive, parts, fill, kindName[ k ] ); MC_CHECK( ov.born == fill + round + 1, "%d constructions for %d requests", ov.born, fill + round + 1 );
        MC_CHECK( (int)s.runningCount == req - fill, "a failed construction lost a block: %u free, expected %d (%s)", s.runningCount, req - fill, kindName[ k ] );
    }
    for ( int i = fill; i < req; ++i ) v[ i ] = p.createObj< Obj >( i, -1 );
    bool under = false; int born; { mc::Quiet z; born = ov.born; } try { p.createObj< Obj >( 99, k ); } catch ( const RingBufferUnderflow & ) { under = true; } catch ( ... ) {} { mc::Quiet z; MC_CHECK( under && ov.born == born, "the constructor ran although the pool is exhausted" ); }
    v.clear(); { mc::Quiet z; MC_CHECK( ov.alive == 0, "%d objects never destroyed", ov.alive ); } mc::outcome( k * 100 + req * 10 + fill );
}
// objects that own objects of the same pool: constructors and destructors re-enter it
struct Node { ObjectPoolPtrType< Node > left, right; int depth; virtual ~Node() { mc::Quiet z; --ov.alive; ++ov.dead; h::leave( this ); }
    Node( ObjectPool< Node > & p, int d, int fan, int k, int at ) : depth( d ) {
        bool ok = false; { mc::Quiet z; ++ov.alive; ++ov.born; } h::enter( this, sizeof *this ); struct G { Node * n; bool & ok; ~G() { if ( !ok ) { mc::Quiet z; --ov.alive; ++ov.dead; h::leave( n ); } } } g{ this, ok };
        if ( d ) { left = p.createObj< Node >( p, d - 1, fan, k, at ); if ( fan > 1 ) right = p.createObj< Node >( p, d - 1, fan, k, at ); }
        if ( k >= 0 && d == at ) raise( k, d ); ok = true; } };
void poolNested() {
    int req = 2 << mc::choose( 3 ), fan = 1 + mc::choose( 2 ), depth = mc::choose( 5 ), k = mc::choose( 4 ), at = mc::choose( depth + 1 ); k = k ? FEW[ k ] : -1; { mc::Quiet z; h::mem.ctx = "nested objects"; }
    int need = fan == 1 ? depth + 1 : ( 2 << depth ) - 1; ObjectPool< Node > * p = new ObjectPool< Node >( req );
    for ( int round = 0; round < 2; ++round ) {
        ObjectPoolPtrType< Node > root; bool under = false, boom = false;
        if ( k < 0 ) { try { root = p->createObj< Node >( *p, depth, fan, k, at ); } catch ( const RingBufferUnderflow & ) { under = true; } MC_CHECK( under == ( need > req ), "%d nested objects in a pool of %d: %s", need, req, under ? "refused" : "accepted" ); }
        else if ( need <= req ) { boom = caught( k, at, "nested createObj", [ & ] { root = p->createObj< Node >( *p, depth, fan, k, at ); } ); MC_CHECK( boom, "an exception was swallowed" ); }
        int alive; { mc::Quiet z; alive = ov.alive; } auto s = p->getRunningStateStatistics();
        MC_CHECK( alive == ( root ? need : 0 ), "%d nested objects alive, expected %d", alive, root ? need : 0 ); MC_CHECK( (int)s.runningCount == req - alive, "%u blocks free with %d of %d in use", s.runningCount, alive, req );
        root.reset(); { mc::Quiet z; MC_CHECK( ov.alive == 0 && ov.born == ov.dead, "%d nested objects were not destroyed", ov.alive ); } s = p->getRunningStateStatistics(); MC_CHECK( (int)s.runningCount == req, "%u of %d blocks free after everything was destroyed", s.runningCount, req );
    }
    delete p; mc::outcome( req * 100 + depth * 10 + fan * 3 + ( k >= 0 ) );
}
// ---- BlockPool --------------------------------------------------------------------------------------------------------
struct { int at, kind, next; } bv;
struct Elem { int id; long pad; Elem() : pad( 3 ) { { mc::Quiet z; id = bv.next++; } if ( id == bv.at ) raise( bv.kind, id ); mc::Quiet z; ++ov.alive; } ~Elem() { mc::Quiet z; --ov.alive; } };
void blockExc() {
    int k = mc::choose( KINDS ), req = 2 << mc::choose( 2 ), len = 1 + mc::choose( 4 ), at = mc::choose( len ), fill = mc::choose( req );
    BlockPool< Elem > p( req, len ); std::vector< BlockPool< Elem >::BlockPtrType > v( req ); { mc::Quiet z; bv.at = -1; bv.kind = k; }
    for ( int i = 0; i < fill; ++i ) v[ i ] = p.getBlock();
    for ( int round = 0; round < 2 * req + 1; ++round ) {
        int id; { mc::Quiet z; id = bv.at = bv.next + at; } MC_CHECK( caught( k, id, "getBlock", [ & ] { p.getBlock(); } ), "getBlock swallowed an exception (%s)", kindName[ k ] ); auto s = p.getRunningStateStatistics();
        mc::Quiet z; MC_CHECK( ov.alive == fill * len && bv.next == id + 1, "%d elements alive after a failed construction, expected %d (%s)", ov.alive, fill * len, kindName[ k ] ); MC_CHECK( (int)s.runningCount == req - fill, "a failed construction lost a block (%s)", kindName[ k ] );
    }
    { mc::Quiet z; bv.at = -1; } for ( int i = fill; i < req; ++i ) v[ i ] = p.getBlock(); { mc::Quiet z; MC_CHECK( ov.alive == req * len, "%d elements alive with %d blocks of %d in use", ov.alive, req, len ); }
    bool under = false; try { p.getBlock(); } catch ( const RingBufferUnderflow & ) { under = true; } MC_CHECK( under, "more blocks than the pool has" );
    v.clear(); { mc::Quiet z; MC_CHECK( ov.alive == 0, "%d elements never destroyed", ov.alive ); } mc::outcome( k * 1000 + req * 100 + len * 10 + at );
}
// ---- MessageQueue -----------------------------------------------------------------------------------------------------
enum Site { NONE, CTOR, MOVE, DISP, NAME, WAKE };
struct { int alive, born, log[ 64 ], n, through; } qv;
struct Msg : MessageBase {
    int id, site, kind, live;
    void born() { mc::Quiet z; ++qv.alive; ++qv.born; h::enter( this, sizeof *this ); } void gone() { live = 0; mc::Quiet z; --qv.alive; h::leave( this ); }
    struct Tmp {}; Msg( Tmp, int i, int s, int k ) : id( i ), site( s ), kind( k ), live( 0 ) {}
    Msg( int i, int s, int k ) : id( i ), site( s ), kind( k ), live( 1 ) { born(); if ( s == CTOR ) { gone(); raise( k, i ); } }
    Msg( Msg && o ) : id( o.id ), site( o.site ), kind( o.kind ), live( 1 ) { born(); if ( site == MOVE ) { gone(); raise( kind, id ); } }
    ~Msg() override { if ( live ) gone(); }
    const char * name() const override { if ( site == NAME ) raise( kind, id ); return "msg"; }
    void dispatch() override { { mc::Quiet z; qv.log[ qv.n++ % 64 ] = id; } if ( site == DISP ) raise( kind, id ); }
};
struct Count : MessageBase { void dispatch() override { mc::Quiet z; ++qv.through; } };
void mqExc( bool par, bool every ) {
    int k = par && !every ? FEW[ mc::choose( NFEW ) ] : mc::choose( KINDS ), site = CTOR + mc::choose( 5 ), N = par ? 1 + mc::choose( 2 ) : 1 + mc::choose( 3 ); bool lockable = mc::choose( 2 ); int fill = par ? N - 1 : mc::choose( N ); { mc::Quiet z; h::mem.ctx = "exceptions"; }
    MessageQueue * q = new MessageQueue( N, sizeof( Msg ), lockable ); const char * const where[] = { "", "message constructor", "message move constructor", "dispatch", "name", "wake-up functor" };
    for ( int round = 0; round < ( par ? 1 : 2 * N + 1 ); ++round ) {
        for ( int i = 0; i < fill; ++i ) q->emplace< Msg >( i, NONE, 0 );
        h::Par p; bool early = par && ( site == CTOR || site == MOVE );
        // somebody else waits for the slot that the failing call must give back
        if ( early ) p.go( [ q, k, site ] { int r = caught( k, 77, site == CTOR ? "emplace" : "put", [ & ] { if ( site == CTOR ) q->emplace< Msg >( 77, site, k ); else { Msg m( Msg::Tmp{}, 77, site, k ); q->put( std::move( m ) ); } } ); MC_CHECK( r == 1, "an exception was swallowed" ); } );
        else if ( site == CTOR || site == MOVE ) { int r = caught( k, 77, where[ site ], [ & ] { if ( site == CTOR ) q->emplace< Msg >( 77, site, k ); else { Msg m( Msg::Tmp{}, 77, site, k ); q->put( std::move( m ) ); } } ); MC_CHECK( r == 1, "an exception of the %s was swallowed (%s)", where[ site ], kindName[ k ] ); }
        else q->emplace< Msg >( 77, site, k );
        if ( par ) { p.go( [ q ] { q->emplace< Count >(); mc::Quiet z; ++qv.through; } ); if ( !early ) p.go( [ q, site, k, fill, where ] { for ( int i = 0; i < fill; ++i ) q->getAndDispatch(); int r = caught( k, 77, where[ site ], [ & ] { if ( site == WAKE ) q->getAndDispatch( [ k ] { raise( k, 77 ); } ); else q->getAndDispatch(); } ); MC_CHECK( r == 1, "an exception was swallowed" ); } );
            mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( qv.through == 1, "a producer stays blocked after the %s threw %s", where[ site ], kindName[ k ] ); }
            while ( q->getRunningStateStatistics().runningCount ) { q->getAndDispatch(); mc::wait_quiescent(); }   // (the failing call may have come second and wait for a slot)
            p.join(); { mc::Quiet z; MC_CHECK( qv.through == 2, "the message of the blocked producer was lost" ); } }
        else {
            for ( int i = 0; i < fill; ++i ) q->getAndDispatch();
            if ( site >= DISP ) { int r = caught( k, 77, where[ site ], [ & ] { if ( site == WAKE ) q->getAndDispatch( [ k ] { raise( k, 77 ); } ); else q->getAndDispatch(); } ); MC_CHECK( r == 1, "an exception of the %s was swallowed (%s)", where[ site ], kindName[ k ] ); }
            mc::Quiet z; MC_CHECK( qv.n == fill + ( site == DISP ), "%d messages dispatched, expected %d (%s threw %s)", qv.n, fill + ( site == DISP ), where[ site ], kindName[ k ] ); for ( int i = 0; i < qv.n; ++i ) MC_CHECK( qv.log[ i ] == ( i < fill ? i : 77 ), "message %d dispatched out of order", qv.log[ i ] ); qv.n = 0;
        }
        auto s = q->getRunningStateStatistics(); mc::Quiet z; MC_CHECK( qv.alive == 0 && h::mem.count == 0, "%d messages are never destroyed after the %s threw %s", qv.alive, where[ site ], kindName[ k ] ); MC_CHECK( s.runningCount == 0, "runningCount is %u with an empty queue after the %s threw %s", s.runningCount, where[ site ], kindName[ k ] );
    }
    for ( int i = 0; i < N; ++i ) q->emplace< Msg >( i, NONE, 0 );
    { h::Par p; int through; { mc::Quiet z; through = qv.through; } p.go( [ q ] { q->emplace< Count >(); mc::Quiet z; ++qv.through; } ); mc::wait_quiescent(); { mc::Quiet z; MC_CHECK( qv.through == through, "the capacity grew after exceptions" ); qv.n = 0; } q->getAndDispatch(); p.join(); for ( int i = 0; i < N; ++i ) q->getAndDispatch(); mc::Quiet z; MC_CHECK( qv.n == N, "%d of %d messages dispatched", qv.n, N ); }
    delete q; mc::Quiet z; MC_CHECK( qv.alive == 0, "%d messages leaked", qv.alive ); mc::outcome( k * 100 + site * 10 + N );
}
// messages whose constructor, wake-up functor or dispatch uses the queue itself or a second one: what is enqueued from there is delivered in the order in which it was enqueued
struct Re : MessageBase {
    MessageQueue * q; int id, in, disp;      // ids to be enqueued during construction / during dispatch (0: nothing); bit 6: through put
    void add( int x ) { if ( !x ) return; if ( x & 64 ) { Re m( nullptr, x & 63, 0, 0 ); m.q = q; q->put( std::move( m ) ); } else q->emplace< Re >( q, x, 0, 0 ); }
    Re( MessageQueue * p, int i, int c, int d ) : q( p ), id( i ), in( 0 ), disp( d ) { if ( p ) { { mc::Quiet z; ++qv.alive; } h::enter( this, sizeof *this ); in = 1; add( c ); } }
    Re( Re && o ) : q( o.q ), id( o.id ), in( 1 ), disp( o.disp ) { { mc::Quiet z; ++qv.alive; } h::enter( this, sizeof *this ); }
    ~Re() override { if ( in ) { mc::Quiet z; --qv.alive; h::leave( this ); } }
    void dispatch() override { { mc::Quiet z; qv.log[ qv.n++ % 64 ] = id; } add( disp ); }
};
void mqNested() {
    int N = 3 + mc::choose( 3 ), c = mc::choose( 3 ), d = mc::choose( 3 ), w = mc::choose( 3 ); bool lockable = mc::choose( 2 ); { mc::Quiet z; h::mem.ctx = "nested"; }
    MessageQueue * q = new MessageQueue( N, sizeof( Re ), lockable ); auto arg = []( int sel, int id ) { return sel == 0 ? 0 : sel == 1 ? id : id | 64; };
    int id = 1, expect[ 64 ], ne = 0;
    for ( int round = 0; round < 2 * N; ++round ) {
        int self = id, inner = id + 1, later = id + 2, woken = id + 3; id = id >= 52 ? 1 : id + 4; ne = 0; { mc::Quiet z; qv.n = 0; }
        q->emplace< Re >( q, self, arg( c, inner ), arg( d, later ) ); if ( c ) expect[ ne++ ] = inner; expect[ ne++ ] = self;
        auto wake = [ & ] { if ( w == 1 ) q->emplace< Re >( q, woken, 0, 0 ); if ( w == 2 ) { Re m( nullptr, woken, 0, 0 ); m.q = q; q->put( std::move( m ) ); } };
        int before = ne; for ( int i = 0; i < before; ++i ) if ( i == before - 1 ) q->getAndDispatch( std::ref( wake ) ); else q->getAndDispatch();
        if ( w ) expect[ ne++ ] = woken; if ( d ) expect[ ne++ ] = later; auto s = q->getRunningStateStatistics(); MC_CHECK( (int)s.runningCount == ne - before, "runningCount is %u, %d messages were enqueued from within the queue", s.runningCount, ne - before );
        for ( int i = before; i < ne; ++i ) q->getAndDispatch();
        mc::Quiet z; MC_CHECK( qv.n == ne, "%d messages dispatched, expected %d", qv.n, ne ); for ( int i = 0; i < ne; ++i ) MC_CHECK( qv.log[ i ] == expect[ i ], "message %d dispatched, expected %d", qv.log[ i ], expect[ i ] ); MC_CHECK( qv.alive == 0, "%d messages not destroyed", qv.alive );
    }
    delete q; mc::outcome( N * 100 + c * 10 + d * 3 + w );
}
// ---- perfect forwarding -----------------------------------------------------------------------------------------------
struct Probe { int v, copies, moves; explicit Probe( int x ) : v( x ), copies( 0 ), moves( 0 ) {} Probe( const Probe & o ) : v( o.v ), copies( o.copies + 1 ), moves( o.moves ) {} Probe( Probe && o ) noexcept : v( o.v ), copies( o.copies ), moves( o.moves + 1 ) { o.v = -1; } };
struct Cat { char cat; const Probe * at; Probe * out; };
Cat cat_; int fwdSeen, fwdGone;
template< class B > struct Fwd : B {
    std::unique_ptr< int > up; std::string s; int n = 0; int * ref = nullptr;
    Fwd() : n( 1 ) {}
    explicit Fwd( Probe & p ) : n( 2 ) { mc::Quiet z; cat_ = Cat{ '&', &p, &p }; p.v = 99; }
    explicit Fwd( const Probe & p ) : n( 3 ) { mc::Quiet z; cat_ = Cat{ 'c', &p, nullptr }; }
    explicit Fwd( Probe && p ) : n( 4 ) { mc::Quiet z; cat_ = Cat{ 'r', &p, nullptr }; p.v = -1; }
    Fwd( std::unique_ptr< int > u, int & r, const char ( &lit )[ 4 ], std::string t ) : up( std::move( u ) ), s( std::move( t ) ), n( 5 ), ref( &r ) { s += lit; r = 17; }
    Fwd( int a, double b, char c, bool d, long long e, unsigned short f, const void * g, float x ) : n( 6 ) { MC_CHECK( a == -5 && b == 2.5 && c == 'q' && d && e == -1234567890123ll && f == 65535 && g == &fwdSeen && x == 0.25f, "arguments changed on their way" ); }
    Fwd( Fwd && o ) noexcept : up( std::move( o.up ) ), s( std::move( o.s ) ), n( o.n ), ref( o.ref ) { o.n = 0; }
    ~Fwd() { mc::Quiet z; if ( n ) ++fwdGone; }
};
struct FObjBase { virtual ~FObjBase() = default; };
struct FObj : Fwd< FObjBase > { using Fwd::Fwd; };
struct FMsg : Fwd< MessageBase > { using Fwd::Fwd; FMsg( FMsg && ) = default; FMsg() = default; void dispatch() override { mc::Quiet z; fwdSeen = n; } };
template< class Make > void fwdChecks( const char * what, Make make ) {
    Probe p( 1 ); const Probe & cp = p; int r = 0;
    auto is = [ & ]( char c, const Probe * at ) { mc::Quiet z; MC_CHECK( cat_.cat == c && ( !at || cat_.at == at ), "%s: a constructor argument lost its value category or was copied (%c, expected %c)", what, cat_.cat, c ); cat_ = Cat{}; };
    make( [ & ]( auto f ) { f(); }, 1 );
    make( [ & ]( auto f ) { f( p ); }, 2 ); is( '&', &p ); MC_CHECK( p.v == 99 && !p.copies && !p.moves, "%s: an lvalue argument was not passed by reference", what );
    make( [ & ]( auto f ) { f( cp ); }, 3 ); is( 'c', &p ); MC_CHECK( p.v == 99, "%s: a const argument changed", what );
    make( [ & ]( auto f ) { f( std::move( p ) ); }, 4 ); is( 'r', &p ); MC_CHECK( p.v == -1, "%s: an rvalue argument was copied", what );
    make( [ & ]( auto f ) { f( std::unique_ptr< int >( new int( 3 ) ), r, "abc", std::string( "xyz" ) ); }, 5 ); MC_CHECK( r == 17, "%s: an lvalue argument was not passed by reference", what );
    make( [ & ]( auto f ) { f( -5, 2.5, 'q', true, -1234567890123ll, (unsigned short)65535, (const void *)&fwdSeen, 0.25f ); }, 6 );
}
void fwdPool() {
    ObjectPool< FObjBase > p( 2, sizeof( FObj ) ); int made = 0;
    fwdChecks( "createObj", [ & ]( auto call, int want ) { ObjectPool< FObjBase >::ObjectPtrType o; call( [ & ]( auto &&... a ) { o = p.createObj< FObj >( std::forward< decltype( a ) >( a )... ); } ); FObj * f = static_cast< FObj * >( o.get() ); MC_CHECK( f->n == want, "createObj chose constructor %d, expected %d", f->n, want ); if ( want == 5 ) MC_CHECK( f->up && *f->up == 3 && f->s == "xyzabc", "createObj: arguments did not arrive" ); ++made; o.reset(); mc::Quiet z; MC_CHECK( fwdGone == made, "%d objects destroyed, expected %d", fwdGone, made ); } );
    mc::outcome( 1 );
}
void fwdQueue() {
    MessageQueue q( 2, sizeof( FMsg ) ); int made = 0;
    fwdChecks( "emplace", [ & ]( auto call, int want ) { call( [ & ]( auto &&... a ) { q.emplace< FMsg >( std::forward< decltype( a ) >( a )... ); } ); q.getAndDispatch(); ++made; mc::Quiet z; MC_CHECK( fwdSeen == want && fwdGone == made, "emplace chose constructor %d, expected %d", fwdSeen, want ); } );
    // put moves: what the message owns arrives, the source is left empty
    int r = 0; FMsg m( std::unique_ptr< int >( new int( 8 ) ), r, "abc", std::string( 200, 'y' ) ); const void * own = m.up.get(); q.put( std::move( m ) ); MC_CHECK( !m.up && m.n == 0, "put copies or does not take over what the message owns" ); q.getAndDispatch(); { mc::Quiet z; MC_CHECK( fwdSeen == 5 && fwdGone == made + 1, "the message moved into the queue is not the one dispatched" ); } (void)own;
    q.put( FMsg{} ); q.getAndDispatch(); { mc::Quiet z; MC_CHECK( fwdSeen == 1, "a temporary message is not the one dispatched" ); }
    mc::outcome( 2 );
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts one = Opts().one(), o;
    r.add( "C01,C03", "exc/sem/all", 0, one, [] { semExc(); } );
    r.add( "C01,C03", "exc/sem/many", 0, one, [] { semMany(); } );
    r.add( "C03", "exc/sem/schedAll", 0, Opts().sp( 1 ), [] { semExc(); } );
    r.add( "C10", "exc/ring", 0, one, [] { ringExc(); } );
    r.add( "C11,C13,C14", "exc/pool", 0, one, [] { poolExc(); } );
    r.add( "C11,C12,C13,C14", "exc/poolNested", 0, one, [] { poolNested(); } );
    r.add( "C11,C14,C15", "exc/block", 0, one, [] { blockExc(); } );
    r.add( "C16,C17,C18,C20,C25", "exc/mq", 0, one, [] { mqExc( false, true ); } );
    r.add( "C17,C18,C20,C23,C25", "exc/mqSched", 0, o, [] { mqExc( true, false ); } );
    r.add( "C17", "exc/mqSchedAll", 1, Opts().sp( 1 ), [] { mqExc( true, true ); } );
    r.add( "C16,C17,C20,C25", "exc/mqNested", 0, one, [] { mqNested(); } );
    r.add( "C13", "exc/fwdPool", 0, one, [] { fwdPool(); } );
    r.add( "C16,C17,C25", "exc/fwdQueue", 0, one, [] { fwdQueue(); } );
}
