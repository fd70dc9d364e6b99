// Mutex: C06 (mutual exclusion, hand-over, error reporting), C23, C24
#include "common.hpp"
#include "Mutex.hpp"
#include <cerrno>
#include <mutex>
#include <pthread.h>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
// alphabet:  L lock + section + unlock   G the same with std::lock_guard   T try_lock, section and unlock when it succeeded
//            U unique_lock( try_to_lock )   D defer_lock + lock + unlock + lock
struct W { h::Hist hs; int inside; int now[ 8 ]; const char * prog; int entries; };
W w; int shared[ 3 ];                       // written only inside the section: read by the race detector
bool step( int & held, const h::Hist::Op & o ) {
    switch ( o.kind ) { case 'l': if ( held ) return false; held = 1; return true;
        case 'u': if ( !held ) return false; held = 0; return true;
        case 't': if ( o.ret ) { if ( held ) return false; held = 1; return true; } return held != 0; }
    return false;
}
void section() {
    { mc::Quiet q; MC_CHECK( w.inside == 0, "two threads are inside the section protected by the Mutex (%s)", w.prog ); w.inside = 1; ++w.entries; }
    int v = shared[ 0 ]; mc::point(); shared[ 0 ] = v + 1; shared[ 1 ] = shared[ 0 ]; MC_CHECK( shared[ 2 ] == v, "a write made by a former holder is not visible (%s)", w.prog ); shared[ 2 ] = v + 1;
    { mc::Quiet q; w.inside = 0; }
}
struct Rec {            // BasicLockable recording the operations
    Mutex & m; int t;
    void lock() { int i = w.hs.inv( 'l' ); { mc::Quiet q; w.now[ t ] = 'l'; } uint64_t he = mc::heap_events(); m.lock(); if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "lock used the heap" ); { mc::Quiet q; w.now[ t ] = 0; } w.hs.res( i, 1 ); }
    bool try_lock() { int i = w.hs.inv( 't' ); { mc::Quiet q; w.now[ t ] = 't'; } uint64_t he = mc::heap_events(); bool b = m.try_lock(); if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "try_lock used the heap" ); { mc::Quiet q; w.now[ t ] = 0; } w.hs.res( i, b ); return b; }
    void unlock() { int i = w.hs.inv( 'u' ); uint64_t he = mc::heap_events(); m.unlock(); if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "unlock used the heap" ); w.hs.res( i, 1 ); }
};
void run( Mutex & m, const char * p, int t ) {
    Rec r{ m, t };
    for ( ; *p && *p != '/'; ++p ) {
        switch ( *p ) {
        case 'L': r.lock(); section(); r.unlock(); break;
        case 'G': { std::lock_guard< Rec > g( r ); section(); } break;
        case 'T': if ( r.try_lock() ) { section(); r.unlock(); } break;
        case 'U': { std::unique_lock< Rec > u( r, std::try_to_lock ); if ( u ) section(); } break;
        case 'D': { std::unique_lock< Rec > u( r, std::defer_lock ); u.lock(); section(); u.unlock(); u.lock(); section(); } break;
        }
        mc::point();
    }
}
void drive( const char * prog, bool hold ) {
    { mc::Quiet q; w.prog = prog; }
    Mutex m; Rec me{ m, 7 };
    h::Par p; int t = 0; const char * q = prog; Mutex * mp = &m;
    if ( hold ) me.lock();
    for ( ;; ) { const char * part = q; int tt = t++; p.go( [ mp, part, tt ] { run( *mp, part, tt ); } ); while ( *q && *q != '/' ) ++q; if ( !*q ) break; ++q; }
    if ( hold ) {
        mc::wait_quiescent();
        { mc::Quiet z; MC_CHECK( w.entries == 0, "section entered while the Mutex is held (%s)", prog ); for ( int i = 0; i < 7; ++i ) MC_CHECK( w.now[ i ] != 't', "try_lock blocks while the Mutex is held (%s)", prog ); }
        section(); me.unlock();
    }
    mc::wait_quiescent(); { mc::Quiet z; for ( int i = 0; i < 7; ++i ) MC_CHECK( !w.now[ i ], "a thread is still waiting for a Mutex nobody holds (%s)", prog ); }
    p.join();
    MC_CHECK( me.try_lock(), "try_lock fails on a free Mutex (%s)", prog ); me.unlock();
    MC_CHECK( h::linearizable( w.hs, 0, step ), "results of lock, try_lock and unlock fit no order of the calls (%s)", prog );
    uint64_t o = 3; for ( int i = 0; i < w.hs.n; ++i ) o = o * 31 + w.hs.op[ i ].kind * 2 + w.hs.op[ i ].ret; mc::outcome( o );
}
std::vector< std::string > seqs( const std::string & al, int lo, int hi ) {
    std::vector< std::string > r, cur{ "" }; for ( int l = 1; l <= hi; ++l ) { std::vector< std::string > nx; for ( auto & c : cur ) for ( char x : al ) nx.push_back( c + x ); if ( l >= lo ) r.insert( r.end(), nx.begin(), nx.end() ); cur = nx; } return r;
}
std::vector< std::string > multi( const std::vector< std::string > & a, int k ) {
    std::vector< std::string > r; std::function< void( size_t, std::string, int ) > rec = [ & ]( size_t from, std::string s, int left ) { if ( !left ) { r.push_back( s ); return; } for ( size_t i = from; i < a.size(); ++i ) rec( i, s.empty() ? a[ i ] : s + "/" + a[ i ], left - 1 ); };
    rec( 0, "", k ); return r;
}
void family( mc::Registry & r, const char * props, const std::string & name, int tier, Opts o, std::vector< std::string > progs, unsigned parts ) {
    for ( unsigned k = 0; k < parts; ++k ) { auto * pv = new std::vector< std::string >; for ( size_t i = k; i < progs.size(); i += parts ) pv->push_back( progs[ i ] );
        if ( pv->empty() ) continue;
        r.add( props, name + h::fmt( "/part%u", k ), tier, o, [ pv ] { const char * p = ( *pv )[ mc::choose( (int)pv->size() ) ].c_str(); drive( p, mc::choose( 2 ) ); } ); }
}
// ---- errors of the primitives: every operation, every error number, in every small state
const int errs[] = { EPERM, EINTR, EIO, EAGAIN, ENOMEM, EINVAL, EDEADLK, ENOTRECOVERABLE, EOWNERDEAD, ETIMEDOUT, ENOSYS, ENOTSUP, EBUSY, 1000 };
void faults() {
    Mutex m; void * nh = m.native_handle(); int op = mc::choose( 4 ), e = errs[ mc::choose( sizeof errs / sizeof *errs ) ]; bool held = mc::choose( 2 );
    if ( op == 2 ) held = true; 
    if ( op == 0 || op == 3 ) held = false;
    if ( held ) m.lock();
    auto expect = [ & ]( auto f, const char * what ) { int got = 0; try { f(); } catch ( const std::system_error & x ) { got = x.code().value(); MC_CHECK( got == e, "%s: the primitive reports error %d, the exception carries %d", what, e, got ); } catch ( ... ) { mc::fail( "%s throws something else than std::system_error when the primitive reports error %d", what, e ); } return got != 0; };
    switch ( op ) {
    case 0: mc::inject( "lock", nh, e ); MC_CHECK( expect( [ & ] { m.lock(); }, "lock" ), "lock pretends success although the primitive reports error %d", e ); break;
    case 1: mc::inject( "trylock", nh, e ); { bool r = true; bool threw = expect( [ & ] { r = m.try_lock(); }, "try_lock" ); if ( e == EBUSY ) MC_CHECK( !threw && !r, "try_lock on a busy mutex %s", threw ? "throws" : "returns true" ); else MC_CHECK( threw, "try_lock returns %s although the primitive reports error %d", r ? "true" : "false", e ); } break;
    case 2: mc::inject( "unlock", nh, e ); MC_CHECK( expect( [ & ] { m.unlock(); }, "unlock" ), "unlock pretends success although the primitive reports error %d", e ); break;
    case 3: mc::inject( "lock", nh, e ); { bool threw = false; try { std::lock_guard< Mutex > g( m ); } catch ( const std::system_error & x ) { threw = x.code().value() == e; } MC_CHECK( threw, "lock_guard pretends success although lock reports error %d", e ); } break;
    }
    // nothing was acquired or released by the failed call
    int free = -1; std::thread t( [ & ] { int f = m.try_lock(); if ( f ) m.unlock(); mc::Quiet q; free = f; } ); t.join();
    MC_CHECK( free == ( held ? 0 : 1 ), "after a failed call the Mutex is %s", free ? "free" : "held" );
    if ( held ) m.unlock();
    MC_CHECK( m.try_lock(), "the Mutex is unusable after a failed call" ); m.unlock(); mc::outcome( op * 10000 + e );
}
// native_handle is the very lock: usable with a condition variable and excluded by it
void native() {
    Mutex m; pthread_cond_t c; pthread_cond_init( &c, nullptr ); int ready = 0, seen = 0;
    std::thread t( [ & ] { m.lock(); while ( !ready ) pthread_cond_wait( &c, m.native_handle() ); seen = ready; m.unlock(); } );
    m.lock(); MC_CHECK( pthread_mutex_trylock( m.native_handle() ) == EBUSY, "native_handle is not the lock that is held" ); ready = 5; pthread_cond_signal( &c ); m.unlock();
    t.join(); MC_CHECK( seen == 5, "write not visible to the waiter" ); pthread_cond_destroy( &c ); mc::outcome( seen );
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts o; Opts up; up.up( true ); Opts seq; seq.race( false );
    family( r, "C06,C23,C24", "mutex/two", 0, up, multi( seqs( "LTGUD", 1, 2 ), 2 ), 4 );
    family( r, "C06,C23", "mutex/three", 0, up, multi( seqs( "LTGUD", 1, 1 ), 3 ), 4 );
    family( r, "C06", "mutex/four", 0, o, multi( seqs( "LT", 1, 1 ), 4 ), 4 );
    family( r, "C06", "mutex/twoLong", 1, up, multi( seqs( "LTU", 3, 3 ), 2 ), 16 );
    family( r, "C06", "mutex/three2", 1, o, multi( seqs( "LTU", 1, 2 ), 3 ), 24 );
    family( r, "C06", "mutex/four2", 1, o, multi( { "L", "T", "LL", "TT", "TL" }, 4 ), 24 );
    r.add( "C06", "mutex/faults", 0, seq, [] { faults(); } );
    Opts sp; sp.sp( 2 ); r.add( "C06,C23", "mutex/native", 0, sp, [] { native(); } );
}
