// Semaphore: C01 (linearizable counter), C02 (no lost wake-up), C03 (functors), C04 (abort/destruction), C05 (limits), C23, C24
#include "common.hpp"
#include "Semaphore.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <limits>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
// Operation alphabet:  t take   g give   T take(functor)   G give(functor)   x take(throwing functor)   y give(throwing functor)
//                      e take(empty functor)   f give(empty functor)   c getAvailableCount   a abort
enum Ret { OK = 1, ABORTED = 2, THREW = 3, BADCALL = 4, OVERFLOW_ = 5 };
constexpr uint32_t LIM = 0xffffffffu;
struct W {
    h::Hist hs;
    int inside;                         // functors running now
    int blockedKind[ 8 ];               // per thread: operation in progress (0: none)
    uint32_t init, max; bool dying, bounded, aborted;
    long takes, gives;                  // completed
    const char * prog;
};
W w;

struct St { uint32_t c; bool ab; };
bool step( St & s, const h::Hist::Op & o ) {
    if ( o.ret == OVERFLOW_ ) return !s.ab && s.c == LIM;
    switch ( o.kind ) {
    case 'a': s.ab = true; return true;
    case 'c': return (uint32_t)o.arg == s.c;
    case 't': case 'T':
        if ( o.ret == ABORTED ) return s.ab;
        if ( s.ab || s.c == 0 ) return false; --s.c; return true;
    case 'g': case 'G':
        if ( o.ret == ABORTED ) return s.ab;
        if ( s.ab || s.c >= w.max ) return false; ++s.c; return true;
    case 'x': if ( o.ret == ABORTED ) return s.ab; return !s.ab && s.c > 0;
    case 'y': if ( o.ret == ABORTED ) return s.ab; return !s.ab && s.c < w.max;
    case 'e': case 'f': if ( o.ret == ABORTED ) return s.ab; return true;
    }
    return false;
}
struct Fn {   // functor handed to take/give
    int * runs; bool boom; int id;
    void operator()() const {
        { mc::Quiet q; MC_CHECK( w.inside == 0, "two functors of one Semaphore run at the same time (%s)", w.prog ); w.inside = 1; ++*runs; }
        mc::point();
        { mc::Quiet q; w.inside = 0; }
        if ( boom ) throw h::Boom{ id };
    }
};
// performs one operation; returns false when the thread must stop (semaphore being destroyed)
__attribute__(( noinline )) int doOp( Semaphore & s, char k, int t ) {
    int i = w.hs.inv( k ); int r = OK; int runs = 0;
    { mc::Quiet q; w.blockedKind[ t ] = k; }
    uint64_t he = mc::heap_events();
    try {
        switch ( k ) {
        case 't': s.take(); break;
        case 'g': s.give(); break;
        case 'T': s.take( Fn{ &runs, false, 0 } ); break;
        case 'G': s.give( Fn{ &runs, false, 0 } ); break;
        case 'x': s.take( Fn{ &runs, true, 100 + t } ); break;
        case 'y': s.give( Fn{ &runs, true, 100 + t } ); break;
        case 'e': s.take( Semaphore::FunctionType{} ); break;
        case 'f': s.give( Semaphore::FunctionType{} ); break;
        case 'c': { size_t v = s.getAvailableCount(); mc::Quiet q; w.hs.op[ i ].arg = (int)v; } break;
        case 'a': { s.abort(); mc::Quiet q; w.aborted = true; } break;
        }
    }
    catch ( const SemaphoreAborted & ) { r = ABORTED; }
    catch ( const h::Boom & b ) { r = THREW; MC_CHECK( b.id == 100 + t, "exception of another caller's functor received (%s)", w.prog ); }
    catch ( const std::bad_function_call & ) { r = BADCALL; }
    catch ( const SemaphoreOverflow & ) { r = OVERFLOW_; MC_CHECK( w.max == LIM && ( k == 'g' || k == 'G' || k == 'y' || k == 'f' ), "operation %c threw SemaphoreOverflow (%s)", k, w.prog ); }
    catch ( const std::exception & e ) { mc::fail( "operation %c failed with unexpected exception %s (%s)", k, e.what(), w.prog ); }
    if ( r == OK && mc::on( "C24" ) ) MC_CHECK( mc::heap_events() == he, "operation %c allocated or released heap memory (%s)", k, w.prog );
    { mc::Quiet q; w.blockedKind[ t ] = 0; if ( r == OK && ( k == 't' || k == 'T' ) ) ++w.takes; if ( r == OK && ( k == 'g' || k == 'G' ) ) ++w.gives; }
    bool fn = k == 'T' || k == 'G' || k == 'x' || k == 'y';
    MC_CHECK( !fn || ( r == ABORTED || r == OVERFLOW_ ? runs == 0 : runs == 1 ), "functor of %c ran %d times in a call that %s (%s)", k, runs, r == ABORTED || r == OVERFLOW_ ? "failed" : "succeeded", w.prog );
    MC_CHECK( r != THREW || k == 'x' || k == 'y', "operation %c threw (%s)", k, w.prog );
    MC_CHECK( r == ABORTED || r == OVERFLOW_ || ( k != 'x' && k != 'y' ) || r == THREW, "exception of the functor of %c was swallowed (%s)", k, w.prog );
    MC_CHECK( ( r == BADCALL ) == ( k == 'e' || k == 'f' ) || r == ABORTED || r == OVERFLOW_, "operation %c: bad_function_call %s (%s)", k, r == BADCALL ? "thrown" : "expected", w.prog );
    w.hs.res( i, r );
    return r;
}
void runProg( Semaphore & s, const char * p, int t ) {
    for ( bool first = true; *p && *p != '/'; ++p, first = false ) { if ( !first ) mc::point(); if ( doOp( s, *p, t ) == ABORTED && w.dying ) return; }
}
struct Cnt { int takers, givers; };
Cnt blocked() { mc::Quiet q; Cnt c{ 0, 0 }; for ( int k : w.blockedKind ) { if ( k == 't' || k == 'T' || k == 'x' || k == 'e' ) ++c.takers; if ( k == 'g' || k == 'G' || k == 'y' || k == 'f' ) ++c.givers; } return c; }
// nothing can run any more: whoever is still inside take/give must really have to wait
Cnt quiesce( const char * when ) {
    mc::wait_quiescent();
    Cnt c = blocked(); mc::Quiet q; long v = (long)w.init + w.gives - w.takes;
    MC_CHECK( v >= 0 && v <= (long)w.max, "count is %ld (%s)", v, w.prog );
    MC_CHECK( !( c.takers && v > 0 ), "%d thread(s) blocked in take although %ld unit(s) are available %s (%s)", c.takers, v, when, w.prog );
    MC_CHECK( !( c.givers && ( v < (long)w.max || w.max == LIM ) ), "%d thread(s) blocked in give although the count %ld is below the maximum %u %s (%s)", c.givers, v, w.max, when, w.prog );
    return c;
}
void finish( Semaphore * s ) {
    MC_CHECK( w.inside == 0, "functor left running" );
    if ( s ) { doOp( *s, 'c', 7 ); }
    MC_CHECK( h::linearizable( w.hs, St{ w.init, false }, step ), "results are not those of one counter in any order consistent with the calls (%s, init %u max %u)", w.prog, w.init, w.max );
    uint64_t o = 7; for ( int i = 0; i < w.hs.n; ++i ) o = o * 31 + w.hs.op[ i ].kind * 8 + w.hs.op[ i ].ret * 3 + w.hs.op[ i ].arg; mc::outcome( o );
}
// Runs program "p1/p2/.." (one part per thread); afterwards releases whoever is blocked in one of several ways.
void drive( size_t init, size_t max, const char * prog, bool endings ) {
    { mc::Quiet q; w.init = (uint32_t)init; w.max = max == 0 ? 0xffffffffu : (uint32_t)( max < init ? init : max ); w.prog = prog; w.bounded = max != 0; }
    auto s = std::make_unique< Semaphore >( init, max );
    { h::Par p; int t = 0; const char * q = prog; Semaphore * sp = s.get(); bool hasAbort = strchr( prog, 'a' );
        for ( ;; ) { const char * part = q; int tt = t++; p.go( [ sp, part, tt ] { runProg( *sp, part, tt ); } ); while ( *q && *q != '/' ) ++q; if ( !*q ) break; ++q; }
        if ( hasAbort ) {
            mc::wait_quiescent(); Cnt c = blocked(); bool done; { mc::Quiet z; done = w.aborted; }
            MC_CHECK( !done || c.takers + c.givers == 0, "%d thread(s) still blocked after abort returned (%s)", c.takers + c.givers, prog );
            if ( !done ) { doOp( *s, 'a', 7 ); mc::wait_quiescent(); c = blocked(); MC_CHECK( c.takers + c.givers == 0, "%d thread(s) still blocked after abort returned (%s)", c.takers + c.givers, prog ); }
            p.join();
        } else {
            Cnt c = quiesce( "when nothing else can run" );
            int mode = ( c.takers + c.givers && endings ) ? mc::choose( 3 ) : 0;
            if ( mode == 0 ) {          // hand out single units / single places
                for ( int guard = 0; c.takers + c.givers; ++guard ) {
                    MC_CHECK( guard < 12, "harness: releasing does not end (%s)", prog );
                    doOp( *s, c.takers ? 'g' : 't', 7 );
                    c = quiesce( "after one more unit or place was provided" );
                }
            } else if ( mode == 1 ) { doOp( *s, 'a', 7 ); }
            else { { mc::Quiet z; w.dying = true; } int i = w.hs.inv( 'a' ); s.reset(); w.hs.res( i, OK );
                Cnt e = blocked(); MC_CHECK( e.takers + e.givers == 0, "destructor returned while %d thread(s) are still inside take or give (%s)", e.takers + e.givers, prog ); }
            p.join();
        }
    }
    finish( s.get() );
}
// ---- program families ----------------------------------------------------------------------------------
std::vector< std::string > seqs( const std::string & al, int lo, int hi ) {
    std::vector< std::string > r, cur{ "" }; for ( int l = 1; l <= hi; ++l ) { std::vector< std::string > nx; for ( auto & c : cur ) for ( char x : al ) nx.push_back( c + x ); if ( l >= lo ) r.insert( r.end(), nx.begin(), nx.end() ); cur = nx; } return r;
}
std::vector< std::string > * keep( std::vector< std::string > v ) { return new std::vector< std::string >( std::move( v ) ); }
void family( mc::Registry & r, const char * props, const std::string & name, int tier, Opts o, std::vector< std::string > progs, size_t init, size_t max, unsigned parts, bool endings = true ) {
    for ( unsigned k = 0; k < parts; ++k ) {
        std::vector< std::string > mine; for ( size_t i = k; i < progs.size(); i += parts ) mine.push_back( progs[ i ] );
        if ( mine.empty() ) continue;
        auto * pv = keep( mine );
        r.add( props, name + h::fmt( "/i%zum%zu", init, max ) + ( parts > 1 ? h::fmt( "/part%u", k ) : std::string() ), tier, o, [ = ] { drive( init, max, ( *pv )[ mc::choose( (int)pv->size() ) ].c_str(), endings ); } );
    }
}
std::vector< std::string > pairs( const std::vector< std::string > & a ) { std::vector< std::string > r; for ( size_t i = 0; i < a.size(); ++i ) for ( size_t j = i; j < a.size(); ++j ) r.push_back( a[ i ] + "/" + a[ j ] ); return r; }
std::vector< std::string > triples( const std::vector< std::string > & a ) { std::vector< std::string > r; for ( size_t i = 0; i < a.size(); ++i ) for ( size_t j = i; j < a.size(); ++j ) for ( size_t k = j; k < a.size(); ++k ) r.push_back( a[ i ] + "/" + a[ j ] + "/" + a[ k ] ); return r; }
} // namespace


namespace {
// ---- limits (C05) ------------------------------------------------------------------------------------------
const size_t U32 = 0xffffffffull;
const size_t argv_[] = { 0, 1, 2, 3, 5, 255, 256, 257, 65535, 65536, 65537, ( 1ull << 31 ) - 1, 1ull << 31, U32 - 2, U32 - 1, U32, U32 + 1, U32 + 2, U32 + 6, 1ull << 33, ( 1ull << 40 ) + 3, ( 1ull << 48 ) + 65536, 1ull << 63, ~0ull - 1, ~0ull };
constexpr int NARG = sizeof argv_ / sizeof *argv_;
enum GiveRes { G_OK, G_BLOCKED, G_OVER, G_OTHER };
// one give in its own thread, so that a blocking one can be observed; a blocked give is released with one take
GiveRes tryGive( Semaphore & s, bool fn, int * runs, bool mayBlock ) {
    int res = -1; unsigned id; std::thread t( [ & ] {
        int r = G_OK;
        try { if ( fn ) s.give( [ runs ] { ++*runs; } ); else s.give(); } catch ( const SemaphoreOverflow & ) { r = G_OVER; } catch ( const SemaphoreAborted & ) { r = G_OTHER; } catch ( const std::exception & ) { r = G_OTHER; }
        mc::Quiet q; res = r; } );
    id = mc::num_threads() - 1; mc::wait_quiescent();
    bool blocked; { mc::Quiet q; blocked = res < 0; }
    if ( blocked ) { MC_CHECK( mayBlock, "%s: give at count %zu blocks", w.prog, s.getAvailableCount() ); MC_CHECK( mc::is_cond_blocked( id ), "give neither returned nor waits" ); MC_CHECK( !fn || *runs == 0, "functor of a blocked give already ran" ); s.take(); mc::wait_all(); t.join(); MC_CHECK( res == G_OK, "give released by a take failed" ); return G_BLOCKED; }
    t.join(); return (GiveRes)res;
}
void limits( size_t init, size_t max ) {
    const size_t c0 = std::min( init, U32 ), cap = max == 0 ? U32 : std::min( U32, std::max( max, c0 ) );
    { mc::Quiet q; static char b[ 80 ]; snprintf( b, sizeof b, "Semaphore( %zu, %zu )", init, max ); w.prog = b; }
    Semaphore s( init, max );
    MC_CHECK( s.getAvailableCount() == c0, "%s: initial count is %zu, expected %zu", w.prog, s.getAvailableCount(), c0 );
    size_t c = c0;
    // up to the limit when it is near, then across it
    for ( int i = 0; i < 9; ++i ) {
        int runs = 0; bool fn = i & 1; GiveRes r = tryGive( s, fn, &runs, c == cap && cap != U32 );
        if ( c < cap ) { MC_CHECK( r == G_OK, "%s: give at count %zu, maximum %zu: %s", w.prog, c, cap, r == G_BLOCKED ? "blocks" : r == G_OVER ? "throws SemaphoreOverflow" : "fails" ); ++c; MC_CHECK( !fn || runs == 1, "%s: functor ran %d times", w.prog, runs ); }
        else if ( cap == U32 ) { MC_CHECK( r == G_OVER, "%s: give at the absolute limit %s", w.prog, r == G_BLOCKED ? "blocks" : r == G_OK ? "succeeds" : "fails differently" ); MC_CHECK( runs == 0, "%s: functor ran although give threw", w.prog ); }
        else { MC_CHECK( r == G_BLOCKED, "%s: give at the maximum %zu %s", w.prog, cap, r == G_OK ? "does not block" : "throws" ); MC_CHECK( !fn || runs == 1, "%s: functor ran %d times", w.prog, runs ); }
        MC_CHECK( s.getAvailableCount() == c, "%s: count is %zu, expected %zu", w.prog, s.getAvailableCount(), c );
        if ( c == cap && i == 5 && c > 0 ) { s.take(); --c; MC_CHECK( s.getAvailableCount() == c, "%s: count is %zu after take, expected %zu", w.prog, s.getAvailableCount(), c ); }
    }
    for ( int i = 0; i < 3 && c > 0; ++i ) { int runs = 0; if ( i & 1 ) { s.take( [ &runs ] { ++runs; } ); MC_CHECK( runs == 1, "functor ran %d times", runs ); } else s.take(); --c; MC_CHECK( s.getAvailableCount() == c, "%s: count is %zu after take, expected %zu", w.prog, s.getAvailableCount(), c ); }
    mc::outcome( c * 131 + cap );
}
// ---- crowds: more waiters than small counters hold ---------------------------------------------------------
void crowd( unsigned n, bool takers, int ending ) {
    { mc::Quiet q; w.prog = takers ? "crowd of takers" : "crowd of givers"; }
    auto s = std::make_unique< Semaphore >( takers ? 0 : 1, takers ? 0 : 1 ); Semaphore * sp = s.get();
    static int done, aborted; std::vector< std::thread > th;
    for ( unsigned i = 0; i < n; ++i ) th.emplace_back( [ sp, takers ] { try { takers ? sp->take() : sp->give(); mc::Quiet q; ++done; } catch ( const SemaphoreAborted & ) { mc::Quiet q; ++aborted; } } );
    mc::wait_quiescent();
    { mc::Quiet q; MC_CHECK( done == 0 && aborted == 0, "%d of %u waiters did not wait", done + aborted, n ); }
    unsigned k = 0;
    if ( ending != 0 ) k = ending == 1 ? 3 : n;
    for ( unsigned i = 0; i < k; ++i ) { takers ? sp->give() : sp->take(); if ( i < 3 || i + 3 > n ) { mc::wait_quiescent(); mc::Quiet q; MC_CHECK( done == (int)i + 1, "%u waiters: %u %s released only %d", n, i + 1, takers ? "gives" : "takes", done ); } }
    mc::wait_quiescent();
    { mc::Quiet q; MC_CHECK( done == (int)k, "%u waiters: %u %s released %d", n, k, takers ? "gives" : "takes", done ); }
    if ( ending != 2 ) { if ( ending == 0 ) sp->abort(); else s.reset(); mc::wait_quiescent(); mc::Quiet q; MC_CHECK( aborted == (int)( n - k ), "%u of %u waiters left after abort, %d did", n - k, n, aborted ); }
    mc::wait_all(); for ( auto & t : th ) t.join(); mc::outcome( n * 10 + ending );
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts o; Opts o1; o1.sp( 1 ); Opts o2; o2.sp( 2 );
    using P = std::pair< size_t, size_t >;
    auto with = []( std::vector< std::string > v, const char * any ) { std::vector< std::string > x; for ( auto & p : v ) if ( p.find_first_of( any ) != std::string::npos ) x.push_back( p ); return x; };
    auto no = []( std::vector< std::string > v, const char * any ) { std::vector< std::string > x; for ( auto & p : v ) if ( p.find_first_of( any ) == std::string::npos ) x.push_back( p ); return x; };
    for ( auto im : { P{ 0, 0 }, P{ 0, 1 }, P{ 1, 1 }, P{ 1, 2 }, P{ 2, 2 }, P{ 1, 3 } } ) {
        family( r, "C01,C02,C03,C04", "sem/two", 0, o1, pairs( seqs( "tgTGxyc", 1, 2 ) ), im.first, im.second, 4 );
        family( r, "C01,C02,C03,C04", "sem/three", 0, o1, triples( seqs( "tgTGxyef", 1, 1 ) ), im.first, im.second, 4 );
        family( r, "C01,C02,C03,C04" , "sem/abort2", 0, o1, with( pairs( seqs( "tgTGca", 1, 2 ) ), "a" ), im.first, im.second, 4 );
        family( r, "C01,C03,C04", "sem/abort3", 0, o1, with( triples( seqs( "tgTGxya", 1, 1 ) ), "a" ), im.first, im.second, 4 );
        family( r, "C23,C24", "sem/race2", 0, o, pairs( seqs( "tgTGca", 1, 2 ) ), im.first, im.second, 4 );
        family( r, "C23,C24", "sem/race3", 0, o, triples( seqs( "tgTGca", 1, 1 ) ), im.first, im.second, 4 );
        // deeper
        family( r, "C01,C02,C03", "sem/two33", 1, o2, no( pairs( seqs( "tgTGc", 1, 3 ) ), "" ), im.first, im.second, 24 );
        family( r, "C01,C02", "sem/three2pb", 0, Opts( o ).pb( 2 ), triples( seqs( "tg", 1, 2 ) ), im.first, im.second, 2 );
        if ( im.first == im.second ) family( r, "C03", "sem/threeF2pb", 0, Opts( o ).pb( 1 ), triples( seqs( "gTx", 1, 2 ) ), im.first, im.second, 4 );
        family( r, "C04", "sem/abort32pb", 0, Opts( o ).pb( 2 ), with( triples( seqs( "tga", 1, 2 ) ), "a" ), im.first, im.second, 4 );
        family( r, "C01,C02,C03", "sem/three2", 1, o1, triples( seqs( "tgTx", 1, 2 ) ), im.first, im.second, 24 );
        family( r, "C04", "sem/abort23", 1, o1, with( pairs( seqs( "tgTa", 1, 3 ) ), "a" ), im.first, im.second, 16 );
        family( r, "C23", "sem/race33", 1, o, pairs( seqs( "tgTca", 1, 3 ) ), im.first, im.second, 24 );
    }
    // one operation interrupted anywhere by an arbitrary history of others
    auto against = []( const std::vector< std::string > & a, const std::vector< std::string > & b ) { std::vector< std::string > x; for ( auto & p : a ) for ( auto & q : b ) x.push_back( p + "/" + q ); return x; };
    for ( auto im : { P{ 0, 0 }, P{ 0, 1 }, P{ 1, 1 }, P{ 1, 2 }, P{ 2, 2 } } ) {
        family( r, "C01,C02,C23", "sem/one4", 0, o1, against( seqs( "tgTGxyc", 1, 1 ), seqs( "tg", 3, 4 ) ), im.first, im.second, 2 );
        family( r, "C03", "sem/oneF3", 0, o1, against( seqs( "tgTGxy", 1, 1 ), with( seqs( "tgTGx", 3, 3 ), "TGx" ) ), im.first, im.second, 4 );
        family( r, "C04,C01", "sem/oneAbort4", 0, o1, against( seqs( "tgTGa", 1, 1 ), with( seqs( "tga", 3, 3 ), "a" ) ), im.first, im.second, 2 );
        family( r, "C04", "sem/abortOne4", 0, o1, against( seqs( "a", 1, 1 ), seqs( "tgT", 3, 3 ) ), im.first, im.second, 2 );
        family( r, "C01,C02", "sem/one6", 1, o1, against( seqs( "tgx", 1, 1 ), seqs( "tg", 5, 6 ) ), im.first, im.second, 4 );
    }
    // units and places handed around among four and five threads
    auto multi = []( const std::vector< std::string > & a, int n ) { std::vector< std::string > r; std::vector< size_t > ix( n, 0 ); for ( ;; ) { std::string p; for ( int i = 0; i < n; ++i ) p += ( i ? "/" : "" ) + a[ ix[ i ] ]; r.push_back( p ); int i = n - 1; while ( i >= 0 && ix[ i ] + 1 == a.size() ) --i; if ( i < 0 ) return r; size_t v = ix[ i ] + 1; for ( int k = i; k < n; ++k ) ix[ k ] = v; } };
    for ( auto im : { P{ 0, 0 }, P{ 0, 1 }, P{ 1, 1 }, P{ 2, 2 }, P{ 1, 2 }, P{ 3, 3 } } ) {
        family( r, "C01,C02", "sem/fourTG", 0, o, multi( { "t", "g", "T", "G", "x", "y" }, 4 ), im.first, im.second, 8 );
        family( r, "C01,C02", "sem/burst", 0, o, { "t/t/gg", "g/g/tt", "t/t/ggt", "g/g/ttg", "t/t/t/ggg", "g/g/g/ttt", "t/t/t/gg", "g/g/g/tt", "t/t/g/gg", "g/g/t/tt", "tt/g/g", "tt/gg/tg", "gg/tt/gt", "t/x/gg", "g/y/tt", "x/x/ggg", "y/y/ttt", "t/t/G/G", "g/g/T/T" }, im.first, im.second, 4 );
        family( r, "C01,C02,C03", "sem/burstx", 0, o, { "x/t/t/gg", "y/g/g/tt", "e/t/t/gg", "f/g/g/tt", "x/T/t/gg", "y/G/g/tt", "x/t/tg/gg", "y/g/gt/tt", "x/x/t/gg", "y/y/g/tt" }, im.first, im.second, 1, false );
        family( r, "C02", "sem/burstx5", 1, o, { "x/t/t/g/g", "y/g/g/t/t", "x/t/t/t/ggg", "y/g/g/g/ttt", "x/x/t/t/ggg", "y/y/g/g/ttt" }, im.first, im.second, 6, false );
        family( r, "C02", "sem/five", im.first == im.second && im.first ? 0 : 1, o, multi( { "t", "g" }, 5 ), im.first, im.second, 3 );
        family( r, "C02", "sem/five2", 1, o1, { "tg/tg/gt/gt", "t/t/t/g/g", "g/g/g/t/t", "t/x/x/g/g", "g/y/y/t/t", "t/t/gg/g/t" }, im.first, im.second, 6 );
    }
    // at the absolute limit
    family( r, "C05", "sem/limit2", 0, o, pairs( seqs( "tgGyx", 1, 2 ) ), 0xfffffffeull, 0, 2 );
    family( r, "C05", "sem/limit3", 0, o, triples( seqs( "tgGyTf", 1, 1 ) ), 0xffffffffull, 0, 1 );
    for ( int i = 0; i < NARG; ++i ) r.add( "C05", h::fmt( "sem/args/%zu", argv_[ i ] ), 0, o, [ i ] { limits( argv_[ i ], argv_[ mc::choose( NARG ) ] ); } );
    Opts oc; oc.one().race( false );
    for ( unsigned n : { 255u, 256u, 257u, 300u, 512u } ) for ( int t = 0; t < 2; ++t ) for ( int e = 0; e < 3; ++e )
        r.add( e == 2 ? "C02" : "C02,C04", h::fmt( "sem/crowd/%u/%s/%d", n, t ? "take" : "give", e ), 0, oc, [ = ] { crowd( n, t, e ); } );
}
