// RingBufferSimple: C08.  RingBufferGuarded: C09 (concurrent bounded FIFO), C10 (prime/ready/abort/flush), C23, C24
#include "common.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ReiserRT_CoreExceptions.hpp"
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
size_t pow2( size_t n ) { if ( n < 2 ) n = 2; if ( n > ( 1u << 20 ) ) n = 1u << 20; size_t p = 2; while ( p < n ) p <<= 1; return p; }
const size_t LIMIT = 1u << 20;
// value number i as a T; distinct for nearby i
enum class E8 : uint8_t {}; enum class E64 : int64_t {};
alignas( 16 ) char cells[ 64 ];
template< class T, class = void > struct Val { static T of( uint64_t i ) { return static_cast< T >( i * 7 + 3 ); } };
template< class T > struct Val< T, std::enable_if_t< std::is_pointer< T >::value > > { static T of( uint64_t i ) { return (T)( (uintptr_t)cells + 8 * ( i % 1000003 ) ); } };   // never dereferenced
template< class T > struct Val< T, std::enable_if_t< std::is_floating_point< T >::value > > { static T of( uint64_t i ) { return (T)i / 3 - 1000; } };
struct S { int x; char y; };
template<> struct Val< int S::* > { static int S::* of( uint64_t i ) { return i & 1 ? &S::x : (int S::*)nullptr; } };
template<> struct Val< bool > { static bool of( uint64_t i ) { return ( i * 2654435761u >> 20 ) & 1; } };

// ---- C08 -------------------------------------------------------------------------------------------------------
template< class R > bool tryGet( R & r, decltype( r.get() ) & v ) { try { v = r.get(); return true; } catch ( const RingBufferUnderflow & ) { return false; } }
template< class R, class T > bool tryPut( R & r, T v ) { try { r.put( v ); return true; } catch ( const RingBufferOverflow & ) { return false; } }
template< class R, class T > void geom( const R & r, size_t req, const char * tn ) {
    size_t cap = pow2( req ), bits = 0; while ( ( (size_t)1 << bits ) < cap ) ++bits;
    MC_CHECK( r.getSize() == cap, "%s(%zu): getSize is %zu, expected %zu", tn, req, r.getSize(), cap );
    MC_CHECK( r.getMask() == cap - 1, "%s(%zu): getMask is %zu, expected %zu", tn, req, r.getMask(), cap - 1 );
    MC_CHECK( r.getNumBits() == bits, "%s(%zu): getNumBits is %zu, expected %zu", tn, req, r.getNumBits(), bits );
}
// sweep: fills and drains completely from several offsets, trying the failing operation at both ends
template< class T > void sweep( const char * tn, size_t req, int rounds ) {
    RingBufferSimple< T > r( req ); const size_t cap = pow2( req ); geom< RingBufferSimple< T >, T >( r, req, tn );
    uint64_t in = 0, out = 0; T v{};
    auto put = [ & ]( bool expect ) { uint64_t he = mc::heap_events(); bool ok = tryPut( r, Val< T >::of( in ) ); MC_CHECK( ok == expect, "%s(%zu): put with %zu of %zu stored %s", tn, req, (size_t)( in - out ), cap, ok ? "succeeded" : "threw RingBufferOverflow" ); if ( ok ) { ++in; if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "put used the heap" ); } };
    auto get = [ & ]( bool expect ) { uint64_t he = mc::heap_events(); bool ok = tryGet( r, v ); MC_CHECK( ok == expect, "%s(%zu): get with %zu of %zu stored %s", tn, req, (size_t)( in - out ), cap, ok ? "succeeded" : "threw RingBufferUnderflow" ); if ( ok ) { MC_CHECK( v == Val< T >::of( out ), "%s(%zu): get returned another value than the one put (put number %llu)", tn, req, (unsigned long long)out ); ++out; if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "get used the heap" ); } };
    for ( int k = 0; k < rounds; ++k ) {
        get( false ); get( false );
        for ( size_t i = 0; i < cap; ++i ) { put( true ); if ( !( i & 1023 ) ) mc::tick( 1 ); }
        put( false ); put( false );
        size_t some = k == 0 ? 1 : k == 1 ? cap / 2 : cap - 1; for ( size_t i = 0; i < some; ++i ) get( true );
        for ( size_t i = 0; i < some; ++i ) put( true );
        put( false );
        for ( size_t i = 0; i < cap; ++i ) { get( true ); if ( !( i & 1023 ) ) mc::tick( 1 ); }
        get( false );
        put( true ); get( true ); get( false ); geom< RingBufferSimple< T >, T >( r, req, tn );     // moves the offset by one
    }
    mc::outcome( req );
}
template< class T > void c08type( mc::Registry & r, const char * tn, int tier ) {
    Opts one; one.one().race( false ).steps( 100000000 );
    std::string n = tn;
    r.add( "C08,C24", "ring/sweep/" + n, tier, one, [ tn ] { sweep< T >( tn, mc::choose( 600 ), 4 ); } );
    r.add( "C08", "ring/sweepBig/" + n, tier, one, [ tn ] { static const size_t ns[] = { 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 16383, 16385, 32767, 32768, 32769, 65535, 65536, 65537 }; sweep< T >( tn, ns[ mc::choose( 20 ) ], 3 ); } );
}
const size_t hugeN[] = { 131071, 131073, 262145, 524287, 524289, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 5, 3u << 20, 0x7fffffffull, 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000003ull, 0x180000000ull, 1ull << 40, 1ull << 63, ~0ull };

// ---- C09, C10 ----------------------------------------------------------------------------------------------------
// p put   g get   a abort   F flush (collects)   R prime
enum Ret { OK = -1, ABORTED = -2, STATE = -3 };     // a successful get records the value
struct W { h::Hist hs; int cap, prefill; bool primeMode; int inProgress[ 8 ]; bool dying; int flushed[ 16 ]; int nFlushed; long puts, gets; bool aborted; const char * prog; int seq; };
W w;
struct St { int8_t q[ 10 ]; int8_t n; bool ab, needs; };
bool step( St & s, const h::Hist::Op & o ) {
    switch ( o.kind ) {
    case 'a': s.ab = true; s.needs = false; return true;
    case 'p':
        if ( o.ret == STATE ) return s.needs || s.ab;
        if ( o.ret == ABORTED ) return s.ab;
        if ( s.ab ) return true;                     // silently without effect
        if ( s.needs || s.n >= w.cap ) return false;
        s.q[ (int)s.n++ ] = (int8_t)o.arg; return true;
    case 'g':
        if ( o.ret == STATE ) return s.needs || s.ab;
        if ( o.ret == ABORTED ) return s.ab;
        if ( s.ab || s.needs || !s.n || s.q[ 0 ] != o.ret ) return false;
        memmove( s.q, s.q + 1, 9 ); --s.n; return true;
    case 'R': {
        bool wasAborted = false; for ( int i = 0; i < w.hs.n; ++i ) if ( w.hs.op[ i ].kind == 'a' && ( o.before >> i & 1 ) ) wasAborted = true;
        if ( o.ret == STATE ) return !s.needs || s.ab;
        if ( wasAborted ) return false;
        if ( s.ab ) { if ( s.n ) return false; for ( int i = 0; i < o.arg; ++i ) s.q[ (int)s.n++ ] = (int8_t)( 100 + i ); return true; }   // interrupted: stays terminal
        if ( !s.needs || o.arg != w.cap ) return false;
        s.needs = false; for ( int i = 0; i < o.arg; ++i ) s.q[ (int)s.n++ ] = (int8_t)( 100 + i ); return true; }
    case 'F':
        if ( o.ret == STATE ) return !s.ab;
        if ( !s.ab ) return false;
        { int m = o.arg & 255, from = o.arg >> 8; if ( m != s.n ) return false; for ( int i = 0; i < m; ++i ) if ( w.flushed[ from + i ] != s.q[ i ] ) return false; s.n = 0; return true; }
    }
    return false;
}
template< class R > int toInt( R v ) { return (int)( (uintptr_t)v / 8 ); }
template< class T > struct Conv { static T to( int v ) { return (T)v; } static int from( T v ) { return (int)v; } };
template< class T > struct Conv< T * > { static T * to( int v ) { return (T *)( (uintptr_t)v * 16 ); } static int from( T * v ) { return (uintptr_t)v % 16 ? 255 : (int)( (uintptr_t)v / 16 ); } };
template< class T > __attribute__(( noinline )) int doOp( RingBufferGuarded< T > & b, char k, int t ) {
    { mc::Quiet q; w.inProgress[ t ] = k; }
    int i = w.hs.inv( k ), val = k == 'p' ? i + 1 : 0; { mc::Quiet q; w.hs.op[ i ].arg = val; } int r = OK; uint64_t he = mc::heap_events();
    try {
        switch ( k ) {
        case 'p': b.put( Conv< T >::to( val ) ); break;
        case 'g': r = Conv< T >::from( b.get() ); break;
        case 'a': b.abort(); break;
        case 'F': { int from; { mc::Quiet q; from = w.nFlushed; } b.flush( []( typename std::conditional< std::is_pointer< T >::value, void *, T >::type x ) { mc::Quiet q; MC_CHECK( w.nFlushed < 16, "flush hands over more values than the buffer can hold (%s)", w.prog ); w.flushed[ w.nFlushed++ ] = Conv< decltype( x ) >::from( x ); } ); mc::Quiet q; w.hs.op[ i ].arg = ( w.nFlushed - from ) | from << 8; break; }
        case 'R': { int calls = 0; b.prime( [ &calls ]( size_t ix ) { MC_CHECK( (int)ix == calls, "priming function called with index %zu, expected %d (%s)", ix, calls, w.prog ); ++calls; mc::point(); using X = typename std::conditional< std::is_pointer< T >::value, void *, T >::type; return Conv< X >::to( 100 + (int)ix ); } ); mc::Quiet q; w.hs.op[ i ].arg = calls; break; }
        }
    }
    catch ( const SemaphoreAborted & ) { r = ABORTED; }
    catch ( const RingBufferStateError & ) { r = STATE; }
    catch ( const std::exception & e ) { mc::fail( "operation %c failed with unexpected exception %s (%s)", k, e.what(), w.prog ); }
    if ( r != ABORTED && r != STATE && k != 'F' && k != 'R' && mc::on( "C24" ) ) MC_CHECK( mc::heap_events() == he, "operation %c allocated or released heap memory (%s)", k, w.prog );
    { mc::Quiet q; w.inProgress[ t ] = 0; if ( k == 'a' ) w.aborted = true; if ( k == 'p' && r == OK ) ++w.puts; if ( k == 'g' && r >= 0 ) ++w.gets; }
    MC_CHECK( r != ABORTED || k == 'p' || k == 'g', "operation %c threw SemaphoreAborted (%s)", k, w.prog );
    w.hs.res( i, r ); return r;
}
struct Cnt { int getters, putters; };
Cnt blocked() { mc::Quiet q; Cnt c{ 0, 0 }; for ( int k : w.inProgress ) { if ( k == 'g' ) ++c.getters; if ( k == 'p' ) ++c.putters; } return c; }
Cnt quiesce( const char * when ) {
    mc::wait_quiescent(); Cnt c = blocked(); mc::Quiet q; long v = w.prefill + w.puts - w.gets;
    MC_CHECK( v >= 0 && v <= w.cap, "%ld values stored, capacity %d (%s)", v, w.cap, w.prog );
    MC_CHECK( !( c.getters && v > 0 ), "%d thread(s) blocked in get although %ld value(s) are stored %s (%s)", c.getters, v, when, w.prog );
    MC_CHECK( !( c.putters && v < w.cap ), "%d thread(s) blocked in put although only %ld of %d places are used %s (%s)", c.putters, v, w.cap, when, w.prog );
    return c;
}
// runs "p1/p2/.." on a buffer of req elements holding `prefill` values (or unprimed)
template< class T > void drive( size_t req, int prefill, bool prime, const char * prog, bool endings ) {
    { mc::Quiet q; w.cap = (int)req; w.prefill = prefill; w.primeMode = prime; w.prog = prog; }
    auto b = std::make_unique< RingBufferGuarded< T > >( req, prime ); RingBufferGuarded< T > * bp = b.get();
    St s0; memset( &s0, 0, sizeof s0 ); s0.needs = prime;
    for ( int i = 0; i < prefill; ++i ) { b->put( Conv< T >::to( 80 + i ) ); s0.q[ (int)s0.n++ ] = (int8_t)( 80 + i ); }
    bool hasAbort = strchr( prog, 'a' );
    h::Par p; int t = 0; const char * q = prog;
    for ( ;; ) { const char * part = q; int tt = t++;
        p.go( [ bp, part, tt ] { bool first = true; for ( const char * x = part; *x && *x != '/'; ++x, first = false ) { if ( !first ) mc::point(); int r = doOp( *bp, *x, tt ); bool d; { mc::Quiet z; d = w.dying; } if ( r == ABORTED && d ) return; } } );
        while ( *q && *q != '/' ) ++q; if ( !*q ) break; ++q; }
    if ( hasAbort ) {
        mc::wait_quiescent(); bool done; { mc::Quiet z; done = w.aborted; }
        if ( !done ) { doOp( *b, 'a', 7 ); mc::wait_quiescent(); }
        Cnt c = blocked(); MC_CHECK( c.getters + c.putters == 0, "%d thread(s) still blocked after abort returned (%s)", c.getters + c.putters, prog );
        p.join();
    } else {
        Cnt c;
        if ( prime ) { mc::wait_quiescent(); c = blocked(); mc::Quiet z; bool primed = false; long v = w.puts - w.gets; for ( int i = 0; i < w.hs.n; ++i ) if ( w.hs.op[ i ].kind == 'R' && w.hs.op[ i ].ret == OK ) primed = true;
            if ( primed ) { w.prefill = w.cap; v += w.cap; MC_CHECK( !( c.getters && v > 0 ) && !( c.putters && v < w.cap ), "thread blocked although it could proceed with %ld of %d stored (%s)", v, w.cap, prog ); } else MC_CHECK( c.getters + c.putters == 0, "thread blocked on a buffer that needs priming (%s)", prog ); }
        else c = quiesce( "when nothing else can run" );
        int mode = ( c.getters + c.putters && endings ) ? mc::choose( 3 ) : 0;
        if ( mode == 0 ) { for ( int guard = 0; c.getters + c.putters; ++guard ) { MC_CHECK( guard < 10, "harness: releasing does not end (%s)", prog ); doOp( *b, c.getters ? 'p' : 'g', 7 ); c = quiesce( "after one more value or place was provided" ); } }
        else if ( mode == 1 ) doOp( *b, 'a', 7 );
        else { { mc::Quiet z; w.dying = true; } int i = w.hs.inv( 'a' ); b.reset(); w.hs.res( i, OK ); Cnt e = blocked(); MC_CHECK( e.getters + e.putters == 0, "destructor returned while %d thread(s) are still inside get or put (%s)", e.getters + e.putters, prog ); }
        p.join();
    }
    if ( b ) {  // what is left must be exactly what the history says, in order
        bool ab; { mc::Quiet z; ab = w.aborted; }
        if ( !ab ) doOp( *b, 'a', 7 );
        doOp( *b, 'g', 7 ); doOp( *b, 'p', 7 ); if ( prime ) doOp( *b, 'R', 7 );
        doOp( *b, 'F', 7 ); doOp( *b, 'F', 7 );
    }
    MC_CHECK( h::linearizable( w.hs, s0, step ), "results are not those of one bounded FIFO queue in any order consistent with the calls (%s, capacity %d, %d stored at first)", w.prog, w.cap, prefill );
    uint64_t o = 7; for ( int i = 0; i < w.hs.n; ++i ) o = o * 31 + w.hs.op[ i ].kind * 8 + w.hs.op[ i ].ret * 3 + w.hs.op[ i ].arg; mc::outcome( o );
}
std::vector< std::string > seqs( const std::string & al, int lo, int hi ) {
    std::vector< std::string > r, cur{ "" }; for ( int l = 1; l <= hi; ++l ) { std::vector< std::string > nx; for ( auto & c : cur ) for ( char x : al ) nx.push_back( c + x ); if ( l >= lo ) r.insert( r.end(), nx.begin(), nx.end() ); cur = nx; } return r;
}
std::vector< std::string > pairs( const std::vector< std::string > & a ) { std::vector< std::string > r; for ( size_t i = 0; i < a.size(); ++i ) for ( size_t j = i; j < a.size(); ++j ) r.push_back( a[ i ] + "/" + a[ j ] ); return r; }
std::vector< std::string > triples( const std::vector< std::string > & a ) { std::vector< std::string > r; for ( size_t i = 0; i < a.size(); ++i ) for ( size_t j = i; j < a.size(); ++j ) for ( size_t k = j; k < a.size(); ++k ) r.push_back( a[ i ] + "/" + a[ j ] + "/" + a[ k ] ); return r; }
template< class T > void family( mc::Registry & r, const char * props, const std::string & name, int tier, Opts o, std::vector< std::string > progs, size_t req, int prefill, bool prime, unsigned parts, bool endings = true ) {
    for ( unsigned k = 0; k < parts; ++k ) {
        std::vector< std::string > mine; for ( size_t i = k; i < progs.size(); i += parts ) mine.push_back( progs[ i ] );
        if ( mine.empty() ) continue; auto * pv = new std::vector< std::string >( mine );
        r.add( props, name + h::fmt( "/n%zu%s%d", req, prime ? "prime" : "f", prefill ) + ( parts > 1 ? h::fmt( "/part%u", k ) : std::string() ), tier, o, [ = ] { drive< T >( req, prefill, prime, ( *pv )[ mc::choose( (int)pv->size() ) ].c_str(), endings ); } );
    }
}
// ---- exact capacity, order and values for one thread and many sizes
template< class T > bool blocks( RingBufferGuarded< T > & b, bool put, T v, T * got, bool endByOther, T other ) {
    static int done; { mc::Quiet q; done = 0; } RingBufferGuarded< T > * bp = &b;
    std::thread t( [ bp, put, v, got ] { if ( put ) bp->put( v ); else { T x = bp->get(); mc::Quiet q; *got = x; } mc::Quiet q; done = 1; } );
    mc::wait_quiescent(); bool blk; { mc::Quiet q; blk = !done; }
    if ( blk && endByOther ) { if ( put ) { T x = b.get(); mc::Quiet q; *got = x; } else b.put( other ); }
    mc::wait_all(); t.join(); return blk;
}
template< class T > void capacity( size_t req, bool prime ) {
    const size_t cap = req > LIMIT ? LIMIT : req; RingBufferGuarded< T > b( req, prime );
    MC_CHECK( b.getSize() == pow2( req ), "RingBufferGuarded(%zu): getSize is %zu", req, b.getSize() );
    uint64_t in = 0, out = 0; T got{};
    auto V = []( uint64_t i ) { return Val< T >::of( i ); };
    if ( prime ) {
        b.prime( [ & ]( size_t i ) { MC_CHECK( i == in, "priming index %zu, expected %llu", i, (unsigned long long)in ); if ( !( i & 1023 ) ) mc::tick( 1 ); return V( in++ ); } );
        MC_CHECK( in == cap, "prime stored %llu values, expected %zu", (unsigned long long)in, cap );
    } else for ( size_t i = 0; i < cap; ++i ) b.put( V( in++ ) );
    for ( int k = 0; k < 2; ++k ) {
        MC_CHECK( blocks< T >( b, true, V( in ), &got, true, T{} ), "RingBufferGuarded(%zu): put does not block with %zu values stored", req, cap ); ++in; MC_CHECK( got == V( out ), "RingBufferGuarded(%zu): get returned another value than the oldest", req ); ++out;
        while ( out < in ) { T v = b.get(); MC_CHECK( v == V( out ), "RingBufferGuarded(%zu): get returned another value than the oldest", req ); ++out; }
        MC_CHECK( blocks< T >( b, false, T{}, &got, true, V( in ) ), "RingBufferGuarded(%zu): get does not block on the empty buffer", req ); MC_CHECK( got == V( in ), "RingBufferGuarded(%zu): blocked get returned another value than the one put", req ); ++in; ++out;
        for ( size_t i = 0; i < cap; ++i ) b.put( V( in++ ) );
    }
    size_t some = cap / 2; for ( size_t i = 0; i < some; ++i ) { T v = b.get(); MC_CHECK( v == V( out ), "RingBufferGuarded(%zu): get returned another value than the oldest", req ); ++out; }
    if ( mc::on( "C10" ) ) { b.abort(); b.flush( [ & ]( T v ) { MC_CHECK( out < in, "flush of RingBufferGuarded(%zu) hands over more than was stored", req ); MC_CHECK( v == V( out ), "flush of RingBufferGuarded(%zu) handed over another value than the oldest", req ); ++out; } ); MC_CHECK( in == out, "flush of RingBufferGuarded(%zu) handed over too few values", req ); b.flush( [ & ]( T ) { mc::fail( "second flush hands over a value" ); } ); }
    mc::outcome( req );
}
const size_t capN[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4095, 4097, 65535, 65536, 65537 };
// ---- life cycle, one thread: every operation sequence up to a depth, incl. functors that throw
int phase, q[ 12 ], n, seq;
template< class T > __attribute__(( noinline )) void lifeOp( RingBufferGuarded< T > & b, const size_t req, const int k ) {
    using X = typename std::conditional< std::is_pointer< T >::value, void *, T >::type;
    {
        int ph, m; { mc::Quiet z; ph = phase; m = n; }
        int r = 0; T v{}; int cnt = 0;
        auto act = [ & ]( auto f ) { try { f(); r = 0; } catch ( const RingBufferStateError & ) { r = 1; } catch ( const SemaphoreAborted & ) { r = 2; } catch ( const std::bad_function_call & ) { r = 3; } catch ( const h::Boom & ) { r = 4; } catch ( const std::exception & e ) { mc::fail( "unexpected exception %s", e.what() ); } };
        auto take = [ & ]( X x ) { mc::Quiet z; MC_CHECK( n > 0, "flush hands over a value although none is stored" ); MC_CHECK( Conv< X >::from( x ) == q[ 0 ], "flush handed over another value than the oldest" ); memmove( q, q + 1, sizeof q - sizeof *q ); --n; ++cnt; };
        switch ( k ) {
        case 0: // put
            if ( ph == 1 && m == (int)req ) break;     // would block
            { int x; { mc::Quiet z; x = ++seq; } act( [ & ] { b.put( Conv< T >::to( x ) ); } ); mc::Quiet z; if ( ph == 0 ) MC_CHECK( r == 1, "put on an unprimed buffer is not refused" ); if ( ph == 1 ) { MC_CHECK( r == 0, "put failed on a ready buffer" ); q[ n++ ] = x; } if ( ph == 2 ) MC_CHECK( r == 0 || r == 2, "put after abort fails with the wrong exception" ); }
            break;
        case 1: // get
            if ( ph == 1 && m == 0 ) break;
            act( [ & ] { v = b.get(); } ); { mc::Quiet z; if ( ph == 0 ) MC_CHECK( r == 1, "get on an unprimed buffer is not refused" ); if ( ph == 2 ) MC_CHECK( r == 1 || r == 2, "get after abort does not throw" ); if ( ph == 1 ) { MC_CHECK( r == 0 && Conv< T >::from( v ) == q[ 0 ], "get does not return the oldest value" ); memmove( q, q + 1, sizeof q - sizeof *q ); --n; } }
            break;
        case 2: act( [ & ] { b.prime( [ & ]( size_t ix ) { mc::Quiet z; MC_CHECK( (int)ix == cnt && n < (int)req, "priming index %zu, expected %d", ix, cnt ); ++cnt; q[ n++ ] = 50 + (int)ix; return Conv< X >::to( 50 + (int)ix ); } ); } );
            { mc::Quiet z; if ( ph == 0 ) { MC_CHECK( r == 0 && cnt == (int)req, "prime called its function %d times, expected %zu", cnt, req ); phase = 1; } else MC_CHECK( r == 1 && !cnt, "prime is not refused in state %d", ph ); }
            break;
        case 3: act( [ & ] { b.prime( typename RingBufferGuarded< T >::PrimingFunctionType{} ); } ); { mc::Quiet z; MC_CHECK( r == ( ph == 0 ? 3 : 1 ), "prime with an empty function: wrong result %d in state %d", r, ph ); } break;
        case 4: act( [ & ] { b.flush( take ); } ); { mc::Quiet z; if ( ph == 2 ) MC_CHECK( r == 0 && n == 0, "flush did not hand over everything" ); else MC_CHECK( r == 1 && !cnt, "flush is not refused before abort" ); } break;
        case 5: act( [ & ] { b.flush( [ & ]( X x ) { take( x ); throw h::Boom{ 1 }; } ); } ); { mc::Quiet z; if ( ph == 2 ) MC_CHECK( r == ( m ? 4 : 0 ) && cnt == ( m ? 1 : 0 ), "flush with a throwing function: wrong result" ); else MC_CHECK( r == 1 && !cnt, "flush is not refused before abort" ); } break;
        case 6: act( [ & ] { b.abort(); } ); { mc::Quiet z; MC_CHECK( r == 0, "abort throws" ); phase = 2; } break;
        case 7: // prime interrupted by an abort from inside its function
            if ( ph != 0 ) break;
            act( [ & ] { b.prime( [ & ]( size_t ix ) { if ( ix == req / 2 ) b.abort(); mc::Quiet z; ++cnt; q[ n++ ] = 50 + (int)ix; return Conv< X >::to( 50 + (int)ix ); } ); } );
            { mc::Quiet z; MC_CHECK( r == 0 && cnt == (int)( req / 2 ) + 1, "prime interrupted by abort stored %d values", cnt ); phase = 2; }
            break;
        case 8: // priming function throws at some index; afterwards the buffer can only be aborted
            if ( ph != 0 ) break;
            act( [ & ] { b.prime( [ & ]( size_t ix ) -> X { if ( ix == req / 2 ) throw h::Boom{ 2 }; mc::Quiet z; q[ n++ ] = 50 + (int)ix; return Conv< X >::to( 50 + (int)ix ); } ); } );
            { mc::Quiet z; MC_CHECK( r == 4, "exception of the priming function was lost" ); }
            act( [ & ] { b.get(); } ); MC_CHECK( r == 1, "get on a partly primed buffer is not refused" );
            act( [ & ] { b.put( Conv< T >::to( 9 ) ); } ); MC_CHECK( r == 1, "put on a partly primed buffer is not refused" );
            b.abort(); { mc::Quiet z; phase = 2; }
            break;
        }
    }
}
template< class T > void life( size_t req, bool prime, int len ) {
    RingBufferGuarded< T > b( req, prime ); { mc::Quiet z; phase = prime ? 0 : 1; }
    for ( int i = 0; i < len; ++i ) lifeOp( b, req, mc::choose( 9 ) );
    mc::Quiet z; mc::outcome( phase * 1000 + n * 50 + seq );
}
} // namespace
namespace far { void rollover( unsigned n, int pattern ); void bfsType( int t, size_t req ); }

void mc_scenarios( mc::Registry & r ) {
    Opts o, one; one.one().race( false ).steps( 100000000 ); Opts o1; o1.sp( 1 ); Opts seq; seq.race( false );
    c08type< int >( r, "int", 0 ); c08type< uint8_t >( r, "uint8_t", 0 ); c08type< uint64_t >( r, "uint64_t", 0 ); c08type< const char * >( r, "const char*", 0 ); c08type< void * >( r, "void*", 0 ); c08type< long double >( r, "long double", 0 );
    c08type< bool >( r, "bool", 1 ); c08type< int16_t >( r, "int16_t", 1 ); c08type< float >( r, "float", 1 ); c08type< double >( r, "double", 1 ); c08type< E8 >( r, "enum8", 1 ); c08type< E64 >( r, "enum64", 1 ); c08type< S * >( r, "S*", 1 ); c08type< const void * >( r, "const void*", 1 ); c08type< int * const * >( r, "int*const*", 1 ); c08type< int S::* >( r, "member pointer", 1 );
    for ( size_t n : hugeN ) r.add( "C08", h::fmt( "ring/huge/%zu", n ), 0, one, [ n ] { sweep< uint32_t >( "uint32_t", n, 1 ); } );
    r.add( "C08", "ring/sweepAll", 1, one, [] { sweep< uint16_t >( "uint16_t", mc::choose( 5000 ), 4 ); } );
    for ( int t = 0; t < 14; ++t ) r.add( "C08", h::fmt( "ring/bfs/type%d", t ), t < 5 || t == 13 ? 0 : 1, one, [ t ] { static const size_t ns[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33 }; far::bfsType( t, ns[ mc::choose( 15 ) ] ); } );
    for ( unsigned n : { 2u, 8u } ) r.add( "C08", h::fmt( "ring/rollover/%u", n ), 0, one, [ n ] { far::rollover( n, 0 ); } );
    for ( unsigned n : { 4u, 16u, 64u, 1024u, 65536u, 1u << 20 } ) r.add( "C08", h::fmt( "ring/rollover/%u", n ), 1, one, [ n ] { far::rollover( n, 1 ); } );

    using P = std::pair< size_t, int >;
    auto with = []( std::vector< std::string > v, const char * any ) { std::vector< std::string > x; for ( auto & p : v ) if ( p.find_first_of( any ) != std::string::npos ) x.push_back( p ); return x; };
    auto upTo = []( std::vector< std::string > v, size_t ops ) { std::vector< std::string > x; for ( auto & p : v ) { size_t n = 0; for ( char c : p ) if ( c != '/' ) ++n; if ( n <= ops ) x.push_back( p ); } return x; };
    auto flushOk = []( std::vector< std::string > v ) { std::vector< std::string > x; for ( auto & p : v ) { int parts = 0, primes = 0; bool bad = false; bool here = false, hereR = false, primeAny = p.find( 'R' ) != std::string::npos; for ( char c : p ) { if ( c == '/' ) here = hereR = false; if ( c == 'R' ) { if ( !hereR ) ++primes; hereR = true; } if ( c == 'F' ) { if ( !here ) ++parts; here = true; } } bad = parts > 1 || primes > 1 || ( parts && primeAny ); if ( !bad ) x.push_back( p ); } return x; };
    for ( auto n : { P{ 1, 0 }, P{ 1, 1 }, P{ 2, 0 }, P{ 2, 1 }, P{ 2, 2 }, P{ 3, 2 }, P{ 3, 3 }, P{ 5, 4 } } ) {
        family< int >( r, "C09", "rbg/two", 0, o1, pairs( seqs( "pg", 1, 3 ) ), n.first, n.second, false, 2 );
        family< int >( r, "C09", "rbg/three", 0, o, upTo( triples( seqs( "pg", 1, 2 ) ), 4 ), n.first, n.second, false, 4 );
        family< int >( r, "C09", "rbg/three2pb", 0, Opts( o ).pb( 2 ), triples( seqs( "pg", 1, 2 ) ), n.first, n.second, false, 2 );
        family< int >( r, "C10", "rbg/abort32pb", 0, Opts( o ).pb( 2 ), flushOk( with( triples( seqs( "pga", 1, 2 ) ), "a" ) ), n.first, n.second, false, 3 );
        family< int >( r, "C09", "rbg/three2", 1, o1, triples( seqs( "pg", 1, 2 ) ), n.first, n.second, false, 28 );
        family< int >( r, "C10", "rbg/abort2", 0, o1, flushOk( with( pairs( seqs( "pgaF", 1, 2 ) ), "aF" ) ), n.first, n.second, false, 2 );
        family< int >( r, "C10", "rbg/abort3", 0, o, flushOk( with( triples( seqs( "pgaF", 1, 1 ) ), "a" ) ), n.first, n.second, false, 1 );
        family< int >( r, "C23,C24", "rbg/race2", 0, o, flushOk( pairs( seqs( "pga", 1, 2 ) ) ), n.first, n.second, false, 1 );
        family< const char * >( r, "C09", "rbg/twoPtr", 0, o1, pairs( seqs( "pg", 1, 2 ) ), n.first, n.second, false, 1 );
        family< int >( r, "C23", "rbg/race3", 0, o, triples( seqs( "pga", 1, 1 ) ), n.first, n.second, false, 1 );
        family< int >( r, "C09", "rbg/two4", 1, o1, pairs( seqs( "pg", 4, 4 ) ), n.first, n.second, false, 12 );
        family< int >( r, "C09", "rbg/three3", 1, o, triples( seqs( "pg", 2, 3 ) ), n.first, n.second, false, 24 );
        family< int >( r, "C10", "rbg/abort23", 1, o1, flushOk( with( pairs( seqs( "pgaF", 1, 3 ) ), "aF" ) ), n.first, n.second, false, 12 );
        family< int >( r, "C10", "rbg/abort32", 1, o, flushOk( with( triples( seqs( "pga", 1, 2 ) ), "a" ) ), n.first, n.second, false, 12 );
    }
    auto against = []( const std::vector< std::string > & a, const std::vector< std::string > & b ) { std::vector< std::string > x; for ( auto & p : a ) for ( auto & q : b ) x.push_back( p + "/" + q ); return x; };
    for ( auto n : { P{ 1, 0 }, P{ 1, 1 }, P{ 2, 1 }, P{ 2, 2 }, P{ 3, 1 }, P{ 4, 4 } } ) {
        family< int >( r, "C09,C23", "rbg/one4", 0, o1, against( seqs( "pg", 1, 1 ), seqs( "pg", 4, 5 ) ), n.first, n.second, false, 1 );
        family< int >( r, "C10", "rbg/abortOne4", 0, o1, flushOk( against( seqs( "aF", 1, 1 ), seqs( "pg", 3, 4 ) ) ), n.first, n.second, false, 1 );
        family< int >( r, "C10", "rbg/oneAbort4", 0, o1, flushOk( against( seqs( "pg", 1, 1 ), with( seqs( "pgaF", 3, 4 ), "a" ) ) ), n.first, n.second, false, 4 );
    }
    for ( auto n : { P{ 1, 0 }, P{ 1, 1 }, P{ 2, 1 }, P{ 3, 3 } } ) family< int >( r, "C09", "rbg/four", 0, o, { "p/p/g/g", "p/g/g/g", "p/p/p/g", "pp/g/g/g", "gg/p/p/p" }, n.first, n.second, false, 5 );
    for ( size_t n : { 1, 2, 3, 4 } ) {
        family< int >( r, "C10", "rbg/prime2", 0, o, flushOk( with( pairs( seqs( "Rpga", 1, 2 ) ), "R" ) ), n, 0, true, 2 );
        family< void * >( r, "C10", "rbg/primePtr", 0, o, { "R/g", "R/p", "R/a", "R/ag", "Rg/g", "Rgg/p", "Rp/gg", "R/gg" }, n, 0, true, 1 );
        family< int >( r, "C10", "rbg/prime3pb", 0, Opts( o ).pb( 2 ), flushOk( with( triples( seqs( "Rpga", 1, 2 ) ), "R" ) ), n, 0, true, 4 );
        family< int >( r, "C10", "rbg/prime3", 1, o, flushOk( with( triples( seqs( "Rpga", 1, 2 ) ), "R" ) ), n, 0, true, 12 );
        family< int >( r, "C23", "rbg/primeRace", 0, o, { "R/g", "R/p", "R/a", "R/ag", "Rg/g", "Rgg/p", "Rp/gg" }, n, 0, true, 1 );
        for ( int pr = 0; pr < 2; ++pr ) r.add( "C10", h::fmt( "rbg/life/n%zu%s", n, pr ? "prime" : "" ), 0, seq, [ = ] { life< int >( n, pr, 7 ); } );
        for ( int pr = 0; pr < 2; ++pr ) r.add( "C10", h::fmt( "rbg/lifePtr/n%zu%s", n, pr ? "prime" : "" ), 0, seq, [ = ] { life< const int * >( n, pr, 6 ); } );
        for ( int pr = 0; pr < 2; ++pr ) r.add( "C10", h::fmt( "rbg/lifeLong/n%zu%s", n, pr ? "prime" : "" ), 1, seq, [ = ] { life< int >( n, pr, 12 ); } );
    }
    for ( int pr = 0; pr < 2; ++pr ) {
        r.add( "C09,C10", h::fmt( "rbg/capacity/%d", pr ), 0, one, [ pr ] { capacity< int >( capN[ mc::choose( sizeof capN / sizeof *capN ) ], pr ); } );
        r.add( "C09,C10", h::fmt( "rbg/capacityAll/%d", pr ), 1, one, [ pr ] { capacity< int >( 1 + mc::choose( 1100 ), pr ); } );
        for ( size_t n : { LIMIT - 1, LIMIT, LIMIT + 1, 3 * LIMIT, (size_t)0x100000003ull } ) r.add( "C09,C10", h::fmt( "rbg/capacityHuge/%d/%zu", pr, n ), 0, one, [ = ] { capacity< int >( n, pr ); } );
    }
}
