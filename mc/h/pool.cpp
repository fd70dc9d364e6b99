// ObjectPool, BlockPool: C11 (exclusive blocks, exhaustion), C12 (geometry), C13 (construction/destruction), C14 (statistics),
// C15 (block contents), C23, C24
#include "mem.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <algorithm>
#include <array>
#include <mutex>
#include <type_traits>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
using h::mem; using h::enter; using h::leave;

// ---- concurrent part (C11, C14) ------------------------------------------------------------------------------------
// alphabet per thread:  c create and keep   d destroy the oldest kept   x create with a throwing constructor   h hand the oldest kept over
//                       t take what was handed over and destroy it   s read the statistics
struct W { h::Hist hs; int N; long begunC, failedC, okC, begunD, doneD; long maxCertain, maxPossible; long lowSeen; const char * prog; int cur[ 8 ]; };
W w;
void tally() { long cert = w.okC - w.begunD, poss = w.begunC - w.failedC - w.doneD; if ( cert > w.maxCertain ) w.maxCertain = cert; if ( poss > w.maxPossible ) w.maxPossible = poss; }
bool step( int & free, const h::Hist::Op & o ) {
    switch ( o.kind ) { case 'c': if ( o.ret == 1 ) { if ( free <= 0 ) return false; --free; return true; } if ( !o.done ) { return true; } return free == 0; case 'd': ++free; return true; }
    return false;
}
struct Obj {
    int a, b, me;
    explicit Obj( int x, bool boom, int op ) { { mc::Quiet q; ++w.okC; tally(); } w.hs.res( op, 1 ); enter( this, sizeof *this ); MC_CHECK( ( (volatile char *)this )[ 0 ] == 0 && ( (volatile int *)this )[ 2 ] == 0, "memory is not zeroed (%s)", w.prog ); a = x; mc::point(); b = ~x; me = 0x600d; if ( boom ) { leave( this ); { mc::Quiet q; ++w.begunD; } w.hs.inv( 'd' ); throw h::Boom{ x }; } }
    ~Obj() { check(); { mc::Quiet q; ++w.begunD; } a = b = 0; me = 0xdead; leave( this ); }
    void check() const { MC_CHECK( b == ~a && me == 0x600d, "the contents of a live object changed (%s)", w.prog ); }
};
template< class P > struct Ops;
template<> struct Ops< ObjectPool< Obj > > {
    using Ptr = ObjectPool< Obj >::ObjectPtrType; using Pool = ObjectPool< Obj >;
    static Ptr create( Pool & p, int v, bool boom, int op ) { return p.createObj< Obj >( v, boom, op ); }
    static Pool * make( size_t n ) { return new Pool( n ); }
};
struct Elem {  // block element: the arguments come through thread-specific globals
    int a, b; Elem(); ~Elem();
};
int elemOp[ 16 ], elemVal[ 16 ], elemBoom[ 16 ];
Elem::Elem() { unsigned t = mc::self(); int op, v, bm; { mc::Quiet q; op = elemOp[ t ]; v = elemVal[ t ]; bm = elemBoom[ t ]; } if ( op >= 0 ) { { mc::Quiet q; elemOp[ t ] = -1; ++w.okC; tally(); } w.hs.res( op, 1 ); enter( this, 3 * sizeof( Elem ) ); } a = v; mc::point(); b = ~v; if ( bm == 1 ) { leave( this ); { mc::Quiet q; ++w.begunD; } w.hs.inv( 'd' ); throw h::Boom{ v }; } }
Elem::~Elem() { MC_CHECK( b == ~a, "the contents of a live block changed (%s)", w.prog ); a = b = 0; }
template<> struct Ops< BlockPool< Elem > > {
    using Pool = BlockPool< Elem >; using Ptr = Pool::BlockPtrType;
    static Ptr create( Pool & p, int v, bool boom, int op ) { { mc::Quiet q; unsigned t = mc::self(); elemOp[ t ] = op; elemVal[ t ] = v; elemBoom[ t ] = boom; } return p.getBlock(); }
    static Pool * make( size_t n ) { return new Pool( n, 3 ); }
};
template< class P > struct Th {
    using O = Ops< P >; using Ptr = typename O::Ptr;
    Ptr own[ 6 ]; int from = 0, to = 0;
    void add( Ptr && p ) { own[ to++ ] = std::move( p ); }
    bool has() const { return from < to; }
    Ptr pop() { return std::move( own[ from++ ] ); }
};
template< class P > struct Sys { P * pool; std::mutex box; typename Ops< P >::Ptr mail; };
template< class P > void destroy( typename Ops< P >::Ptr && x ) {
    uint64_t he = mc::heap_events(); int i = -1;
    if ( std::is_same< P, BlockPool< Elem > >::value ) { { mc::Quiet q; ++w.begunD; } leave( (void *)x.get() ); }
    i = w.hs.inv( 'd' ); x.reset(); w.hs.res( i, 1 ); { mc::Quiet q; ++w.doneD; }
    if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "releasing an object used the heap (%s)", w.prog );
}
template< class P > __attribute__(( noinline )) void doOp( Sys< P > & s, Th< P > & me, char k, int t ) {
    using O = Ops< P >;
    switch ( k ) {
    case 'c': case 'x': {
        int i = w.hs.inv( 'c' ); int v; { mc::Quiet q; v = 100 * t + i; ++w.begunC; tally(); } uint64_t he = mc::heap_events();
        { mc::Quiet q; w.cur[ t ] = k; }
        try { typename O::Ptr p = O::create( *s.pool, v, k == 'x', i ); MC_CHECK( k != 'x', "exception of a constructor was swallowed (%s)", w.prog ); if ( mc::on( "C24" ) ) MC_CHECK( he == mc::heap_events(), "creating an object used the heap (%s)", w.prog ); MC_CHECK( p, "no object (%s)", w.prog ); me.add( std::move( p ) ); }
        catch ( const RingBufferUnderflow & ) { bool got; { mc::Quiet q; got = w.hs.op[ i ].done; ++w.failedC; } MC_CHECK( !got, "RingBufferUnderflow after the object was constructed" ); w.hs.res( i, 2 ); }
        catch ( const h::Boom & b ) { MC_CHECK( k == 'x' && b.id == v, "foreign exception received (%s)", w.prog ); mc::Quiet q; ++w.doneD; }
        { mc::Quiet q; w.cur[ t ] = 0; }
        break; }
    case 'd': if ( me.has() ) destroy< P >( me.pop() ); break;
    case 'h': if ( me.has() ) { auto p = me.pop(); typename O::Ptr old; { std::lock_guard< std::mutex > g( s.box ); if ( !s.mail ) s.mail = std::move( p ); else old = std::move( p ); } if ( old ) destroy< P >( std::move( old ) ); } break;
    case 't': { typename O::Ptr p; { std::lock_guard< std::mutex > g( s.box ); p = std::move( s.mail ); } if ( p ) destroy< P >( std::move( p ) ); } break;
    case 's': {
        long before; { mc::Quiet q; before = w.lowSeen; }
        auto st = s.pool->getRunningStateStatistics(); mc::Quiet q; if ( !mc::on( "C14" ) ) break;
        MC_CHECK( st.size == (size_t)w.N, "statistics: size is %zu, expected %d (%s)", st.size, w.N, w.prog );
        MC_CHECK( st.runningCount <= (unsigned)w.N, "statistics: runningCount is %u of %d (%s)", st.runningCount, w.N, w.prog );
        MC_CHECK( st.lowWatermark <= st.runningCount, "statistics: lowWatermark %u above runningCount %u (%s)", st.lowWatermark, st.runningCount, w.prog );
        MC_CHECK( (long)st.lowWatermark <= before, "statistics: lowWatermark rose from %ld to %u (%s)", before, st.lowWatermark, w.prog );
        if ( (long)st.lowWatermark < w.lowSeen ) w.lowSeen = st.lowWatermark;
        break; }
    }
}
// statistics when nothing is going on
template< class P > void quietStats( P & p, const char * when ) {
    auto st = p.getRunningStateStatistics(); mc::Quiet q; long live = mem.count; if ( !mc::on( "C14" ) ) return;
    MC_CHECK( st.size == (size_t)w.N && p.getSize() == (size_t)w.N, "size is %zu/%zu, expected %d", st.size, p.getSize(), w.N );
    MC_CHECK( (long)st.runningCount == w.N - live, "statistics: runningCount is %u with %ld of %d blocks in use %s (%s)", st.runningCount, live, w.N, when, w.prog );
    long hi = w.N - w.maxCertain, lo = std::max( 0l, w.N - w.maxPossible );
    MC_CHECK( (long)st.lowWatermark <= hi && (long)st.lowWatermark >= lo, "statistics: lowWatermark is %u, the fewest free blocks ever were between %ld and %ld %s (%s)", st.lowWatermark, lo, hi, when, w.prog );
}
template< class P > void drive( int req, int own, int held, const char * prog ) {
    using O = Ops< P >; int N = 2; while ( N < req ) N *= 2;
    { mc::Quiet q; w.N = N; w.prog = mem.ctx = prog; w.lowSeen = N; }
    Sys< P > s; s.pool = O::make( req ); Sys< P > * sp = &s; Th< P > * th = new Th< P >[ 5 ]; Th< P > & me = th[ 4 ];
    for ( int i = 0; i < held; ++i ) doOp( s, me, 'c', 7 );
    int parts = 1; for ( const char * p = prog; *p; ++p ) parts += *p == '/';
    for ( int t = 0; t < parts; ++t ) for ( int i = 0; i < own; ++i ) doOp( s, th[ t ], 'c', 7 );
    { mc::Quiet q; memset( &w.hs, 0, sizeof w.hs ); }
    quietStats( *s.pool, "at first" ); int free0; { mc::Quiet q; free0 = w.N - mem.count; }
    { h::Par p; int t = 0; const char * q = prog;
      for ( ;; ) { const char * part = q; Th< P > * mine = th + t; int tt = t++; p.go( [ sp, part, mine, tt ] { for ( const char * x = part; *x && *x != '/'; ++x ) { if ( x != part ) mc::point(); doOp( *sp, *mine, *x, tt ); } } ); while ( *q && *q != '/' ) ++q; if ( !*q ) break; ++q; }
      p.join(); }
    quietStats( *s.pool, "afterwards" );
    MC_CHECK( h::linearizable( w.hs, free0, step ), "a request %s (%s, %d of %d blocks free at first)", "was refused while a block was free, or more blocks than exist were handed out", prog, free0, N );
    uint64_t o = 5; for ( int i = 0; i < w.hs.n; ++i ) o = o * 31 + w.hs.op[ i ].kind * 2 + w.hs.op[ i ].ret; mc::outcome( o );
    // no block was lost: give everything back and take all N
    { mc::Quiet q; memset( &w.hs, 0, sizeof w.hs ); }
    for ( int t = 0; t < 5; ++t ) while ( th[ t ].has() ) destroy< P >( th[ t ].pop() );
    doOp( s, me, 't', 7 ); { mc::Quiet q; memset( &w.hs, 0, sizeof w.hs ); }
    quietStats( *s.pool, "after everything was given back" );
    me.from = me.to = 0; for ( int i = 0; i < N + 1; ++i ) doOp( s, me, 'c', 7 );
    { mc::Quiet q; MC_CHECK( mem.count == N, "%d blocks are available after everything was given back, expected %d (%s)", mem.count, N, prog ); memset( &w.hs, 0, sizeof w.hs ); }
    quietStats( *s.pool, "with everything in use" ); while ( me.has() ) destroy< P >( me.pop() ); quietStats( *s.pool, "at the end" );
    delete[] th; delete s.pool; s.pool = nullptr;
}
std::vector< std::string > seqs( const std::string & al, int lo, int hi ) {
    std::vector< std::string > r, cur{ "" }; for ( int l = 1; l <= hi; ++l ) { std::vector< std::string > nx; for ( auto & c : cur ) for ( char x : al ) nx.push_back( c + x ); if ( l >= lo ) r.insert( r.end(), nx.begin(), nx.end() ); cur = nx; } return r;
}
std::vector< std::string > valid( std::vector< std::string > v, int own ) { std::vector< std::string > r; for ( auto & s : v ) { int n = own; bool ok = true; for ( char c : s ) { if ( c == 'c' ) ++n; if ( c == 'd' || c == 'h' ) if ( --n < 0 ) ok = false; } if ( ok ) r.push_back( s ); } return r; }
std::vector< std::string > multi( const std::vector< std::string > & a, int k ) {
    std::vector< std::string > r; std::function< void( size_t, std::string, int ) > rec = [ & ]( size_t from, std::string s, int left ) { if ( !left ) { r.push_back( s ); return; } for ( size_t i = from; i < a.size(); ++i ) rec( i, s.empty() ? a[ i ] : s + "/" + a[ i ], left - 1 ); };
    rec( 0, "", k ); return r;
}
template< class P > void family( mc::Registry & r, const char * props, const std::string & name, int tier, Opts o, std::vector< std::string > progs, int req, int own, int held, unsigned parts ) {
    for ( unsigned k = 0; k < parts; ++k ) { auto * pv = new std::vector< std::string >; for ( size_t i = k; i < progs.size(); i += parts ) pv->push_back( progs[ i ] );
        if ( pv->empty() ) continue;
        r.add( props, name + h::fmt( "/n%d.%d.%d/part%u", req, own, held, k ), tier, o, [ = ] { drive< P >( req, own, held, ( *pv )[ mc::choose( (int)pv->size() ) ].c_str() ); } ); }
}

// ---- C12: geometry ------------------------------------------------------------------------------------------------------
template< size_t K, size_t A > struct alignas( A ) Raw { unsigned char c[ K ]; };
struct Base { virtual ~Base() {} int tag = 0; };
template< size_t K > struct Der : Base { unsigned char c[ K ]; };
struct Other { virtual ~Other() {} long o[ 3 ] = { 1, 2, 3 }; };
template< size_t K > struct Multi : Other, Base { unsigned char c[ K ]; };
struct VBase : virtual Base { long v = 4; };
struct Plain { long p[ 2 ] = { 7, 8 }; };
struct PlainFirst : Plain, Base { char c = 9; };
void fill( void * p, size_t n, int seed ) { for ( size_t i = 0; i < n; ++i ) ( (unsigned char *)p )[ i ] = (unsigned char)( seed * 37 + i * 11 + 5 ); }
bool intact( const void * p, size_t n, int seed ) { for ( size_t i = 0; i < n; ++i ) if ( ( (const unsigned char *)p )[ i ] != (unsigned char)( seed * 37 + i * 11 + 5 ) ) return false; return true; }
// fills the pool, checks places, writes, releases some in different orders and refills
template< class T > void rawGeom( int req, size_t minSize ) {
    ObjectPool< T > p( req, minSize ); size_t N = p.getSize(); { mc::Quiet q; static char b[ 99 ]; snprintf( b, sizeof b, "ObjectPool of %zu-byte elements, minimum size %zu, %d requested", sizeof( T ), minSize, req ); mem.ctx = b; }
    MC_CHECK( N >= (size_t)req && N < 2 * (size_t)std::max( req, 2 ) && ( N & ( N - 1 ) ) == 0, "pool size is %zu", N ); MC_CHECK( p.getElementSize() == std::max( minSize, sizeof( T ) ) && p.getPaddedElementSize() >= p.getElementSize() && p.getPaddedElementSize() % sizeof( void * ) == 0 && p.getPaddedElementSize() < p.getElementSize() + sizeof( void * ), "element sizes %zu, %zu", p.getElementSize(), p.getPaddedElementSize() );
    std::vector< typename ObjectPool< T >::ObjectPtrType > v( N ); std::vector< int > id( N ); int seq = 0;
    auto make = [ & ]( size_t i ) { v[ i ] = p.template createObj< T >(); enter( v[ i ].get(), sizeof( T ) ); for ( size_t k = 0; k < sizeof( T ); ++k ) MC_CHECK( ( (volatile char *)v[ i ].get() )[ k ] == 0, "memory is not zeroed (%s)", mem.ctx ); id[ i ] = ++seq; fill( v[ i ].get(), sizeof( T ), seq ); };
    auto all = [ & ] { for ( size_t i = 0; i < N; ++i ) if ( v[ i ] ) MC_CHECK( intact( v[ i ].get(), sizeof( T ), id[ i ] ), "the contents of a live object changed (%s)", mem.ctx ); };
    auto drop = [ & ]( size_t i ) { leave( v[ i ].get() ); v[ i ].reset(); };
    for ( size_t i = 0; i < N; ++i ) { make( i ); if ( N < 70 || i + 2 > N ) all(); }
    bool full = false; try { p.template createObj< T >(); } catch ( const RingBufferUnderflow & ) { full = true; } MC_CHECK( full, "more objects than the pool size" );
    for ( int round = 0; round < 3; ++round ) {
        for ( size_t i = 0; i < N; ++i ) { size_t k = round == 0 ? i : round == 1 ? N - 1 - i : ( i * 2 + ( i * 2 >= N ? 1 : 0 ) ) % N; if ( !v[ k ] ) continue; if ( ( round == 2 ) || ( ( i + round ) % 3 ) ) { drop( k ); if ( N < 70 ) all(); } }
        for ( size_t i = 0; i < N; ++i ) if ( !v[ i ] ) make( i );
        all();
    }
    for ( size_t i = 0; i < N; ++i ) drop( i );
    mc::outcome( sizeof( T ) * 1000 + N );
}
// polymorphic element type, derived types of many shapes in one pool; blocks must come back unharmed
template< class D > ObjectPool< Base >::ObjectPtrType mk( ObjectPool< Base > & p, int ) { return p.createObj< D >(); }
template< class D > void body( Base * b, void *& start, size_t & n ) { D * d = static_cast< D * >( b ); start = dynamic_cast< void * >( b ); n = sizeof( D ); (void)d; }
template< class D > struct Payload { static unsigned char * at( D & d, size_t & n ) { n = sizeof d.c; return (unsigned char *)&d.c; } };
struct Kind { ObjectPool< Base >::ObjectPtrType ( * make )( ObjectPool< Base > &, int ); size_t size; };
template< class D > Kind kind() { return Kind{ &mk< D >, sizeof( D ) }; }
const Kind kinds[] = { kind< Base >(), kind< Der< 1 > >(), kind< Der< 20 > >(), kind< Multi< 5 > >(), kind< VBase >(), kind< PlainFirst >(), kind< Multi< 30 > >() };
constexpr int NK = sizeof kinds / sizeof *kinds;
void polyGeom( int req, size_t minSize, int pick ) {
    ObjectPool< Base > p( req, minSize ); size_t N = p.getSize(), cap = p.getPaddedElementSize(); { mc::Quiet q; static char b[ 99 ]; snprintf( b, sizeof b, "ObjectPool of a polymorphic type, element size %zu, %d requested, kinds %d", cap, req, pick ); mem.ctx = b; }
    std::vector< ObjectPool< Base >::ObjectPtrType > v( N ); std::vector< void * > at( N );
    auto make = [ & ]( size_t i, int k ) { if ( kinds[ k ].size > cap ) return; v[ i ] = kinds[ k ].make( p, 0 ); at[ i ] = dynamic_cast< void * >( v[ i ].get() ); enter( at[ i ], kinds[ k ].size ); MC_CHECK( (uintptr_t)at[ i ] - mem.arena <= mem.arenaSize - cap, "an object does not lie in a block of the pool (%s)", mem.ctx ); };
    auto drop = [ & ]( size_t i ) { if ( !v[ i ] ) return; leave( at[ i ] ); v[ i ].reset(); };
    for ( int round = 0; round < 6; ++round ) {
        for ( size_t i = 0; i < N; ++i ) if ( !v[ i ] ) make( i, ( pick + (int)i * ( pick % 3 ) + round ) % NK );
        for ( size_t i = 0; i < N; ++i ) if ( ( i + round ) % 2 ) drop( N - 1 - i );
    }
    for ( size_t i = 0; i < N; ++i ) drop( i );
    // all blocks usable by the largest type that fits
    for ( size_t i = 0; i < N; ++i ) make( i, 0 );
    size_t n = 0; for ( size_t i = 0; i < N; ++i ) n += !!v[ i ]; MC_CHECK( n == N, "%zu of %zu blocks usable (%s)", n, N, mem.ctx ); for ( size_t i = 0; i < N; ++i ) drop( i );
    mc::outcome( pick * 1000 + cap );
}
template< class T > void blockGeom( int req, size_t elems ) {
    BlockPool< T > p( req, elems ); size_t N = p.getSize(), bytes = sizeof( T ) * elems; { mc::Quiet q; static char b[ 99 ]; snprintf( b, sizeof b, "BlockPool of %zu elements of %zu bytes, %d requested", elems, sizeof( T ), req ); mem.ctx = b; }
    std::vector< typename BlockPool< T >::BlockPtrType > v( N ); std::vector< int > id( N ); int seq = 0;
    auto make = [ & ]( size_t i ) { v[ i ] = p.getBlock(); enter( v[ i ].get(), bytes ); MC_CHECK( v[ i ].get_deleter().getNumElements() == elems, "getNumElements is %zu, expected %zu (%s)", v[ i ].get_deleter().getNumElements(), elems, mem.ctx ); for ( size_t k = 0; k < bytes; ++k ) MC_CHECK( ( (volatile char *)v[ i ].get() )[ k ] == 0, "block is not zeroed (%s)", mem.ctx ); id[ i ] = ++seq; fill( v[ i ].get(), bytes, seq ); };
    auto all = [ & ] { for ( size_t i = 0; i < N; ++i ) if ( v[ i ] ) MC_CHECK( intact( v[ i ].get(), bytes, id[ i ] ), "the contents of a live block changed (%s)", mem.ctx ); };
    auto drop = [ & ]( size_t i ) { leave( v[ i ].get() ); v[ i ].reset(); };
    for ( size_t i = 0; i < N; ++i ) { make( i ); all(); }
    bool full = false; try { p.getBlock(); } catch ( const RingBufferUnderflow & ) { full = true; } MC_CHECK( full, "more blocks than the pool size" );
    for ( int round = 0; round < 3; ++round ) { for ( size_t i = 0; i < N; ++i ) { size_t k = round & 1 ? N - 1 - i : i; if ( ( i + round ) % 3 || round == 2 ) { drop( k ); all(); } } for ( size_t i = 0; i < N; ++i ) if ( !v[ i ] ) make( i ); all(); }
    for ( size_t i = 0; i < N; ++i ) drop( i );
    mc::outcome( bytes * 100 + N );
}

// pools with more blocks than small counters hold: filled, exhausted, emptied in different orders, statistics at every step
template< class P, class Make, class At > void hugePool( P & p, size_t req, size_t bytes, Make mk, At at, const char * what ) {
    size_t N = 2; while ( N < req ) N *= 2; MC_CHECK( p.getSize() == N, "%s of %zu blocks reports size %zu", what, req, p.getSize() );
    using Ptr = decltype( mk( 0ul ) ); std::vector< Ptr > v( N ); std::vector< char * > a; size_t used = 0, low = N;
    auto stats = [ & ] { auto s = p.getRunningStateStatistics(); MC_CHECK( s.size == N && s.runningCount == N - used && s.lowWatermark == low, "%s of %zu blocks, %zu in use, fewest free %zu: statistics are size %zu, runningCount %u, lowWatermark %u", what, N, used, low, s.size, s.runningCount, s.lowWatermark ); };
    auto take = [ & ]( size_t i ) { v[ i ] = mk( i ); ++used; if ( N - used < low ) low = N - used; stats(); };
    auto put = [ & ]( size_t i ) { MC_CHECK( *at( v[ i ] ) == (long)i && at( v[ i ] )[ bytes / 8 - 1 ] == (long)i, "%s of %zu blocks: the contents of block %zu changed", what, N, i ); v[ i ].reset(); --used; stats(); };
    for ( int round = 0; round < 3; ++round ) {
        for ( size_t i = 0; i < N; ++i ) if ( !v[ i ] ) take( i );
        { mc::Quiet q; a.clear(); for ( auto & x : v ) a.push_back( (char *)at( x ) ); std::sort( a.begin(), a.end() ); for ( size_t i = 1; i < N; ++i ) MC_CHECK( (size_t)( a[ i ] - a[ i - 1 ] ) >= bytes, "%s of %zu blocks: two live blocks share memory", what, N ); uintptr_t b; size_t s; MC_CHECK( mc::block_of( a[ 0 ], b, s ) && (uintptr_t)a[ N - 1 ] + bytes <= b + s && (uintptr_t)a[ 0 ] % sizeof( void * ) == 0, "%s of %zu blocks: a block lies outside of the pool", what, N ); }
        bool full = false; try { mk( 1 ); } catch ( const RingBufferUnderflow & ) { full = true; } MC_CHECK( full, "%s of %zu blocks hands out more", what, N ); stats();
        for ( size_t i = 0; i < N; ++i ) { size_t k = round ? N - 1 - i : i; if ( round != 1 || k % 3 ) put( k ); }
    }
    mc::outcome( N );
}
struct Cell { long v; explicit Cell( long x ) : v( x ) {} };
void hugeObjects( size_t req ) { ObjectPool< Cell > p( req ); hugePool( p, req, sizeof( Cell ), [ & ]( size_t i ) { return p.createObj< Cell >( (long)i ); }, []( auto & x ) { return &x->v; }, "ObjectPool" ); }
void hugeBlocks( size_t req, size_t e ) { BlockPool< long > p( req, e ); hugePool( p, req, 8 * e, [ & ]( size_t i ) { auto b = p.getBlock(); for ( size_t k = 0; k < e; ++k ) MC_CHECK( b[ k ] == 0, "block is not zeroed" ); b[ 0 ] = b[ e - 1 ] = (long)i; return b; }, []( auto & x ) { return x.get(); }, "BlockPool" ); }
// ---- C13: construction and destruction exactly once; size gate ------------------------------------------------------------
struct Ev { int live, ctor, dtor, last; int ids[ 64 ]; int n; };
Ev ev;
void born( int id ) { mc::Quiet q; ++ev.live; ++ev.ctor; ev.last = id; MC_CHECK( ev.n < 64, "harness" ); ev.ids[ ev.n++ ] = id; }
void died( int id ) { mc::Quiet q; --ev.live; ++ev.dtor; for ( int i = 0; i < ev.n; ++i ) if ( ev.ids[ i ] == id ) { ev.ids[ i ] = ev.ids[ --ev.n ]; ev.ids[ ev.n ] = 0; return; } mc::fail( "object %d is destroyed although it does not exist (any more)", id ); }
struct Args { int x; std::string s; };
struct B13 { int id; explicit B13( int i, int boom = 0 ) : id( i ) { if ( boom ) throw h::Boom{ i }; born( id ); } B13( int i, std::unique_ptr< int > u, const std::string & s, int & out ) : id( i ) { out = *u + (int)s.size(); born( id ); } virtual ~B13() { died( id ); } };
template< size_t K > struct D13 : B13 { unsigned char c[ K ]; explicit D13( int i, int boom = 0 ) : B13( i, boom == 1 ) { if ( boom == 2 ) throw h::Boom{ i }; for ( size_t k = 0; k < K; ++k ) c[ k ] = (unsigned char)i; } ~D13() override { for ( size_t k = 0; k < K; ++k ) MC_CHECK( c[ k ] == (unsigned char)id, "contents of a live object changed" ); } };
struct F13 : Other, B13 { int z; explicit F13( int i, int boom = 0 ) : B13( i ), z( i ) { if ( boom ) throw h::Boom{ i }; } ~F13() override { MC_CHECK( z == id, "contents changed" ); } };
using Pool13 = ObjectPool< B13 >; using Ptr13 = Pool13::ObjectPtrType;
constexpr size_t ELEM13 = 48;
struct S13 { Pool13 * p; Ptr13 own[ 3 ]; std::shared_ptr< B13 > sh; int seq; int used; bool bound[ 3 ]; };    // bound: the pointer's deleter is the pool's, the pointer was not moved from since
static_assert( sizeof( D13< 32 > ) <= ELEM13 && sizeof( D13< 40 > ) > ELEM13, "" );
static_assert( sizeof( F13 ) <= 56, "" );
__attribute__(( noinline )) void op13( S13 & s, int k, int slot ) {
    size_t N = s.p->getSize(); int live0, used; { mc::Quiet q; live0 = ev.live; used = s.used; }
    auto before = s.p->getRunningStateStatistics(); bool was = !!s.own[ slot ];
    auto create = [ & ]( auto f, int boom ) {
        int id = ++s.seq; int r = 0; Ptr13 n;
        try { n = f( id ); r = 1; } catch ( const RingBufferUnderflow & ) { r = 2; } catch ( const h::Boom & b ) { MC_CHECK( b.id == id, "another exception arrives" ); r = 3; } catch ( const ObjectPoolElementSizeError & ) { r = 4; }
        bool full = used == (int)N;
        if ( boom == 9 ) MC_CHECK( r == 4, "a type too large for the pool: %s", r == 1 ? "accepted" : r == 2 ? "RingBufferUnderflow thrown instead of ObjectPoolElementSizeError" : "wrong exception" );
        else if ( full ) MC_CHECK( r == 2, "creating an object in an exhausted pool: result %d", r );
        else MC_CHECK( r == ( boom ? 3 : 1 ), "creating an object with %d of %zu blocks in use: result %d", used, N, r );
        { mc::Quiet q; MC_CHECK( ev.live == live0 + ( r == 1 ), "%d objects exist after a create that %s, expected %d", ev.live, r == 1 ? "succeeded" : "failed", live0 + ( r == 1 ) ); }
        auto st = s.p->getRunningStateStatistics(); MC_CHECK( st.runningCount == before.runningCount - ( r == 1 ), "a block was lost or gained by a create with result %d", r ); if ( r == 2 || r == 4 ) MC_CHECK( st.lowWatermark == before.lowWatermark, "a refused create moved the low watermark" );
        if ( r == 1 ) { { mc::Quiet q; MC_CHECK( ev.last == id && n->id == id, "the object was not built from the forwarded arguments" ); ++s.used; } bool had = !!s.own[ slot ]; s.own[ slot ] = std::move( n ); mc::Quiet q; s.bound[ slot ] = true; MC_CHECK( !n, "source of a move still owns" ); if ( had ) --s.used; MC_CHECK( ev.live == live0 + 1 - had, "assigning over an owning pointer did not destroy exactly the old object" ); }
    };
    switch ( k ) {
    case 0: create( [ & ]( int id ) { return s.p->createObj< B13 >( id ); }, 0 ); break;
    case 1: create( [ & ]( int id ) { return s.p->createObj< D13< 32 > >( id ); }, 0 ); break;
    case 2: create( [ & ]( int id ) { return s.p->createObj< F13 >( id ); }, sizeof( F13 ) > s.p->getPaddedElementSize() ? 9 : 0 ); break;
    case 3: create( [ & ]( int id ) { return s.p->createObj< D13< 40 > >( id ); }, 9 ); break;
    case 4: create( [ & ]( int id ) -> Ptr13 { return s.p->createObj< B13 >( id, 1 ); }, 1 ); break;
    case 5: { int c0; { mc::Quiet q; c0 = ev.ctor; } create( [ & ]( int id ) -> Ptr13 { return s.p->createObj< D13< 32 > >( id, 2 ); }, 2 ); mc::Quiet q; (void)c0; } break;
    case 6: { int out = 0; create( [ & ]( int id ) { return s.p->createObj< B13 >( id, std::make_unique< int >( 40 ), std::string( "ab" ), out ); }, 0 ); if ( used < (int)N ) MC_CHECK( out == 42, "arguments were not forwarded" ); } break;
    case 7: s.own[ slot ].reset(); { mc::Quiet q; if ( was ) --s.used; MC_CHECK( ev.live == live0 - was, "reset destroyed %d objects", live0 - ev.live ); } break;
    case 8: { int to = ( slot + 1 ) % 3; bool had = !!s.own[ to ]; s.own[ to ] = std::move( s.own[ slot ] ); mc::Quiet q; s.bound[ to ] = s.bound[ slot ]; s.bound[ slot ] = false; MC_CHECK( !s.own[ slot ], "source of a move still owns" ); if ( had ) --s.used; MC_CHECK( ev.live == live0 - had, "move assignment destroyed %d objects, expected %d", live0 - ev.live, had ); } break;
    case 9: { bool had = !!s.sh; s.sh = std::shared_ptr< B13 >( std::move( s.own[ slot ] ) ); mc::Quiet q; s.bound[ slot ] = false; if ( had ) --s.used; MC_CHECK( ev.live == live0 - had, "conversion to a shared pointer destroyed %d objects, expected %d", live0 - ev.live, had ); } break;
    case 10: { auto copy = s.sh; s.sh.reset(); { mc::Quiet q; MC_CHECK( ev.live == live0, "object destroyed although a shared owner is left" ); } bool had = !!copy; copy.reset(); mc::Quiet q; if ( had ) --s.used; MC_CHECK( ev.live == live0 - had, "last shared owner destroyed %d objects", live0 - ev.live ); } break;
    // another object is put into a pointer that owned, or still owns, one
    case 11: { int to = ( slot + 1 ) % 3; bool ok; { mc::Quiet q; ok = s.bound[ to ]; } if ( !ok ) break; bool had = !!s.own[ to ]; s.own[ to ].reset( s.own[ slot ].release() ); mc::Quiet q; MC_CHECK( !s.own[ slot ] && !!s.own[ to ] == was, "ownership lost" ); if ( had ) --s.used; MC_CHECK( ev.live == live0 - had, "reset of an owning pointer destroyed %d objects, expected %d", live0 - ev.live, had ); } break;
    }
    auto st = s.p->getRunningStateStatistics(); mc::Quiet q; MC_CHECK( (int)st.runningCount == (int)N - s.used, "%u blocks are free with %d of %zu in use", st.runningCount, s.used, N );
}
void life13( size_t req, size_t minSize, int len ) {
    S13 s{}; auto pool = std::make_unique< Pool13 >( req, minSize ); s.p = pool.get(); { mc::Quiet q; mem.ctx = "ObjectPool life cycle"; }
    for ( int i = 0; i < len; ++i ) { int k = mc::choose( 12 ); op13( s, k, k == 10 ? 0 : i % 2 ); }
    mc::outcome( s.used * 100 + s.seq );
    for ( auto & o : s.own ) o.reset();
    s.sh.reset();
    { mc::Quiet q; MC_CHECK( ev.live == 0 && ev.n == 0, "%d objects were never destroyed", ev.live ); }
    std::vector< Ptr13 > v; for ( size_t i = 0; i < pool->getSize(); ++i ) v.push_back( pool->createObj< B13 >( 1000 + (int)i ) ); bool full = false; try { pool->createObj< B13 >( 1 ); } catch ( const RingBufferUnderflow & ) { full = true; } MC_CHECK( full, "pool grew" );
}
// objects are constructed in zeroed memory: the constructor finds nothing but zeros, whatever was there before, up to the largest type accepted
struct ZBase { int seen; __attribute__(( noinline )) ZBase() { seen = 1; } virtual ~ZBase() { seen = 0x5b5b5b5b; } };
template< size_t K > struct Zed : ZBase { unsigned char c[ K ]; __attribute__(( noinline )) Zed() { check( c, K ); } ~Zed() override { for ( auto & x : c ) x = 0x5c; }
    static __attribute__(( noinline )) void check( volatile unsigned char * p, size_t n ) { for ( size_t i = 0; i < n; ++i ) { if ( p[ i ] ) mc::fail( "byte %zu of %zu of the memory an object is constructed in is not zero (%s)", i, n, mem.ctx ); p[ i ] = (unsigned char)( i * 7 + 0x81 ); } } };
template< size_t... K > void zeroedIn( ObjectPool< ZBase > & p, int depth, std::index_sequence< K... > ) {
    ObjectPool< ZBase >::ObjectPtrType v[ 2 ]; int n = 0;
    using F = ObjectPool< ZBase >::ObjectPtrType ( * )( ObjectPool< ZBase > & ); static const struct { size_t size; F f; } all[] = { { sizeof( Zed< K > ), []( ObjectPool< ZBase > & q ) { return q.createObj< Zed< K > >(); } }... };
    int usable[ sizeof...( K ) ], nu = 0; for ( size_t i = 0; i < sizeof...( K ); ++i ) if ( all[ i ].size <= p.getPaddedElementSize() ) usable[ nu++ ] = (int)i;
    if ( nu > 3 ) { usable[ 2 ] = usable[ nu / 2 ]; usable[ 1 ] = usable[ nu - 2 ]; usable[ 0 ] = usable[ nu - 1 ]; nu = 3; }
    if ( !nu ) return;
    for ( int d = 0; d < depth; ++d ) { int k = mc::choose( nu + 2 ); if ( k < nu ) { int s = n++ & 1; v[ s ].reset(); v[ s ] = all[ usable[ k ] ].f( p ); } else v[ k - nu ].reset(); }
    mc::outcome( p.getPaddedElementSize() );
}
void zeroed( size_t minSize, int depth ) { { mc::Quiet q; static char b[ 60 ]; snprintf( b, sizeof b, "minimum element size %zu", minSize ); mem.ctx = b; } ObjectPool< ZBase > p( 2, minSize ); zeroedIn( p, depth, std::index_sequence< 1, 4, 5, 12, 19, 20, 27, 28, 50, 52, 100, 243, 244, 245, 1000, 1012, 4083, 4084, 4085, 5000, 9000, 65524, 70000 >() ); }
// size gate for every pair of element size and type size, empty and exhausted pool
template< size_t K > struct G13 : B13 { unsigned char c[ K * 8 - 8 ]; G13() : B13( (int)K ) {} };
template<> struct G13< 1 > : B13 { G13() : B13( 1 ) {} };
template< class G > void gateOne( Pool13 & p, bool exhausted, int id ) {
    size_t sz = sizeof( G ), cap = p.getPaddedElementSize(); if ( sz <= cap && cap % alignof( G ) ) return;     // (would not be aligned as it needs)
    auto before = p.getRunningStateStatistics(); int r = 0, live0; { mc::Quiet q; live0 = ev.live; }
    try { auto x = p.createObj< G >(); r = 1; MC_CHECK( x->id == id, "wrong object" ); } catch ( const ObjectPoolElementSizeError & ) { r = 4; } catch ( const RingBufferUnderflow & ) { r = 2; }
    MC_CHECK( r == ( sz > cap ? 4 : exhausted ? 2 : 1 ), "type of %zu bytes, element size %zu (%zu padded)%s: result %d", sz, p.getElementSize(), cap, exhausted ? ", exhausted" : "", r );
    auto after = p.getRunningStateStatistics(); MC_CHECK( after.runningCount == before.runningCount && ( r == 1 || after.lowWatermark == before.lowWatermark ), "refused type took a block" ); mc::Quiet q; MC_CHECK( ev.live == live0, "object left" );
}
template< size_t K > struct alignas( 16 ) GA13 : B13 { unsigned char c[ K ]; explicit GA13() : B13( (int)K ) { c[ 0 ] = c[ K - 1 ] = 3; } ~GA13() override { MC_CHECK( c[ 0 ] == 3 && c[ K - 1 ] == 3, "contents changed" ); } };
template< size_t... K > void gateAll( Pool13 & p, bool ex, std::index_sequence< K... > ) { ( gateOne< G13< K + 1 > >( p, ex, (int)K + 1 ), ... ); gateOne< GA13< 1 > >( p, ex, 1 ); gateOne< GA13< 16 > >( p, ex, 16 ); gateOne< GA13< 32 > >( p, ex, 32 ); gateOne< GA13< 48 > >( p, ex, 48 ); }
void gate( size_t minSize ) {
    Pool13 p( 2, minSize ); gateAll( p, false, std::make_index_sequence< 12 >() );
    { auto a = p.createObj< B13 >( 90 ), b = p.createObj< B13 >( 91 ); gateAll( p, true, std::make_index_sequence< 12 >() ); }
    gateAll( p, false, std::make_index_sequence< 12 >() ); mc::outcome( minSize );
}

// ---- C15: blocks -------------------------------------------------------------------------------------------------------------
int failAt, builtNo;
template< bool NoEx, size_t K > struct E15 { unsigned char c[ K ]; E15() noexcept( NoEx ) { { mc::Quiet q; if ( !NoEx && failAt >= 0 && builtNo == failAt ) { throw h::Boom{ failAt }; } ++builtNo; ++ev.live; ++ev.ctor; } for ( auto & x : c ) x = 0x5a; } ~E15() { for ( auto & x : c ) { MC_CHECK( x == 0x5a, "an element that is not (or no longer) constructed is destroyed" ); x = 0; } mc::Quiet q; --ev.live; ++ev.dtor; } };
template< class T > bool good( const T & t ) { return t.c[ 0 ] == 0x5a && t.c[ sizeof t.c - 1 ] == 0x5a; }
template< class T > void classBlocks( size_t req, size_t elems, int len, bool mayThrow ) {
    BlockPool< T > p( req, elems ); size_t N = p.getSize(); std::vector< typename BlockPool< T >::BlockPtrType > v( N ); std::vector< char > had( N ); size_t used = 0; { mc::Quiet q; failAt = -1; mem.ctx = "BlockPool of class elements"; }
    for ( int step = 0; step < len; ++step ) {
        int k = mc::choose( mayThrow ? 3 : 2 ); int live0, ctor0, dtor0; { mc::Quiet q; live0 = ev.live; ctor0 = ev.ctor; dtor0 = ev.dtor; }
        if ( k == 0 || k == 2 ) {
            int at = k == 2 ? mc::choose( (int)elems ) : -1; { mc::Quiet q; failAt = at; builtNo = 0; } int r = 0; typename BlockPool< T >::BlockPtrType b;
            try { b = p.getBlock(); r = 1; } catch ( const RingBufferUnderflow & ) { r = 2; } catch ( const h::Boom & x ) { MC_CHECK( x.id == at, "another exception" ); r = 3; } { mc::Quiet q; failAt = -1; }
            MC_CHECK( r == ( used == N ? 2 : at >= 0 ? 3 : 1 ), "getBlock with %zu of %zu in use, element constructor throwing at %d: result %d", used, N, at, r );
            { mc::Quiet q; MC_CHECK( ev.live == live0 + ( r == 1 ? (int)elems : 0 ), "getBlock left %d elements, expected %d", ev.live - live0, r == 1 ? (int)elems : 0 ); if ( r == 3 ) MC_CHECK( ev.ctor - ctor0 == at && ev.dtor - dtor0 == at, "%d elements constructed and %d destroyed, expected %d", ev.ctor - ctor0, ev.dtor - dtor0, at ); }
            if ( r == 1 ) { MC_CHECK( b.get_deleter().getNumElements() == elems, "getNumElements is %zu, expected %zu", b.get_deleter().getNumElements(), elems ); for ( size_t i = 0; i < elems; ++i ) MC_CHECK( good( b[ i ] ), "element %zu is not default-constructed", i ); for ( size_t i = 0; i < N; ++i ) if ( !v[ i ] ) { if ( had[ i ] && step % 2 ) v[ i ].reset( b.release() ); else v[ i ] = std::move( b ); had[ i ] = 1; break; } ++used; }
        } else {
            if ( !used ) continue;
            for ( size_t i = 0; i < N; ++i ) if ( v[ ( i + step ) % N ] ) { v[ ( i + step ) % N ].reset(); break; }
            --used; mc::Quiet q; MC_CHECK( ev.dtor - dtor0 == (int)elems && ev.live == live0 - (int)elems, "giving a block up destroyed %d elements, expected %zu", ev.dtor - dtor0, elems );
        }
        MC_CHECK( p.getRunningStateStatistics().runningCount == N - used, "%u blocks are free, expected %zu", p.getRunningStateStatistics().runningCount, N - used );
    }
    v.clear(); { mc::Quiet q; MC_CHECK( ev.live == 0, "%d elements were never destroyed", ev.live ); }
    v.resize( N ); for ( auto & b : v ) b = p.getBlock();
    v.clear(); { mc::Quiet q; MC_CHECK( ev.live == 0, "%d elements were never destroyed", ev.live ); }
    mc::outcome( used * 100 + elems );
}
// long arrays, the constructor of element `at` throws (-1: none)
template< bool NoEx, size_t K > void longClasses( size_t req, size_t elems, int at ) {
    using T = E15< NoEx, K >; BlockPool< T > p( req, elems ); { mc::Quiet q; failAt = at; mem.ctx = "long BlockPool of class elements"; }
    for ( int round = 0; round < 4; ++round ) {
        { mc::Quiet q; builtNo = 0; ev.ctor = ev.dtor = 0; } bool boom = false; typename BlockPool< T >::BlockPtrType b;
        try { b = p.getBlock(); } catch ( const h::Boom & x ) { boom = x.id == at; }
        MC_CHECK( boom == ( at >= 0 ), "blocks of %zu elements, element %d throws: getBlock %s", elems, at, b ? "succeeded" : "failed" );
        if ( boom ) { mc::Quiet q; MC_CHECK( ev.ctor == at && ev.dtor == at && ev.live == 0, "blocks of %zu elements, element %d throws: %d constructed, %d destroyed", elems, at, ev.ctor, ev.dtor ); }
        else { { mc::Quiet q; MC_CHECK( ev.live == (int)elems, "blocks of %zu elements hold %d", elems, ev.live ); } for ( size_t i = 0; i < elems; ++i ) MC_CHECK( good( b[ i ] ), "element %zu of %zu is not default-constructed", i, elems ); b.reset(); mc::Quiet q; MC_CHECK( ev.live == 0 && ev.dtor == (int)elems, "blocks of %zu elements: giving one up destroyed %d", elems, ev.dtor ); }
        auto s = p.getRunningStateStatistics(); MC_CHECK( s.runningCount == p.getSize(), "blocks of %zu elements, element %d throws: a block was lost", elems, at );
    }
    mc::outcome( elems * 10 + at );
}
template< class T > void scalarBlocks( size_t req, size_t elems ) {
    BlockPool< T > p( req, elems ); size_t N = p.getSize(); { mc::Quiet q; mem.ctx = "BlockPool of scalars"; }
    for ( int round = 0; round < 3; ++round ) {
        std::vector< typename BlockPool< T >::BlockPtrType > v;
        for ( size_t i = 0; i < N; ++i ) { v.push_back( p.getBlock() ); MC_CHECK( v[ i ].get_deleter().getNumElements() == elems, "getNumElements is %zu, expected %zu", v[ i ].get_deleter().getNumElements(), elems ); for ( size_t k = 0; k < elems; ++k ) { MC_CHECK( v[ i ][ k ] == T(), "element %zu of a scalar block is not zero (round %d)", k, round ); memset( (void *)&v[ i ][ k ], 0xff, sizeof( T ) ); } }
        auto moved = std::move( v[ 0 ] ); MC_CHECK( moved && !v[ 0 ] && moved.get_deleter().getNumElements() == elems, "moving a block pointer" );
    }
    typename BlockPool< T >::BlockPtrType none; MC_CHECK( none.get_deleter().getNumElements() == 0, "a deleter without pool reports elements" );
    mc::outcome( elems );
}
template< class T > void blockTypes( mc::Registry & r, const char * tn ) {
    Opts one; one.one().race( false );
    r.add( "C12", h::fmt( "pool/blockGeom/%s", tn ), 0, one, [] { int n = mc::choose( 9 ); blockGeom< T >( n, 1 + mc::choose( 20 ) ); } );
    r.add( "C15", h::fmt( "pool/scalars/%s", tn ), 0, one, [] { int n = mc::choose( 6 ); scalarBlocks< T >( n, 1 + mc::choose( 40 ) ); } );
}
template< size_t K, size_t A = 1 > void geomType( mc::Registry & r ) {
    Opts one; one.one().race( false ); using T = Raw< K, A >;
    r.add( "C12", h::fmt( "pool/geom/%zu.%zu", K, A ), 0, one, [] { static const int ns[] = { 0, 1, 2, 3, 4, 5, 8, 16, 33 }; static const size_t ms[] = { 0, 1, 4, 5, 7, 8, 9, 12, 17, 31, 40 }; int n = ns[ mc::choose( 9 ) ]; rawGeom< T >( n, ms[ mc::choose( 11 ) ] ); } );
}
template< size_t... K > void geomTypes( mc::Registry & r, std::index_sequence< K... > ) { ( geomType< K + 1 >( r ), ... ); }
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts o, one, seq; one.one().race( false ); seq.race( false );
    Opts hu = one; hu.steps( 100000000 );
    for ( size_t n : { 255, 256, 257, 32768, 65535, 65536, 65537 } ) { r.add( "C11,C12,C14", h::fmt( "pool/hugeObjects/%zu", n ), 0, hu, [ n ] { hugeObjects( n ); } ); r.add( "C11,C12,C14", h::fmt( "pool/hugeBlocks/%zu", n ), 0, hu, [ n ] { hugeBlocks( n, n < 300 ? 40 : 3 ); } ); }
    r.add( "C11,C12,C14", "pool/hugeObjects/1048576", 1, hu, [] { hugeObjects( 1u << 20 ); } );
    static const size_t longs[] = { 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 32767, 32769, 65535, 65536, 65537, 70000, 131073 };
    for ( size_t e : longs ) {
        r.add( "C12,C15", h::fmt( "pool/longBlocks/%zu", e ), 0, one, [ e ] { switch ( mc::choose( 5 ) ) { case 0: scalarBlocks< char >( 2, e ); break; case 1: scalarBlocks< double >( 1, e ); break; case 2: blockGeom< char >( 2, e ); break; case 3: blockGeom< Raw< 3, 1 > >( 2, e ); break; default: scalarBlocks< void * >( 3, e ); } } );
        r.add( "C15", h::fmt( "pool/longClasses/%zu", e ), 0, e < 5000 ? one : hu, [ e ] { int at[] = { -1, -1, (int)e - 1, 0, 1, (int)e / 2, (int)e - 2 }; int k = mc::choose( 7 ); if ( k ) longClasses< false, 3 >( e < 5000 ? 2 : 1, e, at[ k ] ); else longClasses< true, 1 >( 1, e, -1 ); } );
    }
    geomType< 255 >( r ); geomType< 257 >( r ); geomType< 1000 >( r ); geomType< 4095 >( r ); geomType< 4097 >( r ); geomType< 5000 >( r ); geomType< 20001 >( r );
    using OP = ObjectPool< Obj >; using BP = BlockPool< Elem >;
    struct Cfg { int req, own, held; };
    auto with = []( std::vector< std::string > v, const char * any ) { std::vector< std::string > x; for ( auto & p : v ) if ( p.find_first_of( any ) != std::string::npos ) x.push_back( p ); return x; };
    for ( auto c : { Cfg{ 2, 0, 0 }, Cfg{ 2, 0, 1 }, Cfg{ 2, 1, 0 }, Cfg{ 4, 1, 1 } } ) {
        family< OP >( r, "C11,C12,C13,C14,C24", "pool/two", 0, o, multi( valid( seqs( "cdxht", 1, 2 ), c.own ), 2 ), c.req, c.own, c.held, 4 );
        family< OP >( r, "C14", "pool/stats2", 0, o, with( multi( valid( seqs( "cdxs", 1, 2 ), c.own ), 2 ), "s" ), c.req, c.own, c.held, 4 );
        family< OP >( r, "C14", "pool/stats23", 1, o, with( multi( valid( seqs( "cdxs", 1, 3 ), c.own ), 2 ), "s" ), c.req, c.own, c.held, 16 );
        family< BP >( r, "C11,C12,C14,C15,C24", "pool/blk2", 0, o, multi( valid( seqs( "cdx", 1, 2 ), c.own ), 2 ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C23,C24", "pool/race2", 0, o, multi( valid( seqs( "cdhts", 1, 2 ), c.own ), 2 ), c.req, c.own, c.held, 2 );
        family< BP >( r, "C23,C24", "pool/blkRace2", 0, o, multi( valid( seqs( "cds", 1, 2 ), c.own ), 2 ), c.req, c.own, c.held, 1 );
        family< OP >( r, "C11", "pool/two3pb", 0, Opts( o ).pb( 2 ), multi( valid( seqs( "cdht", 1, 3 ), c.own ), 2 ), c.req, c.own, c.held, 8 );
        family< OP >( r, "C14", "pool/stats23pb", 0, Opts( o ).pb( 2 ), with( multi( valid( seqs( "cdxs", 1, 3 ), c.own ), 2 ), "s" ), c.req, c.own, c.held, 4 );
        family< OP >( r, "C11", "pool/two3", 1, o, multi( valid( seqs( "cdxht", 1, 3 ), c.own ), 2 ), c.req, c.own, c.held, 32 );
        family< BP >( r, "C11", "pool/blk3", 1, o, multi( valid( seqs( "cdx", 1, 3 ), c.own ), 2 ), c.req, c.own, c.held, 12 );
    }
    for ( auto c : { Cfg{ 2, 0, 0 }, Cfg{ 2, 0, 1 }, Cfg{ 4, 1, 0 }, Cfg{ 4, 1, 1 } } ) {
        family< OP >( r, "C11", "pool/three", 0, o, multi( valid( seqs( "cdx", 1, 1 ), c.own ), 3 ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C14", "pool/stats3", 0, o, with( multi( valid( seqs( "cdxs", 1, 1 ), c.own ), 3 ), "s" ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C11", "pool/three2pb", 0, Opts( o ).pb( 2 ), multi( valid( seqs( "cd", 1, 2 ), c.own ), 3 ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C23", "pool/race3", 0, Opts( o ).pb( 2 ), multi( valid( seqs( "cds", 1, 1 ), c.own ), 3 ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C14", "pool/stats32pb", 0, Opts( o ).pb( 2 ), with( multi( valid( seqs( "cds", 1, 2 ), c.own ), 3 ), "s" ), c.req, c.own, c.held, 4 );
        family< OP >( r, "C11,C23", "pool/three2", 1, o, multi( valid( seqs( "cd", 1, 2 ), c.own ), 3 ), c.req, c.own, c.held, 20 );
        family< OP >( r, "C14", "pool/stats32", 1, o, with( multi( valid( seqs( "cds", 1, 2 ), c.own ), 3 ), "s" ), c.req, c.own, c.held, 40 );
    }
    // one operation interrupted anywhere by an arbitrary history of others
    for ( auto c : { Cfg{ 2, 0, 0 }, Cfg{ 2, 1, 0 }, Cfg{ 4, 0, 0 }, Cfg{ 4, 1, 1 }, Cfg{ 4, 0, 3 } } ) {
        auto against = [ & ]( const char * a, int al, const char * b, int lo, int hi ) { std::vector< std::string > x; for ( auto & p : valid( seqs( a, al, al ), c.own ) ) for ( auto & q : valid( seqs( b, lo, hi ), c.own ) ) x.push_back( p + "/" + q ); return x; };
        family< OP >( r, "C11,C13,C14,C23", "pool/one4", 0, o, against( "cdxht", 1, "cd", 3, 4 ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C14,C23", "pool/oneStat4", 0, o, against( "s", 1, "cdx", 2, 4 ), c.req, c.own, c.held, 1 );
        family< OP >( r, "C11,C14", "pool/one6", 0, o, against( "cdx", 1, "cd", 5, 6 ), c.req, c.own, c.held, 2 );
        family< OP >( r, "C11,C14,C12", "pool/pair4", 0, o, against( "cdx", 2, "cd", 3, 4 ), c.req, c.own, c.held, 4 );
        family< BP >( r, "C11,C12,C14,C15,C23", "pool/blkOne4", 0, o, against( "cdx", 1, "cd", 3, 4 ), c.req, c.own, c.held, 4 );
        family< OP >( r, "C11,C14", "pool/one9", 1, o, against( "cdxh", 1, "cd", 7, 9 ), c.req, c.own, c.held, 12 );
        family< OP >( r, "C11,C14", "pool/pair6", 1, o, against( "cdx", 2, "cd", 5, 6 ), c.req, c.own, c.held, 12 );
    }
    geomTypes( r, std::make_index_sequence< 24 >() ); geomType< 33, 1 >( r ); geomType< 41, 1 >( r ); geomType< 100, 1 >( r ); geomType< 6, 2 >( r ); geomType< 12, 4 >( r ); geomType< 20, 4 >( r ); geomType< 24, 8 >( r );
    for ( int n : { 64, 100, 512 } ) r.add( "C12", h::fmt( "pool/geomBig/%d", n ), 0, one, [ n ] { int k = mc::choose( 3 ); k == 0 ? rawGeom< Raw< 5, 1 > >( n, 0 ) : k == 1 ? rawGeom< Raw< 8, 8 > >( n, 0 ) : rawGeom< Raw< 3, 1 > >( n, 13 ); } );
    r.add( "C12", "pool/poly", 0, one, [] { static const size_t ms[] = { 0, 17, 20, 24, 25, 31, 33, 36, 40, 45, 48, 55, 56, 60, 64, 65, 72, 80 }; int n = 1 + mc::choose( 4 ) * 2; size_t m = ms[ mc::choose( 18 ) ]; polyGeom( n, m, mc::choose( NK * 3 ) ); } );
    blockTypes< char >( r, "char" ); blockTypes< int16_t >( r, "short" ); blockTypes< int >( r, "int" ); blockTypes< double >( r, "double" ); blockTypes< void * >( r, "ptr" ); blockTypes< long double >( r, "long double" ); blockTypes< bool >( r, "bool" );
    r.add( "C12", "pool/blockGeom/odd", 0, one, [] { int n = mc::choose( 9 ); size_t e = 1 + mc::choose( 16 ); switch ( mc::choose( 4 ) ) { case 0: blockGeom< Raw< 3, 1 > >( n, e ); break; case 1: blockGeom< Raw< 5, 1 > >( n, e ); break; case 2: blockGeom< Raw< 12, 4 > >( n, e ); break; default: blockGeom< Raw< 7, 1 > >( n, e ); } } );
    for ( size_t req : { 1, 3 } ) {
        r.add( "C11,C13", h::fmt( "pool/life/%zu", req ), 0, seq, [ = ] { static const size_t ms[] = { 41, 48 }; life13( req, ms[ mc::choose( 2 ) ], 5 ); } );
        r.add( "C11,C13", h::fmt( "pool/life6/%zu", req ), 1, seq, [ = ] { life13( req, 48, 6 ); } );
        for ( size_t e : { 1, 2, 3, 5 } ) {
            r.add( "C15", h::fmt( "pool/classes/%zu.%zu", req, e ), 0, one, [ = ] { switch ( mc::choose( 4 ) ) { case 0: classBlocks< E15< false, 1 > >( req, e, 6, true ); break; case 1: classBlocks< E15< false, 12 > >( req, e, 5, true ); break; case 2: classBlocks< E15< true, 3 > >( req, e, 7, false ); break; default: classBlocks< E15< true, 8 > >( req, e, 7, false ); } } );
            r.add( "C15", h::fmt( "pool/classes8/%zu.%zu", req, e ), 1, one, [ = ] { switch ( mc::choose( 2 ) ) { case 0: classBlocks< E15< false, 7 > >( req, e, 8, true ); break; default: classBlocks< E15< true, 5 > >( req, e, 12, false ); } } );
        }
    }
    r.add( "C13", "pool/zeroed", 0, one, [] { static const size_t ms[] = { 0, 17, 21, 24, 25, 33, 41, 57, 65, 97, 113, 249, 256, 257, 1009, 1017, 1024, 4089, 4096, 4097, 5013, 9012 }; zeroed( ms[ mc::choose( 22 ) ], 5 ); } );
    for ( size_t m : { 65529, 65537, 70009 } ) r.add( "C13", h::fmt( "pool/zeroedBig/%zu", m ), 0, one, [ m ] { zeroed( m, 3 ); } );
    r.add( "C13", "pool/gate", 0, one, [] { gate( mc::choose( 110 ) ); } );
}
