// Several instances of one class with different parameters in one program: C01, C06, C08-C17, C20, C22, C25 hold for each of
// them independently of the others, one after the other, interleaved, nested, exchanged, and in different threads (C23).
#include "mem.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include "RingBufferGuarded.hpp"
#include "RingBufferSimple.hpp"
#include "Semaphore.hpp"
#include <mutex>
using namespace ReiserRT::Core;
using mc::Opts;

namespace {
int alive;     // elements, objects and messages alive
size_t pow2( size_t n ) { size_t k = 2; while ( k < n ) k *= 2; return k; }
uintptr_t arenaOf( const void * p, size_t n ) { uintptr_t b = 0; size_t s = 0; MC_CHECK( mc::block_of( p, b, s ) && (uintptr_t)p + n <= b + s, "memory handed out lies outside of any arena" ); return b; }
// ---- pools: pointers may be exchanged between pools, each block returns to where it came from ---------------------------------
template< bool NoEx > struct El { unsigned char c[ 6 ]; El() noexcept( NoEx ) { memset( c, 0x5a, 6 ); mc::Quiet q; ++alive; } ~El() { MC_CHECK( c[ 0 ] == 0x5a && c[ 5 ] == 0x5a, "an element that does not exist is destroyed" ); memset( c, 0, 6 ); mc::Quiet q; --alive; } };
struct Ob { int tag; unsigned char x[ 4 ]; explicit Ob( int t ) : tag( t ) { mc::Quiet q; ++alive; } virtual ~Ob() { tag = -1; mc::Quiet q; --alive; } virtual size_t bytes() const { return sizeof( Ob ); } };
struct ObBig : Ob { unsigned char y[ 64 ]; explicit ObBig( int t ) : Ob( t ) { memset( y, t, 64 ); } ~ObBig() override { for ( auto b : y ) MC_CHECK( b == (unsigned char)tag, "the contents of a live object changed" ); } size_t bytes() const override { return sizeof( ObBig ); } };
struct Par2 { size_t req, sz; };      // requested number, elements per block (BlockPool) or minimum size (ObjectPool)
template< class T > struct BlockSide {
    using Pool = BlockPool< T >; using Ptr = typename Pool::BlockPtrType; static constexpr int KINDS = 1;
    static Ptr make( Pool & p, int, int ) { return p.getBlock(); }
    static bool fits( const Par2 &, int ) { return true; }
    static int elems( const Par2 & a ) { return std::is_scalar< T >::value ? 0 : (int)a.sz; }
    static size_t bytes( const Ptr &, const Par2 & a ) { return a.sz * sizeof( T ); }
    static void check( const Ptr & b, const Par2 & a, int ) { MC_CHECK( b.get_deleter().getNumElements() == a.sz, "getNumElements is %zu for a block of %zu", b.get_deleter().getNumElements(), a.sz ); for ( size_t i = 0; i < a.sz; ++i ) { if constexpr ( std::is_scalar< T >::value ) MC_CHECK( b[ i ] == T(), "block is not zeroed" ); else MC_CHECK( b[ i ].c[ 0 ] == 0x5a && b[ i ].c[ 5 ] == 0x5a, "element %zu of %zu is not constructed", i, a.sz ); } }
};
struct ObjSide {
    using Pool = ObjectPool< Ob >; using Ptr = Pool::ObjectPtrType; static constexpr int KINDS = 2;
    static Ptr make( Pool & p, int kind, int tag ) { if ( kind ) return p.createObj< ObBig >( tag ); return p.createObj< Ob >( tag ); }
    static bool fits( const Par2 & a, int kind ) { return !kind || a.sz >= sizeof( ObBig ); }
    static int elems( const Par2 & ) { return 1; }
    static size_t bytes( const Ptr & o, const Par2 & ) { return o->bytes(); }
    static void check( const Ptr & o, const Par2 &, int tag ) { MC_CHECK( o->tag == tag, "the contents of a live object changed" ); }
};
struct PM { int8_t owner[ 3 ], tag[ 3 ]; int used[ 2 ], low[ 2 ], which[ 2 ]; uintptr_t arena[ 2 ]; } pm;
template< class S > void pools( const Par2 ( & par )[ 3 ], int depth ) {
    using Pool = typename S::Pool; { mc::Quiet q; memset( pm.owner, -1, sizeof pm.owner ); pm.which[ 0 ] = 0; pm.which[ 1 ] = 1; pm.low[ 0 ] = (int)pow2( par[ 0 ].req ); pm.low[ 1 ] = (int)pow2( par[ 1 ].req ); }
    std::unique_ptr< Pool > P[ 2 ]; for ( int i = 0; i < 2; ++i ) P[ i ] = std::make_unique< Pool >( par[ i ].req, par[ i ].sz );
    typename S::Ptr v[ 3 ];
    auto where = [ & ]( int p ) -> const Par2 & { int w; { mc::Quiet q; w = pm.which[ p ]; } return par[ w ]; };
    auto gone = [ & ]( int s ) { mc::Quiet q; if ( pm.owner[ s ] >= 0 ) --pm.used[ (int)pm.owner[ s ] ]; pm.owner[ s ] = -1; };
    for ( int d = 0; d < depth; ++d ) {
        int k = mc::choose( S::KINDS * 6 + 9 );
        if ( k < S::KINDS * 6 ) {        // a new block in slot s from pool p
            int p = k % 2, s = k / 2 % 3, kind = k / 6, r = 0, tag = d + 1; const Par2 & a = where( p ); int used; { mc::Quiet q; used = pm.used[ p ]; }
            typename S::Ptr n; try { n = S::make( *P[ p ], kind, tag ); r = 1; } catch ( const RingBufferUnderflow & ) { r = 2; } catch ( const ObjectPoolElementSizeError & ) { r = 3; }
            int want = !S::fits( a, kind ) ? 3 : used == (int)pow2( a.req ) ? 2 : 1; MC_CHECK( r == want, "pool of %zu blocks (%zu), %d in use, kind %d: result %d, expected %d", pow2( a.req ), a.sz, used, kind, r, want );
            if ( r == 1 ) { uintptr_t ar = arenaOf( n.get(), S::bytes( n, a ) ); { mc::Quiet q; if ( !pm.arena[ p ] ) pm.arena[ p ] = ar; MC_CHECK( ar == pm.arena[ p ], "a block does not come from the pool that was asked" ); ++pm.used[ p ]; if ( (int)pow2( a.req ) - pm.used[ p ] < pm.low[ p ] ) pm.low[ p ] = (int)pow2( a.req ) - pm.used[ p ]; } v[ s ] = std::move( n ); gone( s ); mc::Quiet q; pm.owner[ s ] = (int8_t)p; pm.tag[ s ] = (int8_t)tag; }
        } else if ( ( k -= S::KINDS * 6 ) < 3 ) { v[ k ].reset(); gone( k ); }
        else if ( k < 6 ) { int s = k - 3, t = ( s + 1 ) % 3; v[ t ] = std::move( v[ s ] ); gone( t ); mc::Quiet q; pm.owner[ t ] = pm.owner[ s ]; pm.tag[ t ] = pm.tag[ s ]; pm.owner[ s ] = -1; }
        else if ( k == 6 ) { v[ 0 ].swap( v[ 1 ] ); mc::Quiet q; std::swap( pm.owner[ 0 ], pm.owner[ 1 ] ); std::swap( pm.tag[ 0 ], pm.tag[ 1 ] ); }
        else {                          // another pool with other parameters in place of pool p
            int p = k - 7; bool busy; { mc::Quiet q; busy = pm.used[ p ]; } if ( busy ) continue;
            P[ p ].reset(); int w; { mc::Quiet q; w = pm.which[ p ] = 3 - pm.which[ 0 ] - pm.which[ 1 ]; pm.low[ p ] = (int)pow2( par[ w ].req ); pm.arena[ p ] = 0; } P[ p ] = std::make_unique< Pool >( par[ w ].req, par[ w ].sz );
        }
        int expect = 0;
        for ( int p = 0; p < 2; ++p ) { auto st = P[ p ]->getRunningStateStatistics(); const Par2 & a = where( p ); mc::Quiet q; expect += S::elems( a ) * pm.used[ p ]; MC_CHECK( st.size == pow2( a.req ) && (int)st.runningCount == (int)pow2( a.req ) - pm.used[ p ] && (int)st.lowWatermark == pm.low[ p ], "pool of %zu blocks, %d in use, fewest free %d: statistics are size %zu, runningCount %u, lowWatermark %u", pow2( a.req ), pm.used[ p ], pm.low[ p ], st.size, st.runningCount, st.lowWatermark ); }
        { mc::Quiet q; MC_CHECK( alive == expect, "%d elements alive, expected %d", alive, expect ); }
        for ( int s = 0; s < 3; ++s ) { int o, t; { mc::Quiet q; o = pm.owner[ s ]; t = pm.tag[ s ]; } MC_CHECK( !!v[ s ] == ( o >= 0 ), "a pointer %s", o >= 0 ? "lost its block" : "still owns after it was moved from" ); if ( o >= 0 ) S::check( v[ s ], where( o ), t ); }
    }
    for ( auto & x : v ) x.reset();
    { mc::Quiet q; MC_CHECK( alive == 0, "%d elements were never destroyed", alive ); uint64_t o = 0; for ( int s = 0; s < 3; ++s ) o = o * 4 + pm.owner[ s ] + 1; mc::outcome( o ); }
    for ( int p = 0; p < 2; ++p ) { std::vector< typename S::Ptr > all; size_t N = P[ p ]->getSize(); for ( size_t i = 0; i < N; ++i ) all.push_back( S::make( *P[ p ], 0, 1 ) ); bool full = false; try { S::make( *P[ p ], 0, 1 ); } catch ( const RingBufferUnderflow & ) { full = true; } MC_CHECK( full && N == pow2( where( p ).req ), "the capacity of a pool changed" ); for ( auto & x : all ) { uintptr_t ar = arenaOf( x.get(), 1 ); mc::Quiet q; MC_CHECK( !pm.arena[ p ] || ar == pm.arena[ p ], "a pool owns a block of another" ); } }
}
// ---- queues -------------------------------------------------------------------------------------------------------------------
struct QM { int q[ 2 ][ 6 ], n[ 2 ], hw[ 2 ], last[ 2 ], which[ 2 ]; int expect; } qm;
const char * const nm[] = { "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "mA", "mB", "mC", "mD", "mE", "mF" };
struct Sm : MessageBase { int id, in; MessageQueue * to; explicit Sm( int i, bool real = true, MessageQueue * t = nullptr ) : id( i ), in( real ), to( t ) { if ( real ) { mc::Quiet q; ++alive; } } Sm( Sm && o ) : id( o.id ), in( 1 ), to( o.to ) { mc::Quiet q; ++alive; } ~Sm() override { if ( in ) { mc::Quiet q; --alive; } }
    const char * name() const override { return nm[ id & 15 ]; } void dispatch() override { { mc::Quiet q; MC_CHECK( id == qm.expect, "message %d dispatched, expected %d", id, qm.expect ); qm.expect = -1; } if ( to ) to->emplace< Sm >( id ^ 8 ); } };
struct Bg : Sm { unsigned char pay[ 72 ]; explicit Bg( int i, bool real = true ) : Sm( i, real ) { memset( pay, i + 1, 72 ); } Bg( Bg && o ) : Sm( std::move( o ) ) { memcpy( pay, o.pay, 72 ); } void dispatch() override { for ( auto b : pay ) MC_CHECK( b == id + 1, "the payload of a message changed" ); Sm::dispatch(); } };
struct QPar { int N; size_t sz; bool lockable; };
void queues( int depth ) {
    static const QPar par[ 3 ] = { { 1, sizeof( Sm ), false }, { 3, sizeof( Bg ) + 3, true }, { 2, sizeof( Sm ) + 8, true } };
    { mc::Quiet z; qm.which[ 0 ] = 0; qm.which[ 1 ] = 1; qm.last[ 0 ] = qm.last[ 1 ] = -1; }
    std::unique_ptr< MessageQueue > Q[ 2 ]; for ( int i = 0; i < 2; ++i ) Q[ i ] = std::make_unique< MessageQueue >( (size_t)par[ i ].N, par[ i ].sz, par[ i ].lockable );
    for ( int d = 0; d < depth; ++d ) {
        int k = mc::choose( 16 ), a = k & 1, n, id = d & 7, w, nOther, wOther; k /= 2; { mc::Quiet z; n = qm.n[ a ]; w = qm.which[ a ]; nOther = qm.n[ !a ]; wOther = qm.which[ !a ]; } const QPar & pr = par[ w ];
        auto added = [ & ]( int q, int i ) { mc::Quiet z; qm.q[ q ][ qm.n[ q ]++ ] = i; if ( qm.n[ q ] > qm.hw[ q ] ) qm.hw[ q ] = qm.n[ q ]; };
        switch ( k ) {
        case 0: if ( n < pr.N ) { Q[ a ]->emplace< Sm >( id ); added( a, id ); } break;
        case 1: if ( n < pr.N ) { Q[ a ]->put( Sm( id, false ) ); added( a, id ); } break;
        case 2: case 3: { bool fits = sizeof( Bg ) <= pr.sz; if ( fits && n == pr.N ) break; bool threw = false; try { if ( k == 2 ) Q[ a ]->emplace< Bg >( id ); else Q[ a ]->put( Bg( id, false ) ); } catch ( const MessageQueueElementSizeError & ) { threw = true; } MC_CHECK( threw == !fits, "a message of %zu bytes was %s by a queue of elements of %zu", sizeof( Bg ), threw ? "refused" : "accepted", pr.sz ); if ( fits ) added( a, id ); } break;
        case 4: if ( n < pr.N && nOther < par[ wOther ].N ) { Q[ a ]->emplace< Sm >( id, true, Q[ !a ].get() ); added( a, id | 64 ); { mc::Quiet z; qm.q[ a ][ qm.n[ a ] - 1 ] = id | 64; } } break;
        case 5: case 6: if ( n ) { int m; { mc::Quiet z; m = qm.q[ a ][ 0 ]; } if ( ( m & 64 ) && nOther == par[ wOther ].N ) break; { mc::Quiet z; qm.expect = m & 63; memmove( qm.q[ a ], qm.q[ a ] + 1, sizeof qm.q[ a ] - sizeof( int ) ); --qm.n[ a ]; qm.last[ a ] = m & 63; } bool woken = false; auto wake = [ &woken ] { woken = true; }; if ( k == 5 ) Q[ a ]->getAndDispatch(); else { Q[ a ]->getAndDispatch( std::ref( wake ) ); MC_CHECK( woken, "wake-up functor did not run" ); } { mc::Quiet z; MC_CHECK( qm.expect == -1, "nothing was dispatched" ); } if ( m & 64 ) added( !a, ( m & 63 ) ^ 8 ); } break;
        case 7: { if ( n ) { Q[ a ]->purge(); { mc::Quiet z; qm.n[ a ] = 0; } } else { for ( int q = 0; q < 2; ++q ) for ( int i = 0; ; ++i ) { bool more, danger; { mc::Quiet z; more = i < qm.n[ q ]; danger = more && ( qm.q[ q ][ i ] & 64 ); } if ( !more ) break; if ( danger ) goto out; } Q[ a ].reset(); int x; { mc::Quiet z; x = qm.which[ a ] = 3 - qm.which[ 0 ] - qm.which[ 1 ]; qm.hw[ a ] = 0; qm.last[ a ] = -1; } Q[ a ] = std::make_unique< MessageQueue >( (size_t)par[ x ].N, par[ x ].sz, par[ x ].lockable ); } } break;
        }
        out:
        for ( int q = 0; q < 2; ++q ) { int m, hw, l, x; { mc::Quiet z; m = qm.n[ q ]; hw = qm.hw[ q ]; l = qm.last[ q ]; x = qm.which[ q ]; } auto s = Q[ q ]->getRunningStateStatistics(); MC_CHECK( (int)s.size == par[ x ].N && (int)s.runningCount == m && (int)s.highWatermark == hw, "queue for %d messages, %d enqueued, %d at most: statistics are size %zu, runningCount %u, highWatermark %u", par[ x ].N, m, hw, s.size, s.runningCount, s.highWatermark );
            const char * name = Q[ q ]->getNameOfLastMessageDispatched(); MC_CHECK( l < 0 ? !strcmp( name, "[NONE]" ) : name == nm[ l & 15 ], "the last message dispatched is named %s", name ); bool lk = true; try { auto l = Q[ q ]->getAutoDispatchLock(); } catch ( const MessageQueueDispatchLockingDisabled & ) { lk = false; } MC_CHECK( lk == par[ x ].lockable, "dispatch locking is that of another queue" ); }
        mc::Quiet z; MC_CHECK( alive == qm.n[ 0 ] + qm.n[ 1 ], "%d messages alive, %d enqueued", alive, qm.n[ 0 ] + qm.n[ 1 ] );
    }
    { mc::Quiet z; mc::outcome( qm.n[ 0 ] * 8 + qm.n[ 1 ] ); }
    for ( auto & q : Q ) q.reset(); mc::Quiet z; MC_CHECK( alive == 0, "%d messages were never destroyed", alive );
}
// ---- rings ----------------------------------------------------------------------------------------------------------------------
struct RM { int q[ 2 ][ 8 ], n[ 2 ], which[ 2 ]; } rm;
template< class T > T val( int i ) { if constexpr ( std::is_pointer< T >::value ) return (T)( (char *)&rm + i ); else return (T)i; }
template< class R, class T, bool GUARDED > void rings( int depth ) {
    static const size_t req[ 3 ] = { 1, 3, 5 }; auto cap = [ & ]( int w ) { return GUARDED ? (int)req[ w ] : (int)pow2( req[ w ] ); };
    { mc::Quiet z; rm.which[ 0 ] = 0; rm.which[ 1 ] = 1; } std::unique_ptr< R > r[ 2 ]; for ( int i = 0; i < 2; ++i ) r[ i ] = std::make_unique< R >( req[ i ] ); int seq = 0;
    auto put = [ & ]( int a ) { int n, c; { mc::Quiet z; n = rm.n[ a ]; c = cap( rm.which[ a ] ); } if ( GUARDED && n == c ) return; bool over = false; int x = ++seq; try { r[ a ]->put( val< T >( x ) ); } catch ( const RingBufferOverflow & ) { over = true; } MC_CHECK( over == ( n == c ), "put with %d of %d stored %s", n, c, over ? "throws" : "succeeds" ); mc::Quiet z; if ( !over ) rm.q[ a ][ rm.n[ a ]++ ] = x; };
    auto get = [ & ]( int a ) { int n, x; { mc::Quiet z; n = rm.n[ a ]; x = rm.q[ a ][ 0 ]; } if ( GUARDED && !n ) return; bool under = false; try { T v = r[ a ]->get(); MC_CHECK( v == val< T >( x ), "another value than the oldest of this ring" ); } catch ( const RingBufferUnderflow & ) { under = true; } MC_CHECK( under == !n, "get with %d stored %s", n, under ? "throws" : "succeeds" ); mc::Quiet z; if ( n ) { memmove( rm.q[ a ], rm.q[ a ] + 1, 7 * sizeof( int ) ); --rm.n[ a ]; } };
    for ( int d = 0; d < depth; ++d ) {
        int k = mc::choose( 8 ), a = k & 1; switch ( k / 2 ) { case 0: put( a ); break; case 1: get( a ); break; case 2: put( a ); put( a ); break;
            default: { r[ a ].reset(); int w; { mc::Quiet z; w = rm.which[ a ] = 3 - rm.which[ 0 ] - rm.which[ 1 ]; rm.n[ a ] = 0; } r[ a ] = std::make_unique< R >( req[ w ] ); } }
        for ( int i = 0; i < 2; ++i ) { int w; { mc::Quiet z; w = rm.which[ i ]; } MC_CHECK( r[ i ]->getSize() == pow2( req[ w ] ), "ring for %zu reports size %zu", req[ w ], (size_t)r[ i ]->getSize() ); }
    }
    { mc::Quiet z; mc::outcome( rm.n[ 0 ] * 8 + rm.n[ 1 ] ); }
    for ( int a = 0; a < 2; ++a ) for ( ;; ) { int n; { mc::Quiet z; n = rm.n[ a ]; } if ( !n ) break; get( a ); }
}
// ---- semaphores: the functor of one uses the other ---------------------------------------------------------------------------------
void semaphores( int depth ) {
    static const size_t init[ 2 ] = { 1, 2 }, cap[ 2 ] = { 2, 3 }; Semaphore A( init[ 0 ], cap[ 0 ] ), B( init[ 1 ], cap[ 1 ] ); Semaphore * s[ 2 ] = { &A, &B }; size_t c[ 2 ] = { init[ 0 ], init[ 1 ] }; bool dead[ 2 ] = { false, false };
    for ( int d = 0; d < depth; ++d ) {
        int k = mc::choose( 18 ), a = k & 1, o = !a; k /= 2;
        auto can = [ & ]( int x, bool give ) { return !dead[ x ] && ( give ? c[ x ] < cap[ x ] : c[ x ] > 0 ); };
        auto op = [ & ]( bool outer, bool inner, bool boom ) { if ( !can( a, outer ) || !can( o, inner ) ) return; bool threw = false; auto f = [ & ] { inner ? s[ o ]->give() : s[ o ]->take(); if ( boom ) throw h::Boom{ 3 }; }; try { outer ? s[ a ]->give( std::ref( f ) ) : s[ a ]->take( std::ref( f ) ); } catch ( const h::Boom & ) { threw = true; } MC_CHECK( threw == boom, "exception of the functor was lost" ); c[ o ] += inner ? 1 : -1; if ( !boom ) c[ a ] += outer ? 1 : -1; };
        switch ( k ) {
        case 0: if ( can( a, true ) ) { s[ a ]->give(); ++c[ a ]; } break;
        case 1: if ( can( a, false ) ) { s[ a ]->take(); --c[ a ]; } break;
        case 2: op( true, true, false ); break; case 3: op( true, false, false ); break; case 4: op( false, true, false ); break; case 5: op( false, false, false ); break; case 6: op( true, true, true ); break; case 7: op( false, true, true ); break;
        case 8: s[ a ]->abort(); dead[ a ] = true; break;
        }
        for ( int i = 0; i < 2; ++i ) { if ( !dead[ i ] ) MC_CHECK( s[ i ]->getAvailableCount() == c[ i ], "count is %zu, expected %zu", s[ i ]->getAvailableCount(), c[ i ] ); else { bool t = false; try { s[ i ]->take(); } catch ( const SemaphoreAborted & ) { t = true; } MC_CHECK( t, "take after abort succeeds" ); } }
    }
    mc::outcome( c[ 0 ] * 8 + c[ 1 ] + dead[ 0 ] * 64 + dead[ 1 ] * 128 );
}
// ---- mutexes: holding one says nothing about the other ---------------------------------------------------------------------------------
struct MM { bool held[ 2 ]; int owner[ 2 ]; } mm;
void mutexes() {
    auto * m = new Mutex[ 2 ]; h::Par p;
    for ( int t = 0; t < 2; ++t ) p.go( [ m, t ] {
        m[ t ].lock(); { mc::Quiet z; MC_CHECK( !mm.held[ t ], "two threads hold one mutex" ); mm.held[ t ] = true; mm.owner[ t ] = t; }
        bool other = m[ !t ].try_lock(); if ( other ) { { mc::Quiet z; MC_CHECK( !mm.held[ !t ], "two threads hold one mutex" ); mm.held[ !t ] = true; mm.owner[ !t ] = t; } mc::point(); { mc::Quiet z; mm.held[ !t ] = false; } m[ !t ].unlock(); } else { mc::Quiet z; mc::outcome( 5 ); }
        { mc::Quiet z; MC_CHECK( mm.held[ t ] && mm.owner[ t ] == t, "unlocking one mutex released another" ); mm.held[ t ] = false; } m[ t ].unlock(); } );
    p.join(); for ( int i = 0; i < 2; ++i ) { MC_CHECK( m[ i ].try_lock() && !m[ i ].try_lock(), "mutex is not free, or taken twice" ); m[ i ].unlock(); } delete[] m; mc::outcome( 1 );
}
// ---- one instance per thread: no schedule lets one influence the other (and no hidden shared state: C23) ---------------------------------
void apart( int what ) {
    { mc::Quiet z; qm.expect = -1; }
    auto body = [ what ]( int t ) {
        switch ( what ) {
        case 0: { BlockPool< El< true > > p( 2, 2 + t ); for ( int i = 0; i < 2; ++i ) { auto a = p.getBlock(), b = p.getBlock(); MC_CHECK( a.get_deleter().getNumElements() == (size_t)( 2 + t ), "getNumElements" ); bool full = false; try { p.getBlock(); } catch ( const RingBufferUnderflow & ) { full = true; } MC_CHECK( full, "pool grew" ); } MC_CHECK( p.getRunningStateStatistics().runningCount == 2 && p.getRunningStateStatistics().lowWatermark == 0, "statistics" ); } break;
        case 1: { ObjectPool< Ob > p( 2, t ? sizeof( ObBig ) : 0 ); int bad = 0; for ( int i = 0; i < 2; ++i ) { auto a = p.createObj< Ob >( 5 + t ); try { auto b = p.createObj< ObBig >( 7 ); } catch ( const ObjectPoolElementSizeError & ) { ++bad; } MC_CHECK( a->tag == 5 + t, "contents changed" ); } MC_CHECK( bad == ( t ? 0 : 2 ), "size gate" ); MC_CHECK( p.getRunningStateStatistics().lowWatermark == (size_t)( t ? 0 : 1 ), "statistics" ); } break;
        case 2: { struct M : MessageBase { int id, * n; M( int i, int * p ) : id( i ), n( p ) {} M( M && ) = default; void dispatch() override { MC_CHECK( *n == id, "order" ); ++*n; } const char * name() const override { return nm[ id ]; } }; MessageQueue q( 1 + t, sizeof( M ), t ); int n = 0, in = 0; for ( int i = 0; i < 2; ++i ) { for ( int k = 0; k <= t; ++k ) if ( k ) q.put( M( in++, &n ) ); else q.emplace< M >( in++, &n ); for ( int k = 0; k <= t; ++k ) { q.getAndDispatch(); MC_CHECK( q.getNameOfLastMessageDispatched() == nm[ n - 1 ], "name of the last message" ); } } MC_CHECK( n == in && q.getRunningStateStatistics().highWatermark == (size_t)( 1 + t ), "statistics" ); } break;
        case 3: { Semaphore s( t, 2 + t ); for ( int i = 0; i < 2; ++i ) { int runs = 0; auto f = [ &runs ] { ++runs; }; s.give(); s.give( std::ref( f ) ); MC_CHECK( s.getAvailableCount() == (size_t)( 2 + t ), "count" ); s.take( std::ref( f ) ); s.take(); MC_CHECK( runs == 2, "functor" ); } } break;
        case 4: { RingBufferGuarded< int > r( 2 + t ); for ( int i = 0; i < 2; ++i ) { for ( int k = 0; k < 2 + t; ++k ) r.put( 10 * i + k ); for ( int k = 0; k < 2 + t; ++k ) MC_CHECK( r.get() == 10 * i + k, "order" ); } } break;
        case 5: { RingBufferSimple< void * > r( 2 + 2 * t ); for ( int i = 0; i < 2; ++i ) { char c[ 4 ]; for ( int k = 0; k < 2 + 2 * t; ++k ) r.put( c + k ); bool full = false; try { r.put( c ); } catch ( const RingBufferOverflow & ) { full = true; } MC_CHECK( full, "ring grew" ); for ( int k = 0; k < 2 + 2 * t; ++k ) MC_CHECK( r.get() == c + k, "order" ); } } break;
        default: { Mutex m; for ( int i = 0; i < 3; ++i ) { m.lock(); MC_CHECK( !m.try_lock(), "try_lock on a held mutex" ); m.unlock(); } } break;
        } };
    h::Par p; for ( int t = 0; t < 2; ++t ) p.go( [ body, t ] { body( t ); } ); p.join(); mc::Quiet z; MC_CHECK( alive == 0, "%d elements were never destroyed", alive ); mc::outcome( what );
}
} // namespace

void mc_scenarios( mc::Registry & r ) {
    Opts seq = Opts().race( false ), o, hb = Opts().m( Opts::HB );
    static const Par2 blk[ 3 ] = { { 1, 3 }, { 2, 1 }, { 4, 5 } }, obj[ 3 ] = { { 1, 0 }, { 2, sizeof( ObBig ) }, { 3, sizeof( Ob ) + 9 } };
    for ( int t = 0; t < 2; ++t ) { const char * l = t ? "Long" : ""; int x = t ? 2 : 0;
        r.add( "C11,C12,C14,C15", h::fmt( "multi/blocks%s", l ), t, seq, [ x ] { pools< BlockSide< El< true > > >( blk, 5 + x ); } );
        r.add( "C11,C15", h::fmt( "multi/blocksEx%s", l ), t, seq, [ x ] { pools< BlockSide< El< false > > >( blk, 4 + x ); } );
        r.add( "C11,C12,C15", h::fmt( "multi/blocksInt%s", l ), t, seq, [ x ] { pools< BlockSide< int > >( blk, 4 + x ); } );
        r.add( "C11,C12,C13,C14", h::fmt( "multi/objects%s", l ), t, seq, [ x ] { pools< ObjSide >( obj, 4 + x ); } );
        r.add( "C16,C17,C20,C21,C22,C25", h::fmt( "multi/queues%s", l ), t, seq, [ x ] { queues( 5 + x ); } );
        r.add( "C08", h::fmt( "multi/ringInt%s", l ), t, seq, [ x ] { rings< RingBufferSimple< int >, int, false >( 7 + x ); } );
        r.add( "C08", h::fmt( "multi/ringPtr%s", l ), t, seq, [ x ] { rings< RingBufferSimple< const char * >, const char *, false >( 6 + x ); } );
        r.add( "C09,C10", h::fmt( "multi/guarded%s", l ), t, seq, [ x ] { rings< RingBufferGuarded< int >, int, true >( 7 + x ); } );
        r.add( "C01,C03,C04", h::fmt( "multi/sem%s", l ), t, seq, [ x ] { semaphores( 5 + x ); } );
    }
    r.add( "C06,C23", "multi/mutex", 0, Opts().up( true ), [] { mutexes(); } );
    static const char * const who[] = { "C11,C14,C15,C23", "C11,C13,C14,C23", "C16,C20,C23,C25", "C01,C03,C23", "C09,C23", "C08,C23", "C06,C23" };
    for ( int i = 0; i < 7; ++i ) { r.add( who[ i ], h::fmt( "multi/apart/%d", i ), 0, hb, [ i ] { apart( i ); } ); r.add( who[ i ], h::fmt( "multi/apartPb/%d", i ), 0, Opts().pb( 2 ), [ i ] { apart( i ); } ); }
}
