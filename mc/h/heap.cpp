// C24: every sequence (up to a depth) of operations that complete, on every class, with element types, functors, names
// and sizes on both sides of the usual small-buffer limits; none of them may touch the heap.
#include "common.hpp"
#include "Semaphore.hpp"
#include "Mutex.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
using namespace ReiserRT::Core;
using mc::Opts;
#pragma clang diagnostic ignored "-Wunused-result"
#pragma clang diagnostic ignored "-Wint-to-pointer-cast"
#pragma clang diagnostic ignored "-Wint-to-void-pointer-cast"
namespace {
char ops[ 64 ]; int nOps;
// runs f and checks that it neither allocates nor releases
template< class F > void still( const char * what, F f ) {
    uint64_t e = mc::heap_events(); f(); MC_CHECK( e == mc::heap_events(), "%s uses the heap (%s)", what, ops );
}
char pick( const char * can ) { int n = (int)strlen( can ); int i = mc::choose( n + 1 ); if ( !i ) return 0; mc::Quiet z; if ( nOps < 60 ) ops[ nOps++ ] = can[ i - 1 ]; return can[ i - 1 ]; }
struct Ballast { char c[ 200 ]; };

void sem( size_t init, size_t max, int depth ) {
    Semaphore s( init, max ); Ballast b{}; int runs = 0;
    Semaphore::FunctionType f = [ b, &runs ] { (void)b; ++runs; };
    size_t n = init; bool ab = false;
    for ( int d = 0; d < depth; ++d ) {
        std::string can = "c"; can += 'a'; if ( n && !ab ) can += "tT"; if ( ( !max || n < max ) && !ab ) can += "gG";
        char k = pick( can.c_str() ); if ( !k ) break;
        switch ( k ) {
        case 'c': still( "getAvailableCount", [ & ] { s.getAvailableCount(); } ); break;
        case 'a': still( "abort", [ & ] { s.abort(); } ); ab = true; break;
        case 't': still( "take", [ & ] { s.take(); } ); --n; break;
        case 'T': still( "take with a functor", [ & ] { s.take( f ); } ); --n; break;
        case 'g': still( "give", [ & ] { s.give(); } ); ++n; break;
        case 'G': still( "give with a functor", [ & ] { s.give( f ); } ); ++n; break;
        }
    }
}
void mutexes( int depth ) {
    Mutex m; bool held = false;
    for ( int d = 0; d < depth; ++d ) {
        char k = pick( held ? "un" : "lTn" ); if ( !k ) break;
        switch ( k ) {
        case 'l': still( "lock", [ & ] { m.lock(); } ); held = true; break;
        case 'T': still( "try_lock", [ & ] { m.try_lock(); } ); held = true; break;
        case 'u': still( "unlock", [ & ] { m.unlock(); } ); held = false; break;
        case 'n': still( "native_handle", [ & ] { m.native_handle(); } ); break;
        }
    }
    if ( held ) m.unlock();
}
struct S { int i; void f() {} };
using MF = void ( S::* )();
template< class T > struct V { static T of( int i ) { return (T)i; } };
template<> struct V< MF > { static MF of( int ) { return &S::f; } };
template< class T > void simple( size_t req, int depth ) {
    RingBufferSimple< T > r( req ); size_t n = 0;
    for ( int d = 0; d < depth; ++d ) {
        std::string can = "q"; if ( n ) can += 'g'; if ( n < r.getSize() ) can += 'p';
        char k = pick( can.c_str() ); if ( !k ) break;
        switch ( k ) {
        case 'g': still( "RingBufferSimple::get", [ & ] { r.get(); } ); --n; break;
        case 'p': still( "RingBufferSimple::put", [ & ] { r.put( V< T >::of( 3 ) ); } ); ++n; break;
        case 'q': still( "getSize", [ & ] { r.getSize(); r.getMask(); r.getNumBits(); } ); break;
        }
    }
}
template< class T > void guarded( size_t req, bool prime, int depth ) {
    RingBufferGuarded< T > r( req, prime ); size_t n = 0; Ballast b{}; int st = prime ? 0 : 1;
    using X = typename std::conditional< std::is_pointer< T >::value, void *, T >::type;
    typename RingBufferGuarded< T >::PrimingFunctionType pf = [ b ]( size_t i ) { (void)b; return V< X >::of( (int)i ); };
    typename RingBufferGuarded< T >::FlushingFunctionType ff = [ b ]( X ) { (void)b; };
    for ( int d = 0; d < depth; ++d ) {
        std::string can = "qa"; if ( st == 0 ) can += 'R'; if ( st == 1 && n ) can += 'g'; if ( st == 1 && n < req ) can += 'p'; if ( st == 2 ) can += "FP";
        char k = pick( can.c_str() ); if ( !k ) break;
        switch ( k ) {
        case 'g': still( "RingBufferGuarded::get", [ & ] { r.get(); } ); --n; break;
        case 'p': still( "RingBufferGuarded::put", [ & ] { r.put( V< T >::of( 3 ) ); } ); ++n; break;
        case 'P': still( "RingBufferGuarded::put after abort", [ & ] { r.put( V< T >::of( 3 ) ); } ); break;
        case 'q': still( "getSize", [ & ] { r.getSize(); r.getMask(); r.getNumBits(); } ); break;
        case 'a': still( "RingBufferGuarded::abort", [ & ] { r.abort(); } ); st = 2; break;
        case 'R': still( "prime", [ & ] { r.prime( pf ); } ); n = req; st = 1; break;
        case 'F': still( "flush", [ & ] { r.flush( ff ); } ); n = 0; break;
        }
    }
}
struct Base { virtual ~Base() = default; };
template< size_t N > struct Obj : Base { char c[ N ]; explicit Obj( int i, const Ballast & = Ballast{} ) { memset( c, i, N ); } };
template< size_t N > void objects( size_t req, int depth ) {
    using P = ObjectPool< Base >; P pool( req, sizeof( Obj< N > ) ); typename P::ObjectPtrType own[ 4 ]; size_t used = 0;
    for ( int d = 0; d < depth; ++d ) {
        std::string can = "s"; if ( used < 3 && used < pool.getSize() ) can += "oO"; if ( used ) can += "dm";
        char k = pick( can.c_str() ); if ( !k ) break;
        switch ( k ) {
        case 'o': still( "createObj", [ & ] { own[ used ] = pool.template createObj< Obj< N > >( 5 ); } ); ++used; break;
        case 'O': { Ballast b{}; still( "createObj", [ & ] { own[ used ] = pool.template createObj< Obj< N > >( 5, b ); } ); ++used; break; }
        case 'd': still( "releasing an object", [ & ] { own[ used - 1 ].reset(); } ); --used; break;
        case 'm': still( "moving an object's owner", [ & ] { typename P::ObjectPtrType x( std::move( own[ used - 1 ] ) ); own[ used - 1 ] = std::move( x ); } ); break;
        case 's': still( "getRunningStateStatistics", [ & ] { pool.getRunningStateStatistics(); pool.getSize(); } ); break;
        }
    }
}
struct E { int * p; E() noexcept : p( nullptr ) {} ~E() { p = (int *)1; } };
struct ET { int * p; ET() : p( nullptr ) {} };
template< class T > void blocks( size_t req, size_t len, int depth ) {
    using P = BlockPool< T >; P pool( req, len ); typename P::BlockPtrType own[ 4 ]; size_t used = 0;
    for ( int d = 0; d < depth; ++d ) {
        std::string can = "s"; if ( used < 3 && used < pool.getSize() ) can += "b"; if ( used ) can += "dm";
        char k = pick( can.c_str() ); if ( !k ) break;
        switch ( k ) {
        case 'b': still( "getBlock", [ & ] { own[ used ] = pool.getBlock(); } ); ++used; break;
        case 'd': still( "releasing a block", [ & ] { own[ used - 1 ].reset(); } ); --used; break;
        case 'm': still( "moving a block's owner", [ & ] { typename P::BlockPtrType x( std::move( own[ used - 1 ] ) ); own[ used - 1 ] = std::move( x ); } ); break;
        case 's': still( "getRunningStateStatistics", [ & ] { pool.getRunningStateStatistics(); pool.getSize(); if ( used ) own[ 0 ].get_deleter().getNumElements(); } ); break;
        }
    }
}
const char longName[] = "a message with a name that is longer than any small string buffer there is, by far, in any library whatsoever";
template< size_t N > struct Msg : MessageBase { char c[ N ]; explicit Msg( int i ) { memset( c, i, N ); } const char * name() const override { return longName; } void dispatch() override {} };
template< size_t N > struct Anon : MessageBase { char c[ N ]; explicit Anon( int i ) { memset( c, i, N ); } void dispatch() override {} };
template< size_t N > void queue( size_t req, bool lockable, int depth ) {
    MessageQueue q( req, sizeof( Msg< N > ), lockable ); size_t n = 0; Ballast b{}; bool ab = false;
    MessageQueue::WakeupCallFunctionType wake = [ b ] { (void)b; };
    for ( int d = 0; d < depth; ++d ) {
        std::string can = "sna"; if ( n < req && !ab ) can += "peE"; if ( n && !ab ) can += "gwP"; if ( lockable ) can += 'l';
        char k = pick( can.c_str() ); if ( !k ) break;
        switch ( k ) {
        case 'p': { Msg< N > m( 1 ); still( "put", [ & ] { q.put( std::move( m ) ); } ); ++n; break; }
        case 'e': still( "emplace", [ & ] { q.template emplace< Msg< N > >( 1 ); } ); ++n; break;
        case 'E': still( "emplace", [ & ] { q.template emplace< Anon< N > >( 1 ); } ); ++n; break;
        case 'g': still( "getAndDispatch", [ & ] { q.getAndDispatch(); } ); --n; break;
        case 'w': still( "getAndDispatch with a functor", [ & ] { q.getAndDispatch( wake ); } ); --n; break;
        case 'P': still( "purge", [ & ] { q.purge(); } ); n = 0; break;
        case 's': still( "getRunningStateStatistics", [ & ] { q.getRunningStateStatistics(); } ); break;
        case 'n': still( "getNameOfLastMessageDispatched", [ & ] { q.getNameOfLastMessageDispatched(); } ); break;
        case 'a': still( "abort", [ & ] { q.abort(); } ); ab = true; break;
        case 'l': still( "AutoDispatchLock", [ & ] { auto l = q.getAutoDispatchLock(); l.native_handle(); l.unlock(); l.lock(); auto m = std::move( l ); l = std::move( m ); } ); break;
        }
    }
}
void add( mc::Registry & r, const std::string & name, std::function< void( int ) > f, int d0, int d1 ) {
    Opts o; o.one().race( false );
    r.add( "C24", "heap/" + name, 0, o, [ = ] { f( d0 ); mc::outcome( nOps ); } );
    r.add( "C24", "heapDeep/" + name, 1, o, [ = ] { f( d1 ); mc::outcome( nOps ); } );
}
}
void mc_scenarios( mc::Registry & r ) {
    for ( size_t i : { 0, 1, 3 } ) for ( size_t m : { 0, 3 } ) add( r, h::fmt( "sem/%zu-%zu", i, m ), [ = ]( int d ) { sem( i, m, d ); }, 7, 8 );
    add( r, "mutex", mutexes, 10, 16 );
    for ( size_t n : { 2, 5 } ) {
        add( r, h::fmt( "simple/int/%zu", n ), [ = ]( int d ) { simple< int >( n, d ); }, 9, 12 );
        add( r, h::fmt( "simple/longdouble/%zu", n ), [ = ]( int d ) { simple< long double >( n, d ); }, 9, 12 );
        add( r, h::fmt( "simple/memfn/%zu", n ), [ = ]( int d ) { simple< MF >( n, d ); }, 9, 12 );
        add( r, h::fmt( "simple/ptr/%zu", n ), [ = ]( int d ) { simple< const char * >( n, d ); }, 9, 12 );
        for ( bool pr : { false, true } ) {
            add( r, h::fmt( "guarded/int/%zu%d", n, pr ), [ = ]( int d ) { guarded< int >( n, pr, d ); }, 8, 10 );
            add( r, h::fmt( "guarded/longdouble/%zu%d", n, pr ), [ = ]( int d ) { guarded< long double >( n, pr, d ); }, 8, 10 );
            add( r, h::fmt( "guarded/memfn/%zu%d", n, pr ), [ = ]( int d ) { guarded< MF >( n, pr, d ); }, 8, 10 );
            add( r, h::fmt( "guarded/ptr/%zu%d", n, pr ), [ = ]( int d ) { guarded< const char * >( n, pr, d ); }, 8, 10 );
        }
        add( r, h::fmt( "objects/3/%zu", n ), [ = ]( int d ) { objects< 3 >( n, d ); }, 7, 9 );
        add( r, h::fmt( "objects/70/%zu", n ), [ = ]( int d ) { objects< 70 >( n, d ); }, 7, 9 );
        add( r, h::fmt( "objects/5000/%zu", n ), [ = ]( int d ) { objects< 5000 >( n, d ); }, 7, 9 );
        for ( size_t len : { 1, 9, 700 } ) {
            add( r, h::fmt( "blocks/char/%zu/%zu", n, len ), [ = ]( int d ) { blocks< char >( n, len, d ); }, 7, 9 );
            add( r, h::fmt( "blocks/class/%zu/%zu", n, len ), [ = ]( int d ) { blocks< E >( n, len, d ); }, 7, 9 );
            add( r, h::fmt( "blocks/throwing/%zu/%zu", n, len ), [ = ]( int d ) { blocks< ET >( n, len, d ); }, 7, 9 );
        }
        for ( bool l : { false, true } ) {
            add( r, h::fmt( "queue/1/%zu%d", n, l ), [ = ]( int d ) { queue< 1 >( n, l, d ); }, 5, 7 );
            add( r, h::fmt( "queue/100/%zu%d", n, l ), [ = ]( int d ) { queue< 100 >( n, l, d ); }, 5, 7 );
            add( r, h::fmt( "queue/5000/%zu%d", n, l ), [ = ]( int d ) { queue< 5000 >( n, l, d ); }, 5, 7 );
        }
    }
}
