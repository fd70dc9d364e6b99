// Model-checking runtime: controlled scheduler (fibers), pthread/heap/clock models, ThreadSanitizer-ABI hooks,
// exhaustive replay-based exploration with state or happens-before caching. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.hpp"

#include <cerrno>
#include <cinttypes>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#define EXP extern "C" __attribute__(( visibility( "default" ), used ))
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef uintptr_t up;

extern "C" void * __libc_malloc( size_t ); extern "C" void __libc_free( void * );
extern "C" void * __libc_calloc( size_t, size_t ); extern "C" void * __libc_realloc( void *, size_t );
extern "C" void * __libc_memalign( size_t, size_t );
extern "C" char __data_start[], _edata[], __bss_start[], _end[];
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals * __cxa_get_globals() noexcept; }

// ------------------------------------------------------------------------------------------------ layout
static constexpr int MAXT = 720;
static constexpr up RT_BASE = 0x100000000000ull;
static constexpr up AR_BASE = 0x200000000000ull;
static constexpr size_t AR_MAIN = 384ull << 20, AR_EACH = 512ull << 10;
static constexpr size_t AR_SIZE = AR_MAIN + AR_EACH * MAXT;
static constexpr up ST_BASE = 0x240000000000ull;
static constexpr size_t ST_EACH = 256ull << 10;       // incl. guard page at the bottom
static constexpr size_t ST_SIZE = ST_EACH * MAXT;
static constexpr size_t ST_CLEAN = 20 << 10;
static constexpr up SH_BASE = 0x280000000000ull;      // one byte per arena byte: 0 not allocated, 1 live, 2 freed
static constexpr up CE_BASE = 0x300000000000ull;      // race cells for arena, then stacks, then globals
static constexpr up BIG_BASE = 0x700000000000ull; static constexpr size_t BIG_SIZE = 64ull << 30;      // see mc::big_heap
static constexpr size_t RZ = 32;                      // heap red zone

static inline u64 rotl( u64 x, int r ) { return ( x << r ) | ( x >> ( 64 - r ) ); }
static inline u64 mix( u64 a, u64 b ) { a ^= b + 0x9e3779b97f4a7c15ull + ( a << 6 ) + ( a >> 2 ); a *= 0xff51afd7ed558ccdull; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29; return a; }

// a race-detector cell covers 8 bytes; a record is clk:32 | tid:10 | mask:8 | w:1 | a:1
struct Cell { u32 gen; u32 n; u64 rec[ 7 ]; };
static_assert( sizeof( Cell ) == 64, "" );

enum OpKind : u8 { O_NONE, O_START, O_POINT, O_LOCK, O_TRYLOCK, O_UNLOCK, O_COND, O_SIGNAL, O_JOIN, O_SLEEP, O_QUIESCE, O_ATOMIC,
                   O_SEM, O_RD, O_WR, O_ONCE, O_CREATE, O_YIELD, O_GUARD, O_ALL, O_CHOOSE };
static const char * opName[] = { "none", "start", "point", "lock", "trylock", "unlock", "cond_wait", "signal", "join", "sleep", "quiesce",
                                 "atomic", "sem", "rdlock", "wrlock", "once", "create", "yield", "guard", "wait_all", "choose" };

struct Fiber {
    up sp; void * cxa[ 2 ];
    u32 tid; OpKind op; bool used, finished, joined, detached, arrived, deep;
    up obj; up cond; u64 condSeq; u64 deadline; bool timedOut; bool spur;
    int prio; int ignore;
    void * ( *fn )( void * ); void * arg; void * ret;
    u64 heapEvents; u64 brk; u64 arLo, arHi; u32 lastBlk, ehLive, inEh;
    u64 th;            // happens-before hash chain
    u32 sdepth; up sstk[ 64 ];
    u32 * vc; u32 * relf; u32 * acqf; bool hasRelf, hasAcqf;
    u64 slices;
    char * tls;
    struct { void ( *f )( void * ); void * a; } dt[ 16 ]; u32 ndt;
    bool destroyedKeys;
};
struct Block { up a; size_t sz; bool live; u16 tid; u8 eh; u32 prev; up from; };
static constexpr up IX_BASE = 0x6c0000000000ull;    // heap block number per 16 bytes of arena (kept out of the hashed memory)
struct Obj { up a; u32 gen; bool has; u64 oh, rs; u32 vc[ MAXT ]; };
static constexpr u32 NOBJ = 4096;

struct Choice { u16 n, pick; u8 kind; };   // kind 0: schedule, 1: data, 2: cond signal target, 3: cas failure
struct Scn { std::string props, name; int tier; mc::Opts o; std::function< void() > body; };

struct Tab {  // visited set of 128-bit keys with one payload byte
    struct E { u64 a, b; };
    E * e = nullptr; u8 * pay = nullptr; size_t cap = 0, n = 0;
    void clear() { if ( cap > ( 1u << 16 ) ) { __libc_free( e ); __libc_free( pay ); e = nullptr; cap = 0; } else if ( cap ) memset( e, 0, cap * sizeof( E ) ); n = 0; }
    void grow() {
        size_t oc = cap; E * oe = e; u8 * op = pay; cap = cap ? cap * 2 : ( 1 << 14 );
        e = (E *)__libc_calloc( cap, sizeof( E ) ); pay = (u8 *)__libc_malloc( cap ); n = 0;
        for ( size_t i = 0; i < oc; ++i ) if ( oe[ i ].a | oe[ i ].b ) { u8 * p; find( oe[ i ].a, oe[ i ].b, p ); *p = op[ i ]; }
        if ( oe ) { __libc_free( oe ); __libc_free( op ); }
    }
    // returns true when present; p points at the payload
    bool find( u64 a, u64 b, u8 *& p ) {
        if ( !( a | b ) ) a = 1;
        if ( ( n + 1 ) * 10 > cap * 7 ) grow();
        size_t i = ( a ^ ( b >> 7 ) ) & ( cap - 1 );
        while ( e[ i ].a | e[ i ].b ) { if ( e[ i ].a == a && e[ i ].b == b ) { p = pay + i; return true; } i = ( i + 1 ) & ( cap - 1 ); }
        e[ i ].a = a; e[ i ].b = b; ++n; p = pay + i; *p = 0; return false;
    }
};

struct Inj { const char * fn; up m; int err; };

struct Rt {
    volatile bool inFiber; bool multi; bool trace; bool violated; bool stop; bool pruned;
    u32 gen; Fiber * cur; u32 nf; up schedSp;
    u32 alive, unjoined;
    mc::Opts o;
    u64 now, condSeq; bool clockUsed; int spurLeft, casLeft, preUsed;
    u32 steps; u64 acc; u64 progress;
    Block * blocks; u32 nblocks; u64 liveBytes;
    struct Big { up a; size_t n; bool live; } big[ 8 ]; u32 bigN; bool bigOn; up bigBrk; long oomIn;
    Fiber f[ MAXT ];
    Obj objs[ NOBJ ]; u32 nobjs;
    Inj inj[ 8 ]; u32 ninj;
    up * onStack;
    // exploration
    std::vector< Choice > * ch; size_t pos; size_t fixedTo;
    std::vector< std::string > * log; std::string * vmsg; std::string * vkind;
    std::unordered_map< u64, std::vector< u64 > > * over;  // overflow records of race cells
    Tab * tab; std::set< u64 > * outcomes;
    std::vector< std::pair< u64, u64 > > * path; // state keys on this execution (livelock detection)
    u64 curTraceHash;
    up gLo, gHi; char * snap; size_t glen;
    up tlsOff; size_t tlsSize; const char * tlsInit; size_t tlsInitSize;
    u64 * vcs;
    // counters
    u64 execs, complete, prunedN, states, trans, maxDepth, switches, accTotal;
    char prop[ 16 ];
    u64 lastProgress; int stallTicks;
};
#define R ( *(Rt *)RT_BASE )
static bool rt_ready __attribute__(( section( ".mcrt" ) )) = false;

static inline bool inf() { return rt_ready && R.inFiber; }

// real functions
#define REAL( name ) static decltype( &name ) ptr_##name __attribute__(( section( ".mcrt" ) )) = nullptr; \
  static inline decltype( &name ) real_##name() { if ( !ptr_##name ) ptr_##name = (decltype( &name ))dlsym( RTLD_NEXT, #name ); return ptr_##name; }
REAL( pthread_mutex_lock ); REAL( pthread_mutex_unlock ); REAL( pthread_mutex_trylock ); REAL( pthread_mutex_init ); REAL( pthread_mutex_destroy );
REAL( pthread_cond_init ); REAL( pthread_cond_destroy ); REAL( pthread_cond_wait ); REAL( pthread_cond_signal ); REAL( pthread_cond_broadcast );
REAL( pthread_self ); REAL( pthread_once ); REAL( nanosleep ); REAL( clock_gettime ); REAL( sched_yield );
REAL( pthread_create ); REAL( pthread_join );

// ------------------------------------------------------------------------------------------------ fibers
asm( R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl mc_tramp
.type mc_tramp,@function
mc_tramp:
  .cfi_startproc
  .cfi_undefined rip
  movq %rbx,%rdi
  call mc_entry
  ud2
  .cfi_endproc
)" );
extern "C" void mc_switch( up * save, up to ); extern "C" void mc_tramp();

static std::string symb( up pc ) { char b[ 64 ]; snprintf( b, sizeof b, "{pc:%#lx}", (unsigned long)pc ); return b; }
static std::string where( up a ) {
    char b[ 160 ];
    if ( a >= AR_BASE && a < AR_BASE + AR_SIZE ) {
        for ( u32 i = 0; i < R.nblocks; ++i ) { Block & k = R.blocks[ i ];
            if ( a + RZ >= k.a && a < k.a + k.sz + RZ ) { snprintf( b, sizeof b, "heap block #%u (size %zu, %s, offset %ld)", i, k.sz, k.live ? "live" : "freed", (long)( a - k.a ) ); return b; } }
        return "heap (unallocated)";
    }
    if ( a >= ST_BASE && a < ST_BASE + ST_SIZE ) { snprintf( b, sizeof b, "stack of t%u", (unsigned)( ( a - ST_BASE ) / ST_EACH ) ); return b; }
    if ( a >= R.gLo && a < R.gHi ) { snprintf( b, sizeof b, "global {pc:%#lx}", (unsigned long)a ); return b; }
    snprintf( b, sizeof b, "%#lx", (unsigned long)a ); return b;
}
static std::string shortObj( up a ) {
    char b[ 96 ];
    if ( a >= AR_BASE && a < AR_BASE + AR_SIZE ) for ( u32 i = 0; i < R.nblocks; ++i ) { Block & k = R.blocks[ i ]; if ( a >= k.a && a < k.a + k.sz ) { snprintf( b, sizeof b, "heap#%u+%lu", i, (unsigned long)( a - k.a ) ); return b; } }
    return where( a );
}

static void toSched() __attribute__(( noinline ));
static void toSched() { mc_switch( &R.cur->sp, R.schedSp ); }

static std::string frames() {
    std::string s; if ( !R.cur ) return s; Fiber & f = *R.cur;
    u32 d = f.sdepth > 64 ? 64 : f.sdepth;
    for ( int i = (int)d - 1; i >= 0 && i > (int)d - 7; --i ) s += " < " + symb( f.sstk[ i ] );
    return s;
}

[[noreturn]] static void violationV( const char * kind, const std::string & msg ) {
    bool in = R.inFiber; R.inFiber = false;
    if ( !R.violated ) {
        R.violated = true; *R.vkind = kind; char b[ 32 ]; snprintf( b, sizeof b, "t%u: ", R.cur ? R.cur->tid : 999 );
        *R.vmsg = std::string( b ) + msg;
        if ( R.trace ) R.log->push_back( std::string( "!! " ) + kind + ": " + *R.vmsg + frames() );
    }
    R.stop = true;
    if ( in ) { toSched(); }
    fprintf( stderr, "violation outside execution: %s %s\n", kind, msg.c_str() ); _exit( 3 );
}
[[noreturn]] static void violation( const char * kind, const char * fmt, ... ) {
    R.inFiber = R.inFiber; char b[ 600 ]; va_list ap; va_start( ap, fmt ); vsnprintf( b, sizeof b, fmt, ap ); va_end( ap );
    bool in = R.inFiber; R.inFiber = false; std::string s( b ); R.inFiber = in; violationV( kind, s );
}
[[noreturn]] static void toolError( const char * fmt, ... ) {
    if ( rt_ready ) R.inFiber = false; va_list ap; va_start( ap, fmt ); fprintf( stderr, "MC-TOOL-ERROR: " ); vfprintf( stderr, fmt, ap ); fprintf( stderr, "\n" ); va_end( ap );
    fflush( stderr ); _exit( 4 );
}
struct Out { bool in; Out() : in( R.inFiber ) { R.inFiber = false; } ~Out() { R.inFiber = in; } };
static void tr( const char * fmt, ... ) {
    if ( !R.trace ) return; Out o_; char b[ 400 ]; va_list ap; va_start( ap, fmt ); int n = snprintf( b, sizeof b, "t%u ", R.cur ? R.cur->tid : 999 ); vsnprintf( b + n, sizeof b - n, fmt, ap ); va_end( ap );
    if ( R.log->size() < 20000 ) R.log->push_back( b );
}
#define TRO( verb, o, ... ) do { if ( R.trace ) { Out o_; std::string s_ = shortObj( (up)( o ) ); s_ += frames(); tr( "%s %s", verb, s_.c_str() ); } } while ( 0 )

// ------------------------------------------------------------------------------------------------ vector clocks
static Obj & obj( up a ) {
    u32 i = (u32)( mix( a, 77 ) ) & ( NOBJ - 1 ); u32 k = 0;
    while ( R.objs[ i ].gen == R.gen ) { if ( R.objs[ i ].a == a ) return R.objs[ i ]; i = ( i + 1 ) & ( NOBJ - 1 ); if ( ++k >= NOBJ - 1 ) toolError( "too many synchronisation objects" ); }
    Obj & o = R.objs[ i ]; o.gen = R.gen; o.a = a; o.has = false; o.oh = mix( a, 1 ); o.rs = 0; memset( o.vc, 0, sizeof( u32 ) * R.nf ); memset( o.vc + R.nf, 0, sizeof( u32 ) * ( MAXT - R.nf ) ); ++R.nobjs; return o;
}
static inline void joinVC( u32 * d, const u32 * s ) { for ( u32 i = 0; i < R.nf; ++i ) if ( s[ i ] > d[ i ] ) d[ i ] = s[ i ]; }
static void acquireO( up a ) { Obj & o = obj( a ); if ( o.has ) joinVC( R.cur->vc, o.vc ); }
static void releaseO( up a ) { Obj & o = obj( a ); joinVC( o.vc, R.cur->vc ); o.has = true; ++R.cur->vc[ R.cur->tid ]; }
static void ev( OpKind k, up a, bool write, u64 extra = 0 ) {
    if ( R.o.mode != mc::Opts::HB ) return;
    Obj & o = obj( a ); Fiber & f = *R.cur; u64 h;
    if ( write ) { h = mix( mix( mix( mix( f.th, k ), a ), o.oh ), o.rs + extra ); o.oh = h; o.rs = 0; }
    else { h = mix( mix( mix( mix( f.th, k ), a ), o.oh ), 0x5151 + extra ); o.rs += h; }
    f.th = h;
}

// ------------------------------------------------------------------------------------------------ race detector / heap checks
static inline Cell * cellOf( up a ) {
    size_t off;
    if ( a - AR_BASE < AR_SIZE ) off = a - AR_BASE;
    else if ( a - ST_BASE < ST_SIZE ) off = AR_SIZE + ( a - ST_BASE );
    else if ( a - R.gLo < R.gHi - R.gLo ) off = AR_SIZE + ST_SIZE + ( a - ( R.gLo & ~7ull ) );
    else return nullptr;
    return (Cell *)( CE_BASE + ( off >> 3 ) * sizeof( Cell ) );
}
static inline u64 mkrec( u32 clk, u32 tid, u32 mask, bool w, bool at ) { return ( (u64)clk << 32 ) | ( (u64)tid << 10 ) | ( mask << 2 ) | ( w ? 2 : 0 ) | ( at ? 1 : 0 ); }
static void __attribute__(( noinline )) reportRace( up a, u64 r, bool w, bool at ) {
    Out o_; char b[ 300 ]; std::string wh = where( a );
    snprintf( b, sizeof b, "data race on %s: %s%s here, %s%s by t%u before, not ordered by synchronisation", wh.c_str(), at ? "atomic " : "", w ? "write" : "read",
              r & 1 ? "atomic " : "", r & 2 ? "write" : "read", (unsigned)( ( r >> 10 ) & 1023 ) );
    std::string s( b ); s += frames(); R.inFiber = true; violationV( "race", s );
}
static inline void raceGranule( up g, u32 mask, bool w, bool at ) {
    Cell * c = cellOf( g ); if ( !c ) return;
    Fiber & f = *R.cur;
    if ( c->gen != R.gen ) { c->gen = R.gen; c->n = 0; }
    u32 k = 0; bool keepSelf = true;
    for ( u32 i = 0; i < c->n; ++i ) {
        u64 r = c->rec[ i ]; u32 m = ( r >> 2 ) & 255, t = ( r >> 10 ) & 1023; bool rw = r & 2, ra = r & 1;
        u32 ov = m & mask;
        if ( ov ) {
            if ( t != f.tid ) {
                if ( ( w || rw ) && !( at && ra ) && (u32)( r >> 32 ) > f.vc[ t ] ) reportRace( g, r, w, at );
                if ( w && !at && (u32)( r >> 32 ) <= f.vc[ t ] ) m &= ~ov;       // ordered before this plain write: subsumed
            } else {
                if ( w && !at ) m &= ~ov;                                      // own older access subsumed by plain write
                else if ( ra == at && rw == w ) { m &= ~ov; }                    // same kind, newer clock
                else if ( !w && !at && rw && !ra && (u32)( r >> 32 ) == f.vc[ f.tid ] && ov == mask ) keepSelf = false; // read after own write in same epoch
            }
            if ( !m ) continue;
            r = ( r & ~( 255ull << 2 ) ) | ( (u64)m << 2 );
        }
        c->rec[ k++ ] = r;
    }
    c->n = k;
    if ( __builtin_expect( !R.over->empty(), 0 ) ) {
        auto it = R.over->find( (u64)(up)c );
        if ( it != R.over->end() ) { auto & v = it->second; size_t j = 0;
            for ( size_t i = 0; i < v.size(); ++i ) { u64 r = v[ i ]; u32 m = ( r >> 2 ) & 255, t = ( r >> 10 ) & 1023; bool rw = r & 2, ra = r & 1; u32 ov = m & mask;
                if ( ov ) { if ( t != f.tid ) { if ( ( w || rw ) && !( at && ra ) && (u32)( r >> 32 ) > f.vc[ t ] ) reportRace( g, r, w, at ); if ( w && !at ) m &= ~ov; }
                    else if ( ( w && !at ) || ( ra == at && rw == w ) ) m &= ~ov; }
                if ( m ) v[ j++ ] = ( r & ~( 255ull << 2 ) ) | ( (u64)m << 2 ); }
            v.resize( j ); if ( !j ) R.over->erase( it ); }
    }
    if ( !keepSelf ) return;
    u64 nr = mkrec( f.vc[ f.tid ], f.tid, mask, w, at );
    if ( c->n < 7 ) c->rec[ c->n++ ] = nr; else { Out o_; ( *R.over )[ (u64)(up)c ].push_back( nr ); }
}
static void __attribute__(( noinline )) badHeap( up a, size_t n, bool w ) {
    Out o_; char b[ 300 ]; std::string wh = where( a ); bool freed = false;
    for ( size_t i = 0; i < n; ++i ) if ( *(u8 *)( SH_BASE + ( a + i - AR_BASE ) ) == 2 ) freed = true;
    snprintf( b, sizeof b, "%s of %zu bytes %s: %s", w ? "write" : "read", n, freed ? "in freed memory" : "out of bounds", wh.c_str() );
    std::string s( b ); s += frames(); R.inFiber = true; violationV( freed ? "use-after-free" : "out-of-bounds", s );
}
static inline void heapCheck( up a, size_t n, bool w ) {
    if ( a - AR_BASE < AR_SIZE ) {
        const u8 * s = (const u8 *)( SH_BASE + ( a - AR_BASE ) );
        if ( n <= 8 ) { for ( size_t i = 0; i < n; ++i ) if ( s[ i ] != 1 ) { badHeap( a, n, w ); } }
        else { for ( size_t i = 0; i < n; ++i ) if ( s[ i ] != 1 ) badHeap( a, n, w ); }
    }
}
static inline void access( up a, size_t n, bool w, bool at = false ) {
    if ( !inf() ) return;
    Fiber & f = *R.cur;
    heapCheck( a, n, w );
    ++R.acc;
    if ( f.ignore || !R.multi || !R.o.races ) return;
    up e = a + n;
    while ( a < e ) { up g = a & ~7ull; u32 lo = a - g, hi = ( e - g ) >= 8 ? 8 : ( e - g ); raceGranule( g, ( ( 1u << hi ) - 1 ) & ~( ( 1u << lo ) - 1 ), w, at ); a = g + 8; }
}

// ------------------------------------------------------------------------------------------------ scheduling points
static inline bool solo() { return R.alive == 1; }
static void sp( OpKind k, up o ) {          // the calling fiber is about to execute operation k on o
    if ( solo() && k != O_LOCK && k != O_JOIN && k != O_COND && k != O_SLEEP && k != O_QUIESCE && k != O_ALL ) return;
    Fiber & f = *R.cur; f.op = k; f.obj = o; toSched(); f.op = O_NONE; f.obj = 0;
}

// mutex model inside pthread_mutex_t; offset 16 keeps glibc's static-initialiser "kind"
struct MM { int owner; u32 count; u32 magic; u32 pad; int kind; int proto; u64 x, y; };
static constexpr u32 M_OK = 0x4d55544eu, M_DEAD = 0xdeadbee1u;
static_assert( sizeof( MM ) <= sizeof( pthread_mutex_t ), "" );
struct CM { u32 magic; u32 n; u64 seq; };
static constexpr u32 C_OK = 0x434f4e44u, C_DEAD = 0xdeadbee2u;

static inline bool ours( const void * p ) { up a = (up)p; return ( a - AR_BASE < AR_SIZE ) || ( a - ST_BASE < ST_SIZE ) || ( a - R.gLo < R.gHi - R.gLo ); }

static MM * mm( pthread_mutex_t * m, const char * what ) {
    heapCheck( (up)m, sizeof( MM ), false );
    MM * q = (MM *)m;
    if ( q->magic == 0 && q->owner == 0 ) { q->magic = M_OK; q->proto = PTHREAD_PRIO_NONE; }
    if ( q->magic == M_DEAD ) violation( "use-after-destroy", "%s on a destroyed mutex", what );
    if ( q->magic != M_OK ) violation( "bad-mutex", "%s on an uninitialised or overwritten mutex", what );
    return q;
}
static bool lockable( Fiber & f, MM * q ) { return q->owner == 0 || ( q->owner == (int)f.tid + 1 && q->kind == PTHREAD_MUTEX_RECURSIVE ); }
static bool inject( const char * fn, pthread_mutex_t * m, int & err ) {
    for ( u32 i = 0; i < R.ninj; ++i ) if ( R.inj[ i ].m == (up)m && !strcmp( R.inj[ i ].fn, fn ) ) { err = R.inj[ i ].err; for ( u32 j = i + 1; j < R.ninj; ++j ) R.inj[ j - 1 ] = R.inj[ j ]; --R.ninj; return true; }
    return false;
}
static void takeM( pthread_mutex_t * m, MM * q ) {
    q->owner = (int)R.cur->tid + 1; ++q->count; ev( O_LOCK, (up)m, true ); acquireO( (up)m );
}
EXP int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * at ) {
    if ( !inf() || !ours( m ) ) return real_pthread_mutex_init()( m, at );
    int err; if ( R.ninj && inject( "init", nullptr, err ) && err ) { TRO( "mutex init FAULT", m ); return err; }
    int kind = 0, proto = 0; if ( at ) { pthread_mutexattr_gettype( at, &kind ); pthread_mutexattr_getprotocol( at, &proto ); }
    heapCheck( (up)m, sizeof( *m ), true ); access( (up)m, sizeof( *m ), true );
    memset( m, 0, sizeof *m ); MM * q = (MM *)m; q->magic = M_OK; q->kind = kind; q->proto = proto; return 0;
}
EXP int pthread_mutex_destroy( pthread_mutex_t * m ) {
    if ( !inf() || !ours( m ) ) return real_pthread_mutex_destroy()( m );
    MM * q = mm( m, "pthread_mutex_destroy" );
    if ( q->owner ) violation( "bad-mutex", "destroying a mutex locked by t%d", q->owner - 1 );
    access( (up)m, sizeof( *m ), true ); q->magic = M_DEAD; return 0;
}
static void mtxAccess( up m ) { access( m, 8, true, true ); }   // races with plain init/destroy accesses only
EXP int pthread_mutex_lock( pthread_mutex_t * m ) {
    if ( !inf() || !ours( m ) ) return ( rt_ready && R.inFiber ) ? 0 : real_pthread_mutex_lock()( m );
    MM * q = mm( m, "pthread_mutex_lock" ); int err;
    if ( R.ninj && inject( "lock", m, err ) ) { TRO( "lock FAULT", m ); return err; }
    if ( q->kind == PTHREAD_MUTEX_ERRORCHECK && q->owner == (int)R.cur->tid + 1 ) return EDEADLK;
    sp( O_LOCK, (up)m ); q = mm( m, "pthread_mutex_lock" ); mtxAccess( (up)m );
    takeM( m, q ); TRO( "lock", m ); return 0;
}
EXP int pthread_mutex_trylock( pthread_mutex_t * m ) {
    if ( !inf() || !ours( m ) ) return ( rt_ready && R.inFiber ) ? 0 : real_pthread_mutex_trylock()( m );
    mm( m, "pthread_mutex_trylock" ); int err;
    if ( R.ninj && inject( "trylock", m, err ) ) { TRO( "trylock FAULT", m ); return err; }
    sp( O_TRYLOCK, (up)m ); MM * q = mm( m, "pthread_mutex_trylock" ); mtxAccess( (up)m );
    if ( !lockable( *R.cur, q ) ) { ev( O_TRYLOCK, (up)m, true ); TRO( "trylock busy", m ); return EBUSY; }
    takeM( m, q ); TRO( "trylock ok", m ); return 0;
}
static void unlockM( pthread_mutex_t * m, MM * q ) {
    ev( O_UNLOCK, (up)m, true ); releaseO( (up)m ); if ( --q->count == 0 ) q->owner = 0;
}
EXP int pthread_mutex_unlock( pthread_mutex_t * m ) {
    if ( !inf() || !ours( m ) ) return ( rt_ready && R.inFiber ) ? 0 : real_pthread_mutex_unlock()( m );
    MM * q = mm( m, "pthread_mutex_unlock" ); int err;
    if ( R.ninj && inject( "unlock", m, err ) ) { TRO( "unlock FAULT", m ); return err; }
    if ( R.o.unlock_points || R.o.prio ) { sp( O_UNLOCK, (up)m ); q = mm( m, "pthread_mutex_unlock" ); }
    mtxAccess( (up)m );
    if ( q->owner != (int)R.cur->tid + 1 ) {
        if ( q->kind == PTHREAD_MUTEX_ERRORCHECK || q->kind == PTHREAD_MUTEX_RECURSIVE ) return EPERM;
        violation( "bad-mutex", "unlocking a mutex that is %s%d", q->owner ? "held by t" : "not locked: ", q->owner - 1 );
    }
    unlockM( m, q ); TRO( "unlock", m ); return 0;
}
EXP int pthread_mutex_timedlock( pthread_mutex_t * m, const struct timespec * ) {
    if ( !inf() ) toolError( "timedlock outside" );
    // modelled as a lock that may also time out when it would block
    if ( lockable( *R.cur, mm( m, "timedlock" ) ) ) return pthread_mutex_lock( m );
    if ( mc::choose( 2 ) == 1 ) return ETIMEDOUT;
    return pthread_mutex_lock( m );
}
EXP int pthread_mutex_clocklock( pthread_mutex_t * m, clockid_t, const struct timespec * t ) { return pthread_mutex_timedlock( m, t ); }

// condition variables ------------------------------------------------------------------------------
static CM * cmv( pthread_cond_t * c, const char * what ) {
    heapCheck( (up)c, sizeof( CM ), false ); CM * q = (CM *)c;
    if ( q->magic == 0 ) q->magic = C_OK;
    if ( q->magic == C_DEAD ) violation( "use-after-destroy", "%s on a destroyed condition variable", what );
    if ( q->magic != C_OK ) violation( "bad-cond", "%s on an uninitialised or overwritten condition variable", what );
    return q;
}
EXP int pthread_cond_init( pthread_cond_t * c, const pthread_condattr_t * at ) {
    if ( !inf() || !ours( c ) ) return real_pthread_cond_init()( c, at );
    access( (up)c, sizeof( *c ), true ); memset( c, 0, sizeof *c ); ( (CM *)c )->magic = C_OK; return 0;
}
EXP int pthread_cond_destroy( pthread_cond_t * c ) {
    if ( !inf() || !ours( c ) ) return real_pthread_cond_destroy()( c );
    CM * q = cmv( c, "pthread_cond_destroy" );
    for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].used && !R.f[ i ].finished && R.f[ i ].op == O_COND && R.f[ i ].cond == (up)c ) violation( "bad-cond", "destroying a condition variable with waiter t%u", i );
    access( (up)c, sizeof( *c ), true ); q->magic = C_DEAD; return 0;
}
static int condWait( pthread_cond_t * c, pthread_mutex_t * m, u64 deadline ) {
    Fiber & f = *R.cur; cmv( c, "pthread_cond_wait" ); MM * q = mm( m, "pthread_cond_wait" );
    if ( R.o.unlock_points || R.o.prio ) { sp( O_POINT, (up)c ); cmv( c, "pthread_cond_wait" ); q = mm( m, "pthread_cond_wait" ); }
    if ( q->owner != (int)f.tid + 1 ) violation( "bad-mutex", "pthread_cond_wait without holding the mutex (owner t%d)", q->owner - 1 );
    u32 cnt = q->count; access( (up)c, 8, true, true ); mtxAccess( (up)m );
    ev( O_COND, (up)c, true ); ev( O_UNLOCK, (up)m, true ); releaseO( (up)m ); q->count = 0; q->owner = 0;
    f.cond = (up)c; f.obj = (up)m; f.condSeq = R.condSeq++; f.deadline = deadline; f.timedOut = false; f.spur = false; f.op = O_COND;
    TRO( "cond_wait", c );
    toSched();                              // resumes owning permission to take m
    f.op = O_NONE; f.cond = 0; f.obj = 0; f.deadline = ~0ull;
    q = mm( m, "pthread_cond_wait (re-lock)" ); if ( q->owner ) toolError( "relock" );
    heapCheck( (up)c, sizeof( CM ), false ); mtxAccess( (up)m );
    q->owner = (int)f.tid + 1; q->count = cnt; ev( O_LOCK, (up)m, true ); acquireO( (up)m ); TRO( f.timedOut ? "cond timeout, relocked" : f.spur ? "cond SPURIOUS wake, relocked" : "cond woken, relocked", m );
    f.spur = false;
    return f.timedOut ? ETIMEDOUT : 0;
}
static u64 absNs( clockid_t, const struct timespec * t ) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
EXP int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m ) { if ( !inf() ) return real_pthread_cond_wait()( c, m ); return condWait( c, m, ~0ull ); }
EXP int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t ) { if ( !inf() ) toolError( "timedwait outside" ); R.clockUsed = true; return condWait( c, m, absNs( 0, t ) ); }
EXP int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t ) { if ( !inf() ) toolError( "clockwait outside" ); R.clockUsed = true; return condWait( c, m, absNs( k, t ) ); }
static int pickChoice( int n, u8 kind );
static void wake( Fiber & g, bool spurious ) { g.op = O_LOCK; g.spur = spurious; g.deadline = ~0ull; }
EXP int pthread_cond_signal( pthread_cond_t * c ) {
    if ( !inf() || !ours( c ) ) return ( rt_ready && R.inFiber ) ? 0 : real_pthread_cond_signal()( c );
    cmv( c, "pthread_cond_signal" ); sp( O_SIGNAL, (up)c ); cmv( c, "pthread_cond_signal" ); access( (up)c, 8, true, true );
    u32 w[ MAXT ], n = 0; for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].used && !R.f[ i ].finished && R.f[ i ].op == O_COND && R.f[ i ].cond == (up)c ) w[ n++ ] = i;
    for ( u32 i = 1; i < n; ++i ) { u32 x = w[ i ]; u32 j = i; while ( j && R.f[ w[ j - 1 ] ].condSeq > R.f[ x ].condSeq ) { w[ j ] = w[ j - 1 ]; --j; } w[ j ] = x; }
    u32 k = 0; if ( n > 1 && !R.o.det ) k = pickChoice( n > 3 ? 3 : n, 2 ); if ( n > 3 && k == 2 ) k = n - 1;
    ev( O_SIGNAL, (up)c, true, k );
    if ( n ) { if ( R.trace ) { Out o_; tr( "signal %s wakes t%u of %u waiters%s", shortObj( (up)c ).c_str(), w[ k ], n, frames().c_str() ); } wake( R.f[ w[ k ] ], false ); } else TRO( "signal (no waiter)", c );
    return 0;
}
EXP int pthread_cond_broadcast( pthread_cond_t * c ) {
    if ( !inf() || !ours( c ) ) return ( rt_ready && R.inFiber ) ? 0 : real_pthread_cond_broadcast()( c );
    cmv( c, "pthread_cond_broadcast" ); sp( O_SIGNAL, (up)c ); cmv( c, "pthread_cond_broadcast" ); access( (up)c, 8, true, true ); ev( O_SIGNAL, (up)c, true, 99 );
    for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].used && !R.f[ i ].finished && R.f[ i ].op == O_COND && R.f[ i ].cond == (up)c ) wake( R.f[ i ], false );
    TRO( "broadcast", c ); return 0;
}
// rwlock, spin, semaphore, once -----------------------------------------------------------------------
struct RWM { int writer; u32 readers; };
EXP int pthread_rwlock_rdlock( pthread_rwlock_t * l ) { if ( !inf() ) return 0; heapCheck( (up)l, 8, 0 ); sp( O_RD, (up)l ); ( (RWM *)l )->readers++; ev( O_RD, (up)l, true ); acquireO( (up)l ); return 0; }
EXP int pthread_rwlock_wrlock( pthread_rwlock_t * l ) { if ( !inf() ) return 0; heapCheck( (up)l, 8, 0 ); sp( O_WR, (up)l ); ( (RWM *)l )->writer = R.cur->tid + 1; ev( O_WR, (up)l, true ); acquireO( (up)l ); return 0; }
EXP int pthread_rwlock_tryrdlock( pthread_rwlock_t * l ) { if ( !inf() ) return 0; sp( O_TRYLOCK, (up)l ); RWM * q = (RWM *)l; if ( q->writer ) return EBUSY; q->readers++; ev( O_RD, (up)l, true ); acquireO( (up)l ); return 0; }
EXP int pthread_rwlock_trywrlock( pthread_rwlock_t * l ) { if ( !inf() ) return 0; sp( O_TRYLOCK, (up)l ); RWM * q = (RWM *)l; if ( q->writer || q->readers ) return EBUSY; q->writer = R.cur->tid + 1; ev( O_WR, (up)l, true ); acquireO( (up)l ); return 0; }
EXP int pthread_rwlock_unlock( pthread_rwlock_t * l ) { if ( !inf() ) return 0; RWM * q = (RWM *)l; ev( O_UNLOCK, (up)l, true ); releaseO( (up)l ); if ( q->writer ) q->writer = 0; else if ( q->readers ) --q->readers; else violation( "bad-mutex", "unlock of an unlocked rwlock" ); return 0; }
EXP int pthread_rwlock_init( pthread_rwlock_t * l, const pthread_rwlockattr_t * ) { memset( l, 0, sizeof *l ); return 0; }
EXP int pthread_rwlock_destroy( pthread_rwlock_t * ) { return 0; }
EXP int pthread_spin_init( pthread_spinlock_t * l, int ) { *(volatile int *)l = 0; return 0; }
EXP int pthread_spin_destroy( pthread_spinlock_t * ) { return 0; }
EXP int pthread_spin_lock( pthread_spinlock_t * l ) { if ( !inf() ) return 0; sp( O_SEM, (up)l ); *(volatile int *)l = 1; ev( O_LOCK, (up)l, true ); acquireO( (up)l ); return 0; }
EXP int pthread_spin_trylock( pthread_spinlock_t * l ) { if ( !inf() ) return 0; sp( O_TRYLOCK, (up)l ); if ( *(volatile int *)l ) return EBUSY; *(volatile int *)l = 1; ev( O_LOCK, (up)l, true ); acquireO( (up)l ); return 0; }
EXP int pthread_spin_unlock( pthread_spinlock_t * l ) { if ( !inf() ) return 0; ev( O_UNLOCK, (up)l, true ); releaseO( (up)l ); *(volatile int *)l = 0; return 0; }
struct SM { int spinpad; int value; int isSem; };
EXP int sem_init( sem_t * s, int, unsigned v ) { memset( s, 0, sizeof *s ); ( (SM *)s )->value = v; ( (SM *)s )->isSem = 0x5e; return 0; }
EXP int sem_destroy( sem_t * ) { return 0; }
EXP int sem_wait( sem_t * s ) { if ( !inf() ) return 0; Fiber & f = *R.cur; f.spur = true; sp( O_SEM, (up)s ); f.spur = false; ( (SM *)s )->value--; ev( O_SEM, (up)s, true ); acquireO( (up)s ); return 0; }
EXP int sem_trywait( sem_t * s ) { if ( !inf() ) return 0; sp( O_TRYLOCK, (up)s ); ev( O_SEM, (up)s, true ); if ( ( (SM *)s )->value <= 0 ) { errno = EAGAIN; return -1; } ( (SM *)s )->value--; acquireO( (up)s ); return 0; }
EXP int sem_post( sem_t * s ) { if ( !inf() ) return 0; sp( O_SIGNAL, (up)s ); ev( O_SEM, (up)s, true ); releaseO( (up)s ); ( (SM *)s )->value++; return 0; }
EXP int sem_getvalue( sem_t * s, int * v ) { *v = ( (SM *)s )->value; return 0; }
EXP int pthread_once( pthread_once_t * o, void ( *fn )() ) {
    if ( !inf() || !ours( o ) ) return real_pthread_once()( o, fn );
    volatile int * p = (volatile int *)o;
    if ( *p == 2 ) { acquireO( (up)o ); ev( O_ONCE, (up)o, false ); return 0; }
    if ( *p == 1 ) { sp( O_ONCE, (up)o ); acquireO( (up)o ); if ( *p == 2 ) return 0; }
    *p = 1; try { fn(); } catch ( ... ) { *p = 0; throw; } *p = 2; ev( O_ONCE, (up)o, true ); releaseO( (up)o ); return 0;
}
EXP int __cxa_guard_acquire( u64 * g ) {
    volatile u8 * b = (volatile u8 *)g; if ( b[ 0 ] ) { if ( inf() ) acquireO( (up)g ); return 0; }
    if ( !inf() ) { b[ 1 ] = 1; return 1; }
    while ( b[ 1 ] ) { sp( O_GUARD, (up)g ); if ( b[ 0 ] ) { acquireO( (up)g ); return 0; } }
    b[ 1 ] = 1; return 1;
}
EXP void __cxa_guard_release( u64 * g ) { volatile u8 * b = (volatile u8 *)g; b[ 0 ] = 1; b[ 1 ] = 0; if ( inf() ) { ev( O_ONCE, (up)g, true ); releaseO( (up)g ); } }
EXP void __cxa_guard_abort( u64 * g ) { ( (volatile u8 *)g )[ 1 ] = 0; }

// threads ------------------------------------------------------------------------------------------------
extern "C" __attribute__(( used )) void mc_entry( Fiber * f ) {
    try { f->ret = f->fn( f->arg ); }
    catch ( ... ) { violation( "uncaught-exception", "exception escaped from thread t%u", f->tid ); }
    while ( f->ndt ) { --f->ndt; f->dt[ f->ndt ].f( f->dt[ f->ndt ].a ); }
    f->finished = true; f->op = O_NONE; f->sdepth = 0; --R.alive; if ( f->detached ) --R.unjoined;
    ev( O_JOIN, (up)f, true ); releaseO( (up)f );
    if ( R.trace ) { Out o_; tr( "thread ends" ); }
    toSched(); toolError( "finished fiber resumed" );
}
static Fiber * newFiber( void * ( *fn )( void * ), void * arg ) {
    if ( R.nf >= MAXT ) toolError( "too many threads" );
    Fiber & f = R.f[ R.nf ]; u32 tid = R.nf++;
    u32 * vc = f.vc; u32 * rf = f.relf; u32 * af = f.acqf; char * tls = f.tls; bool deep = f.deep;
    memset( &f, 0, offsetof( Fiber, sstk ) ); f.vc = vc; f.relf = rf; f.acqf = af; f.tls = tls; f.ndt = 0; f.slices = 0;
    f.hasRelf = f.hasAcqf = false;
    up top = ST_BASE + ( tid + 1 ) * ST_EACH;
    if ( deep ) memset( (void *)( ST_BASE + tid * ST_EACH + 4096 ), 0, ST_EACH - 4096 ); else memset( (void *)( top - ST_CLEAN ), 0, ST_CLEAN );
    if ( !f.vc ) { f.vc = (u32 *)__libc_calloc( MAXT * 3, sizeof( u32 ) ); f.relf = f.vc + MAXT; f.acqf = f.vc + 2 * MAXT; }
    else memset( f.vc, 0, MAXT * 3 * sizeof( u32 ) );
    if ( R.tlsSize ) { if ( !f.tls ) f.tls = (char *)__libc_malloc( R.tlsSize ); memcpy( f.tls, R.tlsInit, R.tlsInitSize ); memset( f.tls + R.tlsInitSize, 0, R.tlsSize - R.tlsInitSize ); }
    f.tid = tid; f.used = true; f.fn = fn; f.arg = arg; f.deadline = ~0ull; f.op = O_START;
    f.arLo = tid ? AR_BASE + AR_MAIN + (u64)( tid - 1 ) * AR_EACH : AR_BASE; f.arHi = tid ? f.arLo + AR_EACH : AR_BASE + AR_MAIN; f.brk = f.arLo;
    f.vc[ tid ] = 1; f.th = mix( 0x1234, tid ); f.arrived = !R.o.prio || tid == 0; f.prio = tid == 0 ? 1000 : 0;
    u64 * s = (u64 *)top; *--s = 0; *--s = 0; *--s = (u64)mc_tramp; // return address
    *--s = 0 /*rbp*/; *--s = (u64)&f /*rbx*/; *--s = 0; *--s = 0; *--s = 0; *--s = 0;
    --s; ( (u32 *)s )[ 0 ] = 0x1f80; ( (u16 *)s )[ 2 ] = 0x37f; ( (u16 *)s )[ 3 ] = 0;
    f.sp = (up)s; ++R.alive; ++R.unjoined; if ( R.nf > 1 ) R.multi = true;
    return &f;
}
EXP int pthread_create( pthread_t * t, const pthread_attr_t * at, void * ( *fn )( void * ), void * arg ) {
    if ( !inf() ) return real_pthread_create()( t, at, fn, arg );
    Fiber * p = R.cur; Fiber * f;
    { f = newFiber( fn, arg ); }
    if ( at ) { int d = 0; pthread_attr_getdetachstate( at, &d ); f->detached = d == PTHREAD_CREATE_DETACHED; }
    if ( R.o.mode == mc::Opts::HB ) { p->th = mix( p->th, 0xc0 + f->tid ); f->th = mix( f->th, p->th ); }
    joinVC( f->vc, p->vc ); ++p->vc[ p->tid ];
    *t = (pthread_t)f; if ( R.trace ) tr( "create t%u", f->tid );
    return 0;
}
EXP int pthread_join( pthread_t t, void ** r ) {
    if ( !inf() ) return real_pthread_join()( t, r );
    Fiber * f = (Fiber *)t; if ( f->joined || f->detached ) violation( "bad-join", "joining t%u twice or detached", f->tid );
    sp( O_JOIN, (up)f ); f->joined = true; --R.unjoined; ev( O_JOIN, (up)f, false ); acquireO( (up)f );
    if ( R.unjoined == 1 && R.alive == 1 ) { /* everything so far happens before what follows */ }
    if ( r ) *r = f->ret; if ( R.trace ) tr( "joined t%u", f->tid ); return 0;
}
EXP int pthread_detach( pthread_t t ) { if ( !inf() ) return 0; Fiber * f = (Fiber *)t; f->detached = true; if ( f->finished ) --R.unjoined; return 0; }
EXP pthread_t pthread_self() { if ( inf() ) return (pthread_t)R.cur; return real_pthread_self()(); }
EXP int pthread_setname_np( pthread_t, const char * ) { return 0; }
EXP int pthread_getname_np( pthread_t, char * b, size_t n ) { if ( n ) b[ 0 ] = 0; return 0; }
EXP int pthread_setaffinity_np( pthread_t, size_t, const cpu_set_t * ) { return 0; }
EXP int pthread_setschedparam( pthread_t, int, const struct sched_param * ) { return 0; }
EXP int sched_yield() { if ( !inf() ) return real_sched_yield()(); sp( O_YIELD, 0 ); return 0; }
// Virtual time only advances when nobody can run, so whoever sleeps or waits for quiescence is ordered after everything done so far.
static void syncAll() { for ( u32 i = 0; i < R.nf; ++i ) { Fiber & g = R.f[ i ]; if ( &g != R.cur ) { joinVC( R.cur->vc, g.vc ); ++g.vc[ g.tid ]; } } }
static void vsleep( u64 ns ) { Fiber & f = *R.cur; f.deadline = R.now + ns; f.op = O_SLEEP; if ( R.trace ) tr( "sleep %" PRIu64 " ns", ns ); toSched(); f.op = O_NONE; f.deadline = ~0ull; ev( O_SLEEP, 8, true ); if ( ns ) syncAll(); }
EXP int nanosleep( const struct timespec * a, struct timespec * b ) { if ( !inf() ) return real_nanosleep()( a, b ); vsleep( (u64)a->tv_sec * 1000000000ull + a->tv_nsec ); return 0; }
EXP int clock_nanosleep( clockid_t, int fl, const struct timespec * a, struct timespec * ) {
    if ( !inf() ) return 0; u64 t = (u64)a->tv_sec * 1000000000ull + a->tv_nsec; if ( fl & TIMER_ABSTIME ) { R.clockUsed = true; t = t > R.now ? t - R.now : 0; } vsleep( t ); return 0; }
EXP int usleep( useconds_t u ) { if ( inf() ) vsleep( (u64)u * 1000 ); return 0; }
EXP unsigned sleep( unsigned s ) { if ( inf() ) vsleep( (u64)s * 1000000000ull ); return 0; }
EXP int clock_gettime( clockid_t c, struct timespec * t ) {
    if ( !inf() ) return real_clock_gettime()( c, t );
    R.clockUsed = true; t->tv_sec = R.now / 1000000000ull; t->tv_nsec = R.now % 1000000000ull; ev( O_SLEEP, 8, false ); return 0; }
// destructors of function-local statics: the variables are put back to their initial state with every execution, so nothing is ever registered
extern "C" int __cxa_atexit( void ( * )( void * ), void *, void * ) noexcept;
REAL( __cxa_atexit )
EXP int __cxa_atexit( void ( *fn )( void * ), void * a, void * d ) noexcept { if ( inf() ) return 0; return real___cxa_atexit()( fn, a, d ); }
extern "C" int __cxa_thread_atexit_impl( void ( * )( void * ), void *, void * );
EXP int __cxa_thread_atexit( void ( *fn )( void * ), void * a, void * d ) {
    if ( !inf() ) return __cxa_thread_atexit_impl( fn, a, d ); Fiber & f = *R.cur; if ( f.ndt >= 16 ) toolError( "too many thread_local destructors" ); f.dt[ f.ndt ].f = fn; f.dt[ f.ndt ].a = a; ++f.ndt; return 0; }
EXP int get_nprocs() { return 4; }

// heap -----------------------------------------------------------------------------------------------------
static void * bigAlloc( size_t n, size_t al ) {
    up a = ( R.bigBrk + 4096 + al - 1 ) & ~(up)( al - 1 ); if ( R.bigN >= 8 || a + n + 4096 > BIG_BASE + BIG_SIZE ) return nullptr;
    R.bigBrk = a + n; R.big[ R.bigN++ ] = Rt::Big{ a, n, true }; R.liveBytes += n; return (void *)a;
}
static bool bigFree( void * p ) { if ( (up)p - BIG_BASE >= BIG_SIZE ) return false; ++R.cur->heapEvents;
    for ( u32 i = 0; i < R.bigN; ++i ) if ( R.big[ i ].a == (up)p ) { if ( !R.big[ i ].live ) violation( "double-free", "a large block is freed twice" ); R.big[ i ].live = false; R.liveBytes -= R.big[ i ].n; return true; }
    violation( "bad-free", "free of a pointer that is not the start of a heap block" ); }
static void * arAlloc( size_t n, size_t al, int fill ) {
    Fiber & f = *R.cur; ++f.heapEvents; if ( n >> 40 ) return nullptr;
    if ( R.oomIn && !f.inEh && !f.ignore && !--R.oomIn ) { if ( R.trace ) tr( "out of memory: allocation of %zu bytes fails", n ); return nullptr; }
    if ( al < 16 ) al = 16;
    up a = ( f.brk + RZ + al - 1 ) & ~( al - 1 ); up e = ( a + ( n ? n : 1 ) + RZ + 15 ) & ~15ull;
    if ( e > f.arHi ) { if ( n > ( 256u << 20 ) ) return R.bigOn ? bigAlloc( n, al ) : nullptr; toolError( "model heap of t%u exhausted (%zu)", f.tid, n ); }
    memset( (void *)f.brk, 0xEE, a - f.brk ); memset( (void *)a, fill, n ); memset( (void *)( a + n ), 0xEE, e - a - n );
    memset( (void *)( SH_BASE + ( a - AR_BASE ) ), 1, n );
    if ( R.nblocks >= ( 1u << 20 ) ) toolError( "too many heap blocks" );
    *(u32 *)( a - 8 ) = 0; *(u32 *)( a - 4 ) = 0xa110c8edu ^ (u32)a; ( (u32 *)IX_BASE )[ ( a - AR_BASE ) >> 4 ] = R.nblocks;
    u8 eh = f.inEh ? 2 : f.ehLive ? 1 : 0; if ( eh == 2 ) ++f.ehLive;
    R.blocks[ R.nblocks++ ] = Block{ a, n, true, (u16)f.tid, eh, f.lastBlk, f.brk }; R.liveBytes += n; f.lastBlk = R.nblocks;
    f.brk = e;
    if ( R.trace ) tr( "alloc heap#%u size %zu", R.nblocks - 1, n );
    return (void *)a;
}
static Block * blockOf( void * p, const char * what ) {
    up a = (up)p;
    if ( ( a & 7 ) || *(u32 *)( a - 4 ) != ( 0xa110c8edu ^ (u32)a ) ) { Out o_; std::string w = where( a ); R.inFiber = true; violation( "bad-free", "%s of a pointer that is not the start of a heap block (or whose header was overwritten): %s", what, w.c_str() ); }
    u32 i = ( (u32 *)IX_BASE )[ ( a - AR_BASE ) >> 4 ]; if ( i >= R.nblocks || R.blocks[ i ].a != a ) violation( "bad-free", "%s: heap block header overwritten", what );
    return R.blocks + i;
}
static void arFree( void * p ) {
    Fiber & f = *R.cur; ++f.heapEvents; Block * b = blockOf( p, "free" );
    if ( !b->live ) violation( "double-free", "block #%u freed twice", (unsigned)( b - R.blocks ) );
    const u8 * t = (u8 *)b->a + b->sz; for ( size_t i = 0; i < RZ; ++i ) if ( t[ i ] != 0xEE ) violation( "out-of-bounds", "bytes behind heap block #%u (size %zu) were overwritten", (unsigned)( b - R.blocks ), b->sz );
    const u8 * h = (u8 *)b->a - RZ; for ( size_t i = 0; i < RZ - 8; ++i ) if ( h[ i ] != 0xEE ) violation( "out-of-bounds", "bytes before heap block #%u were overwritten", (unsigned)( b - R.blocks ) );
    if ( b->sz <= 4096 ) access( b->a, b->sz, true );
    b->live = false; R.liveBytes -= b->sz; memset( (void *)b->a, 0xDD, b->sz ); memset( (void *)( SH_BASE + ( b->a - AR_BASE ) ), 2, b->sz );
    if ( R.trace ) tr( "free heap#%u", (unsigned)( b - R.blocks ) );
    if ( b->eh == 2 ) --R.f[ b->tid ].ehLive;
    // memory of exception objects is given back, so that executions with different numbers of caught exceptions can share states
    if ( b->eh && b->tid == f.tid ) while ( f.lastBlk ) { Block & l = R.blocks[ f.lastBlk - 1 ]; if ( l.live || !l.eh ) break;
        memset( (void *)( SH_BASE + ( l.from - AR_BASE ) ), 0, f.brk - l.from ); f.brk = l.from; if ( f.lastBlk == R.nblocks ) --R.nblocks; f.lastBlk = l.prev; }
}
static inline bool inAr( void * p ) { return (up)p - AR_BASE < AR_SIZE; }
typedef void * ( *CxaAlloc )( size_t );
EXP void * __cxa_allocate_exception( size_t n ) { static CxaAlloc real; if ( !real ) real = (CxaAlloc)dlsym( RTLD_NEXT, "__cxa_allocate_exception" ); if ( !inf() ) return real( n ); Fiber & f = *R.cur; ++f.inEh; void * p = real( n ); --R.cur->inEh; return p; }
EXP void * malloc( size_t n ) { return inf() ? arAlloc( n, 16, 0xA5 ) : __libc_malloc( n ); }
EXP void free( void * p ) { if ( !p ) return; if ( inf() && R.bigN && bigFree( p ) ) return; if ( inAr( p ) ) { if ( inf() ) arFree( p ); return; } __libc_free( p ); }
EXP void * calloc( size_t a, size_t b ) { if ( !inf() ) return __libc_calloc( a, b ); if ( b && a > ~0ull / b ) return nullptr; return arAlloc( a * b, 16, 0 ); }
EXP void * realloc( void * p, size_t n ) {
    if ( p && !inAr( p ) ) return __libc_realloc( p, n );
    if ( !inf() ) return __libc_realloc( nullptr, n );
    void * q = arAlloc( n, 16, 0xA5 ); if ( p ) { Block * b = blockOf( p, "realloc" ); memcpy( q, p, b->sz < n ? b->sz : n ); arFree( p ); } return q; }
EXP void * memalign( size_t al, size_t n ) { return inf() ? arAlloc( n, al, 0xA5 ) : __libc_memalign( al, n ); }
EXP void * aligned_alloc( size_t al, size_t n ) { return memalign( al, n ); }
EXP int posix_memalign( void ** p, size_t al, size_t n ) { *p = memalign( al, n ); return *p ? 0 : ENOMEM; }
void * operator new( size_t n ) { void * p = malloc( n ); if ( !p ) throw std::bad_alloc(); return p; }
void * operator new[]( size_t n ) { void * p = malloc( n ); if ( !p ) throw std::bad_alloc(); return p; }
void * operator new( size_t n, std::align_val_t a ) { void * p = memalign( (size_t)a, n ); if ( !p ) throw std::bad_alloc(); return p; }
void * operator new[]( size_t n, std::align_val_t a ) { void * p = memalign( (size_t)a, n ); if ( !p ) throw std::bad_alloc(); return p; }
void * operator new( size_t n, const std::nothrow_t & ) noexcept { return malloc( n ); }
void * operator new[]( size_t n, const std::nothrow_t & ) noexcept { return malloc( n ); }
void operator delete( void * p ) noexcept { free( p ); } void operator delete[]( void * p ) noexcept { free( p ); }
void operator delete( void * p, size_t ) noexcept { free( p ); } void operator delete[]( void * p, size_t ) noexcept { free( p ); }
void operator delete( void * p, std::align_val_t ) noexcept { free( p ); } void operator delete[]( void * p, std::align_val_t ) noexcept { free( p ); }
void operator delete( void * p, size_t, std::align_val_t ) noexcept { free( p ); } void operator delete[]( void * p, size_t, std::align_val_t ) noexcept { free( p ); }

// process-ending calls -----------------------------------------------------------------------------------
EXP void abort() { if ( inf() ) violation( "abort", "abort() called" ); signal( SIGABRT, SIG_DFL ); raise( SIGABRT ); _exit( 134 ); }
EXP void __assert_fail( const char * e, const char * f, unsigned l, const char * ) { if ( inf() ) violation( "assert", "assertion %s failed at %s:%u", e, f, l ); fprintf( stderr, "assert %s %s:%u\n", e, f, l ); _exit( 134 ); }
static void onTerminate() {
    if ( inf() ) {
        const char * what = "(no active std::exception)"; char buf[ 200 ];
        if ( std::current_exception() ) { try { throw; } catch ( const std::exception & e ) { snprintf( buf, sizeof buf, "%s", e.what() ); what = buf; } catch ( ... ) { what = "(unknown exception)"; } }
        violation( "terminate", "std::terminate called: %s", what );
    }
    _exit( 134 );
}
static void onSignal( int s, siginfo_t * si, void * ) {
    if ( inf() ) { violation( "signal", "signal %d (%s), address %s", s, s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic fault" : "fault", where( (up)si->si_addr ).c_str() ); }
    fprintf( stderr, "MC-TOOL-ERROR: signal %d at %p in the scheduler\n", s, si->si_addr ); _exit( 4 );
}
static void onTick( int ) {
    if ( !rt_ready || !R.inFiber ) { R.stallTicks = 0; return; }
    if ( R.progress != R.lastProgress ) { R.lastProgress = R.progress; R.stallTicks = 0; return; }
    if ( ++R.stallTicks >= 40 ) { R.stallTicks = 0; violation( "hang", "no scheduling step for 20 s of CPU time" ); }
}

// ------------------------------------------------------------------------------------------------ tsan ABI
#define RW( n ) \
  EXP void __tsan_read##n( void * a ) { access( (up)a, n, false ); } EXP void __tsan_write##n( void * a ) { access( (up)a, n, true ); } \
  EXP void __tsan_unaligned_read##n( void * a ) { access( (up)a, n, false ); } EXP void __tsan_unaligned_write##n( void * a ) { access( (up)a, n, true ); } \
  EXP void __tsan_volatile_read##n( void * a ) { access( (up)a, n, false ); } EXP void __tsan_volatile_write##n( void * a ) { access( (up)a, n, true ); } \
  EXP void __tsan_unaligned_volatile_read##n( void * a ) { access( (up)a, n, false ); } EXP void __tsan_unaligned_volatile_write##n( void * a ) { access( (up)a, n, true ); } \
  EXP void __tsan_read_write##n( void * a ) { access( (up)a, n, true ); } EXP void __tsan_unaligned_read_write##n( void * a ) { access( (up)a, n, true ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
EXP void __tsan_read_range( void * a, size_t n ) { access( (up)a, n, false ); }
EXP void __tsan_write_range( void * a, size_t n ) { access( (up)a, n, true ); }
EXP void __tsan_vptr_update( void ** p, void * v ) { access( (up)p, 8, *p != v ); }
EXP void __tsan_vptr_read( void ** p ) { access( (up)p, 8, false ); }
EXP void __tsan_func_entry( void * pc ) { if ( !inf() ) return; Fiber & f = *R.cur; if ( f.sdepth < 64 ) f.sstk[ f.sdepth ] = (up)__builtin_return_address( 0 ); ++f.sdepth; (void)pc; }
EXP void __tsan_func_exit() { if ( !inf() ) return; if ( R.cur->sdepth ) --R.cur->sdepth; }
EXP void __tsan_init() {} EXP void __tsan_ignore_thread_begin() {} EXP void __tsan_ignore_thread_end() {}
EXP void * __tsan_memcpy( void * d, const void * s, size_t n ) { if ( n ) { access( (up)s, n, false ); access( (up)d, n, true ); } return memcpy( d, s, n ); }
EXP void * __tsan_memmove( void * d, const void * s, size_t n ) { if ( n ) { access( (up)s, n, false ); access( (up)d, n, true ); } return memmove( d, s, n ); }
EXP void * __tsan_memset( void * d, int c, size_t n ) { if ( n ) access( (up)d, n, true ); return memset( d, c, n ); }

// orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool acqO( int o ) { return o == 1 || o == 2 || o == 4 || o == 5; }
static inline bool relO( int o ) { return o == 3 || o == 4 || o == 5; }
static void atLoad( up a, size_t n, int o ) {
    access( a, n, false, true ); ev( O_ATOMIC, a, false );
    Obj & x = obj( a ); if ( x.has ) { if ( acqO( o ) ) joinVC( R.cur->vc, x.vc ); else { joinVC( R.cur->acqf, x.vc ); R.cur->hasAcqf = true; } }
}
static void atStore( up a, size_t n, int o ) {
    access( a, n, true, true ); ev( O_ATOMIC, a, true ); Obj & x = obj( a ); Fiber & f = *R.cur;
    if ( relO( o ) ) { memcpy( x.vc, f.vc, sizeof( u32 ) * R.nf ); x.has = true; ++f.vc[ f.tid ]; }
    else if ( f.hasRelf ) { memcpy( x.vc, f.relf, sizeof( u32 ) * R.nf ); x.has = true; }
    else { x.has = false; memset( x.vc, 0, sizeof( u32 ) * R.nf ); }
}
static void atRmw( up a, size_t n, int o ) {
    access( a, n, true, true ); ev( O_ATOMIC, a, true ); Obj & x = obj( a ); Fiber & f = *R.cur;
    if ( x.has ) { if ( acqO( o ) ) joinVC( f.vc, x.vc ); else { joinVC( f.acqf, x.vc ); f.hasAcqf = true; } }
    if ( relO( o ) ) { joinVC( x.vc, f.vc ); x.has = true; ++f.vc[ f.tid ]; } else if ( f.hasRelf ) { joinVC( x.vc, f.relf ); x.has = true; }
}
static inline void atPoint( up a ) { if ( inf() && R.o.atomics && !R.cur->ignore ) { R.progress++; sp( O_ATOMIC, a ); } }
#define AT( bits, T ) \
  EXP T __tsan_atomic##bits##_load( const volatile T * a, int o ) { atPoint( (up)a ); if ( inf() ) { atLoad( (up)a, sizeof( T ), o ); TRO( "atomic load", a ); } return *a; } \
  EXP void __tsan_atomic##bits##_store( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) { atStore( (up)a, sizeof( T ), o ); TRO( "atomic store", a ); } *a = v; } \
  EXP T __tsan_atomic##bits##_exchange( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) { atRmw( (up)a, sizeof( T ), o ); TRO( "atomic exchange", a ); } T x = *a; *a = v; return x; } \
  EXP T __tsan_atomic##bits##_fetch_add( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) { atRmw( (up)a, sizeof( T ), o ); TRO( "atomic add", a ); } T x = *a; *a = x + v; return x; } \
  EXP T __tsan_atomic##bits##_fetch_sub( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) { atRmw( (up)a, sizeof( T ), o ); TRO( "atomic sub", a ); } T x = *a; *a = x - v; return x; } \
  EXP T __tsan_atomic##bits##_fetch_and( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) atRmw( (up)a, sizeof( T ), o ); T x = *a; *a = x & v; return x; } \
  EXP T __tsan_atomic##bits##_fetch_or( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) atRmw( (up)a, sizeof( T ), o ); T x = *a; *a = x | v; return x; } \
  EXP T __tsan_atomic##bits##_fetch_xor( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) atRmw( (up)a, sizeof( T ), o ); T x = *a; *a = x ^ v; return x; } \
  EXP T __tsan_atomic##bits##_fetch_nand( volatile T * a, T v, int o ) { atPoint( (up)a ); if ( inf() ) atRmw( (up)a, sizeof( T ), o ); T x = *a; *a = ~( x & v ); return x; } \
  static bool cas##bits( volatile T * a, T * e, T v, int so, int fo, bool weak ) { \
    atPoint( (up)a ); T x = *a; bool ok = x == *e; \
    if ( inf() ) { if ( ok && weak && R.casLeft > 0 && R.alive > 0 && pickChoice( 2, 3 ) ) { --R.casLeft; ok = false; } \
      if ( ok ) atRmw( (up)a, sizeof( T ), so ); else atLoad( (up)a, sizeof( T ), fo ); TRO( ok ? "cas ok" : "cas failed", a ); } \
    if ( ok ) *a = v; else *e = x; return ok; } \
  EXP int __tsan_atomic##bits##_compare_exchange_strong( volatile T * a, T * e, T v, int so, int fo ) { return cas##bits( a, e, v, so, fo, false ); } \
  EXP int __tsan_atomic##bits##_compare_exchange_weak( volatile T * a, T * e, T v, int so, int fo ) { return cas##bits( a, e, v, so, fo, true ); } \
  EXP T __tsan_atomic##bits##_compare_exchange_val( volatile T * a, T e, T v, int so, int fo ) { T x = e; cas##bits( a, &x, v, so, fo, true ); return x; }
// Note: clang lowers both weak and strong CAS to compare_exchange_val and compares the value, so a spurious failure cannot be
// expressed through it (it returns the old value); casfail therefore has no effect there and budgets default to 0.
AT( 8, u8 ) AT( 16, u16 ) AT( 32, u32 ) AT( 64, u64 )
EXP void __tsan_atomic_thread_fence( int o ) { if ( !inf() ) return; Fiber & f = *R.cur; if ( acqO( o ) && f.hasAcqf ) joinVC( f.vc, f.acqf ); if ( relO( o ) ) { memcpy( f.relf, f.vc, sizeof( u32 ) * MAXT ); f.hasRelf = true; ++f.vc[ f.tid ]; } }
EXP void __tsan_atomic_signal_fence( int ) {}

// ------------------------------------------------------------------------------------------------ choices
static int pickChoice( int n, u8 kind ) {
    if ( n <= 1 ) return 0;
    auto & ch = *R.ch; int k;
    if ( R.pos < ch.size() ) {
        if ( ch[ R.pos ].n != n || ch[ R.pos ].kind != kind ) toolError( "divergence while replaying: choice %zu had %u options (kind %u), now %d (kind %u)", R.pos, ch[ R.pos ].n, ch[ R.pos ].kind, n, kind );
        k = ch[ R.pos ].pick;
    } else { Out o_; ch.push_back( Choice{ (u16)n, 0, kind } ); k = 0; }
    ++R.pos; R.curTraceHash = mix( R.curTraceHash, (u64)k * 1000 + n );
    if ( R.cur && R.inFiber ) R.cur->th = mix( R.cur->th, 0xdada0000 + k );
    return k;
}
static bool leakProp() { return !R.prop[ 0 ] || strstr( "C19 C24 C26", R.prop ); }
namespace mc {
int choose( int n ) { R.progress++; int k = 0;
    if ( n > 1 ) { Fiber & f = *R.cur; f.op = O_CHOOSE; f.obj = n; toSched(); k = (int)f.obj; f.th = mix( f.th, 0xdada0000 + (u32)k ); f.op = O_NONE; f.obj = 0; } if ( R.trace ) tr( "choose %d of %d", k, n ); return k; }
void point() { if ( inf() ) { R.progress++; sp( O_POINT, 0 ); } }
void wait_quiescent() { Fiber & f = *R.cur; f.op = O_QUIESCE; toSched(); f.op = O_NONE; ev( O_QUIESCE, 16, true ); syncAll();
    if ( R.trace ) tr( "quiescent" ); }
void wait_all() { Fiber & f = *R.cur; f.op = O_ALL; toSched(); f.op = O_NONE; ev( O_QUIESCE, 16, true ); syncAll(); }
void fail( const char * fmt, ... ) { char b[ 600 ]; va_list ap; va_start( ap, fmt ); vsnprintf( b, sizeof b, fmt, ap ); va_end( ap ); violation( "property", "%s", b ); }
void note( const char * fmt, ... ) { if ( !R.trace ) return; Out o_; char b[ 300 ]; va_list ap; va_start( ap, fmt ); vsnprintf( b, sizeof b, fmt, ap ); va_end( ap ); tr( "-- %s", b ); }
void outcome( uint64_t v ) { Out o_; if ( R.outcomes->size() < 100000 ) R.outcomes->insert( v ); }
unsigned self() { return R.cur->tid; }
bool on( const char * p ) { return R.prop[ 0 ] == 0 || !strcmp( R.prop, p ); }
bool is_blocked( unsigned t ) { Fiber & f = R.f[ t ]; if ( t >= R.nf || f.finished ) return false; if ( f.op == O_COND ) return true; if ( f.op == O_LOCK ) return !lockable( f, (MM *)f.obj ); if ( f.op == O_JOIN ) return !( (Fiber *)f.obj )->finished; return false; }
bool is_cond_blocked( unsigned t ) { Fiber & f = R.f[ t ]; return t < R.nf && !f.finished && f.op == O_COND; }
unsigned num_threads() { return R.nf; }
uint64_t heap_events() { return R.cur->heapEvents; }
uint64_t heap_bytes_live() { return R.liveBytes; }
uint64_t now_ns() { return R.now; }
bool block_of( const void * p, uintptr_t & base, size_t & size ) { up a = (up)p; for ( u32 i = 0; i < R.nblocks; ++i ) { Block & k = R.blocks[ i ]; if ( k.live && a >= k.a && a < k.a + k.sz ) { base = k.a; size = k.sz; return true; } } for ( u32 i = 0; i < R.bigN; ++i ) if ( R.big[ i ].live && a - R.big[ i ].a < R.big[ i ].n ) { base = R.big[ i ].a; size = R.big[ i ].n; return true; } return false; }
void set_prio( unsigned t, int p ) { R.f[ t ].prio = p; }
void poke_ignore( int d ) { R.cur->ignore += d; }
void tick( unsigned long ) { R.progress++; }
void oom( long n ) { R.oomIn = n; }
bool oom_pending() { return R.oomIn; }
void big_heap() { R.bigOn = true; madvise( (void *)BIG_BASE, BIG_SIZE, MADV_HUGEPAGE ); }
void big_drop( void * p, size_t n ) { if ( !p ) { p = (void *)BIG_BASE; n = BIG_SIZE; } up a = ( (up)p + 4095 ) & ~(up)4095, e = ( (up)p + n ) & ~(up)4095; if ( a < e && a - BIG_BASE < BIG_SIZE ) madvise( (void *)a, e - a, MADV_DONTNEED ); R.progress++; }
void count( uint64_t s, uint64_t t ) { R.states += s; R.trans += t; }
void inject( const char * fn, const void * m, int err ) { if ( R.ninj < 8 ) R.inj[ R.ninj++ ] = Inj{ fn, (up)m, err }; }
unsigned faults_pending() { return R.ninj; }
void faults_clear() { R.ninj = 0; }
int mutex_protocol( const void * m ) { return ( (const MM *)m )->proto; }
}

// ------------------------------------------------------------------------------------------------ scheduler
static bool enabled( Fiber & f ) {
    if ( !f.used || f.finished ) return false;
    switch ( f.op ) {
    case O_LOCK: { MM * q = (MM *)f.obj; if ( q->magic == M_DEAD || q->magic != M_OK ) return true; return lockable( f, q ); }
    case O_COND: case O_QUIESCE: return false;
    case O_SLEEP: return f.deadline <= R.now;
    case O_ALL: return R.alive == 1;
    case O_JOIN: return ( (Fiber *)f.obj )->finished;
    case O_SEM: return f.spur ? ( (SM *)f.obj )->value > 0 : *(int *)f.obj == 0;
    case O_RD: return ( (RWM *)f.obj )->writer == 0;
    case O_WR: return ( (RWM *)f.obj )->writer == 0 && ( (RWM *)f.obj )->readers == 0;
    case O_ONCE: return *(int *)f.obj != 1;
    case O_GUARD: return ( (u8 *)f.obj )[ 1 ] == 0;
    default: return true;
    }
}
static int effPrio( Fiber & f, int depth = 0 ) {
    int p = f.prio; if ( depth > 8 ) return p;
    for ( u32 i = 0; i < R.nf; ++i ) { Fiber & g = R.f[ i ];
        if ( &g != &f && g.used && !g.finished && g.arrived && g.op == O_LOCK ) { MM * q = (MM *)g.obj; if ( q->magic == M_OK && q->owner == (int)f.tid + 1 && q->proto == PTHREAD_PRIO_INHERIT ) { int e = effPrio( g, depth + 1 ); if ( e > p ) p = e; } } }
    return p;
}
struct H2 { u64 a = 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull;
    void w( u64 x ) { a = ( a ^ x ) * 0x9fb21c651e98df25ull; a ^= a >> 35; b = rotl( b + x, 27 ) * 0xd6e8feb86659fd93ull; b ^= a; }
    void mem( const void * p, size_t n ) {
        const u64 * q = (const u64 *)p; size_t k = n / 8; u64 x = a, y = b;
        size_t i = 0; for ( ; i + 2 <= k; i += 2 ) { x = ( x ^ q[ i ] ) * 0x9fb21c651e98df25ull; y = ( y ^ q[ i + 1 ] ) * 0xd6e8feb86659fd93ull; x ^= x >> 35; y ^= y >> 33; u64 t = x; x += rotl( y, 23 ); y ^= t; }
        a = x; b = y; for ( ; i < k; ++i ) w( q[ i ] ); if ( n & 7 ) { u64 t = 0; memcpy( &t, q + k, n & 7 ); w( t ); } w( n ); } };
static void stateKey( u64 & a, u64 & b ) {
    H2 h;
    if ( R.o.mode == mc::Opts::HB ) {
        for ( u32 i = 0; i < R.nf; ++i ) { Fiber & f = R.f[ i ]; h.w( f.th ); h.w( ( (u64)f.op << 8 ) | f.finished | ( f.joined << 1 ) ); }
        h.w( R.now ); h.w( R.spurLeft ); h.w( R.casLeft );
    } else {
        h.mem( (void *)R.gLo, R.gHi - R.gLo );
        u64 rank = 0; (void)rank;
        for ( u32 i = 0; i < R.nf; ++i ) {
            Fiber & f = R.f[ i ];
            h.w( ( (u64)f.op << 32 ) | ( f.finished << 1 ) | ( f.joined << 2 ) | ( f.detached << 3 ) | ( f.timedOut << 4 ) | ( f.spur << 5 ) | ( f.arrived << 6 ) ); h.w( f.op == O_CHOOSE ? f.obj : 0 ); h.w( f.brk );
            if ( f.brk > f.arLo ) h.mem( (void *)f.arLo, f.brk - f.arLo );
            if ( f.finished ) continue;
            h.w( f.obj ); h.w( f.cond ); h.w( f.deadline == ~0ull ? ~0ull : f.deadline - R.now ); h.w( (u64)f.cxa[ 0 ] ); h.w( (u64)f.cxa[ 1 ] ); h.w( ( (u64)f.prio << 8 ) + f.ignore );
            if ( f.op == O_COND ) { u64 r = 0; for ( u32 j = 0; j < R.nf; ++j ) if ( R.f[ j ].used && !R.f[ j ].finished && R.f[ j ].op == O_COND && R.f[ j ].condSeq < f.condSeq ) ++r; h.w( r ); }
            up top = ST_BASE + ( f.tid + 1 ) * ST_EACH; h.mem( (void *)f.sp, top - f.sp );
            if ( R.tlsSize ) h.mem( f.tls, R.tlsSize );
        }
        if ( R.clockUsed ) h.w( R.now );
        h.w( R.spurLeft ); h.w( R.casLeft ); h.w( R.ninj );
    }
    if ( R.o.preempt >= 0 ) h.w( 1000 + ( R.cur ? R.cur->tid : 0 ) );
    a = h.a; b = h.b; if ( !( a | b ) ) a = 1;
}
static void runFiber( Fiber & f ) {
    void ** g = (void **)__cxxabiv1::__cxa_get_globals();
    if ( &f != R.cur ) ++R.switches;
    R.cur = &f; g[ 0 ] = f.cxa[ 0 ]; ( (u64 *)g )[ 1 ] = (u64)f.cxa[ 1 ];
    char * tp = nullptr; if ( R.tlsSize ) { asm volatile( "movq %%fs:0,%0" : "=r"( tp ) ); tp -= R.tlsOff; memcpy( tp, f.tls, R.tlsSize ); }
    ++R.progress; ++f.slices;
    R.inFiber = true; mc_switch( &R.schedSp, f.sp ); R.inFiber = false;
    f.cxa[ 0 ] = g[ 0 ]; f.cxa[ 1 ] = (void *)( (u64 *)g )[ 1 ];
    if ( R.tlsSize ) memcpy( f.tls, tp, R.tlsSize );
    g[ 0 ] = nullptr; ( (u64 *)g )[ 1 ] = 0;
}
static std::string blockedList() {
    std::string s; int n = 0;
    for ( u32 i = 0; i < R.nf; ++i ) { Fiber & f = R.f[ i ]; if ( f.used && !f.finished ) { if ( n++ > 8 ) { s += " ..."; break; } char b[ 100 ]; snprintf( b, sizeof b, "%st%u in %s on ", s.empty() ? "" : ", ", i, opName[ f.op ] ); s += b; s += f.op == O_COND ? shortObj( f.cond ) : f.op == O_JOIN ? std::string( "t" ) + std::to_string( ( (Fiber *)f.obj )->tid ) : shortObj( f.obj ); } }
    return s;
}
static void setViol( const char * kind, const std::string & m ) { R.violated = true; *R.vkind = kind; *R.vmsg = m; if ( R.trace ) R.log->push_back( std::string( "!! " ) + kind + ": " + m ); }

// true when the present state was explored before with at least as many preemptions left
static bool visited() {
    if ( R.pos < R.ch->size() || R.o.mode == mc::Opts::PLAIN || R.trace ) return false;
    u64 a, b; stateKey( a, b ); u8 * p; bool old = R.tab->find( a, b, p ); u8 lvl = (u8)( R.o.preempt >= 0 ? R.preUsed + 1 : 1 );
    if ( old && *p && *p <= lvl ) return true;
    if ( !old ) ++R.states;
    *p = lvl; return false;
}
static std::vector< Choice > lastCh;      // choices of the last complete execution
static void * bodyEntry( void * p ) { ( *(std::function< void() > *)p )(); return nullptr; }
// one execution following *R.ch, extending it with first choices
static void execute( const Scn & s ) {
    // reset
    memcpy( (void *)R.gLo, R.snap, R.glen );
    for ( u32 i = 0; i < R.nf; ++i ) { Fiber & f = R.f[ i ]; if ( f.brk > f.arLo ) memset( (void *)( SH_BASE + ( f.arLo - AR_BASE ) ), 0, f.brk - f.arLo ); 
        if ( *(u64 *)( ST_BASE + ( i + 1 ) * ST_EACH - ST_CLEAN - 256 ) ) f.deep = true; }
    if ( ++R.gen == 0 ) toolError( "generation wrap" );
    if ( R.bigN ) madvise( (void *)BIG_BASE, BIG_SIZE, MADV_DONTNEED );
    R.bigN = 0; R.bigOn = false; R.oomIn = 0; R.bigBrk = BIG_BASE; R.nf = 0; R.nblocks = 0; R.liveBytes = 0; R.alive = R.unjoined = 0; R.multi = false; R.violated = R.stop = R.pruned = false; R.now = 1000000000ull; R.condSeq = 1; R.clockUsed = false;
    R.spurLeft = s.o.spurious; R.casLeft = s.o.casfail; R.preUsed = 0; R.steps = 0; R.acc = 0; R.pos = 0; R.ninj = 0; R.nobjs = 0; R.cur = nullptr; R.curTraceHash = 7; R.path->clear();
    if ( !R.over->empty() ) R.over->clear();
    ++R.execs;
    newFiber( bodyEntry, (void *)&s.body );
    u32 cand[ MAXT * 2 ]; 
    for ( ;; ) {
        if ( R.stop ) break;
        if ( R.cur && !R.cur->finished && R.cur->op == O_CHOOSE ) {
            if ( ++R.steps > R.o.max_steps ) { setViol( "livelock", "execution exceeds " + std::to_string( R.o.max_steps ) + " steps" ); break; }
            if ( visited() ) { R.pruned = true; break; }
            ++R.trans; R.cur->obj = pickChoice( (int)R.cur->obj, 1 ); runFiber( *R.cur ); continue;
        }
        // collect candidates
        u32 n = 0; bool curEn = false; u32 c0 = R.cur ? R.cur->tid : 0; u32 nNormal;
        if ( R.o.prio ) {
            int best = -1, bp = -1;
            for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].arrived && enabled( R.f[ i ] ) ) { int e = effPrio( R.f[ i ] ); if ( e > bp || ( e == bp && i == c0 ) ) { bp = e; best = i; } }
            if ( best >= 0 ) cand[ n++ ] = best;
            for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].used && !R.f[ i ].finished && !R.f[ i ].arrived ) cand[ n++ ] = i;
        } else {
            if ( R.cur && enabled( *R.cur ) ) { cand[ n++ ] = c0; curEn = true; }
            for ( u32 i = 0; i < R.nf; ++i ) if ( !( curEn && i == c0 ) && enabled( R.f[ i ] ) ) cand[ n++ ] = i;
        }
        nNormal = n; bool idle = false;
        if ( !n ) {
            u64 d = ~0ull; for ( u32 i = 0; i < R.nf; ++i ) { Fiber & f = R.f[ i ]; if ( f.used && !f.finished && ( f.op == O_SLEEP || f.op == O_COND ) && f.deadline < d ) d = f.deadline; }
            if ( d != ~0ull ) { R.now = d > R.now ? d : R.now;
                for ( u32 i = 0; i < R.nf; ++i ) { Fiber & f = R.f[ i ]; if ( f.used && !f.finished && f.deadline <= R.now ) { if ( f.op == O_COND ) { f.op = O_LOCK; f.timedOut = true; f.deadline = ~0ull; } } }
                continue; }
            for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].used && !R.f[ i ].finished && R.f[ i ].op == O_QUIESCE ) cand[ n++ ] = i;
            nNormal = n; idle = true;
            if ( !n ) {
                if ( R.alive == 0 ) break;   // complete
                setViol( "deadlock", "no thread can run: " + blockedList() ); break;
            }
        }
        if ( R.f[ 0 ].finished && false ) break;
        if ( curEn && R.o.preempt >= 0 && R.preUsed >= R.o.preempt ) { n = nNormal = 1; }
        if ( R.spurLeft > 0 ) for ( u32 i = 0; i < R.nf; ++i ) if ( R.f[ i ].used && !R.f[ i ].finished && R.f[ i ].op == O_COND ) cand[ n++ ] = i + MAXT;
        (void)idle;
        if ( ++R.steps > R.o.max_steps ) { setViol( "livelock", "execution exceeds " + std::to_string( R.o.max_steps ) + " scheduling steps" ); break; }
        u32 k = 0;
        if ( n > 1 && !R.o.det ) {
            if ( visited() ) { R.pruned = true; break; }
            k = pickChoice( n, 0 );
        }
        ++R.trans;
        u32 c = cand[ k ];
        if ( c >= MAXT ) { --R.spurLeft; wake( R.f[ c - MAXT ], true ); continue; }
        if ( !R.f[ c ].arrived ) { R.f[ c ].arrived = true; if ( R.trace ) { Fiber * sv = R.cur; R.cur = &R.f[ c ]; tr( "ARRIVES prio %d", R.f[ c ].prio ); R.cur = sv; } continue; }
        if ( curEn && c != c0 ) ++R.preUsed;
        runFiber( R.f[ c ] );
    }
    R.accTotal += R.acc;
    if ( R.pos < R.ch->size() && !R.violated ) toolError( "divergence: execution ended after %zu of %zu recorded choices", R.pos, R.ch->size() );
    if ( R.ch->size() > R.maxDepth ) R.maxDepth = R.ch->size();
    if ( !R.violated && !R.pruned ) {
        ++R.complete; if ( R.pos <= 400 && !R.trace ) { lastCh.assign( R.ch->begin(), R.ch->begin() + R.pos ); }
        if ( s.o.leaks && leakProp() && R.liveBytes ) { for ( u32 i = 0; i < R.nblocks; ++i ) if ( R.blocks[ i ].live ) { char b[ 200 ]; snprintf( b, sizeof b, "heap block #%u (size %zu, allocated by t%u) never freed", i, R.blocks[ i ].sz, R.blocks[ i ].tid ); setViol( "leak", b ); break; } }
        if ( !R.violated ) for ( u32 i = 0; i < R.nblocks; ++i ) if ( R.blocks[ i ].live == true ) { const u8 * t = (u8 *)R.blocks[ i ].a + R.blocks[ i ].sz; for ( size_t j = 0; j < RZ; ++j ) if ( t[ j ] != 0xEE ) { setViol( "out-of-bounds", "bytes behind a heap block were overwritten" ); break; } }
    }
    if ( R.pruned ) ++R.prunedN;
    if ( R.o.mode == mc::Opts::PLAIN && !R.violated && !R.trace ) { u64 a, b; stateKey( a, b ); u8 * p; if ( !R.tab->find( a, b, p ) ) ++R.states; }   // distinct final states
}

static double wall() { struct timespec t; real_clock_gettime()( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool nextChoice() {
    auto & ch = *R.ch;
    while ( !ch.empty() ) { if ( ch.back().pick + 1 < ch.back().n ) { ++ch.back().pick; return true; } ch.pop_back(); }
    return false;
}
static std::string esc( const std::string & s ) { std::string o; for ( char c : s ) { if ( c == '"' || c == '\\' ) { o += '\\'; o += c; } else if ( (unsigned char)c < 32 ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", c ); o += b; } else o += c; } return o; }

static std::vector< Scn > * scns;
void mc::Registry::add( std::string props, std::string name, int tier, Opts o, std::function< void() > body ) { scns->push_back( Scn{ props, name, tier, o, body } ); }

struct Result { bool capped = false; bool violated = false; std::string kind, msg; std::vector< Choice > ch; int bound = -1; };
// explore one scenario with the options in s.o
static Result explore( const Scn & s, double limit ) {
    Result r; R.o = s.o; R.tab->clear(); R.ch->clear(); R.trace = false; double t0 = wall(); u64 n = 0; bool first = true; 
    for ( ;; ) {
        execute( s ); ++n;
        if ( first ) { first = false;
            // determinism self-check: the same choices must give the same execution
            if ( !R.violated ) { u64 h = R.curTraceHash; auto sv = *R.ch; u64 st = R.states; R.tab->clear(); R.ch->clear(); execute( s ); R.states = st; --R.complete; --R.execs; if ( R.curTraceHash != h || R.ch->size() != sv.size() ) toolError( "scenario %s is not deterministic", s.name.c_str() ); } }
        if ( R.violated ) { r.violated = true; r.kind = *R.vkind; r.msg = *R.vmsg; r.ch = *R.ch; r.ch.resize( std::min( r.ch.size(), (size_t)R.pos ) ); break; }
        if ( !nextChoice() ) break;
        if ( ( n & 15 ) == 0 || R.steps > 2000 || R.acc > 100000 ) if ( wall() - t0 > limit ) { r.capped = true; break; }
    }
    return r;
}
static void replayTrace( const Scn & s, const std::vector< Choice > & ch, std::string & kind, std::string & msg, std::vector< std::string > & log ) {
    R.o = s.o; *R.ch = ch; R.log->clear(); R.trace = true; execute( s ); R.trace = false; kind = R.violated ? *R.vkind : ""; msg = R.violated ? *R.vmsg : ""; log = *R.log;
}

static void init() {
    if ( rt_ready ) return;
    auto map = []( up a, size_t n ) { void * p = mmap( (void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0 ); if ( p != (void *)a ) { fprintf( stderr, "MC-TOOL-ERROR: mmap\n" ); _exit( 4 ); } };
    map( RT_BASE, sizeof( Rt ) + 4096 ); map( AR_BASE, AR_SIZE ); map( ST_BASE, ST_SIZE ); map( SH_BASE, AR_SIZE ); map( IX_BASE, AR_SIZE / 4 + 4096 ); map( BIG_BASE, BIG_SIZE );
    for ( int i = 0; i < MAXT; ++i ) mprotect( (void *)( ST_BASE + i * ST_EACH ), 4096, PROT_NONE );
#define GETREAL( n ) real_##n()
    GETREAL( pthread_mutex_lock ); GETREAL( pthread_mutex_unlock ); GETREAL( pthread_mutex_trylock ); GETREAL( pthread_mutex_init ); GETREAL( pthread_mutex_destroy );
    GETREAL( pthread_cond_init ); GETREAL( pthread_cond_destroy ); GETREAL( pthread_cond_wait ); GETREAL( pthread_cond_signal ); GETREAL( pthread_cond_broadcast );
    GETREAL( pthread_self ); GETREAL( pthread_once ); GETREAL( nanosleep ); GETREAL( clock_gettime ); GETREAL( sched_yield ); GETREAL( pthread_create );  GETREAL( pthread_join );
    R.ch = new std::vector< Choice >; R.log = new std::vector< std::string >; R.vmsg = new std::string; R.vkind = new std::string;
    R.over = new std::unordered_map< u64, std::vector< u64 > >; R.tab = new Tab; R.outcomes = new std::set< u64 >; R.path = new std::vector< std::pair< u64, u64 > >;
    R.blocks = (Block *)mmap( nullptr, sizeof( Block ) << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    R.gLo = (up)__data_start & ~7ull; R.gHi = ( (up)_end + 7 ) & ~7ull;
    map( CE_BASE, ( ( AR_SIZE + ST_SIZE + ( R.gHi - R.gLo ) + 64 ) >> 3 ) * sizeof( Cell ) + 4096 );
    // thread-local storage of the executable
    dl_iterate_phdr( []( struct dl_phdr_info * i, size_t, void * ) -> int {
        for ( int k = 0; k < i->dlpi_phnum; ++k ) if ( i->dlpi_phdr[ k ].p_type == PT_TLS ) { auto & p = i->dlpi_phdr[ k ];
            R.tlsSize = p.p_memsz; R.tlsInit = (const char *)( i->dlpi_addr + p.p_vaddr ); R.tlsInitSize = p.p_filesz; up al = p.p_align ? p.p_align : 1; R.tlsOff = ( p.p_memsz + al - 1 ) & ~( al - 1 ); }
        return 1; }, nullptr );
    if ( const char * p = getenv( "MC_PROP" ) ) strncpy( R.prop, p, 15 );
    rt_ready = true;
}
static void setup() {
    // warm up lazily initialised parts of the C++ runtime
    try { throw std::bad_alloc(); } catch ( std::exception & e ) { (void)e.what(); }
    std::set_terminate( onTerminate );
    stack_t ss; ss.ss_sp = malloc( 1 << 16 ); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack( &ss, nullptr );
    struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction( SIGSEGV, &sa, nullptr ); sigaction( SIGBUS, &sa, nullptr ); sigaction( SIGFPE, &sa, nullptr ); sigaction( SIGILL, &sa, nullptr ); sigaction( SIGTRAP, &sa, nullptr );
    struct sigaction st; memset( &st, 0, sizeof st ); st.sa_handler = onTick; st.sa_flags = SA_ONSTACK | SA_RESTART | SA_NODEFER; sigaction( SIGPROF, &st, nullptr );
    struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 500000; it.it_value = it.it_interval; setitimer( ITIMER_PROF, &it, nullptr );
    R.glen = R.gHi - R.gLo; R.snap = (char *)malloc( R.glen ); memcpy( R.snap, (void *)R.gLo, R.glen );
}
static std::string chStr( const std::vector< Choice > & c ) { std::string s; for ( auto & x : c ) { if ( !s.empty() ) s += ","; s += std::to_string( x.pick ) + "/" + std::to_string( x.n ) + "/" + std::to_string( x.kind ); } return s; }

static void runScenario( const Scn & s0, double limit, const char * seedDir ) {
    (void)seedDir;
    Scn s = s0; if ( !strcmp( R.prop, "C23" ) ) { s.o.mode = mc::Opts::HB; s.o.races = true; } if ( s.o.time_limit > 0 && s.o.time_limit < limit ) limit = s.o.time_limit;
    R.execs = R.complete = R.prunedN = R.states = R.trans = R.maxDepth = R.switches = R.accTotal = 0; R.outcomes->clear(); lastCh.clear();
    double t0 = wall(); Result r = explore( s, limit ); int bound = s.o.preempt;
    u64 execs = R.execs, complete = R.complete, pruned = R.prunedN, states = R.states, trans = R.trans, depth = R.maxDepth, sw = R.switches, acc = R.accTotal; size_t oc = R.outcomes->size();
    bool capped = r.capped;
    if ( capped && !r.violated && s.o.preempt < 0 && !s.o.prio && !s.o.det && s.o.mode != mc::Opts::PLAIN ) {
        // exhaustive search did not fit: complete it below an iterated preemption bound
        int done = -1;
        for ( int b = 0; b <= 6; ++b ) { Scn t = s; t.o.preempt = b; Result q = explore( t, limit * 0.5 ); if ( q.violated ) { r = q; s = t; bound = b; break; } if ( q.capped ) break; done = b; }
        if ( !r.violated ) bound = done;
        execs = R.execs; complete = R.complete; pruned = R.prunedN; states = R.states; trans = R.trans; depth = R.maxDepth; sw = R.switches; acc = R.accTotal;
    }
    std::string lastStr = chStr( lastCh );
    std::string extra; bool repro = true;
    if ( r.violated ) {
        // look for a counterexample with fewer preemptions, then replay it
        if ( s.o.preempt != 0 && !s.o.prio ) for ( int b = 0; b <= 3 && ( s.o.preempt < 0 || b < s.o.preempt ); ++b ) { Scn t = s; t.o.preempt = b; Result q = explore( t, 4.0 ); if ( q.violated ) { r = q; s = t; break; } }
        std::string k, m; std::vector< std::string > log; replayTrace( s, r.ch, k, m, log );
        repro = k == r.kind && m == r.msg;
        extra = ",\"kind\":\"" + esc( r.kind ) + "\",\"msg\":\"" + esc( r.msg ) + "\",\"choices\":\"" + chStr( r.ch ) + "\",\"preempt\":" + std::to_string( s.o.preempt ) + ",\"repro\":" + ( repro ? "true" : "false" ) + ",\"rmsg\":\"" + esc( m ) + "\",\"trace\":[";
        size_t from = log.size() > 4000 ? log.size() - 4000 : 0;
        for ( size_t i = from; i < log.size(); ++i ) { if ( i > from ) extra += ","; extra += "\"" + esc( log[ i ] ) + "\""; } extra += "]";
    }
    printf( "{\"name\":\"%s\",\"violated\":%s,\"capped\":%s,\"bound\":%d,\"execs\":%" PRIu64 ",\"complete\":%" PRIu64 ",\"pruned\":%" PRIu64 ",\"states\":%" PRIu64 ",\"trans\":%" PRIu64 ",\"depth\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"accesses\":%" PRIu64 ",\"outcomes\":%zu,\"mode\":\"%s\",\"secs\":%.3f,\"last\":\"%s\",\"opt_preempt\":%d%s}\n",
            esc( s.name ).c_str(), r.violated ? "true" : "false", capped ? "true" : "false", bound, execs, complete, pruned, states, trans, depth, sw, acc, oc, s.o.prio ? "prio" : s.o.det ? "one-schedule" : s.o.mode == mc::Opts::HB ? "hb" : s.o.mode == mc::Opts::STATE ? "state" : "plain", wall() - t0, lastStr.c_str(), s0.o.preempt, extra.c_str() );
    fflush( stdout );
}

int main( int argc, char ** argv ) {
    if ( !getenv( "MC_NOASLR" ) ) { int p = personality( 0xffffffff ); if ( p != -1 && !( p & ADDR_NO_RANDOMIZE ) && personality( p | ADDR_NO_RANDOMIZE ) != -1 ) { setenv( "MC_NOASLR", "1", 1 ); execv( "/proc/self/exe", argv ); } }
    init(); scns = new std::vector< Scn >; mc::Registry reg; mc_scenarios( reg ); setup();
    double limit = getenv( "MC_LIMIT" ) ? atof( getenv( "MC_LIMIT" ) ) : 20.0;
    std::string cmd = argc > 1 ? argv[ 1 ] : "--list";
    if ( cmd == "--list" ) { for ( auto & s : *scns ) printf( "%s\t%d\t%s\n", s.props.c_str(), s.tier, s.name.c_str() ); return 0; }
    auto find = []( const std::string & n ) -> const Scn * { for ( auto & s : *scns ) if ( s.name == n ) return &s; return nullptr; };
    if ( cmd == "--run" ) { for ( int i = 2; i < argc; ++i ) { bool any = false; for ( auto & s : *scns ) { std::string a = argv[ i ]; bool m = a.size() && a.back() == '*' ? s.name.compare( 0, a.size() - 1, a, 0, a.size() - 1 ) == 0 : s.name == a; if ( m ) { any = true; runScenario( s, limit, nullptr ); } } if ( !any ) toolError( "no scenario %s", argv[ i ] ); } return 0; }
    if ( cmd == "--worker" ) { char line[ 512 ]; while ( fgets( line, sizeof line, stdin ) ) { std::string n = line; while ( !n.empty() && ( n.back() == '\n' ) ) n.pop_back(); double l = limit; auto t = n.find( '\t' ); if ( t != std::string::npos ) { l = atof( n.c_str() + t + 1 ); n.resize( t ); } const Scn * s = find( n ); if ( !s ) toolError( "no scenario %s", n.c_str() ); runScenario( *s, l, nullptr ); } return 0; }
    if ( cmd == "--replay" && argc >= 5 ) { // --replay NAME PREEMPT CHOICES
        const Scn * s0 = find( argv[ 2 ] ); if ( !s0 ) toolError( "no scenario %s", argv[ 2 ] ); Scn s = *s0; if ( !strcmp( R.prop, "C23" ) ) { s.o.mode = mc::Opts::HB; s.o.races = true; } s.o.preempt = atoi( argv[ 3 ] ); std::vector< Choice > ch; const char * p = argv[ 4 ];
        while ( *p ) { int a, b, c; if ( sscanf( p, "%d/%d/%d", &a, &b, &c ) != 3 ) break; ch.push_back( Choice{ (u16)b, (u16)a, (u8)c } ); while ( *p && *p != ',' ) ++p; if ( *p ) ++p; }
        std::string k, m; std::vector< std::string > log; replayTrace( s, ch, k, m, log ); for ( auto & l : log ) printf( "%s\n", l.c_str() ); printf( "result: %s %s\n", k.empty() ? "no violation" : k.c_str(), m.c_str() ); return k.empty() ? 0 : 1; }
    fprintf( stderr, "usage: --list | --run NAME.. | --worker | --replay NAME PREEMPT CHOICES\n" ); return 2;
}
// make sure the runtime is ready before any static initialiser of the harness creates threads or mutexes
__attribute__(( constructor( 101 ) )) static void early() { init(); }
