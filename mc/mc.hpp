// API between scenarios (instrumented code) and the model-checking runtime (rt.cpp, not instrumented).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc {

struct Opts {
    enum Mode { STATE, HB, PLAIN };
    Mode mode = STATE;          // visited-state pruning / happens-before (Mazurkiewicz trace) pruning / none
    int preempt = -1;           // preemption bound (-1: unbounded)
    int spurious = 0;           // spurious condition-variable wake-ups per execution
    int casfail = 0;            // spurious weak compare-exchange failures per execution
    bool races = true;          // vector-clock race detector
    bool leaks = true;          // all heap blocks must be freed when the scenario body returns
    bool unlock_points = false; // additional scheduling point before every unlock
    bool atomics = true;        // scheduling points before atomic operations
    bool prio = false;          // preemptive fixed-priority uniprocessor instead of arbitrary scheduling
    bool det = false;           // one canonical schedule only (data choices are still enumerated)
    unsigned max_steps = 200000;
    double time_limit = 0;      // seconds; 0: the default given by the driver
    Opts() {}
    Opts & m( Mode x ) { mode = x; return *this; }
    Opts & pb( int x ) { preempt = x; return *this; }
    Opts & sp( int x ) { spurious = x; return *this; }
    Opts & cf( int x ) { casfail = x; return *this; }
    Opts & race( bool x ) { races = x; return *this; }
    Opts & leak( bool x ) { leaks = x; return *this; }
    Opts & up( bool x ) { unlock_points = x; return *this; }
    Opts & at( bool x ) { atomics = x; return *this; }
    Opts & pr( bool x ) { prio = x; return *this; }
    Opts & one() { det = true; mode = PLAIN; return *this; }
    Opts & tl( double x ) { time_limit = x; return *this; }
    Opts & steps( unsigned x ) { max_steps = x; return *this; }
};

struct Registry {
    // props: comma separated property ids; tier: 0 = quick and thorough, 1 = thorough only
    void add( std::string props, std::string name, int tier, Opts o, std::function< void() > body );
};

// ---- to be used inside scenarios -------------------------------------------------------------------
int choose( int n );                    // nondeterministic data choice 0..n-1, all explored
void point();                           // scheduling point
void wait_quiescent();                  // returns when no other thread can make a step (sleepers included)
void wait_all();                        // returns when every other thread has ended
[[noreturn]] void fail( const char * fmt, ... ) __attribute__(( format( printf, 1, 2 ) ));
#define MC_CHECK( c, ... ) do { if ( !( c ) ) ::mc::fail( __VA_ARGS__ ); } while ( 0 )
void note( const char * fmt, ... ) __attribute__(( format( printf, 1, 2 ) ));   // trace line, only kept in replays
void outcome( uint64_t v );             // records a distinct observable outcome (vacuity statistics)
unsigned self();                        // id of the running thread (0 = scenario body)
bool is_blocked( unsigned tid );        // thread waits for something (condition variable, lock, join) now
bool is_cond_blocked( unsigned tid );   // thread waits on a condition variable, not yet signalled
unsigned num_threads();
uint64_t heap_events();                 // heap allocations + releases by the calling thread so far
uint64_t heap_bytes_live();             // bytes currently allocated in this execution
uint64_t now_ns();                      // virtual time
bool block_of( const void * p, uintptr_t & base, size_t & size ); // heap block containing p
bool on( const char * prop );            // the property being decided is `prop` (or none was named)
void set_prio( unsigned tid, int prio );
void poke_ignore( int delta );          // see Quiet
void count( uint64_t states, uint64_t transitions );   // adds to the coverage statistics (native searches)
void oom( long n );                     // the nth (1-based) future allocation fails, as if memory ran out; 0: none
bool oom_pending();                     // it has not happened yet
void big_heap();                        // from now on, blocks of more than 256 MiB come from a separate unchecked area (otherwise: out of memory)
void big_drop( void * p, size_t n );    // gives the pages inside [p, p+n) of such a block back (contents are lost); nullptr: all of them
void tick( unsigned long work );        // counts work against the hang limit
// faults: the nth (0-based) future call of `fn` ("lock","trylock","unlock") on mutex m returns err without effect ("init": m is nullptr; err 0: nothing happens)
void inject( const char * fn, const void * mutex, int err );
unsigned faults_pending();              // faults that have not happened yet
void faults_clear();
int mutex_protocol( const void * m );   // protocol the mutex was initialised with

// While alive, memory accesses of the calling thread are not checked (oracle bookkeeping).
struct Quiet {
    Quiet() { poke_ignore( +1 ); }
    ~Quiet() { poke_ignore( -1 ); }
};

} // namespace mc

void mc_scenarios( mc::Registry & r );  // defined by each harness
