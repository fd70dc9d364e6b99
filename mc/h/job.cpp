// C26: the JobDispatcher example, unmodified except that the random effort of a job is chosen by the scenario (link seam: this
// file defines the functions of JobData.cpp) and std::thread::hardware_concurrency returns what the scenario wants.
#include "common.hpp"
#include "JobData.hpp"
#include "JobDispatcher.hpp"
#include <iostream>
#include <streambuf>
using mc::Opts;

namespace {
constexpr int MAXJOB = 1024, TASKS = 256;
struct Jobs { int created, fired, done, outOfRange, maxOut; bool seen[ MAXJOB ], isFired[ MAXJOB ], isDone[ MAXJOB ]; int task[ MAXJOB ]; long ms[ MAXJOB ]; int out[ TASKS ]; uint64_t firedAt[ MAXJOB ]; bool running; int cpus, pattern, bits; char err[ 200 ]; };
Jobs jb;
long effort( int job ) {
    switch ( jb.pattern ) {
    case 0: return 10000;                                           // all finish at once, again and again
    case 1: return job <= 8 ? ( ( jb.bits >> ( job - 1 ) ) & 1 ? 20000 : 10000 ) : 15000;
    case 2: return 10000 + job * 70;                                // increasing
    case 3: return 20000 - job * 70;                                // decreasing
    case 4: return job % 2 ? 10000 : 20000;
    default: return 10000 + (long)( ( (unsigned)job * 2654435761u + (unsigned)jb.pattern * 40503u ) >> 7 ) % 10001;
    }
}
// one line buffer per thread: what each thread prints is looked at line by line
struct Lines : std::streambuf {
    static char b[ 300 ][ 160 ]; static int n[ 300 ];
    void put( char c ) {
        mc::Quiet z; unsigned t = mc::self(); if ( t >= 300 ) return;
        if ( c != '\n' ) { if ( n[ t ] < 158 ) b[ t ][ n[ t ]++ ] = c; return; }
        b[ t ][ n[ t ] ] = 0; n[ t ] = 0; const char * s = b[ t ]; unsigned j, k;
        if ( const char * p = strstr( s, "Job #" ) ) if ( sscanf( p, "Job #%u was completed by task #%u", &j, &k ) == 2 ) completed( j, k );
        if ( const char * p = strstr( s, "Fired off Job #" ) ) if ( sscanf( p, "Fired off Job #%u to task #%u", &j, &k ) == 2 ) fired( j, k );
        memset( b[ t ], 0, 160 );
    }
    static void completed( unsigned j, unsigned k ) {
        if ( j >= MAXJOB || !jb.seen[ j ] ) mc::fail( "job %u is reported complete but was never created", j );
        if ( jb.isDone[ j ] ) mc::fail( "job %u is reported complete twice", j );
        if ( jb.task[ j ] != (int)k ) mc::fail( "job %u was created for task %d and completed by task %u", j, jb.task[ j ], k );
        jb.isDone[ j ] = true; ++jb.done;
    }
    static void fired( unsigned j, unsigned k ) { if ( j >= MAXJOB || !jb.seen[ j ] ) return; if ( jb.isFired[ j ] && false ) return; jb.isFired[ j ] = true; ++jb.fired; (void)k; }
    int overflow( int c ) override { put( (char)c ); return c; }
    std::streamsize xsputn( const char * s, std::streamsize k ) override { for ( std::streamsize i = 0; i < k; ++i ) put( s[ i ] ); return k; }
};
char Lines::b[ 300 ][ 160 ]; int Lines::n[ 300 ];
Lines lines; 
struct Redirect { std::streambuf * o, * e; Redirect() : o( std::cout.rdbuf( &lines ) ), e( std::cerr.rdbuf( &lines ) ) {} ~Redirect() { std::cout.rdbuf( o ); std::cerr.rdbuf( e ); } };
}
unsigned std::thread::hardware_concurrency() noexcept { return (unsigned)jb.cpus; }
class JobDataEstimatedTimeGenerator::Details {};
JobDataEstimatedTimeGenerator::JobDataEstimatedTimeGenerator() : pDetails( new Details ) {}
JobDataEstimatedTimeGenerator::~JobDataEstimatedTimeGenerator() { delete pDetails; }
static int nextEffort;
JobDataEstimatedTimeGenerator::EstimatedTimeDataType JobDataEstimatedTimeGenerator::getEstimatedTime() { mc::Quiet z; return effort( nextEffort ); }
static long make( JobDataEstimatedTimeGenerator * g, unsigned task, unsigned job ) {
    mc::Quiet z; nextEffort = (int)job; long ms = g->getEstimatedTime();
    if ( job < 1 || job > 128 ) mc::fail( "job %u is started, only 1 to 128 exist (%d processors)", job, jb.cpus );
    if ( jb.seen[ job ] ) mc::fail( "job %u is started twice", job );
    if ( task < 1 || task >= (unsigned)jb.cpus ) mc::fail( "job %u is started on task %u, which does not exist", job, task );
    jb.seen[ job ] = true; jb.task[ job ] = (int)task; jb.ms[ job ] = ms; ++jb.created; return ms;
}
JobData::JobData( JobDataEstimatedTimeGenerator * g, unsigned t, unsigned j ) : estimatedEffortMSecs( make( g, t, j ) ), taskId( t ), jobId( j ) {}

namespace {
void run( int cpus, int patterns ) {
    { mc::Quiet z; jb.cpus = cpus; } int p = mc::choose( patterns ), bits = p == 1 ? mc::choose( 256 ) : 0; { mc::Quiet z; jb.pattern = p; jb.bits = bits; }
    Redirect io;
    { JobDispatcher * d = new JobDispatcher; d->activate(); uint64_t t0 = mc::now_ns(); { mc::Quiet z; jb.running = true; }
      d->runJobs();
      uint64_t t1 = mc::now_ns();
      { mc::Quiet z; MC_CHECK( jb.created == 128, "runJobs returns after starting %d of 128 jobs (%d processors)", jb.created, cpus );
        MC_CHECK( jb.done == 0 || jb.done == 128, "runJobs returns after %d of 128 jobs completed (%d processors)", jb.done, cpus );
        long sum[ TASKS ] = {}, mx = 0; for ( int j = 1; j <= 128; ++j ) { sum[ jb.task[ j ] ] += jb.ms[ j ]; if ( sum[ jb.task[ j ] ] > mx ) mx = sum[ jb.task[ j ] ]; }
        MC_CHECK( t1 - t0 >= (uint64_t)mx * 1000000, "runJobs returns after %lu ms, the tasks need %ld ms (%d processors)", (unsigned long)( ( t1 - t0 ) / 1000000 ), mx, cpus );
        MC_CHECK( t1 - t0 == (uint64_t)mx * 1000000, "runJobs takes %lu ms although no task needs more than %ld ms: tasks are left idle or jobs lost (%d processors)", (unsigned long)( ( t1 - t0 ) / 1000000 ), mx, cpus );
        uint64_t o = 0; for ( int j = 1; j <= 128; ++j ) o = o * 31 + (uint64_t)jb.task[ j ]; mc::outcome( o ); }
      d->deactivate(); delete d; }
    mc::wait_quiescent();
}
void cycle( int cpus ) {
    { mc::Quiet z; jb.cpus = cpus; } int how = mc::choose( 5 ); Redirect io; mc::outcome( how );
    JobDispatcher * d = new JobDispatcher;
    if ( how == 1 ) d->activate();
    if ( how == 2 ) { d->activate(); d->deactivate(); }
    if ( how == 3 ) { d->deactivate(); d->activate(); d->activate(); }
    if ( how == 4 ) { d->activate(); d->deactivate(); d->deactivate(); }
    delete d; { mc::Quiet z; MC_CHECK( jb.created == 0, "jobs are started although runJobs was not called" ); }
}
}
void mc_scenarios( mc::Registry & r ) {
    Opts one = Opts().one().race( false ).steps( 4000000 );
    for ( int c : { 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 127, 128, 129, 130, 200 } ) r.add( "C26", h::fmt( "job/run/%d", c ), 0, one, [ = ] { run( c, c <= 9 ? 12 : 6 ); } );
    for ( int c : { 2, 3, 4 } ) r.add( "C26", h::fmt( "job/cycle/%d", c ), 0, Opts().pb( c == 2 ? 3 : 2 ).race( false ), [ = ] { cycle( c ); } );
    for ( int c : { 2, 3, 4 } ) r.add( "C26", h::fmt( "job/sched/%d", c ), c > 2, Opts().pb( 1 ).race( false ).steps( 4000000 ), [ = ] { run( c, 1 ); } );
    r.add( "C26", "job/sched2/2", 1, Opts().pb( 2 ).race( false ).steps( 4000000 ), [ = ] { run( 2, 1 ); } );
}
