// A cooperative scheduler for the real code: one thread runs at a time and may be preempted at every lock operation,
// atomic access and memory access (the repository is compiled with -fsanitize=thread, whose callbacks sched.cpp provides).
#pragma once
#include <cstdint>
#include <functional>
namespace vs {
extern const char * prop;                       // the property being replayed
extern uint64_t seed;                           // of the current run
void run( uint64_t seed, const std::function< void() > & body );   // body is thread 0
// a counter of the scenario, updated in one step
#define VS_RAW __attribute__(( noinline, no_sanitize( "thread" ) ))
struct Num
{
    long v;
    VS_RAW Num( long a = 0 ) : v{ a } {}
    VS_RAW operator long() const { return v; }
    VS_RAW void operator+=( long d ) { v += d; }
    VS_RAW void operator-=( long d ) { v -= d; }
    VS_RAW long operator++() { return ++v; }
    VS_RAW long operator--() { return --v; }
    VS_RAW long operator++( int ) { return v++; }
};
int go( std::function< void() > f );            // start a thread
void join( int t );
bool finished( int t );
void quiet();                                   // wait until no other thread can run
void yield();
uint64_t rnd();
inline uint64_t rnd( uint64_t n ) { return rnd() % n; }
void fail( const char * props, const char * what );   // ends the process if props mentions the property replayed
inline void check( bool ok, const char * props, const char * what ) { if ( !ok ) fail( props, what ); }
void scenario( const char * name, int runs, const std::function< void() > & body );   // many schedules of one scenario
bool held( void * nativeMutex );                // is this mutex locked?
int owner( void * nativeMutex );                // thread that holds it, or -1
int self();
int locks();                                    // mutexes held by the calling thread
extern const char * stuckProps;                 // properties broken when every thread is blocked
extern double budget;                           // seconds for all scenarios
// fault injection for C07
extern int (*mutexHook)( const char * op, void * m );   // nonzero: outcome to report instead of performing the operation
}
