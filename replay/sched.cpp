// see sched.hpp; compiled without instrumentation
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <exception>

namespace vs {
const char * prop = "";
const char * stuckProps = "";
uint64_t seed = 0;
double budget = 60;
int (*mutexHook)( const char *, void * ) = nullptr;
static const char * scen = "";
enum State { RUN, MUTEX, COND, QUIET, JOIN, DONE };
struct Thread { int id; State st = RUN; void * on = nullptr; sem_t go; std::function< void() > body; pthread_t th; };
static std::vector< std::unique_ptr< Thread > > ts;
static std::map< void *, int > own;
static thread_local Thread * me = nullptr;
static thread_local bool busy = false;
static uint64_t rs = 1;
static uint32_t pSync, pMem, pSpur;     // of 1024
static std::vector< std::string > notes;
struct Busy { bool b; Busy() : b{ busy } { busy = true; } ~Busy() { busy = b; } };

uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return ( rs * 0x2545F4914F6CDD1Dull ) >> 16; }
int self() { return me ? me->id : -1; }
void fail( const char * props, const char * what )
{
    Busy b;
    if ( !strstr( props, prop ) ) return;
    printf( "FAIL %s [scenario %s, schedule seed %llu]\n", what, scen, (unsigned long long)seed );
    fflush( stdout );
    _exit( 1 );
}
static void away( Thread * t )
{
    Thread * m = me;
    if ( t == m ) return;
    sem_post( &t->go );
    while ( sem_wait( &m->go ) ) ;
}
static Thread * pick( bool others )
{
    Thread * c[ 1024 ]; int n = 0;
    for ( auto & t : ts ) if ( t->st == RUN && !( others && t.get() == me ) ) c[ n++ ] = t.get();
    if ( !n )
    {
        for ( auto & t : ts ) if ( t->st == QUIET ) { t->st = RUN; return t.get(); }
        return nullptr;
    }
    return c[ rnd( n ) ];
}
static void point( uint32_t p )
{
    if ( !me || busy ) return;
    Busy b;
    if ( rnd( 1024 ) >= p ) return;
    Thread * c[ 1024 ]; int n = 0;
    for ( auto & t : ts ) if ( t->st == RUN ) c[ n++ ] = t.get();
    if ( pSpur && rnd( 1024 ) < pSpur )
        for ( auto & t : ts ) if ( t->st == COND ) { t->st = RUN; break; }
    if ( n > 1 ) away( c[ rnd( n ) ] );
}
static void stuck()
{
    std::string s = "every thread is blocked:";
    for ( auto & t : ts ) if ( t->st != DONE )
        s += " thread " + std::to_string( t->id ) + ( t->st == MUTEX ? " on a mutex" : t->st == COND ? " asleep on a condition" : " joining" );
    if ( strstr( stuckProps, prop ) ) fail( prop, s.c_str() );
    // not this property's business
    printf( "NOTE %s [scenario %s, seed %llu]\n", s.c_str(), scen, (unsigned long long)seed );
    fflush( stdout );
    _exit( 0 );
}
static void block( State st, void * on )
{
    Busy b;
    me->st = st;
    me->on = on;
    Thread * t = pick( false );
    if ( !t ) stuck();
    away( t );
    me->on = nullptr;
}
static void * body( void * p )
{
    Thread * t = (Thread *)p;
    while ( sem_wait( &t->go ) ) ;
    me = t;
    try { t->body(); } catch ( ... ) { fail( prop, "an exception left a thread of the scenario" ); _exit( 0 ); }
    busy = true;
    t->st = DONE;
    for ( auto & o : ts ) if ( o->st == JOIN && o->on == t ) o->st = RUN;
    Thread * n = pick( false );
    if ( !n ) stuck();
    sem_post( &n->go );
    return nullptr;
}
int go( std::function< void() > f )
{
    Busy b;
    ts.emplace_back( new Thread );
    Thread * t = ts.back().get();
    t->id = int( ts.size() ) - 1;
    t->body = std::move( f );
    sem_init( &t->go, 0, 0 );
    pthread_attr_t a;
    pthread_attr_init( &a );
    pthread_attr_setstacksize( &a, 256 * 1024 );
    if ( pthread_create( &t->th, &a, body, t ) ) { printf( "NOTE cannot create a thread\n" ); _exit( 0 ); }
    return t->id;
}
void join( int i ) { while ( ts[ i ]->st != DONE ) block( JOIN, ts[ i ].get() ); }
bool finished( int i ) { return ts[ i ]->st == DONE; }
void quiet() { block( QUIET, nullptr ); }
void yield() { point( 1024 ); }
int locks() { int n = 0; for ( auto & o : own ) if ( me && o.second == me->id ) ++n; return n; }
bool held( void * m ) { return own.count( m ); }
int owner( void * m ) { auto i = own.find( m ); return i == own.end() ? -1 : i->second; }
void run( uint64_t sd, const std::function< void() > & f )
{
    seed = sd;
    rs = sd * 0x9E3779B97F4A7C15ull + 0x1234567;
    for ( int i = 0; i < 4; ++i ) rnd();
    static const uint32_t S[] = { 1024, 512, 200, 60 }, M[] = { 0, 0, 4, 20, 80 }, Q[] = { 0, 0, 0, 8 };
    pSync = S[ rnd( 4 ) ]; pMem = M[ rnd( 5 ) ]; pSpur = Q[ rnd( 4 ) ];
    own.clear();
    ts.emplace_back( new Thread );
    Thread * t = ts.back().get();
    t->id = 0;
    sem_init( &t->go, 0, 0 );
    me = t;
    try { f(); } catch ( const std::exception & e ) { fail( prop, ( std::string( "unexpected exception: " ) + e.what() ).c_str() ); _exit( 0 ); }
    catch ( ... ) { fail( prop, "unexpected exception" ); _exit( 0 ); }
    for ( size_t i = 1; i < ts.size(); ++i ) join( int( i ) );
    me = nullptr;
    for ( size_t i = 1; i < ts.size(); ++i ) pthread_join( ts[ i ]->th, nullptr );
    ts.clear();
}
static double now() { return std::chrono::duration< double >( std::chrono::steady_clock::now().time_since_epoch() ).count(); }
static double t0 = now();
void scenario( const char * name, int runs, const std::function< void() > & f )
{
    scen = name;
    printf( "RUN %s\n", name );
    fflush( stdout );
    int i = 1;
    for ( ; i <= runs && now() - t0 < budget; ++i ) run( i, f );
    printf( "DID %d\n", i - 1 );
}
}
using namespace vs;

// ------------------------------------------------------------------ interposed system functions
template< class F > static F real( const char * n ) { return (F)dlsym( RTLD_NEXT, n ); }
#define REAL( name ) static auto r = real< decltype( &name ) >( #name )
extern "C" {
int pthread_mutex_lock( pthread_mutex_t * m )
{
    REAL( pthread_mutex_lock );
    if ( !me || busy ) return r( m );
    if ( mutexHook ) if ( int e = mutexHook( "lock", m ) ) return e;
    point( pSync );
    Busy b;
    while ( own.count( m ) ) block( MUTEX, m );
    own[ m ] = me->id;
    return 0;
}
int pthread_mutex_trylock( pthread_mutex_t * m )
{
    REAL( pthread_mutex_trylock );
    if ( !me || busy ) return r( m );
    if ( mutexHook ) if ( int e = mutexHook( "trylock", m ) ) return e;
    point( pSync );
    if ( own.count( m ) ) return EBUSY;
    Busy b;
    own[ m ] = me->id;
    return 0;
}
static void release( pthread_mutex_t * m )
{
    Busy b;
    own.erase( m );
    for ( auto & t : ts ) if ( t->st == MUTEX && t->on == m ) t->st = RUN;
}
int pthread_mutex_unlock( pthread_mutex_t * m )
{
    REAL( pthread_mutex_unlock );
    if ( !me || busy ) return r( m );
    if ( mutexHook ) if ( int e = mutexHook( "unlock", m ) ) return e;
    if ( owner( m ) != me->id ) { fail( prop, "a mutex is unlocked by a thread that does not hold it" ); return EPERM; }
    release( m );
    point( pSync );
    return 0;
}
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
    REAL( pthread_cond_wait );
    if ( !me || busy ) return r( c, m );
    if ( owner( m ) != me->id ) fail( prop, "waiting on a condition without holding the mutex" );
    point( pSync );
    release( m );
    block( COND, c );
    Busy b;
    while ( own.count( m ) ) block( MUTEX, m );
    own[ m ] = me->id;
    return 0;
}
int pthread_cond_signal( pthread_cond_t * c )
{
    REAL( pthread_cond_signal );
    if ( !me || busy ) return r( c );
    point( pSync );
    {
        Busy b;
        Thread * w[ 1024 ]; int n = 0;
        for ( auto & t : ts ) if ( t->st == COND && t->on == c ) w[ n++ ] = t.get();
        if ( n ) w[ rnd( n ) ]->st = RUN;
    }
    return 0;
}
int pthread_cond_broadcast( pthread_cond_t * c )
{
    REAL( pthread_cond_broadcast );
    if ( !me || busy ) return r( c );
    point( pSync );
    for ( auto & t : ts ) if ( t->st == COND && t->on == c ) t->st = RUN;
    return 0;
}
int nanosleep( const timespec * a, timespec * b )
{
    REAL( nanosleep );
    if ( !me || busy ) return r( a, b );
    quiet();
    return 0;
}
int clock_nanosleep( clockid_t i, int f, const timespec * a, timespec * b )
{
    REAL( clock_nanosleep );
    if ( !me || busy ) return r( i, f, a, b );
    quiet();
    return 0;
}
int usleep( useconds_t ) { if ( me && !busy ) quiet(); return 0; }
int sched_yield() { point( 1024 ); return 0; }

// ------------------------------------------------------------------ callbacks of the instrumentation
static inline void mem( void * p )
{
    if ( !me || busy || !pMem ) return;
    char * sp = (char *)__builtin_frame_address( 0 );
    if ( (char *)p > sp - 65536 && (char *)p < sp + 262144 ) return;
    point( pMem );
}
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
#define RW( s ) \
  void __tsan_read##s( void * p ) { mem( p ); } void __tsan_write##s( void * p ) { mem( p ); } \
  void __tsan_unaligned_read##s( void * p ) { mem( p ); } void __tsan_unaligned_write##s( void * p ) { mem( p ); } \
  void __tsan_volatile_read##s( void * p ) { mem( p ); } void __tsan_volatile_write##s( void * p ) { mem( p ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void * p, long ) { mem( p ); }
void __tsan_write_range( void * p, long ) { mem( p ); }
void __tsan_vptr_update( void ** p, void * ) { mem( p ); }
void __tsan_vptr_read( void ** p ) { mem( p ); }
#define AT( w, T ) \
  T __tsan_atomic##w##_load( const volatile T * a, int ) { point( pSync ); return __atomic_load_n( a, 5 ); } \
  void __tsan_atomic##w##_store( volatile T * a, T v, int ) { point( pSync ); __atomic_store_n( a, v, 5 ); } \
  T __tsan_atomic##w##_exchange( volatile T * a, T v, int ) { point( pSync ); return __atomic_exchange_n( a, v, 5 ); } \
  T __tsan_atomic##w##_fetch_add( volatile T * a, T v, int ) { point( pSync ); return __atomic_fetch_add( a, v, 5 ); } \
  T __tsan_atomic##w##_fetch_sub( volatile T * a, T v, int ) { point( pSync ); return __atomic_fetch_sub( a, v, 5 ); } \
  T __tsan_atomic##w##_fetch_and( volatile T * a, T v, int ) { point( pSync ); return __atomic_fetch_and( a, v, 5 ); } \
  T __tsan_atomic##w##_fetch_or( volatile T * a, T v, int ) { point( pSync ); return __atomic_fetch_or( a, v, 5 ); } \
  T __tsan_atomic##w##_fetch_xor( volatile T * a, T v, int ) { point( pSync ); return __atomic_fetch_xor( a, v, 5 ); } \
  int __tsan_atomic##w##_compare_exchange_strong( volatile T * a, T * c, T v, int, int ) \
  { point( pSync ); return __atomic_compare_exchange_n( a, c, v, false, 5, 5 ); } \
  int __tsan_atomic##w##_compare_exchange_weak( volatile T * a, T * c, T v, int, int ) \
  { point( pSync ); if ( me && !busy && pSync != 60 && rnd( 16 ) == 0 ) { *c = __atomic_load_n( a, 5 ); return 0; } \
    return __atomic_compare_exchange_n( a, c, v, false, 5, 5 ); } \
  T __tsan_atomic##w##_compare_exchange_val( volatile T * a, T c, T v, int, int ) \
  { point( pSync ); __atomic_compare_exchange_n( a, &c, v, false, 5, 5 ); return c; }
AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}
}
