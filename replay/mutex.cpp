// C07: every outcome of the native operations
#include "common.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
namespace {
bool on = false;
struct M { int protocol = -1; bool init = false; int users = 0; int inits = 0, destroys = 0; };
std::map< void *, M > ms;
std::map< void *, int > attrProtocol;
int nextLock = -1, nextTry = -1, nextUnlock = -1;   // outcome to report
std::vector< std::pair< char, void * > > calls;
template< class F > F real( const char * n ) { return (F)dlsym( RTLD_NEXT, n ); }
}
extern "C" {
int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * a ) noexcept
{
    static auto r = real< int (*)( pthread_mutex_t *, const pthread_mutexattr_t * ) >( "pthread_mutex_init" );
    int e = r( m, a );
    if ( on ) { int p = PTHREAD_PRIO_NONE; if ( a ) pthread_mutexattr_getprotocol( a, &p ); ms[ m ].protocol = p; ms[ m ].init = e == 0; ++ms[ m ].inits; }
    return e;
}
int pthread_mutex_destroy( pthread_mutex_t * m ) noexcept
{
    static auto r = real< int (*)( pthread_mutex_t * ) >( "pthread_mutex_destroy" );
    if ( on ) { check( ms.count( m ) && ms[ m ].init, "C07", "a mutex that is not initialised is destroyed" ); ++ms[ m ].destroys; ms[ m ].init = false; }
    return r( m );
}
#define OP( name, c, next ) \
int name( pthread_mutex_t * m ) noexcept( noexcept( ::name( m ) ) ) \
{ \
    static auto r = real< int (*)( pthread_mutex_t * ) >( #name ); \
    if ( on ) \
    { \
        check( ms.count( m ) && ms[ m ].init, "C07", #name " on a mutex that is not initialised" ); \
        check( !ms.count( m ) || ms[ m ].protocol == PTHREAD_PRIO_INHERIT, "C07", "a mutex is used that was not initialised with the priority-inheritance protocol" ); \
        calls.push_back( { c, m } ); \
        if ( next >= 0 ) { int e = next; next = -1; return e; } \
    } \
    return r( m ); \
}
OP( pthread_mutex_lock, 'l', nextLock )
OP( pthread_mutex_trylock, 't', nextTry )
OP( pthread_mutex_unlock, 'u', nextUnlock )
}
static void one()
{
    on = true;
    calls.clear();
    ms.clear();
    auto * m = new Mutex;
    void * h = (void *)m->native_handle();
    check( ms.size() == 1 && ms.begin()->first == h && ms[ h ].inits == 1, "C07", "native_handle is not the one native mutex that was initialised" );
    check( ms[ h ].protocol == PTHREAD_PRIO_INHERIT, "C07", "the native mutex does not use priority inheritance" );
    std::vector< int > codes = { 0, EBUSY, EINVAL, EAGAIN, EDEADLK, EPERM, ENOTRECOVERABLE, EOWNERDEAD, ETIMEDOUT, EINTR, ENOMEM, ENOENT };
    for ( int i = 1; i < 140; ++i ) codes.push_back( i );
    for ( int e : codes )
    {
        for ( int op = 0; op < 3; ++op )
        {
            calls.clear();
            ( op == 0 ? nextLock : op == 1 ? nextTry : nextUnlock ) = e;
            int got = -1;       // -1 returned, else code thrown
            bool cat = true, res = false;
            try { if ( op == 0 ) m->lock(); else if ( op == 1 ) res = m->try_lock(); else m->unlock(); }
            catch ( const std::system_error & x ) { got = x.code().value(); cat = x.code().category() == std::system_category() || x.code().category() == std::generic_category(); }
            catch ( ... ) { got = -2; }
            nextLock = nextTry = nextUnlock = -1;
            std::string what = std::string( op == 0 ? "lock" : op == 1 ? "try_lock" : "unlock" ) + " with the native outcome " + std::to_string( e );
            bool throws = op == 1 ? e != 0 && e != EBUSY : e != 0;
            check( calls.size() == 1 && calls[ 0 ].first == "ltu"[ op ] && calls[ 0 ].second == h, "C07", ( what + ": not exactly one native operation on the own mutex" ).c_str() );
            check( got == ( throws ? e : -1 ) && cat, "C07", ( what + ": wrong outcome" ).c_str() );
            if ( op == 1 && !throws ) check( res == ( e == 0 ), "C07", ( what + ": wrong result" ).c_str() );
        }
    }
    // real operations
    m->lock();
    check( !m->try_lock(), "C07", "try_lock succeeds on a locked mutex" );
    m->unlock();
    check( m->try_lock(), "C07", "try_lock fails on a free mutex" );
    m->unlock();
    delete m;
    check( ms[ h ].destroys == 1, "C07", "the native mutex is not destroyed exactly once" );
    on = false;
}
int main( int, char ** v )
{
    vs::prop = v[ 1 ];
    vs::scenario( "native outcomes", 3, one );
    printf( "ok\n" );
}
