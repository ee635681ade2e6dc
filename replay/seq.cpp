// runtime of the sequential drivers (built with the address and undefined behaviour sanitizers)
#include "sched.hpp"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <exception>
#include <string>
namespace vs {
const char * prop = "";
const char * stuckProps = "";
uint64_t seed = 0;
double budget = 60;
static const char * scen = "";
static uint64_t rs = 1;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return ( rs * 0x2545F4914F6CDD1Dull ) >> 16; }
void fail( const char * props, const char * what )
{
    if ( !strstr( props, prop ) ) return;
    printf( "FAIL %s [scenario %s, seed %llu]\n", what, scen, (unsigned long long)seed );
    fflush( stdout );
    _exit( 1 );
}
void yield() {}
static double now() { return std::chrono::duration< double >( std::chrono::steady_clock::now().time_since_epoch() ).count(); }
static double t0 = now();
void scenario( const char * name, int runs, const std::function< void() > & f )
{
    scen = name;
    printf( "RUN %s\n", name );
    fflush( stdout );
    int i = 1;
    for ( ; i <= runs && now() - t0 < budget; ++i )
    {
        seed = i;
        rs = i * 0x9E3779B97F4A7C15ull + 0x1234567;
        for ( int k = 0; k < 4; ++k ) rnd();
        try { f(); }
        catch ( const std::exception & e ) { fail( prop, ( std::string( "unexpected exception: " ) + e.what() ).c_str() ); }
        catch ( ... ) { fail( prop, "unexpected exception" ); }
    }
    printf( "DID %d\n", i - 1 );
}
}
