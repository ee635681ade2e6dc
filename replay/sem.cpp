#include "common.hpp"
using F = Semaphore::FunctionType;
static const uint64_t U = 0xffffffffull;
struct Boom { int n; };

static void construction()
{
    const uint64_t v[] = { 0, 1, 2, 3, 7, 65535, 65536, U - 1, U, U + 1, U + 2, U + 5, 2 * U + 1, 1ull << 33, ~0ull - 1, ~0ull };
    for ( uint64_t i : v ) for ( uint64_t m : v )
    {
        uint64_t ci = i > U ? U : i, cm = m == 0 || m > U ? U : m;
        if ( cm < ci ) cm = ci;
        Semaphore s{ size_t( i ), size_t( m ) };
        check( s.getAvailableCount() == ci, "C03", "the initial count is not the clamped one" );
        // distance to the maximum
        int n = 0;
        bool blocked = false, over = false;
        int t = vs::go( [&] { try { for ( ; n < 5; ++n ) s.give(); } catch ( const SemaphoreOverflow & ) { over = true; } catch ( const SemaphoreAborted & ) { blocked = true; } } );
        vs::quiet();
        uint64_t room = cm - ci;
        if ( room < 5 )
        {
            check( uint64_t( n ) == room, "C03", "give succeeded another number of times than the maximum allows" );
            if ( cm == U ) check( over, "C03", "give at 2^32-1 does not throw SemaphoreOverflow" );
            else check( !over && !vs::finished( t ), "C03", "give at the maximum does not block" );
        }
        else check( n == 5, "C03", "give below the maximum did not succeed" );
        check( s.getAvailableCount() == ci + n, "C03", "the count is not initial + gives" );
        s.abort();
        vs::join( t );
    }
}

// random operations of several threads
struct World
{
    Semaphore s;
    uint64_t init, max;
    vs::Num takes, gives, shadow, running;
    vs::Num abortDone;
    bool onlyFunctors;
    vs::Num want[ 64 ];                   // per thread: 1 in take, 2 in give
    World( uint64_t i, uint64_t m, bool f ) : s{ i, m }, init{ i }, max{ m ? std::max( m, i ) : U }, shadow( i ), onlyFunctors{ f } {}
    void fn( bool take, bool boom, int & times )
    {
        ++times;
        check( vs::locks() > 0, "C04", "a functor runs without the internal lock" );
        check( running == 0, "C04", "two functors overlap" );
        ++running;
        if ( onlyFunctors )
        {
            shadow += take ? -1 : 1;
            check( shadow >= 0, "C03", "a take succeeds at count zero" );
            check( uint64_t( shadow ) <= max, "C03", "a give succeeds at the maximum" );
        }
        for ( int i = rnd( 3 ); i--; ) vs::yield();
        --running;
        if ( boom ) { if ( onlyFunctors ) shadow += take ? 1 : -1; throw Boom{ 5 }; }
    }
    void op( bool take, bool functor, bool boom )
    {
        int times = 0;
        bool after = abortDone;
        bool ok = false;
        want[ vs::self() ].v = take ? 1 : 2;
        try
        {
            if ( functor )
            {
                F f{ [&] { fn( take, boom, times ); } };
                if ( take ) s.take( f ); else s.give( f );
            }
            else if ( take ) s.take(); else s.give();
            ok = true;
        }
        catch ( const SemaphoreAborted & ) { check( times == 0, "C04 C06", "a functor was called by an operation that fails by abort" ); }
        catch ( const Boom & b ) { check( functor && boom && b.n == 5 && times == 1, "C04", "an exception changed" ); }
        want[ vs::self() ].v = 0;
        check( vs::locks() == 0, "C04 C07", "the internal lock is still held after the operation" );
        if ( ok )
        {
            check( !after, "C06", "an operation succeeded after abort" );
            ++( take ? takes : gives );
            if ( functor )
            {
                check( times == 1, "C04", "a functor was not called exactly once" );
                check( !boom, "C04", "the exception of a functor got lost" );
            }
        }
    }
    // at a moment where nothing can run
    void still( int n )
    {
        uint64_t a = s.getAvailableCount();
        check( a == init + gives - takes, "C03", "count is not initial + gives - takes" );
        check( a <= max, "C03", "count above the maximum" );
        check( a == init + gives - takes, "C04", "the count is not what it was before the failed calls" );
        for ( int i = 1; i < n; ++i ) if ( !vs::finished( i ) )
        {
            check( !abortDone, "C06", "a thread is still blocked after abort" );
            if ( abortDone ) continue;
            check( !( want[ i ] == 1 && a > 0 ), "C05", "a taker sleeps although units are available" );
            check( !( want[ i ] == 2 && a < max ), "C05", "a giver sleeps although there is room" );
        }
    }
};

static void contention( bool functors, bool booms, bool aborts )
{
    uint64_t m = rnd( 4 ) == 0 ? 0 : 1 + rnd( 3 );
    uint64_t i = rnd( m ? m + 1 : 3 );
    World w( i, m, functors );
    int n = 2 + rnd( 5 );
    for ( int k = 1; k <= n; ++k )
    {
        int mode = rnd( 3 );
        int ops = 1 + rnd( 4 );
        vs::go( [&w, mode, ops, functors, booms] {
            for ( int j = 0; j < ops; ++j )
                w.op( mode == 0 ? true : mode == 1 ? false : rnd( 2 ), functors || rnd( 2 ), booms && rnd( 3 ) == 0 );
        } );
    }
    if ( aborts )
    {
        if ( rnd( 2 ) ) vs::quiet();
        uint64_t b = rnd( 8 );
        while ( b-- ) vs::yield();
        w.s.abort();
        w.abortDone.v = 1;
        uint64_t a = 0;
        (void)a;
        vs::quiet();
        w.still( n + 1 );
        uint64_t before = w.s.getAvailableCount();
        w.s.abort();
        for ( int k = 0; k < 2; ++k ) w.op( k, true, false );
        for ( int k = 0; k < 2; ++k ) w.op( k, false, false );
        check( w.s.getAvailableCount() == before, "C06", "an operation after abort changes the count" );
        for ( int k = 1; k <= n; ++k ) check( vs::finished( k ), "C06", "a thread is still blocked after abort" );
        return;
    }
    for ( int k = 0; k < 6; ++k )
    {
        vs::quiet();
        w.still( n + 1 );
        if ( rnd( 2 ) )
        {
            int t = vs::go( [&w, functors] { w.op( rnd( 2 ), functors || rnd( 2 ), false ); } );
            (void)t; ++n;
        }
    }
    vs::quiet();
    w.still( n + 1 );
    w.s.abort();
    w.abortDone.v = 1;
    vs::quiet();
    for ( int k = 1; k <= n; ++k ) check( vs::finished( k ), "C06", "a thread is still blocked after abort" );
}

static void overflow()
{
    Semaphore s{ size_t( U ) };
    int times = 0;
    F f{ [&] { ++times; } };
    for ( int k = 0; k < 2; ++k )
    {
        bool thrown = false;
        int t = vs::go( [&] { try { if ( k ) s.give( f ); else s.give(); } catch ( const SemaphoreOverflow & ) { thrown = true; } catch ( const SemaphoreAborted & ) {} } );
        vs::quiet();
        check( thrown, "C03", "give at 2^32-1 does not throw SemaphoreOverflow" );
        if ( !vs::finished( t ) ) { s.abort(); return; }
        check( times == 0, "C04", "a functor was called by an operation that fails by overflow" );
        check( s.getAvailableCount() == U, "C03", "a give that overflows changes the count" );
    }
}

static void scale()
{
    // many waiters on each side
    Semaphore s{ 0, 2 };
    vs::Num n;
    for ( int i = 0; i < 40; ++i ) vs::go( [&] { try { s.take(); ++n; } catch ( const SemaphoreAborted & ) {} } );
    vs::quiet();
    for ( int i = 0; i < 20; ++i ) s.give();
    vs::quiet();
    check( n == 20, "C05", "a taker sleeps although units are available" );
    s.abort();
    vs::quiet();
    for ( int i = 1; i <= 40; ++i ) check( vs::finished( i ), "C06", "a thread is still blocked after abort" );
}

static void wide()
{
    // as many waiters as an 8-bit count cannot tell from none
    for ( int give = 0; give < 2; ++give )
    {
        Semaphore s{ size_t( give ), 1 };
        vs::Num n;
        int first = 0, last = 0;
        for ( int i = 0; i < 256; ++i ) { last = vs::go( [&] { try { if ( give ) s.give(); else s.take(); ++n; } catch ( const SemaphoreAborted & ) {} } ); if ( !i ) first = last; }
        vs::quiet();
        check( n == 0, "C03", "an operation that must block does not" );
        if ( give ) s.take(); else s.give();
        vs::quiet();
        check( n == 1, "C05", "a thread sleeps although it could go on" );
        s.abort();
        vs::quiet();
        for ( int i = first; i <= last; ++i ) check( vs::finished( i ), "C06", "a thread is still blocked after abort" );
    }
}

int main( int, char ** v )
{
    vs::prop = v[ 1 ];
    vs::stuckProps = "C03 C04 C05 C06";
    vs::scenario( "construction", 1, construction );
    vs::scenario( "overflow", 20, overflow );
    vs::scenario( "many waiters", 20, scale );
    vs::scenario( "256 waiters", 2, wide );
    vs::scenario( "plain operations", 3000, [] { contention( false, false, false ); } );
    vs::scenario( "functors", 3000, [] { contention( true, false, false ); } );
    vs::scenario( "functors that throw", 6000, [] { contention( true, true, false ); } );
    vs::scenario( "abort", 4000, [] { contention( false, false, true ); } );
    vs::scenario( "abort with functors", 4000, [] { contention( true, true, true ); } );
    printf( "ok\n" );
}
