#include "common.hpp"
template< class T > struct V { using Raw = T; static T to( long i ) { return T( i ); } static T raw( long i ) { return T( i ); } static long from( T v ) { return long( v ); } };
// typed pointers go in and come out of prime and flush as void *
template< class T > struct V< T * > { using Raw = void *; static T * to( long i ) { return (T *)( 0x10000 + 8 * i ); } static void * raw( long i ) { return (void *)to( i ); } static long from( const void * v ) { return ( (long)v - 0x10000 ) / 8; } };

// times of an element
struct Times { vs::Num putBegin, putEnd, getBegin, getEnd, got; };
template< class T > struct World
{
    RingBufferGuarded< T > r;
    size_t n;
    vs::Num clock, putsDone, getsBegun, putsBegun, getsDone, abortDone, next;
    Times t[ 256 ];
    vs::Num busyWith[ 64 ];     // 1 get, 2 put
    World( size_t n, bool prime = false ) : r{ n, prime }, n{ n }, next{ 1 } {}
    bool put()
    {
        long i = next++;
        bool after = abortDone, ok = false;
        t[ i ].putBegin.v = ++clock;
        ++putsBegun;
        busyWith[ vs::self() ].v = 2;
        try { ok = r.put( V< T >::to( i ) ); }
        catch ( const SemaphoreAborted & ) { t[ i ].putBegin.v = 0; }
        catch ( const RingBufferStateError & ) { check( after || abortBegun, "C09", "put on a ready buffer throws RingBufferStateError" ); t[ i ].putBegin.v = 0; }
        catch ( const RingBufferOverflow & ) { fail( "C08", "put throws RingBufferOverflow" ); }
        busyWith[ vs::self() ].v = 0;
        if ( ok )
        {
            check( !after, "C09", "put transfers an element after abort" );
            t[ i ].putEnd.v = ++clock;
            ++putsDone;
            check( long( putsDone ) - long( getsBegun ) <= long( n ), "C08", "put succeeds although n elements are held" );
        }
        else t[ i ].putBegin.v = 0;
        check( vs::locks() == 0, "C08 C09", "the internal lock is still held" );
        return ok;
    }
    bool get()
    {
        bool after = abortDone, ok = false;
        long b = ++clock;
        ++getsBegun;
        T v{};
        busyWith[ vs::self() ].v = 1;
        try { v = r.get(); ok = true; }
        catch ( const SemaphoreAborted & ) {}
        catch ( const RingBufferStateError & ) { check( after || abortBegun, "C09", "get on a ready buffer throws RingBufferStateError" ); }
        catch ( const RingBufferUnderflow & ) { fail( "C08", "get throws RingBufferUnderflow" ); }
        busyWith[ vs::self() ].v = 0;
        if ( !ok ) { getsBegun -= 1; return false; }
        check( !after, "C09", "get transfers an element after abort" );
        take( V< T >::from( v ), b );
        ++getsDone;
        return true;
    }
    vs::Num abortBegun;
    void take( long i, long b )
    {
        check( i >= 1 && i < 256 && i < long( next ) && t[ i ].putBegin, "C08 C09", "an element comes out that was never put" );
        check( ++t[ i ].got == 1, "C08 C09", "an element comes out twice" );
        t[ i ].getBegin.v = b;
        t[ i ].getEnd.v = ++clock;
    }
    void order()
    {
        for ( int a = 1; a < next; ++a ) for ( int b = 1; b < next; ++b )
            if ( t[ a ].putEnd && t[ b ].putEnd && long( t[ a ].putEnd ) < long( t[ b ].putBegin ) && t[ b ].got )
            {
                check( t[ a ].got, "C08 C09", "a later element came out and an earlier one did not" );
                check( long( t[ a ].getBegin ) < long( t[ b ].getEnd ), "C08 C09", "elements come out in another order than they went in" );
            }
    }
    void still( int threads )
    {
        long held = putsDone - getsDone;
        check( held >= 0 && held <= long( n ), "C08", "more elements are held than the size allows" );
        for ( int i = 1; i <= threads; ++i ) if ( !vs::finished( i ) )
        {
            if ( abortDone ) { fail( "C09", "a thread is still blocked after abort" ); continue; }
            check( !( busyWith[ i ] == 1 && held > 0 ), "C08", "get blocks although an element is held" );
            check( !( busyWith[ i ] == 2 && held < long( n ) ), "C08", "put blocks although fewer than n elements are held" );
        }
    }
};
template< class T > static void contention( bool aborts )
{
    World< T > w( 1 + rnd( 5 ) );
    int th = 2 + rnd( 4 );
    for ( int i = 1; i <= th; ++i )
    {
        int mode = i == 1 ? 0 : i == 2 ? 1 : rnd( 3 ), k = 1 + rnd( 8 );
        vs::go( [&w, mode, k] { for ( int j = 0; j < k; ++j ) { if ( mode == 0 || ( mode == 2 && rnd( 2 ) ) ) w.put(); else w.get(); } } );
    }
    if ( aborts )
    {
        for ( int b = rnd( 20 ); b--; ) vs::yield();
        if ( rnd( 3 ) == 0 ) vs::quiet();
        w.abortBegun.v = 1;
        w.r.abort();
        w.abortDone.v = 1;
        vs::quiet();
        w.still( th );
        check( !w.get(), "C09", "get succeeds after abort" );
        check( !w.put(), "C09", "put succeeds after abort" );
        w.r.flush( [&w]( typename V< T >::Raw v ) { w.take( V< T >::from( v ), ++w.clock ); } );
        w.order();
        for ( int i = 1; i < w.next; ++i ) check( bool( w.t[ i ].got ) == bool( w.t[ i ].putEnd ), "C08 C09", "an element that was put came neither out of get nor of flush (or the other way round)" );
        return;
    }
    for ( int k = 0; k < 40; ++k )
    {
        vs::quiet();
        w.still( th );
        bool any = false;
        for ( int i = 1; i <= th && !any; ++i ) if ( !vs::finished( i ) )
        {
            any = true;
            if ( w.busyWith[ i ] == 1 ) w.put(); else w.get();
        }
        if ( !any ) break;
    }
    vs::quiet();
    w.still( th );
    while ( long( w.putsDone ) > long( w.getsDone ) ) w.get();
    w.order();
    for ( int i = 1; i < w.next; ++i ) check( bool( w.t[ i ].got ) == bool( w.t[ i ].putEnd ), "C08", "an element that was put did not come out" );
    w.abortBegun.v = 1;
    w.r.abort();
    vs::quiet();
}
struct Boom {};
enum St { NP, READY, TERM };
// all operations in all states, one thread; the model says what must happen
template< class T > static void life()
{
    size_t n = 1 + rnd( 6 );
    bool primed = rnd( 4 ) != 0;
    RingBufferGuarded< T > r{ n, primed };
    St st = primed ? NP : READY;
    std::deque< long > model;
    long next = 100;
    bool flushed = false;
    for ( int step = 0; step < 30; ++step )
    {
        int op = rnd( 12 );
        if ( op < 3 && !( st == READY && model.empty() ) )
        {
            int res = 0;
            T v{};
            try { v = r.get(); } catch ( const RingBufferStateError & ) { res = 1; } catch ( const SemaphoreAborted & ) { res = 2; }
            check( st == READY ? res == 0 : st == NP ? res == 1 : res != 0, "C09", "get: wrong outcome for the state" );
            if ( res == 0 ) { check( !model.empty() && V< T >::from( v ) == model.front(), "C08 C09", "get returns another element than the oldest" ); if ( model.size() ) model.pop_front(); }
        }
        else if ( op < 6 && !( st == READY && model.size() == n ) )
        {
            int res = 0;
            bool ok = false;
            try { ok = r.put( V< T >::to( next ) ); } catch ( const RingBufferStateError & ) { res = 1; } catch ( const SemaphoreAborted & ) { res = 2; }
            check( st == READY ? res == 0 && ok : st == NP ? res == 1 : !ok || res, "C09", "put: wrong outcome for the state" );
            if ( res == 0 && ok ) model.push_back( next );
            ++next;
        }
        else if ( op < 9 )
        {
            int res = 0;
            size_t calls = 0, limit = n;
            int ab = rnd( 5 ) == 0 ? int( rnd( n ) ) : -1, boom = -1;
            bool order = true;
            if ( rnd( 4 ) == 0 && ab < 0 ) boom = st == NP ? int( rnd( n ) ) : 0;
            try
            {
                r.prime( [&]( size_t i ) { if ( i != calls ) order = false; if ( int( i ) == ab ) r.abort(); if ( boom >= 0 && int( i ) >= boom ) throw Boom{}; ++calls; return V< T >::raw( 1000 + long( i ) ); } );
            }
            catch ( const RingBufferStateError & ) { res = 1; } catch ( const SemaphoreAborted & ) { res = 2; } catch ( const Boom & ) { res = 3; }
            if ( st == NP && boom >= 0 )
                check( res == 3 && order && int( calls ) == boom, "C09", "prime does not pass on what its function throws" );
            else if ( st == NP )
            {
                check( order, "C09", "prime calls its function for other indices than 0, 1, ..." );
                if ( ab < 0 ) { check( res == 0 && calls == n, "C09", "prime does not call its function once for each of 0 to n-1" ); st = READY; }
                else { st = TERM; check( calls <= n && int( calls ) > ab, "C09", "prime: wrong calls when aborted" ); }
                for ( size_t i = 0; i < calls; ++i ) model.push_back( 1000 + long( i ) );
            }
            else check( res == 1 && calls == 0, "C09", "prime in the wrong state" );
        }
        else if ( op < 11 )
        {
            int res = 0;
            std::vector< long > out;
            try { r.flush( [&]( typename V< T >::Raw v ) { out.push_back( V< T >::from( v ) ); } ); } catch ( const RingBufferStateError & ) { res = 1; }
            catch ( const std::exception & ) { res = 2; }
            if ( st == TERM )
            {
                check( res == 0, "C09", "flush of an aborted buffer throws" );
                check( out == std::vector< long >( model.begin(), model.end() ), "C09", "flush hands out other elements than those still held, in order" );
                model.clear();
            }
            else check( res == 1 && out.empty(), "C09", "flush in the wrong state" );
        }
        else if ( rnd( 3 ) == 0 ) { r.abort(); st = TERM; }
    }
}
// prime races with abort and with users
template< class T > static void primeRace()
{
    size_t n = 1 + rnd( 4 );
    RingBufferGuarded< T > r{ n, true };
    vs::Num calls, aborted, primedDone;
    bool ab = rnd( 3 ) != 0;
    vs::go( [&] { try { r.prime( [&]( size_t i ) { vs::yield(); ++calls; return V< T >::raw( 1000 + long( i ) ); } ); primedDone.v = 1; } catch ( const RingBufferStateError & ) {} } );
    vs::Num got[ 16 ], gets;
    for ( int k = 0; k < 2; ++k )
        vs::go( [&] { for ( int j = 0; j < 6; ++j ) try { long i = V< T >::from( r.get() ) - 1000; check( i >= 0 && i < long( n ) && ++got[ i ] == 1, "C08 C09", "an element comes out that was not primed, or twice" ); check( long( calls ) == long( n ), "C09", "get succeeds before the buffer is primed" ); ++gets; if ( aborted ) fail( "C09", "get succeeds after abort" ); }
                catch ( const RingBufferStateError & ) { vs::yield(); } catch ( const SemaphoreAborted & ) { break; } } );
    if ( ab )
    {
        for ( int b = rnd( 30 ); b--; ) vs::yield();
        r.abort();
        vs::quiet();
        aborted.v = 1;
        bool threw = false;
        try { r.get(); } catch ( const RingBufferStateError & ) { threw = true; } catch ( const SemaphoreAborted & ) { threw = true; }
        check( threw, "C09", "a concurrent prime brings an aborted buffer back" );
        r.flush( [&]( typename V< T >::Raw v ) { long i = V< T >::from( v ) - 1000; check( i >= 0 && i < long( n ) && ++got[ i ] == 1, "C09", "flush hands out an element that was not held" ); } );
        for ( long i = 0; i < long( n ); ++i ) check( bool( got[ i ] ) == ( i < long( calls ) ), "C09", "an element is neither delivered nor flushed" );
        return;
    }
    vs::quiet();
    check( primedDone, "C09", "prime does not complete" );
    int t = vs::go( [&] { try { while ( long( gets ) < long( n ) ) { long i = V< T >::from( r.get() ) - 1000; check( i >= 0 && i < long( n ) && ++got[ i ] == 1, "C08 C09", "an element comes out that was not primed, or twice" ); ++gets; } } catch ( const SemaphoreAborted & ) {} } );
    vs::quiet();
    check( long( gets ) == long( n ), "C08 C09", "a primed element cannot be got" );
    r.abort();
    vs::quiet();
}
template< class T > static void big( size_t n, bool primed )
{
    RingBufferGuarded< T > r{ n, primed };
    long a = 0, b = 0;
    if ( primed ) { r.prime( []( size_t i ) { return V< T >::raw( long( i ) ); } ); a = long( n ); }
    int t = vs::go( [&] { try { for ( ;; ) { r.put( V< T >::to( a ) ); ++a; } } catch ( const SemaphoreAborted & ) {} } );
    vs::quiet();
    check( a == long( n ), "C08", "another number of elements than n can be put before put blocks" );
    for ( size_t i = 0; i < n / 2; ++i ) check( V< T >::from( r.get() ) == b++, "C08", "get returns another element than the oldest" );
    vs::quiet();
    check( a == long( n + n / 2 ), "C08", "another number of elements than n can be put before put blocks" );
    r.abort();
    vs::quiet();
    r.flush( [&]( typename V< T >::Raw v ) { check( V< T >::from( v ) == b++, "C09", "flush out of order" ); } );
    check( a == b, "C09", "flush does not hand out every element" );
}
template< class T > static void all( const char * name )
{
    vs::scenario( name, 4000, [] { contention< T >( false ); } );
    vs::scenario( name, 4000, [] { contention< T >( true ); } );
    vs::scenario( name, 2000, [] { life< T >(); } );
    vs::scenario( name, 3000, [] { primeRace< T >(); } );
}
int main( int, char ** v )
{
    vs::prop = v[ 1 ];
    vs::stuckProps = "C08 C09";
    for ( size_t n : { 1, 2, 3, 5, 8, 1000, 65535, 65536, 100000, 1048576 } )
        vs::scenario( "size", 1, [n] { big< long >( n, false ); big< void * >( n, true ); } );
    all< long >( "long" );
    all< void * >( "void *" );
    all< int * >( "int *" );
    all< const int * >( "const int *" );
    printf( "ok\n" );
}
