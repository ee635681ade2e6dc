#include "common.hpp"
#include "guard.hpp"
#include <cstddef>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <string>
using Q = MessageQueue;
struct Boom {};
struct WakeBoom {};
enum { CTOR_THROWS = 1, DISPATCH_THROWS = 2, SLOW = 4, NEST = 8, NAME_THROWS = 16 };
enum { MAX = 400 };
struct M { long born, died, dispatched, putBegin, putEnd, getBegin, at; bool accepted, accAfterAbort; };
struct World
{
    Q * q = nullptr;
    void * native = nullptr;
    long n = 0;
    bool locking = false, single = false, exactName = false;
    Live live;
    M m[ MAX ];
    vs::Num next, clock, resident, enq, wakeThrown, purging, purged, adl, inDispatch, abortBegun, abortDone, dead, shutdown;
    vs::Num busyWith[ 64 ], getBegin[ 64 ], disp[ 64 ], ended[ 64 ];
    const char * lastName = "[NONE]";
    VS_RAW World() { memset( m, 0, sizeof m ); next.v = 1; }
};
static World * w;
enum { OK = 0x600D, DEAD = 0xDEAD };
struct Core : MessageBase
{
    long id;
    int mode;
    bool inQueue;
    volatile unsigned magic;
    VS_RAW Core( long i, int md, bool q ) : id{ i }, mode{ md }, inQueue{ q }, magic{ OK } {}
    VS_RAW void enter( void * p, size_t s, size_t skip )
    {
        if ( !inQueue ) return;
        w->live.add( p, s, skip, true );
        ++w->m[ id ].born;
        if ( ++w->resident > w->n ) fail( "C15", "more messages are held than the queue's size" );
    }
    VS_RAW void leave( void * p, size_t skip )
    {
        if ( magic != OK ) { fail( "C16", "a message is destroyed twice, or something else than a message is destroyed" ); return; }
        magic = DEAD;
        if ( !inQueue ) return;
        if ( !w->live.remove( p, skip ) ) fail( "C10 C16", "a message is destroyed whose storage is not held" );
        --w->resident;
        M & x = w->m[ id ];
        if ( ++x.died > x.born ) fail( "C16", "a message is destroyed twice" );
        if ( x.accepted ) w->enq -= 1;
        else if ( x.dispatched || w->dead || w->purging ) { x.accepted = true; }      // taken before the put returned
    }
    VS_RAW void begin()
    {
        if ( magic != OK ) { fail( "C15 C16", "a message is dispatched that is not alive" ); return; }
        M & x = w->m[ id ];
        if ( !inQueue ) fail( "C15", "a message is dispatched that is not on the queue" );
        if ( ++x.dispatched > 1 ) fail( "C15", "a message is dispatched twice" );
        x.at = ++w->clock;
        x.getBegin = long( w->getBegin[ vs::self() ] );
        ++w->disp[ vs::self() ];
        if ( w->shutdown ) fail( "C19", "a message is dispatched after abort" );
        if ( w->locking )
        {
            if ( vs::owner( w->native ) != vs::self() ) fail( "C17", "a message is dispatched without the dispatch lock" );
            if ( w->adl ) fail( "C17", "a message is dispatched while a thread holds the dispatch lock" );
            if ( ++w->inDispatch != 1 ) fail( "C17", "two messages are dispatched at the same time despite dispatch locking" );
        }
        else if ( vs::locks() ) fail( "C17", "a lock is held during dispatch without dispatch locking" );
        w->lastName = name();
    }
    VS_RAW void end() { if ( w->locking ) --w->inDispatch; }
    void run()
    {
        begin();
        if ( w->single ) check( !strcmp( w->q->getNameOfLastMessageDispatched(), name() ), "C19", "the name of the last dispatched message is wrong during dispatch" );
        if ( mode & SLOW ) for ( int i = 0; i < 3; ++i ) vs::yield();
        check( magic == OK, "C16", "a message is destroyed during its dispatch" );
        end();
        if ( mode & DISPATCH_THROWS ) throw Boom{};
    }
};
template< size_t S > struct Small : Core
{
    unsigned char pad[ S ];
    Small( long i, int md, bool q ) : Core{ i, md, q } { if ( q && ( md & CTOR_THROWS ) ) throw Boom{}; enter( this, sizeof *this, pad - (unsigned char *)this ); }
    Small( Small && o ) : Core{ o.id, o.mode, true } { if ( mode & CTOR_THROWS ) throw Boom{}; enter( this, sizeof *this, pad - (unsigned char *)this ); }
    ~Small() override { leave( this, pad - (unsigned char *)this ); }
    void dispatch() override { run(); }
    const char * name() const override { if ( mode & NAME_THROWS ) { ++w->wakeThrown; throw WakeBoom{}; } return S < 30 ? "Small" : "Large"; }
};
struct Other { long x[ 3 ]; virtual ~Other() = default; };
struct Multi : Other, Core
{
    unsigned char pad[ 5 ];
    Multi( long i, int md, bool q ) : Core{ i, md, q } { if ( q && ( md & CTOR_THROWS ) ) throw Boom{}; enter( this, sizeof *this, pad - (unsigned char *)this ); }
    Multi( Multi && o ) : Other{}, Core{ o.id, o.mode, true } { if ( mode & CTOR_THROWS ) throw Boom{}; enter( this, sizeof *this, pad - (unsigned char *)this ); }
    ~Multi() override { leave( this, pad - (unsigned char *)this ); }
    void dispatch() override { run(); }
};
using S1 = Small< 1 >;
using S2 = Small< 40 >;
static const size_t BIG = 96;       // room for every type

VS_RAW static void accepted( long id, bool after )
{
    M & x = w->m[ id ];
    x.putEnd = ++w->clock;
    bool was = x.accepted;
    x.accepted = true;
    if ( after ) fail( "C19", "put or emplace succeeds after abort" );
    if ( x.born != 1 ) fail( "C15 C16", "put or emplace succeeds without constructing its message on the queue once" );
    if ( !was && !x.died ) ++w->enq;
}
VS_RAW static void refused( long id )
{
    M & x = w->m[ id ];
    if ( x.born != x.died ) fail( "C16", "put or emplace fails and leaves its message behind" );
    if ( x.dispatched ) fail( "C15", "a message is dispatched although its put failed" );
}
template< class T > static void enqueue( long id, int mode, bool move )
{
    if ( move ) { T t{ id, mode, false }; w->q->put( std::move( t ) ); } else w->q->emplace< T >( id, mode, true );
}
// 0 done, 1 aborted, 2 constructor threw
static int put( int mode = 0, int kind = -1 )
{
    if ( w->next >= MAX ) return 1;
    long id = w->next++;
    bool after = w->abortDone;
    int me = vs::self(), res = 0;
    w->m[ id ].putBegin = ++w->clock;
    w->busyWith[ me ].v = 2;
    if ( kind < 0 ) kind = rnd( 3 );
    bool mv = rnd( 2 );
    try { if ( kind == 0 ) enqueue< S1 >( id, mode, mv ); else if ( kind == 1 ) enqueue< S2 >( id, mode, mv ); else enqueue< Multi >( id, mode, mv ); }
    catch ( const Boom & ) { res = 2; check( mode & CTOR_THROWS, "C16", "an exception nobody threw" ); }
    catch ( const MessageQueueElementSizeError & ) { fail( "C15", "a message that fits is rejected" ); }
    catch ( const std::runtime_error & ) { res = 1; check( w->abortBegun, "C15 C19", "put or emplace fails on a queue that is not aborted" ); }
    w->busyWith[ me ].v = 0;
    if ( res == 0 ) { check( !( mode & CTOR_THROWS ), "C16", "the exception of a message's constructor is lost" ); accepted( id, after ); }
    else refused( id );
    check( vs::locks() == 0, "C15 C16 C17", "a lock is still held after put or emplace" );
    return res;
}
// 0 done, 1 aborted, 2 dispatch threw, 3 wake-up threw
static int get( bool wakeThrows = false )
{
    int me = vs::self(), res = 0, woken = 0;
    bool after = w->abortDone, wake = wakeThrows || rnd( 3 ) == 0;
    long d0 = w->disp[ me ];
    w->getBegin[ me ].v = ++w->clock;
    w->busyWith[ me ].v = 1;
    try
    {
        if ( wake ) w->q->getAndDispatch( [&] { ++woken; check( w->disp[ me ] == d0, "C15", "the wake-up functor is called after dispatch" ); if ( wakeThrows ) { ++w->wakeThrown; throw WakeBoom{}; } } );
        else w->q->getAndDispatch();
    }
    catch ( const Boom & ) { res = 2; }
    catch ( const WakeBoom & ) { res = 3; }
    catch ( const std::runtime_error & ) { res = 1; check( w->abortBegun, "C15 C19", "getAndDispatch fails on a queue that is not aborted" ); }
    w->busyWith[ me ].v = 0;
    long d = long( w->disp[ me ] ) - d0;
    check( d == ( res == 0 || res == 2 ? 1 : 0 ), "C15", "getAndDispatch does not dispatch exactly one message" );
    check( woken == ( wake && res != 1 ? 1 : 0 ), "C15", "the wake-up functor is not called exactly once" );
    check( !( after && res != 1 ), "C19", "getAndDispatch succeeds after abort" );
    check( vs::locks() == 0, "C15 C16 C17", "a lock is still held after getAndDispatch" );
    return res;
}
static void stats( long & last )
{
    auto s = w->q->getRunningStateStatistics();
    check( long( s.size ) == w->n, "C18", "a snapshot shows another size than requested" );
    check( s.runningCount <= s.highWatermark, "C18", "a snapshot shows a running count above the high watermark" );
    check( s.highWatermark <= s.size, "C18", "a snapshot shows a high watermark above the requested size" );
    check( long( s.highWatermark ) >= last, "C18", "the high watermark decreases" );
    last = s.highWatermark;
}
static void idle()
{
    auto s = w->q->getRunningStateStatistics();
    check( long( s.runningCount ) == long( w->enq ), "C18", "the running count is not the number of enqueued messages" );
    check( long( w->resident ) == long( w->enq ), "C16", "a message was neither delivered nor destroyed" );
}
static void blocked( int th )
{
    for ( int i = 1; i <= th; ++i ) if ( !vs::finished( i ) )
    {
        if ( w->abortDone ) { fail( "C19", "a thread is still blocked after abort" ); continue; }
        check( !( w->busyWith[ i ] == 2 && long( w->resident ) < w->n ), "C15 C16", "put blocks although fewer than n messages are outstanding" );
        check( !( w->busyWith[ i ] == 1 && long( w->enq ) > 0 ), "C15", "getAndDispatch blocks although a message is enqueued" );
    }
}
static void order( bool one )
{
    for ( int a = 1; a < w->next; ++a ) for ( int b = 1; b < w->next; ++b )
    {
        M & x = w->m[ a ], & y = w->m[ b ];
        if ( !x.putEnd || x.putEnd > y.putBegin || !y.dispatched ) continue;
        if ( x.dispatched ) check( one ? x.at < y.at : x.getBegin < y.at, "C15", "messages are dispatched in another order than they were enqueued" );
        else if ( !w->wakeThrown ) fail( "C15", "a later message was dispatched and an earlier one was not" );
    }
}
static void final( bool aborted )
{
    long undispatched = 0;
    for ( int a = 1; a < w->next; ++a )
    {
        M & x = w->m[ a ];
        check( x.born == x.died, "C16", "a message was never destroyed" );
        if ( x.accepted && x.putEnd && !x.dispatched ) ++undispatched;
    }
    check( long( w->resident ) == 0, "C16", "a message was never destroyed" );
    if ( !aborted ) check( undispatched == long( w->wakeThrown ) + long( w->purged ), "C15", "an accepted message was not dispatched" );
}
static void purge()
{
    long d = 0;
    for ( auto & x : w->disp ) d += x;
    long e = w->enq;
    w->purging.v = 1;
    w->busyWith[ vs::self() ].v = 3;
    try { w->q->purge(); w->purged += e; check( w->resident == 0, "C15", "purge leaves messages behind" ); }
    catch ( const std::runtime_error & ) { check( w->abortBegun, "C15 C19", "purge fails on a queue that is not aborted" ); }
    w->busyWith[ vs::self() ].v = 0;
    w->purging.v = 0;
    for ( auto & x : w->disp ) d -= x;
    check( d == 0, "C15", "purge dispatches a message" );
}
static void make( long n, size_t e, bool locking )
{
    w->n = n;
    w->locking = locking;
    w->q = new Q{ size_t( n ), e, locking };
    bool threw = false;
    try { auto l = w->q->getAutoDispatchLock(); w->native = (void *)l.native_handle(); check( vs::owner( w->native ) == vs::self(), "C17", "getAutoDispatchLock does not take the lock" ); }
    catch ( const MessageQueueDispatchLockingDisabled & ) { threw = true; }
    check( threw == !locking, "C17", "getAutoDispatchLock: wrong outcome" );
    check( vs::locks() == 0, "C17", "the dispatch lock is still held" );
    check( !strcmp( w->q->getNameOfLastMessageDispatched(), "[NONE]" ), "C19", "the name before the first dispatch is not [NONE]" );
}
static void abortNow() { w->abortBegun.v = 1; w->q->abort(); w->abortDone.v = 1; }
static void destroy( bool aborted ) { w->abortBegun.v = 1; w->dead.v = 1; delete w->q; w->q = nullptr; w->enq.v = 0; final( aborted ); }
// n messages fit, not one more
static void capacity()
{
    long k = 0, need = w->n - long( w->enq );
    int t = vs::go( [&] { for ( ; k <= need; ) { if ( put() ) break; ++k; } } );
    vs::quiet();
    check( k >= need, "C15 C16", "the queue lost capacity: put blocks although fewer than n messages are outstanding" );
    check( k == need, "C15", "more than n messages can be enqueued" );
    long last = w->n;
    get();
    vs::join( t );
    auto s = w->q->getRunningStateStatistics();
    check( long( s.highWatermark ) == w->n && long( s.runningCount ) == w->n, "C18", "the statistics of a full queue are wrong" );
    idle();
}
static int someMode() { static const int md[] = { 0, 0, 0, SLOW, SLOW, DISPATCH_THROWS, CTOR_THROWS, NAME_THROWS }; return md[ rnd( 8 ) ]; }
static void traffic( bool aborts, bool destroys )
{
    World ww;
    w = &ww;
    make( 1 + rnd( 4 ), BIG, rnd( 2 ) );
    int prod = 1 + rnd( 3 ), cons = 1 + rnd( 3 ), th = prod + cons;
    ww.single = cons == 1;
    bool plain = rnd( 2 ), wakes = !plain && rnd( 2 );
    for ( int i = 0; i < prod; ++i ) { int k = 1 + rnd( 8 ); vs::go( [=] { for ( int j = 0; j < k; ++j ) if ( put( plain ? 0 : someMode() ) == 1 ) break; } ); }
    vs::Num toGet( 1000 );
    for ( int i = 0; i < cons; ++i ) vs::go( [=] { for ( int j = 0; j < 40; ++j ) if ( get( wakes && rnd( 5 ) == 0 ) == 1 ) break; } );
    if ( !destroys && rnd( 2 ) ) { ++th; vs::go( [] { long last = 0; for ( int j = 0; j < 10; ++j ) { stats( last ); vs::yield(); } } ); }
    if ( ww.locking && !destroys && rnd( 4 ) )
    {
        ++th;
        vs::go( [] { for ( int j = 0; j < 4; ++j )
        {
            { auto l = w->q->getAutoDispatchLock(); ++w->adl; check( w->inDispatch == 0, "C17", "the dispatch lock is obtained during a dispatch" ); vs::yield(); vs::yield(); auto l2 = std::move( l ); vs::yield(); --w->adl; if ( rnd( 2 ) ) l2.unlock(); }
            check( vs::locks() == 0, "C17", "the dispatch lock is still held" );
            vs::yield();
        } } );
    }
    if ( aborts || destroys )
    {
        for ( int b = rnd( 40 ); b--; ) vs::yield();
        if ( rnd( 3 ) == 0 ) vs::quiet();
        if ( destroys ) { ww.abortBegun.v = 1; ww.dead.v = 1; delete ww.q; ww.q = nullptr; ww.abortDone.v = 1; }
        else abortNow();
        vs::quiet();
        blocked( th );
        if ( !destroys )
        {
            ww.shutdown.v = 1;
            check( put( rnd( 2 ) ? CTOR_THROWS : 0 ) == 1, "C19", "put or emplace does not fail because of the abort" );
            check( get() == 1, "C19", "getAndDispatch succeeds after abort" );
            order( cons == 1 );
            destroy( true );
        }
        else { order( cons == 1 ); final( true ); }
        return;
    }
    vs::quiet();
    blocked( th );
    order( cons == 1 );
    for ( int k = 0; k < 60 && ( ww.busyWith[ 1 ] == 2 || ww.busyWith[ 2 ] == 2 || ww.busyWith[ 3 ] == 2 ); ++k ) { get(); vs::quiet(); blocked( th ); }
    check( vs::owner( ww.native ) == -1, "C17", "the dispatch lock is still held" );
    // consumers that wait are fed
    ww.single = false;
    for ( int k = 0; k < 130; ++k )
    {
        bool waits = false;
        for ( int i = prod + 1; i <= prod + cons; ++i ) waits |= !vs::finished( i );
        if ( !waits ) break;
        put();
        vs::quiet();
        blocked( th );
    }
    while ( ww.enq ) get();
    idle();
    long last = 0;
    stats( last );
    capacity();
    if ( rnd( 2 ) ) { purge(); idle(); capacity(); }
    destroy( true );
}
// one thread and a model
static void sequential()
{
    World ww;
    w = &ww;
    make( 1 + rnd( 5 ), BIG, rnd( 2 ) );
    ww.single = true;
    long high = 0, last = 0;
    std::deque< long > model;
    const char * lastName = "[NONE]";
    auto see = [&] {
        stats( last );
        idle();
        auto s = ww.q->getRunningStateStatistics();
        check( long( s.highWatermark ) == high, "C18", "the high watermark is not the largest running count reached" );
        check( !strcmp( ww.q->getNameOfLastMessageDispatched(), ww.lastName ), "C19", "the name of the last dispatched message is wrong" );
    };
    for ( int j = 0; j < 40 && ww.next < MAX - 30; ++j )
    {
        int op = rnd( 10 );
        long room = ww.n - long( ww.enq );
        if ( op < 5 && room )
        {
            long id = ww.next;
            int md = someMode();
            if ( put( md ) == 0 ) model.push_back( id );
            if ( long( ww.enq ) + ( md & CTOR_THROWS ? 1 : 0 ) > high )
            {
                // whether the count was raised for a message whose constructor threw is not said
                long h = ww.q->getRunningStateStatistics().highWatermark;
                if ( md & CTOR_THROWS ) high = h == high + 1 ? h : high; else high = ww.enq;
            }
        }
        else if ( op < 9 && !model.empty() )
        {
            bool boom = rnd( 5 ) == 0;
            long id = model.front();
            model.pop_front();
            boom = get( boom ) == 3;
            check( ww.m[ id ].died == 1, "C15 C16", "the oldest message was not taken, or not destroyed after its dispatch" );
            check( boom == !ww.m[ id ].dispatched, "C15", "the oldest message was not dispatched" );
        }
        else if ( rnd( 3 ) == 0 ) { purge(); model.clear(); }
        see();
    }
    int how = rnd( 3 );
    if ( how == 0 ) { abortNow(); ww.shutdown.v = 1; for ( int k = 0; k < 3; ++k ) { check( put( rnd( 2 ) ? CTOR_THROWS : 0 ) == 1, "C19", "put or emplace does not fail because of the abort" ); check( get() == 1, "C19", "getAndDispatch succeeds after abort" ); } abortNow(); }
    destroy( true );
}
static void purgeRace()
{
    World ww;
    w = &ww;
    make( 2 + rnd( 4 ), BIG, false );
    long k = 1 + rnd( ww.n );
    for ( long i = 0; i < k; ++i ) put();
    vs::go( [] { purge(); } );
    for ( int b = rnd( 30 ); b--; ) vs::yield();
    if ( rnd( 3 ) ) abortNow();
    vs::quiet();
    blocked( 1 );
    destroy( true );
}
template< class T > static void fits( size_t e )
{
    World ww;
    w = &ww;
    make( 2, e, false );
    size_t padded = ( e + 7 ) / 8 * 8;
    for ( int k = 0; k < 2; ++k )
    {
        bool rejected = false;
        long id = ww.next++;
        try { enqueue< T >( id, 0, k ); accepted( id, false ); } catch ( const MessageQueueElementSizeError & ) { rejected = true; }
        check( rejected == ( sizeof( T ) > padded ), "C15 C10", "a message that does not fit is accepted, or one that fits is rejected" );
        if ( rejected ) { refused( id ); auto s = ww.q->getRunningStateStatistics(); check( s.runningCount == 0 && s.highWatermark == 0, "C15", "a rejected message takes something from the queue" ); }
    }
    destroy( true );
}
static void large( long n )
{
    static std::atomic< long > up;
    static const void * at[ 1 << 17 ];
    up = 0;
    struct Tick : MessageBase { long v; long & c; Tick( long v, long & c ) : v{ v }, c{ c } { ++up; if ( v < 1 << 17 ) at[ v ] = this; } ~Tick() override { --up; } void dispatch() override { check( v == c, "C15", "messages are dispatched in another order than they were enqueued" ); ++c; } };
    Q q{ size_t( n ), sizeof( Tick ) };
    long in = 0, out = 0;
    vs::go( [&] { try { for ( ;; ) { q.emplace< Tick >( in, out ); ++in; } } catch ( const std::runtime_error & ) {} } );
    vs::quiet();
    check( in == n, "C15", "another number of messages than n can be enqueued before put blocks" );
    auto s = q.getRunningStateStatistics();
    check( long( s.runningCount ) == n && long( s.highWatermark ) == n && long( s.size ) == n, "C18", "the statistics of a full queue are wrong" );
    check( up == n + ( up > n ), "C16", "another number of messages is alive than was enqueued" );
    std::sort( at, at + n );
    for ( long i = 1; i < n; ++i ) check( (const char *)at[ i ] - (const char *)at[ i - 1 ] >= long( sizeof( Tick ) ), "C10", "two live messages overlap" );
    for ( long i = 0; i < n / 2 + 1; ++i ) q.getAndDispatch();
    vs::quiet();
    check( in == n + n / 2 + 1 && out == n / 2 + 1, "C15", "another number of messages than n can be enqueued before put blocks" );
    q.abort();
    vs::quiet();
}
static void largePurge( long n )
{
    static long up, ran;
    up = ran = 0;
    struct Tick : MessageBase { Tick() { ++up; } ~Tick() override { --up; } void dispatch() override { ++ran; } };
    Q q{ size_t( n ), sizeof( Tick ) };
    for ( int round = 0; round < 2; ++round )
    {
        for ( long i = 0; i < n; ++i ) q.emplace< Tick >();
        q.purge();
        auto s = q.getRunningStateStatistics();
        check( s.runningCount == 0, "C15 C18", "purge leaves messages behind" );
        check( ran == 0, "C15", "purge dispatches a message" );
        check( up == 0, "C15 C16", "purge does not destroy every message" );
        if ( up ) return;
    }
}
// the constructors of messages with various parameters throw
struct Many : MessageBase
{
    template< class... A > explicit Many( int t, A && ... ) { if ( t ) throw Boom{}; }
    Many( Many && o ) { if ( o.bad ) throw Boom{}; }
    bool bad = false;
    void dispatch() override {}
};
struct Agile : MessageBase { ~Agile() noexcept override = default; Agile( int a, int b ) { if ( a > b ) throw Boom{}; } Agile() { throw Boom{}; } Agile( const Agile & ) {} void dispatch() override {} };
static void throwing()
{
    const int n = 3;
    Q q{ n, BIG, rnd( 2 ) == 0 };
    bool threw = false;
    auto expect = [&]( auto f ) {
        for ( int i = 0; i < n + 1; ++i ) { threw = false; try { f(); } catch ( const Boom & ) { threw = true; } check( threw, "C16", "the exception of a message's constructor is lost" ); }
        auto s = q.getRunningStateStatistics();
        check( s.runningCount == 0 && s.highWatermark <= n, "C18", "a message whose constructor threw is counted" );
    };
    std::string str = "x";
    expect( [&] { q.emplace< Agile >(); } );
    expect( [&] { q.emplace< Agile >( 2, 1 ); } );
    expect( [&] { q.emplace< Many >( 1 ); } );
    expect( [&] { q.emplace< Many >( 1, 2l ); } );
    expect( [&] { q.emplace< Many >( 1, str, &str ); } );
    expect( [&] { q.emplace< Many >( 1, 2, 3, 4 ); } );
    expect( [&] { q.emplace< Many >( 1, 2, std::unique_ptr< int >{}, 4.0, str ); } );
    expect( [&] { q.emplace< Many >( 1, 2, 3, 4, 5, 6, 7, 8 ); } );
    expect( [&] { Many m{ 0 }; m.bad = true; q.put( std::move( m ) ); } );
    for ( int r = 0; r < 2; ++r )
    {
        for ( int i = 0; i < n; ++i ) q.emplace< Many >( 0, i );        // stays blocked if a block was lost
        q.purge();
    }
}
// abort while every message of the queue is in dispatch and another put is blocked
static std::mutex gate;
struct Stay : MessageBase { void dispatch() override { std::lock_guard< std::mutex > g{ gate }; } };
static void abortInDispatch()
{
    long n = 1 + rnd( 3 ), d = 1 + rnd( n );
    Q q{ size_t( n ), sizeof( Stay ) };
    vs::Num out, back;
    for ( long i = 0; i < n; ++i ) q.emplace< Stay >();
    gate.lock();
    for ( long i = 0; i < d; ++i ) vs::go( [&] { try { q.getAndDispatch(); } catch ( const std::runtime_error & ) {} ++back; } );
    vs::quiet();
    int p = 1 + rnd( 2 );
    for ( int i = 0; i < p; ++i ) vs::go( [&] { bool t = false; try { if ( rnd( 2 ) ) q.emplace< Stay >(); else q.put( Stay{} ); } catch ( const std::runtime_error & ) { t = true; } check( t, "C19 C15", "put does not block with n messages outstanding, or succeeds after abort" ); ++out; } );
    vs::quiet();
    check( out == 0, "C15", "put does not block with n messages outstanding" );
    q.abort();
    vs::quiet();
    check( out == p, "C19", "a put that was blocked stays blocked after abort" );
    gate.unlock();
    vs::quiet();
    check( back == d, "C15 C19", "getAndDispatch does not come back" );
}
// locks of two queues moved about
struct Adl { Q::AutoDispatchLock l; int of; bool held; };
static void locks()
{
    World ww;
    w = &ww;
    Q a{ 2, BIG, true }, b{ 2, BIG, true };
    Q * q[] = { &a, &b };
    void * h[ 2 ];
    for ( int i = 0; i < 2; ++i ) { auto l = q[ i ]->getAutoDispatchLock(); h[ i ] = (void *)l.native_handle(); }
    std::vector< std::unique_ptr< Adl > > v;
    bool held[ 2 ] = { false, false };
    auto same = [&]( const char * what ) { for ( int i = 0; i < 2; ++i ) check( vs::held( h[ i ] ) == held[ i ], "C17", what ); };
    for ( int j = 0; j < 40; ++j )
    {
        int op = rnd( 7 ), k = rnd( 2 );
        Adl * x = v.empty() ? nullptr : v[ rnd( v.size() ) ].get(), * y = v.empty() ? nullptr : v[ rnd( v.size() ) ].get();
        if ( op == 0 ) { if ( held[ k ] ) continue; v.emplace_back( new Adl{ q[ k ]->getAutoDispatchLock(), k, true } ); held[ k ] = true; same( "getAutoDispatchLock does not take exactly its lock" ); }
        else if ( !x ) continue;
        else if ( op == 1 ) { if ( x->of >= 0 && x->held ) held[ x->of ] = false; x->held = false; x->l.unlock(); same( "unlock does not release exactly the lock that is held" ); }
        else if ( op == 2 ) { if ( x->of >= 0 && ( x->held || held[ x->of ] ) ) continue; x->l.lock(); if ( x->of >= 0 ) { x->held = true; held[ x->of ] = true; } same( "lock does not take exactly its lock" ); }
        else if ( op == 3 ) { v.emplace_back( new Adl{ std::move( x->l ), x->of, x->held } ); x->of = -1; x->held = false; same( "move construction changes what is locked" ); }
        else if ( op == 4 )
        {
            if ( x != y && x->of >= 0 && x->held ) held[ x->of ] = false;
            x->l = std::move( y->l );
            if ( x != y ) { x->of = y->of; x->held = y->held; y->of = -1; y->held = false; }
            same( "move assignment does not release exactly the lock its target held" );
        }
        else if ( op == 5 ) { size_t i = rnd( v.size() ); if ( v[ i ]->of >= 0 && v[ i ]->held ) held[ v[ i ]->of ] = false; v.erase( v.begin() + i ); same( "destruction does not release exactly the lock that is held" ); }
        else check( (void *)x->l.native_handle() == ( x->of < 0 ? nullptr : h[ x->of ] ), "C17", "native_handle is wrong" );
    }
    v.clear();
    held[ 0 ] = held[ 1 ] = false;
    same( "destruction does not release exactly the lock that is held" );
}
int main( int, char ** v )
{
    vs::prop = v[ 1 ];
    vs::stuckProps = "C15 C16 C17 C19";
    auto is = []( const char * s ) { return strstr( s, vs::prop ) != nullptr; };
    for ( long n : { 1, 2, 3, 5, 100, 1000, 65535, 65536, 70000 } ) if ( is( "C15 C18" ) ) vs::scenario( "size", 1, [n] { large( n ); } );
    for ( size_t e : { 1, 8, 40, 41, 47, 48, 56, 57, 63, 64, 65, 72, 79, 80, 81, 88, 96, 200 } )
        vs::scenario( "message size", 1, [e] { fits< S1 >( e ); fits< S2 >( e ); fits< Multi >( e ); } );
    if ( is( "C10" ) ) for ( long n : { 65535, 70000 } ) vs::scenario( "size", 1, [n] { large( n ); } );
    if ( is( "C15 C16 C18" ) ) for ( long n : { 1, 2, 100, 255, 256, 257, 1000, 65540 } ) vs::scenario( "large purge", 1, [n] { largePurge( n ); } );
    vs::scenario( "constructors that throw", 20, throwing );
    vs::scenario( "abort during dispatch", 100, abortInDispatch );
    if ( is( "C17" ) ) vs::scenario( "dispatch locks", 6000, locks );
    vs::scenario( "sequential", 1500, sequential );
    vs::scenario( "purge and abort", 1500, purgeRace );
    for ( int k = 0; k < 3; ++k )
    {
        vs::scenario( "traffic", 2500, [] { traffic( false, false ); } );
        vs::scenario( "traffic and abort", 4000, [] { traffic( true, false ); } );
        vs::scenario( "traffic and destruction", 2500, [] { traffic( false, true ); } );
    }
    printf( "ok\n" );
}
