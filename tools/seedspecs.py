# planted bugs: source edits and demonstrations (never applied to /repo except to try the checks)
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 @FLAGS@ -w -DREISER_RT_HAS_PTHREADS -I"$here" -Isrc "$here/demo.cpp" src/*.cpp -o "$out/demo" -lpthread
timeout 200 "$out/demo"
'''
COMMON = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <thread>
#include <vector>
#include <string>
#include <stdexcept>
#include <system_error>
#include <pthread.h>
#include <unistd.h>
#include "Mutex.hpp"
#include "Semaphore.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ReiserRT_CoreExceptions.hpp"
using namespace ReiserRT::Core;
static void fail( const char * what ) { printf( "FAIL %s\n", what ); fflush( stdout ); _exit( 1 ); }
static void pass() { printf( "ok\n" ); fflush( stdout ); _exit( 0 ); }
static void ms( int n ) { std::this_thread::sleep_for( std::chrono::milliseconds( n ) ); }
template< class F > static bool within( int millis, F f ) { for ( int i = 0; i < millis; ++i ) { if ( f() ) return true; ms( 1 ); } return f(); }
'''
SEEDS = []
def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

seed("c01-full-check-16bit", "C01",
     [("src/RingBufferSimple.hpp", "if ( ( putCount - getCount ) > numElementsMask )",
       "if ( uint16_t( putCount - getCount ) > numElementsMask )")],
     "a ring of at least 65536 elements that is completely full",
     "put on a full large ring overwrites the oldest element instead of throwing RingBufferOverflow",
     r'''
int main() {
    RingBufferSimple< int > r{ 65536 };
    for ( int i = 0; i < 65536; ++i ) r.put( i );
    try { r.put( -1 ); fail( "put on a full buffer succeeded" ); } catch ( const RingBufferOverflow & ) {}
    for ( int i = 0; i < 65536; ++i ) if ( r.get() != i ) fail( "wrong element" );
    pass();
}''')

seed("c02-narrow-clamp", "C02",
     [("src/RingBufferSimple.hpp", "auto n = CounterType( requestedNumElements < 2 ? 2 : requestedNumElements > maxElements ? maxElements : requestedNumElements );",
       "auto n = CounterType( requestedNumElements );\n            n = n < 2 ? 2 : n > maxElements ? maxElements : n;")],
     "a requested size above 2^32",
     "sizes are truncated to 32 bits before they are clamped",
     r'''
int main() {
    RingBufferSimple< int > r{ ( size_t( 1 ) << 32 ) + 5 };
    if ( r.getSize() != 1048576 ) fail( "size is not the clamped maximum" );
    pass();
}''')

seed("c03-notify-abort-order", "C03",
     [("src/Semaphore.cpp", "if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;",
       "if ( theMaxAvailableCount + 1 < clampedInitialCount ) return clampedInitialCount;")],
     "a maximum that is exactly one below the initial count",
     "the maximum is not raised to the initial count when it is one below it",
     r'''
int main() {
    Semaphore s{ 5, 4 };
    if ( s.getAvailableCount() != 5 ) fail( "initial" );
    s.take();
    std::atomic< bool > done{ false };
    std::thread t{ [&]{ try { s.give(); done = true; } catch ( ... ) {} } };
    bool ok = within( 2000, [&]{ return done.load(); } );
    s.abort();
    t.join();
    if ( !ok ) fail( "give blocks below the maximum" );
    pass();
}''')

seed("c04-foreign-exception-swallowed", "C04",
     [("src/Semaphore.cpp", "        operation();\n        availableCountManager.release();", "        try { operation(); }\n        catch ( const std::exception & ) { throw; }\n        catch ( ... ) {}\n        availableCountManager.release();")],
     "a take functor that throws something not derived from std::exception",
     "the functor's exception is swallowed and the unit is consumed",
     r"""
int main() {
    Semaphore s{ 3 };
    Semaphore::FunctionType f{ []{ throw 1; } };
    bool caught = false;
    try { s.take( f ); } catch ( int ) { caught = true; }
    if ( !caught ) fail( "exception lost" );
    if ( s.getAvailableCount() != 3 ) fail( "unit lost" );
    pass();
}""")

seed("c05-notify-only-on-edge", "C05",
     [("src/Semaphore.cpp", "        // If we have any pending \"givers\", we must notify them.\n        if ( givePendingCount )",
       "        // If we have any pending \"givers\", we must notify them.\n        if ( givePendingCount && availableCount + 1 == maxAvailableCount )")],
     "two givers asleep at the maximum and two takes before the first awakened giver runs",
     "the second giver is never awakened although there is room",
     r'''
int main() {
    for ( int round = 0; round < 20; ++round ) {
        Semaphore s{ 2, 2 };
        std::atomic< int > done{ 0 };
        std::vector< std::thread > ts;
        for ( int i = 0; i < 2; ++i ) ts.emplace_back( [&]{ try { s.give(); ++done; } catch ( ... ) {} } );
        ms( 60 );
        // both takes happen while the lock is held back to back: the functor of the first one lets the second queue up
        std::atomic< bool > in{ false };
        std::thread second{ [&]{ while ( !in ) ; s.take(); } };
        Semaphore::FunctionType f{ [&]{ in = true; ms( 30 ); } };
        s.take( f );
        second.join();
        bool ok = within( 1000, [&]{ return done == 2; } );
        s.abort();
        for ( auto & t : ts ) t.join();
        if ( !ok ) fail( "a giver sleeps although there is room" );
    }
    pass();
}''')

seed("c06-take-before-abort-check", "C06",
     [("src/Semaphore.cpp", "            // If the abort flag is set, throw a SemaphoreAborted exception.\n            if ( abortFlag ) throw SemaphoreAborted{ \"Semaphore::Imple::_take: Semaphore Aborted!\" };\n",
       "            // If the abort flag is set, throw a SemaphoreAborted exception.\n            if ( abortFlag && availableCount == 0 ) throw SemaphoreAborted{ \"Semaphore::Imple::_take: Semaphore Aborted!\" };\n")],
     "an aborted semaphore that still has units",
     "take succeeds after abort",
     r'''
int main() {
    Semaphore s{ 2 };
    s.abort();
    try { s.take(); fail( "take after abort" ); } catch ( const SemaphoreAborted & ) {}
    pass();
}''')

seed("c07-protocol-too-late", "C07",
     [("src/Mutex.cpp", "    pthread_mutex_init( nativeHandle, &attr );\n", ""),
      ("src/Mutex.cpp", "    int protocol;\n", "    pthread_mutex_init( nativeHandle, &attr );\n    int protocol;\n")],
     "looking at the protocol of the native mutex (priority inversion in practice)",
     "the native mutex does not use priority inheritance",
     r'''
int main() {
    Mutex m;
    // glibc keeps the protocol in the mutex kind: 32 = PTHREAD_MUTEX_PRIO_INHERIT_NP
    if ( !( m.native_handle()->__data.__kind & 32 ) ) fail( "no priority inheritance" );
    pass();
}''')

seed("c08-capacity-rounded-up", "C08",
     [("src/RingBufferGuarded.hpp", ", semaphore{ willPrime ? theRequestedNumElements : 0, theRequestedNumElements }",
       ", semaphore{ willPrime ? theRequestedNumElements : 0, Base::getSize() }")],
     "a buffer built for a number of elements that is no power of two, filled beyond that number",
     "put admits as many elements as the ring holds after rounding up instead of blocking at n",
     r'''
int main() {
    RingBufferGuarded< int > r{ 5 };
    for ( int i = 0; i < 5; ++i ) r.put( i );
    std::atomic< bool > done{ false };
    std::thread t{ [&]{ try { r.put( 5 ); done = true; } catch ( ... ) {} } };
    bool early = within( 300, [&]{ return done.load(); } );
    if ( early ) { t.join(); fail( "put does not block with n elements held" ); }
    if ( r.get() != 0 ) fail( "order" );
    if ( !within( 5000, [&]{ return done.load(); } ) ) fail( "put stays blocked" );
    t.join();
    pass();
}''')

seed("c08-capacity-16bit", "C08",
     [("src/RingBufferGuarded.hpp", "theRequestedNumElements : 0, theRequestedNumElements }",
       "theRequestedNumElements : 0, static_cast< uint16_t >( theRequestedNumElements ) }")],
     "a buffer built for 65536 elements or more",
     "the capacity put blocks at is taken modulo 65536",
     r'''
int main() {
    RingBufferGuarded< int > r{ 65540 };
    std::atomic< int > n{ 0 };
    std::thread t{ [&]{ try { for ( int i = 0; i < 65540; ++i ) { r.put( i ); ++n; } } catch ( ... ) {} } };
    bool ok = within( 10000, [&]{ return n == 65540; } );
    r.abort();
    t.join();
    if ( !ok ) fail( "put blocks below the capacity" );
    pass();
}''')

seed("c09-prime-resurrects", "C09",
     [("src/RingBufferGuarded.hpp", "                do\n                {   // If the current state transitions to Terminal, then we will not go \"Ready\".\n                    if ( currentState == State::Terminal ) return;\n                } while",
       "                if ( currentState == State::Terminal ) return;\n                do\n                {   // If the current state transitions to Terminal, then we will not go \"Ready\".\n                    if ( currentState == State::Ready ) return;\n                } while")],
     "an abort that falls between prime's last look at the state and its compare-and-exchange",
     "prime turns an aborted buffer back into a ready one",
     r'''
int main() {
    // the abort is timed to hit the end of prime in many rounds
    std::atomic< unsigned long > round{ 0 }, finished{ 0 };
    std::atomic< RingBufferGuarded< int > * > cur{ nullptr };
    std::atomic< bool > stop{ false };
    unsigned delay = 0;
    std::thread t{ [&]{
        unsigned long mine = 0;
        while ( !stop ) {
            if ( round.load( std::memory_order_acquire ) == mine ) continue;
            ++mine;
            for ( volatile unsigned i = 0; i < ( mine * 7 ) % 40; ++i ) {}
            cur.load()->abort();
            finished.store( mine );
        }
    } };
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds( 110 );
    bool bad = false;
    for ( unsigned long n = 1; !bad && std::chrono::steady_clock::now() < end && n < 12000000; ++n ) {
        RingBufferGuarded< int > r{ 1, true };
        cur = &r;
        try { r.prime( [&]( size_t ) { round.store( n, std::memory_order_release ); for ( volatile unsigned i = 0; i < ( n / 40 ) % 200; ++i ) {} return 7; } ); } catch ( ... ) {}
        while ( finished.load() != n ) {}
        // aborted for good: get and put must not see a ready buffer, flush must work
        try { r.flush( []( int ) {} ); } catch ( const RingBufferStateError & ) { bad = true; }
    }
    stop = true;
    t.join();
    if ( bad ) fail( "an aborted buffer became ready again" );
    pass();
}''', flags="-O0")

seed("c09-flush-newest-count", "C09",
     [("src/RingBufferGuarded.hpp", "                const size_t count = semaphore.getAvailableCount();\n                for ( size_t i = 0; count != i; ++i )",
       "                const uint16_t count = semaphore.getAvailableCount();\n                for ( size_t i = 0; count != i; ++i )")],
     "65536 or more elements held when the buffer is flushed",
     "flush hands out only the number of elements modulo 65536",
     r'''
int main() {
    RingBufferGuarded< int > r{ 70000 };
    for ( int i = 0; i < 70000; ++i ) r.put( i );
    r.abort();
    int n = 0;
    r.flush( [&]( int v ) { if ( v != n ) fail( "order" ); ++n; } );
    if ( n != 70000 ) fail( "elements not flushed" );
    pass();
}''')

seed("c10-zero-unpadded", "C10",
     [("src/MemoryPoolBase.cpp", "memset(pRaw, 0, paddedElementSize);", "memset(pRaw, 0, elementSize);")],
     "an element size that is no multiple of the pointer size, a recycled block, and a type that uses the padding",
     "the padding of a recycled block keeps old contents, which a type larger than the element size but not than the padded one sees",
     r'''
#include "ObjectPool.hpp"
#include <cstring>
struct B { virtual ~B() {} unsigned char c; };
struct D : B { unsigned char d[ 15 ]; D() noexcept { } };   // deliberately does not initialise d
int main() {
    ObjectPool< B > p{ 2, 21 };     // padded to 24
    static_assert( sizeof( D ) == 24, "layout" );
    for ( int i = 0; i < 40; ++i ) {
        auto o = p.createObj< D >();
        D * d = static_cast< D * >( o.get() );
        volatile unsigned char * raw = reinterpret_cast< volatile unsigned char * >( d );
        for ( size_t k = 8; k < 24; ++k ) if ( raw[ k ] != 0 ) fail( "block was not zero-filled" );
        for ( size_t k = 8; k < 24; ++k ) raw[ k ] = 0xA5;
    }
    pass();
}''', flags="-O0")

seed("c10-prime-index-16bit", "C10",
     [("src/MessageQueueBase.cpp", "    auto funk = [ this ]( size_t i )", "    auto funk = [ this ]( uint16_t i )")],
     "a queue built for more than 65536 messages that holds more than 65536 of them",
     "blocks beyond number 65535 overlap earlier ones",
     r'''
#include "MessageQueue.hpp"
static long next;
struct M : MessageBase { long id; explicit M( long i ) : id{ i } {} void dispatch() override { if ( id != next++ ) fail( "a live message was overwritten" ); } };
int main() {
    MessageQueue q{ 65540, sizeof( M ) };
    for ( long i = 0; i < 65540; ++i ) q.emplace< M >( i );
    for ( long i = 0; i < 65540; ++i ) q.getAndDispatch();
    pass();
}''')

seed("c11-try-lock", "C11",
     [("src/MemoryPoolBase.cpp", "            std::lock_guard<Mutex> lock(mutex);", "            std::unique_lock<Mutex> lock(mutex, std::try_to_lock);")],
     "two threads requesting or returning blocks at the same time",
     "a contended request goes on without the lock, so a block can be handed to two callers or lost",
     r'''
#include "ObjectPool.hpp"
struct O { std::atomic< int > * flag; O() : flag{ nullptr } {} };
int main() {
    ObjectPool< O > p{ 64 };
    std::atomic< bool > bad{ false }, stop{ false };
    std::vector< std::thread > ts;
    for ( int t = 0; t < 6; ++t ) ts.emplace_back( [&, t]{
        while ( !stop && !bad ) try {
            auto a = p.createObj< O >();
            a->flag = reinterpret_cast< std::atomic< int > * >( size_t( t + 1 ) );
            for ( volatile int k = 0; k < 20; ++k ) {}
            if ( a->flag != reinterpret_cast< std::atomic< int > * >( size_t( t + 1 ) ) ) bad = true;
        } catch ( ... ) { bad = true; }
    } );
    within( 15000, [&]{ return bad.load(); } );
    stop = true;
    for ( auto & t : ts ) t.join();
    if ( bad ) fail( "a block was handed to two callers, or a request failed with blocks free" );
    pass();
}''')

seed("c12-low-starts-at-request", "C12",
     [("src/MemoryPoolBase.cpp", "        runningStats.counts.lowWatermark = runningStats.counts.runningCount = CounterType( poolSize );",
       "        runningStats.counts.runningCount = CounterType( poolSize );\n        runningStats.counts.lowWatermark = CounterType( requestedNumElements < poolSize ? requestedNumElements : poolSize );")],
     "a requested number of elements that is no power of two",
     "the low watermark starts at the request instead of at the number of free blocks",
     r'''
#include "ObjectPool.hpp"
struct O { long a; };
int main() {
    ObjectPool< O > p{ 5 };
    auto a = p.createObj< O >();
    auto s = p.getRunningStateStatistics();
    if ( s.runningCount != 7 || s.lowWatermark != 7 ) fail( "statistics" );
    pass();
}''')

seed("c12-weak-retry", "C12",
     [("src/MemoryPoolBase.cpp", "        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,\n                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));",
       "        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,\n                                                     std::memory_order_seq_cst, std::memory_order_seq_cst)\n                 && runningStats.counts.lowWatermark >= runningStatsNew.counts.runningCount);")],
     "two threads updating the running state at the same time, away from the low watermark",
     "a request whose update collided with another thread's is not counted",
     r'''
#include "ObjectPool.hpp"
struct O { long a; };
int main() {
    ObjectPool< O > p{ 1024 };
    { std::vector< ObjectPoolPtrType< O > > v; for ( int i = 0; i < 1000; ++i ) v.push_back( p.createObj< O >() ); }
    std::vector< std::thread > ts;
    for ( int t = 0; t < 6; ++t ) ts.emplace_back( [&]{ for ( int i = 0; i < 400000; ++i ) { auto a = p.createObj< O >(); } } );
    for ( auto & t : ts ) t.join();
    auto s = p.getRunningStateStatistics();
    if ( s.runningCount != 1024 ) fail( "running count differs from the number of free blocks" );
    pass();
}''')

seed("c13-check-after-take", "C13",
     [("src/ObjectPool.hpp", "                if ( getPaddedElementSize() < sizeof( D ) )", "                auto pRaw =  getRawBlock();\n                if ( getPaddedElementSize() < sizeof( D ) )"),
      ("src/ObjectPool.hpp", "                auto pRaw =  getRawBlock();\n\n", "")],
     "createObj for an oversized type",
     "the block is taken before the size check and is lost when the check throws",
     r'''
#include "ObjectPool.hpp"
struct B { virtual ~B() {} };
struct D : B { char c[ 100 ]; };
int main() {
    ObjectPool< B > p{ 4, 16 };
    for ( int i = 0; i < 20; ++i ) {
        try { auto o = p.createObj< D >(); fail( "oversized type accepted" ); }
        catch ( const ObjectPoolElementSizeError & ) {}
        catch ( const RingBufferUnderflow & ) { fail( "a rejected request took a block" ); }
    }
    if ( p.getRunningStateStatistics().runningCount != 4 ) fail( "a rejected request took a block" );
    pass();
}''')

seed("c14-empty-elements", "C14",
     [("src/BlockPoolDeleter.hpp", "if ( !std::is_scalar< T >::value )", "if ( !std::is_scalar< T >::value && !std::is_empty< T >::value )")],
     "a block of elements whose class has no data members but a destructor with an effect",
     "elements of an empty class are never destroyed",
     r'''
#include "BlockPool.hpp"
static long live;
struct E { E() { ++live; } ~E() { --live; } };
int main() {
    BlockPool< E > p{ 2, 7 };
    { auto b = p.getBlock(); if ( live != 7 ) fail( "constructed" ); }
    if ( live ) fail( "elements not destroyed" );
    pass();
}''')

seed("c14-count-16bit", "C14",
     [("src/BlockPoolDeleter.hpp", "size_t nElements = getElementSize() / sizeof( T );", "unsigned short nElements = getElementSize() / sizeof( T );"),
      ("src/BlockPoolDeleter.hpp", "for ( size_t i = 0; nElements != i; ++i, ++_pT )", "for ( unsigned short i = 0; nElements != i; ++i, ++_pT )")],
     "blocks of 65536 elements or more",
     "only the number of elements modulo 65536 is destroyed",
     r'''
#include "BlockPool.hpp"
static long live;
struct E { char c; E() noexcept { ++live; } ~E() { --live; } };
int main() {
    BlockPool< E > p{ 2, 70000 };
    { auto b = p.getBlock(); if ( live != 70000 ) fail( "constructed" ); }
    if ( live ) fail( "elements not destroyed" );
    pass();
}''')

seed("c15-purge-recount", "C15",
     [("src/MessageQueue.cpp", "for ( ; 0 != runningState.runningCount; --runningState.runningCount )",
       "for ( uint16_t n = runningState.runningCount; 0 != n; --n )")],
     "a purge of 65536 messages or more",
     "purge removes only the number of messages modulo 65536",
     r'''
#include "MessageQueue.hpp"
static int live;
struct M : MessageBase { M() { ++live; } M( M && ) { ++live; } ~M() { --live; } void dispatch() override {} };
int main() {
    MessageQueue q{ 65540, sizeof( M ) };
    for ( int i = 0; i < 65540; ++i ) q.emplace< M >();
    q.purge();
    if ( live || q.getRunningStateStatistics().runningCount ) fail( "purge left messages behind" );
    pass();
}''')

seed("c15-cooked-half", "C15",
     [("src/MessageQueueBase.cpp", ", cookedRingBuffer{ theRequestedNumElements }", ", cookedRingBuffer{ theRequestedNumElements > 4096 ? 4096 : theRequestedNumElements }")],
     "a queue built for more than 4096 messages that holds more than 4096 of them",
     "put blocks although fewer than n messages are outstanding",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { void dispatch() override {} };
int main() {
    MessageQueue q{ 5000, sizeof( M ) };
    std::atomic< int > n{ 0 };
    std::thread t{ [&]{ try { for ( int i = 0; i < 5000; ++i ) { q.emplace< M >(); ++n; } } catch ( ... ) {} } };
    bool ok = within( 10000, [&]{ return n == 5000; } );
    q.abort();
    t.join();
    if ( !ok ) fail( "put blocks below the capacity" );
    pass();
}''')

seed("c16-emplace-leak", "C16",
     [("src/MessageQueue.hpp", "                M * pM = new( pRaw )M{ std::forward<Args>(args)... };", "                if ( std::is_nothrow_destructible< M >::value && sizeof...( Args ) > 3 ) rawMemoryManager.release();\n                M * pM = new( pRaw )M{ std::forward<Args>(args)... };")],
     "emplace with four or more arguments whose constructor throws",
     "the storage of a message whose constructor threw is lost",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { M( int, int, int, int ) { throw 1; } M( M && ) = default; void dispatch() override {} };
int main() {
    MessageQueue q{ 2, sizeof( M ) };
    std::atomic< int > n{ 0 };
    std::thread t{ [&]{ for ( int i = 0; i < 10; ++i ) try { q.emplace< M >( 1, 2, 3, 4 ); } catch ( int ) { ++n; } catch ( ... ) { return; } } };
    bool ok = within( 3000, [&]{ return n == 10; } );
    q.abort();
    t.join();
    if ( !ok ) fail( "capacity lost" );
    pass();
}''')

seed("c16-wakeup-throw", "C16",
     [("src/MessageQueue.cpp", "    CookedMemoryManager cookedMemoryManager{ this, pM };\n\n    wakeupFunctor();\n", "    wakeupFunctor();\n\n    CookedMemoryManager cookedMemoryManager{ this, pM };\n")],
     "a wake-up functor that throws",
     "the message is neither destroyed nor its storage returned",
     r'''
#include "MessageQueue.hpp"
static int live;
struct M : MessageBase { M() { ++live; } M( M && ) { ++live; } ~M() { --live; } void dispatch() override {} };
int main() {
    MessageQueue q{ 1, sizeof( M ) };
    q.emplace< M >();
    MessageQueue::WakeupCallFunctionType f{ []{ throw 1; } };
    try { q.getAndDispatch( f ); fail( "exception lost" ); } catch ( int ) {}
    if ( live ) fail( "message not destroyed" );
    if ( q.getRunningStateStatistics().runningCount ) fail( "storage not returned" );
    pass();
}''')

seed("c17-moved-from-active", "C17",
     [("src/MessageQueueBase.hpp", "AutoDispatchLock( AutoDispatchLock && another ) noexcept : pMQB{ another.pMQB }, locked{ another.locked }\n                {\n                    another.pMQB = nullptr;\n", "AutoDispatchLock( AutoDispatchLock && another ) noexcept : pMQB{ another.pMQB }, locked{ another.locked }\n                {\n")],
     "an operation on a moved-from lock object",
     "a moved-from lock still locks and unlocks the queue",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { void dispatch() override {} };
int main() {
    MessageQueue q{ 1, sizeof( M ), true };
    auto a = q.getAutoDispatchLock();
    auto b = std::move( a );
    if ( a.native_handle() ) fail( "a moved-from lock still refers to the queue" );
    b.unlock();
    a.lock();       // must do nothing
    auto * m = static_cast< pthread_mutex_t * >( b.native_handle() );
    if ( pthread_mutex_trylock( m ) != 0 ) fail( "a moved-from lock locked the queue" );
    pthread_mutex_unlock( m );
    pass();
}''')

seed("c17-no-raii", "C17",
     [("src/MessageQueueBase.cpp", "        std::lock_guard< Mutex > lockGuard{ *pMutex };\n        pMsg->dispatch();\n", "        pMutex->lock();\n        try { pMsg->dispatch(); } catch ( const std::exception & ) { pMutex->unlock(); throw; }\n        pMutex->unlock();\n")],
     "a dispatch that throws something not derived from std::exception, with dispatch locking",
     "the dispatch lock stays locked after dispatch threw",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { void dispatch() override { throw 1; } };
int main() {
    MessageQueue q{ 1, sizeof( M ), true };
    q.emplace< M >();
    try { q.getAndDispatch(); fail( "exception lost" ); } catch ( int ) {}
    std::atomic< bool > done{ false };
    std::thread t{ [&]{ auto l = q.getAutoDispatchLock(); done = true; } };
    if ( !within( 2000, [&]{ return done.load(); } ) ) fail( "the dispatch lock is still held" );
    t.join();
    pass();
}''')

seed("c18-two-loads", "C18",
     [("src/MessageQueueBase.cpp", "    snapshot.runningCount = stats.counts.runningCount;\n    snapshot.highWatermark", "    InternalRunningStateStats now;\n    now.state = runningState;\n    snapshot.runningCount = now.counts.runningCount;\n    snapshot.highWatermark")],
     "a snapshot taken while another thread raises the high watermark",
     "the running count and the high watermark of one snapshot are read at different moments",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { void dispatch() override {} };
int main() {
    for ( int round = 0; round < 40; ++round ) {
        MessageQueue q{ 200000, sizeof( M ) };
        std::atomic< bool > stop{ false };
        std::thread t{ [&]{ try { for ( int i = 0; i < 200000; ++i ) q.emplace< M >(); } catch ( ... ) {} stop = true; } };
        bool bad = false;
        while ( !stop && !bad ) { auto s = q.getRunningStateStatistics(); bad = s.runningCount > s.highWatermark; }
        t.join();
        if ( bad ) fail( "running count above the high watermark" );
        q.purge();
    }
    pass();
}''')

seed("c18-watermark-before-purge", "C18",
     [("src/MessageQueueBase.cpp", "        if ( ++runningStatsNew.counts.runningCount > runningStats.counts.highWatermark )\n            runningStatsNew.counts.highWatermark = runningStatsNew.counts.runningCount;",
       "        if ( ++runningStatsNew.counts.runningCount > runningStats.counts.highWatermark )\n            ++runningStatsNew.counts.highWatermark;\n        else if ( runningStatsNew.counts.runningCount == 1 && runningStats.counts.highWatermark == requestedNumElements )\n            runningStatsNew.counts.highWatermark = 1;")],
     "a queue that was completely full once and is empty again when the next message arrives",
     "the high watermark is reset",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { void dispatch() override {} };
int main() {
    MessageQueue q{ 3, sizeof( M ) };
    for ( int i = 0; i < 3; ++i ) q.emplace< M >();
    for ( int i = 0; i < 3; ++i ) q.getAndDispatch();
    q.emplace< M >();
    if ( q.getRunningStateStatistics().highWatermark != 3 ) fail( "the high watermark decreased" );
    pass();
}''')

seed("c19-name-after-dispatch", "C19",
     [("src/MessageQueueBase.cpp", "    nameOfLastMessageDispatched.store( pMsg->name() );\n    if ( pMutex )", "    struct Note { std::atomic< const char * > & n; const char * s; ~Note() { n.store( s ); } } note{ nameOfLastMessageDispatched, pMsg->name() };\n    if ( pMutex )")],
     "a look at the name while the message is being dispatched",
     "the name is that of an earlier message while a message is dispatched",
     r'''
#include "MessageQueue.hpp"
#include <cstring>
static MessageQueue * mq;
static bool bad;
struct M : MessageBase { void dispatch() override { bad = strcmp( mq->getNameOfLastMessageDispatched(), "M" ) != 0; } const char * name() const override { return "M"; } };
int main() {
    MessageQueue q{ 3, sizeof( M ) };
    mq = &q;
    q.emplace< M >();
    q.getAndDispatch();
    if ( bad ) fail( "name during dispatch" );
    pass();
}''')

seed("c19-abort-skips-raw", "C19",
     [("src/MessageQueueBase.cpp", "        cookedRingBuffer.abort();\n        rawRingBuffer.abort();", "        cookedRingBuffer.abort();\n        InternalRunningStateStats stats;\n        stats.state = runningState;\n        if ( stats.counts.runningCount >= stats.counts.highWatermark ) rawRingBuffer.abort();")],
     "an abort while the running count is below its high watermark",
     "abort leaves the free-block side running, so a later emplace still constructs its message and fails with whatever that throws",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { void dispatch() override { throw 2; } };
struct T : MessageBase { T() {} T( int ) { throw 5; } T( T && ) {} void dispatch() override {} };
int main() {
    MessageQueue q{ 2, sizeof( M ) };
    q.emplace< T >(); q.emplace< T >();
    q.getAndDispatch();
    q.abort();
    // after abort nothing is constructed on a block any more: put must fail with a runtime_error, not with the constructor's exception
    for ( int i = 0; i < 3; ++i )
        try { q.emplace< T >( 1 ); fail( "emplace succeeded after abort" ); }
        catch ( const std::runtime_error & ) {}
        catch ( int ) { fail( "emplace after abort went on to construct a message" ); }
    pass();
}''')

seed("c01-wrap-compare", "C01",
     [("src/RingBufferSimple.hpp", ": getCount{ CounterType( ~0 ) }", ": getCount{ 0 }"),
      ("src/RingBufferSimple.hpp", ", putCount{ CounterType( ~0 ) }", ", putCount{ 0 }"),
      ("src/RingBufferSimple.hpp", "if ( ( putCount - getCount ) > numElementsMask )", "if ( putCount >= getCount + numElements )")],
     "2^32 operations on one buffer; the two sites (counters that start at zero, a comparison that does not wrap) look fine alone",
     "put on a buffer that is not full throws RingBufferOverflow once the counters have wrapped",
     r'''
int main() {
    RingBufferSimple< unsigned > r{ 4 };
    for ( unsigned long i = 0; i != ( 1ul << 32 ) + 100; ++i )
    {
        try { r.put( unsigned( i ) ); } catch ( const RingBufferOverflow & ) { fail( "put on an empty buffer throws RingBufferOverflow" ); }
        if ( r.get() != unsigned( i ) ) fail( "wrong element" );
    }
    pass();
}''', flags="-O2")

seed("c02-storage-unrounded", "C02",
     [("src/RingBufferSimple.hpp", ", pElementBuf{ new ScalarType[ numElements ] }",
       ", pElementBuf{ new ScalarType[ requestedNumElements > maxElements ? numElements : ( requestedNumElements + 4095 ) & ~size_t( 4095 ) ] }")],
     "a requested number of elements above 8192 that is no power of two",
     "the buffer reports a size its storage does not have",
     r'''
int main() {
    RingBufferSimple< long > r{ 9000 };
    if ( r.getSize() != 16384 ) fail( "size" );
    for ( long i = 0; i < 16384; ++i ) r.put( i );   // the address sanitizer sees a write beyond the storage
    for ( long i = 0; i < 16384; ++i ) if ( r.get() != i ) fail( "wrong element" );
    pass();
}''', flags="-O1 -g -fsanitize=address")

seed("c03-overflow-blocks", "C03",
     [("src/Semaphore.cpp", "if ( std::numeric_limits< AvailableCountType >::max() == availableCount )",
       "if ( std::numeric_limits< AvailableCountType >::max() == availableCount && maxAvailableCount < availableCount )")],
     "a give at an available count of 2^32-1",
     "give blocks instead of throwing SemaphoreOverflow",
     r'''
int main() {
    auto * s = new Semaphore{ size_t( 0xFFFFFFFFu ) };
    std::atomic< int > res{ 0 };
    std::thread t{ [&] { try { s->give(); res = 1; } catch ( const SemaphoreOverflow & ) { res = 2; } catch ( ... ) { res = 3; } } };
    within( 5000, [&] { return res != 0; } );
    if ( res != 2 ) fail( "give at 2^32-1 does not throw SemaphoreOverflow" );
    t.join();
    if ( s->getAvailableCount() != 0xFFFFFFFFu ) fail( "count" );
    pass();
}''')

seed("c04-undo-outside-lock", "C04",
     [("src/Semaphore.cpp", "        operation();\n        availableCountManager.release();", "        try { operation(); } catch ( ... ) { lock.unlock(); throw; }\n        availableCountManager.release();")],
     "a take functor that throws while other threads take or give",
     "the count is restored after the lock was released, so it races with other threads and drifts",
     r'''
int main() {
    Semaphore s{ 8 };
    std::vector< std::thread > v;
    for ( int k = 0; k < 4; ++k )
        v.emplace_back( [&, k] {
            for ( int i = 0; i < 300000; ++i )
                if ( k & 1 ) { s.take(); s.give(); }
                else try { s.take( [] { throw 1; } ); } catch ( int ) {}
        } );
    for ( auto & t : v ) t.join();
    if ( s.getAvailableCount() != 8 ) fail( "the count drifts" );
    pass();
}''', flags="-O2")

seed("c05-pending-8bit", "C05",
     [("src/Semaphore.cpp", "using PendingCountType = uint16_t;", "using PendingCountType = uint8_t;")],
     "a multiple of 256 threads blocked in give",
     "the takes do not see the waiting givers and awaken none of them",
     r'''
int main() {
    auto * s = new Semaphore{ 1, 1 };
    std::atomic< int > in{ 0 }, done{ 0 };
    for ( int i = 0; i < 256; ++i ) std::thread( [&] { ++in; s->give(); ++done; } ).detach();
    if ( !within( 20000, [&] { return in == 256; } ) ) fail( "threads do not start" );
    ms( 1500 );
    s->take();
    if ( !within( 10000, [&] { return done == 1; } ) ) fail( "there is room and 256 givers sleep" );
    pass();
}''')

seed("c06-abort-else", "C06",
     [("src/Semaphore.cpp", "        if ( takePendingCount )\n#ifdef", "        else if ( takePendingCount )\n#ifdef")],
     "an abort while both a giver (awakened, but not yet running again) and a taker are counted as waiting",
     "a thread blocked in take is not awakened by abort",
     r'''
int main() {
    for ( int round = 0; round < 20; ++round )
    {
        auto * s = new Semaphore{ 1, 1 };
        std::atomic< int > inOp{ 0 }, takerOut{ 0 }, started{ 0 };
        std::thread giver{ [&] { try { s->give(); } catch ( const SemaphoreAborted & ) {} } };
        ms( 60 );                                       // the giver sleeps: the semaphore is at its maximum
        std::thread holder{ [&] { s->take( [&] { inOp = 1; while ( started < 3 ) ms( 1 ); } ); } };
        while ( !inOp ) ms( 1 );                        // the internal lock is held, the count is 0
        std::thread taker{ [&] { ++started; try { for (;;) s->take(); } catch ( const SemaphoreAborted & ) {} takerOut = 1; } };
        ms( 30 );                                       // the taker queues for the lock
        std::thread aborter{ [&] { ++started; s->abort(); } };
        ms( 30 );                                       // and the aborter behind it
        ++started;                                      // the holder signals the giver, which queues last
        holder.join(); aborter.join();
        if ( !within( 3000, [&] { return takerOut != 0; } ) ) fail( "a blocked take outlives abort" );
        taker.join(); giver.join();
        delete s;
    }
    pass();
}''')

seed("c07-trylock-any-error", "C07",
     [("src/Mutex.cpp", "if ( e != 0 && e != EBUSY ) throw", "if ( e != 0 && e != EBUSY && e != EAGAIN ) throw")],
     "a native mutex whose try-lock fails for another reason than being busy",
     "try_lock returns false for errors other than busy",
     r'''
#include <cerrno>
#include <dlfcn.h>
static int inject = 0;
extern "C" int pthread_mutex_trylock( pthread_mutex_t * m )
{
    if ( inject ) return inject;
    static auto real = (int (*)( pthread_mutex_t * ))dlsym( RTLD_NEXT, "pthread_mutex_trylock" );
    return real( m );
}
int main() {
    Mutex m;
    for ( int e : { EINVAL, EOWNERDEAD, EAGAIN } )
    {
        inject = e;
        bool threw = false, r = true;
        try { r = m.try_lock(); } catch ( const std::system_error & x ) { threw = x.code().value() == e; }
        inject = 0;
        if ( !threw ) fail( "try_lock hides an error" );
    }
    if ( !m.try_lock() ) fail( "try_lock of a free mutex" );
    m.unlock();
    pass();
}''', flags="-O1 -D_GNU_SOURCE")

seed("c10-queue-arena-unpadded", "C10",
     [("src/MessageQueueBase.cpp", ", arena{ new unsigned char [ elementSize * requestedNumElements ] }",
       ", arena{ new unsigned char [ theElementSize * theRequestedNumElements ] }")],
     "a maximum message size that is no multiple of the pointer size, and a queue that fills up",
     "the last blocks lie outside the memory of the queue",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { int a; M( int i ) : a{ i } {} M( M && ) = default; void dispatch() override {} };
int main() {
    MessageQueue q{ 64, 12 + 1 };
    for ( int i = 0; i < 64; ++i ) q.emplace< M >( i );   // the address sanitizer sees a write beyond the arena
    for ( int i = 0; i < 64; ++i ) q.getAndDispatch();
    pass();
}''', flags="-O1 -g -fsanitize=address")

seed("c13-deleter-bound-once", "C13",
     [("src/MemoryPoolDeleterBase.hpp", "MemoryPoolDeleterBase & operator =( MemoryPoolDeleterBase && another ) = default;",
       "MemoryPoolDeleterBase & operator =( MemoryPoolDeleterBase && another ) noexcept { if ( !pool ) pool = another.pool; return *this; }")],
     "a pointer of one pool that is move-assigned to a pointer that already held an object of another pool",
     "the block is returned to the wrong pool",
     r'''
#include "ObjectPool.hpp"
struct T { long a[ 4 ]; };
int main() {
    ObjectPool< T > p{ 4 }, q{ 4 };
    {
        auto a = p.createObj< T >();
        auto b = q.createObj< T >();
        a = std::move( b );
        if ( p.getRunningStateStatistics().runningCount != 4 || q.getRunningStateStatistics().runningCount != 3 ) fail( "wrong counts after the move" );
    }
    if ( p.getRunningStateStatistics().runningCount != 4 ) fail( "a block went to the wrong pool" );
    if ( q.getRunningStateStatistics().runningCount != 4 ) fail( "a block did not come back to its pool" );
    pass();
}''')

seed("c15-size-check-late", "C15",
     [("src/MessageQueue.hpp", '''                if ( getElementSize() < sizeof( M ) )
                    throw MessageQueueElementSizeError( "MessageQueue::emplace: The size of type M exceeds maximum element size" );
''', ""),
      ("src/MessageQueue.hpp", '''                // Cook raw memory
                M * pM = new( pRaw )M{ std::forward<Args>(args)... };''',
       '''                if ( getElementSize() < sizeof( M ) )
                    throw MessageQueueElementSizeError( "MessageQueue::emplace: The size of type M exceeds maximum element size" );
                M * pM = new( pRaw )M{ std::forward<Args>(args)... };''')],
     "an oversized message emplaced on a full queue",
     "emplace of an oversized message blocks on a full queue, and counts it as a message, instead of rejecting it first",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { int a; M( int i ) : a{ i } {} M( M && ) = default; void dispatch() override {} };
struct Big : MessageBase { int a[ 100 ]; Big( int i ) { a[ 0 ] = i; } Big( Big && ) = default; void dispatch() override {} };
int main() {
    auto * q = new MessageQueue{ 2, sizeof( M ) };
    q->emplace< M >( 1 ); q->emplace< M >( 2 );
    std::atomic< int > res{ 0 };
    std::thread t{ [&] { try { q->emplace< Big >( 3 ); res = 1; } catch ( const MessageQueueElementSizeError & ) { res = 2; } catch ( ... ) { res = 3; } } };
    within( 5000, [&] { return res != 0; } );
    if ( res != 2 ) fail( "an oversized message is not rejected at once" );
    t.join();
    pass();
}''')

seed("c17-relock-forgotten", "C17",
     [("src/MessageQueueBase.cpp", "        pMQB->pImple->pMutex->lock();\n        locked = 1;", "        pMQB->pImple->pMutex->lock();")],
     "an AutoDispatchLock that is unlocked, locked again and then destroyed",
     "the dispatch lock is never released",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { int a; M( int i ) : a{ i } {} M( M && ) = default; void dispatch() override {} };
int main() {
    auto * q = new MessageQueue{ 4, sizeof( M ), true };
    { auto l = q->getAutoDispatchLock(); l.unlock(); l.lock(); }
    q->emplace< M >( 1 );
    std::atomic< int > done{ 0 };
    std::thread t{ [&] { q->getAndDispatch(); done = 1; } };
    if ( !within( 5000, [&] { return done != 0; } ) ) fail( "the dispatch lock is still held" );
    t.join();
    pass();
}''')

seed("c18-size-rounded", "C18",
     [("src/MessageQueueBase.cpp", "snapshot.size = requestedNumElements;", "snapshot.size = rawRingBuffer.getSize();")],
     "a requested number of messages that is no power of two",
     "a snapshot shows a size other than the requested one",
     r'''
#include "MessageQueue.hpp"
int main() {
    for ( size_t n : { 1, 3, 5, 1000 } )
    {
        MessageQueue q{ n, 64 };
        if ( q.getRunningStateStatistics().size != n ) fail( "the size is not the requested one" );
    }
    pass();
}''')

seed("c18-stale-retry", "C18",
     [("src/MessageQueueBase.cpp", '''    do
    {
        // Clone atomically captured state,
        // We will be decrementing the running count and not touching the high watermark.
        runningStatsNew.state = runningStats.state;
        --''', '''    runningStatsNew.state = runningStats.state;
    do
    {
        // We will be decrementing the running count and not touching the high watermark.
        --''')],
     "two threads updating the running state at the same time",
     "an update that collided with another thread's is retried from a stale copy, so the count drifts",
     r'''
#include "MessageQueue.hpp"
struct M : MessageBase { int a; M( int i ) : a{ i } {} M( M && ) = default; void dispatch() override {} };
int main() {
    auto * q = new MessageQueue{ 1 << 16, sizeof( M ) };
    for ( int round = 0; round < 40; ++round )
    {
        std::vector< std::thread > v;
        for ( int k = 0; k < 6; ++k ) v.emplace_back( [=] { for ( int i = 0; i < 10000; ++i ) if ( k & 1 ) q->emplace< M >( i ); else q->getAndDispatch(); } );
        for ( auto & t : v ) t.join();
        auto s = q->getRunningStateStatistics();
        if ( s.runningCount != 0 || s.highWatermark > ( 1 << 16 ) ) fail( "the running count drifts" );
    }
    pass();
}''', flags="-O2")

seed("c16-no-cleanup-after-abort", "C16",
     [("src/MessageQueueBase.hpp", "                    if ( pMQB && pMsg )\n", "                    if ( pMQB && pMsg && !pMQB->isAborted() )\n")],
     "an abort while a message is being dispatched",
     "the message in dispatch during abort is never destroyed",
     r'''
#include "MessageQueue.hpp"
static int alive = 0;
static std::function< void() > act;
struct M : MessageBase { M() { ++alive; } M( M && ) { ++alive; } ~M() override { --alive; } void dispatch() override { act(); } };
int main() {
    {
        MessageQueue q{ 4, sizeof( M ) };
        act = [&] { q.abort(); };
        q.emplace< M >(); q.emplace< M >();
        q.getAndDispatch();
        if ( alive != 1 ) fail( "the dispatched message is not destroyed" );
    }
    if ( alive ) fail( "a message is never destroyed" );
    pass();
}''')

seed("c12-low-second-step", "C12",
     [("src/MemoryPoolBase.cpp", '''            if (--runningStatsNew.counts.runningCount < runningStats.counts.lowWatermark)
                runningStatsNew.counts.lowWatermark = runningStatsNew.counts.runningCount;

        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));
''', '''            --runningStatsNew.counts.runningCount;

        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));

        // Lower the low watermark to the count reached.
        const auto reached = runningStatsNew.counts.runningCount;
        runningStats.state = runningStatsNew.state;
        while (reached < runningStats.counts.lowWatermark) {
            runningStatsNew.state = runningStats.state;
            runningStatsNew.counts.lowWatermark = reached;
            if (runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                   std::memory_order_seq_cst, std::memory_order_seq_cst)) break;
        }
''')],
     "a snapshot taken by another thread between the two updates",
     "a snapshot shows a low watermark above the running count",
     r'''
#include "ObjectPool.hpp"
struct T { long a[ 2 ]; };
int main() {
    std::atomic< ObjectPool< T > * > cur{ nullptr };
    std::atomic< bool > stop{ false }, bad{ false };
    std::vector< std::thread > v;
    for ( int k = 0; k < 3; ++k ) v.emplace_back( [&] {
        while ( !stop ) if ( auto * p = cur.load() ) { auto s = p->getRunningStateStatistics(); if ( s.lowWatermark > s.runningCount ) bad = true; } } );
    for ( int round = 0; round < 60 && !bad; ++round )
    {
        cur = new ObjectPool< T >{ 1 << 15 };   // never deleted, the others may still look at it
        std::vector< ObjectPool< T >::ObjectPtrType > held;
        held.reserve( 1 << 15 );
        for ( int i = 0; i < ( 1 << 15 ); ++i ) held.push_back( cur.load()->createObj< T >() );
    }
    stop = true;
    for ( auto & t : v ) t.join();
    if ( bad ) fail( "low watermark above the running count in a snapshot" );
    pass();
}''', flags="-O2")
