#include "common.hpp"
#include "Semaphore.hpp"
#include "Mutex.hpp"
#include <mutex>
#include "ReiserRT_CoreExceptions.hpp"
using namespace ReiserRT::Core;
extern "C" {
// keep the type_info objects of all exception types in the module
void h_types( int k )
{
    switch ( k ) {
        case 0: throw VUserExc{ 1 };
        case 1: throw VUserStdExc{};
        case 2: throw SemaphoreAborted{ "" };
        case 3: throw SemaphoreOverflow{ "" };
        case 4: throw RingBufferUnderflow{ "" };
        case 5: throw RingBufferOverflow{ "" };
        case 6: throw RingBufferStateError{ "" };
        case 7: throw ObjectPoolElementSizeError{ "" };
        case 8: throw MessageQueueElementSizeError{ "" };
        case 9: throw MessageQueueDispatchLockingDisabled{ "" };
    }
}
Semaphore * h_sem_new( size_t i, size_t m ) { return new Semaphore( i, m ); }
Semaphore * h_sem_new1( size_t i ) { return new Semaphore( i ); }
void h_sem_delete( Semaphore * s ) { delete s; }
void h_sem_take( Semaphore & s ) { s.take(); }
void h_sem_give( Semaphore & s ) { s.give(); }
void h_sem_take_op( Semaphore & s ) { Semaphore::FunctionType f{ []{ v_op( 1 ); } }; s.take( f ); }
void h_sem_give_op( Semaphore & s ) { Semaphore::FunctionType f{ []{ v_op( 2 ); } }; s.give( f ); }
void h_sem_abort( Semaphore & s ) { s.abort(); }
size_t h_sem_count( Semaphore & s ) { return s.getAvailableCount(); }
void h_fn_void( const std::function< void() > & f ) { f(); }

Mutex * h_mutex_new() { return new Mutex{}; }
void h_mutex_delete( Mutex * m ) { delete m; }
void h_mutex_lock( Mutex & m ) { m.lock(); }
bool h_mutex_try_lock( Mutex & m ) { return m.try_lock(); }
void h_mutex_unlock( Mutex & m ) { m.unlock(); }
void * h_mutex_native( Mutex & m ) { return m.native_handle(); }
}
