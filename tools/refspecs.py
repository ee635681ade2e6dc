# edits that keep the behaviour: the checks have to stay quiet on each of them (tools/reftool.py)
REFS = []
def ref(id, props, *edits):
    REFS.append(dict(id=id, props=props.split(), edits=list(edits)))
SEM = "src/Semaphore.cpp"; RBS = "src/RingBufferSimple.hpp"; RBG = "src/RingBufferGuarded.hpp"; MP = "src/MemoryPoolBase.cpp"
MX = "src/Mutex.cpp"; MQ = "src/MessageQueueBase.cpp"; MQH = "src/MessageQueue.hpp"; MQC = "src/MessageQueue.cpp"; MQBH = "src/MessageQueueBase.hpp"
BP = "src/BlockPool.hpp"; BPD = "src/BlockPoolDeleter.hpp"; OP = "src/ObjectPool.hpp"; OPD = "src/ObjectPoolDeleter.hpp"
S = "C03 C04 C05 C06"

TAKE_LOOP = '''        for (;;)
        {
            // If the abort flag is set, throw a SemaphoreAborted exception.
            if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };

            // If the available count is greater than zero, decrement it and and escape out.
            // We have "taken" the semaphore.  Waiting is not necessary.
            if ( availableCount > 0 )
            {
                --availableCount;
                break;
            }

            // Else we must wait for a notification.
            ++takePendingCount;
#ifdef REISER_RT_HAS_PTHREADS
            pthread_cond_wait(&takeConditionVar, mutexNativeHandle );
#else
            takeConditionVar.wait( lock, [ this ]{ return abortFlag || availableCount > 0; } );
#endif
            // Awakened with test returning true.
            --takePendingCount;
        }
'''
ref("sem-take-while", S, (SEM, TAKE_LOOP, '''        while ( !abortFlag && availableCount == 0 )
        {
            takePendingCount = PendingCountType( takePendingCount + 1 );
            pthread_cond_wait( &takeConditionVar, mutexNativeHandle );
            takePendingCount = PendingCountType( takePendingCount - 1 );
        }
        if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };
        availableCount -= 1;
'''))
ref("sem-throw-helper", S,
    (SEM, '''            if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };
''', '''            throwIfAborted( "Semaphore::Imple::_take: Semaphore Aborted!" );
'''),
    (SEM, '''            // If the abort flag is set, throw a SemaphoreAborted exception.
            if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };

            // If we have''', '''            throwIfAborted( "Semaphore::Imple::_giveWait: Semaphore Aborted!" );
            // If we have'''),
    (SEM, '''        if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };

        ++availableCount;''', '''        throwIfAborted( "Semaphore::Imple::_giveWait: Semaphore Aborted!" );

        ++availableCount;'''),
    (SEM, '''    void _giveWait( std::unique_lock< Mutex > & lock )
''', '''    void throwIfAborted( const char * what ) const
    {
        if ( abortFlag ) throw SemaphoreAborted{ what };
    }

    void _giveWait( std::unique_lock< Mutex > & lock )
'''))
ref("sem-wait-helper", S,
    (SEM, '''            ++takePendingCount;
#ifdef REISER_RT_HAS_PTHREADS
            pthread_cond_wait(&takeConditionVar, mutexNativeHandle );
#else
            takeConditionVar.wait( lock, [ this ]{ return abortFlag || availableCount > 0; } );
#endif
            // Awakened with test returning true.
            --takePendingCount;
''', '''            waitOn( takeConditionVar, mutexNativeHandle, takePendingCount );
'''),
    (SEM, '''            ++givePendingCount;

#ifdef REISER_RT_HAS_PTHREADS
            pthread_cond_wait( &giveConditionVar, mutexNativeHandle );
#else
            giveConditionVar.wait( lock, [ this ]{ return abortFlag || availableCount > 0; } );
#endif
            --givePendingCount;
''', '''            waitOn( giveConditionVar, mutexNativeHandle, givePendingCount );
'''),
    (SEM, '''    void _giveWait( std::unique_lock< Mutex > & lock )
''', '''    template< typename H > static void waitOn( pthread_cond_t & cond, H native, uint16_t & pending )
    {
        ++pending;
        pthread_cond_wait( &cond, native );
        --pending;
    }

    void _giveWait( std::unique_lock< Mutex > & lock )
'''))
ref("sem-take-try-catch", S,
    (SEM, '''        struct AvailableCountManager {
            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
            ~AvailableCountManager() noexcept {
                if ( !released ) {
                    // What we took is available again. The notification that got us here must be passed on.
                    ++rImple.availableCount;
                    rImple._giveNotify();
                }
            }

            void release() { released = true; }

            Imple & rImple;
            bool released{ false };
        };

        // Guard the available count and call user provided operation.
        AvailableCountManager availableCountManager{ *this };
        operation();
        availableCountManager.release();
''', '''        try { operation(); }
        catch ( ... ) {
            ++availableCount;
            _giveNotify();
            throw;
        }
'''))
ref("sem-give-raii", S,
    (SEM, '''        try
        {
            operation();
        }
        catch ( ... )
        {
            // We are not going to give. The notification that got us here must be passed on.
            _takeNotify();
            throw;
        }
        _give();''', '''        struct PassOn {
            Imple * pI;
            ~PassOn() { if ( pI ) pI->_takeNotify(); }
        } passOn{ this };
        operation();
        passOn.pI = nullptr;
        _give();'''))
ref("sem-abort-swapped", S,
    (SEM, '''        if ( givePendingCount )
            pthread_cond_broadcast( &giveConditionVar );
        if ( takePendingCount )
#ifdef REISER_RT_HAS_PTHREADS
            pthread_cond_broadcast( &takeConditionVar );
#else
        giveConditionVar.notify_all();
        takeConditionVar.notify_all();
#endif
''', '''        pthread_cond_broadcast( &takeConditionVar );
        pthread_cond_broadcast( &giveConditionVar );
'''))
ref("sem-broadcast-for-signal", S,
    (SEM, "pthread_cond_signal( &takeConditionVar );", "pthread_cond_broadcast( &takeConditionVar );"),
    (SEM, "pthread_cond_signal( &giveConditionVar );", "pthread_cond_broadcast( &giveConditionVar );"))
ref("sem-notify-always", S,
    (SEM, '''        if ( givePendingCount )
        {
#ifdef''', '''        {
#ifdef'''))
ref("sem-ctor-helpers", S,
    (SEM, '''        , availableCount{ theInitialCount > std::numeric_limits< AvailableCountType >::max() ?
            std::numeric_limits< AvailableCountType >::max() : AvailableCountType( theInitialCount ) }
''', '''        , availableCount{ AvailableCountType( std::min< size_t >( theInitialCount, std::numeric_limits< AvailableCountType >::max() ) ) }
'''),
    (SEM, '''        if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
        if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;

        // A maximum which does not fit our counter type is limited to what the counter type can represent.
        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
            return std::numeric_limits< AvailableCountType >::max();

        // If here, none of the above were true, return the maximum available count as is.
        return theMaxAvailableCount;
''', '''        constexpr size_t limit = std::numeric_limits< AvailableCountType >::max();
        const size_t wanted = theMaxAvailableCount ? std::min( theMaxAvailableCount, limit ) : limit;
        return AvailableCountType( std::max< size_t >( wanted, clampedInitialCount ) );
'''),
    (SEM, "#include <limits>\n", "#include <limits>\n#include <algorithm>\n"))
ref("sem-members-moved", S,
    (SEM, '''        , takePendingCount{ 0 }
        , givePendingCount{ 0 }
        , abortFlag{ false }
    {''', '''    {
        abortFlag = false;
        givePendingCount = takePendingCount = 0;'''),
    (SEM, '''    PendingCountType takePendingCount;
''', '''    uint32_t takePendingCount;
'''),
    (SEM, '''    PendingCountType givePendingCount;
''', '''    uint32_t givePendingCount;
'''),
    (SEM, '''    bool abortFlag;
};''', '''    int abortFlag;
};'''))
ref("sem-give-flattened", S,
    (SEM, '''        std::unique_lock< Mutex > lock{mutex };
        _giveWait( lock );
        _give();
''', '''        std::unique_lock< Mutex > guard{ mutex };
        _giveWait( guard );
        // nothing can have set the flag since _giveWait tested it
        ++availableCount;
        _giveNotify();
'''),
    (SEM, '''        std::lock_guard< Mutex > lock( mutex );

        return availableCount;''', '''        mutex.lock();
        const size_t result = availableCount;
        mutex.unlock();
        return result;'''))
ref("sem-givewait-order", S,
    (SEM, '''            // If we can avert a wait, we will do so.
            if ( maxAvailableCount > availableCount )
                break;
''', '''            if ( maxAvailableCount - availableCount >= 1 && availableCount <= maxAvailableCount )
                return;
'''))

R = "C01 C02"
ref("rbs-helpers", R,
    (RBS, "if ( ( getCount - putCount + numElements ) > numElementsMask )", "if ( isEmpty() )"),
    (RBS, "if ( ( putCount - getCount ) > numElementsMask )", "if ( isFull() )"),
    (RBS, '''            [[nodiscard]] inline size_t getNumBits() const noexcept { return numBits; }
''', '''            bool isEmpty() const noexcept { return putCount == getCount; }
            bool isFull() const noexcept { return CounterType( putCount - getCount ) == numElements; }
            [[nodiscard]] inline size_t getNumBits() const noexcept { return numBits; }
'''))
ref("rbs-index-separate", R,
    (RBS, "return pElementBuf[ ++getCount & numElementsMask ];", '''const CounterType next = getCount + 1;
                const ScalarType val = pElementBuf[ next & numElementsMask ];
                getCount = next;
                return val;'''),
    (RBS, "pElementBuf[ ++putCount & numElementsMask ] = val;", '''const auto slot = ( putCount + 1 ) % numElements;
                pElementBuf[ slot ] = val;
                ++putCount;'''))
ref("rbs-bits-loop", R,
    (RBS, "return ( (n > 0) ? ( _numBitsForNE( n >> 1) + 1 ) : 0 );", '''CounterType bits = 0;
                while ( n ) { ++bits; n >>= 1; }
                return bits;'''))
ref("rbs-start-at-zero", R,
    (RBS, ": getCount{ CounterType( ~0 ) }", ": getCount{ 0 }"),
    (RBS, ", putCount{ CounterType( ~0 ) }", ", putCount{ 0 }"),
    (RBS, "pElementBuf[ ++getCount & numElementsMask ];", "pElementBuf[ getCount++ & numElementsMask ];"),
    (RBS, "pElementBuf[ ++putCount & numElementsMask ] = val;", "pElementBuf[ putCount++ & numElementsMask ] = val;"))
ref("rbs-size-t-counters", R,
    (RBS, "            CounterType getCount;\n", "            size_t getCount;\n"),
    (RBS, "            CounterType putCount;\n", "            size_t putCount;\n"),
    (RBS, "using CounterType = uint32_t;", "using CounterType = size_t;"))
ref("rbs-unique-ptr", R,
    (RBS, "                delete[] pElementBuf;\n", ""),
    (RBS, "            alignas( ScalarType * ) ScalarType * pElementBuf;", "            std::unique_ptr< ScalarType[] > pElementBuf;"),
    (RBS, "#include <type_traits>\n", "#include <type_traits>\n#include <memory>\n"))
ref("rbs-clamp", R,
    (RBS, "auto n = CounterType( requestedNumElements < 2 ? 2 : requestedNumElements > maxElements ? maxElements : requestedNumElements );",
     "auto n = CounterType( std::min< size_t >( std::max< size_t >( requestedNumElements, 2 ), maxElements ) );"),
    (RBS, "#include <type_traits>\n", "#include <type_traits>\n#include <algorithm>\n"))

G = "C07 C08 C09"
ref("rbg-ensure-ready", G,
    (RBG, '''                if ( state != State::Ready )
                {
                    throw RingBufferStateError{ "RingBufferGuarded::get invoked while not in the Ready state!" };
                }
''', '''                ensureReady( "RingBufferGuarded::get invoked while not in the Ready state!" );
'''),
    (RBG, '''                if ( state != State::Ready )
                {
                    throw RingBufferStateError{ "RingBufferGuarded::put invoked while not in the Ready state!" };
                }
''', '''                ensureReady( "RingBufferGuarded::put invoked while not in the Ready state!" );
'''),
    (RBG, '''            Semaphore semaphore;
''', '''            Semaphore semaphore;

            void ensureReady( const char * what ) const { if ( state != State::Ready ) throw RingBufferStateError{ what }; }
'''))
ref("rbg-single-read", G,
    (RBG, '''                if ( state == State::Terminal ) return false;

                // We have to be in the "Ready" state, or we will throw a logic error.
                if ( state != State::Ready )
                {''', '''                const State s = state.load();
                if ( s == State::Terminal ) return false;
                if ( s == State::NeedsPriming )
                {'''))
ref("rbg-function-object", G,
    (RBG, "auto getFunk = [ this, &retVal ]() { retVal = this->Base::get(); };", '''struct Getter {
                    RingBufferGuardedBase * pB; T * pRet;
                    void operator()() const { *pRet = pB->Base::get(); }
                } getFunk{ this, &retVal };'''),
    (RBG, "semaphore.take(std::ref(getFunk));", "semaphore.take( getFunk );"))
ref("rbg-prime-strong", G,
    (RBG, '''                State currentState = state;
                do
                {   // If the current state transitions to Terminal, then we will not go "Ready".
                    if ( currentState == State::Terminal ) return;
                } while ( !state.compare_exchange_weak( currentState, State::Ready ) );
''', '''                State expected = State::NeedsPriming;
                state.compare_exchange_strong( expected, State::Ready );
'''))
ref("rbg-prime-while", G,
    (RBG, '''                    for ( ; i != count && state == State::NeedsPriming; ++i )
                    {
                        Base::put( operation( i ) );
                    }
''', '''                    while ( i < count )
                    {
                        if ( state.load() != State::NeedsPriming ) break;
                        const T val = operation( i );
                        Base::put( val );
                        ++i;
                    }
'''))
ref("rbg-abort-order", G,
    (RBG, "inline void abort() { state = State::Terminal; semaphore.abort(); }",
          "inline void abort() { semaphore.abort(); state.store( State::Terminal ); }"))
ref("rbg-prime-guard", G,
    (RBG, '''                size_t i = 0;
                try
                {
                    for ( ; i != count && state == State::NeedsPriming; ++i )
                    {
                        Base::put( operation( i ) );
                    }
                }
                catch ( ... )
                {
                    // We still need priming. Elements left behind would precede those of the next attempt.
                    for ( ; i != 0; --i ) Base::get();
                    throw;
                }
''', '''                struct Undo
                {
                    Base & ring;
                    size_t held{ 0 };
                    bool armed{ true };
                    ~Undo() { if ( armed ) while ( held-- ) ring.get(); }
                } undo{ *this };
                while ( undo.held != count && state == State::NeedsPriming )
                {
                    Base::put( operation( undo.held ) );
                    ++undo.held;
                }
                undo.armed = false;
'''))
ref("rbg-flush-down", G,
    (RBG, '''                for ( size_t i = 0; count != i; ++i )
                {
                    // An aborted prime, or a previous flush, leaves fewer elements than the semaphore accounts for.
                    T val;
                    try { val = Base::get(); } catch ( const RingBufferUnderflow & ) { return; }
                    operation( val );
                }
''', '''                try
                {
                    for ( size_t left = count; left > 0; --left )
                        if ( !flushOne( operation ) ) break;
                }
                catch ( ... ) { throw; }
'''),
    (RBG, '''            Semaphore semaphore;
''', '''            bool flushOne( const FlushingFunctionType & operation )
            {
                T val;
                try { val = Base::get(); } catch ( const RingBufferUnderflow & ) { return false; }
                operation( val );
                return true;
            }

            Semaphore semaphore;
'''))
ref("rbg-abort-exchange", G,
    (RBG, "inline void abort() { state = State::Terminal; semaphore.abort(); }",
     "inline void abort() { state.exchange( State::Terminal ); semaphore.abort(); }"))

P = "C10 C11 C12 C13"
CAS_G = '''        InternalRunningStateStats runningStats;
        InternalRunningStateStats runningStatsNew;
        runningStats.state = runningState.load(std::memory_order_seq_cst);
        do {
            // Clone atomically captured state,
            // We will be decrementing the running count and may lower the low watermark.
            runningStatsNew.state = runningStats.state;
            if (--runningStatsNew.counts.runningCount < runningStats.counts.lowWatermark)
                runningStatsNew.counts.lowWatermark = runningStatsNew.counts.runningCount;

        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));
'''
CAS_R = '''        InternalRunningStateStats runningStats;
        InternalRunningStateStats runningStatsNew;
        runningStats.state = runningState.load( std::memory_order_seq_cst );
        do
        {
            // Clone atomically captured state,
            // We will be incrementing the running count and not touching the low watermark.
            runningStatsNew.state = runningStats.state;
            ++runningStatsNew.counts.runningCount;

        } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                       std::memory_order_seq_cst, std::memory_order_seq_cst ) );
'''
ref("mp-cas-lambda", P + " C14",
    (MP, CAS_G, '''        update( []( InternalRunningStateStats & s ) {
            --s.counts.runningCount;
            s.counts.lowWatermark = std::min( s.counts.lowWatermark, s.counts.runningCount );
        } );
'''),
    (MP, CAS_R, '''        update( []( InternalRunningStateStats & s ) { ++s.counts.runningCount; } );
'''),
    (MP, '''    void * getRawBlock()
    {
        // Utilize''', '''    template< typename F > void update( F f ) noexcept
    {
        InternalRunningStateStats before;
        before.state = runningState.load();
        for (;;)
        {
            InternalRunningStateStats after = before;
            f( after );
            if ( runningState.compare_exchange_strong( before.state, after.state ) ) return;
        }
    }

    void * getRawBlock()
    {
        // Utilize'''),
    (MP, "#include <mutex>\n", "#include <mutex>\n#include <algorithm>\n"))
ref("mp-fetch-add", P + " C14",
    (MP, CAS_R, '''        InternalRunningStateStats one;
        one.state = 0;
        one.counts.runningCount = 1;
        runningState.fetch_add( one.state );
'''))
ref("mp-padded-mask", P + " C14",
    (MP, '''        size_t alignmentOverspill = requestedElementSize % sizeof( void * );
        return  ( alignmentOverspill != 0 ) ? requestedElementSize + sizeof( void * ) - alignmentOverspill :
                requestedElementSize;
''', '''        return ( requestedElementSize + sizeof( void * ) - 1 ) & ~( sizeof( void * ) - 1 );
'''))
ref("mp-ctor-walk", P + " C14",
    (MP, '''        for ( size_t i = 0; i != poolSize; ++i )
            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
''', '''        unsigned char * p = arena;
        for ( size_t left = poolSize; left != 0; --left, p += paddedElementSize )
            ringBuffer.put( p );
'''))
ref("mp-memset-early", P + " C14",
    (MP, '''        // Zero out Arena Memory!
        memset(pRaw, 0, paddedElementSize);

''', ""),
    (MP, '''        // Manage Watermark Logic
''', '''        std::memset( pRaw, 0, paddedElementSize );

        // Manage Watermark Logic
'''))
ref("mp-lock-explicit", P,
    (MP, '''            // Take lock RAII style
            std::lock_guard< Mutex > lock( mutex );

            // Return raw''', '''            std::unique_lock< Mutex > lock( mutex );

            // Return raw'''),
    (MP, '''        void *pRaw;
        {
            // Take lock RAII style
            std::lock_guard<Mutex> lock(mutex);

            // Get raw memory
            pRaw = ringBuffer.get();
        }
''', '''        void * pRaw = popLocked();
'''),
    (MP, '''    void * getRawBlock()
    {
        // Utilize''', '''    void * popLocked()
    {
        std::unique_lock< Mutex > lock( mutex );
        return ringBuffer.get();
    }

    void * getRawBlock()
    {
        // Utilize'''))
ref("mp-zero-new", P + " C14",
    (MP, "  , arena{ new unsigned char [ paddedElementSize * poolSize ] }", "  , arena{ static_cast< unsigned char * >( ::operator new[]( poolSize * paddedElementSize ) ) }"),
    (MP, "        delete[] arena;", "        ::operator delete[]( arena );"))

ref("mx-throw-helper", "C07 C03",
    (MX, '''    int e = pthread_mutex_lock( nativeHandle );

    // EINVAL, EAGAIN, EBUSY, EINVAL and EDEADLK(maybe)
    if ( e ) throw std::system_error{ e, std::system_category() };
''', '''    throwOnError( pthread_mutex_lock( nativeHandle ) );
'''),
    (MX, '''    int e = pthread_mutex_unlock( nativeHandle );

    // EINVAL, EAGAIN and  EPERM potentially.
    if ( e ) throw std::system_error{ e, std::system_category() };
''', '''    throwOnError( pthread_mutex_unlock( nativeHandle ) );
'''),
    (MX, '''Mutex::Mutex()
#ifdef''', '''static void throwOnError( int e )
{
    if ( e == 0 ) return;
    throw std::system_error( std::error_code( e, std::system_category() ) );
}

Mutex::Mutex()
#ifdef'''))
ref("mx-protocol-always", "C07",
    (MX, '''    int protocol;
    pthread_mutexattr_getprotocol( &attr, &protocol );
    if ( protocol != PTHREAD_PRIO_INHERIT )
    {
        pthread_mutexattr_setprotocol( &attr, PTHREAD_PRIO_INHERIT );
    }
''', '''    pthread_mutexattr_setprotocol( &attr, PTHREAD_PRIO_INHERIT );
'''))
ref("mx-trylock-switch", "C07",
    (MX, '''    // EBUSY means it's already locked and we cannot acquire it. Anything else is an error.
    if ( e != 0 && e != EBUSY ) throw std::system_error{ e, std::system_category() };

    return e == 0;
''', '''    switch ( e )
    {
    case 0: return true;
    case EBUSY: return false;
    default: throw std::system_error{ e, std::system_category() };
    }
'''))

Q = "C15 C16 C17 C18 C19"
ref("mq-put-is-emplace", Q,
    (MQH, '''                // Before we even bother getting a raw block of memory, we will validate that
                // the type being created will fit in an element block.
                if ( getElementSize() < sizeof( M ) )
                    throw MessageQueueElementSizeError( "MessageQueue::put: The size of type M exceeds maximum element size" );

                // Wait on raw memory availability
                void * pRaw = rawWaitAndGet();

                // Wrap it up for safe return should we throw an exception when we cook it.
                RawMemoryManager rawMemoryManager{ this, pRaw };

                // Cook raw memory
                M * pM = new( pRaw )M{ std::forward<M>(msg) };

                // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
                // send cooked out for delivery. Should that throw, the message is destroyed and raw memory returned.
                rawMemoryManager.release();
                CookedMemoryManager cookedMemoryManager{ this, pM };
                cookedPutAndNotify( pM );
                cookedMemoryManager.release();
''', '''                emplace< M >( std::forward< M >( msg ) );
'''))
ref("mq-send-helper", Q,
    (MQH, '''                M * pM = new( pRaw )M{ std::forward<Args>(args)... };

                // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
                // send cooked out for delivery. Should that throw, the message is destroyed and raw memory returned.
                rawMemoryManager.release();
                CookedMemoryManager cookedMemoryManager{ this, pM };
                cookedPutAndNotify( pM );
                cookedMemoryManager.release();
            }
''', '''                auto * pM = ::new( pRaw ) M{ std::forward<Args>(args)... };
                rawMemoryManager.release();
                sendCooked( pM );
            }

            void sendCooked( MessageBase * pCooked )
            {
                CookedMemoryManager cookedMemoryManager{ this, pCooked };
                cookedPutAndNotify( pCooked );
                cookedMemoryManager.release();
            }
'''),
    (MQH, '''                M * pM = new( pRaw )M{ std::forward<M>(msg) };

                // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
                // send cooked out for delivery. Should that throw, the message is destroyed and raw memory returned.
                rawMemoryManager.release();
                CookedMemoryManager cookedMemoryManager{ this, pM };
                cookedPutAndNotify( pM );
                cookedMemoryManager.release();
''', '''                auto * pM = ::new( pRaw ) M{ std::forward<M>(msg) };
                rawMemoryManager.release();
                sendCooked( pM );
'''))
ref("mq-dispatch-defer", Q,
    (MQ, '''    if ( pMutex )
    {
        std::lock_guard< Mutex > lockGuard{ *pMutex };
        pMsg->dispatch();
    }
    else
    {
        pMsg->dispatch();
    }
''', '''    std::unique_lock< Mutex > guard;
    if ( pMutex ) guard = std::unique_lock< Mutex >{ *pMutex };
    pMsg->dispatch();
'''))
ref("mq-purge-while", Q,
    (MQC, '''    auto runningState = getRunningStateStatistics();
    for ( ; 0 != runningState.runningCount; --runningState.runningCount )
        CookedMemoryManager{ this, cookedWaitAndGet() };
''', '''    size_t left = getRunningStateStatistics().runningCount;
    while ( left-- > 0 )
    {
        MessageBase * pM = cookedWaitAndGet();
        CookedMemoryManager reclaim{ this, pM };
    }
'''))
ref("mq-dispatch-shared", Q,
    (MQC, '''    // CookedMemoryManager ensures memory is returned to the raw pool should dispatch throw.
    auto * pM = cookedWaitAndGet();
    CookedMemoryManager cookedMemoryManager{ this, pM };

    dispatchMessage( pM );
''', '''    getAndDispatch( []() {} );
'''))
ref("mq-lock-exchange", Q,
    (MQBH, '''pMQB{ another.pMQB }, locked{ another.locked }
                {
                    another.pMQB = nullptr;
                    another.locked = 0;
                }''', '''pMQB{ std::exchange( another.pMQB, nullptr ) }, locked{ std::exchange( another.locked, 0 ) }
                {
                }'''),
    (MQBH, '''                        pMQB = another.pMQB;
                        locked = another.locked;
                        another.pMQB = nullptr;
                        another.locked = 0;
''', '''                        pMQB = std::exchange( another.pMQB, nullptr );
                        locked = std::exchange( another.locked, 0 );
'''),
    (MQBH, "#include <functional>\n", "#include <functional>\n#include <utility>\n"))
ref("mq-lock-dtor-unlock", Q,
    (MQ, '''    if ( pMQB && locked ) pMQB->pImple->pMutex->unlock();
''', '''    unlock();
'''))
MQ_G = '''    InternalRunningStateStats runningStats;
    InternalRunningStateStats runningStatsNew;
    runningStats.state = runningState.load( std::memory_order_seq_cst );
    do
    {
        // Clone atomically captured state,
        // We will be incrementing the running count, may raise the high water mark.
        runningStatsNew.state = runningStats.state;
        if ( ++runningStatsNew.counts.runningCount > runningStats.counts.highWatermark )
            runningStatsNew.counts.highWatermark = runningStatsNew.counts.runningCount;

    } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                   std::memory_order_seq_cst, std::memory_order_seq_cst ) );
'''
MQ_R = '''    InternalRunningStateStats runningStats;
    InternalRunningStateStats runningStatsNew;
    runningStats.state = runningState.load( std::memory_order_seq_cst );
    do
    {
        // Clone atomically captured state,
        // We will be decrementing the running count and not touching the high watermark.
        runningStatsNew.state = runningStats.state;
        --runningStatsNew.counts.runningCount;

    } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                   std::memory_order_seq_cst, std::memory_order_seq_cst ) );
'''
ref("mq-stats-helper", Q,
    (MQ, MQ_G, "    countBlocks( +1 );\n"),
    (MQ, MQ_R, "    countBlocks( -1 );\n"),
    (MQ, '''    inline void cookedPutAndNotify( MessageBase * pCooked )
''', '''    void countBlocks( int delta )
    {
        InternalRunningStateStats now, next;
        now.state = runningState.load();
        do
        {
            next.state = now.state;
            next.counts.runningCount += CounterType( delta );
            if ( next.counts.highWatermark < next.counts.runningCount )
                next.counts.highWatermark = next.counts.runningCount;
        } while ( !runningState.compare_exchange_weak( now.state, next.state ) );
    }

    inline void cookedPutAndNotify( MessageBase * pCooked )
'''))
ref("mq-memset-first", Q,
    (MQ, '''    // Zero out Arena Memory!
    std::memset( pRaw, 0, elementSize );

''', ""),
    (MQ, '''    void * pRaw = rawRingBuffer.get();
''', '''    void * pRaw = rawRingBuffer.get();
    std::memset( pRaw, 0, elementSize );
'''))
ref("mq-arena-unique", Q,
    (MQ, '''    // Return our arena memory to the standard heap.
    delete[] arena;
''', ""),
    (MQ, "    alignas( void * ) unsigned char * arena;", "    std::unique_ptr< unsigned char[] > arena;"),
    (MQ, "{ return reinterpret_cast< void * >( arena + i * elementSize ); };", "{ return reinterpret_cast< void * >( &arena[ i * elementSize ] ); };"),
    (MQ, "#include <cstring>\n", "#include <cstring>\n#include <memory>\n"))
ref("mq-reraise-catch-all", Q,
    (MQ, "try { rawRingBuffer.put( pRaw ); } catch ( const SemaphoreAborted & ) {} catch ( const RingBufferStateError & ) {}",
     "try { rawRingBuffer.put( pRaw ); } catch ( ... ) {}"))
ref("mq-cooked-early-return", Q,
    (MQBH, '''                    if ( pMQB && pMsg )
                    {
                        // The MessageBase is not necessarily located at the start of the block.
                        void * pRaw = dynamic_cast< void * >( pMsg );
                        pMsg->~MessageBase();
                        pMQB->rawPutAndNotify( pRaw );
                    }
''', '''                    if ( !pMQB || !pMsg ) return;
                    RawMemoryManager raw{ pMQB, dynamic_cast< void * >( pMsg ) };
                    pMsg->~MessageBase();
'''))

ref("bpd-while", "C13 C14",
    (BPD, '''                    size_t nElements = getElementSize() / sizeof( T );
                    auto _pT = pT;
                    for ( size_t i = 0; nElements != i; ++i, ++_pT )
                        _pT->~T();
''', '''                    T * const pEnd = pT + getNumElements();
                    for ( T * p = pT; p != pEnd; ++p )
                        p->~T();
'''))
ref("bpd-indexed", "C13 C14",
    (BPD, '''                    size_t nElements = getElementSize() / sizeof( T );
                    auto _pT = pT;
                    for ( size_t i = 0; nElements != i; ++i, ++_pT )
                        _pT->~T();
''', '''                    for ( size_t i = 0; i < getElementSize() / sizeof( T ); ++i )
                        pT[ i ].~T();
'''))
ref("bpd-early-return", "C13 C14",
    (BPD, '''                if ( !pool ) return;

''', ""),
    (BPD, '''                if ( !std::is_scalar< T >::value )
                {''', '''                if ( pool == nullptr ) { return; }
                if ( !std::is_trivially_destructible< T >::value )
                {'''))
ref("bp-cook-helper", "C13 C14",
    (BP, '''                T * pCooked;
                if ( std::is_scalar< T >::value )
                    pCooked = reinterpret_cast< T * >( pRaw );  // Default scalar values are zero.
                else if ( std::is_nothrow_default_constructible< T >::value )
                    pCooked = new( pRaw )T[ elementsPerBlock ];
                else
                {''', '''                T * pCooked;
                if ( std::is_scalar< T >::value )
                    pCooked = static_cast< T * >( pRaw );
                else
                {'''))
ref("bp-construct-loop", "C13 C14",
    (BP, '''                    pCooked = new( pRaw )T[ elementsPerBlock ];
                    rawMemoryManager.release();
''', '''                    pCooked = cookAll( pRaw );
                    rawMemoryManager.release();
'''),
    (BP, '''            BlockPoolDeleter< T[] > createDeleter()''', '''            T * cookAll( void * pRaw ) { return new( pRaw )T[ elementsPerBlock ]; }

            BlockPoolDeleter< T[] > createDeleter()'''))
ref("bp-uninitialized-construct", "C13 C14",
    (BP, '''                    RawMemoryManager rawMemoryManager{ this, pRaw };
                    pCooked = new( pRaw )T[ elementsPerBlock ];
                    rawMemoryManager.release();
''', '''                    try { pCooked = new( pRaw )T[ elementsPerBlock ]; }
                    catch ( ... ) { returnRawBlock( pRaw ); throw; }
'''))
ref("op-size-helper", "C10 C13 C15",
    (OP, '''                if ( getPaddedElementSize() < sizeof( D ) )
                    throw ObjectPoolElementSizeError( "ObjectPool::createObj: The size of type D exceeds maximum element size" );
''', '''                requireFits( sizeof( D ) );
'''),
    (OP, '''            ObjectPoolDeleter< T > createDeleter()''', '''            void requireFits( size_t needed ) const
            {
                if ( needed <= getPaddedElementSize() ) return;
                throw ObjectPoolElementSizeError( "ObjectPool::createObj: The size of type D exceeds maximum element size" );
            }

            ObjectPoolDeleter< T > createDeleter()'''))
ref("op-try-catch", "C10 C13",
    (OP, '''                RawMemoryManager rawMemoryManager{ this, pRaw };

                // Cook directly on raw and if construction doesn't throw, release managed pointer's ownership.
                // Ownership has been successfully transferred to pCooked.
                T * pCooked = new ( pRaw )D{ std::forward<Args>(args)... };
                rawMemoryManager.release();
''', '''                T * pCooked = nullptr;
                try { pCooked = new ( pRaw )D{ std::forward<Args>(args)... }; }
                catch ( ... ) { returnRawBlock( pRaw ); throw; }
'''))
ref("opd-order", "C10 C13",
    (OPD, '''                void * pRaw = blockAddress( pT, std::is_polymorphic< T >{} );
                pT->~T();
                if ( pool ) returnRawBlock( pRaw );
''', '''                void * const pBlock = blockAddress( pT, typename std::is_polymorphic< T >::type{} );
                pT->~T();
                if ( pool == nullptr ) return;
                returnRawBlock( pBlock );
'''))
REFS[:] = [r for r in REFS if r]
