From 25583ad20fdaea136ae6f284dde4c375dc2e4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 01/13] fix: limit Semaphore maximum count to 2^32-1 instead of
 truncating it

---
 src/Semaphore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..a3f42df 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -420,7 +420,11 @@ private:
         if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
 
-        // If here, neither of the above were true, return the maximum available count as is.
+        // A maximum which does not fit our counter type is limited to what the counter type can represent.
+        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
+
+        // If here, none of the above were true, return the maximum available count as is.
         return theMaxAvailableCount;
     }
 
-- 
2.43.0


From e9a18b7d1fbcc0638bcb74e84e77e25695c7a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 02/13] fix: pass the wake-up on when a Semaphore functor
 throws

---
 src/Semaphore.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index a3f42df..1dda9a6 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -160,17 +160,23 @@ public:
         _take(lock);
 
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            ~AvailableCountManager() noexcept {
+                if ( !released ) {
+                    // What we took is available again. The notification that got us here must be passed on.
+                    ++rImple.availableCount;
+                    rImple._giveNotify();
+                }
+            }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & rImple;
             bool released{ false };
         };
 
         // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -210,7 +216,16 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
-        operation();
+        try
+        {
+            operation();
+        }
+        catch ( ... )
+        {
+            // We are not going to give. The notification that got us here must be passed on.
+            _takeNotify();
+            throw;
+        }
         _give();
     }
 
@@ -376,7 +391,16 @@ private:
         if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };
 
         ++availableCount;
+        _giveNotify();
+    }
 
+    /**
+    * @brief The Give Notify Internals
+    *
+    * This operation will notify at most, one waiting take thread.
+    */
+    inline void _giveNotify()
+    {
 #ifdef REISER_RT_HAS_PTHREADS
         pthread_cond_signal( &takeConditionVar );
 #else
-- 
2.43.0


From b4eea1d225efd008fdba6fedc08b6f0d2257aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 03/13] fix: lay out pool blocks at their padded size

Blocks were placed at multiples of the requested element size, while
getRawBlock clears the padded size. For element sizes that are not a multiple
of the pointer size, obtaining one block overwrote the beginning of its
neighbour (and, for the last block, memory behind the arena), and blocks were
misaligned.
---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From 28c5a10f852a1a19fe90a40c751878aee41c1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 04/13] fix: count a returned pool block before making it
 available

Another thread could obtain the returned block and decrement the running count
before the returning thread had incremented it. With an otherwise exhausted
pool the count wrapped around to 2^32-1, and a low watermark below every real
running count could be recorded.
---
 src/MemoryPoolBase.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..7397ed2 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,16 +222,8 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
-
-        // Manage Watermark Logic
+        // Manage Watermark Logic. This must precede making the block available to others. Otherwise, another thread
+        // could obtain the block and decrement the running count before we have incremented it.
         InternalRunningStateStats runningStats;
         InternalRunningStateStats runningStatsNew;
         runningStats.state = runningState.load( std::memory_order_seq_cst );
@@ -244,6 +236,15 @@ private:
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Utilize small block scoping for mutex lock to minimize lock time.
+        {
+            // Take lock RAII style
+            std::lock_guard< Mutex > lock( mutex );
+
+            // Return raw memory back to the pool.
+            ringBuffer.put( pRaw );
+        }
     }
 
     /**
-- 
2.43.0


From ea40c1018751c5acca94c0780f7e37721729883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 05/13] fix: return a pooled object's block address, not its
 base subobject's

---
 src/ObjectPoolDeleter.hpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..3f83e49 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -94,7 +96,33 @@ namespace ReiserRT
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                // The block begins where the most derived object does, which is not necessarily where its
+                // T subobject does. This must be determined prior to destruction.
+                void * pRaw = blockAddress( pT, std::is_polymorphic< T >{} );
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
+
+        private:
+            /**
+            * @brief Obtain the Block Address of a Polymorphic Object
+            *
+            * @param pT A pointer to the object, potentially a base class subobject of it.
+            *
+            * @return Returns the address of the most derived object.
+            */
+            static void * blockAddress( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
+
+            /**
+            * @brief Obtain the Block Address of a Non-Polymorphic Object
+            *
+            * @param pT A pointer to the object.
+            *
+            * @return Returns the address of the object.
+            */
+            static void * blockAddress( T * pT, std::false_type ) noexcept { return pT; }
         };
     }
 }
-- 
2.43.0


From 7df39c2cf72cf77ff60728f75832855143b0c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 06/13] fix: stop flushing a guarded ring buffer once it is
 empty

---
 src/RingBufferGuarded.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..2a4de7d 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -268,7 +268,13 @@ namespace ReiserRT
                 }
 
                 const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                for ( size_t i = 0; count != i; ++i )
+                {
+                    // An aborted prime, or a previous flush, leaves fewer elements than the semaphore accounts for.
+                    T val;
+                    try { val = Base::get(); } catch ( const RingBufferUnderflow & ) { return; }
+                    operation( val );
+                }
             }
 
             /**
-- 
2.43.0


From 5ca31507dbf567a047ed991521646af4e19b57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 07/13] fix: discount a returned message block before making it
 available

---
 src/MessageQueueBase.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..34fe6d4 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -421,10 +421,8 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
-
-    // Manage running count.
+    // Manage running count. We do this before the block becomes available to others. Otherwise, they could count
+    // the block a second time before we have discounted it.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
     InternalRunningStateStats runningStats;
     InternalRunningStateStats runningStatsNew;
@@ -438,6 +436,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Put formerly cooked memory back into the raw ring buffer.
+    rawRingBuffer.put( pRaw );
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From a0877a2324901a83460972fc25421bb4d5b2a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 08/13] fix: release the owned dispatch lock on
 AutoDispatchLock move assignment

---
 src/MessageQueueBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..dbdd90e 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -277,6 +277,8 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        // Release the lock that we may already own before taking over another.
+                        unlock();
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0


From 4f9e9aac1762c044c5cafbe4bc025cc11cc180c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 09/13] fix: do not terminate if an abort races with the return
 of a message block

---
 src/MessageQueueBase.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 34fe6d4..db35822 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -198,8 +198,6 @@ private:
     * waiters for such availability.
     *
     * @param pRaw A pointer to raw memory that is to be made available for cooking.
-    *
-    * @throw Throws std::runtime_error if the "raw" ring buffer becomes aborted.
     */
     void rawPutAndNotify( void * pRaw );
 
@@ -437,8 +435,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
 
-    // Put formerly cooked memory back into the raw ring buffer.
-    rawRingBuffer.put( pRaw );
+    // Put formerly cooked memory back into the raw ring buffer. If an abort gets in between, there is nothing left to do.
+    // We are invoked by the destructors of our memory managers and must not throw.
+    try { rawRingBuffer.put( pRaw ); } catch ( const SemaphoreAborted & ) {}
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From a5c21954108b3b4b696177a1b0be6614c982ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 10/13] fix: return a message's block address, not its
 MessageBase's

---
 src/MessageQueueBase.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index dbdd90e..709a98e 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -427,7 +427,16 @@ namespace ReiserRT
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
                 * and returns the formerly "cooked" MessageBase memory back to the raw queue.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( pMQB && pMsg )
+                    {
+                        // The MessageBase is not necessarily located at the start of the block.
+                        void * pRaw = dynamic_cast< void * >( pMsg );
+                        pMsg->~MessageBase();
+                        pMQB->rawPutAndNotify( pRaw );
+                    }
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
-- 
2.43.0


From 3ef87ff501a4c01a8f145fcb6a74e49b555057d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 11/13] fix: do not lose a message that an abort keeps from
 being enqueued

---
 src/MessageQueue.hpp      |  8 ++++++--
 src/MessageQueueBase.cpp  |  4 +++-
 src/MessageQueueBase.hpp  |  8 ++++++++
 src/RingBufferGuarded.hpp | 11 ++++++++---
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/MessageQueue.hpp b/src/MessageQueue.hpp
index ca673b6..5d339a3 100644
--- a/src/MessageQueue.hpp
+++ b/src/MessageQueue.hpp
@@ -141,9 +141,11 @@ namespace ReiserRT
                 M * pM = new( pRaw )M{ std::forward<M>(msg) };
 
                 // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
-                // send cooked out for delivery.
+                // send cooked out for delivery. Should that throw, the message is destroyed and raw memory returned.
                 rawMemoryManager.release();
+                CookedMemoryManager cookedMemoryManager{ this, pM };
                 cookedPutAndNotify( pM );
+                cookedMemoryManager.release();
             }
 
             /**
@@ -192,9 +194,11 @@ namespace ReiserRT
                 M * pM = new( pRaw )M{ std::forward<Args>(args)... };
 
                 // If here, raw is successfully cooked. Release RawMemoryManager from cleanup responsibility and
-                // send cooked out for delivery.
+                // send cooked out for delivery. Should that throw, the message is destroyed and raw memory returned.
                 rawMemoryManager.release();
+                CookedMemoryManager cookedMemoryManager{ this, pM };
                 cookedPutAndNotify( pM );
+                cookedMemoryManager.release();
             }
 
             /**
diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index db35822..bdc81e4 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -173,7 +173,9 @@ private:
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
         // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        // It declines quietly if it has been aborted already. Our client needs to know, as it still owns the message then.
+        if ( !cookedRingBuffer.put( pCooked ) )
+            throw SemaphoreAborted{ "MessageQueueBase::Imple::cookedPutAndNotify: Aborted!" };
     }
 
     /**
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 709a98e..4ac3fb5 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -456,6 +456,14 @@ namespace ReiserRT
                 */
                 CookedMemoryManager &operator=( CookedMemoryManager &&another ) = delete;
 
+                /**
+                * @brief The Release Operation
+                *
+                * This operation releases CookedMemoryManager from responsibility of needing to destroy
+                * the message and return its memory back to the raw queue.
+                */
+                void release() { pMsg = nullptr; }
+
             private:
                 /**
                 * @brief A Reference to the MessageQueueBase that constructed us.
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 2a4de7d..0dff56c 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -167,11 +167,13 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the value was put, or false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                if ( state == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
                 if ( state != State::Ready )
@@ -184,6 +186,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -569,8 +572,10 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::RingBufferOverflow if there is no room left to fulfill the request (full).
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the pointer was put, or false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From a162c8ba3ebac2e7fdfbd2093a5ee75ea89b231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 12/13] fix: do not terminate if an abort gets between the
 state checks of a ring buffer put

---
 src/MessageQueueBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index bdc81e4..9be4afd 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -438,8 +438,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
 
     // Put formerly cooked memory back into the raw ring buffer. If an abort gets in between, there is nothing left to do.
+    // Depending on when it does, this is reported as SemaphoreAborted or as RingBufferStateError.
     // We are invoked by the destructors of our memory managers and must not throw.
-    try { rawRingBuffer.put( pRaw ); } catch ( const SemaphoreAborted & ) {}
+    try { rawRingBuffer.put( pRaw ); } catch ( const SemaphoreAborted & ) {} catch ( const RingBufferStateError & ) {}
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From a50f4da96d98cc2ffc11be7c2e3d74399bdcc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 13/13] fix: leave nothing in a ring buffer when a priming
 functor throws

---
 src/RingBufferGuarded.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 0dff56c..c6bfe02 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -211,6 +211,8 @@ namespace ReiserRT
             *
             * @throw Throws ReiserRT::Core::RingBufferStateError if the RingBufferGuardedBase is not in the "NeedsPriming" state.
             * @throw Throws std::bad_function_call if the operation passed in has no target (i.e., an empty function object).
+            * @throw Throws whatever the operation throws. The elements enqueued so far are then removed and the ring buffer
+            * remains in the "NeedsPriming" state.
             */
             void prime( const PrimingFunctionType & operation )
             {
@@ -224,9 +226,19 @@ namespace ReiserRT
                 // which is always rounded up to the next power of two. We also check to see if an abort has been detected
                 // which may terminate the loop prematurely. The state should remain NeedsPriming until we set it otherwise.
                 size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; i != count && state == State::NeedsPriming; ++i )
+                size_t i = 0;
+                try
                 {
-                    Base::put( operation( i ) );
+                    for ( ; i != count && state == State::NeedsPriming; ++i )
+                    {
+                        Base::put( operation( i ) );
+                    }
+                }
+                catch ( ... )
+                {
+                    // We still need priming. Elements left behind would precede those of the next attempt.
+                    for ( ; i != 0; --i ) Base::get();
+                    throw;
                 }
 
                 // Here, we ensure that we can set the state to Ready unless an abort is detected.
-- 
2.43.0

