From b694a891e53e4cfb3a39a9d9ffaddf821866068c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 01/18] fix: Semaphore passes on a consumed wake-up when a
 take/give functor throws

---
 src/Semaphore.cpp | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..9de8375 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -160,17 +160,23 @@ public:
         _take(lock);
 
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            ~AvailableCountManager() noexcept {
+                if ( released ) return;
+
+                // We may have consumed a wake-up meant for one of several pending "takers". Pass it on.
+                ++rImple.availableCount;
+                rImple._giveNotify();
+            }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & rImple;
             bool released{ false };
         };
 
         // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -210,7 +216,16 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
-        operation();
+        try
+        {
+            operation();
+        }
+        catch ( ... )
+        {
+            // We may have consumed a wake-up meant for one of several pending "givers". Pass it on.
+            _takeNotify();
+            throw;
+        }
         _give();
     }
 
@@ -276,6 +291,20 @@ private:
         }
     }
 
+    /**
+    * @brief The Give Notify Internals
+    *
+    * This operation will notify at most, one waiting take thread.
+    */
+    inline void _giveNotify()
+    {
+#ifdef REISER_RT_HAS_PTHREADS
+        pthread_cond_signal( &takeConditionVar );
+#else
+        takeConditionVar.notify_one();
+#endif
+    }
+
     /**
     * @brief The Take Operation Internals
     *
@@ -376,12 +405,7 @@ private:
         if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };
 
         ++availableCount;
-
-#ifdef REISER_RT_HAS_PTHREADS
-        pthread_cond_signal( &takeConditionVar );
-#else
-        takeConditionVar.notify_one();
-#endif
+        _giveNotify();
     }
 
     /**
-- 
2.43.0


From 29deac84a2a1c97272483eb97ffb222672f599ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 02/18] fix: Semaphore clamps a maximum count above 2^32-1
 instead of truncating it

---
 src/Semaphore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 9de8375..7766248 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -443,9 +443,11 @@ private:
     {
         if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
+        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
 
-        // If here, neither of the above were true, return the maximum available count as is.
-        return theMaxAvailableCount;
+        // If here, none of the above were true, return the maximum available count as is.
+        return AvailableCountType( theMaxAvailableCount );
     }
 
     /**
-- 
2.43.0


From 89998985f2fb86215258820f3e1b1791b6b3d5a2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 03/18] fix: RingBufferGuarded never counts beyond the clamped
 size of its ring buffer

---
 src/RingBufferGuarded.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..aa7c2c8 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -81,7 +81,7 @@ namespace ReiserRT
             */
             explicit RingBufferGuardedBase( size_t theRequestedNumElements, bool willPrime = false )
                 : Base{ theRequestedNumElements }
-                , semaphore{ willPrime ? theRequestedNumElements : 0, theRequestedNumElements }
+                , semaphore{ willPrime ? limitToSize( theRequestedNumElements ) : 0, limitToSize( theRequestedNumElements ) }
                 , state{ willPrime ? State::NeedsPriming : State::Ready }
             {
             }
@@ -293,6 +293,21 @@ namespace ReiserRT
             using Base::getMask;
 
         private:
+            /**
+            * @brief Limit a Requested Number of Elements to the Ring Buffer Size
+            *
+            * The "simple" ring buffer clamps excessively large requests. The semaphore must not count beyond
+            * what the ring buffer can actually hold. Our Base must be constructed prior to invocation.
+            *
+            * @param theRequestedNumElements The requested number of elements.
+            *
+            * @return Returns the lessor of the requested number of elements and the size of the ring buffer.
+            */
+            [[nodiscard]] inline size_t limitToSize( size_t theRequestedNumElements ) const noexcept
+            {
+                return theRequestedNumElements < Base::getSize() ? theRequestedNumElements : Base::getSize();
+            }
+
             /**
             * @brief The Counted Semaphore Object.
             *
-- 
2.43.0


From c4fd9eee93d7de35bc4cecc9117b210c591168ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 04/18] fix: RingBufferGuarded::flush hands over exactly what
 is stored, once, and never races a late get or put

---
 src/RingBufferGuarded.hpp |  9 +++++++--
 src/RingBufferSimple.hpp  | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index aa7c2c8..b44f67b 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -267,8 +267,13 @@ namespace ReiserRT
                     throw RingBufferStateError{ "RingBufferGuarded::flush invoked while not in the Terminal state!" };
                 }
 
-                const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                // The state goes "Terminal" prior to the semaphore being aborted. Ensure that the latter has been accomplished
+                // also, so that no get or put operation may be underway, or may still occur, while we are flushing.
+                semaphore.abort();
+
+                // The available count of the semaphore is of no use here. It accounts for elements that were never primed
+                // and for elements already handed over by a previous flush.
+                while ( !Base::isEmpty() ) operation( Base::get() );
             }
 
             /**
diff --git a/src/RingBufferSimple.hpp b/src/RingBufferSimple.hpp
index a336a31..60a60bf 100644
--- a/src/RingBufferSimple.hpp
+++ b/src/RingBufferSimple.hpp
@@ -220,6 +220,15 @@ namespace ReiserRT
             */
             [[nodiscard]] inline size_t getMask() const noexcept { return numElementsMask; }
 
+            /**
+            * @brief The Is Empty Operation
+            *
+            * This operation tells whether a get would result in underflow.
+            *
+            * @return Returns true if there are no elements to get.
+            */
+            [[nodiscard]] inline bool isEmpty() const noexcept { return getCount == putCount; }
+
         private:
             /**
             * @brief Our Get Count
@@ -391,6 +400,15 @@ namespace ReiserRT
             */
             [[nodiscard]] inline size_t getMask() const noexcept { return imple.getMask(); }
 
+            /**
+            * @brief The Is Empty Operation
+            *
+            * This operation tells whether a get would result in underflow.
+            *
+            * @return Returns true if there are no elements to get from the implementation.
+            */
+            [[nodiscard]] inline bool isEmpty() const noexcept { return imple.isEmpty(); }
+
         private:
             /**
             * @brief The Implementation
-- 
2.43.0


From 481ed25779f079b2f36004456354fa59e97309b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 05/18] fix: MemoryPoolBase spaces its blocks by the padded
 element size

---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From db17196ffb08aec30ea47829ed2a9cb7e402d6c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 06/18] fix: MemoryPoolBase accounts for a returned block
 before others can obtain it

---
 src/MemoryPoolBase.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..6e0bbbc 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,14 +222,8 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
+        // We account for the block before it becomes available to others. Otherwise, a thread obtaining it right away
+        // could decrement the running count before we have incremented it, taking it and the low watermark below zero.
 
         // Manage Watermark Logic
         InternalRunningStateStats runningStats;
@@ -244,6 +238,15 @@ private:
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Utilize small block scoping for mutex lock to minimize lock time.
+        {
+            // Take lock RAII style
+            std::lock_guard< Mutex > lock( mutex );
+
+            // Return raw memory back to the pool.
+            ringBuffer.put( pRaw );
+        }
     }
 
     /**
-- 
2.43.0


From b1bb8f2540fe7047952f67c72f1a48da428c0083 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 07/18] fix: ObjectPoolDeleter returns the start of the
 complete object to the pool

---
 src/ObjectPoolDeleter.hpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..d5fa01f 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -94,7 +96,35 @@ namespace ReiserRT
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                // The object may be of a type derived from T, and T need not be its first base.
+                // What we return to the pool is the start of the complete object, determined prior to its destruction.
+                void * pRaw = startOf( pT, std::is_polymorphic< T >{} );
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
+
+        private:
+            /**
+            * @brief Get the Start of the Complete Object
+            *
+            * A polymorphic type may be a base, anywhere within the complete object.
+            *
+            * @param pT A pointer to the object.
+            * @return Returns the address of the complete object, that is, of the memory block obtained from the pool.
+            */
+            static void * startOf( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
+
+            /**
+            * @brief Get the Start of the Complete Object
+            *
+            * A non-polymorphic type is always the complete object.
+            *
+            * @param pT A pointer to the object.
+            * @return Returns the address of the object, that is, of the memory block obtained from the pool.
+            */
+            static void * startOf( T * pT, std::false_type ) noexcept { return pT; }
         };
     }
 }
-- 
2.43.0


From d1af62a54d264690f4c06688d3040d9df2fbb026 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 08/18] fix: MessageQueue accounts for a released slot before
 others can obtain it

---
 src/MessageQueueBase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..5c957d1 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -421,8 +421,8 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
+    // We account for the slot before it becomes available to others. Otherwise, a thread obtaining it right away could
+    // increment the running count before we have decremented it, raising it and the high watermark above our size.
 
     // Manage running count.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
@@ -438,6 +438,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Put formerly cooked memory into the cooked ring buffer.
+    rawRingBuffer.put( pRaw );
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 70c94088db1b22bf961bfde5ffcad6f9d7142271 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 09/18] fix: MessageQueue does not terminate when aborted while
 a slot is being released

---
 src/MessageQueueBase.cpp | 7 ++++---
 src/MessageQueueBase.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 5c957d1..b698122 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -199,7 +199,7 @@ private:
     *
     * @param pRaw A pointer to raw memory that is to be made available for cooking.
     *
-    * @throw Throws std::runtime_error if the "raw" ring buffer becomes aborted.
+    * @note This operation does not throw. If the "raw" ring buffer becomes aborted, it has no effect.
     */
     void rawPutAndNotify( void * pRaw );
 
@@ -439,8 +439,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
 
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
+    // Put formerly cooked memory into the raw ring buffer. We are invoked by destructors, possibly while an exception is
+    // being propagated. Should the ring buffer be aborted in the meantime, there is nobody left to notify.
+    try { rawRingBuffer.put( pRaw ); } catch ( const SemaphoreAborted & ) {} catch ( const RingBufferStateError & ) {}
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..1871dea 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -546,7 +546,7 @@ namespace ReiserRT
             *
             * @param pRaw A pointer to raw memory that is to be made available for cooking.
             *
-            * @throw Throws ReiserRT::Core::SemaphoreAborted if the "raw" ring buffer becomes aborted.
+            * @note This operation does not throw. If the "raw" ring buffer becomes aborted, it has no effect.
             */
             void rawPutAndNotify( void * pRaw );
 
-- 
2.43.0


From 4686bb97e253638f5f183790c0a519b4b7d2a93a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 10/18] fix: MessageQueue destroys a message it cannot enqueue
 when aborted, and says so

---
 src/MessageQueueBase.cpp  |  8 +++++++-
 src/MessageQueueBase.hpp  |  8 ++++++++
 src/RingBufferGuarded.hpp | 11 ++++++++---
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index b698122..ec45556 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -173,7 +173,8 @@ private:
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
         // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        if ( !cookedRingBuffer.put( pCooked ) )
+            throw SemaphoreAborted( "MessageQueueBase::Imple::cookedPutAndNotify: Aborted!" );
     }
 
     /**
@@ -498,7 +499,12 @@ void * MessageQueueBase::rawWaitAndGet()
 
 void MessageQueueBase::cookedPutAndNotify( MessageBase * pCooked )
 {
+    // CookedMemoryManager ensures that the message is destroyed and its memory is returned to the raw pool
+    // should it not be taken by the cooked ring buffer.
+    CookedMemoryManager cookedMemoryManager{ this, pCooked };
+
     pImple->cookedPutAndNotify( pCooked );
+    cookedMemoryManager.release();
 }
 
 MessageBase * MessageQueueBase::cookedWaitAndGet()
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 1871dea..29e6fa2 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -445,6 +445,14 @@ namespace ReiserRT
                 */
                 CookedMemoryManager &operator=( CookedMemoryManager &&another ) = delete;
 
+                /**
+                * @brief The Release Operation
+                *
+                * This operation releases CookedMemoryManager from responsibility of destroying the MessageBase
+                * object and of returning its memory back to the raw queue.
+                */
+                void release() { pMsg = nullptr; }
+
             private:
                 /**
                 * @brief A Reference to the MessageQueueBase that constructed us.
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index b44f67b..dbd8010 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -167,11 +167,13 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the value was put and false if not, because the ring buffer is in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                if ( state == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
                 if ( state != State::Ready )
@@ -184,6 +186,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -583,8 +586,10 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::RingBufferOverflow if there is no room left to fulfill the request (full).
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the pointer was put and false if not, because the ring buffer is in the "Terminal" state.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From 824e6582f7cd5b0ce2d6de2dd3c62a90651af8e6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 11/18] fix: MessageQueue returns the start of the complete
 message to its raw queue

---
 src/MessageQueueBase.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 29e6fa2..ade2a13 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -425,7 +425,17 @@ namespace ReiserRT
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
                 * and returns the formerly "cooked" MessageBase memory back to the raw queue.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( pMQB && pMsg )
+                    {
+                        // MessageBase need not be the first base of the message. What we return is the start of the
+                        // complete object, determined prior to its destruction.
+                        void * pRaw = dynamic_cast< void * >( pMsg );
+                        pMsg->~MessageBase();
+                        pMQB->rawPutAndNotify( pRaw );
+                    }
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
-- 
2.43.0


From fa300a1ca03d979b7592dba00f9efc51fe0e6b4b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 12/18] fix: AutoDispatchLock move assignment releases the lock
 held by its target

---
 src/MessageQueueBase.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index ade2a13..bf59382 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -277,6 +277,9 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        // Release what we hold, if anything. Otherwise, it would never be released.
+                        unlock();
+
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0


From 988807cc328bcf4b32ddc0304b11c57892c6d920 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 13/18] fix: JobDispatcher starts no more than the intended
 number of jobs when there are more tasks than jobs

---
 examples/JobDispatcher/src/JobDispatcher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/JobDispatcher/src/JobDispatcher.cpp b/examples/JobDispatcher/src/JobDispatcher.cpp
index 891f269..16c94cd 100644
--- a/examples/JobDispatcher/src/JobDispatcher.cpp
+++ b/examples/JobDispatcher/src/JobDispatcher.cpp
@@ -201,6 +201,9 @@ private:
         // Fire off initial jobs.
         for ( auto & iter : jobTasks )
         {
+            // There may be more tasks than there are jobs.
+            if ( maxJobs == lastJobId ) break;
+
             auto taskId = iter.first;
             iter.second->doJob(pool.createObj<JobData>(pEstTimeGen, taskId, ++lastJobId ) );
             std::cout << "Fired off Job #" << lastJobId << " to task #" << iter.second->getTaskId() << "." << std::endl;
-- 
2.43.0


From 65b050b0ff962c7a7642bba0bcef837b42f7f99d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 14/18] Revert "fix: JobDispatcher starts no more than the
 intended number of jobs when there are more tasks than jobs"

This reverts commit 988807cc328bcf4b32ddc0304b11c57892c6d920.
---
 examples/JobDispatcher/src/JobDispatcher.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/examples/JobDispatcher/src/JobDispatcher.cpp b/examples/JobDispatcher/src/JobDispatcher.cpp
index 16c94cd..891f269 100644
--- a/examples/JobDispatcher/src/JobDispatcher.cpp
+++ b/examples/JobDispatcher/src/JobDispatcher.cpp
@@ -201,9 +201,6 @@ private:
         // Fire off initial jobs.
         for ( auto & iter : jobTasks )
         {
-            // There may be more tasks than there are jobs.
-            if ( maxJobs == lastJobId ) break;
-
             auto taskId = iter.first;
             iter.second->doJob(pool.createObj<JobData>(pEstTimeGen, taskId, ++lastJobId ) );
             std::cout << "Fired off Job #" << lastJobId << " to task #" << iter.second->getTaskId() << "." << std::endl;
-- 
2.43.0


From 58f7d2c32d2cd27cd54703d104c6707b505fc378 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 15/18] fix: memory pools whose size is not representable throw
 std::bad_alloc instead of overrunning a too small arena

---
 src/BlockPool.hpp      | 20 +++++++++++++++++++-
 src/MemoryPoolBase.cpp | 23 ++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/BlockPool.hpp b/src/BlockPool.hpp
index 7728e4d..cace140 100644
--- a/src/BlockPool.hpp
+++ b/src/BlockPool.hpp
@@ -12,6 +12,9 @@
 #include "BlockPoolFwd.hpp"
 #include "BlockPoolDeleter.hpp"
 
+#include <limits>
+#include <new>
+
 namespace ReiserRT
 {
     namespace Core
@@ -62,9 +65,11 @@ namespace ReiserRT
             * @param requestedNumberOfBlocks The requested BlockPool size in blocks. This will be rounded up to the next whole
             * power of two and clamped within RingBuffer design limits.
             * @param theElementsPerBlock. This specifies the number of elements to be delivered in a call to `getBlock`.
+            *
+            * @throw Throws std::bad_alloc if memory requirements cannot be satisfied.
             */
             explicit BlockPool( size_t requestedNumberOfBlocks, size_t theElementsPerBlock )
-              : ReiserRT::Core::MemoryPoolBase{ requestedNumberOfBlocks, sizeof( T ) * theElementsPerBlock }
+              : ReiserRT::Core::MemoryPoolBase{ requestedNumberOfBlocks, getBlockAllocSize( theElementsPerBlock ) }
               , elementsPerBlock{ theElementsPerBlock }
             {
             }
@@ -157,6 +162,19 @@ namespace ReiserRT
             using MemoryPoolBase::getRunningStateStatistics;
 
         private:
+            /**
+            * @brief Get the Block Allocation Size
+            *
+            * @throw Throws std::bad_alloc if the number of bytes required for a block is not representable.
+            *
+            * @return Returns the number of bytes required for a block.
+            */
+            static size_t getBlockAllocSize( size_t numElements )
+            {
+                if ( numElements > std::numeric_limits< size_t >::max() / sizeof( T ) ) throw std::bad_alloc{};
+                return sizeof( T ) * numElements;
+            }
+
             /**
             * @brief Create a Concrete BlockPoolDeleter Object
             *
diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 6e0bbbc..1fca820 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -13,7 +13,9 @@
 #include "Mutex.hpp"
 
 #include <atomic>
+#include <limits>
 #include <mutex>
+#include <new>
 
 using namespace ReiserRT::Core;
 
@@ -112,7 +114,7 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
+      , arena{ new unsigned char [ getArenaAllocSize( paddedElementSize, poolSize ) ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
@@ -278,16 +280,35 @@ private:
     * properly aligned to the size of the architecture. It is static as it is used at time of
     * construction.
     *
+    * @throw Throws std::bad_alloc if the padded size is not representable.
+    *
     * @return Returns the padded element type allocation size which may be slightly larger than
     * the requested element size.
     */
     static size_t getPaddedTypeAllocSize( size_t requestedElementSize )
     {
+        if ( requestedElementSize > std::numeric_limits< size_t >::max() - sizeof( void * ) ) throw std::bad_alloc{};
+
         size_t alignmentOverspill = requestedElementSize % sizeof( void * );
         return  ( alignmentOverspill != 0 ) ? requestedElementSize + sizeof( void * ) - alignmentOverspill :
                 requestedElementSize;
     }
 
+    /**
+    * @brief Get the Arena Allocation Size
+    *
+    * This operation provides the number of bytes required for the memory arena.
+    *
+    * @throw Throws std::bad_alloc if the number of bytes required is not representable.
+    *
+    * @return Returns the number of bytes required for the memory arena.
+    */
+    static size_t getArenaAllocSize( size_t thePaddedElementSize, size_t numElements )
+    {
+        if ( thePaddedElementSize > std::numeric_limits< size_t >::max() / numElements ) throw std::bad_alloc{};
+        return thePaddedElementSize * numElements;
+    }
+
     /**
     * @brief Our RingBuffer
     *
-- 
2.43.0


From 9a1bea18716d0779ef03f307cd0fa005a051d704 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 16/18] fix: a MessageQueue whose size is not representable
 throws std::bad_alloc instead of overrunning a too small arena

---
 src/MessageQueueBase.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index ec45556..19b1c23 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -15,8 +15,10 @@
 #include "Mutex.hpp"
 
 #include <cstring>
+#include <limits>
 #include <thread>
 #include <mutex>
+#include <new>
 
 using namespace ReiserRT::Core;
 
@@ -236,11 +238,24 @@ private:
     * properly aligned to the size of the architecture. It is static as it is used at time of
     * construction.
     *
+    * @throw Throws std::bad_alloc if the padded size is not representable.
+    *
     * @return Returns the padded element type allocation size which may be slightly larger than
     * the requested element size.
     */
     static size_t getPaddedTypeAllocSize( size_t requestedElementSize );
 
+    /**
+    * @brief Get the Arena Allocation Size
+    *
+    * This operation provides the number of bytes required for the memory arena.
+    *
+    * @throw Throws std::bad_alloc if the number of bytes required is not representable.
+    *
+    * @return Returns the number of bytes required for the memory arena.
+    */
+    static size_t getArenaAllocSize( size_t paddedElementSize, size_t numElements );
+
     /**
     * @brief The Actual Requested Size
     *
@@ -357,7 +372,7 @@ MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t
   : requestedNumElements{ theRequestedNumElements }
   , elementSize{ getPaddedTypeAllocSize( theElementSize ) }
   , pMutex{ enableDispatchLocking ? new Mutex{} : nullptr }
-  , arena{ new unsigned char [ elementSize * requestedNumElements ] }
+  , arena{ new unsigned char [ getArenaAllocSize( elementSize, requestedNumElements ) ] }
   , rawRingBuffer{ theRequestedNumElements, true }
   , cookedRingBuffer{ theRequestedNumElements }
 {
@@ -461,11 +476,19 @@ void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
 
 size_t MessageQueueBase::Imple::getPaddedTypeAllocSize( size_t requestedElementSize )
 {
+    if ( requestedElementSize > std::numeric_limits< size_t >::max() - sizeof( void * ) ) throw std::bad_alloc{};
+
     size_t alignmentOverspill = requestedElementSize % sizeof( void * );
     return  ( alignmentOverspill != 0 ) ? requestedElementSize + sizeof( void * ) - alignmentOverspill :
             requestedElementSize;
 }
 
+size_t MessageQueueBase::Imple::getArenaAllocSize( size_t paddedElementSize, size_t numElements )
+{
+    if ( numElements && paddedElementSize > std::numeric_limits< size_t >::max() / numElements ) throw std::bad_alloc{};
+    return paddedElementSize * numElements;
+}
+
 
 MessageQueueBase::MessageQueueBase( std::size_t requestedNumElements, std::size_t requestedMaxMessageSize,
                                     bool enableDispatchLocking )
-- 
2.43.0


From c6d0742ce4d4569e893ac6c7a2c5aecabeec0b12 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 17/18] fix: MessageQueue allocates its arena last, so that it
 does not leak should its ring buffers fail to be constructed

---
 src/MessageQueueBase.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 19b1c23..b911a5b 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -279,14 +279,6 @@ private:
     */
     MutexPtrType pMutex;
 
-    /**
-    * @brief Our Memory Arena
-    *
-    * This attribute records the pointer to our memory arena that was allocated during construction so that
-    * it may be properly returned to the standard heap during ObjectQueue destruction.
-    */
-    alignas( void * ) unsigned char * arena;
-
     /**
     * @brief The Name of the Last Message Dispatched
     *
@@ -325,6 +317,15 @@ private:
     * This attribute provides a quick means of detecting whether we have been aborted.
     */
     std::atomic_bool aborted{ false };
+
+    /**
+    * @brief Our Memory Arena
+    *
+    * This attribute records the pointer to our memory arena that was allocated during construction so that
+    * it may be properly returned to the standard heap during ObjectQueue destruction. It is our last attribute.
+    * Nothing that could fail may follow its allocation, as there would be nobody left to return it.
+    */
+    alignas( void * ) unsigned char * arena;
 };
 
 const char * MessageBase::name() const
@@ -372,9 +373,9 @@ MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t
   : requestedNumElements{ theRequestedNumElements }
   , elementSize{ getPaddedTypeAllocSize( theElementSize ) }
   , pMutex{ enableDispatchLocking ? new Mutex{} : nullptr }
-  , arena{ new unsigned char [ getArenaAllocSize( elementSize, requestedNumElements ) ] }
   , rawRingBuffer{ theRequestedNumElements, true }
   , cookedRingBuffer{ theRequestedNumElements }
+  , arena{ new unsigned char [ getArenaAllocSize( elementSize, requestedNumElements ) ] }
 {
     // Prime the raw ring buffer with void pointers into our arena space. We do this with a lambda function.
     auto funk = [ this ]( size_t i )
-- 
2.43.0


From 53e00e038059212c9b144e44cd5ba636ad2054c2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 18/18] fix: Mutex reports that it could not be initialised
 instead of being left unusable

---
 src/Mutex.cpp | 9 ++++++++-
 src/Mutex.hpp | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Mutex.cpp b/src/Mutex.cpp
index ff37479..884dfbe 100644
--- a/src/Mutex.cpp
+++ b/src/Mutex.cpp
@@ -34,10 +34,17 @@ Mutex::Mutex()
     }
 
     // Initialize our native type (pthread_mutex_t) with our modified attribute.
-    pthread_mutex_init( nativeHandle, &attr );
+    int e = pthread_mutex_init( nativeHandle, &attr );
 
     // Destroy the attribute, we are done with it.
     pthread_mutexattr_destroy( &attr );
+
+    // If we have no mutex, we cannot be constructed.
+    if ( e )
+    {
+        delete nativeHandle;
+        throw std::system_error{ e, std::system_category() };
+    }
 #endif
 }
 
diff --git a/src/Mutex.hpp b/src/Mutex.hpp
index e1b84d8..a14b874 100644
--- a/src/Mutex.hpp
+++ b/src/Mutex.hpp
@@ -64,6 +64,8 @@ namespace ReiserRT
             *
             * This operation constructs a Mutex with the PTHREAD_PRIO_INHERIT mutex protocol under POSIX PTHREADS.
             * Otherwise, it constructs an encapsulated std::mutex.
+            *
+            * @throw Throws std::system_error should the mutex not be initialised.
             */
             Mutex();
 
-- 
2.43.0

