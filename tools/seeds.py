SEEDS = {}
def S(sid, prop, needs, breaks, *edits, **kw):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, **kw)

# ---------------------------------------------------------------- Semaphore
S('c01-giver-barging', 'C01', 'a second giver that uses the room between the signal and the moment the woken giver has the lock again',
  'a woken giver adds its unit without looking at the count again: the count exceeds the maximum',
  ('Semaphore.cpp', '''            --givePendingCount;
        }''', '''            --givePendingCount;

            // We were notified, the room made is ours.
            if ( !abortFlag ) break;
        }'''))
S('c02-room-signal-on-edge', 'C02', 'two givers blocked at a maximum of two, two takes before the first woken giver has given',
  'a take signals the givers only when it leaves the maximum: the second blocked giver stays blocked with room',
  ('Semaphore.cpp', """        // If we have any pending "givers", we must notify them.
        if ( givePendingCount )
""", """        // If we have any pending "givers", we must notify them.
        if ( givePendingCount && availableCount + 1 == maxAvailableCount )
"""))
S('c02-pending-narrow', 'C02', 'exactly 256 threads blocked in give when a unit is taken',
  'the pending counters wrap at 256: a take sees no pending giver and signals nobody',
  ('Semaphore.cpp', '    using PendingCountType = uint16_t;', '    using PendingCountType = uint8_t;'))
S('c03-functor-before-room', 'C03', 'a give with a functor while the count is at the maximum',
  'the give functor runs before there is room for the unit',
  ('Semaphore.cpp', """        _giveWait( lock );
        try
        {
            operation();
        }""", """        try
        {
            operation();
            _giveWait( lock );
        }"""))
S('c03-empty-functor', 'C03', 'an empty std::function passed to take',
  'an empty functor is silently skipped, the unit is taken and nothing is thrown',
  ('Semaphore.cpp', '''        operation();
        availableCountManager.release();
''', '''        if ( operation ) operation();
        availableCountManager.release();
'''))
S('c04-abort-wakes-one-giver', 'C04', 'two givers blocked at the maximum when abort is invoked',
  'only one of the blocked givers is woken by abort',
  ('Semaphore.cpp', '            pthread_cond_broadcast( &giveConditionVar );', '            pthread_cond_signal( &giveConditionVar );'))
S('c04-units-before-abort', 'C04', 'a take after abort while units are available',
  'take looks at the count before it looks at the abort flag and succeeds on an aborted semaphore',
  ('Semaphore.cpp', '''            // If the abort flag is set, throw a SemaphoreAborted exception.
            if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };

            // If the available count is greater than zero, decrement it and and escape out.
            // We have "taken" the semaphore.  Waiting is not necessary.
            if ( availableCount > 0 )
            {
                --availableCount;
                break;
            }
''', '''            // If the available count is greater than zero, decrement it and and escape out.
            // We have "taken" the semaphore.  Waiting is not necessary.
            if ( availableCount > 0 )
            {
                --availableCount;
                break;
            }

            // If the abort flag is set, throw a SemaphoreAborted exception.
            if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };
'''))
S('c05-initial-truncated', 'C05', 'an initial count of 2^32 or more',
  'the initial count is truncated to 32 bits instead of clamped',
  ('Semaphore.cpp', '''        , availableCount{ theInitialCount > std::numeric_limits< AvailableCountType >::max() ?
            std::numeric_limits< AvailableCountType >::max() : AvailableCountType( theInitialCount ) }''',
   '''        , availableCount{ AvailableCountType( std::min( theInitialCount, std::numeric_limits< size_t >::max() ) ) }'''))
S('c05-overflow-check-late', 'C05', 'a maximum of 2^32-1 and that many units',
  'the absolute limit is looked at after the wait condition only: give blocks there instead of throwing SemaphoreOverflow',
  ('Semaphore.cpp', '''            if ( std::numeric_limits< AvailableCountType >::max() == availableCount )
                    throw''', '''            if ( std::numeric_limits< AvailableCountType >::max() == availableCount && maxAvailableCount != availableCount )
                    throw'''))
# ---------------------------------------------------------------- Mutex
S('c06-trylock-errors', 'C06', 'an error other than EBUSY from pthread_mutex_trylock',
  'try_lock reports an error as if the mutex had been acquired',
  ('Mutex.cpp', '''    if ( e != 0 && e != EBUSY ) throw std::system_error{ e, std::system_category() };
''', '''    if ( e == EINVAL ) throw std::system_error{ e, std::system_category() };
'''), ('Mutex.cpp', '    return e == 0;', '    return e != EBUSY;'))
S('c06-unlock-eperm', 'C06', 'unlock by a thread that is not the owner (EPERM)',
  'unlock swallows EPERM',
  ('Mutex.cpp', '''    int e = pthread_mutex_unlock( nativeHandle );

    // EINVAL, EAGAIN and  EPERM potentially.
    if ( e ) throw''', '''    int e = pthread_mutex_unlock( nativeHandle );

    // EINVAL, EAGAIN and  EPERM potentially.
    if ( e && e != EPERM ) throw'''))
S('c07-protocol-inverted', 'C07', 'threads of three priorities',
  'the priority inheritance protocol is requested only where it is already the default',
  ('Mutex.cpp', 'if ( protocol != PTHREAD_PRIO_INHERIT )', 'if ( protocol == PTHREAD_PRIO_INHERIT )'))
S('c07-semaphore-std-mutex', 'C07', 'threads of three priorities using a Semaphore',
  'the Semaphore uses a std::mutex, without priority inheritance',
  ('Semaphore.cpp', '''class ReiserRT_Core_EXPORT Semaphore::Imple
{
public:
''', '''class ReiserRT_Core_EXPORT Semaphore::Imple
{
    using Mutex = std::mutex;
public:
'''))
S('c07-pool-spinlock', 'C07', 'threads of three priorities using a memory pool, the lowest preempted inside',
  'the pool is guarded by a spin lock, without priority inheritance',
  ('MemoryPoolBase.cpp', '''class ReiserRT_Core_EXPORT MemoryPoolBase::Imple
{
''', '''class ReiserRT_Core_EXPORT MemoryPoolBase::Imple
{
    // The lock is only ever held for a few instructions.
    class Mutex
    {
    public:
        void lock() { while ( flag.test_and_set( std::memory_order_acquire ) ) sched_yield(); }
        void unlock() { flag.clear( std::memory_order_release ); }
    private:
        std::atomic_flag flag = ATOMIC_FLAG_INIT;
    };
'''))
# ---------------------------------------------------------------- Ring buffers
S('c08-rollover', 'C08', 'more than 2^32 puts', 'the underflow check compares the counters directly and fails when they roll over',
  ('RingBufferSimple.hpp', 'getCount{ CounterType( ~0 ) }', 'getCount{ 0 }'),
  ('RingBufferSimple.hpp', 'putCount{ CounterType( ~0 ) }', 'putCount{ 0 }'),
  ('RingBufferSimple.hpp', 'if ( ( getCount - putCount + numElements ) > numElementsMask )', 'if ( getCount >= putCount )'), flags='-O2', tmo=200)
S('c08-size-truncated', 'C08', 'a requested number of elements of 2^32 or more', 'the request is truncated to 32 bits before it is clamped',
  ('RingBufferSimple.hpp', '''                auto n = CounterType( requestedNumElements < 2 ? 2 : requestedNumElements > maxElements ? maxElements : requestedNumElements );''',
   '''                auto n = CounterType( requestedNumElements );
                n = n < 2 ? 2 : n > maxElements ? maxElements : n;'''))
S('c10-prime-revives', 'C10', 'abort while the last priming functor is running', 'prime makes an aborted buffer ready again',
  ('RingBufferGuarded.hpp', '''                do
                {   // If the current state transitions to Terminal, then we will not go "Ready".
                    if ( currentState == State::Terminal ) return;
                } while ( !state.compare_exchange_weak( currentState, State::Ready ) );''', '''                while ( !state.compare_exchange_weak( currentState, State::Ready ) );'''))
S('c10-prime-check-then-set', 'C10', 'abort between the last look at the state and the store of Ready', 'prime makes an aborted buffer ready again',
  ('RingBufferGuarded.hpp', '''                do
                {   // If the current state transitions to Terminal, then we will not go "Ready".
                    if ( currentState == State::Terminal ) return;
                } while ( !state.compare_exchange_weak( currentState, State::Ready ) );''', '''                // If the current state transitions to Terminal, then we will not go "Ready".
                if ( currentState == State::Terminal ) return;
                state = State::Ready;'''))
# ---------------------------------------------------------------- Pools
S('c11-release-before-destroy', 'C11', 'an element destructor that obtains another block, or another thread that does meanwhile',
  'the block is back in the pool before its elements are destroyed',
  ('BlockPoolDeleter.hpp', '''                if ( !pool ) return;
''', '''                if ( !pool ) return;

                // Make the block available as early as possible.
                returnRawBlock( pT );
'''), ('BlockPoolDeleter.hpp', '''                        _pT->~T();
                }

                returnRawBlock( pT );
''', '''                        _pT->~T();
                }
'''), also=['C15'])
S('c12-pad-four', 'C12', 'an element size that is not a multiple of 8', 'blocks are padded to a multiple of 4 only',
  ('MemoryPoolBase.cpp', '''requestedElementSize % sizeof( void * );''', '''requestedElementSize % sizeof( uint32_t );'''),
  ('MemoryPoolBase.cpp', '''requestedElementSize + sizeof( void * ) - alignmentOverspill''', '''requestedElementSize + sizeof( uint32_t ) - alignmentOverspill'''))
S('c13-gate-after-block', 'C13', 'a type that is too large and a pool that is exhausted', 'the size is checked after a block has been taken',
  ('ObjectPool.hpp', '''                if ( getPaddedElementSize() < sizeof( D ) )
                    throw ObjectPoolElementSizeError( "ObjectPool::createObj: The size of type D exceeds maximum element size" );
''', ''), ('ObjectPool.hpp', '''                RawMemoryManager rawMemoryManager{ this, pRaw };
''', '''                RawMemoryManager rawMemoryManager{ this, pRaw };
                if ( getPaddedElementSize() < sizeof( D ) )
                    throw ObjectPoolElementSizeError( "ObjectPool::createObj: The size of type D exceeds maximum element size" );
'''))
S('c14-plain-store', 'C14', 'two threads returning or obtaining blocks at the same time', 'an update of the running count is lost',
  ('MemoryPoolBase.cpp', '''        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));''',
   '''        } while (runningState.load(std::memory_order_seq_cst) != runningStats.state);
        runningState.store(runningStatsNew.state, std::memory_order_seq_cst);'''))
S('c14-watermark-second-step', 'C14', 'a snapshot between two updates of the state', 'the low watermark is lowered in a second step: snapshots show it above the running count',
  ('MemoryPoolBase.cpp', '''            if (--runningStatsNew.counts.runningCount < runningStats.counts.lowWatermark)
                runningStatsNew.counts.lowWatermark = runningStatsNew.counts.runningCount;

        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));''',
   '''            --runningStatsNew.counts.runningCount;
        } while (!runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                     std::memory_order_seq_cst, std::memory_order_seq_cst));

        // Lower the low watermark, if necessary.
        const auto reached = runningStatsNew.counts.runningCount;
        runningStats.state = runningStatsNew.state;
        while (reached < runningStats.counts.lowWatermark) {
            runningStatsNew.state = runningStats.state;
            runningStatsNew.counts.lowWatermark = reached;
            if (runningState.compare_exchange_weak(runningStats.state, runningStatsNew.state,
                                                   std::memory_order_seq_cst, std::memory_order_seq_cst)) break;
        }'''))
S('c15-memset-limited', 'C15', 'a block larger than a page that was used before', 'only the first 4096 bytes of a reused block are cleared',
  ('MemoryPoolBase.cpp', '''        memset(pRaw, 0, paddedElementSize);''', '''        memset(pRaw, 0, paddedElementSize < 4096 ? paddedElementSize : 4096);'''), also=['C13'])
# ---------------------------------------------------------------- MessageQueue
S('c16-cooked-depth', 'C16', 'a queue of more than two messages filled completely', 'the queue blocks producers one message early',
  ('MessageQueueBase.cpp', '  , cookedRingBuffer{ theRequestedNumElements }', '  , cookedRingBuffer{ theRequestedNumElements > 2 ? theRequestedNumElements - 1 : theRequestedNumElements }'))
S('c17-put-release-early', 'C17', 'a message whose move constructor throws in put', 'the slot is lost',
  ('MessageQueue.hpp', '''                M * pM = new( pRaw )M{ std::forward<M>(msg) };
''', '''                rawMemoryManager.release();
                M * pM = new( pRaw )M{ std::forward<M>(msg) };
'''))
S('c17-wakeup-unguarded', 'C17', 'a wake-up functor that throws', 'the message is never destroyed and its slot is lost',
  ('MessageQueue.cpp', '''    CookedMemoryManager cookedMemoryManager{ this, pM };

    wakeupFunctor();

''', '''    wakeupFunctor();

    CookedMemoryManager cookedMemoryManager{ this, pM };
'''))
S('c18-relock', 'C18', 'lock again after unlock on the same AutoDispatchLock', 'the lock is leaked: destruction does not release it',
  ('MessageQueueBase.cpp', '''        pMQB->pImple->pMutex->lock();
        locked = 1;''', '''        pMQB->pImple->pMutex->lock();'''))
S('c18-unlock-twice', 'C18', 'unlock followed by destruction (or unlock)', 'the lock is released twice, possibly while somebody else holds it',
  ('MessageQueueBase.cpp', '''        pMQB->pImple->pMutex->unlock();
        locked = 0;''', '''        pMQB->pImple->pMutex->unlock();'''))
S('c19-raw-not-aborted', 'C19', 'a producer blocked on a full queue when it is aborted', 'blocked producers are not released',
  ('MessageQueueBase.cpp', '''        cookedRingBuffer.abort();
        rawRingBuffer.abort();''', '''        cookedRingBuffer.abort();'''))
S('c19-flush-first', 'C19', 'a queue destroyed with undelivered messages', 'undelivered messages are not destroyed',
  ('MessageQueueBase.cpp', '''auto funk = []( void * pV ) { auto * pM = reinterpret_cast< MessageBase * >( pV ); pM->~MessageBase(); };
    cookedRingBuffer.flush( funk );''', '''auto funk = [ this ]( void * pV ) { auto * pM = reinterpret_cast< MessageBase * >( pV ); if ( !aborted ) pM->~MessageBase(); };
    cookedRingBuffer.flush( funk );'''))
S('c20-stale-clone', 'C20', 'a CAS that fails because another thread changed the statistics', 'an update of the running count is lost',
  ('MessageQueueBase.cpp', '''    do
    {
        // Clone atomically captured state,
        // We will be incrementing the running count, may raise the high water mark.
        runningStatsNew.state = runningStats.state;
''', '''    // Clone atomically captured state,
    // We will be incrementing the running count, may raise the high water mark.
    runningStatsNew.state = runningStats.state;
    do
    {
'''))
S('c21-purge-highwater', 'C21', 'a purge when fewer messages are enqueued than there once were', 'purge blocks forever',
  ('MessageQueue.cpp', 'for ( ; 0 != runningState.runningCount; --runningState.runningCount )', 'for ( ; 0 != runningState.highWatermark; --runningState.highWatermark )'))
S('c22-emplace-gate', 'C22', 'a message type up to one pointer larger than the slot, emplaced', 'emplace accepts messages that do not fit their slot',
  ('MessageQueue.hpp', '''                if ( getElementSize() < sizeof( M ) )
                    throw MessageQueueElementSizeError( "MessageQueue::emplace:''', '''                if ( getElementSize() + sizeof( void * ) < sizeof( M ) )
                    throw MessageQueueElementSizeError( "MessageQueue::emplace:'''))
S('c22-padding', 'C22', 'a requested message size that is not a multiple of 8', 'slots are not aligned for pointers',
  ('MessageQueueBase.cpp', '''requestedElementSize % sizeof( void * );''', '''requestedElementSize % alignof( uint32_t );'''))
S('c23-name-not-atomic', 'C23', 'getNameOfLastMessageDispatched concurrent with a dispatch', 'data race on the name',
  ('MessageQueueBase.cpp', '    std::atomic< const char * > nameOfLastMessageDispatched{ "[NONE]" };', '    const char * nameOfLastMessageDispatched{ "[NONE]" };'),
  ('MessageQueueBase.cpp', 'nameOfLastMessageDispatched.load()', 'nameOfLastMessageDispatched'),
  ('MessageQueueBase.cpp', 'nameOfLastMessageDispatched.store( pMsg->name() );', 'nameOfLastMessageDispatched = pMsg->name();'), flags='-g -O1 -fsanitize=thread')
S('c23-count-unlocked', 'C23', 'getAvailableCount concurrent with take or give', 'data race on the available count',
  ('Semaphore.cpp', '''    {
        std::lock_guard< Mutex > lock( mutex );

        return availableCount;''', '''    {
        return availableCount;'''), flags='-g -O1 -fsanitize=thread')
S('c24-long-name', 'C24', 'a message whose name has more than 15 characters', 'dispatch allocates',
  ('MessageQueueBase.cpp', 'nameOfLastMessageDispatched.store( pMsg->name() );', '''const std::string messageName{ pMsg->name() };
    nameOfLastMessageDispatched.store( messageName.empty() ? "[UNNAMED]" : pMsg->name() );'''),
  ('MessageQueueBase.cpp', '#include <cstring>', '#include <cstring>\n#include <string>'))
S('c24-functor-copy', 'C24', 'a RingBufferGuarded of a scalar type larger than 8 bytes', 'put allocates',
  ('RingBufferGuarded.hpp', 'semaphore.give(std::ref(putFunk));', 'semaphore.give(putFunk);'))
S('c25-name-after', 'C25', 'a look at the name while a dispatch is running, or after one that threw', 'the name is recorded after the dispatch',
  ('MessageQueueBase.cpp', '''    nameOfLastMessageDispatched.store( pMsg->name() );
''', ''), ('MessageQueueBase.cpp', '''        std::lock_guard< Mutex > lockGuard{ *pMutex };
        pMsg->dispatch();
    }
    else
    {
        pMsg->dispatch();
    }
''', '''        std::lock_guard< Mutex > lockGuard{ *pMutex };
        pMsg->dispatch();
    }
    else
    {
        pMsg->dispatch();
    }
    nameOfLastMessageDispatched.store( pMsg->name() );
'''))

S('c13-gate-unpadded', 'C13', 'a derived type larger than the requested element size but not than the padded one', 'a derived type that fits in its block is refused',
  ('ObjectPool.hpp', 'if ( getPaddedElementSize() < sizeof( D ) )', 'if ( getElementSize() < sizeof( D ) )'))
S('c13-memset-element', 'C13', 'a derived type that uses the padding of its block, in a block used before', 'the padding of a reused block is not zeroed',
  ('MemoryPoolBase.cpp', 'memset(pRaw, 0, paddedElementSize);', 'memset(pRaw, 0, elementSize);'))
S('c15-padded-count', 'C15', 'class elements whose total size is not a multiple of the pointer size, with room for another element in the padding', 'more elements are destroyed (and reported) than were constructed',
  ('MemoryPoolDeleterBase.cpp', 'return pool->getElementSize();', 'return pool->getPaddedElementSize();'))
S('c05-counts-narrow', 'C05', 'counts beyond 65535', 'the available count is 16 bits wide: 65536 units are none',
  ('Semaphore.cpp', '    using AvailableCountType = uint32_t;', '    using AvailableCountType = uint16_t;'))

# ---------------------------------------------------------------- second batch
S('c23-name-relaxed', 'C23', 'a name function that writes the name it returns, and a thread asking for that name during the dispatch',
  'the name pointer is published without release: what the name function wrote is not ordered before its use',
  ('MessageQueueBase.cpp', 'nameOfLastMessageDispatched.store( pMsg->name() );', 'nameOfLastMessageDispatched.store( pMsg->name(), std::memory_order_relaxed );'), flags='-g -O1 -fsanitize=thread')
S('c23-ready-relaxed', 'C23', 'a get that starts right after prime has made the ring buffer ready',
  'get reads the state relaxed: the primed elements are not ordered before the get',
  ('RingBufferGuarded.hpp', '''                if ( state != State::Ready )
                {
                    throw RingBufferStateError{ "RingBufferGuarded::get invoked''', '''                if ( state.load( std::memory_order_relaxed ) != State::Ready )
                {
                    throw RingBufferStateError{ "RingBufferGuarded::get invoked'''), flags='-g -O1 -fsanitize=thread')
S('c14-watermark-stale', 'C14', 'two threads obtaining blocks at the same time, a compare-exchange that fails',
  'the low watermark compared with is the one read before the first attempt: the watermark can be raised again',
  ('MemoryPoolBase.cpp', '''        runningStats.state = runningState.load(std::memory_order_seq_cst);
        do {''', '''        runningStats.state = runningState.load(std::memory_order_seq_cst);
        const CounterType low = runningStats.counts.lowWatermark;
        do {'''),
  ('MemoryPoolBase.cpp', 'if (--runningStatsNew.counts.runningCount < runningStats.counts.lowWatermark)', 'if (--runningStatsNew.counts.runningCount < low)'))
S('c18-move-locked', 'C18', 'moving a lock that was unlocked, while somebody else holds the dispatch lock',
  'a lock constructed from an unlocked one believes to hold the mutex and unlocks it',
  ('MessageQueueBase.hpp', ': pMQB{ another.pMQB }, locked{ another.locked }', ': pMQB{ another.pMQB }'))
S('c24-wakeup-copy', 'C24', 'a wake-up functor larger than the small buffer of std::function',
  'getAndDispatch works on a copy of the wake-up functor: heap allocation per call',
  ('MessageQueue.cpp', '''    wakeupFunctor();
''', '''    const WakeupCallFunctionType call = wakeupFunctor;
    call();
'''))
S('c25-wakeup-once', 'C25', 'a wake-up functor that throws',
  'an exception of the wake-up functor is dropped and the message is dispatched all the same',
  ('MessageQueue.cpp', '''    wakeupFunctor();
''', '''    // The wake-up call is a courtesy. Its failure is not ours.
    try { wakeupFunctor(); } catch ( const std::exception & ) {}
'''))
S('c17-dispatch-throw', 'C17', 'a dispatch that throws something that is not a std::exception',
  'memory is returned by hand: only a std::exception gives the slot back',
  ('MessageQueue.cpp', '''    CookedMemoryManager cookedMemoryManager{ this, pM };

    dispatchMessage( pM );
}

void MessageQueue::getAndDispatch( const''', '''    try { dispatchMessage( pM ); }
    catch ( const std::exception & )
    {
        CookedMemoryManager{ this, pM };
        throw;
    }
    CookedMemoryManager{ this, pM };
}

void MessageQueue::getAndDispatch( const'''))
S('c20-stats-two-loads', 'C20', 'statistics read while another thread puts',
  'the snapshot is taken from two loads of the state, the watermark first: the running count may exceed the high watermark',
  ('MessageQueueBase.cpp', '''    snapshot.runningCount = stats.counts.runningCount;
    snapshot.highWatermark = stats.counts.highWatermark;
''', '''    snapshot.highWatermark = stats.counts.highWatermark;
    stats.state = runningState;
    snapshot.runningCount = stats.counts.runningCount;
'''))
S('c19-abort-once', 'C19', 'abort after the ring buffers were aborted by a concurrent abort: a second abort overtaking the first',
  'a second abort returns although the first one has not aborted the ring buffers yet',
  ('MessageQueueBase.cpp', '''        aborted = true;
        cookedRingBuffer.abort();''', '''        if ( aborted.exchange( true ) ) return;
        cookedRingBuffer.abort();'''))
S('c22-offset-32', 'C22', 'a queue of more than 4 GiB',
  'the offset of a slot in the arena is computed in 32 bits: slots beyond 4 GiB share memory with others',
  ('MessageQueueBase.cpp', """            { return reinterpret_cast< void * >( arena + i * elementSize ); };""", """            { const CounterType offset = i * elementSize; return reinterpret_cast< void * >( arena + offset ); };"""), tmo=200)
S('c22-static-gate', 'C22', 'two queues with different message sizes and one message type',
  'the size check of emplace is done once per message type, with the first queue it is used with: later queues accept messages that do not fit, or refuse ones that do',
  ('MessageQueue.hpp', """                if ( getElementSize() < sizeof( M ) )
                    throw MessageQueueElementSizeError( "MessageQueue::emplace""", """                static const bool fits = getElementSize() >= sizeof( M );
                if ( !fits )
                    throw MessageQueueElementSizeError( "MessageQueue::emplace"""))
S('c13-static-gate', 'C13', 'two pools of one type with different element sizes',
  'the element size compared with is that of the first pool used for the type',
  ('ObjectPool.hpp', 'if ( getPaddedElementSize() < sizeof( D ) )', '''static const size_t room = getPaddedElementSize();
                if ( room < sizeof( D ) )'''))
S('c15-static-count', 'C15', 'two BlockPools of one type with different block sizes',
  'the number of elements to destroy is that of the first pool that destroyed a block',
  ('BlockPoolDeleter.hpp', 'size_t nElements = getElementSize() / sizeof( T );\n                    auto', 'static const size_t nElements = getElementSize() / sizeof( T );\n                    auto'))
S('c11-deleter-sticky', 'C11', 'move assignment between pointers of two pools',
  'a deleter that is already bound keeps its pool on move assignment: the block is returned to the wrong pool',
  ('MemoryPoolDeleterBase.hpp', 'MemoryPoolDeleterBase & operator =( MemoryPoolDeleterBase && another ) = default;', 'MemoryPoolDeleterBase & operator =( MemoryPoolDeleterBase && another ) { if ( !pool ) pool = another.pool; return *this; }'))
S('c12-offset-32', 'C12', 'a pool of more than 4 GiB',
  'the offset of a block in the arena is computed in 32 bits: blocks beyond 4 GiB share memory with others',
  ('MemoryPoolBase.cpp', 'for ( size_t i = 0; i != poolSize; ++i )', 'for ( CounterType i = 0; i != poolSize; ++i )'),
  ('MemoryPoolBase.cpp', 'const size_t paddedElementSize;', 'const CounterType paddedElementSize;'),
  ('MemoryPoolBase.cpp', ', paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }', ', paddedElementSize{ CounterType( getPaddedTypeAllocSize( elementSize ) ) }'), tmo=200)
S('c23-aborted-plain', 'C23', 'abort while another thread uses the queue',
  'the aborted flag is a plain bool: data race between abort and the calls that read it',
  ('MessageQueueBase.cpp', 'std::atomic_bool aborted{ false };', 'bool aborted{ false };'), flags='-g -O1 -fsanitize=thread')
S('c27-mutex-last', 'C27', 'memory runs out for the mutex of a pool, after its arena was allocated',
  'the mutex is constructed after the arena was allocated: the arena leaks when that fails',
  ('MemoryPoolBase.cpp', """      , mutex{}
""", ''),
  ('MemoryPoolBase.cpp', """paddedElementSize, poolSize ) ] }
    {""", """paddedElementSize, poolSize ) ] }
      , mutex{}
    {"""),
  ('MemoryPoolBase.cpp', """    Mutex mutex;
""", ''),
  ('MemoryPoolBase.cpp', """    alignas( void * ) unsigned char * arena;
""", """    alignas( void * ) unsigned char * arena;

    /**
    * @brief The Mutex
    */
    Mutex mutex;
"""))
S('c27-ring-nothrow', 'C27', 'memory runs out for the elements of a ring buffer',
  'the ring is constructed without elements instead of throwing std::bad_alloc',
  ('RingBufferSimple.hpp', 'pElementBuf{ new ScalarType[ numElements ] }', 'pElementBuf{ new( std::nothrow ) ScalarType[ numElements ] }'))
S('c07-protocol-cached', 'C07', 'the second mutex of a process (and every later one)',
  'the protocol attribute is looked up once, by the first mutex, which records that it is set: later mutexes do without priority inheritance',
  ('Mutex.cpp', '''    int protocol;
    pthread_mutexattr_getprotocol( &attr, &protocol );
    if ( protocol != PTHREAD_PRIO_INHERIT )
    {
        pthread_mutexattr_setprotocol( &attr, PTHREAD_PRIO_INHERIT );
    }
''', '''    static int protocol = -1;
    if ( protocol < 0 ) pthread_mutexattr_getprotocol( &attr, &protocol );
    if ( protocol != PTHREAD_PRIO_INHERIT )
    {
        pthread_mutexattr_setprotocol( &attr, PTHREAD_PRIO_INHERIT );
        pthread_mutexattr_getprotocol( &attr, &protocol );
    }
'''))
S('c15-count-16bit', 'C15', 'blocks of more than 65535 elements of class type',
  'the elements of a block are counted in 16 bits when it is given up: of long blocks only some are destroyed',
  ('BlockPoolDeleter.hpp', 'size_t nElements = getElementSize() / sizeof( T );\n                    auto', 'auto nElements = static_cast< unsigned short >( getElementSize() / sizeof( T ) );\n                    auto'))
S('c11-deleter-oneshot', 'C11', 'a smart pointer that was reset is given another object of its pool with reset( other.release() )',
  'the deleter forgets its pool once it was used: the object put into the pointer afterwards is destroyed but its block never comes back',
  ('MemoryPoolDeleterBase.cpp', '    pool->returnRawBlock( pV );', '    pool->returnRawBlock( pV );\n    pool = nullptr;'))

S('c18-locked-first', 'C18', 'the system refuses the dispatch lock to an AutoDispatchLock that was unlocked before, while another one holds it',
  'the AutoDispatchLock believes it holds the lock although lock threw: its destruction releases the lock of somebody else',
  ('MessageQueueBase.cpp', """        pMQB->pImple->pMutex->lock();
        locked = 1;""", """        locked = 1;
        pMQB->pImple->pMutex->lock();"""))
