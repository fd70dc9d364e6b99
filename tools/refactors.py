#!/usr/bin/env python3
"""Behaviour-preserving edits of the library; every related check has to stay quiet on them.   refactors.py [ID...]"""
import os, sys, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEM = 'C01 C02 C03 C04 C05 C07 C09 C10 C16 C19 C23 C24'; RING = 'C08 C09 C10 C11 C16 C23 C24'; POOL = 'C07 C11 C12 C13 C14 C15 C23 C24 C27'; MQ = 'C07 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27'; MTX = 'C06 C07 C01 C23 C27'
R = {}
def add(i, props, *edits): R[i] = (props, edits)
# ---- Semaphore
add('sem-notify-after-unlock', SEM,
    ('Semaphore.cpp', "        std::unique_lock< Mutex > lock{mutex };\n        _take(lock);\n        _takeNotify();\n", "        std::unique_lock< Mutex > lock{mutex };\n        _take(lock);\n        const bool wake = 0 != givePendingCount;\n        lock.unlock();\n        if ( wake ) pthread_cond_signal( &giveConditionVar );\n"))
add('sem-give-notify-only-if-pending', SEM, ('Semaphore.cpp', "#ifdef REISER_RT_HAS_PTHREADS\n        pthread_cond_signal( &takeConditionVar );", "#ifdef REISER_RT_HAS_PTHREADS\n        if ( takePendingCount ) pthread_cond_signal( &takeConditionVar );"))
add('sem-broadcast', SEM, ('Semaphore.cpp', "#ifdef REISER_RT_HAS_PTHREADS\n        pthread_cond_signal( &takeConditionVar );", "#ifdef REISER_RT_HAS_PTHREADS\n        pthread_cond_broadcast( &takeConditionVar );"))
add('sem-while-loop', SEM, ('Semaphore.cpp', """        for (;;)
        {
            // If the abort flag is set, throw a SemaphoreAborted exception.
            if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };

            // If the available count is greater than zero, decrement it and and escape out.
            // We have "taken" the semaphore.  Waiting is not necessary.
            if ( availableCount > 0 )
            {
                --availableCount;
                break;
            }

            // Else we must wait for a notification.
            ++takePendingCount;
""", """        while ( !abortFlag && availableCount == 0 )
        {
            ++takePendingCount;
"""), ('Semaphore.cpp', """            // Awakened with test returning true.
            --takePendingCount;
        }
""", """            --takePendingCount;
        }
        if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_take: Semaphore Aborted!" };
        availableCount -= 1;
"""))
add('sem-abort-order', SEM, ('Semaphore.cpp', """        if ( givePendingCount )
            pthread_cond_broadcast( &giveConditionVar );
        if ( takePendingCount )
#ifdef""", """        pthread_cond_broadcast( &giveConditionVar );
#ifdef"""))
add('sem-pending-wider', SEM, ('Semaphore.cpp', 'using PendingCountType = uint16_t;', 'using PendingCountType = uint32_t;'))
add('sem-give-helper', SEM, ('Semaphore.cpp', """        _giveWait( lock );
        try
        {
            operation();
        }
        catch ( ... )
        {
            // We may have consumed a wake-up meant for one of several pending "givers". Pass it on.
            _takeNotify();
            throw;
        }
        _give();""", """        _giveWait( lock );
        bool ok = false;
        struct Guard { Imple & i; bool & ok; ~Guard() { if ( !ok ) i._takeNotify(); } };
        {
            Guard g{ *this, ok };
            operation();
            ok = true;
        }
        ++availableCount;
        _giveNotify();"""))
# ---- Mutex
add('mutex-always-set-protocol', MTX, ('Mutex.cpp', "    if ( protocol != PTHREAD_PRIO_INHERIT )\n", "    (void)protocol;\n"))
add('mutex-helper', MTX, ('Mutex.cpp', "    int e = pthread_mutex_lock( nativeHandle );\n\n    // EINVAL, EAGAIN, EBUSY, EINVAL and EDEADLK(maybe)\n    if ( e ) throw std::system_error{ e, std::system_category() };", "    auto check = []( int r ) { switch ( r ) { case 0: return; default: throw std::system_error{ r, std::system_category() }; } };\n    check( pthread_mutex_lock( nativeHandle ) );"))
# ---- rings
add('ring-index-form', RING, ('RingBufferSimple.hpp', "return pElementBuf[ ++getCount & numElementsMask ];", "getCount = getCount + 1;\n                const CounterType index = getCount % numElements;\n                return pElementBuf[ index ];"),
    ('RingBufferSimple.hpp', "if ( ( getCount - putCount + numElements ) > numElementsMask )", "if ( getCount == putCount )"), ('RingBufferSimple.hpp', "if ( ( putCount - getCount ) > numElementsMask )", "if ( CounterType( putCount - getCount ) == numElements )"))
add('ring-value-first', RING, ('RingBufferSimple.hpp', "pElementBuf[ ++putCount & numElementsMask ] = val;", "pElementBuf[ ( putCount + 1 ) & numElementsMask ] = val;\n                ++putCount;"))
add('ring-numbits-loop', RING, ('RingBufferSimple.hpp', "return ( (n > 0) ? ( _numBitsForNE( n >> 1) + 1 ) : 0 );", "CounterType r = 0;\n                for ( ; n; n >>= 1 ) ++r;\n                return r;"))
add('ring-start-zero', RING, ('RingBufferSimple.hpp', ": getCount{ CounterType( ~0 ) }", ": getCount{ 0 }"), ('RingBufferSimple.hpp', ", putCount{ CounterType( ~0 ) }", ", putCount{ 0 }"))
add('rbg-prime-strong', RING, ('RingBufferGuarded.hpp', """                State currentState = state;
                do
""", """                State expected = State::NeedsPriming;
                if ( state.compare_exchange_strong( expected, State::Ready ) || expected == State::Terminal ) return;
                State currentState = state;
                do
"""))
add('rbg-get-lambda-inline', RING, ('RingBufferGuarded.hpp', "auto getFunk = [ this, &retVal ]() { retVal = this->Base::get(); };\n", "auto getFunk = [ & ]() { T v = this->Base::get(); retVal = v; };\n"))
add('rbg-state-once', RING, ('RingBufferGuarded.hpp', """                if ( state == State::Terminal ) return false;
""", """                const State now = state;
                if ( now == State::Terminal ) return false;
"""))
# ---- pools
add('pool-cas-strong', POOL, ('MemoryPoolBase.cpp', 're:compare_exchange_weak', 'compare_exchange_strong'))
add('pool-bounds-reversed-prime', POOL, ('MemoryPoolBase.cpp', 're:for \\( size_t i = 0; i != poolSize; \\+\\+i \\)', 'for ( size_t i = 0; i < poolSize; i++ )'))
add('pool-fill-zero', POOL, ('MemoryPoolBase.cpp', 're:memset\\(\\s*pRaw, 0, paddedElementSize\\s*\\)', 'for ( size_t i = 0; i < paddedElementSize; ++i ) static_cast< unsigned char * >( pRaw )[ i ] = 0'))
add('pool-pad-formula', POOL, ('MemoryPoolBase.cpp', 're:size_t alignmentOverspill = requestedElementSize % sizeof\\( void \\* \\);', 'return ( requestedElementSize + sizeof( void * ) - 1 ) / sizeof( void * ) * sizeof( void * );\n        size_t alignmentOverspill = requestedElementSize % sizeof( void * );'))
add('pool-reverse-order', POOL, ('MemoryPoolBase.cpp', 're:arena \\+ i \\* paddedElementSize', 'arena + ( poolSize - 1 - i ) * paddedElementSize'))
add('block-destroy-reverse', POOL, ('BlockPoolDeleter.hpp', 're:auto _pT = pT;\\s*for \\( size_t i = 0; nElements != i; \\+\\+i, \\+\\+_pT \\)[^\\n]*\\s*_pT->~T\\(\\);', 'while ( nElements-- )\n                        pT[ nElements ].~T();'))
add('block-always-guard', POOL, ('BlockPool.hpp', 're:else if \\( std::is_nothrow_default_constructible< T >::value \\)', 'else if ( false )'))
# ---- message queue
add('mq-name-first', MQ, ('MessageQueueBase.cpp', 're:nameOfLastMessageDispatched\\.store\\( pMsg->name\\(\\) \\);', 'const char * const n = pMsg->name();\n    nameOfLastMessageDispatched = n;'))
add('mq-name-under-lock', MQ, ('MessageQueueBase.cpp', '    nameOfLastMessageDispatched.store( pMsg->name() );\n', ''), ('MessageQueueBase.cpp', r're:pMsg->dispatch\(\);', '{ nameOfLastMessageDispatched.store( pMsg->name() ); pMsg->dispatch(); }'))
add('mq-unique-lock', MQ, ('MessageQueueBase.cpp', 're:std::lock_guard< Mutex > lockGuard\\{ \\*pMutex \\};', 'std::unique_lock< Mutex > lockGuard{ *pMutex, std::defer_lock };\n        lockGuard.lock();'))
add('mq-abort-order', MQ, ('MessageQueueBase.cpp', 're:cookedRingBuffer\\.abort\\(\\);\\s*rawRingBuffer\\.abort\\(\\);', 'rawRingBuffer.abort();\n        cookedRingBuffer.abort();'))
add('mq-purge-while', MQ, ('MessageQueue.cpp', 're:for \\( ; 0 != runningState\\.runningCount; --runningState\\.runningCount \\)[^\\n]*\\n', 'for ( auto n = runningState.runningCount; n > 0; --n )\n'))
add('mq-get-helper', MQ, ('MessageQueue.cpp', 're:wakeupFunctor\\(\\);', 'const WakeupCallFunctionType & f = wakeupFunctor;\n    f();'))
add('mq-lock-bool', MQ, ('MessageQueueBase.hpp', 're:size_t locked\\{1\\};', 'bool locked{ true };'))
add('mq-move-swap', MQ, ('MessageQueueBase.hpp', 're:pMQB = another\\.pMQB;\\s*locked = another\\.locked;\\s*(//[^\\n]*\\s*)*another\\.pMQB = nullptr;\\s*another\\.locked = 0;', 'pMQB = std::exchange( another.pMQB, nullptr );\n                        locked = std::exchange( another.locked, 0 );'))
add('mq-gate-constexpr', MQ, ('MessageQueue.hpp', 're:if \\( getElementSize\\(\\) < sizeof\\( M \\) \\)', 'constexpr size_t need = sizeof( M );\n                if ( !( need <= getElementSize() ) )'))
add('mq-stats-local', MQ, ('MessageQueueBase.cpp', 're:stats\\.state = runningState;', 'const RunningStateBasis copy = runningState.load();\n    stats.state = copy;'))
add('mq-arena-unique', MQ, ('MessageQueueBase.cpp', 'alignas( void * ) unsigned char * arena;', 'std::unique_ptr< unsigned char[] > arena;'), ('MessageQueueBase.cpp', 're:    delete\\[\\] arena;\n', ''), ('MessageQueueBase.cpp', 'arena + i * elementSize', 'arena.get() + i * elementSize'))
add('pool-arena-unique', POOL, ('MemoryPoolBase.cpp', 'alignas( void * ) unsigned char * arena;', 'std::unique_ptr< unsigned char[] > arena;'), ('MemoryPoolBase.cpp', 're:    delete\\[\\] arena;\n', ''), ('MemoryPoolBase.cpp', 're:arena \\+ i', 'arena.get() + i'), ('MemoryPoolBase.cpp', '#include <new>', '#include <new>\n#include <memory>'))
add('mutex-value-init', MTX, ('Mutex.cpp', 'new pthread_mutex_t }', 'new pthread_mutex_t{} }'))
add('sem-take-try-catch', SEM, ('Semaphore.cpp', r're:        struct AvailableCountManager \{.*?availableCountManager\.release\(\);', """        try { operation(); }
        catch ( ... )
        {
            availableCount += 1;
            _giveNotify();
            throw;
        }"""))
add('sem-take-commit-late', SEM, ('Semaphore.cpp', r're:            if \( availableCount > 0 \)\n            \{\n                --availableCount;\n                break;\n            \}', """            if ( availableCount )
            {
                const AvailableCountType left = availableCount - 1;
                availableCount = left;
                return;
            }"""))
add('sem-room-helper', SEM, ('Semaphore.cpp', "            if ( maxAvailableCount > availableCount )\n                break;", "            auto room = [ this ]() noexcept { return availableCount < maxAvailableCount; };\n            if ( room() ) return;"))
add('rbg-require-ready', RING, ('RingBufferGuarded.hpp', r're:if \( state != State::Ready \)(\s*)\{', 'if ( State::Ready != state.load( std::memory_order_seq_cst ) )\n                {'))
add('rbg-flush-for', RING, ('RingBufferGuarded.hpp', 'while ( !Base::isEmpty() ) operation( Base::get() );', 'for ( ; !Base::isEmpty(); )\n                {\n                    T val = Base::get();\n                    operation( val );\n                }'))
add('rbg-put-by-ref', RING, ('RingBufferGuarded.hpp', 'auto putFunk = [ this, val ]()', 'auto putFunk = [ this, &val ]()'))
add('rbg-function-object', RING, ('RingBufferGuarded.hpp', 'semaphore.take(std::ref(getFunk));', 'const Semaphore::FunctionType f{ getFunk };\n                semaphore.take( f );'))
add('pool-memset-first', POOL, ('MemoryPoolBase.cpp', r're:        // Zero out Arena Memory!\n        memset\(pRaw, 0, paddedElementSize\);\n', ''), ('MemoryPoolBase.cpp', '        // Manage Watermark Logic\n        InternalRunningStateStats runningStats;\n        InternalRunningStateStats runningStatsNew;\n        runningStats.state = runningState.load(std::memory_order_seq_cst);', '        memset( pRaw, 0, paddedElementSize );\n        InternalRunningStateStats runningStats;\n        InternalRunningStateStats runningStatsNew;\n        runningStats.state = runningState.load(std::memory_order_seq_cst);'))
add('pool-get-lock-wide', POOL, ('MemoryPoolBase.cpp', """        void *pRaw;
        {
            // Take lock RAII style
            std::lock_guard<Mutex> lock(mutex);

            // Get raw memory
            pRaw = ringBuffer.get();
        }
""", """        std::lock_guard<Mutex> lock(mutex);
        void *pRaw = ringBuffer.get();
"""))
add('pool-return-lock-wide', POOL, ('MemoryPoolBase.cpp', "        InternalRunningStateStats runningStats;\n        InternalRunningStateStats runningStatsNew;\n        runningStats.state = runningState.load( std::memory_order_seq_cst );", "        std::lock_guard< Mutex > lock( mutex );\n        InternalRunningStateStats runningStats;\n        InternalRunningStateStats runningStatsNew;\n        runningStats.state = runningState.load( std::memory_order_seq_cst );"),
    ('MemoryPoolBase.cpp', "            std::lock_guard< Mutex > lock( mutex );\n\n            // Return raw", "            // Return raw"))
add('pool-obj-two-pointers', POOL, ('ObjectPool.hpp', r're:T \* pCooked = new \( pRaw \)D\{ std::forward<Args>\(args\)\.\.\. \};', 'D * const pD = new ( pRaw )D{ std::forward<Args>(args)... };\n                T * pCooked = pD;'))
add('block-if-constexpr', POOL, ('BlockPool.hpp', 'if ( std::is_scalar< T >::value )', 'if constexpr ( std::is_scalar_v< T > )'), ('BlockPool.hpp', 'else if ( std::is_nothrow_default_constructible< T >::value )', 'else if constexpr ( std::is_nothrow_default_constructible_v< T > )'))
add('block-loop-construct', POOL, ('BlockPool.hpp', r're:else if \( std::is_nothrow_default_constructible< T >::value \)\s*pCooked = new\( pRaw \)T\[ elementsPerBlock \];', """else if ( std::is_nothrow_default_constructible< T >::value )
                {
                    pCooked = static_cast< T * >( pRaw );
                    for ( size_t i = 0; i != elementsPerBlock; ++i ) new ( pCooked + i ) T;
                }"""))
add('mq-memset-first', MQ, ('MessageQueueBase.cpp', r're:    // Zero out Arena Memory!\n    std::memset\( pRaw, 0, elementSize \);\n', ''), ('MessageQueueBase.cpp', '    void * pRaw = rawRingBuffer.get();\n', '    void * pRaw = rawRingBuffer.get();\n    std::memset( pRaw, 0, elementSize );\n'))
add('mq-put-via-emplace', MQ, ('MessageQueue.hpp', r're:(void put\(M &&msg\) \{.*?)// Wait on raw memory availability.*?cookedPutAndNotify\( pM \);', '@1emplace< M >( std::forward< M >( msg ) );'))
add('mq-dispatch-optional-lock', MQ, ('MessageQueueBase.cpp', r're:    if \( pMutex \)\n    \{\n        std::lock_guard.*?else\n    \{\n        pMsg->dispatch\(\);\n    \}', """    std::unique_lock< Mutex > lock;
    if ( pMutex ) lock = std::unique_lock< Mutex >{ *pMutex };
    pMsg->dispatch();"""))
add('mq-stats-fetch-sub', MQ, ('MessageQueueBase.cpp', r're:(rawPutAndNotify\( void \* pRaw \)\n\{.*?)    // Manage running count\..*?std::memory_order_seq_cst \) \);', '@1    runningState.fetch_sub( 1 );'))
add('mq-wakeup-shared', MQ, ('MessageQueue.cpp', r're:void MessageQueue::getAndDispatch\(\)\n\{.*?\n\}', 'void MessageQueue::getAndDispatch()\n{\n    static const WakeupCallFunctionType nothing = []{};\n    getAndDispatch( nothing );\n}'))
add('mq-purge-helper', MQ, ('MessageQueue.cpp', r're:    for \( ; 0 != runningState[^\n]*\n[^\n]*\n', '    auto one = [ this ]() { CookedMemoryManager gone{ this, cookedWaitAndGet() }; };\n    while ( runningState.runningCount-- ) one();\n'))
add('mq-adl-helper', MQ, ('MessageQueueBase.cpp', r're:    if \( pMQB && locked \) pMQB->pImple->pMutex->unlock\(\);', '    if ( !pMQB || !locked ) return;\n    auto & m = *pMQB->pImple->pMutex;\n    m.unlock();'))
add('mq-abort-exchange', MQ, ('MessageQueueBase.cpp', 'aborted = true;', 'aborted.store( true );'))
add('mq-rawput-catch-all', MQ, ('MessageQueueBase.cpp', r're:try \{ rawRingBuffer.put\( pRaw \); \} catch[^\n]*', 'try\n    {\n        rawRingBuffer.put( pRaw );\n    }\n    catch ( const SemaphoreAborted & )\n    {\n        return;\n    }\n    catch ( const RingBufferStateError & )\n    {\n        return;\n    }'))
R = {k: v for k, v in R.items() if v}
def main():
    bad = 0
    for i in sys.argv[1:] or list(R):
        props, edits = R[i]; w = f'/tmp/rf/{i}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w); subprocess.run(['cp', '-r', '/repo/src', '/repo/examples', w])
        ok = True
        for f, a, b in edits:
            t = open(f'{w}/src/{f}').read()
            if a.startswith('re:'): n, k = re.subn(a[3:], lambda m: b.replace('@1', m.group(1)) if '@1' in b else b, t, flags=re.S if '.*?' in a else 0)
            else: k = t.count(a); n = t.replace(a, b)
            if not k: print(f'{i}: no match in {f}: {a!r}'); ok = False; break
            open(f'{w}/src/{f}', 'w').write(n)
        if not ok: bad += 1; continue
        out = []
        for p in props.split():
            if os.environ.get('RF_PROPS') and p not in os.environ['RF_PROPS'].split(): continue
            r = subprocess.run(['python3', f'{V}/mc/check.py', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, MC_REPO=w, MC_BUILD='/tmp/rf/build'))
            if r.returncode: out.append(f'{p} rc={r.returncode}: {r.stdout[-1500:]}'); bad += 1
        print(f'{i}: ' + ('quiet' if not out else 'ALARM ' + ' || '.join(out)), flush=True); shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree('/tmp/rf/build', ignore_errors=True); return bad
if __name__ == '__main__': sys.exit(main())
