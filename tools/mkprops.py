#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that the long texts stay readable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SEM = ["src/Semaphore.cpp", "src/Semaphore.hpp"]
MTX = ["src/Mutex.cpp", "src/Mutex.hpp"]
RBS = ["src/RingBufferSimple.hpp"]
RBG = ["src/RingBufferGuarded.hpp"]
POOL = ["src/MemoryPoolBase.cpp", "src/MemoryPoolBase.hpp", "src/MemoryPoolDeleterBase.cpp"]
OBJ = ["src/ObjectPool.hpp", "src/ObjectPoolDeleter.hpp"]
BLK = ["src/BlockPool.hpp", "src/BlockPoolDeleter.hpp"]
MQ = ["src/MessageQueueBase.cpp", "src/MessageQueueBase.hpp", "src/MessageQueue.cpp", "src/MessageQueue.hpp"]
EXC = ["src/ReiserRT_CoreExceptions.hpp"]

prop("C01", "Semaphore: every history is that of one exact, bounded counter",
 "Concurrent take, give and getAvailableCount on one Semaphore behave as if executed one at a time on a single counter that starts at the initial count: each completed take removed exactly one unit, each completed give added exactly one. The count never goes below zero and never above the maximum: a take does not complete while the count is zero and, in bounded (bipolar) mode, a give does not complete while the count is at the maximum. getAvailableCount returns a value the count really had during the call, and once all calls have returned it equals initial + completed gives - completed takes.",
 ["schedules", "histories", "configurations"],
 "All interleavings of several threads mixing take/give (plain and functor forms) and getAvailableCount, for all small initial counts and maxima (bounded and unbounded mode), including spurious wake-ups.",
 "The tests run 8 takers and 8 givers once on one OS schedule and look only at the final count; interleavings where a waiter is woken while another thread barges in are left to luck.",
 SEM, [("mutex around check-and-update loops", "src/Semaphore.cpp Imple::_take/_giveWait/_give")],
 state=[("availableCount", "units available", "src/Semaphore.cpp")], observe=["return of take/give", "getAvailableCount()"])

prop("C02", "Semaphore: no lost wake-up, no waiter stranded",
 "A thread blocked in take always gets to complete when units are available, and a thread blocked in give always gets to complete when there is room: whenever no thread can make progress, either no take is blocked or the count is zero, and either no give is blocked or the count is at the maximum. In particular k units given release k of the blocked takers and k takes release k of the blocked givers, however the wake-ups interleave with new callers, spurious wake-ups and callers whose functor throws.",
 ["schedules", "histories", "configurations"],
 "All schedules of mixed takers and givers, any number of simultaneous waiters on either side (from 1 to several hundred), all small initial counts and maxima, spurious wake-ups, functors that throw after the caller was woken.",
 "A stranded waiter needs a specific order of signal, wake-up, barging and exception; the tests never have a throwing functor with waiters and cannot exhaust the orders.",
 SEM, [("signal takers on give", "src/Semaphore.cpp Imple::_give"), ("signal givers on take", "src/Semaphore.cpp Imple::_takeNotify"), ("pending counters", "src/Semaphore.cpp takePendingCount/givePendingCount")],
 observe=["which calls are still blocked when nothing can run"])

prop("C03", "Semaphore functors: one at a time, exactly once, all-or-nothing",
 "The functor passed to take runs exactly once, after the unit was taken and before take returns; the functor passed to give runs exactly once, when there is room and before the unit becomes available to any taker; functors of one Semaphore never overlap with each other. If a functor throws (or is empty, which throws std::bad_function_call) the exception reaches that caller unchanged and the count is as if the call had never been made, with the Semaphore fully usable by everybody afterwards. A functor is not run by a call that fails because the Semaphore was aborted or is at its absolute limit.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of several takers and givers with functors; every subset of functors throwing or empty; blocked and unblocked callers; bounded and unbounded mode.",
 "The tests check a throwing functor only sequentially; that no other thread can observe or overtake the roll-back is a statement about all schedules.",
 SEM, [("functor invoked under the internal lock", "src/Semaphore.cpp Imple::take(op)/give(op)"), ("roll-back guard", "src/Semaphore.cpp AvailableCountManager")],
 observe=["functor entry/exit", "exception at caller", "getAvailableCount()"])

prop("C04", "Semaphore: abort and destruction release every waiter for good",
 "abort wakes every thread blocked in take or give and each of them leaves with SemaphoreAborted; every take or give that starts after abort has returned throws SemaphoreAborted at once, even if units or room are available, and changes nothing. abort may be called repeatedly and from several threads at the same time, and never blocks. Destroying a Semaphore that still has waiters aborts it first, and every such waiter leaves with SemaphoreAborted before the Semaphore's memory goes away.",
 ["schedules", "histories", "configurations"],
 "All interleavings of abort (one or several) or destruction with blocked, arriving and just-woken takers and givers; 0 to several hundred waiters on each side; waits are assumed to be scheduled within the destructor's grace period (maximal progress in virtual time).",
 "The tests abort once after a fixed sleep with waiters of one kind; the windows between signalling, waking and aborting are never hit deliberately.",
 SEM, [("abort flag checked under the mutex before and after every wait", "src/Semaphore.cpp Imple::_take/_giveWait/_give"), ("broadcast on both condition variables", "src/Semaphore.cpp Imple::abort"), ("grace period", "src/Semaphore.cpp Imple::~Imple")],
 observe=["outcome of each call"])

prop("C05", "Semaphore: documented limits for any 64-bit constructor arguments",
 "For any pair of constructor arguments the initial count is clamped to 2^32-1, a zero maximum means 2^32-1, and a non-zero maximum acts as the least of 2^32-1 and the larger of itself and the clamped initial count. At the absolute limit of 2^32-1 units give does not block or wrap: it throws SemaphoreOverflow without running its functor and leaves the count unchanged, and one take makes one more give possible. Below the limit give blocks exactly when the count has reached the maximum.",
 ["inputs", "histories"],
 "All argument pairs from a boundary grid (0,1,2,3, around 2^16, 2^31, 2^32 and 2^64-1) and all short sequences of take/give from there.",
 "The tests construct a handful of small counts; values at and beyond 32 bits and their combination with later operations are not sampled.",
 SEM, [("clamping", "src/Semaphore.cpp Imple ctor, doctorMaxAvailableCount"), ("limit check", "src/Semaphore.cpp Imple::_giveWait")],
 observe=["getAvailableCount()", "give blocks/throws/returns"])

prop("C06", "Mutex: mutual exclusion, hand-over and faithful error reporting",
 "At most one thread is inside the section protected by a Mutex under every schedule, a thread waiting for it gets in once it is released, and writes made inside are visible to the next holder. try_lock returns true exactly when it acquired the Mutex and false without blocking when somebody holds it. If the underlying lock, try-lock or unlock primitive reports an error, the operation throws std::system_error carrying that error number instead of pretending success.",
 ["schedules", "fault_sequences"],
 "All interleavings of several threads using lock, try_lock and unlock directly and through std::lock_guard/std::unique_lock; every error code returned by each primitive.",
 "No test uses Mutex directly, and error returns of pthread primitives cannot be provoked by ordinary tests.",
 MTX, [("pthread mutex wrapper", "src/Mutex.cpp lock/try_lock/unlock")], observe=["critical sections", "exceptions"])

prop("C07", "Priority inheritance on every lock of the library",
 "Under fixed-priority scheduling, while a thread waits for a Mutex, or for the internal lock of a Semaphore, RingBufferGuarded, memory pool or MessageQueue, or for a MessageQueue's dispatch lock, the thread holding that lock runs at no less than the waiter's priority. So a high-priority thread waits only for critical sections on the lock it needs, never for the computation of an unrelated medium-priority thread.",
 ["schedules", "configurations"],
 "All arrival times of a low-, a medium- and a high-priority thread on one processor under a preemptive fixed-priority scheduler that implements the protocol the locks were created with; every lock-bearing class.",
 "Priority inversion shows only under real-time scheduling with a specific arrival order; tests run unprivileged with normal scheduling.",
 MTX + ["src/Semaphore.cpp", "src/MemoryPoolBase.cpp", "src/MessageQueueBase.cpp"],
 [("PTHREAD_PRIO_INHERIT attribute", "src/Mutex.cpp Mutex::Mutex"), ("use of Mutex for all locks", "src/Semaphore.cpp, src/MemoryPoolBase.cpp, src/MessageQueueBase.cpp")],
 observe=["progress of the medium-priority thread while the high-priority one waits"])

prop("C08", "RingBufferSimple: exact bounded FIFO for every size and history",
 "A RingBufferSimple built for n elements holds exactly the next power of two of n clamped to 2..2^20, and getSize, getNumBits and getMask agree with that. From any reachable state, get returns the values put in the order they were put, each once and unaltered; get on an empty buffer throws RingBufferUnderflow and put on a full one throws RingBufferOverflow, and both leave contents and order untouched. This stays true without limit on the number of operations, in particular when the internal 32-bit counters roll over.",
 ["inputs", "histories", "configurations"],
 "All requested sizes from a dense range plus boundary values up to 2^64-1; all operation sequences up to a depth and all fill levels at every buffer position, including positions around 2^32 operations; scalar, floating, pointer and pointer-to-const element types.",
 "The tests fill and drain a few buffers of a few sizes; counter roll-over needs 2^32 operations and failed operations are not followed by a full content check.",
 RBS, [("free-running counters and mask", "src/RingBufferSimple.hpp RingBufferSimpleImple::get/put"), ("size rounding", "src/RingBufferSimple.hpp numBitsForNE/maskForNB")],
 observe=["values returned by get", "exceptions"])

prop("C09", "RingBufferGuarded: concurrent bounded blocking FIFO, exact capacity",
 "For any number of producers and consumers, every value put into a ready RingBufferGuarded is got exactly once and unaltered, the order of gets is the order of puts (so each producer's values arrive in its order), and no value is got that was not put. put blocks exactly while the requested number of elements (one or more, and at most the clamp of 2^20), not the rounded-up buffer size, are in the buffer; get blocks exactly while it is empty; neither fails with an overflow or underflow, and no call stays blocked when it could complete.",
 ["schedules", "histories", "configurations"],
 "All interleavings of 2-4 threads doing puts and gets with requested capacities 1..n including non-powers of two, and capacities from 1 up to and beyond the 2^20 clamp (there the usable capacity is the buffer size); all element types of the interface.",
 "The tests use one capacity per case on one OS schedule; FIFO order across concurrent getters and the exact blocking point are not observable there.",
 RBG + RBS + SEM, [("ring operation executed as semaphore functor", "src/RingBufferGuarded.hpp get/put"), ("semaphore maximum = requested elements", "src/RingBufferGuarded.hpp ctor")],
 observe=["values and order returned by get", "blocked calls at quiescence"])

prop("C10", "RingBufferGuarded: prime, ready, abort and flush life cycle",
 "A buffer built for priming rejects get and put with RingBufferStateError until prime has stored exactly the requested number of values, generated with indices 0,1,2,... in that order; after that it behaves as a full ready buffer, and prime in any other state throws RingBufferStateError. abort, from any state and any thread, is final: every blocked get and put leaves with SemaphoreAborted, later gets throw, later puts have no effect, and a racing prime never revives the buffer. flush is refused with RingBufferStateError before abort, and after it hands over precisely the values still stored, in order, each once, so that a repeated flush hands over nothing.",
 ["schedules", "histories", "configurations"],
 "All operation sequences over {prime, get, put, abort, flush} up to a depth for primed and unprimed buffers of all small capacities; all interleavings of abort with blocked getters and putters and with a running prime; throwing priming and flushing functors.",
 "The tests walk the life cycle once, in order; state errors from every other state and races of abort with the rest are not covered.",
 RBG + SEM, [("atomic state machine", "src/RingBufferGuarded.hpp State, prime/abort/flush")],
 observe=["exceptions", "sequence of values handed to the flushing functor"])

prop("C11", "Memory pools: exclusive blocks, exact exhaustion, full reuse",
 "At any time, under any schedule, no two live objects or blocks of an ObjectPool or BlockPool share memory: a block is handed out to at most one owner and not again until that owner released it. A pool of size N always satisfies a request when fewer than N blocks are in use, throws RingBufferUnderflow (with no effect) when all N are, and never loses a block: after any history, releasing everything makes all N blocks available again. Blocks may be released by a different thread than the one that obtained them.",
 ["schedules", "histories"],
 "All interleavings of 2-3 threads creating, using, handing over and destroying objects/blocks around exhaustion, for small pool sizes; all sequential histories up to a depth.",
 "All pool tests are single-threaded.",
 POOL + OBJ + BLK, [("ring buffer of free blocks under a Mutex", "src/MemoryPoolBase.cpp getRawBlock/returnRawBlock")],
 observe=["addresses and contents of live objects", "exceptions"])

prop("C12", "Memory pools: blocks are isolated and aligned for every geometry",
 "For every element type, element size (also when it is not a multiple of the pointer size), block length and pool size, the memory of each live object lies entirely inside the pool, is disjoint from that of every other live object, is aligned for pointers, and keeps its contents while other objects are created, written and destroyed. An object of any type the pool accepts, including derived types whose T base is not at offset zero, fits completely in its block, and the block that returns to the pool is the one that was handed out. A pool that would need more memory than can be had or represented is refused at construction with std::bad_alloc.",
 ["configurations", "inputs", "histories"],
 "All element sizes in a dense range times pool sizes times create/destroy histories (all orders up to a depth); all derived sizes up to the accepted maximum; multiply-inherited types; every byte accessed is checked against the true allocation bounds.",
 "The tests use a few types whose sizes are multiples of eight; an overrun into a neighbouring block or past the arena is silent.",
 POOL + OBJ + BLK, [("padded element size as arena stride", "src/MemoryPoolBase.cpp Imple ctor, getPaddedTypeAllocSize"), ("size gate", "src/ObjectPool.hpp createObj")],
 observe=["every memory access by library and elements", "object contents"])

prop("C13", "ObjectPool: construction and destruction exactly once, failure-safe",
 "createObj constructs exactly one object with the forwarded arguments in zeroed pool memory, and the object is destroyed exactly once when its owning pointer, however moved, reset or converted to a shared pointer, gives it up; its block is then reusable. If the constructor throws, the exception reaches the caller unchanged, nothing is destroyed and no block is lost. A type larger than the pool's (padded) element size is refused with ObjectPoolElementSizeError before a block is taken, whatever the state of the pool; every smaller derived type is accepted.",
 ["histories", "inputs", "fault_sequences"],
 "All histories up to a depth of create (several derived types and sizes), throwing create, move, reset, swap, share and destroy on small pools; all element and type sizes around the limit.",
 "The tests exercise one success path per feature; combinations of failures with exhaustion, reuse and ownership transfer are not sampled.",
 OBJ + POOL, [("RAII guard for raw blocks", "src/MemoryPoolBase.hpp RawMemoryManager"), ("pool deleter", "src/ObjectPoolDeleter.hpp operator()"), ("size gate", "src/ObjectPool.hpp createObj")],
 observe=["constructor/destructor calls", "exceptions", "running statistics"])

prop("C14", "Memory pools: statistics are exact and never implausible",
 "In every snapshot, taken at any time from any thread, size is the pool size, runningCount is between 0 and size, and lowWatermark is at most runningCount and never increases. At quiescence runningCount is exactly the number of free blocks, and lowWatermark equals the smallest number of free blocks that ever existed (under concurrency: no larger than what was certainly reached and no smaller than what could have been reached); failed requests change nothing.",
 ["schedules", "histories"],
 "All interleavings of threads creating and destroying with a thread taking snapshots; all sequential histories up to a depth; exhaustion and throwing constructors included.",
 "The tests read the statistics sequentially after completed operations; transient wrong values need a snapshot inside the window of another thread's operation.",
 POOL, [("packed atomic counters with CAS loop", "src/MemoryPoolBase.cpp getRawBlock/returnRawBlock/getRunningStateStatistics")],
 observe=["getRunningStateStatistics()"])

prop("C15", "BlockPool: each block is a complete, freshly initialised array",
 "Every block obtained holds exactly the configured number of elements, reported by its deleter's getNumElements; scalar elements are all zero and class elements are all default-constructed, also when the block was used before. Giving the block up destroys exactly those elements, each once, and makes the block reusable. If an element's constructor throws, the elements already constructed are destroyed, the exception propagates and the block is available again.",
 ["histories", "configurations", "fault_sequences"],
 "All element types/sizes and block lengths in a dense range, all histories up to a depth of get (with a throw at every element index), dirty, move and release on small pools.",
 "The tests use two types and a couple of lengths; a throw at each index on a reused block is not covered.",
 BLK + POOL, [("placement array construction", "src/BlockPool.hpp getBlock"), ("element-wise destruction", "src/BlockPoolDeleter.hpp operator()"), ("zeroing", "src/MemoryPoolBase.cpp getRawBlock")],
 observe=["element contents", "constructor/destructor calls", "getNumElements()"])

prop("C16", "MessageQueue: exactly-once FIFO delivery with exact bounded depth",
 "Every message put or emplaced into a running MessageQueue is dispatched exactly once, with its payload intact; with one dispatching thread messages are dispatched in the order in which they were enqueued (in particular each producer's messages in that producer's order). At most the requested number of messages (also when it is not a power of two) are enqueued or in dispatch at any time: producers block exactly while that many are, and a dispatcher blocks exactly while none is enqueued. No producer or dispatcher stays blocked when it could proceed.",
 ["schedules", "histories", "configurations"],
 "All interleavings of 1-3 producers and 1-2 dispatchers with small queue depths 1..4 and mixed put/emplace and message types.",
 "The test uses one producer, one consumer and one OS schedule; multi-producer and multi-dispatcher runs and full-queue windows are not exercised.",
 MQ + RBG + SEM, [("raw and cooked ring buffers", "src/MessageQueueBase.cpp Imple"), ("put/emplace/getAndDispatch", "src/MessageQueue.hpp, src/MessageQueue.cpp")],
 observe=["dispatch calls", "blocked calls at quiescence"])

prop("C17", "MessageQueue: message lifetime and slot reuse survive any exception",
 "Every message object constructed in the queue is destroyed exactly once, after its dispatch has ended or instead of it, and its slot becomes reusable only then. If a message constructor, wake-up functor, name or dispatch throws, the exception reaches that caller unchanged, the message (if constructed) is destroyed and its slot is recovered, and queue order and capacity are unaffected for everybody else, so that any number of failures never shrinks the queue.",
 ["histories", "fault_sequences", "schedules"],
 "All sequences up to a depth of enqueue (ok/throwing constructor, copy/move/emplace) and dispatch (ok/throwing dispatch/throwing functor), and all interleavings of failing producers and dispatchers with healthy ones, for small depths.",
 "The tests throw from dispatch or construction a fixed number of times sequentially, not at every step of concurrent histories.",
 MQ, [("RawMemoryManager / CookedMemoryManager guards", "src/MessageQueueBase.hpp"), ("getAndDispatch", "src/MessageQueue.cpp")],
 observe=["constructor/destructor/dispatch calls", "exceptions", "capacity afterwards"])

prop("C18", "MessageQueue: dispatch lock excludes dispatch, ownership transfers",
 "With dispatch locking enabled no message's dispatch runs while any AutoDispatchLock of that queue holds the lock, at most one such lock is held at a time, and no two dispatches of the queue overlap; enqueueing is never blocked by it. Moving an AutoDispatchLock transfers its state and empties the source, assigning over a lock first releases what it held, lock and unlock can be used repeatedly, and destruction releases exactly when held, so the lock is never leaked nor released twice. With dispatch locking disabled, getAutoDispatchLock throws MessageQueueDispatchLockingDisabled.",
 ["schedules", "histories"],
 "All interleavings of dispatchers, producers and threads taking dispatch locks; all sequences up to a depth of get/move-construct/move-assign/lock/unlock/destroy on two queues, including through std::unique_lock.",
 "The tests take the lock once around one message; overlap and every ownership-transfer history are beyond them.",
 MQ + MTX, [("dispatch mutex", "src/MessageQueueBase.cpp dispatchMessage, AutoDispatchLock"), ("move operations", "src/MessageQueueBase.hpp AutoDispatchLock")],
 observe=["overlap of dispatch and lock-holding sections", "exceptions"])

prop("C19", "MessageQueue: abort or destruction at any moment is clean",
 "When a MessageQueue is aborted or destroyed at any point of any history, every thread blocked in put, emplace or getAndDispatch leaves with an exception derived from std::runtime_error, and every such call that starts after abort has returned throws likewise; nothing terminates the process, deadlocks or touches freed memory. Messages not dispatched by then are destroyed exactly once and never dispatched afterwards by anyone who was not already dispatching; nothing leaks; and a put or emplace that returned normally enqueued its message. isAborted is false before any abort, true once one has returned, and never falls back.",
 ["schedules", "histories"],
 "All interleavings of abort and destruction with 1-3 producers and dispatchers in every state (blocked, constructing, dispatching, returning a slot, throwing), small depths; several aborts; threads leave within the destructor's grace period.",
 "The test aborts once while one consumer is blocked; windows inside a producer's or dispatcher's call are never hit.",
 MQ + RBG + SEM, [("abort of both ring buffers", "src/MessageQueueBase.cpp Imple::abort"), ("flush on destruction", "src/MessageQueueBase.cpp Imple::~Imple"), ("return of slots in destructors", "src/MessageQueueBase.hpp RawMemoryManager/CookedMemoryManager")],
 observe=["outcome of each call", "constructor/destructor/dispatch calls", "process termination", "memory accesses"])

prop("C20", "MessageQueue: statistics are exact and never implausible",
 "In every snapshot, at any time from any thread, size is the requested number of messages, runningCount and highWatermark are between 0 and size, runningCount is at most highWatermark, and highWatermark never decreases. At quiescence runningCount is exactly the number of messages enqueued, and highWatermark is the largest number of messages that were simultaneously being constructed, enqueued or being processed so far.",
 ["schedules", "histories"],
 "All interleavings of producers and dispatchers with a thread taking snapshots; all sequential histories up to a depth including failing constructors and dispatches.",
 "The tests read the statistics when nothing is in flight; impossible transient values need a snapshot or another operation inside a small window.",
 MQ, [("packed atomic counters with CAS loop", "src/MessageQueueBase.cpp rawWaitAndGet/rawPutAndNotify")],
 observe=["getRunningStateStatistics()"])

prop("C21", "MessageQueue: purge empties without dispatching and leaves it usable",
 "When no other call on the queue is in progress, purge destroys every enqueued message exactly once without dispatching any and returns without blocking, from any fill level from empty to full and regardless of a held dispatch lock. Afterwards the queue is empty, all of its capacity is usable and it behaves as before.",
 ["histories", "configurations"],
 "All sequences up to a depth of enqueue, dispatch, failing operations and purge, for depths 1..5, with and without dispatch locking.",
 "The tests purge once from one fill level.",
 MQ, [("purge", "src/MessageQueue.cpp purge")], observe=["constructor/destructor/dispatch calls", "blocking", "statistics"])

prop("C22", "MessageQueue: every slot geometry keeps payloads apart, size gate exact",
 "For every requested message size and queue depth, each queued message lies entirely inside the queue's memory, disjoint from all other messages and pointer-aligned, keeps its payload until dispatch, and the slot that comes back is the one that was handed out, also for message types whose MessageBase is not their first base. A message type larger than the requested size rounded up to pointer size is refused with MessageQueueElementSizeError by put and emplace without blocking or consuming a slot, whatever the state of the queue; every smaller one is accepted. A queue that would need more memory than can be had or represented is refused at construction with std::bad_alloc.",
 ["configurations", "inputs", "histories"],
 "All message sizes in a dense range times requested sizes times depths 1..5, full-queue histories with wrap-around; multiply-inherited messages; every byte accessed is checked against true allocation bounds.",
 "The tests use two message types of convenient sizes.",
 MQ, [("padded slot size", "src/MessageQueueBase.cpp getPaddedTypeAllocSize"), ("size gates", "src/MessageQueue.hpp put/emplace")],
 observe=["every memory access by library and messages", "payloads", "exceptions"])

prop("C23", "Data-race freedom of everything documented as thread-safe",
 "When several threads use one Semaphore, Mutex, RingBufferGuarded, ObjectPool, BlockPool or MessageQueue through its public operations (including statistics, last-message name, abort and dispatch locks), every pair of conflicting accesses to shared memory is ordered by synchronisation under the C++ memory model. So is whatever a caller wrote before put, give, emplace or releasing a block relative to the caller who gets that value, unit, message or block next, and whatever a message's name function wrote relative to the caller who obtains that name.",
 ["schedules", "programs"],
 "All interleavings of 2-4 threads over a set of client programs that together combine all pairs of public operations of each class; memory accesses of library and client code are all observed.",
 "A data race has no observable effect in an ordinary test run on x86, whatever the schedule.",
 SEM + MTX + RBG + POOL + MQ, [("mutex-protected state", "src/Semaphore.cpp, src/MemoryPoolBase.cpp"), ("atomics", "src/RingBufferGuarded.hpp state, src/MessageQueueBase.cpp runningState/nameOfLastMessageDispatched/aborted")],
 observe=["every memory access"])

prop("C24", "No heap allocation after construction",
 "Once a Semaphore, Mutex, RingBufferSimple, RingBufferGuarded, ObjectPool, BlockPool or MessageQueue is constructed, none of its operations that complete without throwing allocates or frees heap memory: all storage is reserved by the constructor and released by the destructor. Destruction releases everything that was reserved.",
 ["histories", "schedules", "configurations"],
 "All operations of every class over all short histories and the interleavings of small concurrent programs (blocking paths included), with every call to the heap recorded.",
 "Heap use is invisible to the functional tests.",
 SEM + MTX + RBS + RBG + POOL + OBJ + BLK + MQ, [("pre-allocated rings and arenas", "src/RingBufferSimple.hpp, src/MemoryPoolBase.cpp, src/MessageQueueBase.cpp"), ("reference wrappers instead of capturing functors", "src/RingBufferGuarded.hpp get/put")],
 observe=["calls to malloc/free/new/delete"])

prop("C25", "MessageQueue: dispatch protocol (wake-up, name, dispatch, destroy)",
 "For each message taken, the wake-up functor (when given) runs exactly once, after the message became available and before its dispatch, not under the dispatch lock; then the message's name is recorded, then dispatch runs once on the dispatching thread, then the message is destroyed. When the functor, name or dispatch throws, whatever it throws reaches the caller of getAndDispatch unchanged, nothing after it happens to that message except its one destruction, and the next message is treated in the same way. getNameOfLastMessageDispatched returns \"[NONE]\" before the first dispatch and otherwise the name given by the message most recently handed to dispatch, also while that dispatch is running or when it threw; a message that does not override name reports \"Unforgiven\".",
 ["histories", "schedules"],
 "All sequences up to a depth of messages with and without names, wake-up functors and dispatches that throw; interleavings with threads reading the name and holding the dispatch lock.",
 "The tests look at the name after a completed dispatch and at one wake-up call.",
 MQ, [("getAndDispatch", "src/MessageQueue.cpp"), ("dispatchMessage", "src/MessageQueueBase.cpp")],
 observe=["order of functor, name, dispatch and destructor calls", "getNameOfLastMessageDispatched()"])

prop("C26", "JobDispatcher example: every job runs once and the run terminates",
 "With any number of processors from 2 up, after activation runJobs starts jobs 1..128, runs each exactly once on the task it was assigned to, keeps every task busy until the jobs run out, and returns after all 128 have completed; deactivation and destruction then stop all threads, release all resources and return.",
 ["schedules", "configurations"],
 "All orders in which tasks can finish (job durations explored as choices in virtual time, with ready threads always allowed to run before time advances) and bounded preemptions, for 2-4 processors and a scaled set of schedules.",
 "The example is not a test; it takes minutes of real time and one schedule per run.",
 ["examples/JobDispatcher/src/JobDispatcher.cpp", "examples/JobDispatcher/src/JobTask.cpp", "examples/JobDispatcher/src/JobData.cpp"],
 [("message driven job loop", "examples/JobDispatcher/src/JobDispatcher.cpp"), ("task loop", "examples/JobDispatcher/src/JobTask.cpp")],
 observe=["job start/finish", "return of runJobs/deactivate/destructor"])

prop("C27", "Construction is all-or-nothing when memory or mutexes run out",
 "Whichever allocation of a constructor fails (Mutex, Semaphore, ring buffers, pools, MessageQueue; any parameters), the caller gets std::bad_alloc, and when the system refuses to initialise a mutex, std::system_error with that code (never an instance with an unusable mutex). Nothing leaks or is released twice, other instances are unaffected, and a later construction yields a fully working instance. Operations that succeed keep working while no memory is available. When the constructor of a user's object, array element or message runs out of memory inside createObj, getBlock, put or emplace, the caller gets std::bad_alloc, what was constructed is destroyed, and no block or slot is lost.",
 ["fault positions", "configurations", "histories"],
 "Every position at which an allocation or mutex initialisation can fail, once and twice in a row, for every class with parameters of several orders of magnitude; and every sequence of operations up to a depth with the nth allocation of each failing.",
 "The tests never run out of memory; a leak on a failure path is invisible to them.",
 MTX + SEM + RBS + RBG + POOL + OBJ + BLK + MQ,
 [("members own what they allocate; the arena is allocated last", "src/MessageQueueBase.cpp Imple, src/MemoryPoolBase.cpp Imple"), ("mutex initialisation is checked", "src/Mutex.cpp Mutex::Mutex"), ("deleters during construction", "src/ObjectPool.hpp createObj, src/BlockPool.hpp getBlock, src/MessageQueue.hpp put/emplace")],
 observe=["exceptions of constructors", "heap balance", "statistics afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
