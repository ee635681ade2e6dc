#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

RS, RG, SE, SH = "src/RingBufferSimple.hpp", "src/RingBufferGuarded.hpp", "src/Semaphore.cpp", "src/Semaphore.hpp"
MU, MP, MPH = "src/Mutex.cpp", "src/MemoryPoolBase.cpp", "src/MemoryPoolBase.hpp"
QB, QBH, QH, QC = "src/MessageQueueBase.cpp", "src/MessageQueueBase.hpp", "src/MessageQueue.hpp", "src/MessageQueue.cpp"

prop("C01", "Simple ring buffer is an exact bounded FIFO",
 "For any sequence of put and get calls on a RingBufferSimple, successful gets return exactly the successfully put values, each once and in put order, no matter how many operations have been performed over the buffer's lifetime. "
 "put throws RingBufferOverflow exactly when the buffer already holds getSize() elements and get throws RingBufferUnderflow exactly when it holds none. "
 "A call that throws leaves the contents and their order unchanged.",
 ["inputs", "histories"],
 "every reported size, every content, every number of earlier operations (including past 2^32 of them), every value, every element type the template accepts",
 "testRingBufferSimple does four puts and four gets on one buffer of size 4; it never wraps an index, never mixes full/empty with wrap-around and cannot reach counter overflow.",
 [RS], [("free-running put/get counters compared modulo 2^32 and masked to an index", RS)],
 [("getCount/putCount", "numbers of gets and puts so far, modulo 2^32, minus one", RS), ("pElementBuf", "element storage", RS)],
 ["RingBufferSimple::get", "RingBufferSimple::put"])

prop("C02", "Ring buffer size is the clamped power-of-two round-up of the request",
 "A ring buffer constructed for n elements reports a size equal to the smallest power of two that is at least n, with n first clamped to the range 2 to 1048576. "
 "Its reported mask is that size minus one and its reported number of bits is the base-two logarithm of that size. "
 "The buffer starts empty and can really hold that many elements.",
 ["inputs", "configurations"], "every requested element count representable in size_t",
 "The tests construct buffers with 3, 4, 256 and 262144 elements; the arithmetic must be right for all 2^64 requests, including 0, 1, powers of two, their neighbours and values above 2^32.",
 [RS], [("numBitsForNE/maskForNB computed in the constructor", RS)], [("numBits, numElementsMask, numElements", "derived geometry", RS)],
 ["getSize", "getMask", "getNumBits"])

prop("C03", "Semaphore count is conserved and stays within its bounds",
 "At every moment the available count equals the clamped initial count plus completed gives minus completed takes, and lies between zero and the maximum: a take never succeeds when the count is zero and a give never succeeds when the count is at the maximum. "
 "The initial count is clamped to 2^32-1; the maximum is 2^32-1 when given as zero, and otherwise the given value limited to 2^32-1 and raised to the clamped initial count. "
 "A give at an available count of 2^32-1 throws SemaphoreOverflow and changes nothing.",
 ["inputs", "schedules", "histories"], "every pair of constructor arguments, every number of threads calling take, give, abort and getAvailableCount, every interleaving of them",
 "The tests use initial counts 0 and 4 and maxima 0, 4 and 1024 and look at the count only at quiet points; neither argument extremes nor interleavings are enumerable by running threads.",
 [SE, SH], [("mutex-protected available count, wait loops that re-test the count, constructor clamping", SE)],
 [("availableCount", "units that can be taken now", SE), ("maxAvailableCount", "bound on availableCount", SE)],
 ["Semaphore::take", "Semaphore::give", "Semaphore::getAvailableCount"])

prop("C04", "Semaphore functor operations are atomic, run once and undo on exceptions",
 "take(op) and give(op) call op exactly once per successful acquisition, never when they fail by abort or overflow, and always while the semaphore's internal lock is held, so operations of different threads never overlap. "
 "take(op) calls op after the count was decremented and give(op) calls it before the count is incremented. "
 "If op throws, the exception reaches the caller, the available count is what it would be had the call never been made, and the internal lock is released.",
 ["schedules", "histories", "fault_sequences"], "every op (returning or throwing), every count, every interleaving with other threads",
 "One single-threaded test throws from one take; throwing from give, throwing after a wait, and the mutual exclusion of two threads' operations are never exercised.",
 [SE, SH], [("unique_lock held across the functor call; count restored on unwinding", SE)], [("availableCount", "units that can be taken now", SE)],
 ["Semaphore::take(const FunctionType&)", "Semaphore::give(const FunctionType&)"])

prop("C05", "No semaphore wake-up is ever lost",
 "A thread blocked in take never stays asleep while units are available that no already awakened taker is going to consume, and a thread blocked in give never stays asleep while there is room that no already awakened giver is going to use. "
 "This holds also when a functor operation of another thread ended with an exception.",
 ["schedules", "histories", "fault_sequences"], "every number of waiting takers and givers (fewer than 65536 at once), every interleaving, every outcome of functor operations",
 "A lost wake-up needs a particular interleaving and shows as a hang; the tests run eight symmetric threads in which a later operation almost always repairs a missed signal.",
 [SE], [("signal on each increment; signal to givers on each decrement when givers are pending", SE)],
 [("takePendingCount/givePendingCount", "threads inside the respective wait", SE)],
 ["Semaphore::take", "Semaphore::give"])

prop("C06", "Semaphore abort is permanent and releases every waiter",
 "Once abort has completed, no take or give ever succeeds again on that semaphore: each throws SemaphoreAborted without changing the count or calling a functor. "
 "Every thread that was blocked in take or give when abort happened is awakened and leaves with SemaphoreAborted. "
 "abort may be repeated and never blocks or throws, and destroying a semaphore aborts it first.",
 ["schedules", "histories"], "every number of blocked threads on both sides (fewer than 65536), every state of the count, every interleaving with abort",
 "The abort test has exactly one blocked taker; blocked givers, several waiters, and aborts racing with a give or take are not covered.",
 [SE], [("abort flag tested under the lock before every success; broadcast on both conditions", SE)], [("abortFlag", "set once, never cleared", SE)],
 ["Semaphore::abort", "Semaphore::take", "Semaphore::give", "Semaphore::~Semaphore"])

prop("C07", "Mutex reports lock outcomes faithfully and uses priority inheritance",
 "lock and unlock return normally exactly when the native mutex operation succeeded and throw std::system_error carrying the native error code otherwise; try_lock returns true exactly when the mutex was acquired, false exactly when it was busy, and throws std::system_error for any other error. "
 "Each Mutex owns one native mutex that was initialised with the priority-inheritance protocol before first use, whose address native_handle returns, and which is destroyed and freed exactly once with the Mutex.",
 ["inputs", "fault_sequences", "configurations"], "every return code of the native mutex operations",
 "No test targets Mutex; native operations never fail in the tests and the protocol attribute is not observed.",
 [MU, "src/Mutex.hpp"], [("thin wrapper over pthread_mutex_* with a PTHREAD_PRIO_INHERIT attribute", MU)], [("nativeHandle", "the owned native mutex", MU)],
 ["Mutex::lock", "Mutex::try_lock", "Mutex::unlock", "Mutex::native_handle"])

prop("C08", "Guarded ring buffer delivers each element exactly once, FIFO, and blocks",
 "With any number of threads calling put and get on a ready RingBufferGuarded built for n elements (1 to 1048576), every element whose put completed is returned by exactly one get, and elements come out in the order in which they went in. "
 "get blocks while the buffer is empty and put blocks while it holds n elements; neither ever throws RingBufferUnderflow or RingBufferOverflow or sees a half-written element.",
 ["schedules", "inputs", "histories"], "every n from 1 to 2^20, every number of producers and consumers, every interleaving, every element value including typed and const pointers",
 "The contention test uses one buffer of 262144 elements that never becomes full and checks only that each element arrived once, not order, blocking at n, or small and non-power-of-two n.",
 [RG, SE, RS], [("simple ring buffer operated only inside the semaphore's lock, count of the semaphore equal to the occupancy", RG)],
 [("semaphore", "available count equals number of elements held", RG)], ["RingBufferGuarded::get", "RingBufferGuarded::put"])

prop("C09", "Guarded ring buffer life cycle: prime once, operate, abort for good, flush all",
 "A buffer built for priming accepts get and put only after prime has called its function for the indices 0 to n-1 in order and enqueued exactly those n results in that order (a prime whose function throws leaves nothing enqueued); before that, and for prime or flush in any other than their proper state, calls throw RingBufferStateError and change nothing. "
 "After abort no get or put transfers an element, a concurrent prime cannot bring the buffer back to the ready state, and blocked callers leave with SemaphoreAborted. "
 "flush on an aborted buffer hands every element still held to its function exactly once, in FIFO order.",
 ["schedules", "histories", "inputs"], "every operation in every state, every n, every abort point during prime, every content at flush time",
 "prime, flush and wrong-state calls of RingBufferGuarded have no test of their own; only MessageQueue construction and destruction use them, always in the proper state.",
 [RG], [("atomic three-valued state and compare-exchange at the end of prime", RG)], [("state", "needs priming, ready or terminal", RG)],
 ["RingBufferGuarded::prime", "RingBufferGuarded::flush", "RingBufferGuarded::abort", "RingBufferGuarded::get", "RingBufferGuarded::put"])

prop("C10", "Live pool and queue blocks never overlap, are aligned, in bounds, big enough",
 "The memory behind any two objects, blocks or messages that are alive at the same time in ObjectPool, BlockPool or MessageQueue never overlaps, lies entirely within memory owned by that pool or queue, is aligned for pointers, and is at least as large as the object or block placed on it. "
 "Obtaining or recycling one block never modifies a byte of another live block or of memory outside the pool. "
 "A freshly obtained block is zero-filled before the object is constructed on it.",
 ["inputs", "configurations", "histories"], "every requested number of elements, every element size including sizes that are not a multiple of the pointer size, every history of obtaining and returning blocks",
 "The tests only use element sizes that are multiples of eight and check one distance between two blocks; overlap between neighbours shows only for other sizes and contents.",
 [MP, MPH, QB, "src/ObjectPool.hpp", "src/BlockPool.hpp", QH], [("one arena cut into equal blocks whose addresses circulate through a ring buffer", MP), ("the same for messages", QB)],
 [("arena", "memory the blocks are cut from", MP), ("paddedElementSize / elementSize", "usable size of a block", MP)],
 ["ObjectPool::createObj", "BlockPool::getBlock", "MessageQueue::put", "MessageQueue::emplace"])

prop("C11", "Pool blocks are never leaked, duplicated or invented",
 "At every moment each of a pool's getSize() blocks is either free or held by exactly one caller: a request hands out one free block to one caller, and fails with RingBufferUnderflow, changing nothing, exactly when no block is free. "
 "A block given back becomes free again exactly once and is available to any later request from any thread; giving back never fails, blocks the program or throws. "
 "This holds for any number of threads requesting and returning blocks concurrently.",
 ["schedules", "histories", "inputs"], "every pool size, every history and interleaving of requests and returns from any number of threads",
 "All pool tests are single-threaded and hold at most four blocks; a leaked or duplicated block under a race or after many cycles is out of their reach.",
 [MP, MPH, "src/MemoryPoolDeleterBase.cpp"], [("mutex around the ring buffer of free blocks", MP)], [("ringBuffer", "free blocks", MP), ("mutex", "guards it", MP)],
 ["ObjectPool::createObj", "BlockPool::getBlock", "ObjectPoolDeleter::operator()", "BlockPoolDeleter::operator()"])

prop("C12", "Pool running statistics are exact and never out of range",
 "Whenever no request or return is in progress, a pool's running count equals the number of free blocks and its low watermark equals the smallest running count reached since construction. "
 "Every snapshot, also one taken while other threads request and return blocks, shows a low watermark not above the running count and a running count not above the size. "
 "The low watermark never increases.",
 ["schedules", "histories"], "every pool size, every interleaving of requests, returns and snapshots from any number of threads",
 "Statistics are tested single-threaded only; lost updates, torn snapshots and transient underflow need particular interleavings.",
 [MP], [("two counters packed in one 64-bit atomic, updated by compare-exchange", MP)], [("runningState", "running count and low watermark", MP)],
 ["getRunningStateStatistics"])

prop("C13", "ObjectPool objects are constructed once, destroyed once, returned to their pool",
 "createObj either returns a pointer that owns one object constructed once with the forwarded arguments on a block of that pool, or throws and leaves no object behind and no block taken. "
 "Destroying, resetting or transferring-then-destroying that pointer runs the object's destructor exactly once and then returns that same block to the pool it came from. "
 "createObj for a type larger than the pool's padded element size throws ObjectPoolElementSizeError without taking a block.",
 ["inputs", "histories", "fault_sequences"], "every derived type (any size, any position of the base within it), every element size, constructors that throw, every history of pointer moves",
 "Tests cover one small hierarchy with the base first, one throwing constructor and no oversized type.",
 ["src/ObjectPool.hpp", "src/ObjectPoolDeleter.hpp", "src/MemoryPoolDeleterBase.cpp", "src/MemoryPoolDeleterBase.hpp", MPH],
 [("RawMemoryManager guard, custom deleter carrying the pool", "src/ObjectPool.hpp")], [("pool", "originating pool in the deleter", "src/MemoryPoolDeleterBase.hpp")],
 ["ObjectPool::createObj", "ObjectPoolDeleter::operator()"])

prop("C14", "BlockPool blocks hold exactly n initialised elements, destroyed exactly once",
 "getBlock returns a block of exactly the configured number of elements: all zero for scalar types, each default-constructed exactly once for other types, and the pointer's deleter reports that number. "
 "When the owning pointer is destroyed every element of a non-scalar type is destroyed exactly once and the block goes back to its pool exactly once. "
 "If an element's constructor throws, the elements already constructed are destroyed, the block is returned and the exception reaches the caller.",
 ["inputs", "histories", "fault_sequences"], "every number of elements per block, every element size, scalar and class types, every position at which a constructor throws",
 "Tests use blocks of 4 and 24 elements, one throw position, and do not check that every element is destroyed.",
 ["src/BlockPool.hpp", "src/BlockPoolDeleter.hpp", MP], [("array placement new guarded by RawMemoryManager; deleter derives the count from the element size", "src/BlockPool.hpp")],
 [("elementsPerBlock", "configured number of elements", "src/BlockPool.hpp")], ["BlockPool::getBlock", "BlockPoolDeleter::operator()", "BlockPoolDeleter::getNumElements"])

prop("C15", "MessageQueue delivers each accepted message once, in order, up to its capacity",
 "Each message whose put or emplace completed before abort is passed to exactly one getAndDispatch or purge, in the order the messages were enqueued, and each getAndDispatch dispatches exactly one message exactly once. "
 "purge dispatches nothing and, on a queue nobody else is using, removes every enqueued message. "
 "A queue built for n messages holds up to n undelivered or in-dispatch messages; put and emplace block when n are outstanding and getAndDispatch blocks when none is enqueued. "
 "A message type larger than the queue's padded message size is rejected with MessageQueueElementSizeError before anything is taken from the queue.",
 ["schedules", "histories", "inputs"], "every n from 1 to 2^20, every message size, every number of producers and consumers, every interleaving",
 "The queue test counts dispatches of one producer and one consumer; order, capacity blocking and oversized messages are not checked.",
 [QB, QBH, QH, QC, RG], [("raw and cooked guarded ring buffers", QB)], [("rawRingBuffer/cookedRingBuffer", "free blocks and enqueued messages", QB)],
 ["MessageQueue::put", "MessageQueue::emplace", "MessageQueue::getAndDispatch", "MessageQueue::purge"])

prop("C16", "Every queued message is destroyed exactly once and its storage recycled",
 "A message constructed in a MessageQueue is destroyed exactly once: after its dispatch whether dispatch or the wake-up functor returned or threw, by purge without being dispatched, by queue destruction if still enqueued, or by the failing put or emplace itself if the queue was aborted meanwhile. "
 "Its storage block then becomes available again exactly once, also when the message's constructor threw, so a queue that is not aborted never loses capacity.",
 ["schedules", "histories", "fault_sequences", "inputs"], "every message type (any position of the message base within it), every throwing point in constructor, wake-up functor and dispatch, every interleaving with abort",
 "The tests throw from one constructor and one dispatch, always with the message base first in the object and never with abort racing an enqueue.",
 [QH, QC, QBH, QB], [("RawMemoryManager and CookedMemoryManager guards; flush at destruction", QBH)], [("arena", "message storage", QB)],
 ["MessageQueue::put", "MessageQueue::emplace", "MessageQueue::getAndDispatch", "MessageQueue::purge", "MessageQueue::~MessageQueue"])

prop("C17", "Dispatch lock excludes dispatching and is released exactly once",
 "With dispatch locking enabled every dispatch runs with the queue's dispatch lock held and the lock is free again afterwards even if dispatch throws, so no message is dispatched while any thread holds an AutoDispatchLock of that queue. "
 "An AutoDispatchLock that holds the lock releases it exactly once, across unlock, lock, move construction, move assignment (which first releases a lock already held by the target) and destruction; a moved-from lock does nothing. "
 "Without dispatch locking enabled getAutoDispatchLock throws MessageQueueDispatchLockingDisabled and dispatch takes no lock.",
 ["histories", "schedules", "fault_sequences"], "every sequence of lock-object operations, every outcome of dispatch, both configurations",
 "The test holds one lock for one message; throwing dispatch with locking on, unlock/lock, and moves between lock objects are not exercised.",
 [QB, QBH, QH], [("lock_guard around dispatch, AutoDispatchLock RAII with ownership flag", QB)], [("pMutex", "dispatch mutex or null", QB), ("locked", "ownership flag of AutoDispatchLock", QBH)],
 ["MessageQueue::getAutoDispatchLock", "MessageQueue::getAndDispatch", "AutoDispatchLock"])

prop("C18", "MessageQueue statistics are exact and never out of range",
 "Whenever no queue operation is in progress, the running count equals the number of enqueued messages and the high watermark equals the largest running count reached since construction. "
 "Every snapshot, also one taken while other threads enqueue and dispatch, shows the requested size and a running count not above the high watermark, and a high watermark not above the requested size. "
 "The high watermark never decreases.",
 ["schedules", "histories"], "every queue size, every interleaving of put, emplace, getAndDispatch, purge and snapshots",
 "Statistics are tested single-threaded only; the failing case needs a producer to be awakened between two steps of a consumer.",
 [QB], [("two counters packed in one 64-bit atomic, updated by compare-exchange", QB)], [("runningState", "running count and high watermark", QB)],
 ["MessageQueue::getRunningStateStatistics"])

prop("C19", "Aborting a MessageQueue stops it for good and never terminates the process",
 "After abort every later put, emplace and getAndDispatch throws a std::runtime_error without dispatching or enqueuing anything, and every thread blocked in one of them leaves with such an exception. "
 "Aborting or destroying a queue while messages are being enqueued, dispatched or purged never terminates the process by an exception escaping from clean-up code. "
 "The name reported as last dispatched is always that of the message most recently handed to dispatch, and \"[NONE]\" before the first.",
 ["schedules", "histories", "fault_sequences"], "every point at which abort can fall within the other operations, every number of blocked threads",
 "The tests abort a queue only from its owner's destructor with at most one idle consumer; abort falling between two steps of put or of message clean-up is never forced.",
 [QB, QBH, QH, QC, RG], [("abort of both guarded ring buffers; memory managers returning blocks from destructors", QB)], [("aborted", "abort flag", QB)],
 ["MessageQueue::abort", "MessageQueue::put", "MessageQueue::getAndDispatch", "MessageQueue::getNameOfLastMessageDispatched"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
