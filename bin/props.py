#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 bin/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
S = "stingraykit/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state], "hook_needed": None}})
NOTHR = "the threading tests are single schedules on an idle machine (and most are disabled); a property over all interleavings needs the schedules enumerated"

prop("C01", "Signal delivery: every connected handler once, in connection order",
  """Invoking a signal calls every handler that is connected for the whole duration of the invocation exactly once, in connection order, with the arguments given, and calls no handler whose connection was over before
  the invocation started. Handlers may connect and disconnect handlers (themselves included), invoke the signal again or throw: an exception goes to the signal's exception handler and the remaining handlers are still called.
  Handlers connected from inside or concurrently are either called or not in that invocation, never twice.""",
  "schedules programs", "every program of connects, disconnects, nested and concurrent invocations on one signal, and every interleaving of its threads", NOTHR + "; unit tests connect a few handlers in fixed order from one thread",
  ["signal/signals.h", "signal/signal_connector.h", "signal/signal_policies.h", "function/AsyncFunction.h"],
  [("handlers list copied under the signal mutex before invoking", "signal/signals.h"), ("exception policy wraps every handler call", "signal/signal_policies.h")], ["signal::operator()", "handler bodies", "exception handler"])
prop("C02", "Signal disconnection is a barrier",
  """Once resetting the connection token of a signal handler has returned in some thread, the handler is not running in any other thread and will never be called again by that signal, whatever invocations are in progress.
  Resetting a connection from inside the handler itself never deadlocks; tokens outlive the signal harmlessly and the signal outlives tokens harmlessly.""",
  "schedules programs", "every interleaving of invocations, connection resets (from other threads and from inside handlers) and destruction of the signal", NOTHR + "; no test disconnects concurrently with an invocation",
  ["signal/signals.h", "signal/signal_connector.h", "thread/TaskLifeToken.h", "Token.h"],
  [("per-handler TaskLifeToken guards each call", "signal/signals.h"), ("release waits for running executions", "thread/TaskLifeToken.h")], ["Token::Reset return", "handler bodies"])
prop("C03", "Signal connect policy: current state sent before any later notification",
  """A handler connected to a populating signal first receives the state sent by the signal's populator and only then later notifications, with no notification lost or delivered before or during the populating calls,
  even if notifications are raised concurrently with connecting. A signal whose policy forbids connecting synchronously or asynchronously refuses such connections, and SendCurrentState delivers exactly the populator's state.""",
  "schedules programs configurations", "every interleaving of connecting, changing the state under the signal's external mutex and invoking", NOTHR,
  ["signal/signals.h", "signal/signal_policies.h", "signal/signal_connector.h"],
  [("population runs under the signal's sync guard before the handler is added", "signal/signals.h")], ["handler bodies"])
prop("C04", "Asynchronous connections and life tokens: no execution after release",
  """An asynchronously connected handler is executed only through its task executor, once per notification, in notification order; after its connection token has been reset no execution starts and none is in progress in another thread.
  A function guarded by a life token, a cancellable function or an async function never starts after the token's release returned, and release returns only when no other thread is executing it.""",
  "schedules programs", "every interleaving of notifications, task execution and releases (including release from inside the guarded function and repeated releases)", NOTHR,
  ["thread/TaskLifeToken.h", "function/CancellableFunction.h", "function/AsyncFunction.h", "signal/signals.h", "FunctionToken.h"],
  [("execution counter and kill flag guarded by LocalExecutionGuard", "thread/TaskLifeToken.h")], ["Token::Reset / Release return", "task bodies"])
prop("C05", "ThreadTaskExecutor: accepted tasks run once, in order, none lost",
  """A thread task executor runs every task whose addition has completed exactly once, in the order of addition and one at a time, except tasks whose life token was released before they started, which never run.
  An exception thrown by a task is passed to the exception handler and does not affect other tasks; tasks may add tasks or release tokens. Destroying the executor waits until everything added has been executed, and a quiescent system holds no unexecuted task.""",
  "schedules programs", "every program of task additions, token releases and destruction, and every interleaving of client threads and the worker", "the executor tests are disabled or run one schedule; lost wake-ups and drops at destruction need particular interleavings",
  ["thread/ThreadTaskExecutor.cpp", "thread/ThreadTaskExecutor.h", "thread/ITaskExecutor.h", "thread/TaskLifeToken.h"],
  [("queue under mutex, condition variable wake-up", "thread/ThreadTaskExecutor.cpp"), ("worker drains the queue after cancellation", "thread/ThreadTaskExecutor.cpp")], ["AddTask call/return", "task bodies", "exception handler", "destructor return"],
  [("_queue", "tasks accepted and not taken", "thread/ThreadTaskExecutor.h")])
prop("C06", "ThreadlessTaskExecutor: one runner, FIFO, none lost",
  """Tasks of a threadless task executor run only inside ExecuteTasks calls, one at a time, in order of addition and at most once; a second concurrent or nested ExecuteTasks returns without running anything; an ExecuteTasks call that ran
  returns only when the queue was empty or its cancellation token was cancelled. Tasks that were not run stay queued until cleared, released tokens prevent execution, and an exception from one task affects no other task.""",
  "schedules programs", "every program of additions, clears, cancellations, nested and concurrent runs, and every interleaving", "there is no enabled test of this class; the guarantees are about interleavings of several client threads",
  ["thread/ThreadlessTaskExecutor.cpp", "thread/ThreadlessTaskExecutor.h", "thread/TaskLifeToken.h"],
  [("active-executor flag and queue under one mutex", "thread/ThreadlessTaskExecutor.cpp")], ["AddTask, ClearTasks, ExecuteTasks call/return", "task bodies"])
prop("C07", "Timer: never early, in due order, never lost",
  """A timer executes a task only after its full timeout has elapsed, one task at a time on its own thread and in order of due time (equal due times in order of addition); a periodic timer repeats with at least its interval between the due times.
  Every task added and not cancelled is eventually executed, whatever other timers are added, cancelled or executed meanwhile, and an exception from one task is passed to the exception handler and affects no other. AddTask on a timer is executed like a task executor's.""",
  "schedules programs", "every program of timer additions and cancellations with arbitrary timeouts, and every interleaving with the timer thread, in virtual time", "timer tests depend on real time, use a few fixed timeouts and are single-schedule",
  ["timer/Timer.cpp", "timer/Timer.h", "thread/TaskLifeToken.h"],
  [("callback queue ordered by time to trigger", "timer/Timer.cpp"), ("condition variable wake-up on earlier additions", "timer/Timer.cpp")], ["task bodies with virtual time"])
prop("C08", "Timer cancellation and destruction are barriers",
  """Once resetting the token of a timer task has returned, the task is not running in another thread and never runs again, including periodic tasks being re-armed at that moment and tasks resetting their own token.
  Destroying a timer waits for the running task, leaves no task running afterwards and tokens may outlive the timer.""",
  "schedules programs", "every interleaving of token resets with the timer thread popping, running and re-arming tasks, and destruction", NOTHR,
  ["timer/Timer.cpp", "timer/Timer.h"], [("life token per callback; removal under the queue mutex", "timer/Timer.cpp")], ["Token::Reset return", "task bodies", "destructor return"])
prop("C09", "Execution deferrer: at most one pending execution, the latest",
  """An execution deferrer executes the most recently deferred function no earlier than its timeout after the Defer, and, unless it is replaced or cancelled, always; with an idle timer exactly when the timeout has elapsed, and a function replaced by a later Defer before its timeout has elapsed never executes. At most one function is armed at a time; a repeating one repeats until replaced or cancelled.
  After a Cancel that did not meet another Cancel in progress (or destruction) has returned, no function deferred before it starts, and none is running in another thread unless it had itself called Cancel; cancelling from inside the deferred function works and does not deadlock.""",
  "schedules programs", "every interleaving of Defer, Cancel, destruction and the timer thread", NOTHR, ["timer/Timer.h", "timer/Timer.cpp"], [("connection token replaced under mutex", "timer/Timer.cpp")], ["Defer/Cancel return", "function bodies"])
prop("C10", "Promise and future: one result, observed by everybody waiting",
  """The first value or exception set on a promise is the one result that every Get of its futures (shared or not) yields; a later set_value fails with the already-satisfied error and a later set_exception is ignored, retrieving the future twice and using an empty future fail with their errors, swapping promises exchanges them completely,
  and destroying an unsatisfied promise makes waiters fail with the broken-promise error. Waits return ready exactly when a result was set (never lost), timeout only after the timeout elapsed without readiness, and cancelled only if the token was cancelled.""",
  "schedules programs", "every program over promises, futures and shared futures with timed and cancellable waits, and every interleaving of setters and waiters", "future tests set before or after waiting in one schedule; lost wake-ups and races of two setters need interleavings",
  ["future.h"], [("result state under mutex and condition variable", "future.h")], ["call/return of every operation"])
prop("C11", "Cancellable waits: no lost wake-up, no wrong result",
  """A wait on a condition variable with a cancellation token returns without a notification only if the token (or, for a joined token, any of its parts) was cancelled or its deadline passed (apart from spurious wake-ups of the platform): it reports Cancelled only if a part was cancelled, TimedOut only after the deadline, and Broadcasted only if notified while not cancelled.
  A cancelled token, cancelled before or during the wait, always ends the wait at once, a notification during the wait and the deadline end it too; waits leave nothing registered behind. Sleeping on a token reports a full sleep exactly when the whole duration elapsed and otherwise ends early only by cancellation or the token's deadline.
  Cancelling from several threads, cancelling before waiting, and resetting a token (refused while it is being cancelled or waited on; a token that is part of a joined token in use is not reset) work, and a reset token can be used again.""",
  "schedules programs configurations", "every interleaving of waiters, notifiers and cancellers, for plain, timed, joined, dummy tokens", NOTHR + "; cancellation tests are disabled",
  ["thread/CancellationToken.cpp", "thread/CancellationToken.h", "thread/JoiningCancellationToken.cpp", "thread/TimedCancellationToken.cpp", "thread/posix/PosixConditionVariable.cpp", "thread/ConditionVariable.h", "thread/CancellationRegistrator.h"],
  [("registration state machine of the token", "thread/CancellationToken.cpp"), ("cancellation handler of the waiting condition variable", "thread/posix/PosixConditionVariable.cpp")], ["Wait/TimedWait/Sleep/Cancel call/return"])
prop("C12", "Circular buffers and pipes: the byte stream is preserved",
  """Bytes read from a circular buffer or pipe are exactly the bytes written, in order, without loss or duplication, whatever chunk sizes, partial consumption and wrap-around: a reader's block is never overwritten or dropped while it holds it, a writer is offered exactly the free space up to the end of the storage and a reader the data up to it,
  sizes agree with the contents, clearing drops exactly what is not held, a full buffer refuses (or, if so configured, discards exactly the oldest bytes needed). (The two-part buffer is used with one reader and one writer whose buffer operations, not data accesses, are serialised.)
  A pipe write returns when all of it has been read, blocks of several writers of a synchronised pipe never mix, a buffered pipe and line reader yield the same bytes; blocked readers and writers are woken by data, space or cancellation, and give up only by cancellation or timeout of their token.""",
  "schedules programs", "every interleaving of readers and writers with arbitrary chunk sizes (including partial consumption), clearing and cancellation", NOTHR,
  ["io/BithreadCircularBuffer.h", "io/BithreadCircularBuffer.cpp", "io/BithreadPipe.h", "io/CircularBufferBase.h", "io/MemoryCircularBuffer.h", "io/BufferedPipe.h", "io/BufferedPipe.cpp", "io/SynchronizedPipe.h", "io/PipeReader.h"],
  [("read/write offsets with a contiguity flag", "io/BithreadCircularBuffer.cpp"), ("the same with locked data", "io/CircularBufferBase.h"), ("one-block slot under mutex and two condition variables", "io/BithreadPipe.h")], ["bytes read", "sizes", "call/return of operations"])
prop("C13", "Shared data buffers: nothing lost, reordered or overwritten",
  """Data consumed from a shared circular buffer or data buffer by its readers is exactly the data pushed by its writers in order: nothing is lost (except what an explicit discard or clear drops), duplicated or overwritten while a reader works on it, whatever amounts the consumers accept,
  and with input padding and required alignment of consumed sizes. Blocked producers and consumers proceed as soon as space or data appears, end of data or an exception set by the producer is reported exactly once after the preceding data, and cancellation always ends a blocked call.""",
  "schedules programs configurations", "every interleaving of writer, reader, clear/end-of-data/exception calls and cancellation, for all small sizes and paddings", NOTHR + "; buffer tests push and consume whole blocks from one thread",
  ["io/DataBuffer.h", "io/SharedCircularBuffer.h", "io/CircularBufferBase.h"], [("buffer locks mark regions in use under one mutex", "io/SharedCircularBuffer.h")], ["consumer callbacks", "Process/Read return values"])
prop("C14", "Packet buffer: packets come out whole, in order, with their metadata",
  """Every packet accepted by a packet buffer is delivered exactly once, in order, whole and with its own metadata; a packet the consumer refuses is offered again unchanged; a packet too large is refused with an exception and one that fits the buffer is eventually accepted once the buffer is drained.
  Clear drops exactly the pending packets (it is refused with an exception while the consumer works on one) and end of data is reported after the last one.""",
  "schedules programs configurations", "every sequence and interleaving of packet pushes, refusals, clears and consumption for all small buffer and packet sizes", "the packet buffer tests use a handful of sizes; wrap-around and padding cases depend on the sequence of sizes",
  ["io/PacketBuffer.h", "io/CircularBufferBase.h"], [("packet queue plus circular storage under one mutex", "io/PacketBuffer.h")], ["consumer callbacks"])
prop("C15", "Shared ownership: destroyed exactly once, after the last owner",
  """An object owned by shared pointers (or self-counting pointers) is destroyed exactly once, when and only when its last owner goes away, whatever threads copy, reset and lock concurrently; a weak pointer yields an owner if and only if the object is still owned,
  and use counts and uniqueness reported to the only user are exact. Self-owning objects obtain owners from this with the same guarantees, and moving or casting an owner never changes the count.""",
  "schedules programs", "every program of copies, moves, casts, resets, weak locks over several pointers, and every interleaving", NOTHR,
  ["shared_ptr.h", "ref_count.h", "self_counter.h", "thread/atomic/AtomicInt.h"], [("atomic strong and weak counters", "ref_count.h"), ("try-add-ref refuses to resurrect", "ref_count.h")], ["destructor calls", "lock results"])
prop("C16", "Tokens: every release action runs exactly once",
  """The release action bound to a token runs exactly once, when its last holder resets or is destroyed, and never before; composite tokens (pools, multi tokens, holders, generation tokens, lazily created or returning tokens) release each member exactly once, in their documented order and at their documented moment,
  and moving tokens around neither runs nor loses an action. Actions may reset or add other tokens.""",
  "programs histories schedules", "every sequence of token operations over pools, holders and nested tokens, and concurrent use of the thread-safe ones", "tests cover one add/reset sequence per class",
  ["Token.h", "FunctionToken.h", "MultiToken.h", "ObjectToken.h", "Holder.h", "ScopeExit.h", "ObjectPool.h"], [("token pool add/release", "Token.h")], ["release actions"])
prop("C17", "Observable collections: a listener's replica always equals the collection",
  """For every observable list, set, multiset and dictionary, a listener that applies each change notification (operation, key or index, value) to its own replica, starting from the notifications received on connecting, has exactly the collection's contents whenever no modification is in progress,
  with any threads modifying and any listeners connecting concurrently. Every notification corresponds to one operation that changed the collection (setting an existing dictionary key or list index to an equal value may or may not notify), operations that change nothing notify nothing, and queries and return values match the contents. (Comparers are total orders; listeners do not modify the collection from inside a notification.)""",
  "schedules histories programs", "every sequence of operations on the collection and every interleaving with connects and other modifiers", "tests check individual notifications for individual operations, from one thread",
  ["collection/ObservableListWrapper.h", "collection/ObservableSetWrapper.h", "collection/ObservableDictionaryWrapper.h", "collection/MultiMapObservableDictionary.h", "collection/SortedObservableMultiSet.h", "collection/ArrayObservableList.h"],
  [("modification and notification under the collection's mutex", "collection/ObservableSetWrapper.h"), ("populator sends the contents on connect", "collection/ObservableDictionaryWrapper.h")], ["OnChanged notifications", "enumeration"])
prop("C18", "Transactional collections: atomic, isolated, exclusive transactions",
  """At most one transaction on a transactional list, set or dictionary is open at a time, others wait until it ends or their token is cancelled or expires; readers and enumerators see only committed states, each as it was when taken, while the transaction sees its own changes and behaves as a collection of its own. Commit publishes all its changes at once; after revert or destruction without commit there are none.
  Listeners get, once for each commit that changes something and on connecting, the difference between the committed states (applied in turn to the old contents it gives the new ones); a difference taken from a transaction stays as it was and its entries can be applied to another. A transaction is dirty if its contents differ from the committed ones, clean if nothing was changed since its start, commit or revert, and for sets and dictionaries exactly when they differ.""",
  "schedules histories programs", "every sequence of transaction operations and every interleaving of transactions, readers and listeners", "tests run one transaction at a time from one thread",
  ["collection/TransactionalList.h", "collection/TransactionalSet.h", "collection/TransactionalDictionary.h", "collection/TransactionHelpers.h", "collection/DiffEntry.h", "collection/ITransactionalDictionary.h"],
  [("copy-on-write holder and transaction lock", "collection/TransactionalDictionary.h")], ["Get/GetDiff/IsDirty", "OnChanged diffs"])
prop("C19", "Observable values: every change notified once, last value always reported",
  """A listener of an observable value receives the current value on connecting (unless it or the population policy declines: none, or only when it differs from a default) and then each change once, in the order of the changes; setting a value the comparer deems equal changes and notifies nothing.
  Values derived from an observable or transactional collection (the value of a key, membership of an element) equal what the collection holds for that key and report each change of it once; setting them changes the collection. With concurrent setters the notifications of one change are delivered before the next change, readers see no change half-delivered, and the last value every listener received is the final value. (Listeners may read but not modify from inside a notification.)""",
  "schedules histories", "every sequence and interleaving of sets, connects and disconnects", "tests cover a few sets from one thread", ["ObservableValue.h", "IObservableValue.h", "signal/ValueFromSignalObtainer.h", "collection/ObservableDictionaryKeyValue.h", "collection/TransactionalDictionaryKeyValue.h", "collection/ObservableSetEntry.h"], [("set and notify under the signal's mutex", "ObservableValue.h")], ["OnChanged notifications", "Get"])
prop("C20", "Caches: values never wrong, size limit never exceeded",
  """A cache never returns a value that is not the latest one set for the key, after every operation holds no more total size than its limit (of each queue), and evicts exactly according to its policy: first set first out (setting a key again makes it the newest), least recently set or successfully asked for, or two queues (entries evicted from the first queue wait in the second and move to the hot, least-recently-used one when asked for).
  An entry is dropped only when room is needed or it is removed, and every eviction is reported once, after the entry is gone, in the order of eviction.""",
  "histories configurations", "every sequence of sets, gets and removals over few keys, value sizes and limits", "tests run one access pattern per policy", ["collection/QueueCache.h", "collection/TwoQueueCache.h", "collection/ICache.h", "collection/ordered_map.h"], [("eviction loop", "collection/QueueCache.h")], ["TryGet results", "enumerated size"])
prop("C21", "Containers behave as the mathematical collections they implement",
  """Flat, ordered and bidirectional maps and sets, fixed-capacity vectors and intrusive lists behave for every sequence of operations as the abstract collection they implement: membership, lookup, bounds, order of iteration (sorted, or insertion order with its documented re-insertion rule), one entry per key (per key and per value for the bidirectional map),
  results of insertion and erasure, comparison, copies, moves and swaps (contents and comparer), self-assignment, and destroy every element exactly once, also when an element's construction throws. (Bidirectional map: both the key and the value inserted are new.)""",
  "histories", "every sequence of operations over few keys and values", "tests exercise each operation in one or two states; the state space of sequences is not sampled", ["collection/flat_map.h", "collection/flat_set.h", "collection/ordered_map.h", "collection/ordered_set.h", "collection/bimap.h", "collection/inplace_vector.h", "collection/IntrusiveList.h"],
  [("sorted vector with binary search", "collection/flat_map.h"), ("list plus map of iterators", "collection/ordered_map.h")], ["results and full contents after each operation"])
prop("C22", "Interface collections: enumerators are stable snapshots",
  """Lists, sets, multisets, dictionaries and multi-dictionaries of the interface collections behave for every sequence of operations as the abstract collection they implement, and an enumerator obtained from one yields exactly the contents at the moment it was obtained, however the collection is modified afterwards. Reversed and bounded enumerations and lookups yield the corresponding part in the corresponding order.""",
  "histories", "every sequence of modifications interleaved with steps of several live enumerators", "tests enumerate an unchanging collection", ["collection/ArrayList.h", "collection/SortedSet.h", "collection/SortedMultiSet.h", "collection/MapDictionary.h", "collection/MultiMapDictionary.h", "collection/GenericDictionary.h", "collection/GenericSet.h", "collection/GenericList.h", "collection/OrderedSet.h", "collection/OrderedDictionary.h", "collection/FlatSortedSet.h", "collection/FlatMapDictionary.h"],
  [("copy-on-write of the shared container", "collection/GenericDictionary.h")], ["results, enumerations"])
prop("C23", "Thread pool: tasks run once, limit respected, waiters served",
  """A thread pool runs every task it accepted exactly once and at once on a free or new thread, never more tasks at the same time than its limit of threads, and refuses a submission only if all threads are occupied; a submission that may wait is accepted as soon as a thread is free (no lost wake-up) and otherwise fails only by cancellation or timeout of its token.
  A task's exception goes to the exception handler and its worker serves further tasks; surplus idle workers end after the idle timeout and new ones are started on demand; destruction cancels the tasks' token, waits for the running tasks and leaves no thread (a task accepted but not yet started may be given up then, and only then).""",
  "schedules programs", "every interleaving of submitting threads, workers, idle timeouts, cancellation and destruction", "the thread pool tests are disabled",
  ["thread/ThreadPool.cpp", "thread/ThreadPool.h"], [("worker list and idle counting under one mutex", "thread/ThreadPool.cpp")], ["task bodies", "Queue/TryQueue/WaitQueue returns"])
prop("C24", "Threads, once-only initialisation and release at exit",
  """A thread object runs its function exactly once, in a thread of its own with the given name and id; destroying it cancels the token the function was given (which also expires with the thread's timeout and never earlier) and returns only after the function has ended, also when it ended by an exception. A call-once function or singleton is constructed by exactly one of its first users and everybody else returns after it is complete, with the same object; if construction throws, a phoenix singleton is constructed by the next user while the others report that they could not be created. At exit the object is destroyed once: a safe singleton's by the last pointer dropped, and nobody is given a pointer to a dead object; a singleton reports afterwards that it is gone and a phoenix singleton is constructed again.""",
  "schedules programs", "every interleaving of first users, including failing constructions, exit of the process and destruction of the thread at any moment", NOTHR, ["thread/Thread.h", "thread/Thread.cpp", "thread/posix/PosixThreadEngine.cpp", "thread/call_once.h", "thread/posix/PosixCallOnce.cpp", "Singleton.h", "SafeSingleton.h", "PhoenixSingleton.h"],
  [("thread startup handshake", "thread/posix/PosixThreadEngine.cpp"), ("reference count of the safe singleton", "SafeSingleton.h")], ["function bodies", "join return", "construction and destruction"])
prop("C25", "Synchronisation primitives",
  """A mutex excludes other threads and, being recursive, is free again after as many unlocks as locks (an unlock by a stranger throws). A broadcast wakes every waiter of a condition variable, a signal at least one, no wake-up is lost and a timed wait fails only after its timeout. A semaphore admits exactly as many passes as there are permits and a timed pass fails only after its timeout. A barrier releases the threads of a party together once it is complete, telling exactly one of them that it was the last, also if waits wake up spuriously. Spinlocks exclude. Atomic flags, counters and values and synchronised values are linearizable: no update is lost.""",
  "schedules programs", "every interleaving of the participating threads, spurious wake-ups included", NOTHR, ["thread/Barrier.h", "thread/SyncValue.h", "thread/posix/PosixSemaphore.cpp", "thread/posix/PosixConditionVariable.cpp", "thread/posix/PosixThreadEngine.cpp", "thread/GenericMutexLock.h", "thread/GenericSemaphoreLock.h", "thread/atomic/Spinlock.h", "thread/atomic/AtomicFlag.h", "thread/atomic/AtomicInt.h", "thread/atomic.h"],
  [("generation counting", "thread/Barrier.h")], ["call/return of operations"])
prop("C26", "Byte streams and data-source stages preserve the byte sequence",
  """Memory, chunked, buffered and offset byte streams behave as one sequence of bytes with a position: what is read at a position is what was last written there, seeks and tells agree, short reads occur only at the end, and a failing underlying operation does not displace later ones. Between a data source and its consumer, aligners, takers, skippers, packetisers and depacketisers, mediators and interceptors pass on exactly the bytes of the source that they are configured to let through, in order, regrouped only as configured, and the end of data only after all of them, whatever amounts the consumer accepts at a time.""",
  "histories configurations", "every sequence of reads, writes, seeks and partial acceptances over small sizes", "tests use fixed blocks and fixed acceptance", ["io/MemoryByteStream.h", "io/ChunkedMemoryByteStream.h", "io/BufferedStream.h", "io/ByteStreamWithOffset.h", "io/DataPacketer.h", "io/DataAligner.h", "io/DataUtils.h", "io/ByteStreamDataSource.h", "io/BufferedDataMediator.h"],
  [("position arithmetic", "io/BufferedStream.h"), ("grouping", "io/DataAligner.h")], ["bytes and positions returned", "blocks offered and accepted"])
prop("C27", "Counted actions: acquired once at first use, released once at last",
  """Reference-counting maps, sets, values and counters run the acquiring action exactly at the first acquisition of a key, the releasing action exactly at the last release, and report counts, contents and results accordingly, also after an action failed: a failed acquisition holds nothing, a failed release leaves the entry either held or released, and it can be acquired and released again. An action transaction undoes every completed step exactly once, newest first, on rollback or destruction unless it was committed, also if an undo step fails and the rollback is repeated. An aggregated progress is the progress of the part scaled into the whole.""",
  "histories fault_sequences", "every sequence of acquisitions and releases, failures at every step", "tests run one sequence per class and no failing action", ["collection/RefCountingMap.h", "collection/RefCountingSet.h", "collection/RefCountingValue.h", "collection/RefCounter.h", "ActionTransaction.cpp", "AggregateProgressReporter.h"],
  [("counters per key", "collection/RefCountingMap.h"), ("rollback", "ActionTransaction.cpp")], ["results and actions run"])
prop("C28", "Value holders hold what was put in last and destroy every object exactly once",
  """Optionals, variants (with and without an empty state), any and function objects always hold exactly what was put into them last, whether by assignment (also to itself), construction, emplacement, copy, move or swap; every held object is constructed and destroyed exactly once; an operation whose copy throws leaves the holder with its old contents or empty, and usable; copies are independent (copies of a function share one functor); casts, visits, comparisons and the monadic operations agree with the held value.""",
  "histories fault_sequences", "every sequence of assignments, copies, moves, swaps and resets with a throw injected at any copy", "tests assign a few types and throw in one or two places", ["variant.h", "optional.h", "any.h", "any.cpp", "function/function.h", "aligned_storage.h", "MultiStorageFor.h"],
  [("empty state on exception", "variant.h"), ("type tag", "any.h")], ["held values", "number of live objects"])
prop("C29", "Ranges and lazy transformations agree with the sequence they denote",
  """Ranges and enumerables built from containers by filtering, transforming, casting, slicing, cycling, zipping, concatenating, flattening, splitting, reversing, differencing and defaulting, composed in any way, yield exactly the elements of the mathematical sequence they denote, forwards and backwards: from any position a cursor can be copied, rewound, moved to its ends, stepped both ways (also back from the end) and, where random access, moved and measured; two cursors over one range are equal exactly at equal positions, so iteration from begin to end visits every element once; questions (count, search, element, sum, extremes, fold) are answered from the elements that remain. Walking never changes the source.""",
  "programs inputs", "every composition of adapters over short sequences and every walk over the result", "tests check a few compositions walked forwards once", ["collection/Range.h", "collection/RangeBase.h", "collection/ToRange.h", "collection/Transformers.h", "collection/EnumerableHelpers.h", "collection/EnumerableWrapper.h", "collection/EnumerableFromStlContainer.h", "collection/StlEnumeratorAdapter.h", "collection/EnumerableBuilder.h", "collection/FuncEnumerator.h"],
  [("adapters over range concept", "collection/Range.h")], ["elements visited"])
prop("C30", "Pure encodings are faithful",
  """Encoding then decoding a value (hexadecimal, UTF-8, ISO 8601 time, decimal numbers, serialised settings, compressed text) yields the value again, and malformed input is refused and never misread.""",
  "inputs", "all values and all malformed inputs", "tests use a few values", ["string/Hex.h", "string/Utf8StringUtils.h", "time/Time.h", "Decimal.h", "serialization/SettingsValue.h", "compression/ppm/PpmModel.h"], [("codecs", "string/Hex.h")], ["return values"])
prop("C31", "Paged buffers and asynchronous streams: stored data comes out as written",
  """A paged buffer stores exactly the bytes of the completed pushes, in order (a push that failed or was cancelled stores a prefix of its data); its one reader is given the bytes from the cursor on, at least a whole chunk and never across a page, and the cursor advances by the whole chunks the consumer accepted:
  not at all if the read was cancelled, the consumer threw or the cursor was moved meanwhile; Pop drops bytes only from the front (moving the cursor only if it lies before the new front), Seek sets the cursor, both refuse more than is stored. A reader waits only while there is no whole chunk after the cursor, and a second concurrent read is refused.
  An asynchronous byte stream applies the writes of its client to the underlying stream so that at every offset values never go back to older ones; when Sync has returned (unless it is configured not to block) everything written before is in the underlying stream and synced there, after destruction or a while everything is, whatever partial writes and reconfigurations happen in between;
  after a failure of the underlying stream nothing more is written and the failure is reported.""",
  "schedules histories fault_sequences", "every interleaving of pushes, reads, pops, seeks, cancellation and failing pages; every sequence of writes, seeks, syncs and reconfigurations against a slow, partial or failing stream", "the paged buffer has no test at all, the asynchronous stream a few sequential ones",
  ["io/PagedBuffer.h", "io/PagedBuffer.cpp", "io/AsyncByteStream.h", "io/AsyncByteStream.cpp"],
  [("cursor and page bookkeeping", "io/PagedBuffer.cpp"), ("queue of operations with merging", "io/AsyncByteStream.cpp")], ["data given to the consumer", "GetStorageSize", "underlying writes"])

NA_DEFAULT = "not claimed yet: specification and conformance driver not finished"
NA = {"C30": "pure functions of one input: a state-transition specification adds nothing over re-implementing the codec, so model-based verification with TLA+ genuinely does not address it (encode/decode fidelity)"}

def main():
    import checks
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for fl in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + fl): print("missing", p["id"], fl)
        for m in p["anchors"]["mechanism"]:
            if not os.path.exists("/repo/" + m["where"]): print("missing", p["id"], m["where"])
    cks = []
    for i in ids:
        if i in checks.CHECKS and not checks.CHECKS[i].get("wip"):
            ck = checks.CHECKS[i]
            cks.append({"property": i, "quick_cmd": "python3 bin/checks.py %s quick" % i, "thorough_cmd": "python3 bin/checks.py %s thorough" % i,
                        "technique": "TLA+ specification checked with TLC; TLC trace validation of histories recorded from the real code under a controlled scheduler" if ck.get("sched", True)
                                     else "TLA+ specification checked with TLC; TLC trace validation of histories recorded from the real code (random operation sequences)",
                        "level": "model_checking",
                        "level_note": ck.get("note", "the specification is checked exhaustively within small constants; the real code is decided on the executions explored (seeded random programs and schedules, sequentially consistent interleavings, virtual time), each recorded history being accepted or rejected by TLC; trusted: the scheduler and the driver's event placement")})
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": cks,
         "not_applicable": [{"property": i, "reason": NA.get(i, NA_DEFAULT)} for i in ids if i not in [c["property"] for c in cks]],
         "notes": "No hooks in /repo: the library is compiled out of tree with compiler instrumentation and link-time wrapping (bin/vbuild.py)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
