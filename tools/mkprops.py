#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
I = "include/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [I+f for f in files],
                  "state": [{"name": n, "meaning": m, "where": I+w} for n, m, w in state],
                  "mechanism": [{"name": n, "where": I+w} for n, w in mech],
                  "observe_at": list(observe), "hook_needed": None}})

EXCL = ["naive_spin_mutex.hpp","ttas_spin_mutex.hpp","alternate_mutex.hpp","fair_mutex.hpp","checked_mutex.hpp"]
SH = ["alternate_shared_mutex.hpp","yamc_rwlock_sched.hpp","fair_shared_mutex.hpp","checked_shared_mutex.hpp"]

prop("C01","Non-recursive mutexes give one thread at a time exclusive ownership",
 "For every non-recursive exclusive mutex of the library (the three spinlocks, the alternate timed mutex, the fair mutex and timed mutex, the checked mutex and timed mutex), a call to lock or to any of the try_lock operations that reports success does so only when no other thread owns the mutex, and the caller then owns it until it calls unlock. unlock by the owner leaves the mutex with no owner.",
 ["schedules","histories"],"every number of threads, every interleaving of lock/try_lock/try_lock_for/try_lock_until/unlock calls, every spurious or timed wake-up, every length of history",
 "The tests run a handful of threads for a short time; exclusion must hold for every interleaving, including the rare ones where a wake-up, a timeout and a new arrival coincide.",
 EXCL,[("compare-exchange on the state word","naive_spin_mutex.hpp"),("state re-checked under the internal lock before it is claimed","alternate_mutex.hpp"),("ticket / wait-queue position compared before entry","fair_mutex.hpp"),("owner re-checked in a loop","checked_mutex.hpp")],
 [("state_","0 free, 1 owned","ttas_spin_mutex.hpp"),("next_/curr_","tickets issued / served","fair_mutex.hpp"),("owner_","owning thread","checked_mutex.hpp")],
 ["return of lock()/try_lock*()","unlock()"])
prop("C02","Recursive mutexes nest per owner and exclude other threads until fully released",
 "For every recursive mutex (alternate, fair and checked; plain and timed) the owning thread can acquire again without blocking, by lock or by any try_lock operation, each acquisition adding one level. The mutex becomes available to other threads exactly when the owner has unlocked as many times as it acquired, never earlier and never later, and no other thread acquires it in between.",
 ["schedules","histories"],"every nesting depth, every mix of lock and try operations, every interleaving with other threads",
 "Tests nest two or three levels in one thread and probe from another thread at a few points; the depth and the interleavings are unbounded.",
 ["alternate_mutex.hpp","fair_mutex.hpp","checked_mutex.hpp"],[("owner comparison and nesting counter","alternate_mutex.hpp"),("owner comparison before queueing","fair_mutex.hpp"),("recursive_mutex_base","checked_mutex.hpp")],
 [("ncount_","levels held","alternate_mutex.hpp"),("owner_","owning thread","alternate_mutex.hpp")],["lock/try_lock*/unlock"])
prop("C03","Shared mutexes never let a writer overlap with a reader or another writer",
 "For every shared mutex (alternate and checked with either readers-writer policy, fair with either fairness policy; plain and timed), exclusive ownership is granted only while no thread holds exclusive or shared ownership, and shared ownership only while no thread holds exclusive ownership. Each unlock_shared gives up exactly the caller's share, so the mutex is free of readers exactly when every reader has released.",
 ["schedules","histories"],"every number of readers and writers, every interleaving, every timeout",
 "The tests check a few scripted orders of two to four threads.",
 SH,[("wait_wlock/wait_rlock admission tests","yamc_rwlock_sched.hpp"),("lock node with share count at the head of the wait queue","fair_shared_mutex.hpp")],
 [("rwcount / nwriter / nreader","writer flag and reader count","yamc_rwlock_sched.hpp"),("locked_.status","mode and number of shares","fair_shared_mutex.hpp")],["lock*/unlock* in both modes"])
prop("C04","Unlock happens-before the next lock; internal bookkeeping is free of data races",
 "Everything a thread did before releasing a lock (exclusive or shared, including the last level of a recursive lock) happens before everything done by a thread whose later acquisition was made possible by that release, on any memory model C++11 allows, whichever acquiring operation succeeded. The library's own bookkeeping is accessed race-free in every operation.",
 ["schedules","histories"],"every execution the C++11 memory model allows",
 "x86 hides missing acquire/release ordering, and a race on the bookkeeping shows only in rare interleavings; the tests observe values only.",
 EXCL+["alternate_shared_mutex.hpp","fair_shared_mutex.hpp","checked_shared_mutex.hpp","yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp"],
 [("acquire compare-exchange / release store","ttas_spin_mutex.hpp"),("memory_order_acquire/release","naive_spin_mutex.hpp"),("all bookkeeping guarded by the internal std::mutex","fair_shared_mutex.hpp")],
 [],["memory orders of the atomic operations; lock held at each access"])
prop("C05","No lost wake-up: nobody stays blocked on a lock that could be granted",
 "In every blocking mutex and shared mutex, a thread inside a lock operation is put to sleep only while the rules of that mutex deny it the lock, and whenever any operation (unlock, a timed attempt giving up, a detected deadlock) makes it grantable to sleeping threads, enough of them are woken that one which can take it does so. An operation leaves the mutex's internal lock free when it returns or throws.",
 ["schedules","histories"],"every set of waiting threads of every kind, every order of releases, timeouts and arrivals",
 "Tests would need the exact schedule in which the missing notification matters, and a missed wake-up shows as a hang that a later event usually hides.",
 ["alternate_mutex.hpp","alternate_shared_mutex.hpp","yamc_rwlock_sched.hpp","fair_mutex.hpp","fair_shared_mutex.hpp","checked_mutex.hpp","checked_shared_mutex.hpp"],
 [("notify_one/notify_all after each release","alternate_mutex.hpp"),("notify on reader count zero","alternate_shared_mutex.hpp"),("timeout path marks following readers and notifies","fair_shared_mutex.hpp")],
 [],["condition_variable notifications versus state changes"])
prop("C06","Try and timed acquisitions tell the truth and leave no trace when they fail",
 "try_lock and try_lock_shared never block, and they and the timed operations return true exactly when the caller has acquired the lock. They return false only if the lock was not available to the caller at that moment (the spinlocks may also fail spuriously), a timed operation only after its own deadline, computed once from the caller's argument, was reported as passed. A failed attempt leaves the mutex as if the attempt had never been made.",
 ["schedules","inputs","histories"],"every deadline, every interleaving of the timeout with a release, every clock",
 "Tests use one generous and one short timeout; the race between timeout and release, and the state left behind by a failed attempt, are not reached.",
 ["alternate_mutex.hpp","alternate_shared_mutex.hpp","fair_mutex.hpp","fair_shared_mutex.hpp","checked_mutex.hpp","checked_shared_mutex.hpp","naive_spin_mutex.hpp","ttas_spin_mutex.hpp"],
 [("re-check of the predicate after timeout","alternate_mutex.hpp"),("after_wait_wlock on timeout","alternate_shared_mutex.hpp"),("node erased from the queue on timeout","fair_mutex.hpp")],[],["return values, state after failure"])
prop("C07","Fair mutexes serve threads in arrival order",
 "In the fair mutex, recursive mutex, timed mutex and recursive timed mutex, a thread acquires the mutex only when no thread that arrived earlier is still waiting for it; try_lock does not overtake waiting threads. A timed waiter that gives up drops out of the line without changing the order of the others.",
 ["schedules","histories"],"every arrival order, every number of waiting threads, every set of timeouts, counters of any value including wrap-around",
 "Fairness tests script three or four threads with sleeps; orders of many threads with timeouts in the middle of the line are not covered.",
 ["fair_mutex.hpp"],[("ticket order next_/curr_","fair_mutex.hpp"),("FIFO wait queue wq_push_back / front test","fair_mutex.hpp")],
 [("queue_","FIFO of waiting threads","fair_mutex.hpp")],["order of lock() returns"])
prop("C08","Fair shared mutexes follow task-fair / phase-fair order",
 "In the fair shared mutexes a writer acquires only when no earlier-arrived thread is still waiting, and a reader that did not have to wait acquires only when no writer is waiting. With task fairness a reader never overtakes a writer that arrived earlier, and releasing the exclusive lock admits exactly the readers ahead of the first waiting writer; with phase fairness releasing the exclusive lock when a reader is next admits every waiting reader at once and keeps the waiting writers in their order. A timed-out writer that separated readers from an active reader group lets them join it.",
 ["schedules","histories"],"every arrival sequence of readers and writers, every timeout, both fairness policies",
 "Tests script a few sequences of up to about six threads; the queue manipulation must be right for queues of any length and content.",
 ["fair_shared_mutex.hpp"],[("impl_unlock: marking and re-ordering of the queue","fair_shared_mutex.hpp"),("impl_try_lockwait timeout path","fair_shared_mutex.hpp"),("wq_shared_lockable","fair_shared_mutex.hpp")],
 [("queue_ / node status","waiting or admitted requests in order","fair_shared_mutex.hpp")],["order of lock()/lock_shared() returns"])
prop("C09","Readers-writer policies admit readers and writers as documented",
 "With reader preference a reader is admitted whenever no writer holds the lock, waiting writers notwithstanding. With writer preference a reader is admitted only when no writer holds the lock or is waiting for it, and is admitted again as soon as that is so, including when the waiting writer gave up by timeout or by an error. With both, a writer is admitted whenever nobody holds the lock.",
 ["schedules","histories"],"every number of waiting and holding readers and writers, both policies, alternate and checked shared mutexes",
 "Tests check one scripted schedule per policy; abandoned waits of writers are not tested.",
 ["yamc_rwlock_sched.hpp","alternate_shared_mutex.hpp","checked_shared_mutex.hpp"],[("ReaderPrefer / WriterPrefer state transitions","yamc_rwlock_sched.hpp"),("before/after_wait_wlock bracketing","alternate_shared_mutex.hpp")],
 [("nwriter","writer flag and number of waiting writers","yamc_rwlock_sched.hpp")],["return of lock_shared()/try_lock_shared()"])
prop("C10","Checked mutexes report every misuse and only misuse, without side effects",
 "A checked mutex raises its error (system_error, or abort when so configured) whenever a thread unlocks a lock it does not hold in that mode, re-locks a non-recursive mutex it already holds in any mode by any operation, or destroys a mutex that some thread still holds; the error code is operation_not_permitted for unlock and resource_deadlock_would_occur otherwise. Correct use raises none of these errors, and the operation that raised one leaves ownership exactly as it was.",
 ["histories","schedules"],"every history of correct and incorrect calls by any number of threads, all checked types, both policies, throwing and aborting configuration",
 "Tests make one wrong call per operation from a fresh mutex; errors after long mixed histories and the state left behind are not checked.",
 ["checked_mutex.hpp","checked_shared_mutex.hpp"],[("owner checks at the start of each operation","checked_mutex.hpp"),("is_shared_owner / s_owner_ bookkeeping","checked_shared_mutex.hpp"),("dtor_precondition","checked_mutex.hpp")],
 [("owner_, e_owner_, s_owner_","current owners","checked_shared_mutex.hpp")],["exceptions of lock/try_lock*/unlock*/destructor"])
prop("C11","Deadlock detection: exactly the waits that close a cycle are refused",
 "A blocking lock or lock_shared on a checked mutex is refused exactly when, among checked mutexes, some owner of that mutex is itself (through any chain of owners and threads waiting) waiting for a lock held by the caller; it terminates for every such state. A refused or finished wait leaves nothing behind: the detector's picture of owners and waiters equals the threads that currently hold and currently wait for each live mutex.",
 ["schedules","histories"],"every number of threads and mutexes, every shape of wait-for graph, every history of refused waits, destroyed and re-created mutexes",
 "Tests build a few cycles of two to four threads once each and stop at the first refusal; what the detector does after a refusal, or on large graphs, is not tested.",
 ["yamc_lock_validator.hpp","checked_mutex.hpp","checked_shared_mutex.hpp"],[("find_closepath","yamc_lock_validator.hpp"),("enqueue/dequeue/locked/unlocked bookkeeping","yamc_lock_validator.hpp"),("calls around each wait","checked_mutex.hpp")],
 [("global mutex map","owners and waiters per mutex","yamc_lock_validator.hpp")],["exceptions of lock()/lock_shared()"])
prop("C12","Counting semaphore conserves permits and never oversleeps",
 "For the generic counting semaphore the number of successful acquisitions never exceeds the initial count plus the permits released, each successful acquire of any kind takes exactly one permit and each release adds exactly its argument. try_acquire fails only when no permit is available, timed acquires only after their deadline with no permit available; a thread sleeps in acquire only while no permit is available, and a release wakes enough sleepers to use the permits it added.",
 ["schedules","histories","inputs"],"every initial count and update value within the stated limits, every interleaving of releasing and acquiring threads and timeouts",
 "Tests use fixed small counts and one schedule.",
 ["yamc_semaphore.hpp"],[("counter guarded by mutex, waiters notified by release","yamc_semaphore.hpp")],[("counter_","available permits","yamc_semaphore.hpp")],["acquire/try_acquire*/release"])
prop("C13","Latch opens exactly when its count reaches zero, and then for everyone",
 "A latch counts down by exactly the amounts given to count_down and arrive_and_wait; wait and arrive_and_wait return, and try_wait is true, exactly when the count has reached zero, and from then on for ever. When it reaches zero all threads blocked on it are released, whichever operation brought it there.",
 ["schedules","histories","inputs"],"every expected count, every split into updates, every interleaving of waiting and arriving threads",
 "Tests use small counts and scripted orders.",
 ["yamc_latch.hpp"],[("counter guarded by mutex, notify_all at zero","yamc_latch.hpp")],[("counter_","remaining count","yamc_latch.hpp")],["wait/try_wait/arrive_and_wait/count_down"])
prop("C14","Barrier phases complete with exactly the expected arrivals, completion once each",
 "A barrier's phase completes exactly when the arrivals of that phase reach the expected count; the completion function then runs exactly once, before any thread waiting for that phase is released and before the next phase begins, and all waiters of the phase are released. Every arrive_and_drop lowers the expected count of all later phases by one, whatever its position among the arrivals of its phase, and a wait with a token of the current or the immediately preceding phase ends as soon as that phase is complete, after any number of phases.",
 ["schedules","histories","inputs"],"every expected count, every order of arrive/arrive(n)/arrive_and_wait/arrive_and_drop/wait, any number of phases including wrap-around of the phase counter",
 "Tests run up to three phases with one scripted arrival order, and the dropping thread always arrives last.",
 ["yamc_barrier.hpp"],[("phase_completion_step","yamc_barrier.hpp"),("phase token comparison in wait","yamc_barrier.hpp")],[("init_count_, counter_, phase_","expected, outstanding, phase number","yamc_barrier.hpp")],["return of wait/arrive_and_wait, completion calls"])
prop("C15","shared_lock holds at most one share and releases exactly what it holds",
 "A shared_lock object owns at any time either nothing or exactly one shared lock of the mutex it refers to, and owns_lock(), operator bool and mutex() report it truthfully. Every share acquired through it, by any constructor or operation, is released exactly once: by unlock, destruction or being assigned over, or handed on by move, swap or release; misuse throws the standard's error codes and changes nothing, and so does a failure of the underlying mutex.",
 ["histories","inputs"],"every sequence of operations on any number of guard objects, including self-moves, failing try operations and a mutex whose operations throw",
 "Tests call each operation once on a mock mutex that does not count shares.",
 ["yamc_shared_lock.hpp"],[("pm_/owns_ updates of each operation","yamc_shared_lock.hpp"),("locking_precondition","yamc_shared_lock.hpp")],[("pm_, owns_","associated mutex, ownership","yamc_shared_lock.hpp")],["calls made on the mutex"])
prop("C16","scoped_lock acquires all its mutexes and releases each exactly once",
 "A scoped_lock constructed from mutexes owns all of them once construction finishes and none if construction throws, acquires them without ever blocking on one while holding another outside the standard deadlock-avoiding algorithm, and on destruction unlocks each exactly once. With adopt_lock it acquires none and still unlocks each exactly once.",
 ["histories","inputs","schedules"],"every number and kind of mutexes, every failure of a mutex operation",
 "Tests use one to three mock mutexes and check only that calls were made.",
 ["yamc_scoped_lock.hpp"],[("std::lock in the constructor, recursive invoke_unlock in the destructor","yamc_scoped_lock.hpp")],[],["calls made on the mutexes"])
prop("C17","POSIX wrappers perform the operation they are named for, with the right deadline",
 "Each operation of the POSIX mutex, recursive mutex, rwlock and spinlock wrappers has exactly the effect of the corresponding native operation on the object's own handle: lock and try_lock acquire exclusively, the shared operations shared, unlock releases; try and timed operations return true exactly when the native lock was acquired. Timed operations pass an absolute deadline equal to the requested time to the nanosecond, well-formed for every time point from the epoch on; objects are initialised with the right kind and destroyed once.",
 ["inputs","histories"],"every deadline, every result code of the native call",
 "Tests use one deadline and never see a failing native call.",
 ["posix_native_mutex.hpp"],[("forwarding to pthread_*","posix_native_mutex.hpp"),("conversion of time_point to timespec","posix_native_mutex.hpp")],[],["pthread calls and their arguments"])
prop("C18","POSIX semaphore wrapper conserves permits, deadlines and errors",
 "Every successful acquire, try_acquire or timed acquire of the POSIX semaphore takes exactly one permit and release(n) adds exactly n, for every n; an interrupted system call is neither reported as an error nor as a time-out nor taken for an acquisition. A timed acquire returns false only if the native wait reported a time-out for the requested deadline, which is passed to the nanosecond and well-formed for every time point; other native failures surface as system_error with the native code.",
 ["inputs","histories","fault_sequences"],"every count, every deadline on every clock, every result of the native calls including interruption by signals",
 "Tests never interrupt a wait and use one deadline in the near future.",
 ["posix_semaphore.hpp"],[("errno handling around sem_wait/sem_timedwait","posix_semaphore.hpp"),("release loop over sem_post","posix_semaphore.hpp"),("time_point to timespec","posix_semaphore.hpp")],[],["sem_* calls and their arguments"])
prop("C19","Back-off policies terminate each step and keep yielding at shrinking intervals, and spinlocks use them",
 "One step of any back-off policy returns without blocking and without arithmetic wrap-around. The exponential policy, for every initial count, yields the processor again after a finite number of further steps that never exceeds the interval before it and shrinks to one, and its counter never exceeds its current interval; the yield policy yields at every step; the busy policy changes nothing. While lock() of a spinlock keeps finding the lock owned by another thread it takes steps of its policy, at the latest after every two such looks in a row, and all steps of one call work on the same policy state, so that the interval really shrinks.",
 ["inputs","histories","schedules"],"every initial count, any number of steps, every interleaving with the threads that own the lock",
 "The tests run spinlocks only with the default count and cannot see the yields.",
 ["yamc_backoff_spin.hpp","naive_spin_mutex.hpp","ttas_spin_mutex.hpp"],[("exponential::wait","yamc_backoff_spin.hpp"),("basic_mutex::lock","ttas_spin_mutex.hpp"),("basic_mutex::lock","naive_spin_mutex.hpp")],[("initcount, counter","current interval, steps left","yamc_backoff_spin.hpp")],["calls of std::this_thread::yield"])
prop("C20","Wait queues never refer to a finished call and never lose or duplicate a waiter",
 "In the fair timed mutexes and the fair shared mutexes, the internal wait queue at every moment consists of exactly one entry per thread currently waiting inside a call plus one for the current holders, doubly linked consistently. When a call returns for whatever reason, acquisition or timeout, no reference to its storage remains reachable, so no later operation reads or writes memory of a finished call.",
 ["schedules","histories"],"every sequence of arrivals, admissions, time-outs and releases, queues of any length",
 "A dangling queue entry corrupts another thread's stack silently; the tests neither inspect the queue nor run enough waiters with time-outs.",
 ["fair_mutex.hpp","fair_shared_mutex.hpp"],[("wq_push_back/wq_erase/wq_replace_front","fair_mutex.hpp"),("wq_push_front/wq_erase/wq_pop_locknode","fair_shared_mutex.hpp")],
 [("queue_, locked_, request nodes on waiters' stacks","doubly linked list","fair_shared_mutex.hpp")],["pointer reads and writes of queue nodes"])

prop("C21","Windows wrappers perform the operation they are named for and honour time-outs",
 "Each operation of the Windows mutex, critical-section, slim reader/writer lock and semaphore wrappers has exactly the effect of the corresponding native operation on the object's own native object: one acquisition in the named mode, one release, n permits for release(n) including n = 0; try operations never block. A timed operation returns true exactly when it acquired; it returns false not before the requested time has passed, rounds up by less than a millisecond, does not block at all when that time is already over, and never waits for ever (for time-outs below 2^32-2 ms). Failures of native calls surface as system_error (invalid_argument for an invalid handle, resource_unavailable_try_again otherwise) and change nothing; the native object is created once, unowned or with the requested permits, and closed once; native_handle is the native object's handle.",
 ["inputs","fault_sequences","histories"],"every time-out and deadline on every clock, every count, every result of the native calls including failed creation",
 "The tests of these headers run on Windows only, with one time-out in the future and no failing native call.",
 ["win_native_mutex.hpp","win_semaphore.hpp"],[("forwarding to Win32 calls","win_native_mutex.hpp"),("do_try_lockwait: time-out to milliseconds","win_native_mutex.hpp"),("do_try_acquirewait, release","win_semaphore.hpp")],[("hmtx_, hsem_","native object owned","win_semaphore.hpp")],["Win32 calls and their arguments"])
prop("C22","Apple and GCD wrappers perform the operation they are named for and honour deadlines",
 "Each operation of the os_unfair_lock wrapper and of the Grand Central Dispatch semaphore wrapper has exactly the effect of the corresponding native operation on the object's own native object: one acquisition, one release, one permit taken by a successful acquisition and exactly n signals for release(n); try operations never block and never throw. Timed acquisitions wait until the requested time to the nanosecond, relative or on the wall clock for every clock, and return false only when the native wait timed out. Failures surface as system_error (invalid_argument for an invalid semaphore, resource_unavailable_try_again otherwise) and take no permit; the native semaphore is created once with the requested permits and freed once.",
 ["inputs","fault_sequences","histories"],"every time-out and deadline on every clock, every count, every result of the native calls including failed creation",
 "The tests of these headers run on macOS only, with one time-out and no failing native call.",
 ["apple_native_mutex.hpp","gcd_semaphore.hpp"],[("forwarding to os_unfair_lock_*","apple_native_mutex.hpp"),("release loop over dispatch_semaphore_signal","gcd_semaphore.hpp"),("from_unix_epoch, dispatch_time, dispatch_walltime","gcd_semaphore.hpp")],[("dsema_","native object owned","gcd_semaphore.hpp")],["os_unfair_lock_* and dispatch_* calls and their arguments"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
