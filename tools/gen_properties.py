#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to regenerate the file)."""
import json, os
S = "include/oqpi/scheduling/"
Y = "include/oqpi/synchronization/"
T = "include/oqpi/threading/"
A = "include/oqpi/parallel_algorithms/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Every submitted task runs exactly once",
  "Every task submitted to a started scheduler, on its own or as a member of a group, has its function executed exactly once. "
  "This holds no matter how often and from how many threads the same task is submitted, whether a worker or an actively waiting caller ends up running it, and whether it was submitted before or after the scheduler was started.",
  ["schedules", "programs", "configurations"],
  "All interleavings of clients, workers and active waiters; all task trees; all worker configurations covering the priorities used.",
  "The suite only checks that nothing throws; it never counts executions and samples a handful of OS schedules.",
  [S+"scheduler.hpp", S+"task_base.hpp", S+"task.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", S+"worker.hpp"],
  [("atomic grab token taken before executing", S+"task_base.hpp tryGrab"), ("duplicate queue entries discarded on pop", S+"scheduler.hpp waitForNextTask")],
  ["start of each task function"], [("grabbed_", "token owned by whoever executes the task", S+"task_base.hpp")])

p("C02", "Waiting returns only after completion, with results visible",
  "wait(), activeWait() and waitForResult() on a task or group return only after the function of that task, or of every task of that group, has finished, and everything those functions wrote is visible to the caller. "
  "A task or group that reports itself done has likewise finished, and getResult() then yields the value its function returned.",
  ["schedules", "programs", "fault_sequences"],
  "All interleavings, task trees and waiter counts, including several waiters on one task, and waits interrupted by signal handlers.",
  "Tests wait on a few tasks but check neither that the work is finished nor the values on return, and never interrupt a wait.",
  [S+"task.hpp", S+"task_group.hpp", S+"task_notifier.hpp", S+"task_result.hpp", Y+"posix/posix_event.hpp"],
  [("done flag set after the function ran", S+"task.hpp invoke"), ("manual-reset completion event", S+"task_notifier.hpp"), ("group completes on last child", S+"task_group.hpp notifyGroupDone")],
  ["return of wait/activeWait/waitForResult", "isDone()", "getResult()"])

p("C03", "No lost wake-up: submitted work always completes",
  "As long as the scheduler runs and has a worker for every priority in use, every submitted task is eventually executed and every thread waiting on a task or group is eventually released; no interleaving leaves all threads asleep while work is pending. "
  "This includes nested parallelism in which task functions submit work and actively wait for it, even on a single worker.",
  ["schedules", "programs", "configurations"],
  "All interleavings of submission, worker sleep/wake-up, completion and waiting; 1..n workers; nested active waits.",
  "A lost wake-up needs one particular interleaving of queue push, semaphore post and worker going to sleep; a test run samples a few of them.",
  [S+"scheduler.hpp", S+"worker.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", A+"parallel_for.hpp"],
  [("push before notify; drain tokens before re-checking queues", S+"scheduler.hpp add/waitForNextTask"), ("active waiter runs ungrabbed children itself", S+"parallel_group.hpp activeWait"), ("completion schedules the successor", S+"sequence_group.hpp oneTaskDone")],
  ["deadlock: no thread can make a step while a task is pending or a waiter blocked"])

p("C04", "Sequence groups run their children one at a time, in order",
  "The children of a sequence group are executed in the order in which they were added, and nothing belonging to a child starts before everything belonging to the previous child, nested groups included, has finished. "
  "The effects of a child are visible to the next one, and the sequence is complete exactly when its last child is.",
  ["schedules", "programs", "configurations"],
  "All interleavings; children are unit tasks, parallel groups or sequences nested to any depth; any worker count.",
  "The sequence tests execute commuting functions and check neither order nor overlap.",
  [S+"sequence_group.hpp", S+"task_base.hpp", S+"task_group.hpp"],
  [("next child scheduled only from completion of the previous one", S+"sequence_group.hpp oneTaskDone"), ("child notifies its parent last", S+"task_base.hpp notifyParent")],
  ["start and end of each task function", "isDone()/wait() of the sequence"])

p("C05", "Parallel groups complete exactly when all children are complete",
  "A parallel group becomes done, releases its waiters and lets its parent group continue only once every one of its children (nested groups included) has finished, and it does so as soon as the last of them has. "
  "This join happens exactly once per group, whichever child finishes last and whoever executed it.",
  ["schedules", "programs", "configurations"],
  "All finishing orders and interleavings of children, workers and an active waiter; arbitrary nesting in sequences and parallel groups; with or without a limit on simultaneous tasks.",
  "Tests wait for forks of equal tasks and check nothing about their children at the time of the join.",
  [S+"parallel_group.hpp", S+"task_group.hpp", S+"task_base.hpp"],
  [("count of unfinished children; last decrement completes the group", S+"parallel_group.hpp oneTaskDone"), ("notify self, then parent", S+"task_group.hpp notifyGroupDone")],
  ["isDone()/wait() of the group", "start of the parent's next child", "group completion hook"],
  [("activeTasksCount_", "children not finished yet", S+"parallel_group.hpp")])

p("C06", "Parallel groups respect their simultaneous-task limit",
  "When a parallel group is created with a limit M > 0 on simultaneous tasks and is run by the scheduler's workers, at no time are more than M of its children executing. "
  "The limit never prevents the group from completing, and a limit of 0 means unlimited.",
  ["schedules", "inputs", "configurations"],
  "All interleavings, limits 1..n, child counts below, at and above the limit, worker counts above the limit; children may be nested groups.",
  "No test passes a limit at all.",
  [S+"parallel_group.hpp"],
  [("initial batch of M tasks, one more per completion", S+"parallel_group.hpp executeImpl/oneTaskDone")],
  ["number of children between start and end at any time"],
  [("currentTaskIndex_", "next child to schedule", S+"parallel_group.hpp")])

p("C07", "Ready tasks are dispatched by priority, then in submission order",
  "When a worker looks for work it takes a task of the highest priority it is allowed to work on among those pending. "
  "Among pending tasks of equal priority it takes the one submitted first.",
  ["inputs", "histories", "configurations"],
  "All multisets and orders of submissions over the five priorities, made before start, while the workers are busy, or from inside running tasks; all worker priority masks.",
  "Tests submit everything at normal priority and never look at the order of execution.",
  [S+"scheduler.hpp", "include/oqpi/concurrent_queue.hpp", S+"worker_base.hpp"],
  [("one FIFO queue per priority scanned from high to low", S+"scheduler.hpp waitForNextTask"), ("priority mask", S+"worker_base.hpp can_work_on_priority")],
  ["order in which task functions start on a worker"])

p("C08", "Tasks run only on workers eligible for their effective priority",
  "A task taken from the scheduler by a worker is only ever taken by a worker whose configured priorities include the task's effective priority. "
  "The effective priority is the task's own, or, when it is set to inherit, that of the nearest enclosing group that does not itself inherit.",
  ["schedules", "inputs", "configurations"],
  "All worker priority masks, task priorities and inheritance chains through nested groups; all interleavings including an active waiter finishing the children meanwhile.",
  "Tests use one worker configuration that accepts every priority and no task inherits.",
  [S+"scheduler.hpp", S+"worker_base.hpp", S+"parallel_group.hpp"],
  [("priority resolution through parents", S+"scheduler.hpp resolveTaskPriority"), ("worker_priority bitfield", S+"worker_base.hpp")],
  ["worker pre-execution hook: the worker and the task handed to it"])

p("C09", "Stopping and restarting the scheduler is clean",
  "Stopping the scheduler at any moment returns once no worker is executing anything; afterwards no task function runs on a worker until the scheduler is started again. "
  "Stopping never crashes or hangs, and leaves every task either finished or untouched: one that was not executed is still pending, is executed after a restart, and can meanwhile be executed by a caller that actively waits on it.",
  ["schedules", "histories", "configurations"],
  "stop() at every point of the workers' cycle (going idle, just woken, just assigned a task, running), with tasks pending or being submitted; stop/start cycles; destruction of a running scheduler.",
  "The only stop in the suite happens once, at the end, when all workers are asleep.",
  [S+"scheduler.hpp", S+"worker.hpp"],
  [("running flags of scheduler and workers", S+"scheduler.hpp stop"), ("worker loop exit", S+"worker.hpp run")],
  ["task functions running after stop() returned", "assertions/crashes in workers", "state of each task after stop()"],
  [("running_", "scheduler and per-worker run flags", S+"scheduler.hpp, "+S+"worker.hpp")])

p("C10", "parallel_for visits every index exactly once",
  "parallel_for and parallel_for_each call the function exactly once for each index of [first, last) (or each element of the container), and for no other, whatever the partitioner, range, number of batches and workers, and return only when all the calls have returned. "
  "A batch index, when asked for, lies in [0, number of batches) and two calls with the same batch index never overlap; an empty or reversed range calls nothing.",
  ["inputs", "schedules", "configurations"],
  "All ranges (negative starts, offsets, empty, reversed), batch counts, grab sizes, priorities and worker counts; nested parallel_for inside task functions; all interleavings of caller and workers.",
  "Tests run one range starting at 0 and do not look at which indices were visited.",
  [A+"parallel_for.hpp", A+"simple_partitioner.hpp", A+"atomic_partitioner.hpp", "include/oqpi/scheduling_helpers.hpp"],
  [("batches pull ranges from a shared partitioner copy", A+"parallel_for.hpp"), ("caller actively waits on the group", A+"parallel_for.hpp parallel_for")],
  ["arguments of each call of the function", "return of parallel_for"])

p("C11", "Partitioners hand out an exact, disjoint, balanced cover",
  "The ranges a partitioner hands out until it says there are no more are non-empty, pairwise disjoint and together cover exactly [first, last), however many threads draw from it concurrently, and once exhausted it stays so. "
  "A simple partitioner hands out min(elements, batches) ranges whose sizes differ by at most one; an atomic partitioner hands out ranges of the requested size in increasing order, only the last being possibly smaller; a copy continues independently from the state copied.",
  ["inputs", "schedules"],
  "All int32 ranges whose length is representable, all positive batch counts and grab sizes, any number of concurrent drawers, all interleavings.",
  "Tests exercise two partitioners starting at 0 and do not check coverage.",
  [A+"base_partitioner.hpp", A+"simple_partitioner.hpp", A+"atomic_partitioner.hpp"],
  [("batch arithmetic with remainder", A+"simple_partitioner.hpp"), ("compare-exchange on the shared index", A+"atomic_partitioner.hpp")],
  ["sequence of ranges returned by getNextValidRange"])

p("C12", "Task arguments and results are passed faithfully",
  "A task calls its function with the values the arguments had when the task was created, by-value and move-only arguments and callables included, regardless of what happens to the originals afterwards. "
  "The result obtained from the task is exactly what the function returned, however many times and from however many threads it is read.",
  ["inputs", "programs", "schedules"],
  "Generated argument lists (numbers, strings, containers, move-only objects), callables (lambdas, function objects, functions, member functions) and result types, including large and move-assigned ones; result read by several threads.",
  "One test prints a single uint64 result without checking it.",
  [S+"task.hpp", S+"task_result.hpp", "include/oqpi/scheduling_helpers.hpp"],
  [("arguments stored by value, applied once", S+"task.hpp make_task"), ("stored result", S+"task_result.hpp")],
  ["values seen by the function", "getResult/waitForResult"])

p("C13", "Context hooks bracket execution exactly once, in order",
  "For each executed task the pre-execution hook of its contexts runs once before the function and the post-execution hook once after it and before waiters are released; for each group run by the scheduler the pre hook runs before any of its children starts and the post hook after all of them finished, once each. "
  "Each addition to a group is reported once to the group's and to the child's contexts; a worker reports start first, stop last, alternates idle and active, and brackets each task it executes; several contexts are called in the order listed.",
  ["schedules", "programs", "configurations"],
  "All task trees, worker counts and interleavings, single and multiple contexts, tasks run by workers or by active waiters.",
  "The timer contexts of the tests only print durations.",
  [S+"context_container.hpp", S+"task.hpp", S+"task_group.hpp", S+"worker.hpp", S+"task_context.hpp", S+"group_context.hpp", S+"worker_context.hpp"],
  [("calls around the function", S+"task.hpp invoke"), ("calls around the group", S+"task_group.hpp execute/notifyGroupDone"), ("worker loop", S+"worker.hpp run")],
  ["user-supplied contexts recording their calls"])

p("C14", "Finished work is released, and never used after release",
  "Once a task or group has completed (or was never submitted to anything) and the last handle to it is dropped, it is destroyed exactly once together with its callable, arguments, result and children; destroying a scheduler releases everything it still holds. "
  "No interleaving of completion, waiting and handle dropping touches a destroyed task, group, partitioner or synchronization object.",
  ["schedules", "programs", "histories"],
  "All task trees, waiters, interleavings and points at which handles are copied or dropped, fire-and-forget tasks, stop with pending tasks, destruction of the scheduler.",
  "The tests run without leak or use-after-free detection, and drop handles only after waiting.",
  [S+"task_base.hpp", S+"task_handle.hpp", S+"task_group.hpp", S+"parallel_group.hpp", S+"worker.hpp", T+"interface_thread.hpp", Y+"posix/posix_semaphore_wrapper.hpp"],
  [("shared ownership through handles", S+"task_handle.hpp"), ("child to parent link cut on completion", S+"task_base.hpp notifyParent"), ("worker drops its handle after execution", S+"worker.hpp run")],
  ["constructor/destructor counts of captured objects", "heap accesses and live heap blocks", "live semaphores"])

p("C15", "The library is free of data races and orders what users rely on",
  "Using the scheduler, groups, parallel algorithms and synchronization objects as documented never has two threads access the same memory without synchronization inside the library. "
  "What a thread did before submitting a task happens before the task; what a task did happens before its successor in a sequence, before anything that follows a join or a successful wait on it; a successful wait or lock happens after the notify or unlock that enabled it.",
  ["schedules", "programs"],
  "All interleavings and memory-model-permitted reorderings of generated client programs that share plain memory only along those edges.",
  "Races show on x86 hardware only by luck, and the suite runs without any race detector.",
  [S+"scheduler.hpp", S+"task_base.hpp", S+"task.hpp", S+"parallel_group.hpp", S+"worker.hpp", "include/oqpi/concurrent_queue.hpp", Y+"posix/posix_semaphore_wrapper.hpp"],
  [("sequentially consistent atomics", S+"task_base.hpp"), ("mutex-protected queues", "include/oqpi/concurrent_queue.hpp"), ("semaphore post/wait", Y+"posix/posix_semaphore_wrapper.hpp")],
  ["every instrumented memory access, against the happens-before order of the execution"])

p("C16", "Scheduler idleness is reported truthfully",
  "When the scheduler reports being idle, every task submitted before that call, directly or by other submitted tasks, has finished executing or was discarded because somebody else executes it. "
  "When nothing is pending or running, it eventually reports idle, and waiting for idleness returns only when it is idle or the given maximum time has elapsed.",
  ["schedules", "histories", "configurations"],
  "All interleavings of the query with submission, a worker taking a task, executing it, and submitting further tasks; sequences and forks in flight.",
  "No test calls either function (on POSIX the waiting one could not even be instantiated).",
  [S+"scheduler.hpp", S+"worker_base.hpp", "include/oqpi/concurrent_queue.hpp"],
  [("emptiness of queues and availability of workers", S+"scheduler.hpp isIdle")],
  ["isIdle()", "return of waitUntilIdle()"])

p("C17", "The concurrent queue is a linearizable FIFO",
  "Every element pushed onto the concurrent queue is popped at most once, none is lost, invented or altered, and pops return elements in the order of their pushes. "
  "A pop fails only if the queue is empty at some moment during the call, and emptiness is reported truthfully in the same sense.",
  ["schedules", "histories", "inputs"],
  "All concurrent histories of pushes (by copy and by move), pops and emptiness queries by several threads.",
  "The queue has no test of its own.",
  ["include/oqpi/concurrent_queue.hpp"],
  [("one mutex around a std::queue", "include/oqpi/concurrent_queue.hpp")],
  ["return values of tryPop/empty against a sequential queue"])

p("C18", "Semaphores count exactly",
  "A semaphore created with an initial count hands out exactly as many successful waits as its initial count plus the notifications made so far: waits succeed while the count is positive and block (or fail, for tries and timeouts) when it is zero. "
  "Each notification releases one pending or future wait, and notifying everyone adds the maximum count.",
  ["schedules", "histories", "inputs"],
  "All histories of notify(n), notifyOne, notifyAll, tryWait, wait, waitFor and waitUntil over local and named semaphores, through one or several handles and threads, within the maximum count.",
  "The tests follow one history with constants 2 and 3 on a single thread, and never call wait, waitFor or waitUntil.",
  [Y+"interface/interface_semaphore.hpp", Y+"posix/posix_semaphore.hpp", Y+"posix/posix_semaphore_wrapper.hpp"],
  [("sem_post/sem_wait family", Y+"posix/posix_semaphore_wrapper.hpp")],
  ["return values of waits against a counter model"])

p("C19", "A mutex has at most one owner",
  "Between a successful lock and the matching unlock no other lock attempt on the same mutex succeeds, through any handle to it and from any thread, and what one owner did is visible to the next. "
  "A mutex created locked must be unlocked first, one created unlocked is free; opening an existing mutex leaves its state alone; unlocking a free mutex changes nothing; a released mutex is eventually acquired by a waiting thread.",
  ["schedules", "histories", "configurations"],
  "All histories of lock, tryLock, timed locks, STL-style aliases and unlock, on one or more handles to named mutexes, all interleavings of competing threads.",
  "The test follows one single-threaded hand-over, with a timeout of 1 microsecond.",
  [Y+"interface/interface_mutex.hpp", Y+"posix/posix_mutex.hpp", Y+"posix/posix_semaphore_wrapper.hpp"],
  [("binary semaphore; unlock refuses when already free", Y+"posix/posix_mutex.hpp")],
  ["critical-section overlap", "return values of lock attempts"])

p("C20", "An auto-reset event releases one wait per signal",
  "A successful wait on an auto-reset event consumes the signal, so the event is unsignalled again; notifying an event that is already signalled has no further effect. "
  "A notification is never lost: it either releases a waiting thread or lets the next wait through at once.",
  ["schedules", "histories"],
  "All histories of notify, wait, waitFor and waitUntil over local and named events, repeated notifications, several waiters; all interleavings of waiters with a notifier.",
  "The tests notify once and wait twice.",
  [Y+"interface/interface_event.hpp", Y+"posix/posix_event.hpp"],
  [("semaphore kept at 0 or 1", Y+"posix/posix_event.hpp")],
  ["return values of waits against a one-bit model"])

p("C21", "A manual-reset event stays open until reset",
  "Once notified, a manual-reset event releases all threads waiting on it and lets every later wait through until it is reset. "
  "After a reset with no wait in progress it is unsignalled, however many notifications and waits preceded it, and waits block until the next notification.",
  ["schedules", "histories"],
  "All histories of notify, reset, wait, waitFor, waitUntil over local and named events and handles; any number of concurrent waiters; several concurrent notifiers; concurrent resets.",
  "The tests follow one history on one thread with a single waiter.",
  [Y+"interface/interface_event.hpp", Y+"posix/posix_event.hpp", S+"task_notifier.hpp"],
  [("each waiter re-posts the semaphore", Y+"posix/posix_event.hpp wait"), ("reset drains it", Y+"posix/posix_event.hpp reset")],
  ["return values of waits against a one-bit model", "waiters left blocked"])

p("C22", "Timed waits honour their timeout",
  "A timed wait or lock (relative or absolute, any duration unit, zero, negative and already past included) succeeds whenever the object is available at the time of the call or becomes so before the timeout, and otherwise fails, without changing the object, no earlier than the requested time has elapsed. "
  "This holds at every phase of the clock.",
  ["inputs", "histories", "schedules"],
  "All durations from nanoseconds to hours in integer and floating units, all sub-second phases of the clock at the call, objects available before, during or never; semaphores, mutexes, both kinds of events; steady and system clocks.",
  "Tests use two durations and pass or fail depending on the phase of the clock at the call.",
  [Y+"interface/interface_event.hpp", Y+"interface/interface_mutex.hpp", Y+"interface/interface_semaphore.hpp", Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_semaphore.hpp"],
  [("conversion to an absolute timespec", Y+"posix/posix_semaphore_wrapper.hpp waitFor")],
  ["result of the timed call and the clock around it"])

p("C23", "Named objects follow their creation option and share state",
  "Creating with create_if_nonexistent yields a valid object exactly if the name does not exist, open_existing exactly if it does and never brings the name into existence, and open_or_create always; all valid objects opened under a name share one state with its creator. "
  "The initial state is set by the creation only; a name exists from its creation until its creator is destroyed, whatever happens to the other objects opened under it, and can be created afresh afterwards.",
  ["histories", "schedules", "inputs"],
  "All histories of creating, opening, operating on, moving and destroying named semaphores, mutexes and events over several names and handles; concurrent creators and openers.",
  "Tests follow one such history per type and never destroy an opener before its creator.",
  [Y+"posix/posix_semaphore_wrapper.hpp", Y+"sync_common.hpp", Y+"interface/interface_semaphore.hpp", Y+"interface/interface_mutex.hpp", Y+"interface/interface_event.hpp"],
  [("O_CREAT|O_EXCL, open, unlink on release", Y+"posix/posix_semaphore_wrapper.hpp initGlobalSemaphore/release")],
  ["isValid()", "return values of operations across handles", "existence of the name"])

p("C24", "Synchronization handles transfer ownership cleanly on move",
  "Moving a semaphore, mutex or event, by construction or by assignment over an empty or an occupied target, leaves the source invalid and makes the target behave exactly as the source did, with the same state, name and maximum count. "
  "What an occupied target held before is released, and every underlying object is released exactly once.",
  ["histories", "inputs"],
  "All histories of construction, move construction, move assignment (self-assignment included), use and destruction over a pool of local and named objects of each kind.",
  "Tests only assign over empty targets and check validity only.",
  [Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_semaphore.hpp", Y+"posix/posix_mutex.hpp", Y+"posix/posix_event.hpp", Y+"sync_common.hpp"],
  [("move operations", Y+"posix/posix_semaphore_wrapper.hpp")],
  ["isValid(), getName(), behaviour of both sides, open and close of the underlying semaphores"])

p("C25", "Interrupted waits do not end early",
  "A signal handler running in a thread that is blocked in a wait, timed wait or lock never makes the call return before the object was acquired or the timeout elapsed. "
  "In particular waiting on a task never returns before the task is done because of a signal, and workers keep working.",
  ["fault_sequences", "schedules"],
  "Interruptions (EINTR) injected at any blocking call, any number of times, during all kinds of waits of synchronization objects, tasks and workers.",
  "No test delivers a signal.",
  [Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_event.hpp", S+"task_notifier.hpp"],
  [("retry of interrupted waits", Y+"posix/posix_semaphore_wrapper.hpp wait/waitFor")],
  ["return of the wait against the state of the object"])

p("C26", "A thread runs its callable once, with its arguments, and join waits",
  "Constructing a thread from a callable and arguments runs the callable exactly once on a new thread with the values (copied or moved) the arguments had, and destroys them exactly once. "
  "join() returns only after the callable has returned, with its effects visible; a thread is joinable from creation until joined, detached, terminated or moved from, and moving transfers that. terminate() ends a thread at the latest where it next blocks, destroying what it holds, and gives back its resources.",
  ["inputs", "schedules", "histories"],
  "Generated callables (lambda, functor, function, member function, move-only), argument lists, and histories of move, join, detach; all interleavings of parent and child.",
  "One test starts one thread without arguments and does not check that it ran.",
  [T+"interface_thread.hpp", T+"posix_thread.hpp"],
  [("launcher owning decayed copies", T+"interface_thread.hpp launch"), ("pthread_create/join", T+"posix_thread.hpp")],
  ["executions and arguments of the callable", "joinable()", "return of join()"])

p("C27", "Thread attributes are applied and read back",
  "A thread gets the name, stack size and core affinity requested in its attributes, and where the system grants real-time scheduling its priority as well. "
  "Setting an affinity mask, a single core or a priority later, through the thread object or from within the thread, is what reading it back yields, and distinct priorities map to distinct, equally ordered system priorities.",
  ["inputs", "configurations"],
  "All masks over the available cores (up to 64), all names up to the system limit, all valid stack sizes, all six priorities and system priority ranges, with and without permission for real-time scheduling.",
  "The only test of this fails here for lack of privileges, and otherwise samples two masks and two priorities.",
  [T+"posix_thread.hpp", T+"interface_thread.hpp", T+"this_thread.hpp", T+"thread_attributes.hpp", S+"worker.hpp"],
  [("pthread attribute calls", T+"posix_thread.hpp create"), ("linear mapping of priorities", T+"posix_thread.hpp posix_thread_priority/get_priority")],
  ["arguments of the system calls (recorded by a stand-in)", "getPriority/getCoreAffinityMask"])

p("C28", "Failing to create a thread is handled",
  "If the system refuses to create a thread, the thread object is not joinable and can be destroyed, assigned to and retried, the callable is not run and it is destroyed exactly once with its arguments. "
  "A refused attribute does not prevent the thread from running with the remaining ones.",
  ["fault_sequences", "inputs"],
  "Failures injected into any of the system calls that configure or create a thread, with any error code.",
  "No test makes a system call fail.",
  [T+"posix_thread.hpp", T+"interface_thread.hpp"],
  [("ownership of the launcher kept until creation succeeded", T+"interface_thread.hpp launch"), ("error paths", T+"posix_thread.hpp create")],
  ["joinable()", "destruction of the callable"])

p("C29", "Sleeping lasts at least the requested time",
  "sleep_for and sleep_until return no earlier than the requested duration or time point, for every duration unit and clock, interruptions by signals included. "
  "Zero, negative and past requests return without sleeping.",
  ["inputs", "fault_sequences"],
  "All durations from nanoseconds to hours, integer and floating units, steady and system clocks, interruptions of the underlying call.",
  "No test sleeps through the library (on POSIX it could not be instantiated).",
  [T+"this_thread.hpp", T+"posix_thread.hpp"],
  [("sleep of the current thread", T+"posix_thread.hpp this_thread::sleep_for")],
  ["clock before and after the call"])

p("C30", "Single-threaded execution is equivalent to scheduled execution",
  "Executing a task or a whole group single-threaded runs every contained function exactly once, on the calling thread, children in the order they were added, and brackets them with the same hooks as scheduled execution. "
  "When it returns everything is done, results are available, waiters are released, and submitting it afterwards has no effect.",
  ["programs", "inputs"],
  "All task trees (units, sequences, parallel groups, nested), of both task types, with and without contexts.",
  "No test calls it.",
  [S+"task.hpp", S+"task_group.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", S+"task_handle.hpp"],
  [("executeSingleThreaded", S+"task_group.hpp, "+S+"parallel_group.hpp, "+S+"sequence_group.hpp")],
  ["order and thread of the calls", "isDone()/wait() afterwards"])

p("C31", "The helper functions do what their explicit forms do",
  "Every overload of the helper functions (creating and scheduling tasks, items, groups, sequences, forks, parallel loops) behaves as the fully explicit form with the documented defaults: waitable for tasks, fire-and-forget for items, normal priority and the toolkit's default contexts unless given. "
  "Names, priorities, contexts, arguments, task order, group limits and ranges given by the user reach the created objects unchanged.",
  ["inputs", "programs", "configurations"],
  "Every overload with generated names, priorities, arguments, handle counts, limits and ranges.",
  "Tests use a fraction of the overloads and check no effect of their arguments.",
  ["include/oqpi/scheduling_helpers.hpp"],
  [("overload forwarding", "include/oqpi/scheduling_helpers.hpp")],
  ["priority and contexts of the objects created", "functions executed, their order and arguments"])

p("C32", "Worker registration is reflected exactly",
  "Registering a configuration adds exactly the requested number of workers, each started as one thread named after the configuration (with a distinct index appended when there are several); the total count and the per-priority counts report exactly the workers registered. "
  "Starting the scheduler starts all of them, and stopping it ends all of them. What a worker reports of itself to its contexts (name, index, configuration, priorities, whether it has a task) agrees with that.",
  ["inputs", "configurations", "histories"],
  "All lists of worker configurations: counts, priority masks, names, thread attributes, one or several registrations, start/stop cycles.",
  "Tests register one default configuration and read a single count without checking it.",
  [S+"scheduler.hpp", S+"worker_base.hpp", S+"worker.hpp"],
  [("registerWorker(s)", S+"scheduler.hpp"), ("worker names", S+"worker_base.hpp getName, "+S+"worker.hpp start")],
  ["workersTotalCount/workersCount", "threads created and their names", "worker contexts"])

p("C33", "Task identity and state flags are consistent",
  "Every task and group has a unique, non-zero identifier that never changes, shared by all handles to it, also when created concurrently from many threads. "
  "A task's state only moves forward from idle to grabbed to done, exactly one of any number of competing attempts to grab it succeeds, and copying, moving, assigning or resetting handles affects only the handles, not the task.",
  ["schedules", "histories", "inputs"],
  "All interleavings of concurrent creation and grabbing; all histories of handle operations over a pool of handles.",
  "No test looks at identifiers, grabs or handle assignment.",
  [S+"task_base.hpp", S+"task_handle.hpp"],
  [("atomic identifier generator", S+"task_base.hpp uid_provider"), ("compare-exchange grab", S+"task_base.hpp tryGrab"), ("shared pointer handle", S+"task_handle.hpp")],
  ["getUID, isGrabbed, isDone, isValid, results of tryGrab"])

p("C34", "Checks report what fails, and nothing else",
  "A verify, check, ensure or failed expression evaluates its condition exactly once when its build configuration evaluates it (verify always, the others only in debug builds), has the value its documentation gives it, and never reports anything when the condition holds. "
  "When it does not hold, a debug build signals it exactly once, with the condition, the place, and the message formatted with all its arguments; errors and warnings are logged with all their arguments, also when several threads report at the same time.",
  ["inputs", "configurations", "schedules"],
  "All check macros with and without messages, any arguments (messages longer than the internal buffer included), in builds with and without checks, from one and several threads.",
  "No test makes a check fail, and none reads what is reported.",
  ["include/oqpi/error_handling.hpp"],
  [("check macros", "include/oqpi/error_handling.hpp oqpi_verify/oqpi_check/oqpi_ensure/oqpi_failed"), ("formatting of the message", "include/oqpi/error_handling.hpp assert_function")],
  ["evaluations of the condition, value of the expression", "text printed, breakpoints hit"])

p("C35", "Augmentation layers see every operation and stay with their object",
  "A semaphore, mutex or event augmented with user layers behaves as the lean object: every public operation the layer redefines reaches it exactly once with the caller's arguments, and returns what the layer returns. "
  "Moving such an object or a layered thread, by construction or assignment, moves the state of its layers along with it.",
  ["histories", "inputs", "configurations"],
  "Histories of operations and moves on local and named semaphores, mutexes, events and on threads, with one layer, a layer on a layer, or none.",
  "No test uses a layer other than the two built-in ones.",
  [Y+"interface/interface_semaphore.hpp", Y+"interface/interface_mutex.hpp", Y+"interface/interface_event.hpp", T+"interface_thread.hpp", Y+"sync_common.hpp", "include/oqpi/empty_layer.hpp"],
  [("selection of the base class and forwarding to it", "interface_*.hpp base_type"), ("moving through the base class", "interface_*.hpp move constructor and assignment")],
  ["operations recorded by the layer", "state of the layer after moves", "results compared with a model of the object"])

p("C36", "What fails is reported and has no effect, what succeeds is silent",
  "When the system refuses an operation on a semaphore, mutex, event or thread, the library reports it as an error or a warning and the operation has no effect: a wait or lock returns false, a notification or unlock leaves the state as it was, a creation yields an invalid object or a thread that is not joinable, join, detach and terminate leave the thread joinable. The object works as before afterwards; a thread whose attributes are refused runs without them and that is reported. Setting a priority is best effort and may fail silently. "
  "Operations that succeed, and tries and timed waits that merely do not get the object in time, report nothing.",
  ["faults", "histories", "inputs"],
  "Histories of operations on local and named semaphores, mutexes and events and on threads in which any system call may fail; programs of tasks in which none fails.",
  "The tests never see a failing system call and do not look at what is printed.",
  [Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_mutex.hpp", Y+"posix/posix_event.hpp", T+"posix_thread.hpp", "include/oqpi/error_handling.hpp"],
  [("results of the semaphore calls", Y+"posix/posix_semaphore_wrapper.hpp post/wait/tryWait/waitFor/initLocalSemaphore/initGlobalSemaphore"), ("results of the thread calls", T+"posix_thread.hpp create/join/detach/terminate/set_core_affinity_mask/set_name")],
  ["reports printed during each operation", "results of the operations and what is available afterwards", "joinable(), affinity and name after refused calls"])

p("C37", "Moving a task moves all of it",
  "A task object that is moved, by construction or by assignment over an empty, used or unused task, continues as the same task: with its identifier, priority, state, function, contexts and result. It can be grabbed, executed, waited for, read and submitted where it is now; its function is called once in all. What a task that is assigned over held is destroyed at once, and everything is destroyed exactly once.",
  ["histories", "inputs"],
  "All histories of creating, moving, grabbing, executing, waiting for, reading, submitting and dropping task objects, before and after execution, for result types with and without heap memory, waitable or not.",
  "The tests only use tasks through shared handles and never move one.",
  [S+"task.hpp", S+"task_base.hpp", S+"task_result.hpp", S+"task_notifier.hpp", S+"context_container.hpp"],
  [("move construction and assignment of all the bases", S+"task.hpp"), ("state and identifier", S+"task_base.hpp"), ("event moved with the task", S+"task_notifier.hpp")],
  ["identifier, priority, isGrabbed, isDone, result of the task moved to", "calls and destructions of functions and results", "calls of the hooks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
