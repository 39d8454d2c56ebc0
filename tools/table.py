"""What each check runs: translation unit, number of cases (quick, thorough), what counts as non-trivial."""
COMMON_ASSUMPTIONS = [
    "Threads, semaphores, mutexes, clocks and sleeps are those of the harness runtime (harness/rt.cpp), which follows POSIX/glibc on Linux; the library's own code is compiled unmodified from /repo's working tree.",
    "Interleavings are sequentially consistent at the granularity of atomic operations, synchronisation calls and (in part of the runs) plain memory accesses; weak-memory effects are covered only through the happens-before race detector.",
]
PROPS = {}
def P(id, tu, cases, rule, **kw):
    PROPS[id] = dict(tu=tu, cases=cases, rule=rule, **kw)
P("C01", "core", (600000, 20000000), "Random task trees (up to tens of thousands of tasks), worker sets, client programs and schedules. Non-trivial: at least two nodes, or several workers or submitting threads.")
P("C02", "core", (450000, 15000000), "Random graphs and waiters, with interrupted waits. Non-trivial: at least two nodes, waiters or waits.")
P("C03", "core", (650000, 18000000), "Random graphs, sleeping and waking workers, fork-join recursion, on one to three workers. Non-trivial: at least two tasks.")
P("C04", "groups", (300000, 12000000), "Random graphs with sequences (free-running, and with every task held back by a gate). Non-trivial: a sequence of at least two elements, or at least three nodes.")
P("C05", "groups", (300000, 12000000), "Random nested groups, gated or racing with active waiters and separate submissions of children. Non-trivial: at least three nodes.")
P("C06", "groups", (400000, 12000000), "Random limited groups on one to eight workers. Non-trivial: more children than the limit allows and several workers, or several gated children.")
P("C13", "groups", (350000, 12000000), "Random graphs with two recording contexts per task, group and worker. Non-trivial: at least two nodes or waiters.")
P("C30", "groups", (400000, 14000000), "Random graphs executed single-threaded, with waiters, a running scheduler and later submissions. Non-trivial: at least two nodes.")
P("C07", "dispatch", (500000, 16000000), "Random worker sets and histories of submissions, completions, take-overs, stops and restarts against a reference model. Non-trivial: at least two tasks were pending at the same time.")
P("C08", "dispatch", (450000, 14000000), "Random graphs with random and inherited priorities on random worker sets. Non-trivial: several worker configurations, or tasks held back.")
P("C09", "dispatch", (400000, 12000000), "Random tasks and groups over up to four stop/start cycles at random moments. Every case is non-trivial.")
P("C16", "dispatch", (400000, 14000000), "Idleness polled and waited for while random graphs run. Non-trivial: several nodes or polls.")
P("C32", "dispatch", (220000, 8000000), "Random sequences of registrations and start/stop cycles. Non-trivial: several workers.")
P("C10", "parallel", (350000, 12000000), "Random ranges, partitioners, workers, callers and overloads. Non-trivial: a loop over at least two indices.")
P("C11", "parallel", (2500000, 80000000), "Random ranges (up to the limits of int32), batch counts and sizes, drawn from by one to four threads, copied on the way. Non-trivial: at least two elements.")
P("C18", "sync", (2500000, 80000000), "Random sequential and concurrent histories on local and named semaphores, against a counter model. Non-trivial: at least one notification and one successful wait (sequential), or notifications and waits from several threads.")
P("C19", "sync", (2000000, 70000000), "Random sequential histories and competing lockers of named mutexes. Non-trivial: several threads, or at least one unlock and one lock.")
P("C20", "sync", (2000000, 70000000), "Random sequential and concurrent histories on local and named auto-reset events (one notifying thread), against a one-bit model. Non-trivial: notifications and waits from several threads, or at least one of each.")
P("C21", "sync", (1500000, 50000000), "Random sequential histories and phases of concurrent waits, notifications and resets of manual-reset events. Non-trivial: several waiters or phases.")
P("C22", "sync", (2500000, 90000000), "Random durations, units, clocks and phases of the clock; objects available before, during, after or never. Non-trivial: several timed waits, or the object becomes available during or after the wait.")
P("C23", "sync", (1600000, 60000000), "Random histories of creating, opening, moving, using and destroying named objects; concurrent creators and openers. Non-trivial: several objects made, and some refused or a creator destroyed.")
P("C24", "sync", (3000000, 100000000), "Random histories of construction, moves, use and destruction over a pool of objects. Non-trivial: at least one move.")
P("C25", "sync", (2000000, 70000000), "Timed and untimed waits, locks, task waits and workers with interruptions injected at blocking calls. Non-trivial: an interruption was delivered (or, for timed waits, as in C22).")
P("C17", "queue", (900000, 30000000), "Random sequential and concurrent histories of push, tryPop and empty on queues of copyable, move-only and plain elements. Non-trivial: several pops, or pushes and pops from several threads.")
P("C26", "threads", (900000, 30000000), "Random callables, arguments and histories of creation, move, join and detach. Non-trivial: at least one thread.")
P("C27", "threads", (2200000, 70000000), "Random attributes, numbers of cores, priority ranges and changes from inside and outside of the thread. Non-trivial: attributes other than the defaults, or changes.", assumptions=["Permissions for real-time scheduling, the number of cores and the range of priorities are those of a stand-in for the pthread attribute calls."])
P("C28", "threads", (2500000, 80000000), "Random sets of failing system calls at every thread creation. Non-trivial: at least one call fails.")
P("C29", "threads", (3500000, 120000000), "Random durations, units and clocks, with and without interruptions, with other threads sleeping. Non-trivial: at least one positive duration.")
P("C12", "tasks", (900000, 30000000), "Random tasks (callables, arguments, result types), made, copied, raced for by several executors. Non-trivial: several executors or waits, or arguments.")
P("C33", "tasks", (900000, 30000000), "Random histories of making tasks and groups (up to tens of thousands), grabbing, copying, moving, swapping and comparing handles; groups completed by busy or idle workers and by callers. Non-trivial: several tasks or threads.")
P("C14", "tasks", (900000, 28000000), "Random graphs of counted objects, with pending work and waiters, dropped at random moments. Non-trivial: at least two nodes or handles.")
P("C15", "races", (500000, 16000000), "Random graphs, hand-overs, restarts, polling threads, nested loops and synchronisation objects with all memory accesses under happens-before race detection. Non-trivial: several threads or tasks.")
P("C31", "helpers", (600000, 20000000), "Random sequences of calls of every overload of the helper functions with random names, priorities, contexts, arguments, handles, limits and ranges. Every case is non-trivial.")
P("C34", "misc", (600000, 20000000), "Random sequences of checks and logs with random conditions and arguments, from one to four threads. Non-trivial: several checks, or several failures from different threads.")
P("C35", "misc", (6000000, 120000000), "Random histories on layered objects and threads. Non-trivial: a wait, a lock or a move.")
P("C36", "misc", (2200000, 70000000), "Random histories on semaphores, mutexes, events and threads with failures injected into the system calls; task graphs without any. Non-trivial: at least one call failed (silence: at least two tasks).", assumptions=["The system calls that fail are those of the stand-in: creation, wait, try, timed wait and post of semaphores; creation, join, detach, pinning and naming of threads."])
P("C37", "tasks", (3500000, 100000000), "Random histories of making, moving (construction, assignment over anything), grabbing, executing, waiting for, reading and submitting task objects. Non-trivial: a task was moved and one was executed.")
