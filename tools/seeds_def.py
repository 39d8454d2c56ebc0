G = "scheduling/"
SEM = "synchronization/posix/"

seed("grab-check-then-act", "C01",
 "two threads reaching tryGrab on the same task within nanoseconds of each other (a duplicate submission picked up by two workers, or a worker and an active waiter)",
 "tryGrab is no longer atomic: two executors both take the token and the task function runs twice",
 [(G + "task_base.hpp", """            bool expected = false;
            return grabbed_.compare_exchange_strong(expected, true);""", """            // Cheaper than a compare-exchange for the common case
            if (grabbed_.load(std::memory_order_acquire))
            {
                return false;
            }
            grabbed_.store(true, std::memory_order_release);
            return true;""")], r'''
#include "demo.h"
// Two executors race for each of many tasks.
int main() {
    const int batch = 4000, rounds = 250;
    std::atomic<int> executions{0};
    for (int r = 0; r < rounds; ++r) {
        std::vector<task_handle> ts;
        for (int i = 0; i < batch; ++i) ts.push_back(task([&] { executions.fetch_add(1, std::memory_order_relaxed); }));
        Rendezvous meet; executions = 0;
        auto run = [&](int) { for (int i = 0; i < batch; ++i) { task_handle h = ts[i]; meet(i); if (h.tryGrab()) h.execute(); } };
        std::thread a(run, 0), b(run, 1); a.join(); b.join();
        check(executions == batch, "a task was executed twice");
    }
    holds();
}
''', also=("C33",))

seed("wake-before-push", "C03",
 "a worker that wakes up and finds the queue still empty, because the submitter was preempted between the notification and the push",
 "add() signals the workers before the task is in the queue: a worker can consume the signal, see nothing and sleep again; the task is never executed",
 [(G + "scheduler.hpp", """                pendingTasks_[int(priority)].push(hTask);
                wakeUpWorkersWithPriority(priority);""", """                wakeUpWorkersWithPriority(priority);
                pendingTasks_[int(priority)].push(hTask);""")], r'''
#include "demo.h"
// A queue whose push is slow
template <class T> struct SlowQueue : concurrent_queue<T> {
    void push(const T &t) { std::this_thread::sleep_for(100ms); concurrent_queue<T>::push(t); }
};
int main() {
    oqpi::scheduler<SlowQueue> s; addWorkers(s, 2); s.start();
    std::this_thread::sleep_for(50ms);
    std::atomic<bool> ran{false};
    s.add(task([&] { ran = true; }));
    check(eventually([&] { return ran.load(); }), "a submitted task was never executed");
    s.stop();
    holds();
}
''', also=("C01",))

seed("activewait-skips-wait", "C02",
 "activeWait on a parallel group all of whose children could be taken by the caller, one of them being a group itself",
 "activeWait does not wait when it started every child itself, although starting a nested group only schedules its children: it returns before they have finished",
 [(G + "parallel_group.hpp", """            for (auto &hTask : tasks_)
            {
                if (hTask.tryGrab())
                {
                    hTask.execute();
                }
            }

            this->wait();""", """            size_t executedTasks = 0;
            for (auto &hTask : tasks_)
            {
                if (hTask.tryGrab())
                {
                    hTask.execute();
                    ++executedTasks;
                }
            }

            // No need to wait on anyone if we executed everything ourselves
            if (executedTasks < tasks_.size())
            {
                this->wait();
            }""")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 1); s.start();
    // Keep the only worker busy so that the caller takes all the children
    std::atomic<bool> go{false}, busy{false}; std::atomic<int> done{0};
    s.add(task([&] { busy = true; while (!go) std::this_thread::sleep_for(1ms); }));
    check(eventually([&] { return busy.load(); }), "stuck");
    auto inner = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "inner", task_priority::normal, 3);
    for (int i = 0; i < 3; ++i) inner->addTask(item([&] { done++; }));
    auto outer = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "outer", task_priority::normal, 2);
    outer->addTask(task_handle(inner));
    outer->addTask(item([&] { done++; }));
    std::thread release([&] { std::this_thread::sleep_for(300ms); go = true; });
    auto h = s.add(task_handle(outer));
    h.activeWait();
    check(done == 4, "activeWait returned before the tasks of the group had finished");
    release.join(); s.stop();
    holds();
}
''', also=("C05",))

seed("limited-group-joins-early", "C04",
 "a sequence whose element is a parallel group with a limit on simultaneous tasks and more children than the limit, the first children finishing while the last ones are still running",
 "a limited parallel group considers itself done once a child completes and there is nothing left to schedule, so the next element of the sequence starts while children of the previous one are still executing",
 [(G + "parallel_group.hpp", """            if (previousTaskCount == 1)
            {
                this->notifyGroupDone();
            }
            else if (maxSimultaneousTasks_ > 0)""", """            const auto lastOne = (maxSimultaneousTasks_ > 1)
                ? currentTaskIndex_.load() == tasks_.size() + maxSimultaneousTasks_ - 1
                : previousTaskCount == 1;
            if (lastOne)
            {
                this->notifyGroupDone();
            }
            else if (maxSimultaneousTasks_ > 0)"""),
  (G + "parallel_group.hpp", """                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)""", """                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks + 1 < maxSimultaneousTasks_)
                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)""")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "a sequence did not complete");
    for (int round = 0; round < 3; ++round)
        for (int children = 1; children <= 5; ++children)
            for (int limit = 1; limit <= 4; ++limit) {
                Sched s; addWorkers(s, 6); s.start();
                std::atomic<int> finished{0}; std::atomic<bool> early{false}, next{false};
                auto par = oqpi::make_parallel_group<task_type::fire_and_forget, NoGC>(s, "p", task_priority::normal, children, limit);
                for (int i = 0; i < children; ++i) par->addTask(item([&, i] { std::this_thread::sleep_for(std::chrono::milliseconds(1 + (i + round) % 3 * 5)); finished++; }));
                auto seq = oqpi::make_sequence_group<task_type::waitable, NoGC>(s, "s", task_priority::normal);
                seq->addTask(task_handle(par));
                seq->addTask(item([&] { early = finished != children; next = true; }));
                s.add(task_handle(seq)).wait();
                check(!early && next, "an element of a sequence started before the previous one had finished");
                s.stop();
            }
    holds();
}
''', also=("C05",))

seed("join-split-decrement", "C05",
 "the last two children of a parallel group finishing simultaneously on two threads, both decrementing before either reads the counter back",
 "the number of unfinished children is decremented and read back separately: both finishers see zero and the group completes twice",
 [(G + "parallel_group.hpp", """            const auto previousTaskCount = activeTasksCount_.fetch_sub(1);
            if (previousTaskCount == 1)""", """            --activeTasksCount_;
            if (activeTasksCount_ == 0)""")], r'''
#include "demo.h"
static std::atomic<int> completions{0};
struct CountingContext : oqpi::group_context_base {
    CountingContext(oqpi::task_group_base *g, const std::string &name) : oqpi::group_context_base(g, name) {}
    void onPostExecute() { completions.fetch_add(1, std::memory_order_relaxed); }
};
int main() {
    Sched s; // not started: the children are executed by the two threads below
    const int batch = 2000, rounds = 150;
    for (int r = 0; r < rounds; ++r) {
        std::vector<task_handle> kids, groups;
        for (int i = 0; i < batch; ++i) {
            auto g = oqpi::make_parallel_group<task_type::fire_and_forget, oqpi::group_context_container<CountingContext>>(s, "g", task_priority::normal, 2);
            for (int k = 0; k < 2; ++k) { kids.push_back(item([] {})); g->addTask(kids.back()); }
            groups.push_back(task_handle(g));
        }
        completions = 0; Rendezvous meet;
        auto run = [&](int k) { for (int i = 0; i < batch; ++i) { task_handle h = kids[2 * i + k]; meet(i); if (h.tryGrab()) h.execute(); } };
        std::thread a(run, 0), b(run, 1); a.join(); b.join();
        check(completions == batch, "a parallel group was completed twice");
    }
    holds();
}
''')

seed("join-release-only", "C15",
 "children of a parallel group that write plain memory which is read once the group is done; shows on weakly ordered machines and to a race detector",
 "the last decrement of the counter of unfinished children no longer acquires what the other children released, so the completion of the group does not happen after them",
 [(G + "parallel_group.hpp", "activeTasksCount_.fetch_sub(1);", "activeTasksCount_.fetch_sub(1, std::memory_order_release);")], r'''
//flags: -fsanitize=thread -g
#include "demo.h"
// Built with ThreadSanitizer, which reports the race by its exit code.
int main() {
    Sched s; addWorkers(s, 3); s.start();
    for (int i = 0; i < 20; ++i) {
        int *data = new int[64]();
        std::atomic<long> th[3];
        auto par = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "p", task_priority::normal, 3);
        for (int k = 0; k < 3; ++k) par->addTask(item([&th, data, k] { std::this_thread::sleep_for(std::chrono::milliseconds(1 + k * 3)); data[k * 8] = k + 1; th[k].store((long)pthread_self(), std::memory_order_relaxed); }));
        task_handle h = s.add(task_handle(par)); h.wait(); // no copy of the handle is destroyed before the data is read
        int sum = 0; for (int k = 0; k < 3; ++k) sum += data[k * 8];
        check(sum == 6, "effects of the children are not visible");
    }
    s.stop();
    std::printf("done\n");
    return 0;
}
''', also=("C02",))

seed("limit-refill-race", "C06",
 "children of a limited group finishing at the same time (or while the first batch is still being submitted)",
 "a finishing child schedules as many children as it computes to be missing up to the limit, from counters that others are changing: more children than allowed execute at once",
 [(G + "parallel_group.hpp", """                const auto taskCount = tasks_.size();
                size_t i = 0;
                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
                {
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        break;
                    }
                }""", """                const auto taskCount = tasks_.size();
                // Keep as many tasks running as the limit allows
                const auto unscheduled = int64_t(taskCount) - int64_t(std::min<size_t>(currentTaskIndex_.load(), taskCount));
                auto runningTasks = int64_t(previousTaskCount) - 1 - unscheduled;
                size_t i = 0;
                while (runningTasks < maxSimultaneousTasks_ && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                {
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        ++runningTasks;
                    }
                }""")], r"""
#include "demo.h"
int main() {
    watchdog(150s, "a limited group never completed");
    Sched s; addWorkers(s, 6); s.start();
    const auto end = std::chrono::steady_clock::now() + 20s;
    while (std::chrono::steady_clock::now() < end) {
        std::atomic<int> now{0}, most{0};
        auto par = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "p", task_priority::normal, 60, 3);
        for (int k = 0; k < 60; ++k) par->addTask(item([&] { int v = ++now; int m = most; while (v > m && !most.compare_exchange_weak(m, v)) {} for (volatile int j = 0; j < 300; j = j + 1) {} --now; }));
        s.add(task_handle(par)).wait();
        check(most <= 3, "more children than the limit were executing at once");
    }
    s.stop();
    holds();
}
""")

seed("duplicate-ends-priority", "C07",
 "a task submitted twice (or taken over by an active waiter) in front of other tasks of its priority, with lower-priority tasks pending",
 "a queue entry whose task was already taken ends the scan of its priority: the worker goes on to lower priorities although higher-priority tasks are pending",
 [(G + "scheduler.hpp", "                        while (pendingTasks_[prio].tryPop(hTask))", "                        if (pendingTasks_[prio].tryPop(hTask))"),
  (G + "scheduler.hpp", """                return false;
            };""", """                // Discarded entries don't mean that there's nothing left
                for (auto prio = 0; prio < PRIO_COUNT; ++prio)
                {
                    while (w.canWorkOnPriority(task_priority(prio)) && pendingTasks_[prio].tryPop(hTask))
                    {
                        if (hTask.tryGrab() && !hTask.isDone())
                        {
                            return true;
                        }
                        hTask.reset();
                        unfinishedTasks_.fetch_sub(1);
                    }
                }

                return false;
            };""")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 1);
    std::vector<int> order; std::atomic<int> n{0};
    auto note = [&](int i) { return [&, i] { order.push_back(i); n++; }; };
    // Submitted before start: a duplicate of an executed task precedes another high priority task
    auto twice = task(note(0), task_priority::high);
    s.add(twice); s.add(twice);
    s.add(task(note(1), task_priority::high));
    s.add(task(note(2), task_priority::low));
    s.start();
    check(eventually([&] { return n == 3; }), "tasks were lost");
    s.stop();
    check(order == std::vector<int>({0, 1, 2}), "a low priority task was executed before a pending high priority one");
    holds();
}
''')

seed("normal-or-high-mask", "C08",
 "a scheduler with a worker configured as wprio_normal_or_high",
 "the wprio_normal_or_high configuration accepts low priority tasks instead of high priority ones",
 [(G + "worker_base.hpp", "wprio_normal_or_high    = wprio_any_normal      | wprio_high,", "wprio_normal_or_high    = wprio_any_normal      | wprio_low,")], r'''
#include "demo.h"
int main() {
    Sched s;
    addWorkers(s, 1, int(oqpi::worker_priority::wprio_any), "any");
    addWorkers(s, 1, int(oqpi::worker_priority::wprio_normal_or_high), "noh");
    s.start();
    // Hold the worker that accepts everything: high priority tasks have to be executed by the other one
    std::atomic<bool> go{false}; std::atomic<int> held{0}, high{0};
    auto hold = [&] { held++; while (!go) std::this_thread::sleep_for(1ms); };
    check(s.workersCount(task_priority::low) == 1 && s.workersCount(task_priority::high) == 2, "wprio_normal_or_high counts for the wrong priorities");
    s.add(task(hold, task_priority::low));
    check(eventually([&] { return held == 1; }), "low priority task not executed");
    s.add(task([&] { high++; }, task_priority::high));
    check(eventually([&] { return high == 1; }), "high priority task not executed by an eligible worker");
    go = true; s.stop();
    holds();
}
''', also=("C32",))

seed("worker-flag-after-thread", "C09",
 "the operating system running the new worker thread before start() gets to set the worker's running flag, most easily on a restart",
 "the worker is flagged as running after its thread was created: a thread that is quick enough sees the flag down and ends, and nobody executes the pending tasks",
 [(G + "worker.hpp", """            // Important to set the worker as running before starting the thread
            running_.store(true);

""", ""), (G + "worker.hpp", """            // Start the thread, running_ must be set to true beforehand
            thread_ = _Thread(threadAttributes, [this]() { run(); });""", """            thread_ = _Thread(threadAttributes, [this]() { run(); });
            running_.store(true);""")], r'''
#include "demo.h"
// A thread class that takes its time to return from the constructor
struct SlowThread : Thread {
    SlowThread() = default;
    template <class F> SlowThread(const oqpi::thread_attributes &a, F &&f) : Thread(a, std::forward<F>(f)) { std::this_thread::sleep_for(50ms); }
    SlowThread(SlowThread &&o) : Thread(std::move(o)) {}
    SlowThread &operator=(SlowThread &&o) { Thread::operator=(std::move(o)); return *this; }
};
int main() {
    Sched s; oqpi::worker_config c; c.threadAttributes.name_ = "w";
    s.registerWorker<SlowThread, Sema>(c);
    for (int i = 0; i < 3; ++i) {
        s.start();
        std::atomic<bool> ran{false};
        s.add(task([&] { ran = true; }));
        check(eventually([&] { return ran.load(); }, 5s), "a task submitted to a restarted scheduler was never executed");
        s.stop();
    }
    holds();
}
''', also=("C32", "C03"))

seed("one-range-per-batch", "C10",
 "parallel_for with an atomic_partitioner (or fewer batches than ranges)",
 "each batch asks the partitioner for a single range, which is enough for simple_partitioner only: the remaining indices are never visited",
 [("parallel_algorithms/parallel_for.hpp", "                while (spPartitioner->getNextValidRange(first, last))", "                if (spPartitioner->getNextValidRange(first, last))")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 3); s.start();
    for (int n = 1; n < 40; ++n) {
        std::vector<std::atomic<int>> hits(n);
        oqpi::parallel_for<Event, NoGC, NoTC>(s, "pf", oqpi::atomic_partitioner(n, 3, 3), task_priority::normal, [&](int i) { hits[i]++; });
        for (auto &h : hits) check(h == 1, "an index was not visited exactly once");
    }
    s.stop();
    holds();
}
''')

seed("atomic-partitioner-fetch-add", "C11",
 "a range that ends close to the largest int32, or enough further calls after the partitioner is exhausted",
 "the shared index is incremented unconditionally, so it runs past the end and wraps around, after which the partitioner hands out indices again",
 [("parallel_algorithms/atomic_partitioner.hpp", """                // Get a copy of where we're at in the array
                auto expectedIndex = sharedIndex_.load();
                // Compute how many indices we could grab
                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                if (count > 0)
                {
                    // There's still something to grab, try to do it, by being the one to increment the shared index.
                    if (sharedIndex_.compare_exchange_strong(expectedIndex, expectedIndex + count))
                    {
                        // We managed to grab the indices, still some work to do
                        firstIndex = expectedIndex;
                        lastIndex  = firstIndex + count;
                        return true;
                    }
                }""", """                // A single atomic addition reserves our indices
                const auto expectedIndex = sharedIndex_.fetch_add(indicesToGrab_);
                if (expectedIndex < lastIndex_)
                {
                    firstIndex = expectedIndex;
                    lastIndex  = int32_t(std::min<int64_t>(lastIndex_, int64_t(expectedIndex) + indicesToGrab_));
                    return true;
                }""")], r'''
#include "demo.h"
#include <climits>
int main() {
    const int last = INT_MAX - 2, first = last - 10;
    oqpi::atomic_partitioner p(first, last, 4, 3);
    int next = first, a, b, n = 0;
    while (p.getNextValidRange(a, b)) { check(a == next && b > a && b <= last && ++n <= 3, "wrong range"); next = b; }
    check(next == last, "not everything was handed out");
    for (int i = 0; i < 100; ++i) check(!p.getNextValidRange(a, b), "an exhausted partitioner handed out a range");
    holds();
}
''')

seed("result-moved-out", "C12",
 "reading the result of a task more than once, the result being of a type with a destructive move",
 "getResult() moves the stored result out, so the second reader gets an empty value",
 [(G + "task_result.hpp", """        _ReturnType getResult() const
        {
            return result_;
        }

    protected:
        _ReturnType result_;""", """        _ReturnType getResult() const
        {
            return std::move(result_);
        }

    protected:
        mutable _ReturnType result_;""")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 2); s.start();
    auto t = oqpi::make_task<task_type::waitable, Event, NoTC>("t", task_priority::normal, [] { return std::string(200, 'x'); });
    s.add(task_handle(t));
    for (int i = 0; i < 3; ++i) check(t->waitForResult() == std::string(200, 'x'), "the result differs from what the function returned");
    s.stop();
    holds();
}
''')

seed("activewait-misses-post-hook", "C13",
 "a caller of activeWait arriving while the worker that finished the last child is still in the group's post-execution hook",
 "activeWait looks at the number of unfinished children instead of waiting for the completion of the group, so it can return before the post-execution hook has run",
 [(G + "parallel_group.hpp", "            this->wait();", """            // Everything could have been executed in the meantime
            if (activeTasksCount_.load() > 0)
            {
                this->wait();
            }""")], r'''
#include "demo.h"
static std::atomic<int> hook{0};
struct SlowContext : oqpi::group_context_base {
    SlowContext(oqpi::task_group_base *g, const std::string &name) : oqpi::group_context_base(g, name) {}
    void onPostExecute() { hook = 1; std::this_thread::sleep_for(300ms); hook = 2; }
};
int main() {
    Sched s; addWorkers(s, 2); s.start();
    auto g = oqpi::make_parallel_group<task_type::waitable, oqpi::group_context_container<SlowContext>>(s, "g", task_priority::normal, 2);
    for (int k = 0; k < 2; ++k) g->addTask(item([] {}));
    auto h = s.add(task_handle(g));
    check(eventually([] { return hook == 1; }), "the hook was not called");
    h.activeWait();
    check(hook == 2, "activeWait returned before the post-execution hook of the group had run");
    s.stop();
    holds();
}
''', also=("C05",))

seed("parent-kept-by-last-child", "C14",
 "any group that completes: the child that completes it keeps a reference to it while the group keeps a reference to its children",
 "the child that was the last one to finish does not release its parent group, which leaves a cycle of shared pointers: the group and its tasks are never freed",
 [(G + "task_group_base.hpp", """            spParentGroup_->oneTaskDone();
            std::atomic_store(&spParentGroup_, task_group_sptr());""", """            auto &parentGroup = *spParentGroup_;
            parentGroup.oneTaskDone();
            // Nobody is interested in the parent anymore once it's done
            if (!parentGroup.isDone())
            {
                std::atomic_store(&spParentGroup_, task_group_sptr());
            }""")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 2); s.start();
    std::weak_ptr<oqpi::task_group_base> w;
    auto payload = std::make_shared<int>(1); std::weak_ptr<int> wp = payload;
    {
        auto g = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "g", task_priority::normal, 3);
        for (int k = 0; k < 3; ++k) g->addTask(item([payload] { (void)*payload; }));
        payload.reset(); w = g;
        s.add(task_handle(g)).wait();
    }
    check(eventually([&] { return w.expired() && wp.expired(); }, 3s), "a finished group was not released");
    s.stop();
    holds();
}
''')

seed("queue-pop-gives-up", "C17",
 "a consumer calling tryPop while another thread holds the lock of the queue",
 "tryPop returns without an element although the queue is not empty when somebody else is using the queue: a worker goes to sleep although a task is pending",
 [("concurrent_queue.hpp", """    bool tryPop(typename std::queue<T>::reference v)
    {
        lock_t __l(mutex_);
        if (!queue_.empty())""", """    bool tryPop(typename std::queue<T>::reference v)
    {
        // Don't block, trying is what we're asked for
        std::unique_lock<std::mutex> __l(mutex_, std::try_to_lock);
        if (__l.owns_lock() && !queue_.empty())""")], r"""
#include "demo.h"
static std::atomic<bool> slow{false}, copying{false};
struct Elem {
    int v;
    Elem(int v = 0) : v(v) {}
    Elem(const Elem &o) : v(o.v) { if (slow) { copying = true; std::this_thread::sleep_for(200ms); } }
    Elem &operator=(const Elem &) = default;
};
int main() {
    concurrent_queue<Elem> q; Elem one(1), two(2), e;
    q.push(one); slow = true;
    std::thread t([&] { q.push(two); });
    check(eventually([] { return copying.load(); }), "stuck");
    check(q.tryPop(e) && e.v == 1, "tryPop found nothing in a queue that is not empty");
    t.join();
    check(q.tryPop(e) && e.v == 2 && !q.tryPop(e), "wrong element");
    holds();
}
""", also=())

seed("semaphore-notify-zero", "C18",
 "notify(0) on a semaphore",
 "notifying a semaphore of zero tokens adds one",
 [(SEM + "posix_semaphore.hpp", """            for(auto i = 0; i < count; ++i)
            {
                sem_.post();
            }""", """            auto i = 0;
            do
            {
                sem_.post();
            } while(++i < count);""")], r'''
#include "demo.h"
int main() {
    Sema s(2);
    s.notify(0);
    check(s.tryWait() && s.tryWait() && !s.tryWait(), "the number of tokens is wrong");
    s.notify(3);
    check(s.tryWait() && s.tryWait() && s.tryWait() && !s.tryWait(), "the number of tokens is wrong");
    holds();
}
''')

seed("mutex-double-unlock", "C19",
 "a mutex that is unlocked twice",
 "the guard against unlocking an unlocked mutex is off by one: after a double unlock two threads can own the mutex",
 [(SEM + "posix_mutex.hpp", "            if (semValue >= 1)", "            if (semValue > 1)")], r'''
#include "demo.h"
int main() {
    using Mutex = oqpi::mutex_interface<oqpi::global_sync_object>;
    const std::string name = "oqpi_demo_" + std::to_string(getpid());
    Mutex m(name, oqpi::sync_object_creation_options::create_if_nonexistent, false);
    check(m.isValid(), "invalid mutex");
    m.lock(); m.unlock(); m.unlock();
    bool first = m.tryLock(), second = m.tryLock();
    m.unlock();
    { Mutex gone(std::move(m)); }
    check(first && !second, "two owners of a mutex");
    holds();
}
''')

seed("event-poll-consumes", "C21",
 "polling a signalled manual-reset event with waitFor(0), followed by another wait",
 "a successful waitFor with nothing to wait for consumes the signal of a manual-reset event: later waiters block",
 [(SEM + "posix_event.hpp", """            if (!sem_.waitFor(relTime))
            {
                return false;
            }
""", """            if (relTime <= relTime.zero())
            {
                // No need to compute a deadline when polling
                return sem_.tryWait();
            }

            const auto signaled = sem_.waitFor(relTime);
            if (!signaled)
            {
                return false;
            }
""")], r"""
#include "demo.h"
int main() {
    Event e; e.notify();
    for (int i = 0; i < 3; ++i) check(e.waitFor(0ms), "a manual-reset event lost its signal");
    check(e.waitFor(10ms), "a manual-reset event lost its signal");
    e.reset(); check(!e.waitFor(1ms), "signalled after a reset");
    holds();
}
""")

seed("wait-until-truncated", "C22",
 "waitUntil with a deadline that is not a whole number of milliseconds away",
 "waitUntil drops the part of the remaining time below a millisecond: it gives up before the deadline",
 [("synchronization/interface/interface_semaphore.hpp", "            return waitFor(absTime - _Clock::now());", "            return waitFor(std::chrono::duration_cast<std::chrono::milliseconds>(absTime - _Clock::now()));")], r'''
#include "demo.h"
int main() {
    Sema s;
    for (int i = 0; i < 20; ++i) {
        const auto end = std::chrono::system_clock::now() + 5ms + 700us;
        check(!s.waitUntil(end), "nothing to wait for");
        check(std::chrono::system_clock::now() >= end, "waitUntil returned before the deadline");
    }
    holds();
}
''')

seed("semaphore-move-keeps-max", "C24",
 "move-assigning a semaphore over one with another maximum count, and notifying all afterwards",
 "move assignment does not take over the maximum count: notifyAll() releases the wrong number of waiters",
 [(SEM + "posix_semaphore.hpp", """                sem_        = std::move(rhs.sem_);
                maxCount_   = rhs.maxCount_;""", """                sem_        = std::move(rhs.sem_);""")], r'''
#include "demo.h"
int main() {
    Sema a(0, 3), b(0, 1);
    b = std::move(a);
    b.notifyAll();
    int n = 0; while (n < 10 && b.tryWait()) ++n;
    check(n == 3, "a move-assigned semaphore does not behave like its source");
    holds();
}
''')

seed("thread-failure-leaks", "C28",
 "a thread that cannot be created (no memory for its stack, or too many threads)",
 "the function and arguments of a thread that could not be created are never destroyed",
 [("threading/interface_thread.hpp", """            if (thread_impl::template create<launcher_t>(attributes, upLauncher.get()))
            {
                // If the thread creation succeeded, we transfer the ownership of the launcher to it.
                upLauncher.release();
            }""", """            thread_impl::template create<launcher_t>(attributes, upLauncher.release());""")], r'''
#include "demo.h"
int main() {
    auto p = std::make_shared<int>(1); std::weak_ptr<int> w = p;
    oqpi::thread_attributes a("big"); a.stackSize_ = 1u << 30;
    // No address space for such a stack
    struct rlimit old{}, lim{}; getrlimit(RLIMIT_AS, &old); lim = old; lim.rlim_cur = 512u << 20; setrlimit(RLIMIT_AS, &lim);
    bool ran = false;
    { Thread t(a, [p, &ran] { ran = true; }); if (t.joinable()) t.join(); }
    setrlimit(RLIMIT_AS, &old);
    p.reset();
    check(ran || w.expired(), "the function of a thread that could not be created was leaked");
    check(w.expired(), "the function of a thread was leaked");
    holds();
}
''')

seed("sleep-until-truncated", "C29",
 "sleep_until with a time point that is not a whole number of milliseconds away",
 "sleep_until drops the part of the remaining time below a millisecond and returns too early",
 [("threading/this_thread.hpp", "        sleep_for(absTime - _Clock::now());", "        sleep_for(std::chrono::duration_cast<std::chrono::milliseconds>(absTime - _Clock::now()));")], r'''
#include "demo.h"
int main() {
    for (int i = 0; i < 20; ++i) {
        const auto end = std::chrono::steady_clock::now() + 3ms + 800us;
        oqpi::this_thread::sleep_until(end);
        check(std::chrono::steady_clock::now() >= end, "sleep_until returned too early");
    }
    holds();
}
''')

seed("single-threaded-notifies-early", "C30",
 "a thread waiting on a group that another thread executes single-threaded, released in the middle of the group's completion",
 "executeSingleThreaded releases the waiters of a group before flagging it done and before its post-execution hook",
 [(G + "task_group.hpp", """            executeSingleThreadedImpl();
            _GroupContext::group_onPostExecute();

            task_base::setDone();
            notifier_type::notify();""", """            executeSingleThreadedImpl();
            notifier_type::notify();
            _GroupContext::group_onPostExecute();

            task_base::setDone();""")], r'''
#include "demo.h"
static std::atomic<int> hook{0};
struct SlowContext : oqpi::group_context_base {
    SlowContext(oqpi::task_group_base *g, const std::string &name) : oqpi::group_context_base(g, name) {}
    void onPostExecute() { std::this_thread::sleep_for(300ms); hook = 1; }
};
int main() {
    Sched s;
    auto g = oqpi::make_parallel_group<task_type::waitable, oqpi::group_context_container<SlowContext>>(s, "g", task_priority::normal, 2);
    for (int k = 0; k < 2; ++k) g->addTask(item([] {}));
    task_handle h(g); bool done = false; int seen = 0;
    std::thread w([&] { h.wait(); done = h.isDone(); seen = hook; });
    task_handle h2(g); h2.executeSingleThreaded();
    w.join();
    check(done && seen == 1, "a waiter was released before the group was done");
    holds();
}
''', also=())

seed("workers-count-per-config", "C32",
 "a worker configuration with a count above one",
 "workersCount() counts worker configurations instead of workers",
 [(G + "scheduler.hpp", "workersPerPrio_[prio] += config.count;", "++workersPerPrio_[prio];")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 3); addWorkers(s, 2, int(oqpi::worker_priority::wprio_any_normal), "n");
    check(s.workersTotalCount() == 5 && s.workersCount(task_priority::low) == 3 && s.workersCount(task_priority::normal) == 5, "wrong number of workers");
    holds();
}
''')

seed("uid-load-store", "C33",
 "two threads creating tasks at the same time",
 "identifiers are generated by a load and a store instead of one atomic step: concurrently created tasks can share an identifier",
 [(G + "task_base.hpp", "            return uid_generator.fetch_add(1);", """            const auto uid = uid_generator.load();
            uid_generator.store(uid + 1);
            return uid;""")], r'''
#include "demo.h"
#include <unordered_set>
int main() {
    const int n = 30000;
    for (int r = 0; r < 20; ++r) {
        std::vector<uint64_t> ids[2]; Rendezvous meet;
        auto run = [&](int k) { ids[k].reserve(n); for (int i = 0; i < n; ++i) { if (i % 16 == 0) meet(i / 16); ids[k].push_back(item([] {}).getUID()); } };
        std::thread a(run, 0), b(run, 1); a.join(); b.join();
        std::unordered_set<uint64_t> all(ids[0].begin(), ids[0].end()); all.insert(ids[1].begin(), ids[1].end());
        check(all.size() == 2 * size_t(n), "two tasks have the same identifier");
    }
    holds();
}
''')

seed("for-each-drops-priority", "C31",
 "helpers::parallel_for_each with a priority other than the default",
 "the parallel_for_each overload with user-defined contexts runs at the default priority instead of the requested one",
 [("scheduling_helpers.hpp", """            self_type::parallel_for<_GroupContext, _TaskContext>(name, partitioner, prio,
                [&container, func = std::forward<_Func>(func)](int32_t elementIndex)""", """            self_type::parallel_for<_GroupContext, _TaskContext>(name, partitioner, default_priority,
                [&container, func = std::forward<_Func>(func)](int32_t elementIndex)""")], r'''
#include "demo.h"
// Workers report the priority of the tasks they execute
static std::atomic<int> low{0}, other{0};
struct Ctx : oqpi::worker_context_base {
    Ctx(oqpi::worker_base *w) : oqpi::worker_context_base(w) {}
    void onPreExecute(const task_handle &h) { (h.getPriority() == task_priority::low ? low : other)++; }
};
struct TCtx : oqpi::task_context_base {
    oqpi::task_base *t;
    TCtx(oqpi::task_base *t, const std::string &n) : oqpi::task_context_base(t, n), t(t) {}
    void onPreExecute() { (t->getPriority() == task_priority::low ? low : other)++; }
};
using H = oqpi::helpers<>;
int main() {
    H::start_default_scheduler(2);
    std::vector<std::atomic<int>> v(20);
    H::parallel_for_each<NoGC, oqpi::task_context_container<TCtx>>("pfe", v, oqpi::simple_partitioner(20, 4), task_priority::low, [](std::atomic<int> &x) { x++; });
    for (auto &x : v) check(x == 1, "elements not visited once");
    check(low > 0 && other == 0, "parallel_for_each ran at another priority than the requested one");
    H::stop_scheduler();
    holds();
}
''')

X = "synchronization/posix/"

seed("idle-timeout-in-seconds", "C16",
 "waiting for idleness with a maximum that is not a whole number of seconds",
 "waitUntilIdle compares the elapsed time and the maximum in whole seconds: a wait with a maximum below one second gives up at once although the scheduler becomes idle in time",
 [(G + "scheduler.hpp", "                if (std::chrono::high_resolution_clock::now() - then > maxWaitTime)", """                const auto elapsed = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::high_resolution_clock::now() - then);
                if (elapsed >= std::chrono::duration_cast<std::chrono::seconds>(maxWaitTime))""")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 1); s.start();
    std::atomic<bool> done{false};
    auto h = item([&] { std::this_thread::sleep_for(50ms); done = true; });
    s.add(task_handle(h));
    s.waitUntilIdle(1ms, 900ms);
    check(done, "waitUntilIdle gave up before its time");
    s.stop();
    holds();
}
''')

seed("zero-wait-peeks", "C20",
 "waiting on a signalled auto-reset event with a duration of zero",
 "a wait of zero duration answers from the state of the event without consuming the signal: one notification releases several waits",
 [(X + "posix_event.hpp", """            if (!sem_.waitFor(relTime))
            {
                return false;
            }
""", """            // Polling does not need the kernel
            if (!(relTime > relTime.zero() ? sem_.waitFor(relTime) : sem_.getValue() > 0))
            {
                return false;
            }
""")], r'''
#include "demo.h"
int main() {
    oqpi::auto_reset_event_interface<> e;
    e.notify();
    check(e.waitFor(0ms), "a signalled event did not release the wait");
    check(!e.waitFor(0ms), "one notification released two waits");
    e.notify();
    check(e.waitFor(1ms) && !e.waitFor(0ms), "one notification released two waits");
    holds();
}
''')

seed("name-truncated", "C23",
 "two named objects whose long names differ only near the end",
 "names of named semaphores are cut after 30 characters: objects with different long names are the same object",
 [(X + "posix_semaphore_wrapper.hpp", """            , name_(name.empty() ? "" : "/" + name)""", """            , name_(name.empty() ? "" : "/" + name.substr(0, 30))""")], r'''
#include "demo.h"
using GSema = oqpi::semaphore_interface<oqpi::global_sync_object>;
int main() {
    const auto p = "oqpi_demo_" + std::to_string(getpid()) + std::string(40, 'x');
    GSema a(p + "a", oqpi::sync_object_creation_options::create_if_nonexistent, 1), b(p + "b", oqpi::sync_object_creation_options::create_if_nonexistent, 0);
    check(a.isValid() && b.isValid(), "two objects of different names could not be created");
    check(!b.tryWait() && a.tryWait(), "objects of different names share their count");
    holds();
}
''')

seed("wait-polls-with-sleep", "C25",
 "a signal delivered to a thread during a timed wait on an event",
 "timed waits on events poll with short sleeps and give up when a sleep is interrupted by a signal",
 [(X + "posix_event.hpp", """            if (!sem_.waitFor(relTime))
            {
                return false;
            }
""", """            const auto end = std::chrono::steady_clock::now() + relTime;
            auto step      = timespec{ 0, 1000000 };
            while (!sem_.tryWait())
            {
                if (std::chrono::steady_clock::now() >= end || nanosleep(&step, nullptr) != 0)
                {
                    return false;
                }
            }
""")], r'''
#include "demo.h"
#include <csignal>
#include <sys/time.h>
int main() {
    watchdog(60s, "the wait hangs");
    struct sigaction sa{}; sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, nullptr);
    oqpi::auto_reset_event_interface<> e;
    sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM);
    std::thread t([&] { std::this_thread::sleep_for(600ms); e.notify(); });
    pthread_t me = pthread_self();
    std::thread k([&] { for (int i = 0; i < 100; ++i) { std::this_thread::sleep_for(3ms); pthread_kill(me, SIGALRM); } });
    const bool got = e.waitFor(20s);
    t.join(); k.join();
    check(got, "an interrupted wait gave up before its time");
    holds();
}
''')

seed("launcher-leaked", "C26",
 "a callable or arguments with a destructor",
 "the callable and the arguments of a thread are never destroyed",
 [("threading/posix_thread.hpp", "                    (*upLauncher)();", "                    (*upLauncher.release())();")], r'''
#include "demo.h"
int main() {
    auto p = std::make_shared<int>(0);
    { Thread t("t", [p](const std::shared_ptr<int> &q) { ++*q; }, p); t.join(); }
    check(*p == 1, "the callable did not run");
    check(p.use_count() == 1, "the argument of a joined thread still lives");
    holds();
}
''')

seed("affinity-inherited", "C27",
 "a thread with the default affinity created by a thread restricted to some cores",
 "the affinity is not set when all cores are asked for: the thread inherits the restriction of its creator",
 [("threading/posix_thread.hpp", "            setCoreAffinityMask(attributes.coreAffinityMask_);\n\n            return true;", """            if (attributes.coreAffinityMask_ != core_affinity::all_cores)
            {
                setCoreAffinityMask(attributes.coreAffinityMask_);
            }

            return true;""")], r'''
#include "demo.h"
#include <sched.h>
int main() {
    cpu_set_t all; CPU_ZERO(&all); sched_getaffinity(0, sizeof(all), &all);
    if (CPU_COUNT(&all) < 2) holds();
    int core = 0; while (!CPU_ISSET(core, &all)) ++core;
    cpu_set_t one; CPU_ZERO(&one); CPU_SET(core, &one);
    check(pthread_setaffinity_np(pthread_self(), sizeof(one), &one) == 0, "cannot restrict the creator");
    int n = 0; std::atomic<bool> go{false};
    Thread t("t", [&] { while (!go) std::this_thread::sleep_for(1ms); cpu_set_t s; CPU_ZERO(&s); pthread_getaffinity_np(pthread_self(), sizeof(s), &s); n = CPU_COUNT(&s); });
    go = true; t.join();
    check(n > 1, "a thread for all cores is restricted to those of its creator");
    holds();
}
''')

seed("shared-report-buffer", "C34",
 "two checks failing in different threads at the same time",
 "failure reports are formatted in a buffer shared by all threads: the messages of concurrent failures mix",
 [("error_handling.hpp", "        thread_local static char formattedMessage[bufferSize];", "        static char formattedMessage[bufferSize];")], r'''
#include "demo.h"
#include <csignal>
#include <iostream>
#include <sstream>
// Collects what is printed, per thread
struct Buf : std::streambuf {
    static std::string &mine() { thread_local std::string s; return s; }
    int overflow(int c) override { mine() += char(c); return c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { mine().append(p, size_t(n)); return n; }
};
int main() {
    watchdog(60s, "hang");
    signal(SIGTRAP, [](int) {});
    static Buf b; std::cout.rdbuf(&b);
    std::atomic<bool> bad{false}, done{false};
    Rendezvous meet;
    auto run = [&](int k) {
        const std::string text(200, char('a' + k));
        for (int i = 0; i < 20000 && !bad; ++i) {
            if (i % 50 == 0) meet(i / 50);
            Buf::mine().clear();
            oqpi::assert_function("f", k, "x", "%d%s", i, text.c_str());
            if (Buf::mine().find(std::to_string(i) + text) == std::string::npos) bad = true;
        }
        done = true;
    };
    std::thread x(run, 0);
    std::thread y([&] { run(1); });
    for (int n = 0; n < 5000 && !bad && !done; ++n) std::this_thread::sleep_for(1ms);
    check(!bad, "the report of a failed check holds the message of another thread");
    holds();
}
''')

seed("layer-bypassed", "C35",
 "a semaphore with an augmentation layer polled with tryWait",
 "tryWait of a layered semaphore calls the implementation directly, so the layer never sees it",
 [("synchronization/interface/interface_semaphore.hpp", "{ return base_type::tryWait();          }", "{ return semaphore_impl::tryWait();     }")], r'''
#include "demo.h"
static int seen = 0;
template <class B> struct L : oqpi::local_sync_object<B> {
    template <class... A> L(A &&...a) : oqpi::local_sync_object<B>(std::forward<A>(a)...) {}
    bool tryWait() { ++seen; return B::tryWait(); }
};
int main() {
    oqpi::semaphore_interface<L> s(1);
    check(s.tryWait() && seen == 1, "the layer of a semaphore does not see tryWait");
    holds();
}
''')

seed("active-count-16-bits", "C05",
 "a parallel group of more than 65535 tasks",
 "the number of tasks still to complete is kept in 16 bits: a group of 65600 tasks is complete after 64 of them",
 [(G + "parallel_group.hpp", "        std::atomic<size_t>         activeTasksCount_;", "        std::atomic<uint16_t>       activeTasksCount_;")], r'''
#include "demo.h"
int main() {
    watchdog(120s, "the group never completes");
    const int n = 65600;
    Sched s; addWorkers(s, 2); s.start();
    std::atomic<int> ran{0};
    auto g = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "g", task_priority::normal, n);
    for (int i = 0; i < n; ++i) g->addTask(item([&] { ran.fetch_add(1); }));
    s.add(task_handle(g)).wait();
    check(ran.load() == n, "the group completed before its children");
    s.stop();
    holds();
}
''', also=("C02",))

seed("wakes-sixteen-workers", "C03",
 "more than 16 workers, all but the last of them busy",
 "add() stops after 16 notifications: with 16 busy workers in front, idle workers are never told and the task waits for one of the busy ones",
 [(G + "scheduler.hpp", """            for (auto &upWorker : workers_)
            {
                if (upWorker->canWorkOnPriority(prio))
                {
                    upWorker->notify();
                }
            }""", """            // A bounded number of wake ups per task is enough to get it picked up
            auto wakeUps = 16;
            for (auto &upWorker : workers_)
            {
                if (wakeUps > 0 && upWorker->canWorkOnPriority(prio))
                {
                    upWorker->notify();
                    --wakeUps;
                }
            }""")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "a submitted task was never executed although a worker is idle");
    const int n = 18;
    Sched s; addWorkers(s, n); s.start();
    std::this_thread::sleep_for(200ms);
    // They meet: each of them needs all the others
    std::atomic<int> here{0};
    for (int i = 0; i < n; ++i) s.add(task([&] { here.fetch_add(1); while (here.load() < n) std::this_thread::sleep_for(1ms); }));
    check(eventually([&] { return here.load() == n; }, 20s), "a submitted task was never executed although a worker is idle");
    s.stop();
    holds();
}
''')

seed("backlog-dropped-on-stop", "C09",
 "stopping the scheduler with more than 64 pending tasks and starting it again",
 "stop() throws away large backlogs: the tasks are not executed after the restart",
 [(G + "scheduler.hpp", """            for (auto &upWorker : workers_)
            {
                upWorker->join();
            }""", """            for (const auto &upWorker : workers_)
            {
                upWorker->join();
            }

            // Don't hold on to the memory of a large backlog
            if (unfinishedTasks_.load() > 64)
            {
                task_handle hTask;
                for (auto &tasks : pendingTasks_)
                {
                    while (tasks.tryPop(hTask))
                    {
                        unfinishedTasks_.fetch_sub(1);
                    }
                }
            }""")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "hang");
    Sched s; addWorkers(s, 1); s.start();
    std::atomic<bool> busy{false}, go{false}; std::atomic<int> ran{0};
    s.add(task([&] { busy = true; while (!go) std::this_thread::sleep_for(1ms); }));
    check(eventually([&] { return busy.load(); }), "not started");
    const int n = 100;
    for (int i = 0; i < n; ++i) s.add(item([&] { ran.fetch_add(1); }));
    std::thread stopper([&] { s.stop(); });
    std::this_thread::sleep_for(200ms);
    go = true; stopper.join();
    s.start();
    check(eventually([&] { return ran.load() == n; }), "tasks were lost when the scheduler was stopped");
    s.stop();
    holds();
}
''', also=("C01",))

seed("timeout-32-bits", "C22",
 "a timed wait for more than 24.8 days",
 "the timeout is computed in 32-bit milliseconds: waits of a month return at once without the object",
 [(SEM + "posix_semaphore_wrapper.hpp", "            auto nanoseconds    = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime);", """            // Finer than a millisecond matters only for short waits
            const auto millis   = int32_t(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
            auto nanoseconds    = (relTime < std::chrono::seconds(1))
                ? std::chrono::duration_cast<std::chrono::nanoseconds>(relTime)
                : std::chrono::nanoseconds(std::chrono::milliseconds(millis));""")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "hang");
    Sema sem(0);
    std::thread t([&] { std::this_thread::sleep_for(300ms); sem.notifyOne(); });
    const bool got = sem.waitFor(std::chrono::hours(24 * 30));
    t.join();
    check(got, "a wait for 30 days timed out at once");
    holds();
}
''')

seed("worker-zero-unnumbered", "C32",
 "a configuration shared by several workers, looking at the first one",
 "the first worker of a configuration is started under the bare name of the configuration, without its index",
 [(G + "worker.hpp", "            if (id_ >= 0)\n", "            if (id_ > 0)\n")], r'''
#include "demo.h"
#include <set>
#include <pthread.h>
static std::mutex mx; static std::set<std::string> names;
struct Ctx : oqpi::worker_context_base {
    Ctx(oqpi::worker_base *o) : oqpi::worker_context_base(o) {}
    void onStart() { char b[64] = ""; pthread_getname_np(pthread_self(), b, sizeof(b)); std::lock_guard<std::mutex> l(mx); names.insert(b); }
};
int main() {
    Sched s; oqpi::worker_config c; c.threadAttributes.name_ = "pool"; c.count = 3;
    s.registerWorker<Thread, Sema, oqpi::worker_context_container<Ctx>>(c);
    s.start();
    check(eventually([&] { std::lock_guard<std::mutex> l(mx); return names.size() == 3; }), "three workers with distinct names");
    s.stop();
    check(names.count("pool0") && names.count("pool1") && names.count("pool2"), "a worker is not named after its configuration and index");
    holds();
}
''', also=("C27",))

seed("workers-counted-globally", "C32",
 "two schedulers in one process",
 "the per-priority worker counts are shared by all schedulers: registering workers with one changes what the other reports, creating one resets them",
 [(G + "scheduler.hpp", "        int32_t                     workersPerPrio_[PRIO_COUNT];", "        static inline int32_t       workersPerPrio_[PRIO_COUNT] = {};")], r'''
#include "demo.h"
int main() {
    Sched a; addWorkers(a, 2);
    Sched b; addWorkers(b, 3, int(oqpi::worker_priority::wprio_low));
    check(a.workersCount(task_priority::low) == 2 && a.workersCount(task_priority::high) == 2, "the workers of another scheduler are counted");
    check(b.workersCount(task_priority::low) == 3 && b.workersCount(task_priority::high) == 0, "the workers of another scheduler are counted");
    holds();
}
''')

seed("scan-resumes-where-it-stopped", "C07",
 "a worker that executed a low priority task last and finds both a low and a high priority task",
 "a worker goes on with the queue it took its last task from before looking at the higher ones",
 [(G + "scheduler.hpp", """                for (auto prio = 0; prio < PRIO_COUNT; ++prio)
                {
                    if (w.canWorkOnPriority(task_priority(prio)))""", """                // Start where this worker found its last task, its siblings are likely to be there
                static thread_local auto lastPrio = 0;
                for (auto n = 0; n < PRIO_COUNT; ++n)
                {
                    const auto prio = (lastPrio + n) % PRIO_COUNT;
                    if (w.canWorkOnPriority(task_priority(prio)))"""),
  (G + "scheduler.hpp", """                                // We got the go to start working on the current task
                                return true;""", """                                // We got the go to start working on the current task
                                lastPrio = prio;
                                return true;""")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "hang");
    Sched s; addWorkers(s, 1); s.start();
    std::atomic<bool> busy{false}, go{false}, bad{false}, high{false}; std::atomic<int> left{2};
    s.add(task([&] { busy = true; while (!go) std::this_thread::sleep_for(1ms); }, task_priority::low));
    check(eventually([&] { return busy.load(); }), "not started");
    s.add(task([&] { if (!high) bad = true; --left; }, task_priority::low));
    s.add(task([&] { high = true; --left; }, task_priority::high));
    go = true;
    check(eventually([&] { return left.load() == 0; }), "not executed");
    check(!bad, "a low priority task was executed before a high priority one");
    s.stop();
    holds();
}
''')

seed("done-means-grabbed", "C33",
 "a group completed by activeWait without a worker ever picking up the group itself",
 "isDone() also asks for the grab token: a group whose children were all executed by activeWait never reports to be done",
 [(G + "task_base.hpp", "            return done_.load();", "            // Only what has been grabbed can have been executed\n            return grabbed_.load() && done_.load();")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "hang");
    Sched s; addWorkers(s, 1); s.start();
    std::atomic<bool> busy{false}, go{false};
    s.add(task([&] { busy = true; while (!go) std::this_thread::sleep_for(1ms); }));
    check(eventually([&] { return busy.load(); }), "not started");
    auto g = oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "g", task_priority::normal);
    int n = 0; for (int i = 0; i < 3; ++i) g->addTask(item([&] { ++n; }));
    task_handle h = s.add(task_handle(g));
    h.activeWait();
    const bool done = h.isDone();
    go = true;
    check(n == 3 && done, "a group that was waited for is not done");
    s.stop();
    holds();
}
''', also=("C05",))

seed("arguments-by-reference", "C12",
 "a task given a variable that changes before the task runs",
 "arguments given as lvalues are bound by reference instead of being copied: the task sees what became of them",
 [(G + "task.hpp", "args = std::make_tuple(std::forward<_Args>(args)...)] () mutable", "args = std::tuple<_Args...>(std::forward<_Args>(args)...)] () mutable")], r'''
#include "demo.h"
int main() {
    int v = 1, seen = 0;
    auto t = oqpi::make_task<task_type::waitable, Event, NoTC>("t", task_priority::normal, [&](int x) { seen = x; }, v);
    v = 2;
    task_handle h(t); check(h.tryGrab(), "grab"); h.execute();
    check(seen == 1, "an argument changed after the task was created");
    holds();
}
''', also=("C31",))

seed("notify-count-16-bits", "C18",
 "one notification of 32768 or more units",
 "notify(count) counts in 16 bits: large notifications are lost",
 [(SEM + "posix_semaphore.hpp", "            for(auto i = 0; i < count; ++i)", "            for(int16_t i = 0, n = int16_t(count); i < n; ++i)")], r'''
#include "demo.h"
int main() {
    Sema s(0);
    s.notify(40000);
    int n = 0; while (s.tryWait()) ++n;
    check(n == 40000, "a semaphore lost notifications");
    holds();
}
''')

seed("context-not-moved", "C37",
 "a task assigned over another task, with a context that has a state",
 "move assignment of a task leaves the context of the task that was there",
 [(G + "task.hpp", "                _TaskContext::operator =(std::move(rhs));\n", "")], r'''
#include "demo.h"
struct Named : oqpi::task_context_base {
    std::string name; std::string *out;
    static std::string ran;
    Named(oqpi::task_base *o, const std::string &n) : oqpi::task_context_base(o, n), name(n) {}
    void onPreExecute() { ran += name; }
};
std::string Named::ran;
int main() {
    using TC = oqpi::task_context_container<Named>;
    std::function<void()> f = [] {};
    using T = oqpi::task<task_type::waitable, Event, TC, std::function<void()>>;
    T a("a", task_priority::normal, f);
    T b = std::move(a);
    alignas(T) static unsigned char mem[sizeof(T)];
    T *c = new (mem) T("c", task_priority::normal, f);
    *c = std::move(b);
    check(c->tryGrab(), "grab"); c->execute();
    check(Named::ran == "a", "a moved task runs with the context of another one");
    holds();
}
''')

seed("unlock-failure-hidden", "C36",
 "a semaphore operation that the system refuses",
 "the failure of a post is not reported any more: only one kind of error is",
 [(SEM + "posix_semaphore_wrapper.hpp", """            auto error = sem_post(handle_);
            if (error == -1)""", """            auto error = sem_post(handle_);
            if (error == -1 && errno == EINVAL)""")], r'''
#include "demo.h"
#include <cstring>
#include <climits>
// A semaphore whose count cannot grow
int main() {
    char path[] = "/tmp/demo-XXXXXX"; const int f = mkstemp(path); check(f >= 0, "file"); unlink(path);
    fflush(stderr); const int err = dup(2); dup2(f, 2);
    { Sema s(INT_MAX); s.notifyOne(); }
    fflush(stderr); dup2(err, 2);
    check(lseek(f, 0, SEEK_END) > 0, "a refused notification is not reported");
    holds();
}
''')

seed("stop-rotates-the-queues", "C07",
 "stopping the scheduler while several tasks of a priority are queued, then starting it again",
 "stop looks for a stale entry at the head of each queue and puts what it found back at the end",
 [(G + "scheduler.hpp", """            running_.store(false);

            wakeUpAllWorkers();""", """            const auto wasRunning = running_.exchange(false);
            for (auto &queue : pendingTasks_)
            {
                task_handle hTask;
                if (wasRunning && queue.tryPop(hTask))
                {
                    if (hTask.isDone())
                        unfinishedTasks_.fetch_sub(1);
                    else
                        queue.push(std::move(hTask));
                }
            }

            wakeUpAllWorkers();""")], r'''
#include "demo.h"
int main() {
    watchdog(60s, "timeout");
    Sched s; addWorkers(s, 1);
    std::string order; std::atomic<int> n{0};
    s.start(); s.stop();
    for (char c : {'a', 'b', 'c'}) s.add(task([&, c] { order += c; ++n; }));
    s.start(); check(eventually([&] { return n == 3; }), "tasks are lost"); s.stop();
    check(order == "abc", "order");
    // left behind by a stop
    std::atomic<bool> go{false}, in{false};
    s.start();
    s.add(task([&] { in = true; while (!go) std::this_thread::yield(); }));
    check(eventually([&] { return in.load(); }), "not executed");
    for (char c : {'d', 'e', 'f'}) s.add(task([&, c] { order += c; ++n; }));
    std::thread t([&] { s.stop(); });
    std::this_thread::sleep_for(300ms); go = true; t.join();
    s.start(); check(eventually([&] { return n == 6; }), "tasks are lost"); s.stop();
    check(order == "abcdef", "the tasks a stop left behind are executed in another order");
    holds();
}
''')

seed("groups-numbered-separately", "C33",
 "more than 65536 tasks in a process, and groups",
 "groups take their identifiers from a counter of their own, which tasks reach in the end",
 [(G + "task_group_base.hpp", """            : task_base(priority)
        {}""", """            : task_base(priority)
        {
            static std::atomic<task_uid> groups(1ull << 16);
            uid_ = groups.fetch_add(1);
        }""")], r'''
#include "demo.h"
#include <set>
int main() {
    Sched s; std::set<oqpi::task_uid> ids;
    std::vector<task_handle> groups;
    for (int i = 0; i < 10; ++i) { groups.push_back(task_handle(oqpi::make_parallel_group<task_type::waitable, NoGC>(s, "g", task_priority::normal))); check(ids.insert(groups.back().getUID()).second, "two groups have the same identifier"); }
    for (int i = 0; i < 70000; ++i) check(ids.insert(item([] {}).getUID()).second, "a task has the identifier of a group");
    holds();
}
''')

seed("equal-configuration-ignored", "C32",
 "registering two equal configurations of one worker",
 "a configuration of a single worker that is registered already is taken for the same one",
 [(G + "scheduler.hpp", """            for (int prio = 0; prio < PRIO_COUNT; ++prio)
            {
                if (can_work""", """            bool known = false;
            for (const auto &w : workers_)
            {
                const auto &other = w->getConfig();
                known = known || (config.count == 1 && other.threadAttributes.name_ == config.threadAttributes.name_ && other.workerPrio == config.workerPrio);
            }
            for (int prio = 0; prio < PRIO_COUNT && !known; ++prio)
            {
                if (can_work"""),
  (G + "scheduler.hpp", "            for (int i = 0; i < config.count; ++i)\n            {\n                workers_.emplace_back", "            for (int i = 0; i < config.count && !known; ++i)\n            {\n                workers_.emplace_back")], r'''
#include "demo.h"
int main() {
    Sched s; addWorkers(s, 1, int(oqpi::worker_priority::wprio_any), "io"); addWorkers(s, 1, int(oqpi::worker_priority::wprio_any), "cpu"); addWorkers(s, 2, int(oqpi::worker_priority::wprio_any), "io");
    check(s.workersTotalCount() == 4, "count");
    addWorkers(s, 1, int(oqpi::worker_priority::wprio_any), "io");
    check(s.workersTotalCount() == 5 && s.workersCount(task_priority::normal) == 5, "a worker that was registered is missing");
    holds();
}
''')
