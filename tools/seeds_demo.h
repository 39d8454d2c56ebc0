// Helpers of the demonstrations.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <mutex>
#include <queue>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include "oqpi.hpp"

using namespace std::chrono_literals;
using oqpi::task_handle;
using oqpi::task_priority;
using oqpi::task_type;
using Thread = oqpi::thread_interface<>;
using Sema   = oqpi::semaphore_interface<>;
using Event  = oqpi::manual_reset_event_interface<>;
using NoTC   = oqpi::empty_task_context;
using NoGC   = oqpi::empty_group_context;
using Sched  = oqpi::scheduler<concurrent_queue>;

// Leaves without running destructors: the threads of the scheduler may be stuck.
[[noreturn]] inline void quit(int rc, const char *msg = "") { std::printf("%s\n", msg); std::fflush(stdout); _exit(rc); }
[[noreturn]] inline void broken(const char *msg) { quit(1, msg); }
[[noreturn]] inline void holds() { quit(0, "the property holds"); }
inline void check(bool ok, const char *msg) { if (!ok) broken(msg); }
// Waits for something to happen, for at most the given time
template <class F> bool eventually(F f, std::chrono::milliseconds max = 10s) {
    const auto end = std::chrono::steady_clock::now() + max;
    while (!f()) { if (std::chrono::steady_clock::now() > end) return false; std::this_thread::sleep_for(1ms); }
    return true;
}
// Ends the demonstration as broken if it hangs
inline void watchdog(std::chrono::seconds s, const char *msg) { std::thread([=] { std::this_thread::sleep_for(s); broken(msg); }).detach(); }
template <class S> void addWorkers(S &s, int n, int prio = int(oqpi::worker_priority::wprio_any), const char *name = "w") {
    oqpi::worker_config c; c.threadAttributes.name_ = name; c.workerPrio = oqpi::worker_priority(prio); c.count = n;
    s.template registerWorker<Thread, Sema>(c);
}
template <class F> task_handle task(F f, task_priority p = task_priority::normal) { return task_handle(oqpi::make_task<task_type::waitable, Event, NoTC>("t", p, std::move(f))); }
template <class F> task_handle item(F f, task_priority p = task_priority::normal) { return task_handle(oqpi::make_task<task_type::fire_and_forget, Event, NoTC>("t", p, std::move(f))); }
// Starts two threads as simultaneously as possible
struct Rendezvous {
    std::atomic<int> n{0};
    void operator()(int round) { n.fetch_add(1); while (n.load() < 2 * (round + 1)) {} }
};
