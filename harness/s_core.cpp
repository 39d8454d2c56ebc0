// C01-C03: every submitted task runs exactly once, waits are sound, nothing is lost.
#include "drive.h"
#include "volume.h"
using namespace hv;

VT_SCENARIO(C01, graph, 4) {
    GraphOpts o; Graph g(o);
    auto w = genWorkers(3, 4);
    g.generate(1, 5); g.describe();
    drive(g, w, Ops{}, false);
}
VT_SCENARIO(C01, two_schedulers, 2) { // tasks and groups of two or three schedulers, submitted to any of them
    GraphOpts o; o.scheds = vt::range(2, 3); Graph g(o);
    driveTwo(g, Ops{}, false);
}
VT_SCENARIO(C01, any_queue, 2) { // the guarantee does not depend on the order in which the queue hands tasks out
    GraphOpts o; GraphT<BagSched> g(o);
    auto w = genWorkers(3, 4);
    g.generate(1, 5); g.describe(); vt::label("unordered-queue");
    drive(g, std::vector<WorkerGen>{w}, Ops{}, false);
}
VT_SCENARIO(C01, layers, 1) { // threads, semaphores and events with layers of their own
    GraphOpts o; o.maxNodes = 10; LayeredGraph g(o);
    auto w = genWorkers(3, 4);
    g.generate(1, 5); g.describe(); vt::label("layered");
    drive(g, std::vector<WorkerGen>{w}, Ops{}, false);
}
VT_SCENARIO(C01, storm, 3) { // many submissions and actively waiting callers on few plain tasks
    GraphOpts o; o.groups = false; o.maxNodes = 3; o.nested = false; o.ff = false; Graph g(o);
    auto w = plainWorkers(sized(1, 3, 12));
    g.generate(1, 3); g.describe();
    auto s = std::make_unique<Sched>(); registerAll(*s, w); g.buildAll(*s); s->start();
    Clients c;
    int n = sized(1, 3, 12);
    std::vector<std::vector<int>> plan(n);
    for (auto &p : plan) { int k = sized(1, 5, 40); for (int i = 0; i < k; ++i) p.push_back((int)vt::pick(2) * 100 + (int)vt::pick((uint32_t)g.roots.size())); }
    vt::describe("plans:");
    for (auto &p : plan) { vt::describe(" ["); for (int a : p) vt::describe("%s%d ", a >= 100 ? "aw" : "add", a % 100); vt::describe("]"); }
    for (auto &p : plan) c.add([&g, &s, &p] { for (int a : p) { auto &nd = *g.roots[a % 100]; if (a >= 100) { task_handle h = nd.h; s->add(h); h.activeWait(); } else s->add(nd.h); } });
    for (auto &r : g.roots) s->add(r->h);
    c.join();
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
    vt::nontrivial(n > 1 || w.total > 1);
    s->stop();
}

VT_SCENARIO(C01, volume, 1) { volume<Sched>(0xff, false, 70000); }

// ------------------------------------------------------------------------------------------- C02
VT_SCENARIO(C02, graph, 4) {
    GraphOpts o; o.maxNodes = 10; Graph g(o);
    auto w = genWorkers(2, 3);
    vt::enableRaces(2);
    if (vt::chance(1, 2)) { vt::enableEintr(1 + vt::pick(300)); vt::describe("EINTR; "); vt::label("interrupted-waits"); }
    g.generate(1, 3); g.describe(); g.watchData();
    drive(g, w, Ops{}, true);
}
VT_SCENARIO(C02, two_schedulers, 2) {
    GraphOpts o; o.maxNodes = 8; o.scheds = 2; Graph g(o);
    vt::enableRaces(2);
    driveTwo(g, Ops{}, true);
}
VT_SCENARIO(C02, any_queue, 1) {
    GraphOpts o; o.maxNodes = 10; GraphT<BagSched> g(o);
    auto w = genWorkers(2, 3);
    vt::enableRaces(2);
    g.generate(1, 3); g.describe(); g.watchData();
    drive(g, std::vector<WorkerGen>{w}, Ops{}, true);
}
VT_SCENARIO(C02, layers, 1) { // threads, semaphores and events with layers of their own
    GraphOpts o; o.maxNodes = 10; LayeredGraph g(o);
    auto w = genWorkers(2, 3);
    vt::enableRaces(2);
    g.generate(1, 3); g.describe(); vt::label("layered");
    drive(g, std::vector<WorkerGen>{w}, Ops{}, true);
}
// several threads wait in every way for one task or group that is about to finish
VT_SCENARIO(C02, volume, 1) { volume<Sched>(0x7e, false, 70000); }
VT_SCENARIO(C02, waiters, 4) {
    GraphOpts o; o.maxNodes = 5; o.maxDepth = 2; o.ff = false; o.nested = false; o.prios = 1; Graph g(o);
    auto w = plainWorkers(sized(1, 2, 10));
    vt::enableRaces(2);
    if (vt::chance(1, 3)) { vt::enableEintr(1 + vt::pick(300)); vt::describe("EINTR; "); vt::label("interrupted-waits"); }
    g.generate(1, 1); g.describe(); g.watchData();
    auto s = std::make_unique<Sched>(); registerAll(*s, w); g.buildAll(*s); s->start();
    Node &r = *g.roots[0];
    int n = sized(1, 3, 24);
    std::vector<std::vector<int>> plan(n);
    vt::describe("waiters:");
    for (auto &p : plan) { int k = sized(1, 3, 12); vt::describe(" ["); for (int i = 0; i < k; ++i) { p.push_back((int)vt::pick(4)); static const char *nm[] = {"wait", "activeWait", "poll", "result"}; vt::describe("%s ", nm[p.back()]); } vt::describe("]"); }
    bool before = vt::chance(1, 2);
    if (before) s->add(r.h);
    Clients c;
    for (auto &p : plan) c.add([&r, &p] { for (int a : p) {
        task_handle h = r.h;
        if (a == 1 && r.kind != Seq) { h.activeWait(); Graph::checkCompleted(r, "activeWait"); }
        else if (a == 2) { for (int k = 0; k < 12 && !h.isDone(); ++k) vt::yield(); if (h.isDone()) { Graph::checkCompleted(r, "isDone"); if (r.result) VT_CHECK(r.result() == valueOf(r.id) + 1, "wrong-result", "getResult of a done task is wrong"); } continue; }
        else if (a == 3 && r.waitResult) { int64_t v = r.waitResult(); VT_CHECK(v == valueOf(r.id) + 1, "wrong-result", "waitForResult returned %lld", (long long)v); Graph::checkCompleted(r, "waitForResult"); }
        else { h.wait(); Graph::checkCompleted(r, "wait"); }
        VT_CHECK(h.isDone(), "not-done", "not done after a wait");
    } });
    if (!before) s->add(r.h);
    c.join();
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
    vt::nontrivial(n > 1 || plan[0].size() > 1);
    s->stop();
}

// ------------------------------------------------------------------------------------------- C03
VT_SCENARIO(C03, graph, 3) {
    GraphOpts o; o.maxNodes = 10; Graph g(o);
    auto w = genWorkers(3, 3);
    g.generate(1, 4); g.describe();
    drive(g, w, Ops{}, false);
}
VT_SCENARIO(C03, two_schedulers, 2) {
    GraphOpts o; o.maxNodes = 10; o.scheds = vt::range(2, 3); Graph g(o);
    driveTwo(g, Ops{}, false);
}
VT_SCENARIO(C03, any_queue, 1) {
    GraphOpts o; o.maxNodes = 10; GraphT<BagSched> g(o);
    auto w = genWorkers(3, 3);
    g.generate(1, 4); g.describe();
    drive(g, std::vector<WorkerGen>{w}, Ops{}, false);
}
VT_SCENARIO(C03, layers, 1) { // threads, semaphores and events with layers of their own
    GraphOpts o; o.maxNodes = 10; LayeredGraph g(o);
    auto w = genWorkers(3, 3);
    g.generate(1, 4); g.describe(); vt::label("layered");
    drive(g, std::vector<WorkerGen>{w}, Ops{}, false);
}
// workers that fall asleep while tasks are pushed
VT_SCENARIO(C03, wakeup, 4) {
    auto w = genWorkers(3, 3);
    auto s = std::make_unique<Sched>(); registerAll(*s, w);
    bool late = vt::chance(1, 4);
    if (!late) s->start();
    int n = sized(1, 3, 12);
    struct Step { int prio; bool wait, settle, active; };
    std::vector<std::vector<Step>> plan(n);
    int total = 0;
    vt::describe("clients:");
    for (auto &p : plan) {
        int k = sized(1, 4, 30); vt::describe(" [");
        for (int i = 0; i < k; ++i) { Step st{(int)vt::pick(5), vt::chance(1, 2), vt::chance(1, 5), vt::chance(1, 4)}; p.push_back(st); ++total; vt::describe("%d%s%s ", st.prio, st.wait ? (st.active ? "a" : "w") : "", st.settle ? "s" : ""); }
        vt::describe("]");
    }
    if (late) s->start();
    auto run = [&](std::vector<Step> &p) {
        for (auto &st : p) {
            auto h = task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority(st.prio), [] { vt::yield(); vt::cellAdd(C_SPARE, 1); }));
            s->add(h);
            if (st.settle) for (int i = 0; i < 8; ++i) vt::yield();
            if (st.wait) { if (st.active) h.activeWait(); else h.wait(); }
        }
    };
    Clients c;
    for (int i = 1; i < n; ++i) c.add([&, i] { run(plan[i]); });
    run(plan[0]);
    c.join();
    vt::settle();
    VT_CHECK(vt::cell(C_SPARE) == total, "lost-task", "%lld of %d tasks executed once everything had settled", (long long)vt::cell(C_SPARE), total);
    vt::nontrivial(total > 1);
    s->stop();
}
VT_SCENARIO(C03, volume, 1) { if (vt::chance(1, 3)) volume<BagSched>(0xff); else volume<Sched>(0xff, false, 70000); }
// tasks that block until a task they submitted has been executed, which is up to the remaining workers
VT_SCENARIO(C03, blocked, 3) {
    WorkerGen w; int n = sized(2, 4, 45);
    vt::describe("workers:");
    while (w.total < n) { oqpi::worker_config c; c.count = 1 + (int)vt::pick((uint32_t)(n - w.total)); c.threadAttributes.name_ = "w"; w.configs.push_back(c); w.total += c.count; vt::describe(" %d", c.count); }
    auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start();
    int chains = sized(1, 2, 5), extra = sized(0, 3, 40), left = n - 1; // at most n - 1 tasks block at the same time
    std::vector<std::vector<int>> prio((size_t)chains);
    for (auto &c : prio) { int k = std::min(left, n > 6 && vt::chance(1, 2) ? vt::range(1, n) : sized(1, 3, 12)); left -= k; vt::describe(" chain:"); for (int i = 0; k && i <= k; ++i) { c.push_back((int)vt::pick(5)); vt::describe("%d", c.back()); } }
    std::function<void(int, int)> link = [&](int c, int i) {
        vt::cellAdd(C_EXEC + c * 64 + i, 1);
        if (i + 1 >= (int)prio[(size_t)c].size()) return;
        auto h = task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority(prio[(size_t)c][(size_t)i + 1]), [&link, c, i] { link(c, i + 1); }));
        s->add(h); h.wait();
        VT_CHECK(vt::cell(C_EXEC + c * 64 + i + 1) == 1, "early-return", "a wait within a task returned before the task had been executed");
    };
    int settle = (int)vt::pick(3);
    if (settle == 2) vt::settle(); else if (settle) for (int i = 0; i < 20; ++i) vt::yield();
    std::vector<task_handle> hs;
    Clients cl;
    if (extra) cl.add([&] { for (int i = 0; i < extra; ++i) s->add(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("e", task_priority(i % 5), [i] { vt::cellAdd(C_EXEC + 400 + i, 1); }))); });
    for (int c = 0; c < chains; ++c) if (!prio[(size_t)c].empty()) { hs.push_back(task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("r", task_priority(prio[(size_t)c][0]), [&link, c] { link(c, 0); }))); s->add(hs.back()); }
    for (auto &h : hs) h.wait();
    cl.join();
    vt::settle();
    for (int c = 0; c < chains; ++c) for (size_t i = 0; i < prio[(size_t)c].size(); ++i) VT_CHECK(vt::cell(C_EXEC + c * 64 + (int)i) == 1, "lost-task", "task %zu of chain %d was executed %lld times", i, c, (long long)vt::cell(C_EXEC + c * 64 + (int)i));
    for (int i = 0; i < extra; ++i) VT_CHECK(vt::cell(C_EXEC + 400 + i) == 1, "lost-task", "extra task %d was executed %lld times", i, (long long)vt::cell(C_EXEC + 400 + i));
    vt::nontrivial();
    s->stop();
}
namespace {
// a fork-join recursion: every task submits its children and actively waits for them
void forkTask(Sched &s, int depth, int id) {
    vt::cellAdd(C_EXEC + id, 1);
    int what = (int)vt::cell(C_SPARE + id), kids = depth > 0 ? what & 3 : 0;
    if (!kids) { vt::yield(); return; }
    auto mk = [&s, depth, id](int k) { return [&s, depth, id, k] { forkTask(s, depth - 1, id * 4 + k + 1); }; };
    auto prio = task_priority(what >> 4 & 7);
    if (what & 8) {
        auto grp = oqpi::make_parallel_group<task_type::waitable, oqpi::empty_group_context>(s, "g", prio, kids, (what >> 7) & 3);
        for (int k = 0; k < kids; ++k) grp->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("t", prio, mk(k))));
        s.add(task_handle(grp)).activeWait();
    } else {
        std::vector<task_handle> hs;
        for (int k = 0; k < kids; ++k) hs.push_back(s.add(task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", prio, mk(k)))));
        for (auto &h : hs) h.activeWait();
    }
    for (int k = 0; k < kids; ++k) VT_CHECK(vt::cell(C_EXEC + id * 4 + k + 1) == 1, "early-return", "nested task executed %lld times after activeWait", (long long)vt::cell(C_EXEC + id * 4 + k + 1));
}
int genFork(int depth, int id) {
    int kids = depth > 0 ? (int)vt::pick(4) : 0;
    int what = kids | (int)vt::pick(2) << 3 | (int)vt::pick(5) << 4 | (int)vt::pick(4) << 7;
    vt::cellSet(C_SPARE + id, what);
    int n = 1;
    if (kids) { vt::describe("%s%d(", what & 8 ? "P" : "t", kids); for (int k = 0; k < kids; ++k) n += genFork(depth - 1, id * 4 + k + 1); vt::describe(")"); } else vt::describe(".");
    return n;
}
} // namespace
VT_SCENARIO(C03, forkjoin, 3) {
    auto w = genWorkers(2, 3);
    auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start();
    int depth = vt::range(1, 3); // ids: 4-ary heap, depth 3 -> < 85
    vt::describe("recursion: "); int n = genFork(depth, 0);
    auto h = task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("root", task_priority::normal, [&] { forkTask(*s, depth, 0); }));
    bool active = vt::chance(1, 3);
    s->add(h);
    if (active) h.activeWait(); else h.wait();
    int64_t total = 0; for (int i = 0; i < 4096; ++i) total += vt::cell(C_EXEC + i);
    VT_CHECK(total == n, "lost-task", "%lld of %d tasks executed", (long long)total, n);
    vt::nontrivial(n > 2);
    s->stop();
}
// Known finding: the only worker actively waits for a group that contains a group.
VT_SCENARIO(C03, known_nested_group, 0) {
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(1)); s->start();
    auto t = task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority::normal, [&] {
        auto grp = oqpi::make_parallel_group<task_type::waitable, oqpi::empty_group_context>(*s, "g", task_priority::normal, 1);
        auto seq = oqpi::make_sequence_group<task_type::fire_and_forget, oqpi::empty_group_context>(*s, "s", task_priority::normal);
        for (int k = 0; k < 2; ++k) seq->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("c", task_priority::normal, [] {})));
        grp->addTask(task_handle(seq));
        s->add(task_handle(grp)).activeWait();
    }));
    s->add(t).wait();
    s->stop();
}
