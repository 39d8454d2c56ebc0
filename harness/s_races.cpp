// C15: no data races inside the library, and the orderings users rely on. Every memory access of the
// library and of the scenarios takes part in happens-before race detection.
#include "drive.h"
#include "oqpi/threading/this_thread.hpp"
#include <list>
using namespace hv;
using oqpi::empty_task_context;
using oqpi::empty_group_context;

// ------------------------------------------------------------------------------------- scheduling
// The bodies write plain memory, successors in sequences and waiters read it.
VT_SCENARIO(C15, graph, 4) {
    GraphOpts o; o.maxNodes = 9; Graph g(o);
    auto w = genWorkers(2, 3);
    vt::enableRaces(1);
    g.readPrev = true;
    g.generate(1, 3); g.describe();
    drive(g, w, Ops{}, true);
}
// What a thread wrote before it submitted a task is read by the task, and the other way round after a wait.
VT_SCENARIO(C15, handover, 3) {
    vt::enableRaces(1);
    auto w = genWorkers(2, 3); int clients = vt::range(0, 2), per = sized(1, 3, 16);
    auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start();
    struct J { int how; task_priority p; std::vector<int> in, out; int yields; };
    std::vector<std::vector<J>> plan((size_t)clients + 1);
    for (auto &p : plan) { vt::describe(" ["); for (int i = 0; i < per; ++i) { J j; j.how = (int)vt::pick(8); j.p = task_priority(vt::pick(5)); j.yields = (int)vt::pick(3); vt::describe("%d", j.how); p.push_back(std::move(j)); } vt::describe("]"); }
    auto client = [&](std::vector<J> &js) {
        int acc = 7; // on the stack of the client
        for (auto &j : js) {
            j.in.assign(3, acc); j.out.assign(4, 0);
            J *q = &j; int *pa = &acc;
            auto part = [q, pa](int k) { for (int y = 0; y < q->yields; ++y) vt::yield(); VT_CHECK(q->in[0] == *pa && q->in[2] == *pa, "order", "a task does not see what was written before it was submitted"); q->out[(size_t)k] = *pa + k; };
            auto whole = [part] { for (int k = 0; k < 4; ++k) part(k); };
            auto leaf = [&](int k) { return task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("l", j.p, [part, k] { part(k); })); };
            switch (j.how) {
            case 0: s->add(task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("t", j.p, whole))).wait(); break;
            case 1: s->add(task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("t", j.p, whole))).activeWait(); break;
            case 2: { auto t = oqpi::make_task<task_type::waitable, Event, empty_task_context>("t", j.p, [whole, pa] { whole(); return *pa * 2; }); s->add(task_handle(t)); VT_CHECK(t->waitForResult() == acc * 2, "result", "wrong result"); break; }
            case 3: { auto h = s->add(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("t", j.p, whole))); while (!h.isDone()) vt::yield(); break; }
            case 4: case 5: { auto grp = oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "p", j.p, 4, j.how == 5 ? 2 : 0); for (int k = 0; k < 4; ++k) grp->addTask(leaf(k)); auto h = s->add(task_handle(grp)); if (j.how == 5 || j.yields) h.wait(); else h.activeWait(); break; }
            case 6: { auto seq = oqpi::make_sequence_group<task_type::waitable, empty_group_context>(*s, "q", j.p); auto sum = std::make_shared<int>(0);
                for (int k = 0; k < 4; ++k) seq->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("l", task_priority::inherit, [part, k, sum] { part(k); VT_CHECK(*sum == k, "order", "a task of a sequence does not see what its predecessors wrote"); ++*sum; })));
                s->add(task_handle(seq)).wait(); VT_CHECK(*sum == 4, "order", "a waiter does not see what the tasks of the sequence wrote"); break; }
            default: oqpi::parallel_for<Event, empty_group_context, empty_task_context>(*s, "pf", oqpi::atomic_partitioner(4, 1, 2), j.p, part); break;
            }
            for (int k = 0; k < 4; ++k) VT_CHECK(j.out[(size_t)k] == acc + k, "order", "a waiter does not see what the task wrote");
            acc += 3; // and it may write again
            j.in.clear(); j.out[0] = acc;
        }
    };
    { Clients c; for (size_t k = 1; k < plan.size(); ++k) c.add([&, k] { client(plan[k]); }); client(plan[0]); }
    vt::nontrivial(clients + per > 1);
}
// Diagnostics and state read from everywhere, restarts.
VT_SCENARIO(C15, lifecycle, 3) {
    vt::enableRaces(1);
    auto w = genWorkers(2, 3, false); int cycles = vt::range(1, 3), polls = vt::range(0, 2), watchers = vt::range(0, 2);
    auto s = std::make_unique<Sched>();
    using RW = RecWorker;
    bool rec = vt::chance(1, 2);
    for (auto &c : w.configs) { if (rec) s->registerWorker<Thread, Sema, RW>(c); else s->registerWorker<Thread, Sema>(c); }
    std::vector<int> data; data.assign(8, 0);
    int tasks = vt::range(1, 4); vt::describe("%d cycles, %d tasks, %d watchers polling %d times", cycles, tasks, watchers, polls);
    std::vector<std::vector<int>> prio((size_t)cycles); for (auto &p : prio) for (int i = 0; i < tasks; ++i) p.push_back((int)vt::pick(5));
    std::vector<int> when; for (int i = 0; i < cycles; ++i) when.push_back((int)vt::pick(3));
    for (int cyc = 0; cyc < cycles; ++cyc) {
        std::vector<task_handle> hs;
        for (int i = 0; i < tasks; ++i) hs.push_back(task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("t", task_priority(prio[(size_t)cyc][(size_t)i]), [&data, i] { ++data[(size_t)i]; vt::yield(); })));
        int wh = when[(size_t)cyc];
        if (wh == 0) for (auto &h : hs) s->add(h);
        s->start();
        {
            Clients c;
            for (int k = 0; k < watchers; ++k) c.add([&] { for (int p = 0; p < polls; ++p) { (void)s->isIdle(); (void)s->workersTotalCount(); (void)s->workersCount(task_priority::normal); for (auto &h : hs) { (void)h.isDone(); (void)h.isGrabbed(); (void)h.getUID(); (void)h.getPriority(); (void)h.getParentGroup(); } s->waitUntilIdle(std::chrono::microseconds(1), std::chrono::microseconds(3)); vt::yield(); } });
            if (wh == 1) for (auto &h : hs) s->add(h);
            else if (wh == 2) c.add([&] { for (auto &h : hs) s->add(h); });
        }
        if (wh != 2 || watchers) for (auto &h : hs) h.wait(); else for (auto &h : hs) h.activeWait();
        for (int i = 0; i < tasks; ++i) VT_CHECK(data[(size_t)i] == cyc + 1, "order", "a waiter does not see what the task wrote");
        s->stop();
    }
    s.reset();
    vt::nontrivial(cycles > 1 || tasks > 1 || watchers > 0);
}
// nested graphs with recording contexts; parents are read while children complete
VT_SCENARIO(C15, hooks, 2) {
    struct Ctx : oqpi::task_context_base { std::vector<int> v; Ctx(oqpi::task_base *o, const std::string &n) : oqpi::task_context_base(o, n) { v.push_back((int)n.size()); } void onAddedToGroup(const oqpi::task_group_sptr &g) { v.push_back((int)g->getPriority()); } void onPreExecute() { v.push_back(1); } void onPostExecute() { v.push_back((int)owner()->getPriority()); } };
    struct GCtx : oqpi::group_context_base { std::list<uint64_t> v; GCtx(oqpi::task_group_base *o, const std::string &n) : oqpi::group_context_base(o, n) {} void onTaskAdded(const task_handle &h) { v.push_back(h.getUID()); } void onPreExecute() { v.push_back(1); } void onPostExecute() { v.push_back(2); } };
    GraphOpts o; o.maxNodes = 8; Graph g(o);
    auto w = genWorkers(2, 3);
    vt::enableRaces(1);
    g.generate(1, 2); g.describe();
    int observers = vt::range(0, 2);
    auto s = std::make_unique<Sched>(); registerAll(*s, w);
    g.buildAll<oqpi::task_context_container<Ctx>, oqpi::group_context_container<GCtx>>(*s);
    s->start();
    {
        Clients c;
        for (int k = 0; k < observers; ++k) c.add([&] { for (int r = 0; r < 2; ++r) { for (Node *n : g.all) { auto p = n->h.getParentGroup(); if (p) { (void)p->getUID(); (void)p->isDone(); (void)p->getParentGroup(); } (void)n->h.isDone(); } vt::yield(); } });
        for (auto &r : g.roots) s->add(r->h);
        for (auto &r : g.roots) if (r->waitable) { r->h.wait(); Graph::checkCompleted(*r, "wait"); }
    }
    for (int k = 0; k < 300; ++k) { bool all = true; for (Node *n : g.all) all &= n->h.isDone(); if (all) break; vt::settle(); vt::yield(); }
    s.reset();
    g.dropHandles();
    vt::nontrivial(g.all.size() > 1);
}
// tasks which create tasks, and loops, with memory shared only through these orderings
VT_SCENARIO(C15, nested, 2) {
    vt::enableRaces(1);
    int workers = vt::range(1, 3), depth = vt::range(1, 3), width = vt::range(1, 3); uint32_t how = vt::pick(4);
    vt::describe("%d workers, depth %d, width %d, how %u", workers, depth, width, how);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(workers)); s->start();
    std::function<int64_t(int, int)> tree = [&](int d, int seed) -> int64_t {
        if (d == 0) { vt::yield(); return seed; }
        std::vector<int64_t> sub((size_t)width, 0); int64_t *p = sub.data();
        if (how == 0) { std::vector<task_handle> hs; for (int k = 0; k < width; ++k) hs.push_back(s->add(task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("n", task_priority::normal, [&tree, p, k, d, seed] { p[k] = tree(d - 1, seed * 3 + k); })))); for (auto &h : hs) h.activeWait(); }
        else if (how == 1) { auto g = oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "g", task_priority::normal, width); for (int k = 0; k < width; ++k) g->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("n", task_priority::normal, [&tree, p, k, d, seed] { p[k] = tree(d - 1, seed * 3 + k); }))); s->add(task_handle(g)).activeWait(); }
        else if (how == 2) oqpi::parallel_for<Event, empty_group_context, empty_task_context>(*s, "pf", oqpi::simple_partitioner(width, workers + 1), task_priority::normal, [&tree, p, d, seed](int k) { p[k] = tree(d - 1, seed * 3 + k); });
        else oqpi::parallel_for<Event, empty_group_context, empty_task_context>(*s, "pf", oqpi::atomic_partitioner(width, 1, workers), task_priority::normal, [&tree, p, d, seed](int b, int k) { (void)b; p[k] = tree(d - 1, seed * 3 + k); });
        int64_t r = 0; for (int64_t v : sub) r += v; return r;
    };
    std::function<int64_t(int, int)> want = [&](int d, int seed) -> int64_t { if (d == 0) return seed; int64_t r = 0; for (int k = 0; k < width; ++k) r += want(d - 1, seed * 3 + k); return r; };
    int64_t got = tree(depth, 1);
    VT_CHECK(got == want(depth, 1), "order", "the sum is %lld instead of %lld", (long long)got, (long long)want(depth, 1));
    vt::nontrivial(true);
}

// -------------------------------------------------------------------------------- synchronization
namespace {
using GSema = oqpi::semaphore_interface<oqpi::global_sync_object>;
using GMutex = oqpi::mutex_interface<oqpi::global_sync_object>;
using AEvent = oqpi::auto_reset_event_interface<>;
using GAEvent = oqpi::auto_reset_event_interface<oqpi::global_sync_object>;
using MEvent = oqpi::manual_reset_event_interface<>;
using GMEvent = oqpi::manual_reset_event_interface<oqpi::global_sync_object>;
// Waits for the object in one of several ways, true once acquired.
template <class O, class = void> struct requires_try : std::false_type {};
template <class O> struct requires_try<O, std::void_t<decltype(std::declval<O &>().tryWait())>> : std::true_type {};
template <class O> void acquire(O &o, int how) {
    if (how == 0) { o.wait(); return; }
    for (;;) {
        bool ok = false;
        if constexpr (requires_try<O>::value) { if (how == 1) ok = o.tryWait(); }
        if (ok) return;
        if (!ok) ok = how == 2 ? o.waitFor(std::chrono::microseconds(2)) : o.waitUntil(std::chrono::system_clock::now() + std::chrono::microseconds(2));
        if (ok) return;
        vt::yield();
    }
}
template <class M> void lockIt(M &m, int how) {
    if (how == 0) { m.lock(); return; }
    for (;;) {
        bool ok = how == 1 ? m.tryLock() : how == 2 ? m.tryLockFor(std::chrono::microseconds(2)) : m.tryLockUntil(std::chrono::system_clock::now() + std::chrono::microseconds(2));
        if (ok) return;
        vt::yield();
    }
}
} // namespace
VT_SCENARIO(C15, mutex, 2) {
    vt::enableRaces(1);
    int n = vt::range(2, 4), per = vt::range(1, 3); bool guard = vt::chance(1, 2), separate = vt::chance(1, 2);
    vt::describe("%d threads x %d%s%s", n, per, guard ? ", guards" : "", separate ? ", each opens the mutex" : "");
    GMutex m("vtm", oqpi::sync_object_creation_options::create_if_nonexistent, false);
    std::vector<std::vector<int>> how((size_t)n); for (auto &h : how) for (int i = 0; i < per; ++i) { h.push_back((int)vt::pick(4)); vt::describe(" %d", h.back()); }
    int64_t shared = 0; std::vector<int> log;
    auto body = [&](int k) {
        std::unique_ptr<GMutex> own; GMutex *x = &m;
        if (separate) { own = std::make_unique<GMutex>("vtm", oqpi::sync_object_creation_options::open_existing); x = own.get(); VT_CHECK(x->isValid(), "open", "an existing mutex cannot be opened"); }
        for (int h : how[(size_t)k]) { (void)guard; lockIt(*x, h); int64_t v = shared; vt::yield(); shared = v + 1; log.push_back(k); x->unlock(); }
    };
    { Clients c; for (int k = 1; k < n; ++k) c.add([&, k] { body(k); }); body(0); }
    VT_CHECK(shared == n * per && (int)log.size() == n * per, "order", "an increment got lost under a lock");
    vt::nontrivial(true);
}
namespace {
template <class S> void semaphorePass(S &s) { // a message per token
    int n = vt::range(1, 2), per = vt::range(1, 4), cons = vt::range(1, 2); int total = n * per;
    std::vector<int> how; for (int i = 0; i < cons; ++i) { how.push_back((int)vt::pick(4)); }
    bool many = vt::chance(1, 3); vt::describe("%d producers x %d, %d consumers%s", n, per, cons, many ? ", notify(n)" : "");
    std::vector<std::vector<int>> msg((size_t)n); for (auto &m : msg) m.assign((size_t)per, 0);
    int64_t seen[2] = {0, 0};
    auto produce = [&](int k) { for (int i = 0; i < per; ++i) { msg[(size_t)k][(size_t)i] = 1 + i; if (!many) s.notifyOne(); } if (many) s.notify(per); };
    auto consume = [&](int k) { for (int i = k; i < total; i += cons) { acquire(s, how[(size_t)k]); ++seen[k]; } };
    // one consumer and producer: every wait sees everything up to its notification; all tokens taken: everything is seen
    { Clients c; for (int k = 1; k < n; ++k) c.add([&, k] { produce(k); }); for (int k = 0; k < cons; ++k) c.add([&, k] {
          if (n == 1 && cons == 1) { for (int i = 0; i < total; ++i) { acquire(s, how[0]); VT_CHECK(msg[0][(size_t)i] == 1 + i, "order", "a wait does not see what was written before the notification"); } }
          else if (cons == 1) { consume(0); for (auto &m : msg) for (int i = 0; i < per; ++i) VT_CHECK(m[(size_t)i] == 1 + i, "order", "a wait does not see what was written before the notification"); }
          else consume(k); });
      produce(0); }
    vt::nontrivial(total > 1);
}
template <class E> void eventPublish(E &e, bool automatic) {
    int waiters = vt::range(1, 3), rounds = automatic ? vt::range(1, 4) : 1; std::vector<int> how; for (int i = 0; i < waiters; ++i) how.push_back((int)vt::pick(4));
    vt::describe("%d waiters, %d rounds", waiters, rounds);
    std::vector<int> data(8, 0); int token = 0;
    Clients c;
    if (automatic) { // ping-pong: the event hands the data over, an acknowledgement gives it back
        AEvent back;
        c.add([&] { for (int r = 0; r < rounds; ++r) { acquire(e, how[0]); VT_CHECK(token == r + 1, "order", "a wait does not see what was written before the notification"); data[0] = r; ++token; back.notify(); } });
        for (int r = 0; r < rounds; ++r) { ++token; e.notify(); back.wait(); VT_CHECK(token == r + 2 && data[0] == r, "order", "a wait does not see what was written before the notification"); token = r + 1; }
        c.join();
    } else {
        for (int k = 0; k < waiters; ++k) c.add([&, k] { acquire(e, how[(size_t)k]); for (int i = 0; i < 8; ++i) VT_CHECK(data[(size_t)i] == i, "order", "a wait does not see what was written before the notification"); });
        for (int i = 0; i < 8; ++i) data[(size_t)i] = i;
        e.notify();
        c.join();
        data[0] = 9;
    }
    vt::nontrivial(true);
}
} // namespace
VT_SCENARIO(C15, semaphore, 2) {
    vt::enableRaces(1);
    if (vt::chance(1, 2)) { Sema s(0); semaphorePass(s); }
    else { GSema s("vts", oqpi::sync_object_creation_options::create_if_nonexistent, 0); vt::describe("named; "); semaphorePass(s); }
}
VT_SCENARIO(C15, event, 3) {
    vt::enableRaces(1);
    auto opt = oqpi::sync_object_creation_options::create_if_nonexistent;
    switch (vt::pick(4)) {
    case 0: { AEvent e; vt::describe("auto; "); eventPublish(e, true); break; }
    case 1: { GAEvent e("vte", opt); vt::describe("named auto; "); eventPublish(e, true); break; }
    case 2: { MEvent e; vt::describe("manual; "); eventPublish(e, false); break; }
    default: { GMEvent e("vte", opt); vt::describe("named manual; "); eventPublish(e, false); break; }
    }
}
// ---------------------------------------------------------------------- queue, partitioner, threads
VT_SCENARIO(C15, queue, 2) {
    vt::enableRaces(1);
    int prod = vt::range(1, 2), cons = vt::range(1, 2), per = vt::range(1, 4); vt::describe("%d producers x %d, %d consumers", prod, per, cons);
    concurrent_queue<std::shared_ptr<std::vector<int>>> q;
    int64_t taken = 0;
    {
        Clients c;
        for (int k = 0; k < prod; ++k) c.add([&, k] { for (int i = 0; i < per; ++i) { auto p = std::make_shared<std::vector<int>>(3, k * 10 + i); q.push(p); p.reset(); } });
        for (int k = 0; k < cons; ++k) c.add([&] { for (int tries = 0; tries < 20 && vt::cell(5) < prod * per; ++tries) { std::shared_ptr<std::vector<int>> p; (void)q.empty(); if (q.tryPop(p)) { vt::cellAdd(5, 1); VT_CHECK((*p)[0] == (*p)[2], "order", "an element is not seen as it was pushed"); (*p)[0] = -1; } else vt::yield(); } });
    }
    std::shared_ptr<std::vector<int>> p; while (q.tryPop(p)) { ++taken; (*p)[1] = 0; }
    VT_CHECK(taken + vt::cell(5) == prod * per, "order", "elements got lost");
    vt::nontrivial(true);
}
VT_SCENARIO(C15, threads, 2) {
    vt::enableRaces(1);
    int n = vt::range(1, 3); std::vector<int64_t> data((size_t)n, 5); bool attrs = vt::chance(1, 2); vt::describe("%d threads%s", n, attrs ? ", attributes changed meanwhile" : "");
    std::vector<Thread> ts; std::vector<int> arg(4, 3);
    for (int i = 0; i < n; ++i) ts.push_back(Thread("t" + std::to_string(i), [&data, i](std::vector<int> a) { data[(size_t)i] += a[0]; vt::yield(); oqpi::this_thread::yield(); }, arg));
    arg[0] = 99; // the threads have their own copies
    if (attrs) for (auto &t : ts) { t.setCoreAffinity(1); (void)t.getCoreAffinityMask(); (void)t.getPriority(); (void)t.getId(); }
    for (auto &t : ts) t.join();
    for (auto v : data) VT_CHECK(v == 8, "order", "join does not see what the thread did");
    vt::nontrivial(true);
}
// the helper functions and their static scheduler
VT_SCENARIO(C15, helpers, 2) {
    using H = oqpi::default_helpers;
    vt::enableRaces(1); vt::enableLeakCheck(false);
    int workers = vt::range(1, 3), clients = vt::range(0, 1); vt::describe("%d workers:", workers);
    H::start_default_scheduler(workers);
    std::vector<std::vector<int>> plan((size_t)clients + 1); for (auto &p : plan) { int k = vt::range(1, 4); for (int i = 0; i < k; ++i) { p.push_back((int)vt::pick(6)); vt::describe(" %d", p.back()); } vt::describe(";"); }
    auto client = [&](std::vector<int> &p) {
        for (int what : p) {
            std::vector<int> v(6, 1); int *d = v.data();
            switch (what) {
            case 0: H::schedule_task("t", [d] { d[0] = 2; }).wait(); break;
            case 1: H::schedule_task("t", task_priority::high, [d](int x) { d[0] = x; }, 2).activeWait(); break;
            case 2: H::sequence_tasks<task_type::waitable>("q", task_handle(H::make_task("a", [d] { d[0] = 1; })), task_handle(H::make_task_item("b", [d] { d[0] += 1; }))).wait(); break;
            case 3: H::fork_tasks<task_type::waitable>("f", task_handle(H::make_task("a", [d] { d[1] = 1; })), task_handle(H::make_task_item("b", [d] { d[0] = 2; }))).activeWait(); break;
            case 4: H::parallel_for("pf", 6, [d](int i) { d[i] = 2 - (i > 0); }); break;
            default: H::parallel_for_each("pfe", v, [d](int &x) { x = &x == d ? 2 : 1; }); break;
            }
            VT_CHECK(v[0] == 2 && v[1] == 1 && v[5] == 1, "order", "a waiter does not see what the task wrote");
        }
    };
    { Clients c; for (size_t k = 1; k < plan.size(); ++k) c.add([&, k] { client(plan[k]); }); client(plan[0]); }
    H::stop_scheduler();
    vt::nontrivial(true);
}
