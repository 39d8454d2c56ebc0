// C04 sequences, C05 joins, C06 limits, C13 hooks, C30 single-threaded execution.
#include "volume.h"
using namespace hv;

namespace {

// Submits the roots from some threads and waits for everything; no active waits unless asked for.
struct RunOpts { bool active = false, innerWaits = true, logWaits = false; };
template <class TC = oqpi::empty_task_context, class GC = oqpi::empty_group_context>
void submitAndSettle(Graph &g, Sched &s, const RunOpts &o) {
    int n = (int)vt::pick(3);
    struct Op { Node *n; int what; int owner; };
    std::vector<Op> ops;
    for (auto &r : g.roots) { int t = 1 + (vt::chance(1, 4) ? 1 : 0); for (int k = 0; k < t; ++k) ops.push_back({r.get(), 0, (int)vt::pick((uint32_t)n + 1)}); }
    if (o.innerWaits) for (Node *x : g.all) if (x->waitable && vt::chance(1, 4)) ops.push_back({x, 1 + (int)vt::pick(2), (int)vt::pick((uint32_t)n + 1)});
    if (o.active) for (auto &r : g.roots) if (r->waitable && r->kind != Seq && vt::chance(1, 2)) ops.push_back({r.get(), 3, (int)vt::pick((uint32_t)n + 1)});
    vt::describe("ops:");
    for (auto &op : ops) { static const char *nm[] = {"add", "wait", "poll", "activeWait"}; vt::describe(" %s(%d)@%d", nm[op.what], op.n->id, op.owner); }
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return (a.what != 0) < (b.what != 0); });
    auto run = [&](int me) {
        for (auto &op : ops) if (op.owner == me) {
            task_handle h = op.n->h;
            switch (op.what) {
            case 0: s.add(h); break;
            case 1: h.wait(); if (o.logWaits) vt::log(EvWaitRet, (int64_t)h.getUID()); Graph::checkCompleted(*op.n, "wait"); break;
            case 2: for (int k = 0; k < 8; ++k) { if (h.isDone()) { Graph::checkCompleted(*op.n, "isDone"); break; } vt::yield(); } break;
            case 3: h.activeWait(); if (o.logWaits) vt::log(EvWaitRet, (int64_t)h.getUID()); Graph::checkCompleted(*op.n, "activeWait"); break;
            }
        }
    };
    // a thread that waits must not keep others from submitting
    std::vector<Op> adds; for (auto &op : ops) if (op.what == 0) adds.push_back(op);
    Clients c;
    for (int k = 1; k <= n; ++k) c.add([&run, k] { run(k); });
    run(0);
    c.join();
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
}

std::unique_ptr<Sched> startWith(const WorkerGen &w) { auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start(); return s; }

// gates for the leaves of a graph
struct Gates {
    std::vector<vt::Gate> gate; std::vector<bool> open;
    void setup(Graph &g) { gate.resize((size_t)g.nextId); open.assign((size_t)g.nextId, false); for (auto &x : gate) x = vt::makeGate(); g.onBody = [this](Node &n) { vt::passGate(gate[(size_t)n.id]); }; }
    void openOne(int id) { open[(size_t)id] = true; vt::openGate(gate[(size_t)id]); }
};
int leafCount(Graph &g) { int k = 0; for (Node *n : g.all) k += n->kind == Leaf; return k; }
std::vector<int> shuffledLeaves(Graph &g) {
    std::vector<int> l; for (Node *n : g.all) if (n->kind == Leaf) l.push_back(n->id);
    for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[vt::pick((uint32_t)i)]);
    return l;
}
bool started(const Node &n) { bool any = false; Graph::forLeaves(n, [&](const Node &l) { if (vt::cell(C_EXEC + l.id)) any = true; }); return any; }
bool allStarted(const Node &n) { bool all = true; Graph::forLeaves(n, [&](const Node &l) { if (!vt::cell(C_EXEC + l.id)) all = false; }); return all; }

} // namespace

// ------------------------------------------------------------------------------------------- C04
VT_SCENARIO(C04, graph, 4) {
    GraphOpts o; o.maxNodes = 12; Graph g(o);
    g.readPrev = true;
    bool drop = vt::chance(1, 2);
    if (drop) o.pars = false, g.o.pars = false;
    auto w = genWorkers(2, 4);
    vt::enableRaces(2);
    g.generate(1, 2); g.describe(); g.watchData();
    auto s = startWith(w); g.buildAll(*s);
    RunOpts r; r.active = true;
    submitAndSettle(g, *s, r);
    g.checkSequenceOrder();
    int seqs = 0; for (Node *n : g.all) if (n->kind == Seq && n->kids.size() > 1) ++seqs;
    vt::nontrivial(seqs > 0);
    if (seqs > 1) vt::label("several-sequences");
    s->stop();
}
// the parts of a sequence are held back one by one
VT_SCENARIO(C04, gates, 3) {
    GraphOpts o; o.maxNodes = 9; o.nested = false; o.limits = false; Graph g(o);
    Gates gs;
    auto root = std::make_unique<Node>();
    g.generate(1, 1);
    if (g.roots[0]->kind != Seq) vt::label("root-not-a-sequence");
    g.describe();
    gs.setup(g);
    auto s = startWith(plainWorkers(std::max(10, leafCount(g) + 1))); g.buildAll(*s);
    bool waiter = g.roots[0]->waitable && vt::chance(1, 2);
    Clients c;
    if (waiter) c.add([&] { task_handle h = g.roots[0]->h; h.wait(); Graph::checkCompleted(*g.roots[0], "wait"); });
    s->add(g.roots[0]->h);
    auto check = [&] {
        for (Node *n : g.all) if (n->kind == Seq) {
            VT_CHECK(n->h.isDone() == Graph::finished(*n), "order", "sequence %d is %sdone although its children are %sfinished", n->id, n->h.isDone() ? "" : "not ", Graph::finished(*n) ? "" : "not ");
            for (size_t i = 0; i + 1 < n->kids.size(); ++i) {
                bool prev = Graph::finished(*n->kids[i]);
                VT_CHECK(prev || !started(*n->kids[i + 1]), "order", "sequence %d: element %zu started before element %zu had finished", n->id, i + 1, i);
                VT_CHECK(!prev || started(*n->kids[i + 1]), "stuck-task", "sequence %d: element %zu did not start although element %zu has finished", n->id, i + 1, i);
            }
        }
    };
    vt::settle(); check();
    for (int id : shuffledLeaves(g)) { gs.openOne(id); vt::settle(); check(); }
    c.join();
    g.checkExactlyOnce("after all gates were opened");
    g.checkSequenceOrder();
    vt::nontrivial(g.all.size() > 2);
    s->stop();
}

VT_SCENARIO(C04, volume, 1) { volume<Sched>(0x48, false, 70000); }

// ------------------------------------------------------------------------------------------- C05
VT_SCENARIO(C05, gates, 3) {
    GraphOpts o; o.maxNodes = 9; o.maxDepth = 3; o.nested = false; Graph g(o);
    Gates gs;
    g.generate(1, 2); g.describe();
    gs.setup(g);
    auto s = startWith(plainWorkers(std::max(10, leafCount(g) + 1))); g.buildAll<oqpi::empty_task_context, RecGroup>(*s);
    HookCheck hc(g);
    std::vector<std::pair<Node *, int>> waiters; // fiber of a waiter
    Clients c;
    for (Node *n : g.all) if (n->kind == Par && n->waitable && vt::chance(1, 2) && waiters.size() < 6) {
        c.add([n] { task_handle h = n->h; h.wait(); Graph::checkCompleted(*n, "wait"); });
        waiters.push_back({n, c.ids.back()});
    }
    for (auto &r : g.roots) s->add(r->h);
    auto check = [&] {
        for (Node *n : g.all) if (n->kind != Leaf) {
            bool fin = Graph::finished(*n);
            VT_CHECK(n->h.isDone() == fin, "join", "group %d is %sdone although its children are %sfinished", n->id, n->h.isDone() ? "" : "not ", fin ? "" : "not ");
            if (n->parent && n->parent->kind == Seq) for (size_t i = 0; i + 1 < n->parent->kids.size(); ++i) if (n->parent->kids[i].get() == n)
                VT_CHECK(started(*n->parent->kids[i + 1]) == fin, "join", "sequence %d %s although group %d is %sfinished", n->parent->id, fin ? "did not continue" : "continued", n->id, fin ? "" : "not ");
        }
        for (auto &wt : waiters) VT_CHECK(vt::isFinished(wt.second) == Graph::finished(*wt.first), "join", "waiter on group %d is %sreleased although the group is %sfinished", wt.first->id, vt::isFinished(wt.second) ? "" : "not ", Graph::finished(*wt.first) ? "" : "not ");
    };
    vt::settle(); check();
    for (int id : shuffledLeaves(g)) { gs.openOne(id); vt::settle(); check(); }
    c.join();
    g.checkExactlyOnce("after all gates were opened");
    for (Node *n : g.all) if (n->kind != Leaf) { int posts = 0; for (auto &e : vt::events()) posts += e.kind == HGPost && e.a == hc.uidOf[n->id]; VT_CHECK(posts == 1, "join", "group %d was completed %d times", n->id, posts); }
    vt::nontrivial(g.all.size() > 2);
    s->stop();
}
// children finishing at the same time, some of them executed by waiting threads or submitted on their own
VT_SCENARIO(C05, storm, 4) {
    GraphOpts o; o.maxNodes = 10; o.seqs = vt::chance(1, 2); o.nested = false; o.prios = 1 + (int)vt::pick(5); Graph g(o);
    auto w = genWorkers(2, 4);
    g.generate(1, 2); g.describe();
    auto s = startWith(w); g.buildAll<oqpi::empty_task_context, RecGroup>(*s);
    HookCheck hc(g);
    // a child of a parallel group may be executed by anybody at any time, provided that nothing orders it
    std::vector<Node *> freeKids;
    for (Node *n : g.all) if (n->parent) { bool ok = true; for (Node *p = n->parent; p; p = p->parent) if (p->kind != Par || p->maxSim) ok = false; if (ok && n->kind != Seq) freeKids.push_back(n); }
    int n = sized(1, 3, 12);
    std::vector<std::vector<std::pair<Node *, int>>> plan((size_t)n);
    vt::describe("clients:");
    for (auto &p : plan) {
        int k = sized(1, 3, 12); vt::describe(" [");
        for (int i = 0; i < k; ++i) {
            Node *x = freeKids.empty() || vt::chance(1, 2) ? g.roots[vt::pick((uint32_t)g.roots.size())].get() : freeKids[vt::pick((uint32_t)freeKids.size())];
            int what = x->waitable ? (int)vt::pick(3) : 0;
            if (what == 1 && x->kind == Seq) what = 2;
            p.push_back({x, what});
            static const char *nm[] = {"add", "activeWait", "wait"}; vt::describe("%s(%d) ", nm[what], x->id);
        }
        vt::describe("]");
    }
    Clients c;
    for (auto &p : plan) c.add([&s, &p] {
        for (auto &[x, what] : p) {
            task_handle h = x->h;
            if (what == 0) s->add(h);
            else { if (what == 1) h.activeWait(); else h.wait(); Graph::checkCompleted(*x, "wait"); VT_CHECK(h.isDone(), "not-done", "not done after a wait"); }
        }
    });
    for (auto &r : g.roots) s->add(r->h);
    c.join();
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
    g.checkSequenceOrder();
    for (Node *x : g.all) if (x->kind != Leaf) { int posts = 0; for (auto &e : vt::events()) posts += e.kind == HGPost && e.a == hc.uidOf[x->id]; VT_CHECK(posts == 1, "join", "group %d was completed %d times", x->id, posts); }
    vt::nontrivial(g.all.size() > 2);
    s->stop();
}

VT_SCENARIO(C05, volume, 1) { volume<Sched>(0x76, false, 70000); }

// ------------------------------------------------------------------------------------------- C06
namespace {
constexpr int C_ACTIVE = 20000, C_STARTED = 24000, C_ENDED = 28000;
// A child counts as executing from the start of the first leaf below it to the end of the last.
void onLimitStart(Node &n) {
    for (Node *c = &n; c->parent; c = c->parent) {
        if (vt::cellAdd(C_STARTED + c->id, 1) == 1 && c->parent->maxSim > 0) {
            int64_t a = vt::cellAdd(C_ACTIVE + c->parent->id, 1);
            VT_CHECK(a <= c->parent->maxSim, "limit", "%lld children of group %d are executing, the limit is %d", (long long)a, c->parent->id, c->parent->maxSim);
        }
    }
}
void onLimitEnd(Node &n) {
    for (Node *c = &n; c->parent; c = c->parent) {
        int leaves = 0; Graph::forLeaves(*c, [&](const Node &) { ++leaves; });
        if (vt::cellAdd(C_ENDED + c->id, 1) == leaves && c->parent->maxSim > 0) vt::cellAdd(C_ACTIVE + c->parent->id, -1);
    }
}
} // namespace
VT_SCENARIO(C06, graph, 4) {
    GraphOpts o; o.maxNodes = 12; o.maxKids = 5; o.nested = false; o.seqs = vt::chance(1, 2); Graph g(o);
    auto w = genWorkers(2, 5);
    g.generate(1, 2);
    if (g.roots[0]->kind == Par && !g.roots[0]->maxSim) g.roots[0]->maxSim = 1 + (int)vt::pick(3);
    g.describe();
    g.onBody = [](Node &n) { onLimitStart(n); for (int i = (int)vt::cell(C_SPARE); i > 0; --i) vt::yield(); onLimitEnd(n); };
    vt::cellSet(C_SPARE, (int64_t)vt::pick(4));
    auto s = startWith(w); g.buildAll(*s);
    submitAndSettle(g, *s, RunOpts{});
    bool nt = false; for (Node *n : g.all) if (n->maxSim && (int)n->kids.size() > n->maxSim) nt = true;
    vt::nontrivial(nt && w.total > 1);
    for (Node *n : g.all) if (n->maxSim) vt::label(n->maxSim == 1 ? "limit-1" : "limit-2-or-more");
    s->stop();
}
// all children are held back: the number of those executing at the same time is exact
VT_SCENARIO(C06, gates, 3) {
    int kids = sized(1, 7, 40), limit = sized(0, 4, 24), workers = sized(1, 8, 40);
    if (vt::chance(1, 16)) { static const int many[] = {127, 128, 255, 256, 257, 65535, 65536, INT32_MAX}; limit = many[vt::pick(8)]; vt::label("huge-limit"); }
    int asked = limit; if (!limit && vt::chance(1, 4)) { asked = vt::chance(1, 8) ? INT32_MIN : -1 - (int)vt::pick(3); vt::label("negative-limit"); } // no limit either
    vt::describe("%d children, limit %d, %d workers", kids, asked, workers);
    auto s = startWith(plainWorkers(workers));
    std::vector<vt::Gate> gates; for (int i = 0; i < kids; ++i) gates.push_back(vt::makeGate());
    bool wtb = vt::chance(1, 2);
    auto fill = [&](auto grp) {
        for (int i = 0; i < kids; ++i)
            grp->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("t", task_priority::normal, [i, limit, &gates] {
                vt::cellSet(C_RUN + i, 1); int64_t a = vt::cellAdd(C_ACTIVE, 1);
                VT_CHECK(limit == 0 || a <= limit, "limit", "%lld children are executing, the limit is %d", (long long)a, limit);
                vt::passGate(gates[(size_t)i]); vt::cellAdd(C_ACTIVE, -1); vt::cellSet(C_RUN + i, 2); })));
        return task_handle(grp);
    };
    task_handle h = wtb ? fill(oqpi::make_parallel_group<task_type::waitable, oqpi::empty_group_context>(*s, "g", task_priority::normal, kids, asked))
                        : fill(oqpi::make_parallel_group<task_type::fire_and_forget, oqpi::empty_group_context>(*s, "g", task_priority::normal, kids, asked));
    s->add(h);
    int left = kids;
    while (left > 0) {
        vt::settle();
        std::vector<int> running; for (int i = 0; i < kids; ++i) if (vt::cell(C_RUN + i) == 1) running.push_back(i);
        int can = std::min(left, workers); if (limit) can = std::min(can, limit);
        VT_CHECK(!running.empty(), "lost-task", "%d children are left and none is executing", left);
        if (!limit) VT_CHECK((int)running.size() == can, "limit", "%zu children of an unlimited group are executing, %d could", running.size(), can);
        int i = running[vt::pick((uint32_t)running.size())];
        vt::openGate(gates[(size_t)i]); --left;
    }
    vt::settle();
    VT_CHECK(h.isDone(), "not-done", "the group is not done although all of its children are");
    vt::nontrivial(kids > 1);
    s->stop();
}

VT_SCENARIO(C06, volume, 1) { volume<Sched>(0x04, false, 70000); }

// ------------------------------------------------------------------------------------------- C13
VT_SCENARIO(C13, graph, 4) {
    GraphOpts o; o.maxNodes = 10; o.nested = false; Graph g(o);
    auto w = genWorkers(2, 3, false);
    g.generate(1, 3); g.describe();
    bool active = vt::chance(1, 3);
    auto s = std::make_unique<Sched>();
    for (auto &c : w.configs) s->registerWorker<Thread, Sema, RecWorker>(c);
    g.buildAll<RecTask, RecGroup>(*s);
    HookCheck hc(g);
    int restarts = vt::chance(1, 4) ? 1 : 0;
    s->start();
    if (restarts) { for (int i = (int)vt::pick(8); i > 0; --i) vt::yield(); s->stop(); s->start(); }
    RunOpts r; r.active = active; r.logWaits = true;
    submitAndSettle(g, *s, r);
    hc.check(g, !active);
    hc.checkWaits();
    s->stop();
    HookCheck::checkWorkers(w.total * (1 + restarts));
    vt::nontrivial(g.all.size() > 1);
}
// tasks held by a waiting thread only, executed by it or by a worker
VT_SCENARIO(C13, tasks, 2) {
    GraphOpts o; o.groups = false; o.maxNodes = 4; o.ff = false; o.nested = false; Graph g(o);
    auto w = plainWorkers(1 + (int)vt::pick(2));
    g.generate(1, 4); g.describe();
    auto s = std::make_unique<Sched>();
    for (auto &c : w.configs) s->registerWorker<Thread, Sema, RecWorker>(c);
    g.buildAll<RecTask, RecGroup>(*s);
    HookCheck hc(g);
    s->start();
    Clients c;
    int n = sized(1, 3, 16);
    for (int i = 0; i < n; ++i) { bool act = vt::chance(1, 2); vt::describe(" %s", act ? "activeWait" : "wait"); c.add([&g, act] { for (auto &r : g.roots) { task_handle h = r->h; if (act) h.activeWait(); else h.wait(); vt::log(EvWaitRet, (int64_t)h.getUID()); } }); }
    for (auto &r : g.roots) s->add(r->h);
    c.join();
    vt::settle();
    hc.check(g, true);
    hc.checkWaits();
    s->stop();
    HookCheck::checkWorkers(w.total);
    vt::nontrivial(n > 1 || g.roots.size() > 1);
}

// ------------------------------------------------------------------------------------------- C30
VT_SCENARIO(C30, graph, 4) {
    GraphOpts o; o.maxNodes = 12; o.nested = false; Graph g(o);
    g.readPrev = true;
    bool withSched = vt::chance(1, 2);
    auto s = std::make_unique<Sched>();
    auto w = genWorkers(2, 2); registerAll(*s, w);
    if (withSched) { s->start(); vt::describe("scheduler running; "); }
    g.generate(1, 3); g.describe();
    g.buildAll<RecTask, RecGroup>(*s);
    HookCheck hc(g);
    Clients c;
    std::vector<Node *> waited;
    for (Node *n : g.all) if (n->waitable && vt::chance(1, 3) && waited.size() < 5) {
        waited.push_back(n);
        c.add([n] { task_handle h = n->h; h.wait(); VT_CHECK(h.isDone(), "not-done", "not done after a wait"); Graph::checkCompleted(*n, "wait"); vt::log(EvWaitRet, (int64_t)h.getUID()); });
    }
    bool client = vt::chance(1, 3);
    int runner = 0;
    auto run = [&] {
        runner = vt::self();
        for (auto &r : g.roots) {
            r->h.executeSingleThreaded();
            VT_CHECK(r->h.isDone(), "not-done", "%d is not done after executeSingleThreaded", r->id);
            Graph::checkCompleted(*r, "executeSingleThreaded");
            Graph::forLeaves(*r, [](const Node &l) { if (l.result) VT_CHECK(l.result() == valueOf(l.id) + 1, "wrong-result", "wrong result after executeSingleThreaded"); });
        }
    };
    if (client) { Clients d; d.add(run); d.join(); } else run();
    for (Node *n : g.all) VT_CHECK(n->h.isDone(), "not-done", "%d is not done after executeSingleThreaded", n->id);
    c.join(); // waiters are released
    // on the calling thread, in the order of addition
    std::vector<int> want, got;
    for (auto &r : g.roots) Graph::forLeaves(*r, [&](const Node &l) { want.push_back(l.id); });
    for (auto &e : vt::events()) if (e.kind == EvStart) { got.push_back((int)e.a); VT_CHECK(e.fiber == runner, "wrong-thread", "task %lld was executed on another thread", (long long)e.a); }
    VT_CHECK(want == got, "order", "children were not executed in the order in which they were added");
    hc.check(g, true);
    hc.checkWaits();
    // submitting it afterwards has no effect
    for (auto &r : g.roots) if (vt::chance(1, 2)) s->add(r->h);
    if (!withSched && vt::chance(1, 2)) s->start();
    vt::settle();
    for (auto &r : g.roots) if (r->waitable && r->kind != Seq && vt::chance(1, 2)) r->h.activeWait();
    g.checkExactlyOnce("after submitting what had been executed single-threaded");
    hc.check(g, true);
    vt::nontrivial(g.all.size() > 1);
    if (waited.size()) vt::label("with-waiters");
    s->stop();
}
// single-threaded execution of a task that others try to execute as well
VT_SCENARIO(C30, race, 2) {
    GraphOpts o; o.groups = false; o.maxNodes = 3; o.ff = false; o.nested = false; Graph g(o);
    auto w = plainWorkers(1 + (int)vt::pick(2));
    g.generate(1, 3); g.describe();
    auto s = startWith(w); g.buildAll<RecTask, RecGroup>(*s);
    HookCheck hc(g);
    Clients c;
    int n = sized(1, 3, 16);
    for (int i = 0; i < n; ++i) {
        int what = (int)vt::pick(3); vt::describe(" %s", what == 0 ? "add" : what == 1 ? "single" : "active");
        c.add([&g, &s, what] { for (auto &r : g.roots) { task_handle h = r->h; if (what == 0) s->add(h); else if (what == 1) { h.executeSingleThreaded(); h.wait(); } else h.activeWait(); } });
    }
    for (auto &r : g.roots) r->h.executeSingleThreaded();
    c.join();
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
    hc.check(g, true);
    vt::nontrivial();
    s->stop();
}
