// C07 dispatch order, C08 eligibility, C09 stop/restart, C16 idleness, C32 worker registration.
#include "volume.h"
#include "dur.h"
using namespace hv;

namespace {
enum : int { EvTaken = 300 };
constexpr int C_MASK = 20000, C_WSTARTS = 20200, C_EXPECT = 20300; // priorities of the worker running on a fiber, + 1024; priorities each worker configuration is meant for
// workers are recognized by their name, w<configuration>_<number>
const bool named = tellingNames() = true;
int64_t meantFor(const oqpi::worker_config &c) {
    auto &n = c.threadAttributes.name_;
    int64_t m = n.size() > 2 && n[0] == 'w' && n[1] >= '0' && n[1] <= '9' && n[2] == '_' ? vt::cell(C_EXPECT + n[1] - '0') : 0;
    return m ? m : (int64_t)c.workerPrio;
}
struct MaskRec : oqpi::worker_context_base {
    MaskRec(oqpi::worker_base *o) : oqpi::worker_context_base(o) {}
    void onStart() { vt::cellSet(C_MASK + vt::self(), 1024 + meantFor(owner()->getConfig())); vt::cellAdd(C_WSTARTS, 1); }
    void onPreExecute(const task_handle &h) { vt::log(EvTaken, (int64_t)h.getUID(), vt::cell(C_MASK + vt::self()) - 1024); }
};
using MaskCtx = oqpi::worker_context_container<MaskRec>;
bool isWorker(int fiber) { return vt::cell(C_MASK + fiber) != 0; }
unsigned maskOf(int fiber) { return (unsigned)vt::cell(C_MASK + fiber) - 1024; }
template <class Ctx> void registerAs(Sched &s, const WorkerGen &w) { for (size_t i = 0; i < w.configs.size(); ++i) { vt::cellSet(C_EXPECT + (int)i, w.masks[i]); s.registerWorker<Thread, Sema, Ctx>(w.configs[i]); } }
template <class F> task_handle mkTask(int prio, F f, bool waitable = true) {
    if (waitable) return task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority(prio), std::move(f)));
    return task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("t", task_priority(prio), std::move(f)));
}
} // namespace

// ------------------------------------------------------------------------------------------- C07
namespace {
struct Dispatch {
    struct T { int prio; task_handle h; vt::Gate gate; std::vector<int> submits; };
    struct Pend { int id, prio; int burst, client, pos; };
    Sched s;
    std::vector<T> tasks; std::vector<Pend> pending; std::map<int, int> busy; std::set<int> idle; size_t seen = 0; int bursts = 0;
    int mk(int prio) {
        int id = (int)tasks.size();
        tasks.push_back({prio, {}, vt::makeGate(), {}});
        tasks[(size_t)id].h = mkTask(prio, [this, id] { vt::log(EvStart, id); vt::passGate(tasks[(size_t)id].gate); for (int x : tasks[(size_t)id].submits) s.add(tasks[(size_t)x].h); vt::log(EvEnd, id); }, vt::chance(1, 2));
        return id;
    }
    bool anyIdleFor(int prio) { for (int f : idle) if (maskOf(f) >> prio & 1) return true; return false; }
    // a worker with this mask may take x
    bool candidate(const Pend &x, unsigned mask) {
        if (!(mask >> x.prio & 1)) return false;
        for (auto &y : pending) {
            if ((mask >> y.prio & 1) && y.prio < x.prio) return false;
            if (y.prio == x.prio && (y.burst < x.burst || (y.burst == x.burst && y.client == x.client && y.pos < x.pos))) return false;
        }
        return true;
    }
    void observe(int freed) {
        vt::settle();
        auto ev = vt::events();
        for (; seen < ev.size(); ++seen) {
            auto &e = ev[seen];
            if (e.kind == EvEnd) { if (busy.count(e.fiber) && busy[e.fiber] == e.a) { busy.erase(e.fiber); idle.insert(e.fiber); } continue; }
            if (e.kind != EvStart || !isWorker(e.fiber)) continue;
            size_t k = 0; while (k < pending.size() && pending[k].id != e.a) ++k;
            VT_CHECK(k < pending.size(), "dispatch", "task %lld was started although it was not pending", (long long)e.a);
            VT_CHECK(candidate(pending[k], maskOf(e.fiber)), "dispatch", "a worker for priorities %02x took task %lld (%s) although %s", maskOf(e.fiber), (long long)e.a, prioName(task_priority(pending[k].prio)), why(pending[k], maskOf(e.fiber)).c_str());
            idle.erase(e.fiber); busy[e.fiber] = (int)e.a;
            pending.erase(pending.begin() + (long)k);
        }
        for (auto &p : pending) VT_CHECK(!anyIdleFor(p.prio), "lost-task", "task %d (%s) is pending although an eligible worker is idle", p.id, prioName(task_priority(p.prio)));
    }
    void stopped() { // nothing else may have been taken
        auto ev = vt::events();
        for (; seen < ev.size(); ++seen) {
            auto &e = ev[seen];
            if (e.kind == EvEnd) { if (busy.count(e.fiber) && busy[e.fiber] == e.a) busy.erase(e.fiber); continue; }
            VT_CHECK(e.kind != EvStart || !isWorker(e.fiber), "dispatch", "task %lld was started while the scheduler was stopping", (long long)e.a);
        }
    }
    std::string why(const Pend &x, unsigned mask) {
        if (!(mask >> x.prio & 1)) return "it may not work on it";
        for (auto &y : pending) {
            if ((mask >> y.prio & 1) && y.prio < x.prio) return "task " + std::to_string(y.id) + " of higher priority is pending";
            if (y.prio == x.prio && (y.burst < x.burst || (y.burst == x.burst && y.client == x.client && y.pos < x.pos))) return "task " + std::to_string(y.id) + " of the same priority was submitted earlier";
        }
        return "?";
    }
    void initWorkers(int total) { vt::settle(); for (int f = 1; f < 64; ++f) if (isWorker(f)) idle.insert(f); VT_CHECK((int)idle.size() == total, "workers", "%zu of %d workers started", idle.size(), total); }
};
} // namespace
// One event at a time: which task a worker takes is exactly determined
VT_SCENARIO(C07, model, 4) {
    auto w = genWorkers(3, 4);
    auto up = std::make_unique<Dispatch>(); auto &d = *up;
    registerAs<MaskCtx>(d.s, w);
    d.tasks.reserve(400);
    bool early = w.total == 1 && vt::chance(1, 2);
    int prios = vt::chance(1, 2) ? 5 : 2;
    vt::describe("steps:");
    if (early) {
        int n = sized(1, 8, 60), b = d.bursts++;
        for (int i = 0; i < n; ++i) { int id = d.mk((int)vt::pick((uint32_t)prios)); vt::describe(" early%d/%d", id, d.tasks[(size_t)id].prio); d.pending.push_back({id, d.tasks[(size_t)id].prio, b, 0, i}); d.s.add(d.tasks[(size_t)id].h); }
        d.s.start(); vt::settle();
        for (int f = 1; f < 64; ++f) if (isWorker(f)) d.idle.insert(f);
        d.observe(-1);
    } else { d.s.start(); d.initWorkers(w.total); }
    int steps = sized(4, 24, 80), maxPend = 0;
    for (int k = 0; k < steps && d.tasks.size() < 200; ++k) {
        switch (vt::pick(6)) {
        case 0: case 1: { // one task
            int id = d.mk((int)vt::pick((uint32_t)prios)), p = d.tasks[(size_t)id].prio;
            vt::describe(" add%d/%d", id, p);
            d.pending.push_back({id, p, d.bursts++, 0, 0});
            d.s.add(d.tasks[(size_t)id].h);
            d.observe(-1);
            break; }
        case 2: { // several at the same time, all of which have to wait
            int nc = vt::range(1, 3), b = d.bursts++; std::vector<std::vector<int>> lists((size_t)nc);
            for (int c = 0; c < nc; ++c) {
                int n = sized(1, 3, 20);
                for (int i = 0; i < n; ++i) { int p = (int)vt::pick((uint32_t)prios); if (d.anyIdleFor(p)) continue; int id = d.mk(p); lists[(size_t)c].push_back(id); d.pending.push_back({id, p, b, c, i}); vt::describe(" burst%d.%d/%d", c, id, p); }
            }
            { Clients c; for (auto &l : lists) c.add([&d, &l] { for (int id : l) d.s.add(d.tasks[(size_t)id].h); }); c.join(); }
            d.observe(-1);
            break; }
        case 3: case 4: { // a worker becomes available
            if (d.busy.empty()) break;
            auto it = d.busy.begin(); std::advance(it, (long)vt::pick((uint32_t)d.busy.size()));
            int id = it->second;
            auto &t = d.tasks[(size_t)id];
            if (vt::chance(1, 3)) { // having submitted tasks itself
                int n = sized(1, 3, 20), b = d.bursts++;
                for (int i = 0; i < n; ++i) { int p = (int)vt::pick((uint32_t)prios); if (d.anyIdleFor(p)) continue; int x = d.mk(p); d.tasks[(size_t)id].submits.push_back(x); d.pending.push_back({x, p, b, 0, i}); vt::describe(" by%d:%d/%d", id, x, p); }
            }
            vt::describe(" finish%d", id);
            vt::openGate(d.tasks[(size_t)id].gate); (void)t;
            d.observe(it->first);
            break; }
        case 5: { // somebody else executes a pending task, or submits it again
            if (d.pending.empty()) break;
            size_t k = vt::pick((uint32_t)d.pending.size()); auto &t = d.tasks[(size_t)d.pending[k].id];
            if (vt::chance(1, 2)) { vt::describe(" again%d", d.pending[k].id); d.s.add(t.h); }
            else { vt::describe(" single%d", d.pending[k].id); vt::openGate(t.gate); d.pending.erase(d.pending.begin() + (long)k); t.h.executeSingleThreaded(); }
            d.observe(-1);
            break; }
        }
        maxPend = std::max(maxPend, (int)d.pending.size());
    }
    vt::nontrivial(maxPend >= 2);
    if (maxPend >= 4) vt::label("4-or-more-pending");
    for (auto &t : d.tasks) vt::openGate(t.gate);
    vt::settle();
    d.s.stop();
}
// The order survives stops and restarts
VT_SCENARIO(C07, restart, 2) {
    auto up = std::make_unique<Dispatch>(); auto &d = *up;
    registerAs<MaskCtx>(d.s, plainWorkers(1));
    d.tasks.reserve(400);
    bool running = false; int prios = vt::chance(1, 2) ? 5 : vt::range(1, 2), starts = 0, kept = 0, threads = 1, steps = sized(6, 40, 120);
    vt::describe("steps:");
    auto own = [&](int id) { // the task that is finished submits others
        int n = vt::chance(1, 3) ? sized(1, 3, 10) : 0, b = d.bursts++;
        for (int i = 0; i < n; ++i) { int p = (int)vt::pick((uint32_t)prios), x = d.mk(p); d.tasks[(size_t)id].submits.push_back(x); d.pending.push_back({x, p, b, 0, i}); vt::describe(" by%d:%d/%d", id, x, p); }
    };
    for (int k = 0; k < steps && d.tasks.size() < 200; ++k) {
        switch (vt::pick(7)) {
        case 0: case 1: { int id = d.mk((int)vt::pick((uint32_t)prios)), p = d.tasks[(size_t)id].prio; vt::describe(" add%d/%d", id, p); d.pending.push_back({id, p, d.bursts++, 0, 0}); d.s.add(d.tasks[(size_t)id].h); if (running) d.observe(-1); break; }
        case 2: { // several threads at the same time
            if ((running && d.busy.empty()) || threads > 45) break;
            int nc = vt::range(1, 3), b = d.bursts++; threads += nc; std::vector<std::vector<int>> lists((size_t)nc);
            for (int c = 0; c < nc; ++c) { int n = sized(1, 3, 20); for (int i = 0; i < n; ++i) { int p = (int)vt::pick((uint32_t)prios), id = d.mk(p); lists[(size_t)c].push_back(id); d.pending.push_back({id, p, b, c, i}); vt::describe(" burst%d.%d/%d", c, id, p); } }
            { Clients c; for (auto &l : lists) c.add([&d, &l] { for (int id : l) d.s.add(d.tasks[(size_t)id].h); }); c.join(); }
            if (running) d.observe(-1);
            break; }
        case 3: { // the worker becomes available
            if (d.busy.empty()) break;
            auto it = d.busy.begin(); int id = it->second; own(id); vt::describe(" finish%d", id);
            vt::openGate(d.tasks[(size_t)id].gate); d.observe(it->first);
            break; }
        case 4: { // somebody else executes a pending task, or submits it again
            if (d.pending.empty()) break;
            size_t i = vt::pick((uint32_t)d.pending.size()); auto &t = d.tasks[(size_t)d.pending[i].id];
            if (vt::chance(1, 2)) { vt::describe(" again%d", d.pending[i].id); d.s.add(t.h); }
            else { vt::describe(" single%d", d.pending[i].id); vt::openGate(t.gate); d.pending.erase(d.pending.begin() + (long)i); t.h.executeSingleThreaded(); }
            if (running) d.observe(-1);
            break; }
        default:
            if (!running) {
                if (threads > 57) break;
                ++threads;
                vt::describe(" start"); if (starts++) kept = std::max(kept, (int)d.pending.size());
                d.s.start(); vt::settle(); running = true;
                for (int f = 1; f < 64; ++f) if (isWorker(f) && !vt::isFinished(f)) d.idle.insert(f);
                VT_CHECK(d.idle.size() == 1, "workers", "%zu workers instead of 1 are running", d.idle.size());
                d.observe(-1);
            } else {
                vt::describe(" stop");
                if (!d.busy.empty()) {
                    int id = d.busy.begin()->second; own(id);
                    Clients c; c.add([&d] { d.s.stop(); }); ++threads;
                    vt::settle(); // it waits for the task
                    vt::openGate(d.tasks[(size_t)id].gate);
                    c.join();
                } else d.s.stop();
                running = false; d.idle.clear(); d.stopped();
                VT_CHECK(d.busy.empty(), "stop", "stop returned while a task was executed");
            }
        }
    }
    vt::nontrivial(kept >= 2);
    if (kept >= 2) vt::label("restarted with several pending");
    for (auto &t : d.tasks) vt::openGate(t.gate);
    if (running) { vt::settle(); d.s.stop(); }
}
// A single worker running freely: the complete order is determined
VT_SCENARIO(C07, single, 2) {
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(1));
    struct T { int prio; std::vector<int> kids; task_handle h; };
    std::vector<T> ts((size_t)sized(2, 16, 150));
    std::vector<int> roots;
    for (size_t i = 0; i < ts.size(); ++i) { ts[i].prio = (int)vt::pick(5); if (i == 0 || vt::chance(1, 2)) roots.push_back((int)i); else ts[vt::pick((uint32_t)i)].kids.push_back((int)i); }
    vt::describe("tasks:");
    for (size_t i = 0; i < ts.size(); ++i) {
        vt::describe(" %zu/%d", i, ts[i].prio); for (int k : ts[i].kids) vt::describe(">%d", k);
        ts[i].h = mkTask(ts[i].prio, [&ts, &s, i] { vt::log(EvStart, (int64_t)i); for (int k : ts[i].kids) s->add(ts[(size_t)k].h); });
    }
    for (int r : roots) s->add(ts[(size_t)r].h);
    s->start();
    vt::settle();
    std::vector<std::vector<int>> q(5); std::vector<int> want, got;
    for (int r : roots) q[(size_t)ts[(size_t)r].prio].push_back(r);
    for (;;) { size_t p = 0; while (p < 5 && q[p].empty()) ++p; if (p == 5) break; int t = q[p].front(); q[p].erase(q[p].begin()); want.push_back(t); for (int k : ts[(size_t)t].kids) q[(size_t)ts[(size_t)k].prio].push_back(k); }
    for (auto &e : vt::events()) if (e.kind == EvStart) got.push_back((int)e.a);
    if (want != got) { std::string a, b; for (int x : want) a += std::to_string(x) + " "; for (int x : got) b += std::to_string(x) + " "; vt::fail("dispatch", "executed in the order %s instead of %s", b.c_str(), a.c_str()); }
    vt::nontrivial();
    s->stop();
}

// ------------------------------------------------------------------------------------------- C08
VT_SCENARIO(C08, graph, 4) {
    GraphOpts o; o.maxNodes = 14; o.maxDepth = 4; o.prios = 5; Graph g(o);
    auto w = genWorkers(5, 6);
    g.generate(1, 4); g.describe();
    auto s = std::make_unique<Sched>(); registerAs<MaskCtx>(*s, w);
    g.buildAll(*s);
    std::map<int64_t, Node *> byUid; for (Node *n : g.all) byUid[(int64_t)n->h.getUID()] = n;
    s->start();
    bool inherits = false;
    Clients c;
    int nc = (int)vt::pick(3);
    std::vector<std::vector<task_handle>> plan((size_t)nc + 1);
    for (auto &r : g.roots) plan[vt::pick((uint32_t)nc + 1)].push_back(r->h);
    std::vector<task_handle> act;
    for (auto &r : g.roots) if (r->waitable && r->kind == Par && vt::chance(1, 4)) act.push_back(r->h);
    for (int i = 1; i <= nc; ++i) c.add([&, i] { for (auto &h : plan[(size_t)i]) s->add(h); });
    for (auto &h : plan[0]) s->add(h);
    for (auto &h : act) h.activeWait();
    c.join();
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
    for (auto &e : vt::events()) if (e.kind == EvTaken) {
        auto it = byUid.find(e.a); if (it == byUid.end()) continue;
        const Node *n = it->second, *p = n;
        while (p && p->prio == task_priority::inherit) p = p->parent, inherits = true;
        int eff = int(p->prio);
        VT_CHECK((unsigned)e.b >> eff & 1, "eligibility", "%d of effective priority %s was taken by a worker for priorities %02x", n->id, prioName(task_priority(eff)), (unsigned)e.b);
    }
    vt::nontrivial(w.configs.size() > 1);
    if (inherits) vt::label("inherited-priority");
    s->stop();
}
// the only worker for a priority is busy: nobody else takes its tasks
VT_SCENARIO(C08, held, 2) {
    auto s = std::make_unique<Sched>();
    std::vector<unsigned> masks; { // disjoint priority sets, one worker each
        int n = vt::range(2, 5); masks.assign((size_t)n, 0); for (int p = 0; p < 5; ++p) masks[p < n ? (size_t)p : vt::pick((uint32_t)n)] |= 1u << p; }
    vt::describe("workers:");
    WorkerGen w;
    for (auto m : masks) { oqpi::worker_config c; c.workerPrio = prioSet(m); c.count = 1; c.threadAttributes.name_ = "w" + std::to_string(w.total++) + "_"; w.configs.push_back(c); w.masks.push_back(m); vt::describe(" %02x", m); }
    registerAs<MaskCtx>(*s, w);
    s->start();
    size_t hold = vt::pick((uint32_t)masks.size());
    int hp = __builtin_ctz(masks[hold]);
    vt::Gate gate = vt::makeGate();
    auto blocker = mkTask(hp, [&] { vt::passGate(gate); }); s->add(blocker);
    vt::settle();
    int n = sized(1, 6, 40); int held = 0;
    std::vector<task_handle> hs; std::vector<int> eff;
    vt::describe(" blocked: %d, tasks:", hp);
    for (int i = 0; i < n; ++i) {
        int p = (int)vt::pick(5); eff.push_back(p);
        auto body = [i] { vt::cellAdd(C_EXEC + i, 1); vt::cellSet(C_SPARE + i, vt::self()); };
        if (vt::chance(1, 3)) { // in a sequence whose children inherit
            auto q = oqpi::make_sequence_group<task_type::waitable, oqpi::empty_group_context>(*s, "q", task_priority(p));
            q->addTask(mkTask(int(task_priority::inherit), [] { vt::yield(); }, false)); q->addTask(mkTask(int(task_priority::inherit), body, false));
            hs.push_back(task_handle(q));
        } else hs.push_back(mkTask(p, body));
        vt::describe(" %d", p);
        if (masks[hold] >> p & 1) ++held;
        s->add(hs.back());
    }
    vt::settle();
    for (int i = 0; i < n; ++i) {
        bool mine = masks[hold] >> eff[(size_t)i] & 1;
        VT_CHECK(vt::cell(C_EXEC + i) == (mine ? 0 : 1), "eligibility", "task %d of priority %d was executed %lld times while the only worker for it was %s", i, eff[(size_t)i], (long long)vt::cell(C_EXEC + i), mine ? "busy" : "free");
    }
    vt::openGate(gate);
    vt::settle();
    for (int i = 0; i < n; ++i) {
        VT_CHECK(vt::cell(C_EXEC + i) == 1, "lost-task", "task %d was executed %lld times", i, (long long)vt::cell(C_EXEC + i));
        VT_CHECK(maskOf((int)vt::cell(C_SPARE + i)) >> eff[(size_t)i] & 1, "eligibility", "task %d of priority %d was executed by a worker for %02x", i, eff[(size_t)i], maskOf((int)vt::cell(C_SPARE + i)));
    }
    vt::nontrivial(held > 0);
    s->stop();
}

// ------------------------------------------------------------------------------------------- C09
namespace {
constexpr int C_STOPPED = 20400, C_ONWORKER = 20401;
void cycles(Graph &g, const WorkerGen &w, bool groups) {
    auto s = std::make_unique<Sched>(); registerAs<MaskCtx>(*s, w);
    g.onBody = [](Node &n) {
        bool onWorker = isWorker(vt::self());
        if (onWorker) { VT_CHECK(vt::cell(C_STOPPED) == 0, "runs-after-stop", "task %d runs on a worker although the scheduler was stopped", n.id); vt::cellAdd(C_ONWORKER, 1); }
        for (int i = (int)vt::cell(C_SPARE + n.id); i > 0; --i) vt::yield();
        if (onWorker) { VT_CHECK(vt::cell(C_STOPPED) == 0, "runs-after-stop", "task %d still runs on a worker although the scheduler was stopped", n.id); vt::cellAdd(C_ONWORKER, -1); }
    };
    for (Node *n : g.all) vt::cellSet(C_SPARE + n->id, (int64_t)vt::pick(4));
    g.buildAll(*s);
    vt::cellSet(C_STOPPED, 1);
    int nc = vt::range(0, 2), rounds = sized(1, 3, std::max(3, 56 / w.total - 2)), ever = 0;
    std::vector<std::vector<std::pair<Node *, int>>> plan((size_t)nc + 1);
    vt::describe("clients:");
    for (auto &r : g.roots) { auto c = vt::pick((uint32_t)nc + 1); int act = r->waitable && r->kind == Leaf && c ? (int)vt::pick(3) : 0; plan[c].push_back({r.get(), act}); vt::describe(" %s%d@%u", act == 2 ? "activeWait" : act ? "add+wait" : "add", r->id, c); }
    auto untouched = [&](const char *when) {
        VT_CHECK(vt::cell(C_ONWORKER) == 0, "runs-after-stop", "%s: %lld tasks are still running on workers", when, (long long)vt::cell(C_ONWORKER));
        for (Node *n : g.all) if (n->kind == Leaf) {
            // executing clients may be in between
            if (vt::cell(C_EXEC + n->id) == 0) continue;
            VT_CHECK(vt::cell(C_EXEC + n->id) == 1, "executed-twice", "task %d was executed twice", n->id);
        }
    };
    {
        Clients c;
        for (int k = 1; k <= nc; ++k) c.add([&, k] { for (auto &[n, act] : plan[(size_t)k]) { task_handle h = n->h; if (act == 2) { h.activeWait(); } else s->add(h); } for (auto &[n, act] : plan[(size_t)k]) if (act == 1) { task_handle h = n->h; h.wait(); VT_CHECK(h.isDone(), "not-done", "not done after a wait"); } });
        if (vt::chance(1, 3)) { vt::describe(" [stop before start]"); s->stop(); }
        size_t next = 0;
        for (int r = 0; r < rounds; ++r) {
            auto some = [&] { int n = (int)vt::pick((uint32_t)plan[0].size() + 1); for (; n > 0 && next < plan[0].size(); --n) s->add(plan[0][next++].first->h); };
            some();
            vt::cellSet(C_STOPPED, 0); s->start(); ++ever;
            some();
            int y = (int)vt::pick(4); if (y == 3) vt::settle(); else for (int i = (int)vt::pick(1u << (2 + y)); i > 0; --i) vt::yield();
            some();
            s->stop(); vt::cellSet(C_STOPPED, 1);
            for (int f = 1; f < 64; ++f) if (isWorker(f)) VT_CHECK(vt::isFinished(f), "runs-after-stop", "a worker thread is alive after the scheduler was stopped");
            untouched("when stop returned");
            if (vt::chance(1, 2)) { // what was left is pending: nobody has touched it, and it can be executed by a waiting caller
                vt::settle();
                untouched("after stop");
                if (!nc) for (Node *n : g.all) if (n->kind == Leaf) {
                    bool ran = vt::cell(C_EXEC + n->id) == 1;
                    VT_CHECK(n->h.isDone() == ran, "half-done", "task %d is %s although it was %sexecuted", n->id, n->h.isDone() ? "done" : "not done", ran ? "" : "not ");
                    VT_CHECK(ran || !n->h.isGrabbed(), "half-done", "task %d was left grabbed but unexecuted", n->id);
                    if (!ran) vt::label("left-pending");
                }
                if (vt::chance(1, 3)) for (auto &r : g.roots) if (r->waitable && r->kind == Leaf && !r->h.isDone() && !r->h.isGrabbed() && vt::chance(1, 2)) { r->h.activeWait(); VT_CHECK(vt::cell(C_EXEC + r->id) == 1, "early-return", "activeWait on the pending task %d returned without its execution", r->id); vt::label("executed-while-stopped"); }
            }
            if (vt::chance(1, 4)) s->stop();
        }
        for (; next < plan[0].size(); ++next) s->add(plan[0][next].first->h);
        bool end = vt::chance(1, 4) && !nc;
        if (end && groups) vt::enableLeakCheck(false); // groups that were never executed: see C14
        if (!end) { vt::cellSet(C_STOPPED, 0); s->start(); c.join(); vt::settle(); g.checkExactlyOnce("after the last start"); }
        else c.join();
    }
    if (vt::chance(1, 2)) s->stop();
    s.reset();
    vt::nontrivial();
    (void)groups; (void)ever;
}
} // namespace
VT_SCENARIO(C09, tasks, 4) {
    GraphOpts o; o.groups = false; o.maxNodes = 8; o.nested = vt::chance(1, 2); Graph g(o);
    auto w = genWorkers(2, 3, false);
    g.generate(1, 8); g.describe();
    cycles(g, w, false);
}
VT_SCENARIO(C09, groups, 3) {
    GraphOpts o; o.maxNodes = 9; o.nested = vt::chance(1, 2); Graph g(o);
    auto w = genWorkers(2, 3, false);
    g.generate(1, 3); g.describe();
    cycles(g, w, true);
}

// a large backlog when the scheduler is stopped
VT_SCENARIO(C09, volume, 1) {
    int n = volumeSize(40000), cycles = vt::range(1, 3), form = (int)vt::pick(3);
    auto w = plainWorkers(vt::range(1, 3));
    auto s = std::make_unique<Sched>(); registerAll(*s, w);
    Tally tally(n);
    vt::describe("%d items as %s, %d cycles:", n, form == 0 ? "tasks" : form == 1 ? "a parallel group" : "a sequence", cycles);
    auto mk = [&](int i) { return task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("t", task_priority(form ? 2 : i % 5), [&tally, i] { tally.hit(i); vt::cellAdd(C_SPARE, 1); vt::yield(); vt::cellAdd(C_SPARE + 1, 1); })); };
    std::vector<task_handle> hs; bool before = vt::chance(1, 3);
    if (!before) s->start();
    auto add = [&](auto g) { for (int i = 0; i < n; ++i) g->addTask(mk(i)); hs.push_back(s->add(task_handle(g))); };
    if (form == 0) for (int i = 0; i < n; ++i) hs.push_back(s->add(mk(i)));
    else if (form == 1) add(oqpi::make_parallel_group<task_type::fire_and_forget, oqpi::empty_group_context>(*s, "g", task_priority::normal, n, vt::chance(1, 3) ? vt::range(1, n) : 0));
    else add(oqpi::make_sequence_group<task_type::fire_and_forget, oqpi::empty_group_context>(*s, "g", task_priority::normal));
    if (before) s->start();
    for (int c = 0; c < cycles; ++c) {
        for (int k = (int)vt::pick(vt::chance(1, 2) ? 8u : 400u); k > 0; --k) vt::yield();
        s->stop();
        int64_t ran = vt::cell(C_SPARE); vt::describe(" %lld", (long long)ran);
        VT_CHECK(vt::cell(C_SPARE + 1) == ran, "stop", "stop returned while %lld tasks were being executed", (long long)(ran - vt::cell(C_SPARE + 1)));
        vt::settle();
        VT_CHECK(vt::cell(C_SPARE) == ran, "stop", "%lld tasks were executed while the scheduler was stopped", (long long)(vt::cell(C_SPARE) - ran));
        if (vt::chance(1, 4)) for (auto &h : hs) { s->add(h); if (vt::chance(7, 8)) break; }
        s->start();
    }
    vt::settle();
    tally.exactlyOnce("once everything had settled after the last start");
    for (auto &h : hs) VT_CHECK(h.isDone(), "not-done", "not done although everything has settled");
    s->stop();
    vt::nontrivial();
}

// ------------------------------------------------------------------------------------------- C16
namespace {
constexpr int C_SUB = 21000; // submitted, per root
struct IdleObs {
    Graph &g; Sched &s; std::vector<char> before;
    explicit IdleObs(Graph &g, Sched &s) : g(g), s(s), before(g.roots.size()) { snap(); }
    void snap() { for (size_t i = 0; i < before.size(); ++i) before[i] = (char)vt::cell(C_SUB + (int)i); for (int i = 0; i < 64; ++i) extra[i] = (char)vt::cell(C_SUB + 500 + i); }
    char extra[64];
    const char *unfinished() { // of what had been submitted
        static char b[64];
        for (size_t i = 0; i < before.size(); ++i) if (before[i] && !Graph::finished(*g.roots[i])) { snprintf(b, sizeof b, "%d", g.roots[i]->id); return b; }
        for (int i = 0; i < 64; ++i) if (extra[i] && vt::cell(C_SUB + 600 + i) == 0) { snprintf(b, sizeof b, "spawned by %d", i); return b; }
        return nullptr;
    }
    void poll() { snap(); if (s.isIdle()) { const char *u = unfinished(); VT_CHECK(!u, "idle", "the scheduler reports being idle although %s, submitted before, has not finished", u); } }
};
void spawnExtra(Graph &g) { // some bodies submit a task nobody waits for
    g.onBody = [&g](Node &n) {
        if (vt::cell(C_SPARE + n.id) & 1 && n.id < 64) {
            int id = n.id;
            auto h = mkTask(2, [id] { vt::yield(); vt::yield(); vt::cellAdd(C_SUB + 600 + id, 1); }, false);
            g.sched->add(h); vt::cellSet(C_SUB + 500 + id, 1);
        }
        int64_t d = vt::cell(C_SPARE + n.id) >> 1; if (d) vt::sleepNs(d);
    };
}
} // namespace
VT_SCENARIO(C16, poll, 4) {
    GraphOpts o; o.maxNodes = 9; Graph g(o);
    auto w = genWorkers(2, 3, false);
    g.generate(1, 4); g.describe();
    spawnExtra(g);
    for (Node *n : g.all) vt::cellSet(C_SPARE + n->id, vt::chance(1, 4) ? 1 : 0);
    auto s = std::make_unique<Sched>(); registerAll(*s, w);
    g.buildAll(*s);
    VT_CHECK(s->isIdle(), "idle", "a new scheduler is not idle");
    bool late = vt::chance(1, 4); if (!late) s->start();
    Clients c;
    int np = sized(1, 2, 8), polls = sized(1, 10, 100);
    for (int i = 0; i < np; ++i) c.add([&] { IdleObs ob(g, *s); for (int k = 0; k < polls; ++k) { ob.poll(); vt::yield(); } });
    bool second = vt::chance(1, 2);
    auto submit = [&](size_t from) { for (size_t i = from; i < g.roots.size(); i += second ? 2 : 1) { s->add(g.roots[i]->h); if (vt::chance(1, 4)) s->add(g.roots[i]->h); vt::cellSet(C_SUB + (int)i, 1); } };
    if (second) c.add([&] { for (size_t i = 1; i < g.roots.size(); i += 2) { s->add(g.roots[i]->h); vt::cellSet(C_SUB + (int)i, 1); } });
    submit(0);
    if (late) { IdleObs ob(g, *s); ob.poll(); VT_CHECK(!s->isIdle(), "idle", "idle although nothing was started yet"); s->start(); }
    IdleObs ob(g, *s);
    for (int k = 0; k < polls; ++k) { ob.poll(); if (vt::chance(1, 2)) vt::yield(); }
    c.join();
    vt::settle();
    VT_CHECK(s->isIdle(), "idle", "the scheduler does not report being idle although nothing is pending or running");
    ob.poll();
    g.checkExactlyOnce("once everything had settled");
    vt::nontrivial(g.all.size() > 1 || polls > 2);
    bool stopped = vt::chance(1, 2); if (stopped) { s->stop(); VT_CHECK(s->isIdle(), "idle", "not idle after stop"); }
}
// tasks that take time, waits for idleness with a limit, stops in between
VT_SCENARIO(C16, wait, 3) {
    GraphOpts o; o.maxNodes = 7; o.nested = false; Graph g(o);
    auto w = genWorkers(2, 3, false);
    vt::setDrift(0);
    g.generate(1, 4); g.describe();
    spawnExtra(g);
    for (Node *n : g.all) vt::cellSet(C_SPARE + n->id, (vt::chance(1, 4) ? 1 : 0) + 2 * (vt::chance(1, 2) ? (int64_t)vt::pick(40) * 100000 : 0));
    auto s = std::make_unique<Sched>(); registerAll(*s, w);
    g.buildAll(*s); s->start();
    Clients c;
    int nw = vt::range(1, 2);
    struct P { int period, max, delay; }; std::vector<P> ps;
    for (int i = 0; i <= nw; ++i) ps.push_back({1 + (int)vt::pick(30), (int)vt::pick(12) * 10, (int)vt::pick(4)});
    auto waitIdle = [&](const P &p) {
        if (p.delay) vt::sleepNs(p.delay * 1000000);
        IdleObs ob(g, *s);
        int64_t t0 = vt::now();
        s->waitUntilIdle(std::chrono::microseconds(p.period * 100), std::chrono::microseconds(p.max * 100));
        int64_t dt = vt::now() - t0;
        const char *u = ob.unfinished();
        VT_CHECK(!u || dt >= (int64_t)p.max * 100000, "idle", "waitUntilIdle returned after %lld us of at most %d us although %s has not finished", (long long)(dt / 1000), p.max * 100, u);
        VT_CHECK(dt <= ((int64_t)p.max + 2 * p.period) * 100000 + 1000000, "idle", "waitUntilIdle took %lld us, the maximum is %d us with a period of %d us", (long long)(dt / 1000), p.max * 100, p.period * 100);
    };
    for (int i = 0; i < nw; ++i) c.add([&, i] { waitIdle(ps[(size_t)i]); });
    for (size_t i = 0; i < g.roots.size(); ++i) { s->add(g.roots[i]->h); vt::cellSet(C_SUB + (int)i, 1); if (vt::chance(1, 4)) vt::sleepNs((int64_t)vt::pick(20) * 100000); }
    if (vt::chance(1, 4)) { // what is pending while the scheduler is stopped counts
        s->stop(); IdleObs ob(g, *s); ob.poll(); s->start();
        vt::label("stopped");
    }
    waitIdle(ps[(size_t)nw]);
    c.join();
    s->waitUntilIdle(std::chrono::milliseconds(1), std::chrono::hours(1));
    VT_CHECK(s->isIdle(), "idle", "not idle after an hour");
    IdleObs ob(g, *s); ob.poll();
    g.checkExactlyOnce("once the scheduler was idle");
    vt::nontrivial();
    s->stop();
}
// limits and periods in all kinds of units, while something is held back and while nothing is
VT_SCENARIO(C16, limits, 2) {
    auto s = std::make_unique<Sched>(); int workers = vt::range(1, 3), rounds = sized(1, 3, 10); registerAll(*s, plainWorkers(workers)); s->start(); genPhase();
    for (int r = 0; r < rounds; ++r) {
        bool held = vt::chance(2, 3), pending = held && vt::chance(1, 3);
        Dur period = genDur(), max = genDur(); int64_t drift = 20;
        if (vt::chance(1, 4)) period.n = 0;
        if (period.n > 10000000000000ll) period.n %= 10000000000000ll;
        int64_t p = withDur(period, [](auto d) { return nsUp(d); }); if (p < 0) p = 0;
        // at most some hundred rounds
        int64_t bound = (p + 2000) * 200; if (max.n > bound) max.n %= bound;
        if (p < 2000) drift = 1 + std::max<int64_t>(max.n, 0) / 200; vt::setDrift(drift);
        vt::describe("%s[period %lld unit %d, limit %lld unit %d] ", pending ? "pending " : held ? "running " : "idle ", (long long)period.n, period.unit, (long long)max.n, max.unit);
        vt::Gate gate = vt::makeGate(); task_handle h;
        int n = held ? pending ? workers + 1 : vt::range(1, workers) : 0;
        for (int i = 0; i < n; ++i) h = s->add(task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority::normal, [gate] { vt::passGate(gate); })));
        if (!held) vt::settle();
        int64_t t0 = vt::now(), least = 0;
        withDur(period, [&](auto a) { withDur(max, [&](auto b) { least = slack(b); s->waitUntilIdle(a, b); return 0; }); return 0; });
        int64_t dt = vt::now() - t0, most = (held ? std::max<int64_t>(max.n, 0) + p : 0) + 3000 * (drift + 20) + std::max<int64_t>(max.n, 0) / 1000 + p / 1000;
        if (held) { VT_CHECK(!s->isIdle(), "idle", "idle although a task is held back"); VT_CHECK(dt >= least, "idle", "waitUntilIdle returned after %lld ns of at most %lld although a task is held back", (long long)dt, (long long)least); }
        else VT_CHECK(s->isIdle(), "idle", "not idle although nothing was submitted");
        VT_CHECK(dt <= most, "idle", "waitUntilIdle took %lld ns, with a limit of %lld, a period of %lld and the scheduler %sidle", (long long)dt, (long long)max.n, (long long)p, held ? "not " : "");
        vt::setDrift(20); vt::openGate(gate); vt::settle(); VT_CHECK(s->isIdle() && (!held || h.isDone()), "idle", "not idle although everything is done");
    }
    s->stop();
    vt::nontrivial(true);
}
VT_SCENARIO(C16, volume, 1) { volume<Sched>(0xff, true, 70000); }
// tasks taken over by other threads are discarded eventually
VT_SCENARIO(C16, stolen, 2) {
    auto w = plainWorkers(1 + (int)vt::pick(2));
    auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start();
    int n = sized(1, 4, 30);
    std::vector<task_handle> hs; for (int i = 0; i < n; ++i) hs.push_back(mkTask((int)vt::pick(5), [i] { vt::yield(); vt::cellAdd(C_EXEC + i, 1); }));
    Clients c;
    int nc = sized(1, 2, 10);
    for (int k = 0; k < nc; ++k) { int what = (int)vt::pick(3); vt::describe(" %d", what); c.add([&, what] { for (auto &h0 : hs) { task_handle h = h0; if (what == 0) h.activeWait(); else if (what == 1) { s->add(h); h.activeWait(); } else { h.executeSingleThreaded(); } } }); }
    for (auto &h : hs) { s->add(h); if (vt::chance(1, 3)) s->add(h); }
    c.join();
    s->waitUntilIdle(std::chrono::milliseconds(1), std::chrono::hours(1));
    VT_CHECK(s->isIdle(), "idle", "not idle after an hour");
    for (auto &h : hs) h.wait();
    for (int i = 0; i < n; ++i) VT_CHECK(vt::cell(C_EXEC + i) == 1, "executed-twice", "task %d executed %lld times", i, (long long)vt::cell(C_EXEC + i));
    vt::nontrivial();
    s->stop();
}

// ------------------------------------------------------------------------------------------- C32
namespace {
// what a worker reports of itself
constexpr int C_SELF = 20500;
struct SelfRec : oqpi::worker_context_base {
    SelfRec(oqpi::worker_base *o) : oqpi::worker_context_base(o) { VT_CHECK(owner() == o, "description", "the context of a worker has another owner"); }
    void same(const char *when) const {
        auto &w = *owner(); auto &c = w.getConfig();
        VT_CHECK(w.getName() == vt::nameOf(vt::self()), "description", "%s: worker %s runs on thread %s", when, w.getName().c_str(), vt::nameOf(vt::self()));
        VT_CHECK(c.count >= 1 && (c.count == 1 || (w.getId() >= 0 && w.getId() < c.count)), "description", "worker %d of %d", w.getId(), c.count);
        VT_CHECK(w.getName() == c.threadAttributes.name_ + (c.count > 1 ? std::to_string(w.getId()) : ""), "description", "%s: worker %d of %d of %s is named %s", when, w.getId(), c.count, c.threadAttributes.name_.c_str(), w.getName().c_str());
        VT_CHECK(w.getPriority() == c.workerPrio, "description", "%s: the priorities of a worker are %02x instead of %02x", when, (unsigned)w.getPriority(), (unsigned)c.workerPrio);
        for (int p = 0; p < 5; ++p) VT_CHECK(w.canWorkOnPriority(task_priority(p)) == ((int)c.workerPrio >> p & 1) && oqpi::can_work_on_priority(c.workerPrio, task_priority(p)) == w.canWorkOnPriority(task_priority(p)), "description", "%s: canWorkOnPriority(%s) of a worker for %02x", when, prioName(task_priority(p)), (unsigned)c.workerPrio);
    }
    void busy(const task_handle &h, bool b) const { VT_CHECK(owner()->isAvailable() == !b, "description", "a worker is %s", b ? "available while it executes a task" : "busy without a task"); if (b) VT_CHECK(h.isValid() && h.isGrabbed(), "description", "a worker executes nothing"); }
    void onStart() { vt::cellAdd(C_SELF, 1); same("when it starts"); busy({}, false); }
    void onStop() { same("when it stops"); busy({}, false); }
    void onIdle() { busy({}, false); }
    void onPreExecute(const task_handle &h) { same("before a task"); busy(h, true); vt::cellAdd(C_SELF + 1, 1); }
    void onPostExecute(const task_handle &h) { busy(h, true); }
};
using SelfWorker = oqpi::worker_context_container<SelfRec>;
}
VT_SCENARIO(C32, registration, 3) {
    auto s = std::make_unique<Sched>();
    struct C { unsigned mask; int count; std::string name; WPrio wp; };
    std::vector<C> cs;
    int total = 0, described = 0, expected = 0; int per[5] = {0, 0, 0, 0, 0};
    bool many = vt::chance(1, 16); if (many) vt::label("large");
    auto add = [&](WPrio wp, int count, bool fixed = false) {
        unsigned mask = wp.mask;
        // up to the 15 characters a thread name may have
        static const char *nm[] = {"w", "io_", "render", "bg-", "twelve_chars", "fourteen_chars"};
        const size_t k = vt::pick(6);
        C c{mask, count, (k == 5 && count > 1) || cs.size() >= 26 ? "x" : std::string(nm[k])}; c.name += (char)('a' + cs.size() % 26); if (k == 4 && count > 9) c.name.erase(0, 1);
        if (!fixed && !cs.empty() && vt::chance(1, 5)) { // registered before, by this name or altogether
            const C &o = cs[vt::pick((uint32_t)cs.size())];
            if (!(o.name.size() > 13 && count > 1) && !(o.name.size() > 12 && count > 9)) { c.name = o.name; vt::label("same name"); if (vt::chance(1, 2)) { wp = o.wp; c.mask = mask = wp.mask; if (o.count == 1) c.count = count = 1; } }
        }
        c.wp = wp; vt::describe(" %dx%02x'%s'", count, mask, c.name.c_str());
        cs.push_back(c);
        oqpi::worker_config wc; wc.threadAttributes.name_ = c.name; wc.workerPrio = wp.value; wc.count = count;
        total += count; for (int p = 0; p < 5; ++p) if (mask >> p & 1) per[p] += count;
        return wc;
    };
    auto counts = [&](const char *when) {
        VT_CHECK(s->workersTotalCount() == total, "workers", "%s: workersTotalCount is %d instead of %d", when, s->workersTotalCount(), total);
        for (int p = 0; p < 5; ++p) VT_CHECK(s->workersCount(task_priority(p)) == per[p], "workers", "%s: workersCount(%s) is %d instead of %d", when, prioName(task_priority(p)), s->workersCount(task_priority(p)), per[p]);
    };
    counts("before any registration");
    auto regSome = [&](bool all) {
        int n = vt::range(1, 4);
        for (int i = 0; i < n && total < (many ? 30 : 14); ++i) {
            int kind = (int)vt::pick(4);
            auto pickMask = genWorkerPrio;
            if (kind == 3) { oqpi::worker_config a[2] = {add(pickMask(), vt::range(0, 2)), add(pickMask(), vt::range(1, 3))}; if (vt::chance(1, 2)) s->registerWorkers<Thread, Sema>(a); else s->registerWorkers<Thread, Sema, RecWorker>(a); }
            else { auto c = add(pickMask(), kind == 2 ? 1 : vt::range(0, many ? 20 : 4)); switch (vt::pick(3)) { case 0: s->registerWorker<Thread, Sema>(c); break; case 1: s->registerWorker<Thread, Sema, RecWorker>(c); break; default: s->registerWorker<Thread, Sema, SelfWorker>(c); described += c.count; } }
            counts("after a registration");
        }
        if (all) { unsigned miss = 0; for (int p = 0; p < 5; ++p) if (!per[p]) miss |= 1u << p; if (miss) { s->registerWorker<Thread, Sema>(add({oqpi::worker_priority(miss), miss}, 1, true)); counts("after a registration"); } }
    };
    regSome(true);
    int cyclesN = vt::range(1, 3), threads = 0;
    for (int k = 0; k < cyclesN; ++k) {
        VT_CHECK(vt::liveFibers() == 0, "workers", "%d threads exist before the start", vt::liveFibers());
        int from = vt::createdThreads();
        s->start();
        VT_CHECK(vt::createdThreads() - from == total, "workers", "starting %d workers created %d threads", total, vt::createdThreads() - from);
        vt::settle();
        VT_CHECK(vt::liveFibers() == total, "workers", "%d of %d workers are running", vt::liveFibers(), total);
        expected += described;
        VT_CHECK(vt::cell(C_SELF) == expected, "workers", "%lld instead of %d contexts of workers were told that they start", (long long)vt::cell(C_SELF), expected);
        std::multiset<std::string> want, got;
        for (auto &c : cs) for (int i = 0; i < c.count; ++i) want.insert(c.count > 1 ? c.name + std::to_string(i) : c.name);
        for (int f = 1; f < 64; ++f) if (f > threads && f <= threads + total) got.insert(vt::nameOf(f));
        if (want != got) { std::string a, b; for (auto &x : want) a += x + " "; for (auto &x : got) b += x + " "; vt::fail("workers", "the worker threads are named %s instead of %s", b.c_str(), a.c_str()); }
        // all of them execute tasks
        std::vector<vt::Gate> gates; std::vector<task_handle> hs;
        bool disj = true; (void)disj;
        for (int p = 0; p < 5; ++p) {
            int n = vt::chance(1, 2) ? per[p] : 0; if (!n) continue;
            auto gate = vt::makeGate(); vt::cellSet(C_EXEC + p, 0);
            for (int i = 0; i < n; ++i) { hs.push_back(mkTask(p, [p, gate] { vt::cellAdd(C_EXEC + p, 1); vt::passGate(gate); })); s->add(hs.back()); }
            vt::settle();
            VT_CHECK(vt::cell(C_EXEC + p) == n, "workers", "%lld of %d workers for priority %s execute a task", (long long)vt::cell(C_EXEC + p), n, prioName(task_priority(p)));
            vt::openGate(gate);
            vt::settle();
        }
        s->stop();
        VT_CHECK(vt::liveFibers() == 0, "workers", "%d threads exist after stop", vt::liveFibers());
        counts("after stop");
        threads += total;
        if (k + 1 < cyclesN && total < 10 && vt::chance(1, 3)) regSome(false);
        if (threads + total > 50) break;
    }
    vt::nontrivial(cs.size() > 1 || total > 1);
}

// ------------------------------------------------------------------- several schedulers in one process
namespace {
// Schedulers that are registered, started, used and stopped independently of each other, one event at a time.
enum Judge { JStop, JIdle, JWorkers };
void independent(Judge what) {
    struct T { task_handle h; vt::Gate gate; bool open = false; };
    struct S { std::unique_ptr<Sched> s; int workers = 0; bool running = false; std::vector<int> queue; std::vector<int> active; std::vector<std::string> names; };
    int ns = vt::range(2, 3), nextTask = 0; std::vector<S> ss((size_t)ns); std::vector<std::unique_ptr<T>> ts; ts.reserve(200);
    for (int i = 0; i < ns; ++i) {
        S &x = ss[(size_t)i]; x.s = std::make_unique<Sched>();
        int cfgs = vt::range(1, 2);
        for (int c = 0; c < cfgs; ++c) { oqpi::worker_config wc; wc.count = vt::range(1, 2); wc.threadAttributes.name_ = "s" + std::to_string(i) + "c" + std::to_string(c) + "_"; x.s->registerWorker<Thread, Sema>(wc); x.workers += wc.count; for (int k = 0; k < wc.count; ++k) x.names.push_back(wc.threadAttributes.name_ + (wc.count > 1 ? std::to_string(k) : "")); }
        vt::describe("%d workers; ", x.workers);
    }
    auto fill = [&](S &x) { while (x.running && (int)x.active.size() < x.workers && !x.queue.empty()) { int id = x.queue.front(); x.queue.erase(x.queue.begin()); if (!ts[(size_t)id]->open) x.active.push_back(id); } };
    auto observe = [&] {
        vt::settle();
        int live = 0;
        for (size_t i = 0; i < ss.size(); ++i) {
            S &x = ss[i]; fill(x); live += x.running ? x.workers : 0;
            if (what == JStop) {
                for (int id : x.active) VT_CHECK(vt::cell(C_EXEC + id) == 1 && !ts[(size_t)id]->h.isDone(), "independent", "task %d of scheduler %zu is not being executed", id, i);
                for (int id : x.queue) VT_CHECK(vt::cell(C_EXEC + id) == 0 && !ts[(size_t)id]->h.isDone() && !ts[(size_t)id]->h.isGrabbed(), "runs-after-stop", "task %d was touched although scheduler %zu %s", id, i, x.running ? "has no worker for it" : "is stopped");
            } else if (what == JIdle) {
                bool want = x.queue.empty() && x.active.empty();
                VT_CHECK(x.s->isIdle() == want, "idle", "scheduler %zu reports being %s with %zu tasks pending and %zu running", i, want ? "busy" : "idle", x.queue.size(), x.active.size());
            } else {
                VT_CHECK(x.s->workersTotalCount() == x.workers, "workers", "scheduler %zu reports %d of %d workers", i, x.s->workersTotalCount(), x.workers);
                for (int p = 0; p < 5; ++p) VT_CHECK(x.s->workersCount(task_priority(p)) == x.workers, "workers", "scheduler %zu reports %d of %d workers for a priority", i, x.s->workersCount(task_priority(p)), x.workers);
            }
        }
        if (what == JWorkers) {
            VT_CHECK(vt::liveFibers() == live, "workers", "%d instead of %d workers are running", vt::liveFibers(), live);
            std::multiset<std::string> want, got;
            for (auto &x : ss) if (x.running) want.insert(x.names.begin(), x.names.end());
            for (int f = 1; f < 64; ++f) if (!vt::isFinished(f) && f <= vt::createdThreads()) got.insert(vt::nameOf(f));
            VT_CHECK(want == got, "workers", "the threads that run are not those of the schedulers that were started");
        }
    };
    int steps = sized(5, 20, 60), made = 0;
    vt::describe("steps:");
    for (int k = 0; k < steps; ++k) {
        size_t i = vt::pick((uint32_t)ns); S &x = ss[i];
        switch (vt::pick(6)) {
        case 0: case 1: {
            int id = nextTask++; if (id >= 150) break;
            ts.push_back(std::make_unique<T>()); T &t = *ts.back(); t.gate = vt::makeGate();
            auto gate = t.gate;
            t.h = mkTask((int)task_priority::normal, [id, gate] { vt::cellAdd(C_EXEC + id, 1); vt::passGate(gate); }, vt::chance(1, 2));
            vt::describe(" add%d@%zu", id, i);
            x.queue.push_back(id); x.s->add(t.h); break; }
        case 2: case 3: {
            if (x.active.empty()) { vt::describe(" -"); break; }
            size_t a = vt::pick((uint32_t)x.active.size()); int id = x.active[a];
            vt::describe(" finish%d", id);
            x.active.erase(x.active.begin() + (long)a); ts[(size_t)id]->open = true; vt::openGate(ts[(size_t)id]->gate);
            vt::settle(); VT_CHECK(ts[(size_t)id]->h.isDone(), "not-done", "task %d is not done", id);
            break; }
        default:
            if (!x.running) { if (made + x.workers > 45) break; made += x.workers; vt::describe(" start%zu", i); x.s->start(); x.running = true; }
            else if (x.active.empty() && vt::chance(2, 3)) { vt::describe(" stop%zu", i); x.s->stop(); x.running = false; }
            break;
        }
        observe();
    }
    for (auto &t : ts) { t->open = true; vt::openGate(t->gate); }
    vt::settle();
    std::vector<char> wasQueued((size_t)nextTask + 1, 0);
    for (auto &x : ss) { if (!x.running) for (int id : x.queue) wasQueued[(size_t)id] = 1; }
    for (int id = 0; id < (int)ts.size(); ++id) VT_CHECK(vt::cell(C_EXEC + id) == (wasQueued[(size_t)id] ? 0 : 1), "lost-task", "task %d was executed %lld times", id, (long long)vt::cell(C_EXEC + id));
    vt::nontrivial();
    for (auto &x : ss) { if (x.running && vt::chance(1, 2)) x.s->stop(); x.s.reset(); }
}
} // namespace
VT_SCENARIO(C09, independent, 1) { independent(JStop); }
VT_SCENARIO(C16, independent, 1) { independent(JIdle); }
VT_SCENARIO(C32, independent, 1) { independent(JWorkers); }
