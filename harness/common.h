// Shared by the scenario files: the library, and generators/oracles for task graphs.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "oqpi.hpp"
#include "rt.h"

namespace hv {

using Sched = oqpi::scheduler<concurrent_queue>;
using Thread = oqpi::thread_interface<>;
using Sema = oqpi::semaphore_interface<>;
using Event = oqpi::manual_reset_event_interface<>;
using oqpi::task_handle;
using oqpi::task_priority;
using oqpi::task_type;

enum : int { EvStart = 1, EvEnd = 2, EvPre = 3, EvPost = 4, EvWaitRet = 5, EvStopRet = 6, EvAdded = 7, EvTaskAdded = 8, EvUser = 20 };

inline const char *prioName(task_priority p) {
    static const char *n[] = {"high", "above", "normal", "below", "low", "?", "inherit"};
    return n[int(p) > 6 ? 5 : int(p)];
}

// Sizes: usually small, so that much is explored; sometimes large, for what only shows in numbers.
inline int sized(int lo, int hi, int large) { return vt::chance(1, 16) ? (vt::label("large"), vt::maxSteps(300000), vt::range(lo, large)) : vt::range(lo, hi); }

// ------------------------------------------------------------------------------------- workers
// Sets of priorities, by name or bit by bit, with what they mean.
struct WPrio { oqpi::worker_priority value; unsigned mask; };
inline const WPrio *namedPrios() {
    using W = oqpi::worker_priority;
    constexpr unsigned H = 1u << int(task_priority::high), A = 1u << int(task_priority::above_normal), N = 1u << int(task_priority::normal), B = 1u << int(task_priority::below_normal), L = 1u << int(task_priority::low);
    static const WPrio named[] = {{W::wprio_high, H}, {W::wprio_above_normal, A}, {W::wprio_normal, N}, {W::wprio_below_normal, B}, {W::wprio_low, L}, {W::wprio_any_normal, A | N | B}, {W::wprio_normal_or_low, A | N | B | L}, {W::wprio_normal_or_high, A | N | B | H}, {W::wprio_any, H | A | N | B | L}};
    return named;
}
inline oqpi::worker_priority prioSet(unsigned mask) { // under its name, if it has one
    for (int i = 0; i < 9; ++i) if (namedPrios()[i].mask == mask) return namedPrios()[i].value;
    return oqpi::worker_priority(mask);
}
inline WPrio genWorkerPrio() {
    using W = oqpi::worker_priority;
    auto *named = namedPrios();
    switch (vt::pick(4)) {
    case 0: return named[vt::pick(9)];
    case 1: { unsigned m = 1u + vt::pick(31); return {W(m), m}; }
    case 2: return named[5 + vt::pick(3)];
    default: return {W::wprio_any, 31u};
    }
}
struct WorkerGen {
    std::vector<oqpi::worker_config> configs;
    std::vector<unsigned> masks; // priorities each of them is meant to work on
    int total = 0;
};
// Whether the names of the workers tell their configuration
inline bool &tellingNames() { static bool b = false; return b; }
// Worker sets that cover every priority (the scheduler demands it).
inline WorkerGen genWorkers(int maxConfigs, int maxTotal, bool scale = true) {
    WorkerGen w;
    int n = vt::range(1, maxConfigs), perConfig = 3;
    if (scale && vt::chance(1, 24)) { maxTotal = 20; perConfig = 12; }
    unsigned covered = 0;
    vt::describe("workers:");
    for (int i = 0; i < n; ++i) {
        oqpi::worker_config c;
        bool last = i == n - 1;
        WPrio wp = genWorkerPrio();
        unsigned mask = wp.mask;
        if (last && (31u & ~(covered | mask))) { mask |= 31u & ~covered; wp.value = oqpi::worker_priority(mask); }
        covered |= mask;
        c.count = 1;
        int room = maxTotal - w.total - (n - 1 - i);
        if (room > 1) c.count = 1 + (int)vt::pick((uint32_t)std::min(room, perConfig));
        c.workerPrio = wp.value;
        w.masks.push_back(mask);
        c.threadAttributes.name_ = "w" + std::to_string(i) + "_";
        // the names mean nothing to the scheduler
        if (!tellingNames()) switch (vt::pick(8)) { case 0: c.threadAttributes.name_ = ""; break; case 1: c.threadAttributes.name_ = std::string((size_t)vt::range(1, 13), 'n'); break; default: break; }
        w.total += c.count;
        w.configs.push_back(c);
        vt::describe(" %dx%02x", c.count, mask);
    }
    vt::describe("; ");
    return w;
}
inline WorkerGen plainWorkers(int n) {
    WorkerGen w; oqpi::worker_config c; c.count = n; c.threadAttributes.name_ = "w"; w.configs.push_back(c); w.masks.push_back(31u); w.total = n;
    vt::describe("workers: %d; ", n);
    return w;
}
template <class T = Thread, class N = Sema, class S> void registerAll(S &s, const WorkerGen &w) { for (auto &c : w.configs) s.template registerWorker<T, N>(c); }

// ---------------------------------------------------------------------------------------- clients
// Runs closures on client threads (raw fibers: no code of the library involved).
struct Clients {
    struct Box { std::function<void()> f; };
    std::vector<std::unique_ptr<Box>> boxes;
    std::vector<int> ids;
    void add(std::function<void()> f) {
        boxes.push_back(std::make_unique<Box>(Box{std::move(f)}));
        ids.push_back(vt::spawnRaw([](void *p) { ((Box *)p)->f(); }, boxes.back().get()));
    }
    void join() { for (int i : ids) vt::joinRaw(i); ids.clear(); }
    ~Clients() { join(); }
};

// ------------------------------------------------------------------------------------- task graphs
enum Kind : uint8_t { Leaf, Seq, Par };
struct Node {
    int id = 0; Kind kind = Leaf; task_priority prio = task_priority::normal; bool waitable = true; int maxSim = 0; int noLimit = 0; int hint = 0; int sch = 0;
    int yields = 0; int nested = 0; int nestedN = 0; bool hasResult = false;
    std::vector<std::unique_ptr<Node>> kids; Node *parent = nullptr;
    int64_t *data = nullptr;         // user memory written by the body (own heap block)
    task_handle h;
    std::shared_ptr<void> typed;     // keeps the task for getResult
    std::function<int64_t()> result;       // getResult on the typed task
    std::function<int64_t()> waitResult;   // waitForResult on the typed task
};
struct GraphOpts {
    int maxNodes = 12; int maxDepth = 3; int maxKids = 4;
    bool groups = true, seqs = true, pars = true, nested = true, inherit = true, limits = true, ff = true;
    int prios = 5; // number of distinct priorities to use, 1 = normal only
    int scheds = 1; // number of schedulers used by one graph
    bool scale = true; // sometimes many more nodes, children, levels or roots
};

inline int64_t valueOf(int id) { return 1000003ll * (id + 1) + 17; }

// Result of a task. The one stored in the task (default constructed) is watched by the race detector.
struct Res {
    int64_t v;
    Res() : v(-1) { vt::watch(&v, sizeof v); }
    explicit Res(int64_t x) : v(x) {}
};

// Cells: 0.. executions per task (tasks of bodies from 1024), 4096.. running flag, 8192.. spare, 20000.. of one file
constexpr int C_EXEC = 0, C_RUN = 4096, C_SPARE = 8192;

template <class S, class E = Event> struct GraphT {
    std::vector<std::unique_ptr<Node>> roots;
    std::vector<Node *> all;
    GraphOpts o;
    S *sched = nullptr;                      // the first of them
    std::vector<S *> scheds;
    int nextId = 0;
    std::function<void(Node &)> onBody;      // extra work of a leaf body
    bool readPrev = false;                   // children of sequences read what the previous child wrote
    bool nestedNow = true;
    bool large = false;

    explicit GraphT(const GraphOpts &o) : o(o) { all.reserve(512); }
    ~GraphT() { for (Node *n : all) delete n->data; }
    GraphT(const GraphT &) = delete;
    S &schedOf(const Node &n) { return *scheds[(size_t)n.sch % scheds.size()]; }

    task_priority genPrio(bool hasParent) {
        if (o.inherit && hasParent && vt::chance(1, 4)) return task_priority::inherit;
        if (o.prios <= 1) return task_priority::normal;
        return task_priority(vt::pick((uint32_t)o.prios));
    }
    std::unique_ptr<Node> gen(Node *parent, int depth, int &budget) {
        auto n = std::make_unique<Node>();
        n->id = nextId++; n->parent = parent; --budget;
        all.push_back(n.get());
        n->data = new int64_t(0);
        n->prio = genPrio(parent != nullptr);
        bool group = o.groups && depth > 0 && budget > 0 && vt::chance(large && depth == o.maxDepth ? 7 : 4, 8);
        if (group && (o.seqs || o.pars)) {
            n->kind = !o.pars ? Seq : !o.seqs ? Par : (vt::chance(1, 2) ? Seq : Par);
            int k = 1 + (int)vt::pick((uint32_t)o.maxKids);
            if (n->kind == Par && o.limits && vt::chance(1, 3)) n->maxSim = 1 + (int)vt::pick(large && vt::chance(1, 2) ? 24 : 3);
            if (n->kind == Par && !n->maxSim && vt::chance(1, 16)) n->noLimit = vt::chance(1, 8) ? INT32_MIN : -1 - (int)vt::pick(3); // no limit either
            for (int i = 0; i < k && (i == 0 || budget > 0); ++i) n->kids.push_back(gen(n.get(), depth - 1, budget));
            n->hint = (int)n->kids.size();
            if (n->kind == Par && vt::chance(1, 3)) n->hint = (int)vt::pick((uint32_t)n->kids.size() + 4); // only how many to expect
        } else {
            n->yields = (int)vt::pick(4);
            n->hasResult = vt::chance(1, 2);
            if (o.nested && vt::chance(1, 5)) { n->nested = 1 + (int)vt::pick(3); n->nestedN = 1 + (int)vt::pick(3); }
        }
        n->waitable = !o.ff || !vt::chance(1, 3);
        if (o.scheds > 1) n->sch = (int)vt::pick((uint32_t)o.scheds);
        return n;
    }
    void generate(int minRoots, int maxRoots) {
        if (o.scale && vt::chance(1, 20)) {
            large = true; vt::label("large-graph"); vt::maxSteps(300000);
            switch (o.groups ? vt::pick(4) : 3) {
            case 0: o.maxNodes = 48; o.maxKids = 40; break;
            case 1: o.maxNodes = 40; o.maxKids = 2; o.maxDepth = 9; break;
            case 2: o.maxNodes = 48; o.maxKids = 9; o.maxDepth += 2; break;
            default: o.maxNodes = 40; if (maxRoots > 1) maxRoots = 32; break;
            }
        }
        int budget = o.maxNodes;
        int r = vt::range(minRoots, maxRoots);
        for (int i = 0; i < r && (i < minRoots || budget > 0); ++i) roots.push_back(gen(nullptr, o.maxDepth, budget));
    }
    static void show(const Node &n) {
        if (n.kind == Leaf) vt::describe("%d%s%s%s", n.id, n.waitable ? "" : "!", n.prio == task_priority::normal ? "" : prioName(n.prio), n.nested ? "+nested" : "");
        else {
            vt::describe("%d%s%s%s", n.id, n.kind == Seq ? "S" : "P", n.waitable ? "" : "!", n.prio == task_priority::normal ? "" : prioName(n.prio));
            if (n.maxSim || n.noLimit) vt::describe("<=%d", n.maxSim + n.noLimit);
            if (n.hint != (int)n.kids.size()) vt::describe("hint%d", n.hint);
            vt::describe("(");
            for (auto &k : n.kids) { show(*k); vt::describe(" "); }
            vt::describe(")");
        }
    }
    void watchData() { for (Node *n : all) if (n->kind == Leaf) vt::watch(n->data, sizeof *n->data); }
    void describe() { vt::describe("graph:"); for (auto &r : roots) { vt::describe(" "); show(*r); } vt::describe("; "); }

    // ------------------------------------------------------------------ bodies
    void body(Node *n) {
        vt::log(EvStart, n->id);
        vt::cellAdd(C_EXEC + n->id, 1);
        vt::cellAdd(C_RUN + n->id, 1);
        if (readPrev) checkPrevVisible(*n);
        for (int i = 0; i < n->yields; ++i) vt::yield();
        if (onBody) onBody(*n);
        if (n->nested && nestedNow) runNested(*n);
        *n->data = valueOf(n->id);
        vt::cellAdd(C_RUN + n->id, -1);
        vt::log(EvEnd, n->id);
    }
    // Work submitted and actively waited for by a body; flat, so that it completes even on one worker.
    void runNested(Node &n) {
        auto prio = n.prio == task_priority::inherit ? task_priority::normal : n.prio;
        int base = 1024 + n.id * 4;
        auto mk = [&](int k) {
            int id = base + k;
            return [id]() { vt::log(EvStart, id); vt::cellAdd(C_EXEC + id, 1); vt::yield(); vt::log(EvEnd, id); };
        };
        if (n.nested == 1) {
            for (int k = 0; k < n.nestedN; ++k) {
                auto t = oqpi::make_task<task_type::waitable, E, oqpi::empty_task_context>("n", prio, mk(k));
                auto h = schedOf(n).add(task_handle(t));
                h.activeWait();
                VT_CHECK(vt::cell(C_EXEC + base + k) == 1, "early-return", "activeWait on nested task %d returned with %lld executions", base + k, (long long)vt::cell(C_EXEC + base + k));
                VT_CHECK(h.isDone(), "not-done", "nested task not done after activeWait");
            }
        } else if (n.nested == 2) {
            auto grp = oqpi::make_parallel_group<task_type::waitable, oqpi::empty_group_context>(schedOf(n), "ng", prio, n.nestedN);
            for (int k = 0; k < n.nestedN; ++k) grp->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, E, oqpi::empty_task_context>("n", prio, mk(k))));
            schedOf(n).add(task_handle(grp)).activeWait();
            for (int k = 0; k < n.nestedN; ++k) VT_CHECK(vt::cell(C_EXEC + base + k) == 1, "early-return", "activeWait on a nested group returned with child %d executed %lld times", k, (long long)vt::cell(C_EXEC + base + k));
        } else {
            oqpi::parallel_for<E, oqpi::empty_group_context, oqpi::empty_task_context>(schedOf(n), "pf", oqpi::simple_partitioner(n.nestedN, 2), prio, [&](int i) { vt::cellAdd(C_EXEC + base + i, 1); });
            for (int k = 0; k < n.nestedN; ++k) VT_CHECK(vt::cell(C_EXEC + base + k) == 1, "early-return", "nested parallel_for returned with index %d executed %lld times", k, (long long)vt::cell(C_EXEC + base + k));
        }
    }
    // what must have happened before a node starts: its previous siblings in all enclosing sequences
    template <class F> static void forPredecessors(const Node &n, F f) {
        for (const Node *c = &n; c->parent; c = c->parent)
            if (c->parent->kind == Seq) for (auto &k : c->parent->kids) { if (k.get() == c) break; f(*k); }
    }
    template <class F> static void forLeaves(const Node &n, F f) { if (n.kind == Leaf) f(n); else for (auto &k : n.kids) forLeaves(*k, f); }
    void checkPrevVisible(const Node &n) {
        forPredecessors(n, [&](const Node &p) { forLeaves(p, [&](const Node &l) {
            VT_CHECK(*l.data == valueOf(l.id), "order", "task %d started before task %d of an earlier element of its sequence had finished", n.id, l.id); }); });
    }

    // ------------------------------------------------------------------ construction
    template <class TC, class GC> void build(Node &n) {
        Node *p = &n;
        if (n.kind == Leaf) {
            if (n.hasResult) {
                auto f = [this, p]() -> Res { body(p); return Res(valueOf(p->id) + 1); };
                if (n.waitable) {
                    auto t = oqpi::make_task<task_type::waitable, E, TC>("t" + std::to_string(n.id), n.prio, f);
                    n.h = task_handle(t); auto *raw = t.get(); n.typed = t;
                    n.result = [raw]() { return raw->getResult().v; }; n.waitResult = [raw]() { return raw->waitForResult().v; };
                } else {
                    auto t = oqpi::make_task<task_type::fire_and_forget, E, TC>("t" + std::to_string(n.id), n.prio, f);
                    n.h = task_handle(t); auto *raw = t.get(); n.typed = t; n.result = [raw]() { return raw->getResult().v; };
                }
            } else {
                auto f = [this, p]() { body(p); };
                if (n.waitable) n.h = task_handle(oqpi::make_task<task_type::waitable, E, TC>("t" + std::to_string(n.id), n.prio, f));
                else n.h = task_handle(oqpi::make_task<task_type::fire_and_forget, E, TC>("t" + std::to_string(n.id), n.prio, f));
            }
            return;
        }
        std::string name = "g" + std::to_string(n.id);
        if (n.kind == Seq) {
            if (n.waitable) fill<TC, GC>(n, oqpi::make_sequence_group<task_type::waitable, GC>(schedOf(n), name, n.prio));
            else fill<TC, GC>(n, oqpi::make_sequence_group<task_type::fire_and_forget, GC>(schedOf(n), name, n.prio));
        } else {
            if (n.waitable) fill<TC, GC>(n, oqpi::make_parallel_group<task_type::waitable, GC>(schedOf(n), name, n.prio, n.hint, n.maxSim ? n.maxSim : n.noLimit));
            else fill<TC, GC>(n, oqpi::make_parallel_group<task_type::fire_and_forget, GC>(schedOf(n), name, n.prio, n.hint, n.maxSim ? n.maxSim : n.noLimit));
        }
    }
    template <class TC, class GC, class G> void fill(Node &n, G g) {
        n.h = task_handle(g);
        for (auto &k : n.kids) { build<TC, GC>(*k); g->addTask(k->h); }
    }
    template <class TC = oqpi::empty_task_context, class GC = oqpi::empty_group_context> void buildAll(S &s) { buildAll<TC, GC>(std::vector<S *>{&s}); }
    template <class TC = oqpi::empty_task_context, class GC = oqpi::empty_group_context> void buildAll(std::vector<S *> s) {
        sched = s[0]; scheds = std::move(s);
        for (auto &r : roots) build<TC, GC>(*r);
    }
    void dropHandles() { for (Node *n : all) { n->h.reset(); n->typed.reset(); n->result = nullptr; n->waitResult = nullptr; } }

    // ------------------------------------------------------------------ oracles
    static bool executedOnce(const Node &n) { return vt::cell(C_EXEC + n.id) == 1; }
    static bool leafFinished(const Node &n) { return vt::cell(C_EXEC + n.id) >= 1 && vt::cell(C_RUN + n.id) == 0; }
    static bool finished(const Node &n) { bool ok = true; forLeaves(n, [&](const Node &l) { if (!leafFinished(l)) ok = false; }); return ok; }
    // all leaves below the node ended and what they wrote is visible (plain reads: the race detector sees them)
    static void checkCompleted(const Node &n, const char *what) {
        forLeaves(n, [&](const Node &l) {
            VT_CHECK(leafFinished(l), "early-return", "%s on %d returned before task %d had finished", what, n.id, l.id);
            VT_CHECK(*l.data == valueOf(l.id), "early-return", "%s on %d returned without the effects of task %d", what, n.id, l.id);
        });
    }
    void checkExactlyOnce(const char *when) {
        for (Node *n : all) if (n->kind == Leaf) {
            long long e = vt::cell(C_EXEC + n->id);
            VT_CHECK(e <= 1, "executed-twice", "%s: task %d was executed %lld times", when, n->id, e);
            VT_CHECK(e >= 1, "lost-task", "%s: task %d was never executed", when, n->id);
            VT_CHECK(vt::cell(C_RUN + n->id) == 0, "stuck-task", "%s: task %d did not finish", when, n->id);
            if (n->nested && nestedNow) for (int k = 0; k < n->nestedN; ++k) VT_CHECK(vt::cell(C_EXEC + 1024 + n->id * 4 + k) == 1, "executed-twice", "%s: nested task of %d executed %lld times", when, n->id, (long long)vt::cell(C_EXEC + 1024 + n->id * 4 + k));
        }
        for (Node *n : all) if (n->h.isValid()) VT_CHECK(n->h.isDone(), "not-done", "%s: %d is not done although everything was executed", when, n->id);
    }
    // position in the log of the first start / last end of the leaves below a node
    static void span(const Node &n, size_t &first, size_t &last) {
        first = SIZE_MAX; last = 0;
        auto ev = vt::events();
        forLeaves(n, [&](const Node &l) {
            for (size_t i = 0; i < ev.size(); ++i) if (ev[i].a == l.id) {
                if (ev[i].kind == EvStart && i < first) first = i;
                if (ev[i].kind == EvEnd && i > last) last = i;
            }
        });
    }
    void checkSequenceOrder() {
        for (Node *n : all) if (n->kind == Seq) {
            size_t prevEnd = 0;
            for (size_t i = 0; i < n->kids.size(); ++i) {
                size_t f, l; span(*n->kids[i], f, l);
                VT_CHECK(i == 0 || f > prevEnd, "order", "sequence %d: element %zu started before element %zu had finished", n->id, i, i - 1);
                prevEnd = l;
            }
        }
    }
};
using Graph = GraphT<Sched>;

// ------------------------------------------------------------------------------- recording contexts
enum : int { HTPre = 100, HTPost, HTAdded, HGPre, HGPost, HGAdded, HGTaskAdded, HWStart, HWStop, HWIdle, HWActive, HWPre, HWPost };
template <int K> struct TaskRec : oqpi::task_context_base {
    TaskRec(oqpi::task_base *o, const std::string &n) : oqpi::task_context_base(o, n) {}
    void onAddedToGroup(const oqpi::task_group_sptr &g) { vt::log(HTAdded + K * 100, (int64_t)owner()->getUID(), g ? (int64_t)g->getUID() : -1); }
    void onPreExecute() { vt::log(HTPre + K * 100, (int64_t)owner()->getUID()); }
    void onPostExecute() { vt::log(HTPost + K * 100, (int64_t)owner()->getUID()); }
};
template <int K> struct GroupRec : oqpi::group_context_base {
    GroupRec(oqpi::task_group_base *o, const std::string &n) : oqpi::group_context_base(o, n) {}
    void onAddedToGroup(const oqpi::task_group_sptr &g) { vt::log(HGAdded + K * 100, (int64_t)owner()->getUID(), g ? (int64_t)g->getUID() : -1); }
    void onTaskAdded(const task_handle &h) { vt::log(HGTaskAdded + K * 100, (int64_t)owner()->getUID(), h.isValid() ? (int64_t)h.getUID() : -1); }
    void onPreExecute() { vt::log(HGPre + K * 100, (int64_t)owner()->getUID()); }
    void onPostExecute() { vt::log(HGPost + K * 100, (int64_t)owner()->getUID()); }
};
template <int K> struct WorkerRec : oqpi::worker_context_base {
    WorkerRec(oqpi::worker_base *o) : oqpi::worker_context_base(o) {}
    void onStart() { vt::log(HWStart + K * 100, (int64_t)(intptr_t)owner()); }
    void onStop() { vt::log(HWStop + K * 100, (int64_t)(intptr_t)owner()); }
    void onIdle() { vt::log(HWIdle + K * 100, (int64_t)(intptr_t)owner()); }
    void onActive() { vt::log(HWActive + K * 100, (int64_t)(intptr_t)owner()); }
    void onPreExecute(const task_handle &h) { vt::log(HWPre + K * 100, h.isValid() ? (int64_t)h.getUID() : -1, (int64_t)(intptr_t)owner()); }
    void onPostExecute(const task_handle &h) { vt::log(HWPost + K * 100, h.isValid() ? (int64_t)h.getUID() : -1, (int64_t)(intptr_t)owner()); }
};
using RecTask = oqpi::task_context_container<TaskRec<0>, TaskRec<1>>;
using RecGroup = oqpi::group_context_container<GroupRec<0>, GroupRec<1>>;
using RecWorker = oqpi::worker_context_container<WorkerRec<0>, WorkerRec<1>>;

// Hooks as recorded for one graph. strictGroups: groups were executed by workers (or single threaded) only.
struct HookCheck {
    std::map<int64_t, Node *> byUid;
    std::map<int, int64_t> uidOf;
    explicit HookCheck(Graph &g) { for (Node *n : g.all) { byUid[(int64_t)n->h.getUID()] = n; uidOf[n->id] = (int64_t)n->h.getUID(); } }
    struct Per { std::vector<size_t> pre[2], post[2], start, end; int added[2] = {0, 0}; std::map<int64_t, int> tadded[2]; int64_t parent[2] = {-1, -1}; };
    void check(Graph &g, bool strictGroups) {
        std::map<int64_t, Per> per;
        auto ev = vt::events();
        for (size_t i = 0; i < ev.size(); ++i) {
            const auto &e = ev[i];
            if (e.kind == EvStart || e.kind == EvEnd) { auto it = uidOf.find((int)e.a); if (it != uidOf.end()) (e.kind == EvStart ? per[it->second].start : per[it->second].end).push_back(i); continue; }
            if (e.kind < 100) continue;
            int k = (e.kind - 100) / 100, what = 100 + (e.kind - 100) % 100;
            if (k > 1) continue;
            Per &p = per[e.a];
            switch (what) {
            case HTPre: case HGPre: p.pre[k].push_back(i); break;
            case HTPost: case HGPost: p.post[k].push_back(i); break;
            case HTAdded: case HGAdded: p.added[k]++; p.parent[k] = e.b; break;
            case HGTaskAdded: p.tadded[k][e.b]++; break;
            }
        }
        for (Node *n : g.all) {
            int64_t uid = uidOf[n->id];
            Per &p = per[uid];
            for (int k = 0; k < 2; ++k) {
                VT_CHECK(p.added[k] == (n->parent ? 1 : 0), "hooks", "context %d of %d was told %d times that it was added to a group", k, n->id, p.added[k]);
                if (n->parent) VT_CHECK(p.parent[k] == uidOf[n->parent->id], "hooks", "context %d of %d was told that it was added to another group", k, n->id);
                VT_CHECK(p.tadded[k].size() == n->kids.size(), "hooks", "context %d of group %d was told about %zu additions instead of %zu", k, n->id, p.tadded[k].size(), n->kids.size());
                for (auto &c : n->kids) VT_CHECK(p.tadded[k][uidOf[c->id]] == 1, "hooks", "context %d of group %d was told %d times about child %d", k, n->id, p.tadded[k][uidOf[c->id]], c->id);
                VT_CHECK(p.post[k].size() == 1, "hooks", "post-execution hook of context %d of %d was called %zu times", k, n->id, p.post[k].size());
                if (n->kind == Leaf || strictGroups) VT_CHECK(p.pre[k].size() == 1, "hooks", "pre-execution hook of context %d of %d was called %zu times", k, n->id, p.pre[k].size());
            }
            if (p.pre[0].size() == 1 && p.pre[1].size() == 1) VT_CHECK(p.pre[0][0] < p.pre[1][0], "hooks", "pre-execution hooks of %d were called in the wrong order", n->id);
            VT_CHECK(p.post[0][0] < p.post[1][0], "hooks", "post-execution hooks of %d were called in the wrong order", n->id);
            if (n->kind == Leaf) {
                VT_CHECK(p.start.size() == 1 && p.end.size() == 1, "executed-twice", "task %d was started %zu times", n->id, p.start.size());
                VT_CHECK(p.pre[1][0] < p.start[0], "hooks", "pre-execution hook of task %d was called after it started", n->id);
                VT_CHECK(p.end[0] < p.post[0][0], "hooks", "post-execution hook of task %d was called before it had finished", n->id);
                int f = ev[p.start[0]].fiber;
                VT_CHECK(ev[p.pre[0][0]].fiber == f && ev[p.pre[1][0]].fiber == f && ev[p.post[0][0]].fiber == f && ev[p.post[1][0]].fiber == f, "hooks", "hooks of task %d were called from another thread", n->id);
            }
        }
        for (Node *n : g.all) if (n->kind != Leaf) {
            Per &p = per[uidOf[n->id]];
            forAllBelow(*n, [&](const Node &c) {
                Per &q = per[uidOf[c.id]];
                size_t first = c.kind == Leaf ? q.start[0] : q.pre[0].empty() ? SIZE_MAX : q.pre[0][0];
                size_t last = c.kind == Leaf ? q.end[0] : q.post[0][0];
                if (strictGroups) VT_CHECK(p.pre[1][0] < first, "hooks", "pre-execution hook of group %d was called after %d inside it started", n->id, c.id);
                VT_CHECK(last < p.post[0][0], "hooks", "post-execution hook of group %d was called before %d inside it had finished", n->id, c.id);
            });
        }
    }
    template <class F> static void forAllBelow(const Node &n, F f) { for (auto &k : n.kids) { f(*k); forAllBelow(*k, f); } }
    // waiters logged EvWaitRet(uid) after a wait returned
    void checkWaits() {
        std::map<int64_t, size_t> post; auto ev = vt::events();
        for (size_t i = 0; i < ev.size(); ++i) {
            if (ev[i].kind == HTPost + 100 || ev[i].kind == HGPost + 100) post[ev[i].a] = i;
            if (ev[i].kind == EvWaitRet) VT_CHECK(post.count(ev[i].a), "hooks", "a wait on %d returned before its post-execution hook had run", byUid.count(ev[i].a) ? byUid[ev[i].a]->id : -1);
        }
    }
    static void checkWorkers(int starts) {
        auto ev = vt::events();
        std::map<int, int> state; // fiber -> 0 none, 1 idle next, 2 active next, 3 pre/idle/stop next, 4 post next, 5 stopped
        std::map<int, int64_t> task, owner; std::map<int, std::pair<int, int64_t>> second; // the same call is expected for context 1
        int started = 0, stopped = 0;
        std::set<int> workers;
        for (auto &e : ev) if (e.kind == HWStart) workers.insert(e.fiber);
        for (auto &e : ev) {
            if (e.kind == EvStart && workers.count(e.fiber)) VT_CHECK(state[e.fiber] == 4, "hooks", "a worker executed task %lld outside of its pre/post hooks", (long long)e.a);
            if (e.kind < 100) continue;
            int k = (e.kind - 100) / 100, what = 100 + (e.kind - 100) % 100;
            if (what < HWStart || what > HWPost || k > 1) continue;
            int &s = state[e.fiber];
            if (k == 1) {
                VT_CHECK((second[e.fiber] == std::make_pair(what, e.a)), "hooks", "second context of a worker was not called right after the first");
                second[e.fiber] = {0, 0};
                continue;
            }
            VT_CHECK(second[e.fiber].first == 0, "hooks", "second context of a worker was not called");
            second[e.fiber] = {what, e.a};
            int64_t own = what == HWPre || what == HWPost ? e.b : e.a;
            if (what == HWStart) owner[e.fiber] = own;
            VT_CHECK(owner[e.fiber] == own, "hooks", "hook of another worker called from this worker's thread");
            bool ok = false;
            switch (what) {
            case HWStart: ok = s == 0; s = 1; ++started; break;
            case HWIdle: ok = s == 1 || s == 3; s = 2; break;
            case HWActive: ok = s == 2; s = 3; break;
            case HWPre: ok = s == 3; s = 4; task[e.fiber] = e.a; break;
            case HWPost: ok = s == 4 && task[e.fiber] == e.a; s = 1; break;
            case HWStop: ok = s == 1 || s == 3; s = 5; ++stopped; break;
            }
            VT_CHECK(ok, "hooks", "worker hook %d called out of order", what - HWStart);
        }
        VT_CHECK(started == starts, "hooks", "onStart was called %d times for %d workers", started, starts);
        VT_CHECK(stopped == starts, "hooks", "onStop was called %d times for %d workers", stopped, starts);
    }
};

} // namespace hv
