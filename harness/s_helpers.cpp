// C31: the helper functions against what their documentation says they create.
#include <deque>
#include "common.h"
#include "tok.h"
using namespace hv;

namespace {
enum : int { EvTaskCtx = 30, EvGroupCtx = 31, EvItem = 32, EvWorkerCtx = 33 };
constexpr int C_EVENTS = 20000, C_NOW = 20001, C_MAX = 20002, C_ITEM = 21000;
uint32_t hashName(const std::string &s) { uint32_t h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h; }
int64_t packed(int kind, task_priority p, uint32_t hash) { return (int64_t)kind | (int64_t)p << 8 | (int64_t)hash << 16; }
// The event type of the toolkit counts how many tasks were given one.
struct CountEvent : Event { CountEvent() : Event() { vt::cellAdd(C_EVENTS, 1); } };
template <int K> struct TCtx : oqpi::task_context_base {
    TCtx(oqpi::task_base *o, const std::string &n) : oqpi::task_context_base(o, n) { vt::log(EvTaskCtx, (int64_t)o->getUID(), packed(K, o->getPriority(), hashName(n))); }
};
template <int K> struct GCtx : oqpi::group_context_base {
    GCtx(oqpi::task_group_base *o, const std::string &n) : oqpi::group_context_base(o, n) {
        std::string s = n; auto p = s.find(" ("); if (p != std::string::npos) s.resize(p); // parallel loops add the number of items
        vt::log(EvGroupCtx, (int64_t)o->getUID(), packed(K, o->getPriority(), hashName(s)));
    }
};
struct WCtxBase : oqpi::worker_context_base { WCtxBase(oqpi::worker_base *o) : oqpi::worker_context_base(o) { vt::log(EvWorkerCtx); } };
using WCtx = oqpi::worker_context_container<WCtxBase>;
using DefT = oqpi::task_context_container<TCtx<0>>;
using UsrT = oqpi::task_context_container<TCtx<1>>;
using DefG = oqpi::group_context_container<GCtx<0>>;
using UsrG = oqpi::group_context_container<GCtx<1>>;
using H = oqpi::helpers<Sched, DefG, DefT, CountEvent>;
constexpr auto W = task_type::waitable;
constexpr auto F = task_type::fire_and_forget;

vt::Gate gate; bool gated;
void ran(int id) {
    vt::log(EvStart, id);
    vt::cellAdd(C_EXEC + id, 1);
    vt::cellMax(C_MAX, vt::cellAdd(C_NOW, 1));
    if (gated) vt::passGate(gate);
    vt::cellAdd(C_NOW, -1);
    vt::log(EvEnd, id);
}
// The callables; the one given to the helper is changed as soon as the helper has returned.
struct Body {
    int id;
    void operator()() { ran(id); }
    int64_t operator()(int a, const std::string &s) { VT_CHECK(a == id * 3 && s == "argument of " + std::to_string(id), "arguments", "the function of task %d got other arguments", id); ran(id); return a; }
    void operator()(MoveTok m, int &r, const char *c) { VT_CHECK(m.get() == id + 5 && !strcmp(c, "lit"), "arguments", "the function of task %d got other arguments", id); r = id; ran(id); }
};
struct Made { int id = -1; task_handle h; bool waitable = true; int kind = 0; task_priority prio = task_priority::normal; std::string name; };

struct Kit {
    int workers = 0, nextId = 0; size_t mark = 0; int64_t events = 0; int sems = 0;
    std::deque<int> refs; std::vector<Made> all;
    static task_priority genPrio() { return task_priority(vt::pick(5)); }
    std::string freshName(int id) { static const char *pre[] = {"n", "a longer name that does not fit into the string ", "", "Batch "}; return std::string(pre[vt::pick(4)]) + std::to_string(id); }
    void begin() { vt::settle(); mark = vt::events().size(); events = vt::cell(C_EVENTS); sems = vt::liveSems(); }
    // one object of the given properties was created since begin()
    void created(int ev, int kind, task_priority p, const std::string &name, int64_t uid, int count = 1) {
        int n = 0; auto e = vt::events(); uint32_t h = hashName(name);
        for (size_t i = mark; i < e.size(); ++i) if (e[i].kind == ev && (uint32_t)(e[i].b >> 16) == h) {
            ++n;
            VT_CHECK((e[i].b & 255) == kind, "context", "%s has the %s context", name.c_str(), kind ? "default" : "given");
            VT_CHECK(((e[i].b >> 8) & 255) == (int64_t)p, "priority", "%s was made with priority %s instead of %s", name.c_str(), prioName(task_priority((e[i].b >> 8) & 255)), prioName(p));
            if (uid >= 0) VT_CHECK(e[i].a == uid, "handle", "the handle of %s is the one of another object", name.c_str());
        }
        VT_CHECK(n == count, "name", "%d objects named %s were made instead of %d", n, name.c_str(), count);
    }
    void taskMade(const Made &m) {
        created(EvTaskCtx, m.kind, m.prio, m.name, m.h.isValid() ? (int64_t)m.h.getUID() : -1);
        VT_CHECK((vt::cell(C_EVENTS) > events) == m.waitable, "type", "task %d was made %s", m.id, m.waitable ? "without an event" : "with an event");
        if (m.h.isValid()) VT_CHECK(m.h.getPriority() == m.prio, "priority", "task %d has priority %s instead of %s", m.id, prioName(m.h.getPriority()), prioName(m.prio));
    }
    void groupMade(const task_handle &h, bool waitable, int kind, task_priority p, const std::string &name, bool held) {
        VT_CHECK(h.isValid(), "handle", "no group was returned");
        created(EvGroupCtx, kind, p, name, (int64_t)h.getUID());
        VT_CHECK(h.getPriority() == p, "priority", "group %s has priority %s instead of %s", name.c_str(), prioName(h.getPriority()), prioName(p));
        if (held) VT_CHECK((vt::liveSems() > sems) == waitable, "type", "group %s was made %s", name.c_str(), waitable ? "without an event" : "with an event");
    }
    void notScheduled(const Made &m) { vt::settle(); VT_CHECK(vt::cell(C_EXEC + m.id) == 0 && !m.h.isGrabbed() && !m.h.isDone(), "scheduled", "task %d ran although it was only made", m.id); }
    void finish(Made &m) {
        if (m.h.isValid() && m.waitable) { if (vt::chance(1, 3)) m.h.activeWait(); else m.h.wait(); }
        else vt::settle();
        VT_CHECK(vt::cell(C_EXEC + m.id) == 1, "lost-task", "task %d was executed %lld times", m.id, (long long)vt::cell(C_EXEC + m.id));
        if (m.h.isValid()) VT_CHECK(m.h.isDone(), "not-done", "task %d is not done", m.id);
    }
    // calls f(callable, arguments...)
    template <class Fn> void withArgs(int id, int how, Fn f) {
        Body b{id};
        switch (how) {
        case 0: f(b); break;
        case 1: f(Body{id}); break;
        case 2: { std::string s = "argument of " + std::to_string(id); int a = id * 3; f(b, a, s); s = "?"; a = -1; break; }
        default: { refs.push_back(-1); f(b, MoveTok(id + 5), std::ref(refs.back()), "lit"); break; }
        }
        b.id = 1000;
    }
    void refsSeen(int id, int how) { if (how == 3) { bool ok = false; for (int r : refs) ok |= r == id; VT_CHECK(ok, "arguments", "task %d did not get the reference", id); } }

    // -------------------------------------------------------------------------------------- tasks
    // a task made in one of twelve ways
    Made make(bool child) {
        Made m; m.id = nextId++; m.name = freshName(m.id);
        int form = (int)vt::pick(12), how = (int)vt::pick(4);
        m.prio = form & 1 ? task_priority::normal : child && vt::chance(1, 3) ? task_priority::inherit : genPrio();
        m.kind = form & 2 ? 0 : 1;
        vt::describe(" make%d/%d", form, how);
        const auto p = m.prio; const std::string &n = m.name;
        begin();
        withArgs(m.id, how, [&](auto &&f, auto &&...a) {
#define FA std::forward<decltype(f)>(f), std::forward<decltype(a)>(a)...
            auto set = [&](auto sp) { m.h = task_handle(sp); };
            bool ff = vt::chance(1, 2);
            switch (form) {
            case 0: m.waitable = !ff; if (ff) set(H::make_task<F, UsrT>(n, p, FA)); else set(H::make_task<W, UsrT>(n, p, FA)); break;
            case 1: m.waitable = !ff; if (ff) set(H::make_task<F, UsrT>(n, FA)); else set(H::make_task<W, UsrT>(n, FA)); break;
            case 2: m.waitable = !ff; if (ff) set(H::make_task<F>(n, p, FA)); else set(H::make_task<W>(n, p, FA)); break;
            case 3: m.waitable = !ff; if (ff) set(H::make_task<F>(n, FA)); else set(H::make_task<W>(n, FA)); break;
            case 4: set(H::make_task<UsrT>(n, p, FA)); break;
            case 5: set(H::make_task<UsrT>(n, FA)); break;
            case 6: set(H::make_task(n, p, FA)); break;
            case 7: set(H::make_task(n, FA)); break;
            case 8: m.waitable = false; set(H::make_task_item<UsrT>(n, p, FA)); break;
            case 9: m.waitable = false; set(H::make_task_item<UsrT>(n, FA)); break;
            case 10: m.waitable = false; set(H::make_task_item(n, p, FA)); break;
            default: m.waitable = false; set(H::make_task_item(n, FA)); break;
            }
        });
        taskMade(m);
        return m;
    }
    void opMake() {
        Made m = make(false);
        notScheduled(m);
        int then = (int)vt::pick(4);
        vt::describe(">%d", then);
        switch (then) {
        case 0: { task_handle r = H::schedule_task(m.h); VT_CHECK(r.isValid() && r.getUID() == m.h.getUID(), "handle", "schedule_task returned another handle"); break; }
        case 1: { task_handle x = m.h, r = H::schedule_task(std::move(x)); VT_CHECK(r.isValid() && r.getUID() == m.h.getUID(), "handle", "schedule_task returned another handle"); break; }
        case 2: if (m.waitable) { task_handle x = m.h; x.activeWait(); } else H::schedule_task(m.h); break;
        default: { task_handle x = m.h; x.executeSingleThreaded(); break; }
        }
        finish(m); all.push_back(m);
    }
    void opInvalid() {
        vt::describe(" null"); begin();
        task_handle a, r = H::schedule_task(a); VT_CHECK(!r.isValid(), "handle", "scheduling no task returned one");
        r = H::schedule_task(task_handle()); VT_CHECK(!r.isValid(), "handle", "scheduling no task returned one");
        VT_CHECK(H::scheduler().isIdle(), "idle", "scheduling no task left the scheduler busy");
    }
    void opSchedule() {
        Made m; m.id = nextId++; m.name = freshName(m.id);
        int form = (int)vt::pick(9), how = (int)vt::pick(4);
        static const bool prioGiven[] = {true, true, true, false, false, true, true, false, false}, user[] = {true, true, false, true, false, true, false, true, false};
        m.prio = prioGiven[form] ? genPrio() : task_priority::normal; m.kind = user[form];
        bool ff = form == 0 && vt::chance(1, 2); m.waitable = !ff && form < 5;
        vt::describe(" schedule%d/%d", form, how);
        const auto p = m.prio; const std::string &n = m.name;
        begin();
        withArgs(m.id, how, [&](auto &&f, auto &&...a) {
            switch (form) {
            case 0: m.h = ff ? H::schedule_task<F, UsrT>(n, p, FA) : H::schedule_task<W, UsrT>(n, p, FA); break;
            case 1: m.h = H::schedule_task<UsrT>(n, p, FA); break;
            case 2: m.h = H::schedule_task(n, p, FA); break;
            case 3: m.h = H::schedule_task<UsrT>(n, FA); break;
            case 4: m.h = H::schedule_task(n, FA); break;
            case 5: H::fire_and_forget_task<UsrT>(n, p, FA); break;
            case 6: H::fire_and_forget_task(n, p, FA); break;
            case 7: H::fire_and_forget_task<UsrT>(n, FA); break;
            default: H::fire_and_forget_task(n, FA); break;
            }
#undef FA
        });
        VT_CHECK(m.h.isValid() == (form < 5), "handle", "schedule_task returned no handle");
        taskMade(m); finish(m); refsSeen(m.id, how); all.push_back(m);
    }
    // ------------------------------------------------------------------------------------- groups
    // children held back by the gate: as many run at once as workers and the limit allow
    void runGated(task_handle h, std::vector<Made> &kids, bool waitable, int atOnce) {
        vt::settle();
        VT_CHECK(vt::cell(C_NOW) == atOnce, "limit", "%lld tasks of a group of %zu run at once instead of %d", (long long)vt::cell(C_NOW), kids.size(), atOnce);
        gated = false; vt::openGate(gate);
        if (waitable) h.wait(); else vt::settle();
        for (auto &k : kids) { VT_CHECK(vt::cell(C_EXEC + k.id) == 1, "lost-task", "task %d of a group was executed %lld times", k.id, (long long)vt::cell(C_EXEC + k.id)); VT_CHECK(k.h.isDone(), "not-done", "task %d of a group is not done", k.id); all.push_back(k); }
        VT_CHECK(h.isDone(), "not-done", "a group is not done");
    }
    void close() { gated = true; gate = vt::makeGate(); }
    std::vector<Made> kids(int n) { std::vector<Made> v; for (int i = 0; i < n; ++i) v.push_back(make(true)); return v; }
    void inOrder(const std::vector<Made> &k) {
        std::vector<int> order; for (auto &e : vt::events()) if (e.kind == EvStart) for (auto &m : k) if (m.id == (int)e.a) order.push_back(m.id);
        for (size_t i = 0; i < k.size(); ++i) VT_CHECK(i < order.size() && order[i] == k[i].id, "order", "the tasks of a sequence were not executed in the order given");
    }
    template <class G> void fill(G &g, std::vector<Made> &k) { for (auto &m : k) g->addTask(m.h); }
    void opGroup() {
        int form = (int)vt::pick(2), args = (int)vt::pick(4), n = vt::range(1, 4); bool ff = vt::chance(1, 3), seq = vt::chance(1, 3);
        auto ks = kids(n);
        std::string name = "group" + std::to_string(nextId++);
        auto p = args >= 1 ? genPrio() : task_priority::normal; int count = args >= 2 ? vt::range(0, 6) : 0, limit = args >= 3 ? vt::range(-1, 4) : 0;
        vt::describe(" %s%d/%d", seq ? "sequence" : "group", form, args);
        begin();
        task_handle h;
        auto set = [&](auto g) { VT_CHECK(!!g, "handle", "no group was made"); groupMade(task_handle(g), !ff, form, p, name, true); fill(g, ks); h = task_handle(g); };
#define MK(T) do { \
        if (seq) { if (form) args ? set(H::make_sequence_group<T, UsrG>(name, p)) : set(H::make_sequence_group<T, UsrG>(name)); else args ? set(H::make_sequence_group<T>(name, p)) : set(H::make_sequence_group<T>(name)); } \
        else if (form) { args == 0 ? set(H::make_parallel_group<T, UsrG>(name)) : args == 1 ? set(H::make_parallel_group<T, UsrG>(name, p)) : args == 2 ? set(H::make_parallel_group<T, UsrG>(name, p, count)) : set(H::make_parallel_group<T, UsrG>(name, p, count, limit)); } \
        else { args == 0 ? set(H::make_parallel_group<T>(name)) : args == 1 ? set(H::make_parallel_group<T>(name, p)) : args == 2 ? set(H::make_parallel_group<T>(name, p, count)) : set(H::make_parallel_group<T>(name, p, count, limit)); } } while (0)
        if (ff) MK(F); else MK(W);
#undef MK
        for (auto &m : ks) notScheduled(m);
        VT_CHECK(!h.isGrabbed() && !h.isDone(), "scheduled", "a group ran although it was only made");
        close();
        H::schedule_task(h);
        int atOnce = seq ? 1 : std::min(n, workers);
        if (!seq && limit > 0) atOnce = std::min(atOnce, limit);
        runGated(h, ks, !ff, atOnce);
        if (seq) inOrder(ks);
    }
    void opTogether() { // sequence_tasks and fork_tasks
        bool seq = vt::chance(1, 2), ff = vt::chance(1, 3); int form = (int)vt::pick(seq ? 4 : 3), n = vt::range(1, 4);
        auto ks = kids(n);
        std::string name = (seq ? "seq" : "fork") + std::to_string(nextId++);
        // 0: context and priority, 1: priority, 2: none, 3: context
        int kind = form == 0 || form == 3; auto p = form <= 1 ? genPrio() : task_priority::normal;
        vt::describe(" %s%d x%d", seq ? "sequence_tasks" : "fork_tasks", form, n);
        begin(); close();
        auto call = [&](auto &&...hs) -> task_handle {
#define CALL(T) do { \
            if (seq) switch (form) { case 0: return H::sequence_tasks<T, UsrG>(name, p, std::move(hs)...); case 1: return H::sequence_tasks<T>(name, p, std::move(hs)...); case 2: return H::sequence_tasks<T>(name, std::move(hs)...); default: return H::sequence_tasks<T, UsrG>(name, std::move(hs)...); } \
            switch (form) { case 0: return H::fork_tasks<T, UsrG>(name, p, std::move(hs)...); case 1: return H::fork_tasks<T>(name, p, std::move(hs)...); default: return H::fork_tasks<T>(name, std::move(hs)...); } } while (0)
            if (ff) CALL(F); else CALL(W);
#undef CALL
        };
        task_handle a[4]; for (int i = 0; i < n; ++i) a[i] = ks[(size_t)i].h;
        task_handle h = n == 1 ? call(a[0]) : n == 2 ? call(a[0], a[1]) : n == 3 ? call(a[0], a[1], a[2]) : call(a[0], a[1], a[2], a[3]);
        groupMade(h, !ff, kind, p, name, true);
        runGated(h, ks, !ff, seq ? 1 : std::min(n, workers));
        if (seq) inOrder(ks);
    }
    // -------------------------------------------------------------------------------------- loops
    void item(int loop, int i, int first, int last) {
        VT_CHECK(i >= first && i < last, "index", "a loop over [%d,%d) was called with %d", first, last, i);
        VT_CHECK(vt::cellAdd(C_ITEM + loop * 64 + (i - first), 1) == 1, "index", "a loop was called twice with %d", i);
    }
    void opLoop(int loop) {
        int form = (int)vt::pick(9), n = vt::range(0, 12), first = vt::range(-3, 3); bool atomic = vt::chance(1, 2), withBatch = vt::chance(1, 3);
        bool each = form >= 5 && form < 8;
        if (each || form == 2) first = 0;
        int last = first + n, batches = vt::range(1, 5), grab = vt::range(1, 3);
        // user: contexts given
        bool user = vt::chance(1, 2), given = form == 0 || form == 4 || form == 5 || form == 6 || form == 8; // partitioner and priority given
        if (form == 7) user = false; // parallel_for_each has no such overload
        auto p = given ? genPrio() : task_priority::normal;
        std::string name = "loop" + std::to_string(nextId++);
        vt::describe(" loop%d%s [%d,%d)%s", form, user ? "u" : "", first, last, given ? atomic ? " atomic" : " simple" : "");
        vt::cellSet(C_MAX, 0);
        begin();
        auto f1 = [this, loop, first, last](int i) { item(loop, i, first, last); };
        auto f2 = [this, loop, first, last, batches](int b, int i) { VT_CHECK(b >= 0 && b < std::max(batches, workers), "index", "batch %d", b); item(loop, i, first, last); };
        oqpi::simple_partitioner def(first, last, H::scheduler().workersCount(task_priority::normal));
        int tasks = def.isValid() ? def.batchCount() : 0; bool valid = def.isValid();
        auto withPart = [&](auto fn) {
            if (atomic) { oqpi::atomic_partitioner q(first, last, grab, batches); valid = q.isValid(); tasks = valid ? q.batchCount() : 0; fn(q); }
            else { oqpi::simple_partitioner q(first, last, batches); valid = q.isValid(); tasks = valid ? q.batchCount() : 0; fn(q); }
        };
        auto withFn = [&](auto fn) { if (withBatch) fn(f2); else fn(f1); };
        std::vector<int> v((size_t)n, 7); task_handle made;
        auto fe = [this, loop, &v, n](int &x) { item(loop, (int)(&x - v.data()), 0, n); x += 1; };
        switch (form) {
        case 0: case 4: withPart([&](auto &q) { withFn([&](auto &f) { if (user) H::parallel_for<UsrG, UsrT>(name, q, p, f); else H::parallel_for(name, q, p, f); }); }); break;
        case 1: case 3: withFn([&](auto &f) { if (user) H::parallel_for<UsrG, UsrT>(name, first, last, f); else H::parallel_for(name, first, last, f); }); break;
        case 2: withFn([&](auto &f) { if (user) H::parallel_for<UsrG, UsrT>(name, n, f); else H::parallel_for(name, n, f); }); break;
        case 5: case 6: withPart([&](auto &q) { if (user) H::parallel_for_each<UsrG, UsrT>(name, v, q, p, fe); else H::parallel_for_each(name, v, q, p, fe); }); break;
        case 7: H::parallel_for_each(name, v, fe); break;
        default: withPart([&](auto &q) { withFn([&](auto &f) {
            bool ff = vt::chance(1, 3);
            auto set = [&](auto g) {
                VT_CHECK(!!g == valid, "handle", "a loop %s a group", valid ? "did not make" : "without elements made");
                if (!g) return;
                made = task_handle(g);
                groupMade(made, !ff, user, p, name, true);
                vt::settle(); VT_CHECK(!made.isGrabbed() && !made.isDone() && vt::cell(C_ITEM + loop * 64) == 0, "scheduled", "a loop ran although it was only made");
                task_handle x = made; if (vt::chance(1, 3)) x.executeSingleThreaded(); else { H::schedule_task(x); if (ff) vt::settle(); else if (vt::chance(1, 2)) x.activeWait(); else x.wait(); }
                VT_CHECK(made.isDone(), "not-done", "a loop is not done");
            };
            if (ff) { if (user) set(H::make_parallel_for_task_group<F, UsrG, UsrT>(name, q, p, f)); else set(H::make_parallel_for_task_group<F>(name, q, p, f)); }
            else { if (user) set(H::make_parallel_for_task_group<W, UsrG, UsrT>(name, q, p, f)); else set(H::make_parallel_for_task_group<W>(name, q, p, f)); }
        }); }); break;
        }
        for (int i = 0; i < n; ++i) VT_CHECK(vt::cell(C_ITEM + loop * 64 + i) == 1, "index", "index %d of a loop over [%d,%d) was visited %lld times", first + i, first, last, (long long)vt::cell(C_ITEM + loop * 64 + i));
        if (each) for (int x : v) VT_CHECK(x == 8, "index", "an element was not changed");
        // one group and the tasks the partitioner asks for, with these contexts and this priority
        int t = 0, g = 0; auto e = vt::events();
        for (size_t i = mark; i < e.size(); ++i) if (e[i].kind == EvTaskCtx || e[i].kind == EvGroupCtx) {
            (e[i].kind == EvTaskCtx ? t : g)++;
            VT_CHECK((e[i].b & 255) == user, "context", "a loop has the %s context", user ? "default" : "given");
            VT_CHECK(((e[i].b >> 8) & 255) == (int64_t)p, "priority", "a loop was made with priority %s instead of %s", prioName(task_priority((e[i].b >> 8) & 255)), prioName(p));
        }
        VT_CHECK(g == (valid ? 1 : 0) && t == tasks, "batches", "a loop made %d groups and %d tasks instead of %d and %d", g, t, valid ? 1 : 0, tasks);
        if (valid) created(EvGroupCtx, user, p, name, -1);
    }
};
} // namespace

VT_SCENARIO(C31, toolkit, 6) {
    vt::enableLeakCheck(false); // the scheduler of the toolkit is a static object
    Kit k; gated = false;
    k.workers = vt::range(1, 4); vt::describe("workers: %d;", k.workers);
    H::start_default_scheduler(k.workers);
    VT_CHECK(H::scheduler().workersTotalCount() == k.workers, "workers", "%d workers were registered instead of %d", H::scheduler().workersTotalCount(), k.workers);
    int ops = vt::range(1, 5), loops = 0;
    for (int i = 0; i < ops; ++i) switch (vt::pick(6)) {
        case 0: k.opSchedule(); break;
        case 1: k.opMake(); break;
        case 2: k.opGroup(); break;
        case 3: k.opTogether(); break;
        case 4: k.opLoop(loops++); break;
        default: if (vt::chance(1, 6)) k.opInvalid(); else k.opSchedule(); break;
    }
    vt::settle();
    VT_CHECK(H::scheduler().isIdle(), "idle", "the scheduler is not idle once everything is done");
    H::stop_scheduler();
    for (int i = 1; i <= vt::createdThreads(); ++i) VT_CHECK(vt::isFinished(i), "workers", "a worker still runs after stop_scheduler");
    for (auto &m : k.all) VT_CHECK(vt::cell(C_EXEC + m.id) == 1, "executed-twice", "task %d was executed %lld times", m.id, (long long)vt::cell(C_EXEC + m.id));
    vt::nontrivial(true);
}
// loops by default are cut for the workers able to work on normal priority
VT_SCENARIO(C31, mixed, 2) {
    vt::enableLeakCheck(false);
    Kit k; gated = false; int normal = 0;
    bool first = vt::chance(1, 2); vt::describe("workers:");
    auto some = [&] {
        for (int i = vt::range(1, 3); i > 0; --i) {
            WPrio wp = genWorkerPrio(); oqpi::worker_config c; c.threadAttributes.name_ = "w"; c.workerPrio = wp.value; c.count = vt::range(1, 3);
            vt::describe(" %dx%02x", c.count, wp.mask);
            k.workers += c.count; if (wp.mask >> (int)task_priority::normal & 1) normal += c.count;
            H::scheduler().registerWorker<Thread, Sema>(c);
        }
    };
    if (first) some();
    int def = vt::range(1, 3); k.workers += def; normal += def; vt::describe(" %d by default", def);
    if (!first) { H::scheduler().registerWorker<Thread, Sema>([] { oqpi::worker_config c; c.threadAttributes.name_ = "any"; return c; }()); ++k.workers; ++normal; some(); }
    H::start_default_scheduler(def);
    for (int p = 0; p < 5; ++p) VT_CHECK(H::scheduler().workersCount(task_priority(p)) <= k.workers, "workers", "%d workers work on priority %s", H::scheduler().workersCount(task_priority(p)), prioName(task_priority(p)));
    VT_CHECK(H::scheduler().workersTotalCount() == k.workers && H::scheduler().workersCount(task_priority::normal) == normal, "workers", "%d workers were registered, %d of them for normal priority, instead of %d and %d", H::scheduler().workersTotalCount(), H::scheduler().workersCount(task_priority::normal), k.workers, normal);
    for (int i = 0, n = vt::range(1, 3); i < n; ++i) if (vt::chance(3, 4)) k.opLoop(i); else k.opSchedule();
    vt::settle();
    VT_CHECK(H::scheduler().isIdle(), "idle", "the scheduler is not idle once everything is done");
    H::stop_scheduler();
    vt::nontrivial(k.workers != normal);
}
// the workers of the default scheduler
VT_SCENARIO(C31, scheduler, 2) {
    vt::enableLeakCheck(false);
    if (vt::chance(1, 2)) vt::grantRealtime(true, 1, 99);
    int cpus = vt::range(1, 12); vt::setCpuCount(cpus);
    // what a thread with these attributes looks like
    oqpi::thread_attributes at("probe"); at.priority_ = oqpi::thread_priority::highest; at.coreAffinityMask_ = oqpi::core_affinity::all_cores;
    Thread probe(at, [] {}); probe.join();
    int rounds = vt::range(1, 3), total = 0, fiber = 2; vt::describe("%d cpus:", cpus);
    for (int r = 0; r < rounds; ++r) {
        bool def = vt::chance(1, 3), ctx = vt::chance(1, 2); int n = def ? cpus : vt::range(1, 5);
        if (total + n > 40) n = 1, def = false;
        vt::describe(" %d%s%s", n, def ? " by default" : "", ctx ? " with contexts" : "");
        size_t mark = vt::events().size();
        if (def) { if (ctx) H::start_default_scheduler<WCtx>(); else H::start_default_scheduler(); }
        else { if (ctx) H::start_default_scheduler<WCtx>(n); else H::start_default_scheduler(n); }
        total += n;
        VT_CHECK(H::scheduler().workersTotalCount() == total, "workers", "%d workers were registered instead of %d", H::scheduler().workersTotalCount(), total);
        for (int p = 0; p < 5; ++p) VT_CHECK(H::scheduler().workersCount(task_priority(p)) == total, "workers", "%d workers work on priority %s instead of %d", H::scheduler().workersCount(task_priority(p)), prioName(task_priority(p)), total);
        int made = 0; for (size_t i = mark; i < vt::events().size(); ++i) made += vt::events()[i].kind == EvWorkerCtx;
        VT_CHECK(made == (ctx ? n : 0), "context", "%d workers were given a context instead of %d", made, ctx ? n : 0);
        vt::settle();
        VT_CHECK(vt::createdThreads() == fiber - 1 + total, "workers", "%d threads were started instead of %d", vt::createdThreads() - fiber + 1, total);
        std::map<std::string, int> names;
        for (int i = 0; i < total; ++i) {
            names[vt::nameOf(fiber + i)]++;
            VT_CHECK(!vt::isFinished(fiber + i), "workers", "a worker has ended");
            VT_CHECK(vt::sysPriorityOf(fiber + i) == vt::sysPriorityOf(1), "workers", "a worker has priority %d instead of %d", vt::sysPriorityOf(fiber + i), vt::sysPriorityOf(1));
            VT_CHECK(vt::affinityOf(fiber + i) == vt::affinityOf(1), "workers", "a worker has affinity %llx", (unsigned long long)vt::affinityOf(fiber + i));
        }
        if (r == 0 && n == 1) VT_CHECK(names.begin()->first.compare(0, 13, "oqpi::worker_") == 0, "workers", "the worker is named %s", names.begin()->first.c_str());
        if (r == 0 && n > 1) for (int i = 0; i < n; ++i) VT_CHECK(names["oqpi::worker_" + std::to_string(i)] == 1, "workers", "there is no worker named oqpi::worker_%d", i);
        // work of every priority is executed
        std::vector<task_handle> hs; for (int p = 0; p < 5; ++p) hs.push_back(H::schedule_task("t", task_priority(p), [p] { vt::cellAdd(C_EXEC + p, 1); }));
        for (int p = 0; p < 5; ++p) { hs[(size_t)p].wait(); VT_CHECK(vt::cell(C_EXEC + p) == r + 1, "lost-task", "a task of priority %s was not executed", prioName(task_priority(p))); }
        H::stop_scheduler();
        for (int i = 0; i < total; ++i) VT_CHECK(vt::isFinished(fiber + i), "workers", "a worker still runs after stop_scheduler");
        fiber += total;
        if (fiber + 2 * total + 16 > 60) break;
    }
    vt::nontrivial(true);
}
