// C12 arguments and results, C14 lifetime, C33 identity and state.
#ifdef VT_PLAIN_C12
#define VT_PLAIN
#endif
#ifdef VT_PLAIN_C37
#define VT_HELD std::shared_ptr
#define VT_MAKEHELD std::make_shared
#else
#define VT_HELD std::unique_ptr
#define VT_MAKEHELD std::make_unique
#endif
#include "common.h"
#include "drive.h"
#include "volume.h"
#include "tok.h"
using namespace hv;
using oqpi::empty_task_context;
using oqpi::empty_group_context;

// ------------------------------------------------------------------------------------------- C12
namespace {
constexpr int C_CALLS = 20000; // + task
struct ResTok { // default constructible, copyable result with heap memory
    std::shared_ptr<Tok> t; std::string s;
    bool operator==(const ResTok &o) const { return s == o.s && !t == !o.t && (!t || t->get() == o.t->get()); }
};
struct Big { int64_t a[20]; bool operator==(const Big &o) const { return !memcmp(a, o.a, sizeof a); } };
enum class Colour : uint16_t { none = 9 };
template <class R> struct Conv;
template <> struct Conv<void> { static void of(int64_t) {} };
template <> struct Conv<int64_t> { static int64_t of(int64_t v) { return v; } };
template <> struct Conv<std::string> { static std::string of(int64_t v) { return std::string((size_t)(20 + v % 40), (char)('a' + v % 26)) + std::to_string(v); } };
template <> struct Conv<std::vector<int64_t>> { static std::vector<int64_t> of(int64_t v) { return std::vector<int64_t>((size_t)(v % 5), v); } };
template <> struct Conv<double> { static double of(int64_t v) { return (double)v / 7.0; } };
template <> struct Conv<ResTok> { static ResTok of(int64_t v) { return {std::make_shared<Tok>(v), std::to_string(v) + " result that does not fit into the string itself"}; } };
template <> struct Conv<Big> { static Big of(int64_t v) { Big b; for (int i = 0; i < 20; ++i) b.a[i] = v * i + 1; return b; } };
template <> struct Conv<Colour> { static Colour of(int64_t v) { return (Colour)(v & 0xffff); } };
template <> struct Conv<bool> { static bool of(int64_t v) { return v % 2 != 0; } };
template <> struct Conv<Own<Tok>> { static Own<Tok> of(int64_t v) { return makeOwn<Tok>(v); } };

template <class R> R called(int id, int64_t want, int64_t got) {
    VT_CHECK(vt::cellAdd(C_CALLS + id, 1) == 1, "executed-twice", "the function of task %d was called twice", id);
    VT_CHECK(got == want, "arguments", "the function of task %d was called with %lld instead of %lld", id, (long long)got, (long long)want);
    for (int i = 0; i < id % 3; ++i) vt::yield();
    return Conv<R>::of(want);
}
template <class R> R freeFn(int id, int64_t want, Tok t, std::string s) { return called<R>(id, want, t.get() + (int64_t)s.size()); }
template <class R> R refFn(int id, int64_t want, int64_t &r, const int *p, const Tok &t) { r += 5; return called<R>(id, want, r + *p + t.get()); }
template <class R> struct Fn { Tok t; explicit Fn(int64_t v) : t(v) {} R operator()(int id, int64_t want, MoveTok m) { return called<R>(id, want, t.get() + m.get()); } };
template <class R> struct MoveFn { MoveTok t; R operator()(int id, int64_t want) { return called<R>(id, want, t.get()); } };
struct Obj { Tok t; explicit Obj(int64_t v) : t(v) {}
    template <class R> R call(int id, int64_t want, int64_t x) { return called<R>(id, want, t.get() + x); }
    template <class R> R callc(int id, int64_t want, const std::string &s) const { return called<R>(id, want, t.get() + (int64_t)s.size()); } };

struct Any { task_handle h; std::function<void()> read, waitRead; bool waitable = true; };
template <class R> struct Checked { // what a task of this type has to return
    template <class T> static void get(T *t, int id, int64_t want, bool wait) {
        if constexpr (std::is_void_v<R>) { if constexpr (std::is_void_v<decltype(t->getResult())>) wait ? t->waitForResult() : t->getResult(); }
        else {
            auto r = wait ? t->waitForResult() : t->getResult();
            static_assert(std::is_same_v<decltype(r), R>);
            VT_CHECK(r == Conv<R>::of(want), "result", "the result of task %d differs from what its function returned", id);
            if constexpr (std::is_same_v<R, std::string>) r[0] = '!'; // the copy is ours
            if constexpr (std::is_same_v<R, std::vector<int64_t>>) r.assign(3, -1);
            if constexpr (std::is_same_v<R, ResTok>) { r.t.reset(); r.s.clear(); }
        }
    }
};
constexpr int HOWARGS = 12;
// The originals of the arguments are changed and destroyed once the task exists.
template <class R, task_type TT> Any makeTask(int id, int64_t w, int how, task_priority prio, Obj &obj, int64_t *ref, const int *cst) {
    Any a; a.waitable = TT == task_type::waitable;
    auto keep = [&](auto sp) {
        a.h = task_handle(sp);
        if constexpr (!std::is_same_v<R, Own<Tok>>) { // (cannot be copied out)
            a.read = [sp, id, w] { Checked<R>::get(sp.get(), id, w, false); };
            if constexpr (TT == task_type::waitable) a.waitRead = [sp, id, w] { Checked<R>::get(sp.get(), id, w, true); };
        } else { a.read = [] {}; if constexpr (TT == task_type::waitable) a.waitRead = [sp] { sp->wait(); }; }
    };
    auto go = [&](auto &&f, auto &&...x) { keep(oqpi::make_task<TT, Event, empty_task_context>("t", prio, std::forward<decltype(f)>(f), std::forward<decltype(x)>(x)...)); };
    switch (how) {
    case 0: { Tok t(w - 5); std::string s = "12345"; int64_t ww = w; go(freeFn<R>, id, ww, t, s); s = "changed"; t.v = -1; ww = -3; break; }
    case 1: go(&freeFn<R>, id, w, Tok(w - 2), "ab"); break;
    case 2: { *ref = w - 22; Tok t(10); go(refFn<R>, id, w, std::ref(*ref), cst, t); t.v = 0; break; }
    case 3: { Fn<R> f(w - 3); MoveTok m(3); go(f, id, w, std::move(m)); f.t.v = -1; break; }
    case 4: go(Fn<R>(w), id, w, MoveTok(0)); break;
    case 5: { MoveFn<R> f{MoveTok(w)}; go(std::move(f), id, w); break; }
    case 6: go(&Obj::call<R>, &obj, id, w, w - obj.t.v); break;
    case 7: go(&Obj::callc<R>, std::cref(obj), id, w, std::string((size_t)(w - obj.t.v), 'x')); break;
    case 8: { Tok k(w); auto f = [k, id, w]() -> R { return called<R>(id, w, k.get()); }; go(f); break; }
    case 9: { auto p = makeOwn<Tok>(w); go([p = std::move(p), id, w]() mutable -> R { auto q = std::move(p); return called<R>(id, w, q->get()); }); break; }
    case 10: { std::function<R(int, int)> f = [w](int i, int x) -> R { return called<R>(i, w, w - 4 + x); }; int x = 4; go(f, id, x); f = nullptr; x = 7; break; }
    default: { std::vector<Tok> v; v.reserve(2); v.emplace_back(w - 1); v.emplace_back(1); go([id, w](const std::vector<Tok> &y, Own<int> z) -> R { return called<R>(id, w, y[0].get() + y[1].get() + *z); }, v, makeOwn<int>(0)); v.clear(); break; }
    }
    return a;
}
Any makeAny(int res, int id, int64_t w, int how, task_priority p, Obj &o, int64_t *r, const int *c) {
    switch (res) {
    case 0: return makeTask<int64_t, task_type::waitable>(id, w, how, p, o, r, c);
    case 1: return makeTask<std::string, task_type::waitable>(id, w, how, p, o, r, c);
    case 2: return makeTask<std::vector<int64_t>, task_type::waitable>(id, w, how, p, o, r, c);
    case 3: return makeTask<ResTok, task_type::waitable>(id, w, how, p, o, r, c);
    case 4: return makeTask<Big, task_type::waitable>(id, w, how, p, o, r, c);
    case 5: return makeTask<double, task_type::waitable>(id, w, how, p, o, r, c);
    case 6: return makeTask<bool, task_type::waitable>(id, w, how, p, o, r, c);
    case 7: return makeTask<Colour, task_type::waitable>(id, w, how, p, o, r, c);
    case 8: return makeTask<Own<Tok>, task_type::waitable>(id, w, how, p, o, r, c);
    default: return makeTask<void, task_type::waitable>(id, w, how, p, o, r, c);
    }
}
Any makeItem(int res, int id, int64_t w, int how, task_priority p, Obj &o, int64_t *r, const int *c) {
    switch (res % 3) {
    case 0: return makeTask<int64_t, task_type::fire_and_forget>(id, w, how, p, o, r, c);
    case 1: return makeTask<ResTok, task_type::fire_and_forget>(id, w, how, p, o, r, c);
    default: return makeTask<void, task_type::fire_and_forget>(id, w, how, p, o, r, c);
    }
}
} // namespace
VT_SCENARIO(C12, tasks, 4) {
    vt::enableRaces(0);
    int n = sized(1, 4, 24), workers = sized(0, 3, 12), nr = sized(0, 3, 12);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(std::max(1, workers)));
    auto obj = std::make_unique<Obj>(1000); const int cst = 7;
    std::vector<int64_t> refs((size_t)n);
    struct T { Any a; int mode, reads; int64_t want; bool group; };
    std::vector<T> ts;
    bool startFirst = vt::chance(1, 2);
    if (workers && startFirst) s->start();
    auto grp = oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "p", task_priority::normal, n);
    auto seq = oqpi::make_sequence_group<task_type::waitable, empty_group_context>(*s, "q", task_priority::normal);
    bool inGrp = false, inSeq = false;
    for (int i = 0; i < n; ++i) {
        int res = (int)vt::pick(10), how = (int)vt::pick(HOWARGS); bool w = !vt::chance(1, 4);
        T t; t.want = 1040 + (int64_t)vt::pick(900); auto prio = task_priority(vt::pick(5)); t.reads = sized(1, 3, 12);
        t.a = w ? makeAny(res, i, t.want, how, prio, *obj, &refs[(size_t)i], &cst) : makeItem(res, i, t.want, how, prio, *obj, &refs[(size_t)i], &cst);
        // modes: 0 submit, 1 submit + activeWait, 2 single threaded, 3 grab and execute, 4 parallel group, 5 sequence, 6 activeWait only
        t.mode = workers ? (int)vt::pick(7) : (int[]){2, 3, 6, 4, 5}[vt::pick(5)];
        if (!w && (t.mode == 1 || t.mode == 6)) t.mode = 2;
        vt::describe(" task%d(result %d, arguments %d%s, mode %d)", i, res, how, w ? "" : ", fire and forget", t.mode);
        if (t.mode == 4) { grp->addTask(t.a.h); inGrp = true; } else if (t.mode == 5) { seq->addTask(t.a.h); inSeq = true; }
        ts.push_back(std::move(t));
    }
    vt::describe(" readers: %d", nr);
    auto finish = [&](T &t) { if (t.a.waitable) t.a.waitRead(); };
    {
        Clients c;
        if (workers) for (int r = 0; r < nr; ++r) c.add([&] { for (auto &t : ts) if (t.a.waitable) { for (int k = 0; k < t.reads; ++k) { t.a.waitRead(); t.a.read(); } } });
        if (inGrp && workers) s->add(task_handle(grp));
        if (inSeq && workers) s->add(task_handle(seq));
        for (auto &t : ts) switch (t.mode) {
            case 0: s->add(t.a.h); break;
            case 1: s->add(t.a.h); t.a.h.activeWait(); break;
            case 2: t.a.h.executeSingleThreaded(); break;
            case 3: VT_CHECK(t.a.h.tryGrab(), "grab", "an idle task could not be grabbed"); t.a.h.execute(); break;
            case 6: t.a.h.activeWait(); break;
        }
        if (!workers) { if (inGrp) task_handle(grp).executeSingleThreaded(); if (inSeq) task_handle(seq).executeSingleThreaded(); }
        if (workers && !startFirst) s->start();
        if (inGrp) grp->wait();
        if (inSeq) seq->wait();
        for (auto &t : ts) finish(t);
    }
    if (workers) for (auto &t : ts) for (int k = 0; !t.a.h.isDone(); ++k) { vt::settle(); VT_CHECK(k < 1000, "lost-task", "a task is never executed"); vt::yield(); }
    for (auto &t : ts) {
        int i = (int)(&t - &ts[0]);
        VT_CHECK(vt::cell(C_CALLS + i) == 1, "executed-twice", "the function of task %d was called %lld times", i, (long long)vt::cell(C_CALLS + i));
        for (int k = 0; k < t.reads; ++k) { t.a.read(); finish(t); }
    }
    vt::settle();
    if (workers) s->stop();
    for (auto &t : ts) t.a.read();
    grp.reset(); seq.reset(); ts.clear(); s.reset(); obj.reset();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "%lld arguments or results are alive at the end", (long long)vt::cell(C_LIVE));
    vt::nontrivial(n > 1 || nr > 0 || workers > 0);
}
// the result of a task read by tasks and clients, while plain memory accesses are checked
VT_SCENARIO(C12, races, 1) {
    vt::enableRaces(1);
    int n = vt::range(1, 3), workers = vt::range(1, 2), nr = vt::range(1, 3);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(workers)); s->start();
    auto obj = std::make_unique<Obj>(1000); const int cst = 7; std::vector<int64_t> refs((size_t)n);
    std::vector<Any> ts;
    for (int i = 0; i < n; ++i) { int res = (int)vt::pick(10), how = (int)vt::pick(HOWARGS); ts.push_back(makeAny(res, i, 1100 + i, how, task_priority::normal, *obj, &refs[(size_t)i], &cst)); vt::describe(" task%d(result %d, arguments %d)", i, res, how); }
    vt::describe(" readers: %d", nr);
    {
        Clients c;
        for (int r = 0; r < nr; ++r) { int way = (int)vt::pick(2); c.add([&, way] { for (auto &t : ts) { if (way) { task_handle h = t.h; h.activeWait(); t.read(); } else t.waitRead(); t.read(); } }); }
        for (auto &t : ts) s->add(t.h);
    }
    for (auto &t : ts) t.read();
    ts.clear();
    s.reset();
    vt::nontrivial(true);
}

// ------------------------------------------------------------------------------------------- C37
namespace {
constexpr int C_HOLD = 26000, C_PRE = 26200, C_POST = 26400; // + task
struct Held { int id; explicit Held(int i) : id(i) { vt::cellAdd(C_HOLD + id, 1); } ~Held() { vt::cellAdd(C_HOLD + id, -1); } };
template <class R> struct MovedFn { VT_HELD<Held> h; std::string s; R operator()() { VT_CHECK(h != nullptr, "callable", "a task calls a function that was moved away"); return called<R>(h->id, h->id, (int64_t)std::stoll(s)); } };
struct MovedCtx { // carries the number of its task
    int id;
    MovedCtx(oqpi::task_base *, const std::string &n) : id(std::stoi(n)) {}
    void onAddedToGroup(const oqpi::task_group_sptr &) {}
    void onPreExecute() { vt::cellAdd(C_PRE + id, 1); }
    void onPostExecute() { vt::cellAdd(C_POST + id, 1); }
};
template <class R, task_type TT, class E> void movedTasks() {
    using T = oqpi::task<TT, E, oqpi::task_context_container<MovedCtx>, MovedFn<R>>;
    constexpr bool waitable = TT == task_type::waitable;
    struct M { bool grabbed = false, done = false; task_priority prio{}; uint64_t uid = 0; };
    struct Slot { std::unique_ptr<T> t; int id = -1; }; // id -1: nothing, or moved from
    int n = sized(1, 4, 8), steps = sized(2, 16, 60), next = 0, moves = 0, ran = 0;
    std::vector<M> m; std::vector<Slot> sl((size_t)n); std::set<uint64_t> uids;
    vt::describe("%s%s %zu bytes:", waitable ? "waitable" : "fire-and-forget", std::is_same_v<E, Event> ? "" : " layered", sizeof(T));
    auto verify = [&](Slot &s) {
        if (s.id < 0) return;
        M &x = m[(size_t)s.id]; T &t = *s.t;
        VT_CHECK(t.getUID() == x.uid, "identifier", "the identifier of task %d changed", s.id);
        VT_CHECK(t.getPriority() == x.prio, "priority", "the priority of task %d changed", s.id);
        VT_CHECK(t.isGrabbed() == x.grabbed && t.isDone() == x.done, "state", "task %d is grabbed %d, done %d instead of %d, %d", s.id, t.isGrabbed(), t.isDone(), x.grabbed, x.done);
        VT_CHECK(vt::cell(C_HOLD + s.id) == 1, "callable", "the callable of task %d exists %lld times", s.id, (long long)vt::cell(C_HOLD + s.id));
        VT_CHECK(vt::cell(C_CALLS + s.id) == x.done, "executed", "the function of task %d was called %lld times", s.id, (long long)vt::cell(C_CALLS + s.id));
        VT_CHECK(vt::cell(C_PRE + s.id) == x.done && vt::cell(C_POST + s.id) == x.done, "hooks", "the hooks of task %d ran %lld and %lld times", s.id, (long long)vt::cell(C_PRE + s.id), (long long)vt::cell(C_POST + s.id));
        if (x.done) Checked<R>::get(&t, s.id, s.id, waitable && vt::chance(1, 2));
    };
    auto dropped = [&](int id) { if (id >= 0) VT_CHECK(vt::cell(C_HOLD + id) == 0, "callable", "the callable of task %d was not destroyed with it", id); };
    for (int i = 0; i < steps; ++i) {
        size_t a = vt::pick((uint32_t)n), b = vt::pick((uint32_t)n); Slot &s = sl[a], &d = sl[b];
        switch (vt::pick(8)) {
        case 0: case 1: { // a new task
            if (next >= 60) break;
            int old = s.id; s.t.reset(); dropped(old);
            int id = next++; m.emplace_back(); m.back().prio = task_priority(vt::pick(5)); vt::describe(" %zu=task%d", a, id);
            s.t = std::make_unique<T>(std::to_string(id), m.back().prio, MovedFn<R>{VT_MAKEHELD<Held>(id), std::to_string(id)}); s.id = id;
            m.back().uid = s.t->getUID();
            VT_CHECK(m.back().uid != 0 && uids.insert(m.back().uid).second, "identifier", "the identifier %llu is used twice", (unsigned long long)m.back().uid);
            break; }
        case 2: { // move construction
            if (a == b || s.id < 0) break;
            vt::describe(" %zu->new %zu", a, b); int old = d.id; d.t.reset(); dropped(old);
            d.t = std::make_unique<T>(std::move(*s.t)); d.id = s.id; s.id = -1; ++moves;
            if (vt::chance(1, 2)) s.t.reset();
            break; }
        case 3: { // move assignment
            if (s.id < 0 || !d.t) break;
            vt::describe(" %zu->%zu", a, b); int old = d.id;
            *d.t = std::move(*s.t);
            if (a != b) { dropped(old); d.id = s.id; s.id = -1; ++moves; if (vt::chance(1, 2)) s.t.reset(); }
            break; }
        case 4: if (s.id < 0) break; vt::describe(" grab%zu", a); VT_CHECK(s.t->tryGrab() == !m[(size_t)s.id].grabbed, "state", "grabbing gave the wrong answer"); m[(size_t)s.id].grabbed = true; break;
        case 5: if (s.id < 0 || !m[(size_t)s.id].grabbed || m[(size_t)s.id].done) break; vt::describe(" execute%zu", a); s.t->execute(); m[(size_t)s.id].done = true; ++ran; break;
        case 6: { if (s.id < 0) break; M &x = m[(size_t)s.id]; vt::describe(" alone%zu", a); s.t->executeSingleThreaded(); if (!x.grabbed) { x.grabbed = x.done = true; ++ran; } break; }
        default: { // waiting, perhaps by another thread
            if (s.id < 0) break;
            M &x = m[(size_t)s.id]; if (x.grabbed && (!x.done || !waitable)) break;
            vt::describe(" await%zu", a);
            if (vt::chance(1, 2) && x.done) { Thread w("w", [&] { s.t->wait(); }); w.join(); } else s.t->activeWait();
            if (!x.grabbed) { x.grabbed = x.done = true; ++ran; }
            break; }
        }
        for (auto &x : sl) verify(x);
    }
    // a task moved out of where it was made can be submitted
    Slot *last = nullptr; for (auto &x : sl) if (x.id >= 0) last = &x;
    if (last && vt::chance(1, 2)) {
        M &x = m[(size_t)last->id]; int id = last->id; vt::describe(" submit");
        auto sp = std::make_shared<T>(std::move(*last->t)); last->id = -1; ++moves;
        auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(1)); s->start();
        task_handle h = s->add(task_handle(sp));
        if (waitable && (!x.grabbed || x.done)) h.wait(); else vt::settle();
        s->stop();
        if (!x.grabbed) { x.grabbed = x.done = true; ++ran; }
        VT_CHECK(h.getUID() == x.uid && h.isGrabbed() == x.grabbed && h.isDone() == x.done, "state", "the state of a task that was moved and submitted is wrong");
        if (x.done) Checked<R>::get(sp.get(), id, id, false);
    }
    sl.clear();
    vt::nontrivial(moves > 0 && ran > 0);
    for (int i = 0; i < next; ++i) dropped(i);
    VT_CHECK(vt::cell(C_LIVE) == 0, "callable", "%lld results were not destroyed", (long long)vt::cell(C_LIVE));
}
} // namespace
VT_SCENARIO(C37, tasks, 1) {
    constexpr auto W = task_type::waitable, F = task_type::fire_and_forget;
    switch (vt::pick(8)) {
    case 0: movedTasks<int64_t, W, Event>(); break;
    case 1: movedTasks<std::string, W, Event>(); break;
    case 2: movedTasks<ResTok, W, Event>(); break;
    case 3: movedTasks<void, W, Event>(); break;
    case 4: movedTasks<Big, F, Event>(); break;
    case 5: movedTasks<std::vector<int64_t>, F, Event>(); break;
    case 6: movedTasks<void, F, Event>(); break;
    default: movedTasks<int64_t, W, LayeredEvent>(); break;
    }
}

// ------------------------------------------------------------------------------------------- C33
namespace { constexpr int C_SEEN = 22000, C_WON = 24000; }
// identifiers of tasks and groups created concurrently
VT_SCENARIO(C33, identifiers, 2) {
    int clients = sized(1, 4, 12), per = sized(1, 5, 60), workers = sized(0, 2, 8);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(std::max(1, workers))); if (workers) s->start();
    struct M { task_handle h; uint64_t uid; };
    std::vector<std::vector<M>> made((size_t)clients + 1); for (auto &m : made) m.reserve(128);
    std::vector<std::vector<int>> plan((size_t)clients + 1); for (auto &p : plan) for (int i = 0; i < per; ++i) p.push_back((int)vt::pick(workers ? 7 : 5));
    vt::describe("%d clients", clients); for (auto &p : plan) { vt::describe(" ["); for (int x : p) vt::describe("%d", x); vt::describe("]"); }
    auto creator = [&](size_t k) {
        for (int what : plan[k]) {
            task_handle h;
            auto f = [] { vt::yield(); };
            switch (what) {
            case 0: h = task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("a", task_priority::normal, f)); break;
            case 1: h = task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("a", task_priority::low, f)); break;
            case 2: h = task_handle(oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "g", task_priority::normal)); break;
            case 3: h = task_handle(oqpi::make_sequence_group<task_type::fire_and_forget, empty_group_context>(*s, "g", task_priority::normal)); break;
            case 4: h = task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("a", task_priority::high, [] { return 3; })); h.executeSingleThreaded(); break;
            case 5: h = s->add(task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("a", task_priority::normal, f))); break;
            default: { auto g = oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "g", task_priority::normal); auto t = task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("a", task_priority::normal, f));
                made[k].push_back({t, t.getUID()}); g->addTask(t); h = task_handle(g); uint64_t u = h.getUID(); s->add(h); VT_CHECK(h.getUID() == u && g->getUID() == u, "identifier", "an identifier changed"); break; }
            }
            made[k].push_back({h, h.getUID()});
        }
    };
    { Clients c; for (int k = 0; k < clients; ++k) c.add([&, k] { creator((size_t)k); }); creator((size_t)clients); }
    std::map<uint64_t, int> seen;
    auto verify = [&](const char *when) { for (auto &v : made) for (auto &m : v) { task_handle c = m.h; VT_CHECK(m.h.getUID() == m.uid && c.getUID() == m.uid, "identifier", "%s: the identifier changed from %llu to %llu", when, (unsigned long long)m.uid, (unsigned long long)m.h.getUID()); } };
    for (auto &v : made) for (auto &m : v) { VT_CHECK(m.uid != 0, "identifier", "an identifier is zero"); VT_CHECK(++seen[m.uid] == 1, "identifier", "two tasks have the identifier %llu", (unsigned long long)m.uid); }
    verify("after the creation");
    vt::settle();
    if (workers) s->stop();
    verify("at the end");
    vt::nontrivial(clients > 1 || per > 1);
}
// many tasks, created by several threads while others go away
VT_SCENARIO(C33, volume, 1) {
    int n = volumeSize(90000), clients = vt::range(1, 3), keep = 1 + (int)vt::pick(4), groups = vt::chance(1, 2) ? 0 : vt::range(1, 6);
    auto s = std::make_unique<Sched>();
    vt::describe("%d tasks by %d threads, one in %d kept, %d in 11 groups", n, clients, keep, groups);
    std::vector<std::vector<uint64_t>> ids((size_t)clients); std::vector<std::vector<task_handle>> kept((size_t)clients);
    { Clients c;
      for (int k = 0; k < clients; ++k) c.add([&, k] { for (int i = k; i < n; i += clients) {
          task_handle h;
          if (i % 11 < groups) { if (i % 2) h = task_handle(oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "g", task_priority::normal)); else h = task_handle(oqpi::make_sequence_group<task_type::fire_and_forget, empty_group_context>(*s, "g", task_priority::normal)); }
          else if (i % 5 == 4) h = task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("t", task_priority::normal, [] { return 1; }));
          else h = task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("t", task_priority::normal, [] {}));
          ids[(size_t)k].push_back(h.getUID());
          if (i % keep == 0) kept[(size_t)k].push_back(std::move(h));
      } }); }
    std::set<uint64_t> seen; for (auto &v : ids) for (auto id : v) { VT_CHECK(id != 0, "identifier", "an identifier is zero"); VT_CHECK(seen.insert(id).second, "identifier", "two of %d tasks have the identifier %llu", n, (unsigned long long)id); }
    for (int k = 0; k < clients; ++k) { size_t at = 0; for (auto &h : kept[(size_t)k]) { while (at < ids[(size_t)k].size() && ids[(size_t)k][at] != h.getUID()) ++at; VT_CHECK(at < ids[(size_t)k].size(), "identifier", "an identifier changed to %llu", (unsigned long long)h.getUID()); } }
    vt::nontrivial(n > 1);
}
// threads competing for a task, and observers of its state
VT_SCENARIO(C33, grabbing, 4) {
    int n = sized(1, 3, 16), workers = sized(0, 2, 8), clients = sized(1, 3, 16), observers = vt::range(0, 2);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(std::max(1, workers))); if (workers) s->start();
    std::vector<task_handle> ts; std::vector<uint64_t> uid;
    for (int i = 0; i < n; ++i) {
        int y = (int)vt::pick(3);
        auto f = [i, y] { VT_CHECK(vt::cellAdd(C_EXEC + i, 1) == 1, "executed-twice", "task %d was executed twice", i); for (int k = 0; k < y; ++k) vt::yield(); vt::cellAdd(C_RUN + i, 1); };
        if (vt::chance(1, 3)) ts.push_back(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("a", task_priority(vt::pick(5)), f)));
        else ts.push_back(task_handle(oqpi::make_task<task_type::waitable, Event, empty_task_context>("a", task_priority(vt::pick(5)), f)));
        uid.push_back(ts.back().getUID());
        VT_CHECK(!ts.back().isGrabbed() && !ts.back().isDone(), "state", "a new task is not idle");
    }
    struct A { int t, how; }; std::vector<std::vector<A>> plan((size_t)clients);
    vt::describe("%d tasks, %d workers:", n, workers);
    // 0 grab and execute, 1 grab, execute later, 2 submit, 3 single threaded
    for (auto &p : plan) { int k = sized(1, 3, 20); vt::describe(" ["); for (int j = 0; j < k; ++j) { p.push_back({(int)vt::pick((uint32_t)n), (int)vt::pick(4)}); vt::describe("%d/%d ", p.back().how, p.back().t); } vt::describe("]"); }
    vt::describe(" observers: %d", observers);
    {
        Clients c;
        for (size_t k = 0; k < plan.size(); ++k) c.add([&, k] {
            std::vector<task_handle> later;
            for (auto &a : plan[k]) {
                task_handle h = ts[(size_t)a.t];
                auto won = [&] {
                    VT_CHECK(vt::cellAdd(C_WON + a.t, 1) == 1, "grab", "task %d was grabbed twice", a.t);
                    VT_CHECK(vt::cell(C_EXEC + a.t) == 0, "grab", "task %d was grabbed after it was executed", a.t);
                    VT_CHECK(h.isGrabbed() && !h.isDone(), "state", "a task that was just grabbed is %s", h.isDone() ? "done" : "not grabbed");
                    VT_CHECK(!h.tryGrab(), "grab", "a grabbed task was grabbed again");
                };
                switch (a.how) {
                case 0: if (h.tryGrab()) { won(); h.execute(); VT_CHECK(h.isDone(), "state", "a task is not done after execute"); } break;
                case 1: if (h.tryGrab()) { won(); later.push_back(h); } break;
                case 2: if (workers) { auto r = s->add(h); VT_CHECK(r.isValid() && r.getUID() == uid[(size_t)a.t], "identifier", "add returned another task"); } break;
                default: h.executeSingleThreaded(); VT_CHECK(h.isGrabbed(), "state", "a task is not grabbed after executeSingleThreaded"); break;
                }
                VT_CHECK(h.getUID() == uid[(size_t)a.t], "identifier", "the identifier of a task changed");
            }
            for (auto &h : later) { VT_CHECK(!h.isDone(), "state", "a task that was not executed is done"); h.execute(); VT_CHECK(h.isDone() && h.isGrabbed(), "state", "a task is not done after execute"); }
        });
        for (int k = 0; k < observers; ++k) c.add([&] {
            std::vector<int> st((size_t)n, 0);
            for (int r = 0; r < 6; ++r) { for (int i = 0; i < n; ++i) {
                bool d = ts[(size_t)i].isDone(); bool g = ts[(size_t)i].isGrabbed(); int x = d ? 2 : g ? 1 : 0;
                VT_CHECK(!d || g, "state", "task %d is done but not grabbed", i);
                VT_CHECK(x >= st[(size_t)i], "state", "the state of task %d went back from %d to %d", i, st[(size_t)i], x); st[(size_t)i] = x;
                VT_CHECK(!d || vt::cell(C_RUN + i) == 1, "state", "task %d is done but was not executed", i);
                VT_CHECK(vt::cell(C_EXEC + i) == 0 || ts[(size_t)i].isGrabbed(), "state", "task %d is being executed but not grabbed", i);
                VT_CHECK(ts[(size_t)i].getUID() == uid[(size_t)i], "identifier", "the identifier of a task changed");
            } vt::yield(); }
        });
    }
    vt::settle();
    for (int i = 0; i < n; ++i) {
        auto &h = ts[(size_t)i]; bool g = h.isGrabbed(), d = h.isDone(), x = vt::cell(C_RUN + i) == 1;
        VT_CHECK(d == x && g == x, "state", "task %d was%s executed but is%s grabbed and%s done", i, x ? "" : " not", g ? "" : " not", d ? "" : " not");
    }
    if (workers) s->stop();
    vt::nontrivial(clients > 1 || workers > 0);
}
// groups, also ones that are completed by a caller before any worker gets to them
VT_SCENARIO(C33, groups, 2) {
    int n = sized(1, 3, 16), workers = vt::range(1, 3), limit = vt::chance(1, 4) ? vt::range(1, 3) : 0, callers = vt::range(1, 3), observers = vt::range(0, 2); bool seq = vt::chance(1, 4);
    int busy = vt::chance(1, 2) ? workers : (int)vt::pick((uint32_t)workers + 1); if (seq || limit) busy = std::min(busy, workers - 1);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(workers)); s->start();
    vt::Gate gate = vt::makeGate(); vt::describe("%s of %d, limit %d, %d of %d workers are busy, %d callers, %d observers", seq ? "sequence" : "parallel group", n, limit, busy, workers, callers, observers);
    for (int i = 0; i < busy; ++i) s->add(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("b", task_priority::normal, [gate] { vt::passGate(gate); })));
    vt::settle();
    std::vector<task_handle> kids; task_handle g;
    auto fill = [&](auto grp) { for (int i = 0; i < n; ++i) { int y = (int)vt::pick(3); kids.push_back(task_handle(oqpi::make_task<task_type::fire_and_forget, Event, empty_task_context>("a", task_priority(vt::pick(5)), [i, y] { VT_CHECK(vt::cellAdd(C_EXEC + i, 1) == 1, "executed-twice", "task %d was executed twice", i); for (int k = 0; k < y; ++k) vt::yield(); vt::cellAdd(C_RUN + i, 1); }))); grp->addTask(kids.back()); } g = task_handle(grp); };
    if (seq) fill(oqpi::make_sequence_group<task_type::waitable, empty_group_context>(*s, "g", task_priority::normal)); else fill(oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "g", task_priority::normal, n, limit));
    uint64_t uid = g.getUID(); VT_CHECK(!g.isDone() && !g.isGrabbed(), "state", "a new group is not idle");
    auto finished = [&](const char *when) {
        VT_CHECK(g.isDone(), "state", "%s the group is not done", when);
        for (int i = 0; i < n; ++i) { VT_CHECK(kids[(size_t)i].isDone() && kids[(size_t)i].isGrabbed(), "state", "%s task %d of the group is%s done and%s grabbed", when, i, kids[(size_t)i].isDone() ? "" : " not", kids[(size_t)i].isGrabbed() ? "" : " not"); VT_CHECK(!kids[(size_t)i].tryGrab(), "grab", "%s task %d was grabbed again", when, i); }
        VT_CHECK(g.getUID() == uid, "identifier", "the identifier of a group changed");
    };
    { auto r = s->add(g); VT_CHECK(r.isValid() && r.getUID() == uid, "identifier", "add returned another task"); }
    {
        Clients c;
        for (int k = 0; k < callers; ++k) { bool active = !seq && !limit && (busy == workers || vt::chance(1, 2)); c.add([&, active] { if (active) g.activeWait(); else g.wait(); finished("after a wait"); }); }
        for (int k = 0; k < observers; ++k) c.add([&] {
            bool wasDone = false, wasGrabbed = false; std::vector<int> st((size_t)n, 0);
            for (int r = 0; r < 6; ++r) {
                bool d = g.isDone(), gr = g.isGrabbed();
                VT_CHECK(d || !wasDone, "state", "the group is no longer done"); VT_CHECK(gr || !wasGrabbed, "state", "the group is no longer grabbed"); wasDone = d; wasGrabbed = gr;
                if (d) finished("once it was done");
                for (int i = 0; i < n; ++i) { bool kd = kids[(size_t)i].isDone(), kg = kids[(size_t)i].isGrabbed(); int x = kd ? 2 : kg ? 1 : 0; VT_CHECK(!kd || kg, "state", "task %d is done but not grabbed", i); VT_CHECK(x >= st[(size_t)i], "state", "the state of task %d went back from %d to %d", i, st[(size_t)i], x); st[(size_t)i] = x; VT_CHECK(!kd || vt::cell(C_RUN + i) == 1, "state", "task %d is done but was not executed", i); }
                vt::yield();
            }
        });
    }
    finished("after all waits");
    vt::openGate(gate); vt::settle();
    finished("once everything had settled");
    for (int i = 0; i < n; ++i) VT_CHECK(vt::cell(C_EXEC + i) == 1, "lost-task", "task %d was executed %d times", i, (int)vt::cell(C_EXEC + i));
    s->stop(); finished("after the scheduler was stopped");
    vt::nontrivial(busy > 0 || callers > 1 || observers > 0);
}
// handles against a model
VT_SCENARIO(C33, handles, 2) {
    int n = sized(1, 4, 12), slots = sized(1, 5, 20), steps = sized(1, 20, 120);
    auto s = std::make_unique<Sched>();
    struct Task { std::weak_ptr<oqpi::task_base> w; uint64_t uid; task_priority p; int state = 0; }; std::vector<Task> ts;
    std::vector<task_handle> hs((size_t)slots); std::vector<int> model((size_t)slots, -1);
    for (int i = 0; i < n; ++i) {
        Task t; t.p = task_priority(vt::pick(5));
        oqpi::task_sptr sp; bool grp = vt::chance(1, 4);
        task_handle h;
        if (grp) { auto g = oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*s, "g", t.p); sp = g; h = task_handle(g); }
        else { auto k = oqpi::make_task<task_type::waitable, Event, empty_task_context>("a", t.p, [i] { vt::cellAdd(C_EXEC + i, 1); }); sp = k; if (vt::chance(1, 2)) h = task_handle(k); else h = task_handle(sp); if (vt::chance(1, 3)) { t.state = 2; h.executeSingleThreaded(); } }
        t.w = sp; t.uid = sp->getUID(); size_t d = vt::pick((uint32_t)slots); hs[d] = std::move(h); model[d] = i; ts.push_back(t); sp.reset();
        VT_CHECK(!h.isValid(), "handles", "a handle is valid after being moved from");
    }
    vt::describe("%d tasks, %d handles:", n, slots);
    for (int k = 0; k < steps; ++k) {
        size_t a = vt::pick((uint32_t)slots), b = vt::pick((uint32_t)slots);
        switch (vt::pick(8)) {
        case 0: vt::describe(" %zu=%zu", a, b); hs[a] = hs[b]; model[a] = model[b]; break;
        case 1: vt::describe(" %zu<-%zu", a, b); hs[a] = std::move(hs[b]); if (a != b) { model[a] = model[b]; model[b] = -1; } break;
        case 2: vt::describe(" reset%zu", a); hs[a].reset(); model[a] = -1; break;
        case 3: { vt::describe(" copy%zu", a); task_handle c(hs[a]); VT_CHECK(c.isValid() == (model[a] >= 0), "handles", "a copy of a handle differs"); if (c.isValid()) VT_CHECK(c.getUID() == ts[(size_t)model[a]].uid, "handles", "a copy of a handle is one to another task"); c.reset(); break; }
        case 4: { vt::describe(" move%zu", a); task_handle c(std::move(hs[a])); VT_CHECK(!hs[a].isValid(), "handles", "a handle is valid after being moved from"); hs[a] = std::move(c); VT_CHECK(!c.isValid(), "handles", "a handle is valid after being moved from"); break; }
        case 5: { vt::describe(" pass%zu", a); auto f = [](task_handle h) { return h; }; hs[b] = f(hs[a]); model[b] = model[a]; break; }
        case 6: vt::describe(" swap%zu,%zu", a, b); std::swap(hs[a], hs[b]); std::swap(model[a], model[b]); break;
        default: if (model[a] >= 0 && ts[(size_t)model[a]].state < 2) { auto &t = ts[(size_t)model[a]]; vt::describe(" grab%zu", a); bool g = hs[a].tryGrab(); VT_CHECK(g == (t.state == 0), "grab", "grabbing a task %s", g ? "that was grabbed succeeded" : "failed"); t.state = 1; } break;
        }
        for (size_t i = 0; i < hs.size(); ++i) {
            VT_CHECK(hs[i].isValid() == (model[i] >= 0), "handles", "handle %zu is%s valid", i, model[i] >= 0 ? " not" : "");
            if (model[i] < 0) continue;
            auto &t = ts[(size_t)model[i]];
            VT_CHECK(hs[i].getUID() == t.uid && hs[i].getPriority() == t.p && hs[i].isGrabbed() == (t.state >= 1) && hs[i].isDone() == (t.state == 2), "handles", "handle %zu does not show the state of its task", i);
        }
        for (int t = 0; t < n; ++t) { long c = std::count(model.begin(), model.end(), t); VT_CHECK(ts[(size_t)t].w.use_count() == c, "handles", "task %d is shared by %ld handles instead of %ld", t, ts[(size_t)t].w.use_count(), c); }
    }
    vt::nontrivial(steps > 1 && slots > 1);
}

// ------------------------------------------------------------------------------------------- C14
namespace {
// Contexts that hold memory and tokens of their own.
struct TokTask : oqpi::task_context_base { Tok t; std::vector<int> mem; TokTask(oqpi::task_base *o, const std::string &n) : oqpi::task_context_base(o, n), t(1), mem(3, 1) {} void onPostExecute() { t.use(); mem.push_back(2); } };
struct TokGroup : oqpi::group_context_base { Tok t; TokGroup(oqpi::task_group_base *o, const std::string &n) : oqpi::group_context_base(o, n), t(1) {} void onPostExecute() { t.use(); (void)owner()->isDone(); } void onTaskAdded(const task_handle &h) { t.use(); (void)h.getUID(); } };
using TC = oqpi::task_context_container<TokTask>;
using GC = oqpi::group_context_container<TokGroup>;
struct LNode { int id; Kind kind; bool waitable; int maxSim = 0, yields = 0; task_priority prio; std::vector<LNode> kids; };
LNode genL(int &next, int depth, int &budget, bool root) {
    LNode n; n.id = next++; --budget; n.waitable = vt::chance(2, 3); n.prio = !root && vt::chance(1, 5) ? task_priority::inherit : task_priority(vt::pick(5)); n.yields = (int)vt::pick(3);
    n.kind = depth > 0 && budget > 0 && vt::chance(1, 2) ? (vt::chance(1, 2) ? Seq : Par) : Leaf;
    vt::describe(" %d%s%s", n.id, n.kind == Leaf ? "" : n.kind == Seq ? "S" : "P", n.waitable ? "" : "!");
    if (n.kind != Leaf) { if (n.kind == Par && vt::chance(1, 4)) n.maxSim = 1 + (int)vt::pick(2); int k = 1 + (int)vt::pick(3); vt::describe("("); for (int i = 0; i < k && (i == 0 || budget > 0); ++i) n.kids.push_back(genL(next, depth - 1, budget, false)); vt::describe(")"); }
    return n;
}
struct LRes { std::shared_ptr<Tok> t; };
// How the handles are shared: the graph keeps some of them, drops the others right away.
struct LHold { std::vector<task_handle> handles; };
void lbody(int id, int yields, const Tok &arg) { VT_CHECK(vt::cellAdd(C_EXEC + id, 1) == 1, "executed-twice", "task %d was executed twice", id); for (int i = 0; i < yields; ++i) { vt::yield(); arg.use(); } vt::cellAdd(C_RUN + id, 1); }
task_handle buildL(Sched &s, const LNode &n, LHold *keep, const std::vector<bool> &kept) {
    task_handle h;
    if (n.kind == Leaf) {
        int id = n.id, y = n.yields;
        Tok k(id);
        auto f = [id, y, k](const Tok &a) { lbody(id, y, a); k.use(); };
        auto fr = [id, y, k](const Tok &a) { lbody(id, y, a); return LRes{std::make_shared<Tok>(id)}; };
        if (id % 2) h = n.waitable ? task_handle(oqpi::make_task<task_type::waitable, Event, TC>("t", n.prio, f, Tok(id))) : task_handle(oqpi::make_task<task_type::fire_and_forget, Event, TC>("t", n.prio, f, Tok(id)));
        else h = n.waitable ? task_handle(oqpi::make_task<task_type::waitable, Event, TC>("t", n.prio, fr, Tok(id))) : task_handle(oqpi::make_task<task_type::fire_and_forget, Event, TC>("t", n.prio, fr, Tok(id)));
    } else {
        auto fill = [&](auto g) { for (auto &k : n.kids) g->addTask(buildL(s, k, keep, kept)); h = task_handle(g); };
        if (n.kind == Seq) { if (n.waitable) fill(oqpi::make_sequence_group<task_type::waitable, GC>(s, "q", n.prio)); else fill(oqpi::make_sequence_group<task_type::fire_and_forget, GC>(s, "q", n.prio)); }
        else { if (n.waitable) fill(oqpi::make_parallel_group<task_type::waitable, GC>(s, "p", n.prio, (int)n.kids.size(), n.maxSim)); else fill(oqpi::make_parallel_group<task_type::fire_and_forget, GC>(s, "p", n.prio, 0, n.maxSim)); }
    }
    if (keep && kept[(size_t)n.id]) keep->handles.push_back(h);
    return h;
}
void countLeaves(const LNode &n, int &c) { if (n.kind == Leaf) ++c; for (auto &k : n.kids) countLeaves(k, c); }
} // namespace
// graphs whose handles are dropped at random moments
VT_SCENARIO(C14, graphs, 5) {
    int roots = sized(1, 3, 12), next = 0, budget = sized(10, 10, 60), clients = vt::range(0, 2);
    auto s = std::make_unique<Sched>(); auto w = genWorkers(2, 3); registerAll(*s, w);
    std::vector<LNode> g; for (int i = 0; i < roots; ++i) g.push_back(genL(next, 2, budget, true));
    std::vector<bool> kept; for (int i = 0; i < next; ++i) kept.push_back(vt::chance(1, 3));
    bool before = vt::chance(1, 3); // submitted before the scheduler is started
    // what happens to the root handle: 0 dropped, 1 waited for, 2 actively waited for, 3 kept until the end, 4 single threaded, 5 dropped by another thread
    std::vector<int> fate, fy; for (auto &n : g) { int f; do f = (int)vt::pick(6); while ((!n.waitable && (f == 1 || f == 2)) || (n.kind == Seq && f == 2) || (f == 4 && vt::chance(1, 2))); if (before && (f == 1 || (f == 2 && n.kind != Leaf))) f = 0; fate.push_back(f); fy.push_back((int)vt::pick(4)); vt::describe(" %d:%d", n.id, f); }
    if (!before) s->start();
    LHold hold; std::vector<task_handle> late;
    {
        Clients c;
        for (size_t i = 0; i < g.size(); ++i) {
            task_handle h = buildL(*s, g[i], &hold, kept);
            auto run = [&, i](task_handle h) {
                int f = fate[i];
                if (f == 4) { h.executeSingleThreaded(); VT_CHECK(h.isDone(), "not-done", "not done after executeSingleThreaded"); return; }
                if (f == 3) { late.push_back(h); s->add(h); return; }
                if (f == 0) { s->add(std::move(h)); return; }
                s->add(h);
                for (int y = 0; y < fy[i]; ++y) vt::yield();
                if (f == 1) h.wait(); else if (f == 2) h.activeWait();
                // f == 5: dropped while it runs
            };
            if (fate[i] != 3 && (int)i < clients && !before) { auto box = std::make_shared<task_handle>(std::move(h)); c.add([run, box] { task_handle x = std::move(*box); run(std::move(x)); }); }
            else run(std::move(h));
        }
        if (before) s->start();
        for (size_t k = 0; k < hold.handles.size(); k += 2) { hold.handles[k].reset(); vt::yield(); }
    }
    int leaves = 0; for (auto &n : g) countLeaves(n, leaves);
    auto done = [&] { int d = 0; for (int i = 0; i < next; ++i) d += vt::cell(C_RUN + i) == 1; return d == leaves; };
    for (int k = 0; !done(); ++k) { vt::settle(); vt::yield(); VT_CHECK(k < 500, "lost-task", "not all tasks are executed"); }
    vt::settle();
    hold.handles.clear(); late.clear();
    // everything has completed, the workers sleep and no handle is left
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "all tasks are complete and all handles dropped, %lld of their parts are alive", (long long)vt::cell(C_LIVE));
    if (vt::chance(1, 2)) { vt::describe(" stop"); s->stop(); }
    s.reset();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "%lld parts of tasks are alive at the end", (long long)vt::cell(C_LIVE));
    vt::nontrivial(next > 1);
}
// tasks that are never executed, schedulers destroyed with pending tasks
VT_SCENARIO(C14, pending, 2) {
    int n = sized(1, 5, 40); bool start = vt::chance(1, 2), stop = vt::chance(1, 2);
    auto s = std::make_unique<Sched>(); auto w = genWorkers(2, 2); registerAll(*s, w);
    if (start) { s->start(); vt::describe("started "); if (stop) { s->stop(); vt::describe("stopped "); } }
    std::vector<task_handle> keep; int leaves = 0; std::vector<bool> none(64, false); int next = 0;
    for (int i = 0; i < n; ++i) {
        LNode l; l.id = next++; l.kind = Leaf; l.waitable = vt::chance(1, 2); l.prio = task_priority(vt::pick(5)); l.yields = 0;
        task_handle h = buildL(*s, l, nullptr, none); ++leaves;
        uint32_t what = vt::pick(4); vt::describe(" %u", what);
        if (what == 0) continue;                       // never submitted to anything
        if (what == 1) { s->add(std::move(h)); continue; }
        if (what == 2) { keep.push_back(h); s->add(std::move(h)); continue; }
        VT_CHECK(h.tryGrab(), "grab", "a new task cannot be grabbed"); // grabbed, never executed
        keep.push_back(h);
    }
    // groups without children
    { auto g1 = oqpi::make_parallel_group<task_type::waitable, GC>(*s, "p", task_priority::normal, 3); auto g2 = oqpi::make_sequence_group<task_type::fire_and_forget, GC>(*s, "q", task_priority::normal); }
    uint32_t order = vt::pick(2);
    if (order == 0) keep.clear();
    if (start && !stop) vt::settle();
    s.reset();
    if (start && !stop) vt::label("destroyed while running");
    keep.clear();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "%lld parts of tasks are alive although the scheduler and all handles are gone", (long long)vt::cell(C_LIVE));
    vt::nontrivial(n > 1);
}
// a waiting thread may drop the last handle to what it waited for at once, and the memory is used again
VT_SCENARIO(C14, waiters, 3) {
    vt::enableRaces(1);
    int n = sized(1, 3, 7), workers = sized(1, 2, 8);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(workers)); s->start();
    std::vector<int> how; for (int i = 0; i < n; ++i) { how.push_back((int)vt::pick(7)); vt::describe(" %d", how.back()); }
    {
        Clients c;
        for (int i = 0; i < n; ++i) {
            auto one = [&, i] {
                std::vector<bool> none(64, false);
                auto leaf = [&](int id) { LNode l; l.id = id; l.kind = Leaf; l.waitable = true; l.prio = task_priority::normal; l.yields = 0; return l; };
                LNode l = leaf(i * 8);
                if (how[(size_t)i] >= 3) { l.kind = how[(size_t)i] == 5 ? Seq : Par; l.kids.push_back(leaf(i * 8 + 1)); l.kids.push_back(leaf(i * 8 + 2)); }
                if (how[(size_t)i] == 2) { oqpi::parallel_for<Event, GC, TC>(*s, "pf", oqpi::atomic_partitioner(4, 1, 2), task_priority::normal, [k = Tok(1)](int) { k.use(); }); return; }
                task_handle h = s->add(buildL(*s, l, nullptr, none));
                if (how[(size_t)i] == 0 || how[(size_t)i] == 3 || how[(size_t)i] == 5) h.wait(); else if (how[(size_t)i] == 6) { while (!h.isDone()) vt::yield(); } else h.activeWait();
                h.reset();
                auto again = std::make_unique<std::array<int64_t, 40>>(); again->fill(i);
            };
            if (i + 1 < n) c.add(one); else one();
        }
    }
    vt::settle();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "all tasks are complete and all handles dropped, %lld of their parts are alive", (long long)vt::cell(C_LIVE));
    s.reset();
    vt::nontrivial(true);
}
// Known finding: a group with children that is never executed is never released.
VT_SCENARIO(C14, known_unrun_group, 0) {
    auto s = std::make_unique<Sched>(); std::vector<bool> none(64, false); int next = 0;
    LNode g; g.id = next++; g.kind = vt::chance(1, 2) ? Par : Seq; g.waitable = true; g.prio = task_priority::normal; g.yields = 0;
    int k = vt::range(1, 2); for (int i = 0; i < k; ++i) { LNode l; l.id = next++; l.kind = Leaf; l.waitable = true; l.prio = task_priority::normal; l.yields = 0; g.kids.push_back(l); }
    task_handle h = buildL(*s, g, nullptr, none);
    if (vt::chance(1, 2)) s->add(h);
    h.reset(); s.reset();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "a group that was never executed is not destroyed");
}
