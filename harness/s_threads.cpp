// C26 threads, C27 thread attributes, C28 failing creation, C29 sleeping.
#ifdef VT_PLAIN_C26
#define VT_PLAIN
#endif
#include "common.h"
#include "oqpi/threading/this_thread.hpp"
#include "dur.h"
#include "tok.h"
using namespace hv;

#ifdef VT_PLAIN_C29
#include <thread>
namespace sleeping = std::this_thread;
#else
namespace sleeping = oqpi::this_thread;
#endif
namespace {
constexpr int C_RUNS = 1, C_DONE = 100;
struct Out { int id; int64_t want; int64_t *data; };
void ran(const Out &o, int64_t got, bool create = true) {
    VT_CHECK(vt::cellAdd(C_RUNS + 10 + o.id, 1) == 1, "runs", "the callable of thread %d ran twice", o.id);
    VT_CHECK(got == o.want, "arguments", "thread %d was called with %lld instead of %lld", o.id, (long long)got, (long long)o.want);
    if (create) VT_CHECK(vt::self() != 0, "runs", "the callable ran on the creating thread");
    for (int i = 0; i < o.id % 3; ++i) vt::yield();
    *o.data = o.want;
    vt::cellSet(C_DONE + o.id, 1);
}
void freeFunction(Out o, Tok a, std::string s) { ran(o, a.get() + (int64_t)s.size()); }
void refFunction(const Out &o, int64_t &r, const int *p) { r += 5; ran(o, r + *p); }
struct Functor {
    Tok t; Functor(int64_t v) : t(v) {}
    void operator()(Out o, MoveTok m) { ran(o, t.get() + m.get()); }
};
struct OnlyMove { MoveTok t; void operator()(Out o) VT_RVALUE { ran(o, t.get()); } };
struct Member {
    Tok t; Member(int64_t v) : t(v) {}
    void call(Out o, int64_t x) { ran(o, t.get() + x); }
    void callc(Out o, const std::string &s) const { ran(o, t.get() + (int64_t)s.size()); }
};
template <class Base> struct PassLayer : Base { PassLayer() = default; PassLayer(PassLayer &&) = default; PassLayer &operator=(PassLayer &&) = default; };
using LThread = oqpi::thread_interface<PassLayer>;

oqpi::thread_attributes genAttr(std::string &name) {
    std::string n; int len = (int)vt::pick(16);
    for (int i = 0; i < len; ++i) n += (char)(vt::chance(1, 4) ? 32 + vt::pick(95) : 'a' + vt::pick(26));
    name = n;
    return oqpi::thread_attributes(n);
}
// makes a thread; the arguments are changed and destroyed right after the construction
template <class T> void make(T &t, Out o, int how, const oqpi::thread_attributes &at, bool byName, Member &m, int64_t *ref, const int *cst) {
    auto go = [&](auto &&...x) { if (byName) t = T(at.name_, std::forward<decltype(x)>(x)...); else t = T(at, std::forward<decltype(x)>(x)...); };
    int64_t w = o.want;
    switch (how) {
    case 0: { Tok a(w - 5); std::string s = "12345"; go(freeFunction, o, a, s); s = "changed"; a.v = -1; break; }
    case 1: { go(&freeFunction, o, Tok(w - 2), "ab"); break; }
    case 2: { *ref = w - 12; go(refFunction, o, std::ref(*ref), cst); break; }
    case 3: { Functor f(w - 3); MoveTok mt(3); go(f, o, std::move(mt)); f.t.v = -1; break; }
    case 4: go(Functor(w), o, MoveTok(0)); break;
    case 5: { OnlyMove f{MoveTok(w)}; go(std::move(f), o); break; }
    case 6: go(&Member::call, &m, o, w - m.t.v); break;
    case 7: go(&Member::callc, std::ref(m), o, std::string((size_t)(w - m.t.v), 'x')); break;
    case 8: { Member c(w - 1); go(&Member::call, c, o, 1); c.t.v = -1; break; }
    case 9: { Tok k(w); auto f = [k, o] { ran(o, k.get()); }; go(f); break; }
    case 10: { auto p = makeOwn<Tok>(w); go([p = std::move(p), o]() mutable { ran(o, p->get()); p.reset(); }); break; }
    case 11: { std::function<void()> f = [w, o] { ran(o, w); }; go(f); f = nullptr; break; }
    case 12: { std::vector<Tok> v; v.reserve(2); v.emplace_back(w - 1); v.emplace_back(1); go([o](const std::vector<Tok> &x) { ran(o, x[0].get() + x[1].get()); }, v); v.clear(); break; }
    default: { char buf[8] = "abc"; go([o](std::string s) { ran(o, o.want - 3 + (int64_t)s.size()); }, std::string(buf)); buf[0] = 0; break; }
    }
}
constexpr int HOWCALL = 14;

template <class T> void threadHistory() {
    vt::enableRaces(2);
    int ns = sized(1, 4, 16), steps = sized(1, 14, 40), next = 0;
    struct S { T t; int id = -1; };
    std::vector<std::unique_ptr<S>> sl; for (int i = 0; i < ns; ++i) sl.push_back(std::make_unique<S>());
    std::vector<std::unique_ptr<int64_t>> data, refs; data.reserve(64); auto m = std::make_unique<Member>(40);
    const int cst = 7;
    std::vector<int> detachedIds;
    vt::describe("%d threads:", ns);
    auto effects = [&](int id) {
        VT_CHECK(vt::cell(C_RUNS + 10 + id) == 1, "runs", "after join the callable of thread %d has run %lld times", id, (long long)vt::cell(C_RUNS + 10 + id));
        VT_CHECK(vt::cell(C_DONE + id) == 1, "join", "join returned before thread %d had finished", id);
        VT_CHECK(*data[(size_t)id] == id + 100, "join", "join returned without the effects of thread %d", id);
    };
    for (int i = 0; i < steps; ++i) {
        size_t k = vt::pick((uint32_t)ns), j = vt::pick((uint32_t)ns); S &s = *sl[k], &t = *sl[j];
        VT_CHECK(s.t.joinable() == (s.id >= 0), "joinable", "a thread object is%s joinable", s.id >= 0 ? " not" : "");
        switch (vt::pick(6)) {
        case 0: case 1: {
            if (s.id >= 0 || next >= 10) { vt::describe(" -"); break; }
            int id = next++, how = (int)vt::pick(HOWCALL); std::string name; auto at = genAttr(name); bool byName = vt::chance(1, 2);
            vt::describe(" %zu=thread%d(%d)", k, id, how);
            { vt::Quiet q; data.push_back(std::make_unique<int64_t>(0)); }
            refs.push_back(std::make_unique<int64_t>(0));
            vt::watch(data.back().get(), 8);
            make(s.t, Out{id, id + 100, data.back().get()}, how, at, byName, *m, refs.back().get(), &cst);
            VT_CHECK(s.t.joinable(), "joinable", "a new thread is not joinable");
            s.id = id; break; }
        case 2: {
            vt::describe(" join%zu", k); s.t.join(); // on a thread that is not joinable: no effect
            VT_CHECK(!s.t.joinable(), "joinable", "joinable after join");
            if (s.id >= 0) effects(s.id);
            s.id = -1; break; }
        case 3: if (s.id < 0 || vt::chance(1, 2)) { vt::describe(" -"); break; } vt::describe(" detach%zu", k); s.t.detach(); VT_CHECK(!s.t.joinable(), "joinable", "joinable after detach"); detachedIds.push_back(s.id); s.id = -1; break;
        case 4: // move assignment
            if (k != j && t.id >= 0) { vt::describe(" -"); break; }
            vt::describe(" %zu->%zu", k, j);
            t.t = std::move(s.t);
            if (k != j) { t.id = s.id; s.id = -1; VT_CHECK(!s.t.joinable(), "joinable", "joinable after being moved from"); }
            VT_CHECK(t.t.joinable() == (t.id >= 0), "joinable", "moving a thread did not transfer it");
            break;
        default: { // through a temporary
            vt::describe(" move%zu", k);
            auto id = s.t.getId();
            T tmp(std::move(s.t));
            VT_CHECK(!s.t.joinable() && tmp.joinable() == (s.id >= 0) && tmp.getId() == id, "joinable", "moving a thread did not transfer it");
            auto n = std::make_unique<S>(); n->t = std::move(tmp); n->id = s.id; s.id = -1; sl[k] = std::move(n);
            break; }
        }
    }
    for (auto &s : sl) if (s->id >= 0) { s->t.join(); VT_CHECK(!s->t.joinable(), "joinable", "joinable after join"); effects(s->id); }
    sl.clear();
    for (int id : detachedIds) (void)data[(size_t)id].release(); // nothing orders the end of a detached thread before this
    for (int i = 0; vt::liveFibers() > 0; ++i) { vt::settle(); vt::yield(); VT_CHECK(i < 1000, "runs", "a detached thread does not end"); }
    for (int id : detachedIds) VT_CHECK(vt::cell(C_RUNS + 10 + id) == 1 && vt::cell(C_DONE + id) == 1, "runs", "the callable of detached thread %d has run %lld times", id, (long long)vt::cell(C_RUNS + 10 + id));
    VT_CHECK(vt::createdThreads() == next, "runs", "%d threads were created instead of %d", vt::createdThreads(), next);
    m.reset();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "%lld arguments were never destroyed (or too often)", (long long)vt::cell(C_LIVE));
    vt::nontrivial(next > 0);
}
} // namespace
// ------------------------------------------------------------------------------------------- C26
VT_SCENARIO(C26, history, 4) { if (vt::chance(1, 4)) threadHistory<LThread>(); else threadHistory<Thread>(); }
// a thread that tries to join itself is not affected by it
VT_SCENARIO(C26, self_join, 1) {
    vt::enableRaces(1);
    int n = vt::range(1, 3); vt::describe("%d threads", n);
    std::vector<std::unique_ptr<Thread>> ts; std::vector<int> tries((size_t)n); std::vector<vt::Gate> gates;
    for (auto &x : tries) x = vt::range(1, 3);
    std::atomic<int> ready{0}; // (passing a gate orders nothing)
    std::unique_ptr<int64_t[]> data(new int64_t[(size_t)n]()); vt::watch(data.get(), sizeof(int64_t) * (size_t)n);
    for (int i = 0; i < n; ++i) { ts.push_back(std::make_unique<Thread>()); gates.push_back(vt::makeGate()); }
    for (int i = 0; i < n; ++i) {
        Thread *self = ts[(size_t)i].get(); vt::Gate g = gates[(size_t)i]; int k = tries[(size_t)i];
        *self = Thread("self", [self, g, k, i, &data, &ready] {
            vt::passGate(g); (void)ready.load();
            for (int a = 0; a < k; ++a) { self->join(); VT_CHECK(self->joinable(), "joinable", "a running thread is not joinable any more after it tried to join itself"); vt::yield(); }
            data[i] = 7; vt::cellSet(C_DONE + i, 1);
        });
    }
    ready.store(1);
    for (auto g : gates) vt::openGate(g);
    for (int i = 0; i < n; ++i) {
        if (vt::chance(1, 2)) vt::settle();
        ts[(size_t)i]->join();
        VT_CHECK(vt::cell(C_DONE + i) == 1 && data[(size_t)i] == 7, "join", "join returned before thread %d had finished", i);
        VT_CHECK(!ts[(size_t)i]->joinable(), "joinable", "joinable after join");
    }
    vt::nontrivial();
}
// terminating threads that wait, sleep, are busy, have not started yet or have ended already
VT_SCENARIO(C26, terminate, 1) {
    int n = sized(1, 4, 12), ended = 0; bool intr = vt::chance(1, 4); if (intr) vt::enableEintr(200);
    enum { Forever, Timed, Sleeps, Busy, Joins, Returns, KINDS };
    static const char *kn[] = {"waits", "timed-waits", "sleeps", "busy", "joins", "returns"};
    std::vector<int> kind; for (int i = 0; i < n; ++i) { kind.push_back((int)vt::pick(KINDS)); vt::describe(" %s", kn[kind.back()]); }
    auto never = std::make_unique<Sema>(0); auto some = std::make_unique<Sema>(0);
    auto other = std::make_unique<Thread>(); vt::Gate g = vt::makeGate(); bool joiner = false;
    for (int k : kind) joiner |= k == Joins;
    for (int &k : kind) if (k == Joins) { if (!joiner) k = Sleeps; joiner = false; } // one joiner at most
    *other = Thread("other", [g] { vt::passGate(g); });
    {
        std::vector<std::unique_ptr<Thread>> ts;
        for (int i = 0; i < n; ++i) {
            ts.push_back(std::make_unique<Thread>());
            auto body = [i, k = kind[(size_t)i], t = Tok(C_LIVE), &never, &some, &other] {
                Tok local(C_LIVE);
                vt::cellAdd(C_RUNS + 10 + i, 1);
                for (int a = 0; a < 5; ++a) {
                    vt::cellAdd(C_DONE + i, 1);
                    switch (k) {
                    case Forever: never->wait(); VT_CHECK(false, "terminated", "a wait for something that never comes returned"); break;
                    case Timed: some->waitFor(nanoseconds(1000 + a)); break;
                    case Sleeps: sleeping::sleep_for(nanoseconds(1000)); break;
                    case Busy: for (int b = 0; b < 5; ++b) { vt::yield(); vt::cellAdd(C_DONE + i, 0); } break;
                    case Joins: { Thread o(std::move(*other)); struct Back { Thread &o; std::unique_ptr<Thread> &d; ~Back() { *d = std::move(o); } } b{o, other}; o.join(); break; }
                    default: return;
                    }
                }
            };
            *ts.back() = Thread("t", std::move(body));
        }
        for (int i = 0; i < n; ++i) {
            int w = (int)vt::pick(4); vt::describe(" %s", w == 0 ? "." : w == 1 ? "y" : w == 2 ? "s" : "t");
            if (w == 1) vt::yield(); else if (w == 2) vt::settle(); else if (w == 3) vt::sleepNs(vt::range(1, 4000));
            int64_t before = vt::cell(C_DONE + i);
            ts[(size_t)i]->terminate();
            VT_CHECK(!ts[(size_t)i]->joinable(), "joinable", "a thread is joinable after it was terminated");
            ts[(size_t)i]->terminate(); // no effect
            vt::settle();
            int64_t after = vt::cell(C_DONE + i); int k = kind[(size_t)i];
            if (k != Busy && k != Returns) VT_CHECK(after <= before + 1, "terminated", "a thread that %s went on after it was terminated (%lld)", kn[k], (long long)(after - before));
            else VT_CHECK(vt::cell(C_RUNS + 10 + i) == 1, "runs", "the callable of a terminated thread ran %lld times", (long long)vt::cell(C_RUNS + 10 + i));
            if (vt::chance(1, 2)) { *ts[(size_t)i] = Thread("again", [&] { vt::cellAdd(9, 1); }); ts[(size_t)i]->join(); ++ended; VT_CHECK(vt::cell(9) == ended, "runs", "a thread object cannot be used again after terminate"); }
        }
    }
    for (int i = 0; vt::liveFibers() > 1; ++i) { vt::settle(); vt::yield(); VT_CHECK(i < 1000, "terminated", "a terminated thread does not end"); }
    vt::openGate(g); if (other->joinable()) other->join();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "%lld callables and locals of terminated threads were not destroyed", (long long)vt::cell(C_LIVE));
    vt::nontrivial();
}
// threads creating threads, all joined by whoever created them
VT_SCENARIO(C26, nested, 1) {
    vt::enableRaces(1);
    int depth = vt::range(1, 3), width = vt::range(1, 2);
    vt::describe("depth %d width %d", depth, width);
    int64_t total = 0;
    struct R {
        static void run(int d, int w, int64_t *out) {
            vt::cellAdd(5, 1);
            int64_t sum[2] = {0, 0};
            {
                std::vector<Thread> v;
                if (d > 0) for (int i = 0; i < w; ++i) v.push_back(Thread("n" + std::to_string(d), &R::run, d - 1, w, &sum[i]));
                for (auto &t : v) { VT_CHECK(t.joinable(), "joinable", "a thread in a vector is not joinable"); t.join(); }
            }
            *out = 1 + sum[0] + sum[1];
        }
    };
    Thread t("root", R::run, depth, width, &total);
    t.join();
    int64_t want = 0, p = 1; for (int i = 0; i <= depth; ++i) { want += p; p *= width; }
    VT_CHECK(total == want && vt::cell(5) == want, "join", "%lld threads ran, %lld were seen by their creators, instead of %lld", (long long)vt::cell(5), (long long)total, (long long)want);
    vt::nontrivial(true);
}

// ------------------------------------------------------------------------------------------- C27
namespace {
uint64_t genMask(int cpus) {
    uint64_t all = cpus >= 32 ? 0xffffffffull : (1ull << cpus) - 1, m;
    switch (vt::pick(4)) {
    case 0: m = 0xffffffffull; break;
    case 1: m = 1ull << vt::pick((uint32_t)std::min(cpus, 32)); break;
    default: m = vt::bits(32) & all; if (!m) m = 1;
    }
    return m;
}
// all_cores means every core, also those beyond the 32 that a mask can name
uint64_t effective(uint64_t m, int cpus) { uint64_t all = cpus >= 64 ? ~0ull : (1ull << cpus) - 1; return m == 0xffffffffull ? all : m & all; }
} // namespace
namespace {
// The creating thread may itself be restricted to some cores
void genCreator(int cpus) {
    if (!vt::chance(1, 3)) return;
    cpu_set_t set; CPU_ZERO(&set); uint64_t all = cpus >= 64 ? ~0ull : (1ull << cpus) - 1, m = vt::chance(1, 2) ? 1ull << vt::pick((uint32_t)cpus) : vt::bits(63) & all;
    if (!m) m = 1;
    memcpy((void *)&set, &m, 8); pthread_setaffinity_np(pthread_self(), sizeof set, &set);
    vt::describe("creator restricted to %llx; ", (unsigned long long)m);
}
bool stackOk(int fiber, uint32_t asked) { size_t s = vt::stackSizeOf(fiber); return asked == 0 || (s >= asked && s < asked + 65536u); }
} // namespace
VT_SCENARIO(C27, attributes, 4) {
    int cpus = vt::chance(1, 4) ? 32 : vt::chance(1, 3) ? vt::range(33, 64) : vt::chance(1, 6) ? 64 : vt::range(1, 31); bool rt = vt::chance(1, 2);
    int lo = vt::chance(1, 2) ? 1 : vt::range(0, 20), hi = lo == 1 ? 99 : lo + vt::range(20, 127);
    vt::setCpuCount(cpus); vt::grantRealtime(rt, lo, hi);
    VT_CHECK(Thread::hardware_concurrency() == (unsigned)cpus, "affinity", "hardware_concurrency is %u on %d cores", Thread::hardware_concurrency(), cpus);
    std::string name; auto at = genAttr(name);
    if (vt::chance(1, 2)) at.stackSize_ = 16384 + (uint32_t)vt::bits(vt::chance(1, 2) ? 16 : 27);
    uint64_t mask = genMask(cpus); at.coreAffinityMask_ = oqpi::core_affinity(mask);
    int prio = (int)vt::pick(6); at.priority_ = oqpi::thread_priority(prio);
    bool defaults = vt::chance(1, 5);
    if (defaults) { at = oqpi::thread_attributes(name); mask = 0xffffffffull; prio = (int)oqpi::thread_priority::normal; }
    vt::describe("%d cores, real-time %d [%d,%d], name '%s' stack %u mask %llx priority %d:", cpus, rt, lo, hi, name.c_str(), at.stackSize_, (unsigned long long)mask, prio);
    struct Op { int where, what; uint64_t mask; int core, prio; std::string name; };
    std::vector<Op> ops; int n = (int)vt::pick(8);
    for (int i = 0; i < n; ++i) { Op o{(int)vt::pick(2), (int)vt::pick(5), genMask(cpus), (int)vt::pick((uint32_t)std::min(cpus, 32)), (int)vt::pick(6), ""}; int len = 1 + (int)vt::pick(15); o.name = std::string((size_t)len, (char)('A' + vt::pick(26))); ops.push_back(o); vt::describe(" %s%d", o.where ? "in" : "out", o.what); }
    // Operations from within the thread and through the object take turns
    int turn = 1500; vt::cellSet(turn, -1);
    genCreator(cpus);
    Thread *self = nullptr; uint64_t curMask = effective(mask, cpus); int curPrio = prio; std::string curName = name; int sysLast = -1;
    int fiber = -1;
    auto verify = [&](const char *when) {
        VT_CHECK(vt::affinityOf(fiber) == curMask, "affinity", "%s: the affinity mask is %llx instead of %llx", when, (unsigned long long)vt::affinityOf(fiber), (unsigned long long)curMask);
        VT_CHECK((uint32_t)self->getCoreAffinityMask() == (uint32_t)curMask, "affinity", "%s: getCoreAffinityMask returns %x instead of %llx", when, (unsigned)self->getCoreAffinityMask(), (unsigned long long)(uint32_t)curMask);
        VT_CHECK(curName == vt::nameOf(fiber), "name", "%s: the thread is named '%s' instead of '%s'", when, vt::nameOf(fiber), curName.c_str());
        if (rt) {
            VT_CHECK((int)self->getPriority() == curPrio, "priority", "%s: getPriority returns %d instead of %d", when, (int)self->getPriority(), curPrio);
            sysLast = vt::sysPriorityOf(fiber);
            VT_CHECK(sysLast >= lo && sysLast <= hi, "priority", "%s: system priority %d is outside of [%d,%d]", when, sysLast, lo, hi);
            int64_t seen = vt::cell(1600 + curPrio); // one system priority per priority
            VT_CHECK(seen == 0 || seen == sysLast + 1, "priority", "priority %d is mapped to %d and %lld", curPrio, sysLast, (long long)seen - 1);
            vt::cellSet(1600 + curPrio, sysLast + 1);
        }
        VT_CHECK(stackOk(fiber, at.stackSize_), "stack", "the stack size is %zu instead of %u", vt::stackSizeOf(fiber), at.stackSize_);
    };
    auto body = [&, rt] {
        vt::cellSet(1501, vt::self()); vt::cellSet(1502, (int64_t)oqpi::this_thread::get_id());
        VT_CHECK(name == vt::nameOf(vt::self()), "name", "the thread is named '%s' instead of '%s'", vt::nameOf(vt::self()), name.c_str());
        for (size_t i = 0; i < ops.size(); ++i) {
            while (vt::cell(turn) != (int64_t)i) vt::yield();
            Op &o = ops[i];
            if (o.where) switch (o.what) {
            case 0: oqpi::this_thread::set_affinity_mask(oqpi::core_affinity(o.mask)); break;
            case 1: oqpi::this_thread::set_affinity((uint32_t)o.core); VT_CHECK(oqpi::this_thread::get_current_core() == (uint32_t)o.core, "affinity", "get_current_core"); break;
            case 2: oqpi::this_thread::set_priority(oqpi::thread_priority(o.prio)); break;
            case 3: oqpi::this_thread::set_name(o.name.c_str()); break;
            default: oqpi::this_thread::yield();
            }
            vt::cellSet(turn, 1000 + (int64_t)i);
        }
        while (vt::cell(turn) != 2000) vt::yield();
    };
    Thread t(at, body); self = &t;
    VT_CHECK(t.joinable(), "joinable", "the thread was not created");
    while (vt::cell(1501) == 0) vt::yield();
    fiber = (int)vt::cell(1501);
    VT_CHECK((int64_t)t.getId() == vt::cell(1502), "id", "getId differs from this_thread::get_id");
    verify("after the creation");
    for (size_t i = 0; i < ops.size(); ++i) {
        Op &o = ops[i];
        vt::cellSet(turn, (int64_t)i); while (vt::cell(turn) != 1000 + (int64_t)i) vt::yield();
        if (!o.where) switch (o.what) {
        case 0: t.setCoreAffinityMask(oqpi::core_affinity(o.mask)); break;
        case 1: t.setCoreAffinity(o.core); break;
        case 2: t.setPriority(oqpi::thread_priority(o.prio)); break;
        default: break;
        }
        switch (o.what) {
        case 0: curMask = effective(o.mask, cpus); break;
        case 1: curMask = 1ull << o.core; break;
        case 2: curPrio = o.prio; break;
        case 3: if (o.where) curName = o.name; break;
        }
        verify("after a change");
    }
    vt::cellSet(turn, 2000);
    t.join();
    // the mapping of priorities keeps their order
    int64_t last = 0; for (int p = 0; p < 6; ++p) if (int64_t v = vt::cell(1600 + p)) { VT_CHECK(v > last, "priority", "priority %d is mapped to %lld, not above that of a lower priority (%lld)", p, (long long)v - 1, (long long)last - 1); last = v; }
    vt::nontrivial(!defaults || n > 0);
}
VT_SCENARIO(C27, priorities, 1) { // all priorities at the same time
    int lo = vt::chance(1, 2) ? 1 : vt::range(0, 50), hi = lo + vt::range(20, 127); if (lo == 1) hi = 99;
    vt::grantRealtime(true, lo, hi);
    vt::describe("[%d,%d]", lo, hi);
    std::vector<int> sys;
    for (int p = 0; p < 6; ++p) {
        oqpi::thread_attributes at("p" + std::to_string(p)); bool later = vt::chance(1, 2);
        if (!later) at.priority_ = oqpi::thread_priority(p);
        Thread t(at, [] { while (!vt::cell(5)) vt::yield(); });
        if (later) t.setPriority(oqpi::thread_priority(p));
        VT_CHECK((int)t.getPriority() == p, "priority", "getPriority returns %d instead of %d", (int)t.getPriority(), p);
        vt::cellSet(5, 1); t.join(); vt::cellSet(5, 0);
        sys.push_back(vt::sysPriorityOf(p + 1));
    }
    for (int p = 1; p < 6; ++p) VT_CHECK(sys[(size_t)p] > sys[(size_t)p - 1], "priority", "priorities %d and %d are mapped to %d and %d", p - 1, p, sys[(size_t)p - 1], sys[(size_t)p]);
    VT_CHECK(sys[0] >= lo && sys[5] <= hi, "priority", "system priority out of range");
    vt::nontrivial(true);
}
VT_SCENARIO(C27, workers, 1) {
    int cpus = vt::range(1, 16); bool rt = vt::chance(1, 2);
    vt::setCpuCount(cpus); vt::grantRealtime(rt, 1, 99); genCreator(cpus);
    auto s = std::make_unique<Sched>();
    int n = vt::range(1, 3);
    struct W { int count, prio; uint64_t mask; uint32_t stack; std::string name; }; std::vector<W> ws;
    for (int i = 0; i < n; ++i) {
        W w{vt::range(1, 2), (int)vt::pick(6), genMask(cpus), vt::chance(1, 2) ? 0u : 16384u + (uint32_t)vt::pick(100000), std::string(1, (char)('a' + i)) + "worker"};
        oqpi::worker_config c; c.count = w.count; c.threadAttributes = oqpi::thread_attributes(w.name, w.stack, oqpi::core_affinity(w.mask), oqpi::thread_priority(w.prio));
        s->registerWorker<Thread, Sema>(c); ws.push_back(w); vt::describe("%dx mask %llx prio %d stack %u; ", w.count, (unsigned long long)w.mask, w.prio, w.stack);
    }
    s->start();
    int total = 0; for (auto &w : ws) total += w.count;
    for (int i = 0; i < 100000; ++i) { int named = 0; for (int f = 1; f <= total; ++f) named += vt::nameOf(f)[0] != 0; if (named == total) break; vt::yield(); }
    std::map<std::string, int> found; std::set<std::string> names;
    for (int f = 1; f <= total; ++f) {
        std::string nm = vt::nameOf(f);
        bool ok = false;
        for (auto &w : ws) if (nm.compare(0, w.name.size(), w.name) == 0) {
            ok = nm == w.name && w.count == 1 || w.count > 1 && nm.size() == w.name.size() + 1 && nm.back() >= '0' && nm.back() - '0' < w.count; ++found[w.name];
            VT_CHECK(names.insert(nm).second, "name", "two workers are named '%s'", nm.c_str());
            VT_CHECK(vt::affinityOf(f) == effective(w.mask, cpus), "affinity", "worker %s has the affinity mask %llx instead of %llx", nm.c_str(), (unsigned long long)vt::affinityOf(f), (unsigned long long)w.mask);
            VT_CHECK(stackOk(f, w.stack), "stack", "worker %s has a stack of %zu instead of %u", nm.c_str(), vt::stackSizeOf(f), w.stack);
            if (rt) { int p = vt::sysPriorityOf(f); vt::cellSet(1700 + w.prio, p); VT_CHECK(p >= 1 && p <= 99, "priority", "system priority %d", p); }
        }
        VT_CHECK(ok, "name", "a worker is named '%s'", nm.c_str());
    }
    for (auto &w : ws) VT_CHECK(found[w.name] == w.count, "name", "%d workers are named after %s instead of %d", found[w.name], w.name.c_str(), w.count);
    int64_t last = 0; if (rt) for (int p = 0; p < 6; ++p) if (int64_t v = vt::cell(1700 + p)) { VT_CHECK(v > last, "priority", "worker priorities are not ordered"); last = v; }
    s->stop();
    vt::nontrivial(true);
}

// ------------------------------------------------------------------------------------------- C28
VT_SCENARIO(C28, failures, 3) {
    bool rt = vt::chance(1, 2); vt::setCpuCount(8);
    int limit = vt::chance(1, 2) ? 99 : vt::range(1, 99); vt::grantRealtime(rt, 1, 99, limit);
    static const char *calls[] = {"pthread_create", "pthread_attr_init", "pthread_attr_setdetachstate", "pthread_attr_setschedpolicy", "getrlimit", "pthread_attr_setschedparam", "pthread_attr_setinheritsched", "pthread_attr_setstacksize", "pthread_setaffinity_np"};
    static const int errs[] = {EAGAIN, EPERM, EINVAL, ENOMEM};
    int n = vt::range(1, 4); auto m = std::make_unique<Member>(40); const int cst = 7;
    std::vector<std::unique_ptr<int64_t>> data, refs;
    Thread t; bool any = false;
    vt::describe("real-time %d (limit %d):", rt, limit);
    for (int i = 0; i < n; ++i) {
        int nf = (int)vt::pick(4); std::set<std::string> failed;
        vt::describe(" [");
        for (int k = 0; k < nf; ++k) {
            const char *c = calls[vt::chance(1, 3) ? 0 : vt::pick(9)]; if (failed.count(c)) continue;
            failed.insert(c); int e = errs[vt::pick(4)]; vt::failCall(c, 0, e, true); vt::describe("%s ", c); any = true;
        }
        std::string name; auto at = genAttr(name); at.stackSize_ = vt::chance(1, 2) ? 65536 : 0; at.coreAffinityMask_ = oqpi::core_affinity(1 + vt::pick(255)); at.priority_ = oqpi::thread_priority(vt::pick(6));
        int how = (int)vt::pick(HOWCALL);
        vt::describe("call %d]", how);
        data.push_back(std::make_unique<int64_t>(0)); refs.push_back(std::make_unique<int64_t>(0));
        int before = vt::createdThreads();
        make(t, Out{i, i + 100, data.back().get()}, how, at, false, *m, refs.back().get(), &cst);
        for (int k = 0; k < 9; ++k) vt::failCall(calls[k], -1, 0);
        if (failed.count("pthread_create")) {
            VT_CHECK(!t.joinable(), "joinable", "a thread that could not be created is joinable");
            VT_CHECK(vt::createdThreads() == before, "runs", "a thread was created");
            VT_CHECK(vt::cell(C_RUNS + 10 + i) == 0, "runs", "the callable of a thread that could not be created was run");
            VT_CHECK(vt::cell(C_LIVE) == 1, "destroyed", "%lld arguments of a thread that could not be created are alive", (long long)vt::cell(C_LIVE) - 1);
            uint32_t what = vt::pick(4); // all of these are harmless
            if (what == 0) t.join(); else if (what == 1) t.detach(); else if (what == 2) { Thread o(std::move(t)); VT_CHECK(!o.joinable(), "joinable", "joinable after a move"); t = std::move(o); }
            continue;
        }
        VT_CHECK(t.joinable(), "joinable", "a thread is not joinable although only attributes were refused");
        VT_CHECK(vt::createdThreads() == before + 1, "runs", "%d threads were created", vt::createdThreads() - before);
        int f = before + 1; // threads are numbered in the order of their creation
        t.join();
        VT_CHECK(vt::cell(C_RUNS + 10 + i) == 1 && vt::cell(C_DONE + i) == 1, "runs", "the callable was run %lld times", (long long)vt::cell(C_RUNS + 10 + i));
        VT_CHECK(vt::cell(C_LIVE) == 1, "destroyed", "%lld arguments are alive after join", (long long)vt::cell(C_LIVE) - 1);
        VT_CHECK(name == vt::nameOf(f), "name", "the thread is named '%s' instead of '%s'", vt::nameOf(f), name.c_str());
        bool attr = !failed.count("pthread_attr_init");
        if (attr && !failed.count("pthread_attr_setstacksize")) VT_CHECK(vt::stackSizeOf(f) == at.stackSize_, "stack", "the stack size is %zu instead of %u", vt::stackSizeOf(f), at.stackSize_);
        if (!failed.count("pthread_setaffinity_np")) VT_CHECK(vt::affinityOf(f) == (uint64_t)(uint32_t)at.coreAffinityMask_, "affinity", "the affinity mask is %llx instead of %x", (unsigned long long)vt::affinityOf(f), (unsigned)at.coreAffinityMask_);
        if (rt && attr && !failed.count("pthread_attr_setschedpolicy") && !failed.count("getrlimit") && !failed.count("pthread_attr_setschedparam") && !failed.count("pthread_attr_setinheritsched")) {
            int p = vt::sysPriorityOf(f);
            if (limit == 99) VT_CHECK(p >= 1, "priority", "the priority was not applied");
            VT_CHECK(p <= limit, "priority", "the system priority %d is above the limit", p);
        }
    }
    m.reset();
    VT_CHECK(vt::cell(C_LIVE) == 0, "destroyed", "%lld arguments are alive at the end", (long long)vt::cell(C_LIVE));
    vt::nontrivial(any);
}

// ------------------------------------------------------------------------------------------- C29
VT_SCENARIO(C29, sleep, 3) {
    vt::setDrift(0);
    int n = vt::range(1, 4); bool intr = vt::chance(1, 2), nt = false;
    if (intr) vt::enableEintr(vt::chance(1, 2) ? 300 : 900);
    int others = (int)vt::pick(3);
    std::vector<int64_t> od; for (int i = 0; i < others; ++i) od.push_back((int64_t)vt::bits(36));
    vt::describe("%s%d others:", intr ? "interrupted, " : "", others);
    Clients c; for (int i = 0; i < others; ++i) c.add([&, i] { for (int k = 0; k < 3; ++k) { int64_t t0 = vt::now(); sleeping::sleep_for(nanoseconds(od[(size_t)i])); VT_CHECK(vt::now() - t0 >= od[(size_t)i], "sleep", "sleep_for returned after %lld ns instead of %lld", (long long)(vt::now() - t0), (long long)od[(size_t)i]); } });
    for (int i = 0; i < n; ++i) {
        genPhase();
        Dur d = genDur(); int how = (int)vt::pick(3);
        int64_t t0 = vt::now(), req = 0;
        withDur(d, [&](auto x) {
            using D = decltype(x);
            if (how == 0) { req = slack(x); vt::describe(" for %lldns/%d", (long long)req, d.unit); sleeping::sleep_for(x); return; }
            auto until = [&](auto clock) {
                using C = decltype(clock);
                auto now = C::now();
                if constexpr (std::is_floating_point_v<typename D::rep>) {
                    auto tp = now + duration<double, typename D::period>(x);
                    req = std::max<int64_t>(0, (int64_t)((long double)nsUp(x) - 1000 - fabsl((long double)nsUp(x)) * 1e-6L));
                    vt::describe(" until +%lldns/%d", (long long)req, d.unit); sleeping::sleep_until(tp);
                } else if constexpr (sizeof(typename D::rep) == 8 && D::period::num >= 1 && D::period::den == 1) { // a coarse time point
                    auto tp = time_point_cast<D>(now) + x; req = std::max<int64_t>(0, duration_cast<nanoseconds>(tp - now).count());
                    vt::describe(" until +%lldns/%d", (long long)req, d.unit); sleeping::sleep_until(tp);
                } else {
                    auto tp = now + x; req = std::max<int64_t>(0, duration_cast<nanoseconds>(tp - now).count() - 1);
                    vt::describe(" until +%lldns/%d", (long long)req, d.unit); sleeping::sleep_until(tp);
                }
            };
            if (how == 1) until(steady_clock{}); else until(system_clock{});
        });
        int64_t el = vt::now() - t0;
        VT_CHECK(el >= req, "sleep", "a sleep of %lld ns returned after %lld ns", (long long)req, (long long)el);
        if (req == 0 && d.n <= 0 && !others) VT_CHECK(el == 0, "sleep", "a sleep of nothing took %lld ns", (long long)el);
        if (!others) VT_CHECK(el <= req + 1000000 + req / 100000, "sleep", "a sleep of %lld ns returned after %lld ns", (long long)req, (long long)el);
        nt |= req > 0;
    }
    vt::nontrivial(nt);
}
