// C18 semaphores, C19 mutexes, C20 auto-reset events, C21 manual-reset events, C22 timed waits,
// C23 named objects, C24 moves, C25 interrupted waits.
#include <mutex>
#include <optional>
#include "common.h"
#include "lin.h"
#include "dur.h"
using namespace hv;
using namespace std::chrono;

namespace {
using oqpi::sync_object_creation_options;
using LSem = oqpi::semaphore_interface<>;
using GSem = oqpi::semaphore_interface<oqpi::global_sync_object>;
using GMtx = oqpi::mutex_interface<oqpi::global_sync_object>;
using LAuto = oqpi::auto_reset_event_interface<>;
using GAuto = oqpi::auto_reset_event_interface<oqpi::global_sync_object>;
using LMan = oqpi::manual_reset_event_interface<>;
using GMan = oqpi::manual_reset_event_interface<oqpi::global_sync_object>;
constexpr auto CREATE = sync_object_creation_options::create_if_nonexistent;
constexpr auto OPEN = sync_object_creation_options::open_existing;
constexpr auto OPENCREATE = sync_object_creation_options::open_or_create;

enum Kind7 { KLSem, KGSem, KGMtx, KLAuto, KGAuto, KLMan, KGMan, KINDS };
const char *kindName(int k) { static const char *n[] = {"semaphore", "global semaphore", "global mutex", "auto event", "global auto event", "manual event", "global manual event"}; return n[k]; }
bool isGlobal(int k) { return k == KGSem || k == KGMtx || k == KGAuto || k == KGMan; }
bool isManual(int k) { return k == KLMan || k == KGMan; }
bool isSem(int k) { return k == KLSem || k == KGSem; }
bool isEvent(int k) { return k >= KLAuto; }

template <class T> constexpr bool is_sem = std::is_same_v<T, LSem> || std::is_same_v<T, GSem>;
template <class T> constexpr bool is_mtx = std::is_same_v<T, GMtx>;
template <class T> constexpr bool is_man = std::is_same_v<T, LMan> || std::is_same_v<T, GMan>;
template <class T> constexpr bool is_global = std::is_same_v<T, GSem> || std::is_same_v<T, GMtx> || std::is_same_v<T, GAuto> || std::is_same_v<T, GMan>;

// How a timed call is made
enum How { HFor, HSteady, HSystem, HFor2, HSteady2, HSystem2, HOWS }; // ..2: STL-style aliases (mutex only)

// ------------------------------------------------------------------------------------- objects
struct ISync {
    virtual ~ISync() {}
    int kind = 0;
    virtual bool valid() = 0;
    virtual bool take() = 0;                    // blocking
    virtual bool tryTake(int variant) = 0;      // never blocks for long
    virtual bool takeFor(const Dur &, int how, int64_t *requested) = 0;  // requested: ns that must at least pass before a failure
    virtual void give(int n) = 0;
    virtual void giveAll() = 0;
    virtual void reset() = 0;
    virtual std::string name() = 0;
    virtual ISync *moveOut() = 0;               // new object, move constructed
    virtual void assignFrom(ISync &) = 0;       // move assignment
    virtual const void *native() = 0;
};
template <class T> struct Obj final : ISync {
    T o;
    template <class... A> explicit Obj(A &&...a) : o(std::forward<A>(a)...) {}
    bool valid() override { return o.isValid(); }
    bool take() override { if constexpr (is_mtx<T>) return o.lock(); else return o.wait(); }
    template <class D> bool tf(D d, int how) {
        if constexpr (is_mtx<T>) { if (how >= HFor2) return o.try_lock_for(d); return o.tryLockFor(d); }
        else return o.waitFor(d);
    }
    template <class TP> bool tu(TP t, int how) {
        if constexpr (is_mtx<T>) { if (how >= HFor2) return o.try_lock_until(t); return o.tryLockUntil(t); }
        else return o.waitUntil(t);
    }
    bool tryTake(int v) override {
        if constexpr (is_mtx<T>) { if (v % 3 == 0) return o.tryLock(); if (v % 3 == 1) return o.try_lock(); }
        if constexpr (is_sem<T>) { if (v % 3 != 2) return o.tryWait(); }
        switch (v / 3 % 4) {
        case 0: return tf(nanoseconds(0), HFor);
        case 1: return tf(milliseconds(-5), HFor2);
        case 2: return tu(steady_clock::now(), HFor);
        default: return tu(system_clock::now() - seconds(1), HFor2);
        }
    }
    bool takeFor(const Dur &d, int how, int64_t *req) override {
        return withDur(d, [&](auto x) {
            using D = decltype(x);
            if (how % 3 == HFor) { *req = slack(x); return tf(x, how); }
            auto abs = [&](auto clock) {
                using C = decltype(clock);
                auto now = C::now();
                if constexpr (std::is_floating_point_v<typename D::rep>) {
                    auto tp = now + duration<double, typename D::period>(x);
                    *req = (int64_t)(((long double)tp.time_since_epoch().count() * decltype(tp)::period::num / decltype(tp)::period::den * 1e9L) - (long double)now.time_since_epoch().count()) - (int64_t)(1000 + fabsl((long double)nsUp(x)) * 1e-6L);
                    if (*req < 0) *req = 0;
                    return tu(tp, how);
                } else if (std::ratio_less_v<typename D::period, std::micro> || std::is_same_v<D, milliseconds>) {
                    auto tp = now + x;
                    *req = std::max<int64_t>(0, duration_cast<nanoseconds>(tp - now).count() - 1);
                    return tu(tp, how);
                } else { // a time point as coarse as the unit
                    if constexpr (sizeof(typename D::rep) < 8) { auto tp = now + x; *req = std::max<int64_t>(0, duration_cast<nanoseconds>(tp - now).count() - 1); return tu(tp, how); }
                    else { auto tp = time_point_cast<D>(now) + x; *req = std::max<int64_t>(0, duration_cast<nanoseconds>(tp - now).count() - 1); return tu(tp, how); }
                }
            };
            return how % 3 == HSteady ? abs(steady_clock{}) : abs(system_clock{});
        });
    }
    void give(int n) override {
        if constexpr (is_sem<T>) { if (n == 1 && vt::self() % 2 == 0) o.notifyOne(); else o.notify(n); }
        else if constexpr (is_mtx<T>) { o.unlock(); (void)n; }
        else { o.notify(); (void)n; }
    }
    void giveAll() override { if constexpr (is_sem<T>) o.notifyAll(); }
    void reset() override { if constexpr (is_man<T>) o.reset(); }
    std::string name() override { if constexpr (is_global<T>) return o.getName(); else return ""; }
    ISync *moveOut() override { auto *n = new Obj<T>(std::move(o)); n->kind = kind; return n; }
    void assignFrom(ISync &r) override { o = std::move(static_cast<Obj<T> &>(r).o); }
    const void *native() override { return o.getNativeHandle(); }
};
template <class T, class... A> ISync *mk(int kind, A &&...a) { auto *o = new Obj<T>(std::forward<A>(a)...); o->kind = kind; return o; }
using P = std::unique_ptr<ISync>;
// initial: count of a semaphore, 1: free mutex; events start unsignalled
P makeObj(int kind, const std::string &name, int initial, int maxCount = INT32_MAX, sync_object_creation_options opt = OPENCREATE, int variant = 0) {
    switch (kind) {
    case KLSem:
        if (variant % 3 == 0 && maxCount == INT32_MAX) { if (initial == 0 && variant / 3 % 2) return P(mk<LSem>(kind)); return P(mk<LSem>(kind, initial)); }
        return P(mk<LSem>(kind, initial, maxCount));
    case KGSem:
        if (opt == OPENCREATE && variant % 2) {
            if (initial == 0 && maxCount == INT32_MAX) return P(mk<GSem>(kind, name));
            return P(mk<GSem>(kind, name, initial, maxCount));
        }
        return P(mk<GSem>(kind, name, opt, initial, maxCount));
    case KGMtx:
        if (initial == 0 && variant % 2) { if (opt == OPENCREATE && variant / 2 % 2) return P(mk<GMtx>(kind, name)); return P(mk<GMtx>(kind, name, opt)); }
        return P(mk<GMtx>(kind, name, opt, initial == 0));
    case KLAuto: return P(mk<LAuto>(kind));
    case KGAuto: if (opt == OPENCREATE && variant % 2) return P(mk<GAuto>(kind, name)); return P(mk<GAuto>(kind, name, opt));
    case KLMan: return P(mk<LMan>(kind));
    default: if (opt == OPENCREATE && variant % 2) return P(mk<GMan>(kind, name)); return P(mk<GMan>(kind, name, opt));
    }
}
// what a wait/notification does to the reference model
bool mTake(int kind, int64_t &s) { if (s <= 0) return false; if (!isManual(kind)) --s; return true; }
void mGive(int kind, int64_t &s, int64_t n) { if (isSem(kind)) s += n; else if (s < 1) s = 1; }

constexpr int64_t MS = 1000000;

// A long single-threaded history against the model; several handles when the object is named.
void sequentialModel(int kind) {
    vt::setDrift(0);
    genPhase();
    bool large = isSem(kind) && vt::chance(1, 6);
    int init = isSem(kind) ? (int)vt::pick(large ? (vt::chance(1, 12) ? 3000 : 60) : 4) : kind == KGMtx ? (int)vt::pick(2) : 0;
    int maxCount = isSem(kind) ? (vt::chance(1, 2) ? 1 + (int)vt::pick(large ? 200 : 5) : INT32_MAX) : INT32_MAX;
    if (large && maxCount < INT32_MAX && vt::chance(1, 60)) { maxCount = 32760 + (int)vt::pick(40000); vt::maxSteps(8000000); vt::label("huge"); }
    if (large && vt::chance(1, 60)) { init = 65530 + (int)vt::pick(12); vt::maxSteps(8000000); vt::label("huge"); }
    if (maxCount < init) maxCount = init;
    vt::describe("%s initial %d max %d:", kindName(kind), init, maxCount);
    std::vector<P> hs;
    hs.push_back(makeObj(kind, "obj", init, maxCount, vt::chance(1, 2) ? CREATE : OPENCREATE, (int)vt::pick(6)));
    VT_CHECK(hs[0]->valid(), "invalid", "%s is not valid after its creation", kindName(kind));
    if (isGlobal(kind)) for (int n = (int)vt::pick(3); n > 0; --n) {
        int otherInit = isSem(kind) ? (int)vt::pick(6) : kind == KGMtx ? (int)vt::pick(2) : 0;
        hs.push_back(makeObj(kind, "obj", otherInit, maxCount, vt::chance(1, 2) ? OPEN : OPENCREATE, (int)vt::pick(6)));
        VT_CHECK(hs.back()->valid(), "invalid", "%s could not be opened again", kindName(kind));
    }
    int64_t s = init; int gives = 0, takes = 0;
    int steps = sized(1, 25, 200);
    for (int i = 0; i < steps; ++i) {
        ISync &o = *hs[vt::pick((uint32_t)hs.size())];
        int64_t t0 = vt::now();
        switch (vt::pick(isSem(kind) ? 6u : isManual(kind) ? 6u : 5u)) {
        case 0: { // try
            int v = (int)vt::pick(12); bool want = mTake(kind, s); bool got = o.tryTake(v);
            vt::describe(" try%d", v);
            VT_CHECK(got == want, "model", "step %d: a try on a %s returned %d instead of %d", i, kindName(kind), got, want); takes += want; break; }
        case 1: { // blocking
            if (s <= 0) { vt::describe(" -"); break; }
            mTake(kind, s); vt::describe(" wait");
            VT_CHECK(o.take(), "model", "step %d: a wait on a %s failed", i, kindName(kind)); ++takes; break; }
        case 2: { // timed
            Dur d = genDur(); int how = (int)vt::pick(HOWS); int64_t req = 0;
            bool want = mTake(kind, s); bool got = o.takeFor(d, how, &req);
            vt::describe(" for(%lldns/%d)%d", (long long)d.n, d.unit, how);
            VT_CHECK(got == want, "model", "step %d: a timed wait on a %s returned %d instead of %d", i, kindName(kind), got, want);
            int64_t el = vt::now() - t0;
            if (want) VT_CHECK(el < MS, "timeout", "step %d: a timed wait on an available %s took %lld ns", i, kindName(kind), (long long)el);
            else VT_CHECK(el >= req, "timeout", "step %d: a timed wait on a %s failed after %lld ns instead of %lld", i, kindName(kind), (long long)el, (long long)req);
            takes += want; break; }
        case 3: case 4: { // notify
            if (isSem(kind)) { int n = (int)vt::pick(large ? (vt::chance(1, 40) ? 3000 : 150) : 4); if (large && vt::chance(1, 600)) { static const int many[] = {32768, 65535, 65536, 65537, 40000}; n = many[vt::pick(5)]; vt::maxSteps(8000000); vt::label("huge"); }
            if (vt::chance(1, 3) && (maxCount < 300 || (maxCount < 80000 && vt::chance(1, 5)))) { vt::describe(" all"); o.giveAll(); mGive(kind, s, maxCount); gives += maxCount; } else { vt::describe(" +%d", n); o.give(n); mGive(kind, s, n); gives += n; } }
            else { vt::describe(" notify"); o.give(1); mGive(kind, s, 1); ++gives; }
            break; }
        default:
            if (isManual(kind)) { vt::describe(" reset"); o.reset(); s = 0; }
            else if (isSem(kind)) { vt::describe(" +1"); o.give(1); mGive(kind, s, 1); ++gives; }
        }
        VT_CHECK(o.valid(), "invalid", "a %s became invalid", kindName(kind));
    }
    // what is left
    ISync &o = *hs[vt::pick((uint32_t)hs.size())];
    if (isManual(kind)) { for (int k = 0; k < 2; ++k) VT_CHECK(o.tryTake(2) == (s > 0), "model", "at the end the %s is%s signalled", kindName(kind), s > 0 ? " not" : ""); }
    else { int64_t left = 0; while (left <= s + 3 && o.tryTake((int)vt::pick(12))) ++left; VT_CHECK(left == s, "model", "at the end the %s yields %lld instead of %lld waits", kindName(kind), (long long)left, (long long)s); }
    vt::nontrivial(gives > 0 && takes > 0);
}

// Concurrent histories of a counting object: every result must be explained by an order of the operations.
// oneNotifier: notifications come from a single thread.
enum { OTake, OTry, OTimed, OGive, OReset };
void concurrentCounting(int kind, bool oneNotifier) {
    vt::setDrift(0);
    genPhase();
    if (vt::chance(1, 3)) vt::enableEintr(100);
    if (vt::chance(1, 3)) vt::enableTimeJumps(true);
    int init = isSem(kind) ? (int)vt::pick(3) : kind == KGMtx ? 1 : 0;
    int maxCount = isSem(kind) ? 1 + (int)vt::pick(3) : INT32_MAX;
    if (isSem(kind) && maxCount < init) maxCount = init;
    int nc = vt::range(1, 3), nh = isGlobal(kind) ? vt::range(1, 3) : 1;
    vt::describe("%s initial %d max %d, %d handles, %d clients:", kindName(kind), init, maxCount, nh, nc);
    std::vector<P> hs;
    for (int i = 0; i < nh; ++i) { hs.push_back(makeObj(kind, "obj", init, maxCount, i ? (vt::chance(1, 2) ? OPEN : OPENCREATE) : CREATE, (int)vt::pick(6))); VT_CHECK(hs.back()->valid(), "invalid", "handle %d of a %s is not valid", i, kindName(kind)); }
    struct Step { int op, h, n, v; Dur d; };
    std::vector<std::vector<Step>> plan((size_t)nc);
    int total = 0; bool gives = false, takes = false;
    for (int c = 0; c < nc; ++c) {
        int n = vt::range(1, 5);
        for (int i = 0; i < n && total < 16; ++i) {
            Step s; s.h = (int)vt::pick((uint32_t)nh); s.n = 1; s.v = (int)vt::pick(12); s.d = Dur{0, 0};
            bool mayGive = !oneNotifier || c == 0;
            uint32_t k = vt::pick(mayGive ? 6u : 3u);
            s.op = k == 0 ? OTake : k == 1 ? OTry : k == 2 ? OTimed : OGive;
            if (s.op == OGive && isSem(kind)) { s.n = vt::chance(1, 5) ? -1 : (int)vt::pick(3); if (s.n > 1) ++total; if (s.n < 0) total += maxCount; }
            if (s.op == OTimed) { s.d = genDur(); s.v = (int)vt::pick(HOWS); }
            ++total;
            (s.op == OGive ? gives : takes) = true;
            plan[(size_t)c].push_back(s);
            vt::describe(" %d:%s%d", c, s.op == OTake ? "wait" : s.op == OTry ? "try" : s.op == OTimed ? "timed" : "notify", s.op == OGive ? s.n : s.h);
        }
    }
    std::vector<std::vector<LOp>> hist((size_t)nc + 1);
    for (auto &h : hist) { h.reserve(64); }
    auto run = [&](ISync &o, const Step &s, std::vector<LOp> &out, int client) {
        LOp l; l.client = client; l.kind = s.op; int64_t req = 0, t0 = vt::now();
        if (s.op == OGive) {
            int n = isSem(kind) ? (s.n < 0 ? maxCount : s.n) : 1;
            size_t first = out.size();
            l.inv = stamp();
            for (int i = 0; i < n; ++i) out.push_back(l); // pending until they return
            if (s.n < 0 && isSem(kind)) o.giveAll(); else o.give(isSem(kind) ? n : 1);
            int64_t e = stamp();
            for (size_t i = first; i < out.size(); ++i) out[i].resp = e;
            return;
        }
        l.inv = stamp();
        bool r = s.op == OTake ? o.take() : s.op == OTry ? o.tryTake(s.v) : o.takeFor(s.d, s.v, &req);
        l.resp = stamp(); l.a = r;
        if (s.op == OTake) VT_CHECK(r, "model", "a wait on a valid %s failed", kindName(kind));
        if (s.op == OTimed && !r) VT_CHECK(vt::now() - t0 >= req, "timeout", "a timed wait on a %s failed after %lld ns instead of %lld", kindName(kind), (long long)(vt::now() - t0), (long long)req);
        out.push_back(l);
    };
    {
        Clients c;
        for (int k = 0; k < nc; ++k) c.add([&, k] { for (auto &s : plan[(size_t)k]) run(*hs[(size_t)s.h], s, hist[(size_t)k], k); });
        // everybody is finished or waits for a notification (timed waits have expired)
        auto quiesce = [] {
            size_t seen;
            do {
                seen = vt::events().size();
                for (int spin = 0; !vt::settle() && spin < 100000; ++spin) vt::yield();
                vt::sleepNs(40000000000000000ll);
                for (int spin = 0; !vt::settle() && spin < 100000; ++spin) vt::yield();
            } while (vt::events().size() != seen);
        };
        quiesce();
        int rounds = 0;
        while (vt::liveFibers() > 0) {
            VT_CHECK(++rounds < 200, "lost-wakeup", "threads are still waiting after %d notifications of a %s", rounds, kindName(kind));
            Step t{OTry, (int)0, 1, 2, {0, 0}}; run(*hs[0], t, hist[(size_t)nc], nc);
            VT_CHECK(hist[(size_t)nc].back().a == 0, "lost-wakeup", "%d threads wait although the %s is available", vt::liveFibers(), kindName(kind));
            hist[(size_t)nc].pop_back(); // keeps the history short
            Step g{OGive, 0, 1, 0, {0, 0}}; run(*hs[0], g, hist[(size_t)nc], nc);
            quiesce();
        }
    }
    int64_t left = 0; while (left < 60 && hs[0]->tryTake(2)) ++left;
    std::vector<LOp> all; for (auto &h : hist) for (auto &l : h) all.push_back(l);
    if (all.size() > 60) { vt::discard(); return; }
    int64_t posts = init, succ = 0;
    for (auto &l : all) { if (l.kind == OGive) ++posts; else succ += l.a; }
    if (isSem(kind)) VT_CHECK(posts == succ + left, "model", "%lld tokens but %lld successful waits and %lld left", (long long)posts, (long long)succ, (long long)left);
    else VT_CHECK(left <= 1, "model", "a %s let %lld waits through for one signal", kindName(kind), (long long)left);
    int64_t final = left;
    LOp fin; fin.inv = stamp(); fin.resp = stamp(); fin.kind = 99; fin.a = final; all.push_back(fin);
    bool ok = linearizable(all, (int64_t)init, [kind](int64_t &s, const LOp &l) {
        switch (l.kind) {
        case OGive: mGive(kind, s, 1); return true;
        case 99: return s == l.a;
        default: if (l.a) return mTake(kind, s); return s == 0;
        }
    });
    if (!ok) {
        std::string h; char b[80];
        for (auto &l : all) { snprintf(b, sizeof b, " [%lld,%lld]%d:%s=%lld", (long long)l.inv, (long long)l.resp, l.client, l.kind == OTake ? "wait" : l.kind == OTry ? "try" : l.kind == OTimed ? "timed" : l.kind == OGive ? "notify" : "left", (long long)l.a); h += b; }
        vt::fail("not-linearizable", "no order of the operations on a %s explains the results:%s", kindName(kind), h.c_str());
    }
    vt::nontrivial(gives && takes && nc > 1);
}
} // namespace

// ------------------------------------------------------------------------------------------- C18
VT_SCENARIO(C18, sequential, 2) { sequentialModel(vt::chance(1, 2) ? KLSem : KGSem); }
VT_SCENARIO(C18, concurrent, 4) { concurrentCounting(vt::chance(1, 2) ? KLSem : KGSem, false); }

// ------------------------------------------------------------------------------------------- C19
VT_SCENARIO(C19, sequential, 2) { sequentialModel(KGMtx); }
VT_SCENARIO(C19, exclusion, 4) {
    vt::setDrift(0);
    genPhase();
    vt::enableRaces(2);
    if (vt::chance(1, 3)) vt::enableEintr(100);
    if (vt::chance(1, 3)) vt::enableTimeJumps(true);
    int nc = sized(2, 4, 16), nh = vt::range(1, 3);
    bool lockedAtFirst = vt::chance(1, 2);
    std::vector<P> hs;
    for (int i = 0; i < nh; ++i) hs.push_back(makeObj(KGMtx, "mtx", i ? (int)vt::pick(2) : !lockedAtFirst, INT32_MAX, i ? (vt::chance(1, 2) ? OPEN : OPENCREATE) : CREATE, (int)vt::pick(4)));
    int64_t *data = new int64_t(0); vt::watch(data, sizeof *data);
    struct Step { int how, h, yields; Dur d; };
    std::vector<std::vector<Step>> plan((size_t)nc);
    vt::describe("mutex, %d clients, %d handles, %s:", nc, nh, lockedAtFirst ? "locked" : "free");
    for (auto &p : plan) { int n = sized(1, 4, 12); for (int i = 0; i < n; ++i) { p.push_back({(int)vt::pick(7), (int)vt::pick((uint32_t)nh), (int)vt::pick(3), genDur()}); vt::describe(" %d", p.back().how); } vt::describe(";"); }
    constexpr int OWN = 0, CNT = 1, RELEASED = 2;
    auto critical = [&](const Step &s) {
        VT_CHECK(!lockedAtFirst || vt::cell(RELEASED), "exclusion", "a mutex created locked was acquired before it was unlocked");
        VT_CHECK(vt::cellAdd(OWN, 1) == 1, "exclusion", "two threads own the mutex");
        int64_t v = *data; for (int y = s.yields; y > 0; --y) vt::yield(); *data = v + 1;
        vt::cellAdd(CNT, 1); vt::cellAdd(OWN, -1);
    };
    {
        Clients c;
        for (int k = 0; k < nc; ++k) c.add([&, k] {
            for (auto &s : plan[(size_t)k]) {
                auto &o = static_cast<Obj<GMtx> &>(*hs[(size_t)s.h]).o;
                auto &w = *hs[(size_t)s.h];
                int64_t t0 = vt::now(), req = 0; bool got = true;
                switch (s.how) {
                case 0: { std::lock_guard<GMtx> g(o); critical(s); continue; }
                case 1: { std::unique_lock<GMtx> g(o, std::try_to_lock); if (g.owns_lock()) critical(s); continue; }
                case 2: got = o.lock(); VT_CHECK(got, "exclusion", "lock() returned false"); break;
                case 3: got = w.tryTake(s.yields); break;
                case 4: { std::unique_lock<GMtx> g(o, std::defer_lock); if (g.try_lock_for(nanoseconds(s.d.n))) critical(s); else VT_CHECK(vt::now() - t0 >= s.d.n, "timeout", "try_lock_for failed too early"); continue; }
                case 5: { std::unique_lock<GMtx> g(o, std::defer_lock); if (g.try_lock_until(steady_clock::now() + nanoseconds(s.d.n))) critical(s); continue; }
                default: got = w.takeFor(s.d, (int)vt::self() % HOWS, &req); if (!got) VT_CHECK(vt::now() - t0 >= req, "timeout", "a timed lock failed after %lld ns instead of %lld", (long long)(vt::now() - t0), (long long)req);
                }
                if (got) { critical(s); o.unlock(); }
            }
        });
        if (lockedAtFirst) { *data = 0; vt::cellSet(RELEASED, 1); hs[vt::pick((uint32_t)nh)]->give(1); }
    }
    // free at the end, once
    VT_CHECK(hs[0]->tryTake(0), "exclusion", "the mutex is not free although nobody owns it");
    VT_CHECK(*data == vt::cell(CNT), "exclusion", "%lld updates were lost", (long long)(vt::cell(CNT) - *data));
    VT_CHECK(!hs.back()->tryTake(1), "exclusion", "an owned mutex was acquired");
    hs[0]->give(1); hs[0]->give(1); // unlocking a free mutex changes nothing
    VT_CHECK(hs.back()->tryTake(0), "exclusion", "the mutex is not free after being unlocked");
    VT_CHECK(!hs[0]->tryTake(0), "exclusion", "unlocking a free mutex made room for a second owner");
    hs.clear(); delete data;
    vt::nontrivial(true);
}

// ------------------------------------------------------------------------------------------- C20
// A crowd of waiters, released exactly as notifications arrive
namespace {
void crowd(int kind) {
    vt::setDrift(0);
    genPhase();
    if (vt::chance(1, 4)) vt::enableEintr(100);
    int nw = sized(2, 8, 40), nh = isGlobal(kind) ? vt::range(1, 3) : 1;
    int init = isSem(kind) ? (int)vt::pick((uint32_t)nw) : 0;
    std::vector<P> hs; for (int i = 0; i < nh; ++i) hs.push_back(makeObj(kind, "crowd", init, INT32_MAX, i ? (vt::chance(1, 2) ? OPEN : OPENCREATE) : CREATE, (int)vt::pick(2)));
    vt::describe("%s initial %d, %d waiters:", kindName(kind), init, nw);
    std::vector<int> how, h; std::vector<Dur> d;
    for (int i = 0; i < nw; ++i) { how.push_back((int)vt::pick(3)); h.push_back((int)vt::pick((uint32_t)nh)); Dur x{(int)vt::pick(6), 0}; x.n = 7200ll * 1000000000 + (int64_t)vt::bits(40); d.push_back(x); }
    auto settle = [] { for (int spin = 0; !vt::settle() && spin < 100000; ++spin) vt::yield(); };
    Clients c;
    for (int i = 0; i < nw; ++i) c.add([&, i] { int64_t req = 0; ISync &o = *hs[(size_t)h[(size_t)i]]; bool r = how[(size_t)i] ? o.takeFor(d[(size_t)i], how[(size_t)i], &req) : o.take(); VT_CHECK(r, "model", "a wait on a %s failed", kindName(kind)); vt::cellAdd(0, 1); });
    int64_t given = init, chunk = 0;
    for (;;) {
        settle();
        VT_CHECK(vt::cell(0) == std::min<int64_t>(given, nw), "model", "%lld of %d waiters on a %s returned after %lld notifications", (long long)vt::cell(0), nw, kindName(kind), (long long)given);
        if (given >= nw) break;
        chunk = isSem(kind) ? 1 + (int64_t)vt::pick((uint32_t)nw) : 1; vt::describe(" +%lld", (long long)chunk);
        hs[vt::pick((uint32_t)nh)]->give((int)chunk); given += chunk;
    }
    c.join();
    for (int64_t k = nw; k < given; ++k) VT_CHECK(hs[vt::pick((uint32_t)nh)]->tryTake(2), "model", "notifications were lost");
    VT_CHECK(!hs[0]->tryTake(2), "model", "a notification released two waiters");
    vt::nontrivial();
}
} // namespace
VT_SCENARIO(C18, crowd, 1) { crowd(vt::chance(1, 2) ? KLSem : KGSem); }
VT_SCENARIO(C20, crowd, 1) { crowd(vt::chance(1, 2) ? KLAuto : KGAuto); }
VT_SCENARIO(C20, sequential, 2) { sequentialModel(vt::chance(1, 2) ? KLAuto : KGAuto); }
VT_SCENARIO(C20, concurrent, 4) { concurrentCounting(vt::chance(1, 2) ? KLAuto : KGAuto, true); }
VT_SCENARIO(C20, known_notifiers, 0) { concurrentCounting(vt::chance(1, 2) ? KLAuto : KGAuto, false); }

// ------------------------------------------------------------------------------------------- C21
VT_SCENARIO(C21, sequential, 2) { sequentialModel(vt::chance(1, 2) ? KLMan : KGMan); }
namespace {
// Phases separated by joins. Waits never overlap a reset.
void manualPhases() {
    vt::setDrift(0);
    genPhase();
    if (vt::chance(1, 3)) vt::enableEintr(100);
    int kind = vt::chance(1, 2) ? KLMan : KGMan, nh = isGlobal(kind) ? vt::range(1, 3) : 1;
    std::vector<P> hs; for (int i = 0; i < nh; ++i) hs.push_back(makeObj(kind, "ev", 0, 0, i ? (vt::chance(1, 2) ? OPEN : OPENCREATE) : CREATE, (int)vt::pick(2)));
    auto any = [&]() -> ISync & { return *hs[vt::pick((uint32_t)nh)]; };
    int phases = sized(1, 5, 20); bool signalled = false; int waiters = 0;
    vt::describe("%s, %d handles:", kindName(kind), nh);
    auto expect = [&](bool s, const char *when) {
        for (int i = 0; i < 2; ++i) VT_CHECK(any().tryTake((int)vt::pick(12)) == s, "model", "%s: the event is%s signalled", when, s ? " not" : "");
    };
    int threads = 0;
    for (int p = 0; p < phases && threads < 44; ++p) {
        switch (vt::pick(3)) {
        case 0: { // waiters and notifiers; the waiters come before, during or after the notifications
            int nw = sized(0, 3, 12), nn = vt::range(signalled ? 0 : 1, 2); waiters += nw;
            vt::describe(" [%d waiters %d notifiers]", nw, nn); threads += nw + nn;
            bool early = vt::chance(1, 2);
            std::vector<int> mode, h; std::vector<Dur> du;
            for (int i = 0; i < nw + nn + 1; ++i) { mode.push_back((int)vt::pick(3)); h.push_back((int)vt::pick((uint32_t)nh)); Dur d{(int)vt::pick(6), 0}; d.n = 7200ll * 1000000000 + (int64_t)vt::bits(40); du.push_back(d); }
            bool wasSignalled = signalled;
            Clients c;
            vt::cellSet(7, 0);
            for (int i = 0; i < nw; ++i) c.add([&, i] {
                int64_t req = 0; bool r;
                ISync &o = *hs[(size_t)h[(size_t)i]];
                r = mode[(size_t)i] ? o.takeFor(du[(size_t)i], mode[(size_t)i], &req) : o.take();
                VT_CHECK(r, "model", "a wait on a%s event failed", wasSignalled ? " signalled" : "n event that is notified");
                VT_CHECK(wasSignalled || vt::cell(7), "early-return", "a wait returned although the event was not notified");
            });
            if (early) { for (int spin = 0; !vt::settle() && spin < 100000; ++spin) vt::yield(); if (!signalled) VT_CHECK(vt::liveFibers() == nw, "early-return", "only %d of %d waiters wait for the event", vt::liveFibers(), nw); }
            for (int i = 0; i < nn; ++i) c.add([&, i] { vt::cellSet(7, 1); hs[(size_t)h[(size_t)(nw + i)]]->give(1); });
            if (nn) signalled = true;
            c.join(); // deadlock: a waiter was not released
            expect(signalled, "after notifications and waits");
            break; }
        case 1: { // resets
            int nr = vt::range(1, 3); vt::describe(" [%d resets]", nr); threads += nr;
            { Clients c; std::vector<int> h; for (int i = 0; i < nr; ++i) h.push_back((int)vt::pick((uint32_t)nh)); for (int i = 0; i < nr; ++i) c.add([&, i] { hs[(size_t)h[(size_t)i]]->reset(); }); c.join(); }
            signalled = false;
            expect(false, "after a reset");
            break; }
        default: { // resets and notifications, then one of them for sure
            int nr = vt::range(1, 2), nn = vt::range(1, 2); vt::describe(" [%d resets %d notifiers]", nr, nn); threads += nr + nn;
            { Clients c; for (int i = 0; i < nr; ++i) c.add([&] { hs[0]->reset(); }); for (int i = 0; i < nn; ++i) c.add([&] { hs.back()->give(1); }); c.join(); }
            if (vt::chance(1, 2)) { any().give(1); signalled = true; } else { any().reset(); signalled = false; }
            expect(signalled, "after concurrent resets and notifications");
        }
        }
    }
    // blocking after a reset
    any().reset(); expect(false, "finally");
    { Clients c; ISync &a = any(), &b = any(); c.add([&] { VT_CHECK(a.take(), "model", "wait failed"); VT_CHECK(vt::cell(8), "early-return", "a wait returned before the notification"); }); for (int spin = 0; !vt::settle() && spin < 100000; ++spin) vt::yield(); vt::cellSet(8, 1); b.give(1); }
    vt::nontrivial(waiters > 1 || phases > 1);
}
} // namespace
VT_SCENARIO(C21, phases, 5) { manualPhases(); }
// Known: a reset right after a notification takes the signal away from threads that were waiting.
VT_SCENARIO(C21, known_reset, 0) {
    vt::setDrift(0);
    P o = makeObj(vt::chance(1, 2) ? KLMan : KGMan, "ev", 0, 0, CREATE);
    int nw = vt::range(2, 3); vt::describe("%d waiters, notify, reset", nw);
    Clients c; for (int i = 0; i < nw; ++i) c.add([&] { o->take(); });
    for (int spin = 0; !vt::settle() && spin < 100000; ++spin) vt::yield();
    o->give(1); o->reset();
    c.join();
}
// Known: while one thread passes a signalled event, the event is unsignalled for a moment.
VT_SCENARIO(C21, known_transient, 0) {
    vt::setDrift(0);
    P o = makeObj(vt::chance(1, 2) ? KLMan : KGMan, "ev", 0, 0, CREATE);
    vt::describe("signalled event, one wait, one try");
    o->give(1);
    Clients c; c.add([&] { o->take(); });
    VT_CHECK(o->tryTake(2), "model", "a wait on a signalled event failed");
}

// ------------------------------------------------------------------------------------------- C22
namespace {
void timedCase(bool eintr) {
    vt::setDrift(0);
    int kind = (int)vt::pick(KINDS);
    P o = makeObj(kind, "timed", 0);
    P o2; if (isGlobal(kind) && vt::chance(1, 2)) o2 = makeObj(kind, "timed", 1, INT32_MAX, OPEN);
    ISync &g = o2 ? *o2 : *o;
    vt::describe("%s:", kindName(kind));
    int n = vt::range(1, 5); bool nt = false;
    if (eintr) vt::enableEintr(vt::chance(1, 2) ? 300 : 800);
    for (int i = 0; i < n; ++i) {
        genPhase();
        Dur d = genDur(!eintr); int how = (int)vt::pick(HOWS), mode = (int)vt::pick(5);
        int64_t at = 0; // when it becomes available
        if (mode == 2) at = d.n <= 0 ? 5 * MS : (int64_t)(vt::bits(44) % (uint64_t)(d.n + 1));
        if (mode == 3) at = std::max<int64_t>(0, d.n) + 2 * MS + (int64_t)vt::bits(vt::chance(1, 2) ? 33 : 22);
        vt::describe(" [%lldns unit %d how %d phase %lld %s %lld]", (long long)d.n, d.unit, how, (long long)(vt::wall() % 1000000000), mode == 0 || mode == 4 ? "never" : mode == 1 ? "available" : "at", (long long)at);
        int64_t req = 0, t0; bool got;
        if (mode == 1) g.give(1);
        {
            Clients c;
            t0 = vt::now();
            if (mode == 2 || mode == 3) c.add([&] { vt::sleepNs(at); g.give(1); });
            got = o->takeFor(d, how, &req);
            int64_t el = vt::now() - t0;
            VT_CHECK(got || el >= req, "timeout", "a timed wait on a %s failed after %lld ns, before the requested %lld ns had elapsed", kindName(kind), (long long)el, (long long)req);
            // the time the caller asked for is [req, hi]; with an idle machine nothing delays the call
            int64_t hi = req + 2 * MS / 2 + std::max<int64_t>(0, d.n) / 100000;
            if (how % 3 != HFor && (d.unit == 3 || d.unit == 4 || d.unit == 5 || d.unit == 10)) hi = std::max(hi, req + MS);
            switch (mode) {
            case 0: case 4: VT_CHECK(!got, "timeout", "a timed wait on an unavailable %s succeeded", kindName(kind)); VT_CHECK(el <= hi, "timeout", "a timed wait on a %s failed after %lld ns instead of %lld", kindName(kind), (long long)el, (long long)req); break;
            case 1: VT_CHECK(got, "timeout", "a timed wait (%lld ns) on an available %s failed", (long long)d.n, kindName(kind)); VT_CHECK(el < MS, "timeout", "a timed wait on an available %s took %lld ns", kindName(kind), (long long)el); break;
            default:
                if (at + 2000 + std::max<int64_t>(0, d.n) / 100000 < req) { VT_CHECK(got, "timeout", "a timed wait (%lld ns) on a %s that became available after %lld ns failed", (long long)req, kindName(kind), (long long)at); VT_CHECK(el <= at + MS, "timeout", "a timed wait returned %lld ns after its object had become available", (long long)(el - at)); nt = true; }
                else if (at > hi) { VT_CHECK(!got, "timeout", "a timed wait (%lld ns) on a %s that became available after %lld ns succeeded", (long long)req, kindName(kind), (long long)at); VT_CHECK(el <= hi, "timeout", "a timed wait on a %s failed after %lld ns instead of %lld", kindName(kind), (long long)el, (long long)req); nt = true; }
            }
        }
        // the object is exactly as the result says
        bool left = isManual(kind) ? mode == 1 || mode == 2 || mode == 3 : (mode == 2 || mode == 3) && !got;
        VT_CHECK(o->tryTake((int)vt::pick(12)) == left, "model", "after a timed wait that returned %d the %s is%s available", got, kindName(kind), left ? " not" : "");
        if (!isManual(kind)) VT_CHECK(!o->tryTake((int)vt::pick(12)), "model", "after a timed wait that returned %d the %s is available once too often", got, kindName(kind));
        o->reset();
    }
    vt::nontrivial(nt || n > 1);
}
// Several timed waiters on one object; tokens become available at given times.
void timedCrowd(bool eintr) {
    vt::setDrift(0);
    genPhase();
    static const int kinds[] = {KLSem, KGSem, KLAuto, KGAuto, KGMtx};
    int kind = kinds[vt::pick(5)];
    P o = makeObj(kind, "timed", 0);
    if (eintr) vt::enableEintr(300);
    int nw = sized(2, 4, 16), np = sized(1, 3, 9);
    std::vector<Dur> d; std::vector<int> how; std::vector<int64_t> at;
    vt::describe("%s waiters:", kindName(kind));
    for (int i = 0; i < nw; ++i) { Dur x{(int)vt::pick(3), (int64_t)(10 + vt::pick(900)) * MS}; d.push_back(x); how.push_back((int)vt::pick(3)); vt::describe(" %lldms", (long long)(x.n / MS)); }
    int64_t t = 0; vt::describe(" posts:");
    for (int i = 0; i < np; ++i) { t += (int64_t)(5 + vt::pick(400)) * MS; at.push_back(t + MS / 2); vt::describe(" %lldus", (long long)(t / 1000)); }
    constexpr int OK = 0, POSTS = 1;
    {
        Clients c;
        int64_t t0 = vt::now();
        for (int i = 0; i < nw; ++i) c.add([&, i] {
            int64_t req = 0; int64_t s = vt::now();
            bool got = o->takeFor(d[(size_t)i], how[(size_t)i], &req);
            int64_t el = vt::now() - s;
            if (got) { vt::cellAdd(OK, 1); VT_CHECK(vt::cell(OK) <= vt::cell(POSTS), "model", "more waits succeeded than there were notifications"); VT_CHECK(el <= d[(size_t)i].n + MS, "timeout", "a wait of %lld ns succeeded after %lld ns", (long long)d[(size_t)i].n, (long long)el); }
            else { VT_CHECK(el >= req, "timeout", "a timed wait failed after %lld ns instead of %lld", (long long)el, (long long)req); VT_CHECK(el <= req + MS, "timeout", "a timed wait failed after %lld ns instead of %lld", (long long)el, (long long)req);
                   VT_CHECK(vt::cell(POSTS) <= vt::cell(OK), "timeout", "a timed wait failed although the %s was available", kindName(kind)); }
        });
        c.add([&] { for (auto x : at) { vt::sleepNs(t0 + x - vt::now()); if (!isSem(kind) && vt::cell(POSTS) > vt::cell(OK)) continue; vt::cellAdd(POSTS, 1); o->give(1); } });
    }
    int64_t left = 0; while (left < 20 && o->tryTake(2)) ++left;
    VT_CHECK(left == vt::cell(POSTS) - vt::cell(OK), "model", "%lld notifications, %lld successful waits, %lld left", (long long)vt::cell(POSTS), (long long)vt::cell(OK), (long long)left);
    vt::nontrivial(true);
}
} // namespace
VT_SCENARIO(C22, one, 5) { timedCase(false); }
VT_SCENARIO(C22, crowd, 2) { timedCrowd(false); }

// ------------------------------------------------------------------------------------------- C25
VT_SCENARIO(C25, timed, 3) { timedCase(true); }
VT_SCENARIO(C25, crowd, 1) { timedCrowd(true); }
VT_SCENARIO(C25, untimed, 3) {
    vt::setDrift(0);
    int kind = (int)vt::pick(KINDS);
    P o = makeObj(kind, "obj", 0);
    vt::enableEintr(vt::chance(1, 2) ? 300 : 900);
    int nw = sized(1, 3, 16);
    vt::describe("%s, %d waiters", kindName(kind), nw);
    {
        Clients c;
        for (int i = 0; i < nw; ++i) c.add([&] {
            VT_CHECK(o->take(), "interrupted", "an interrupted wait on a %s failed", kindName(kind));
            int64_t k = vt::cellAdd(0, 1);
            VT_CHECK(isManual(kind) ? vt::cell(1) > 0 : k <= vt::cell(1), "interrupted", "a wait on a %s returned without a notification", kindName(kind));
            
        });
        for (int i = 0; i < (isManual(kind) ? 1 : nw); ++i) {
            int k = (int)vt::pick(3);
            for (int y = 0; y < k; ++y) vt::armEintr(), vt::yield();
            if (vt::chance(1, 2)) { vt::settle(); VT_CHECK(vt::liveFibers() == nw - i, "interrupted", "a wait on a %s returned without a notification", kindName(kind)); }
            if (!isManual(kind) && !isSem(kind)) while (vt::cell(0) < i) { vt::yield(); } // one signal at a time
            vt::cellAdd(1, 1); o->give(1);
        }
    }
    VT_CHECK(vt::cell(0) == nw, "interrupted", "not all waiters returned");
    if (!isManual(kind)) VT_CHECK(!o->tryTake(2), "model", "a notification was left over");
    vt::nontrivial(vt::eintrDelivered() > 0);
}
VT_SCENARIO(C25, tasks, 3) {
    vt::enableEintr(vt::chance(1, 2) ? 300 : 700);
    auto w = genWorkers(2, 3);
    GraphOpts o; o.maxNodes = 6; o.ff = false; Graph g(o); g.generate(1, 3); g.describe();
    auto s = std::make_unique<Sched>(); registerAll(*s, w); g.buildAll(*s);
    bool startFirst = vt::chance(1, 2);
    if (startFirst) s->start();
    int waiters = sized(0, 2, 12);
    {
        Clients c;
        for (int i = 0; i < waiters; ++i) { Node *n = g.roots[vt::pick((uint32_t)g.roots.size())].get(); c.add([n] { n->h.wait(); Graph::checkCompleted(*n, "an interrupted wait()"); }); }
        for (auto &r : g.roots) s->add(r->h);
        if (!startFirst) s->start();
        vt::armEintr();
        for (auto &r : g.roots) { r->h.wait(); Graph::checkCompleted(*r, "an interrupted wait()"); }
    }
    g.checkExactlyOnce("after all waits");
    s->stop();
    vt::nontrivial(vt::eintrDelivered() > 0);
}

// ------------------------------------------------------------------------------------------- C23
namespace {
struct Under { int64_t state; int opens; };                    // what a name refers to
struct NameModel { std::string name; int kind; std::shared_ptr<Under> cur; int creator = -1; };
struct Slot { P o; std::shared_ptr<Under> u; int nameIdx = -1; bool creator = false; };
std::string genName(int i) {
    switch (vt::pick(4)) {
    case 0: return "n" + std::to_string(i);
    case 1: return "oqpi::name " + std::to_string(i);
    case 2: return std::string((size_t)vt::range(1, 240), (char)('a' + i)) + std::to_string(i);
    default: return std::to_string(i) + ".x-" + std::string((size_t)vt::range(1, 40), '_');
    }
}
} // namespace
VT_SCENARIO(C23, history, 4) {
    vt::setDrift(0);
    int nn = sized(1, 3, 12), ns = sized(2, 5, 16);
    std::vector<NameModel> names;
    static const int gk[] = {KGSem, KGMtx, KGAuto, KGMan};
    for (int i = 0; i < nn; ++i) { NameModel m; m.name = genName(i); m.kind = gk[vt::pick(4)]; names.push_back(m); vt::describe("%c=%s ", 'A' + i, kindName(m.kind)); }
    std::vector<Slot> sl((size_t)ns);
    int steps = sized(2, 30, 150), made = 0, refused = 0, destroyed = 0;
    auto destroy = [&](Slot &s) {
        if (!s.o) return;
        s.o.reset();
        if (s.creator && s.u) { names[(size_t)s.nameIdx].cur.reset(); ++destroyed; }
        s.u.reset(); s.creator = false; s.nameIdx = -1;
    };
    for (int st = 0; st < steps; ++st) {
        size_t k = vt::pick((uint32_t)ns); Slot &s = sl[k];
        switch (vt::pick(6)) {
        case 0: case 1: { // create or open
            destroy(s);
            int ni = (int)vt::pick((uint32_t)nn); auto &n = names[(size_t)ni];
            auto opt = (sync_object_creation_options)vt::pick(3);
            int init = n.kind == KGSem ? (int)vt::pick(4) : n.kind == KGMtx ? (int)vt::pick(2) : 0;
            int variant = (int)vt::pick(4);
            vt::describe(" %zu=%s(%c,%d)", k, opt == CREATE ? "create" : opt == OPEN ? "open" : "any", 'A' + ni, init);
            bool exists = n.cur != nullptr, want = opt == CREATE ? !exists : opt == OPEN ? exists : true;
            s.o = makeObj(n.kind, n.name, init, 10, opt, variant);
            VT_CHECK(s.o->valid() == want, "option", "%s of a name that %s gives an object that is%s valid", opt == CREATE ? "create_if_nonexistent" : opt == OPEN ? "open_existing" : "open_or_create", exists ? "exists" : "does not exist", want ? " not" : "");
            if (want) {
                VT_CHECK(s.o->name() == n.name, "name", "the object is named '%s'", s.o->name().c_str());
                s.nameIdx = ni;
                if (!exists) { n.cur = std::make_shared<Under>(Under{init, 0}); s.creator = true; }
                s.u = n.cur; ++made;
            } else { ++refused; s.o.reset(); }
            break; }
        case 2: vt::describe(" ~%zu", k); destroy(s); break;
        case 3: { // move to another slot
            size_t j = vt::pick((uint32_t)ns); if (j == k || !s.o || !s.u) { vt::describe(" -"); break; }
            vt::describe(" %zu->%zu", k, j);
            Slot &t = sl[j];
            if (t.o && t.o->kind == s.o->kind && t.u && vt::chance(1, 2)) { // assignment over an occupied one
                bool tc = t.creator; int tn = t.nameIdx;
                t.o->assignFrom(*s.o);
                if (tc) { names[(size_t)tn].cur.reset(); ++destroyed; }
            } else { destroy(t); t.o.reset(s.o->moveOut()); }
            VT_CHECK(!s.o->valid() && t.o->valid(), "move", "validity after a move");
            t.u = s.u; t.creator = s.creator; t.nameIdx = s.nameIdx;
            s.u.reset(); s.creator = false; s.nameIdx = -1; s.o.reset();
            break; }
        default: { // use
            if (!s.o || !s.u) { vt::describe(" -"); break; }
            int kind = s.o->kind; int64_t &m = s.u->state;
            uint32_t what = vt::pick(isManual(kind) ? 4u : 3u);
            if (what == 0) { vt::describe(" %zu+", k); s.o->give(1); mGive(kind, m, 1); }
            else if (what == 3) { vt::describe(" %zu reset", k); s.o->reset(); m = 0; }
            else { vt::describe(" %zu?", k); bool want = mTake(kind, m); bool got = s.o->tryTake((int)vt::pick(12)); VT_CHECK(got == want, "state", "a try through slot %zu returned %d instead of %d: the handles do not share the state set by the creator", k, got, want); }
        } }
        for (auto &n : names) VT_CHECK(vt::nameExists(("/" + n.name).c_str()) == (n.cur != nullptr), "name", "the name %c %s although its creator %s", (char)('A' + (&n - &names[0])), n.cur ? "does not exist" : "exists", n.cur ? "is alive" : "is gone");
    }
    for (auto &s : sl) destroy(s);
    VT_CHECK(vt::namedSems() == 0, "name", "%d names are left after all objects were destroyed", vt::namedSems());
    vt::nontrivial(made > 1 && (refused || destroyed));
}
VT_SCENARIO(C23, concurrent, 3) {
    vt::setDrift(0);
    static const int gk[] = {KGSem, KGMtx, KGAuto, KGMan};
    int kind = gk[vt::pick(4)], nc = vt::range(2, 4);
    bool pre = vt::chance(1, 3);
    P first; if (pre) first = makeObj(kind, "shared", 1, 10, CREATE);
    struct Step { sync_object_creation_options opt; bool drop; int variant; };
    std::vector<std::vector<Step>> plan((size_t)nc);
    vt::describe("%s%s:", kindName(kind), pre ? " exists" : "");
    for (auto &p : plan) { int n = vt::range(1, 2); for (int i = 0; i < n; ++i) { p.push_back({(sync_object_creation_options)vt::pick(3), vt::chance(1, 2), (int)vt::pick(4)}); vt::describe(" %d%s", (int)p.back().opt, p.back().drop ? "~" : ""); } vt::describe(";"); }
    std::vector<std::vector<P>> objs((size_t)nc); std::vector<std::vector<LOp>> hist((size_t)nc);
    for (auto &v : objs) v.resize(4);
    for (auto &h : hist) h.reserve(16);
    {
        Clients c;
        for (int k = 0; k < nc; ++k) c.add([&, k] {
            for (size_t i = 0; i < plan[(size_t)k].size(); ++i) {
                auto &s = plan[(size_t)k][i]; int id = k * 4 + (int)i;
                LOp l; l.kind = (int)s.opt; l.b = id; l.client = k; l.inv = stamp();
                P o = makeObj(kind, "shared", 1, 10, s.opt, s.variant);
                l.resp = stamp(); l.a = o->valid(); hist[(size_t)k].push_back(l);
                if (s.drop) { LOp d; d.kind = 10; d.b = id; d.client = k; bool v = o->valid(); d.inv = stamp(); o.reset(); d.resp = stamp(); if (v) hist[(size_t)k].push_back(d); }
                else objs[(size_t)k][i] = std::move(o);
            }
        });
    }
    std::vector<LOp> all; for (auto &h : hist) for (auto &l : h) all.push_back(l);
    LOp fin; fin.inv = stamp(); fin.resp = stamp(); fin.kind = 11; fin.a = vt::nameExists("/shared"); all.push_back(fin);
    // state: id of the creator of what the name refers to, -1: the name does not exist, 1000: created before
    bool ok = linearizable(all, (int64_t)(pre ? 1000 : -1), [](int64_t &s, const LOp &l) {
        switch (l.kind) {
        case 10: if (s == l.b) s = -1; return true;
        case 11: return (s != -1) == (l.a != 0);
        case (int)CREATE: if (l.a) { if (s != -1) return false; s = l.b; return true; } return s != -1;
        case (int)OPEN: return (l.a != 0) == (s != -1);
        default: if (!l.a) return false; if (s == -1) s = l.b; return true;
        }
    });
    if (!ok) {
        std::string h; char b[80];
        for (auto &l : all) { snprintf(b, sizeof b, " [%lld,%lld]%d:%s=%lld", (long long)l.inv, (long long)l.resp, l.client, l.kind == 10 ? "drop" : l.kind == 11 ? "exists" : l.kind == (int)CREATE ? "create" : l.kind == (int)OPEN ? "open" : "any", (long long)l.a); h += b; }
        vt::fail("option", "no order of creations, openings and destructions explains their results:%s", h.c_str());
    }
    // the ones that were never dropped and where nobody dropped anything share one state
    bool drops = false; for (auto &p : plan) for (auto &s : p) drops |= s.drop;
    if (!drops) {
        std::vector<ISync *> v; if (first) v.push_back(first.get());
        for (auto &x : objs) for (auto &p : x) if (p && p->valid()) v.push_back(p.get());
        if (v.size() > 1) {
            while (!isManual(kind) && v[0]->tryTake(2)) {}
            for (auto *a : v) for (auto *b : v) { a->give(1); VT_CHECK(b->tryTake(2), "state", "a notification through one handle is not seen through another"); if (isManual(kind)) a->reset(); VT_CHECK(!a->tryTake(2), "state", "a wait through one handle is not seen through another"); }
        }
    }
    for (auto &x : objs) x.clear();
    first.reset();
    vt::nontrivial(true);
}

// ------------------------------------------------------------------------------------------- C24
namespace {
struct Res24 { int64_t state; std::string name; int maxCount; bool global, owner; };
}
VT_SCENARIO(C24, moves, 4) {
    vt::setDrift(0);
    int kind = (int)vt::pick(KINDS), ns = sized(2, 5, 16), nameNo = 0;
    struct S { P o; std::shared_ptr<Res24> r; };
    std::vector<S> sl((size_t)ns);
    int steps = sized(2, 25, 120), moves = 0;
    int base = vt::liveSems();
    vt::describe("%s:", kindName(kind));
    auto check = [&](const char *after) {
        int live = 0, named = 0;
        for (auto &s : sl) {
            if (s.o) VT_CHECK(s.o->valid() == (s.r != nullptr), "validity", "after a %s an object is%s valid", after, s.r ? " not" : "");
            if (s.r) { ++live; named += s.r->global; VT_CHECK(s.o->name() == s.r->name, "name", "after a %s an object is named '%s' instead of '%s'", after, s.o->name().c_str(), s.r->name.c_str()); }
        }
        VT_CHECK(vt::liveSems() - base == live, "release", "after a %s there are %d underlying objects for %d valid objects", after, vt::liveSems() - base, live);
        VT_CHECK(vt::namedSems() == named, "release", "after a %s there are %d names for %d named objects", after, vt::namedSems(), named);
        for (auto &s : sl) if (s.r && s.r->global) VT_CHECK(vt::nameExists(("/" + s.r->name).c_str()), "release", "after a %s a name is gone", after);
    };
    for (int st = 0; st < steps; ++st) {
        size_t k = vt::pick((uint32_t)ns), j = vt::pick((uint32_t)ns); S &s = sl[k], &t = sl[j];
        switch (vt::pick(7)) {
        case 0: case 1: { // new object
            s.o.reset(); s.r.reset();
            int init = isSem(kind) ? (int)vt::pick(3) : kind == KGMtx ? (int)vt::pick(2) : 0, mx = 1 + (int)vt::pick(4); if (mx < init) mx = init;
            std::string name = isGlobal(kind) ? "name" + std::to_string(nameNo++) : "";
            s.o = makeObj(kind, name, init, mx, OPENCREATE, 1);
            s.r = std::make_shared<Res24>(Res24{init, name, mx, isGlobal(kind), true});
            vt::describe(" new%zu", k); check("construction"); break; }
        case 2: { // move construction
            if (!s.o || k == j) { vt::describe(" -"); break; }
            vt::describe(" %zu=>%zu", k, j);
            P n(s.o->moveOut()); t.o = std::move(n); t.r = s.r; s.r.reset();
            ++moves; check("move construction"); break; }
        case 3: case 4: { // move assignment, onto itself included
            if (!s.o || !t.o) { vt::describe(" -"); break; }
            vt::describe(" %zu->%zu", k, j);
            t.o->assignFrom(*s.o);
            if (k != j) { t.r = s.r; s.r.reset(); }
            ++moves; check(k == j ? "self assignment" : "move assignment"); break; }
        case 5: vt::describe(" ~%zu", k); s.o.reset(); s.r.reset(); check("destruction"); break;
        default: { // use
            if (!s.r) { vt::describe(" -"); break; }
            int64_t &m = s.r->state;
            uint32_t what = vt::pick(5);
            vt::describe(" %zu:%u", k, what);
            if (what == 0) { s.o->give(1); mGive(kind, m, 1); }
            else if (what == 1 && isSem(kind)) { s.o->giveAll(); mGive(kind, m, s.r->maxCount); }
            else if (what == 1 && isManual(kind)) { s.o->reset(); m = 0; }
            else if (what == 2 && m > 0) { mTake(kind, m); VT_CHECK(s.o->take(), "state", "a wait failed"); }
            else { bool want = mTake(kind, m), got = s.o->tryTake((int)vt::pick(12)); VT_CHECK(got == want, "state", "a try returned %d instead of %d", got, want); }
        } }
    }
    // the full state of everything that is left
    for (auto &s : sl) if (s.r) {
        if (isSem(kind)) { s.o->giveAll(); s.r->state += s.r->maxCount; }
        int64_t n = 0; while (n < 60 && s.o->tryTake(2)) { ++n; if (isManual(kind)) break; }
        VT_CHECK(n == s.r->state, "state", "an object yields %lld instead of %lld waits", (long long)n, (long long)s.r->state);
    }
    for (auto &s : sl) { s.o.reset(); s.r.reset(); }
    check("destruction of everything");
    vt::nontrivial(moves > 0);
}
