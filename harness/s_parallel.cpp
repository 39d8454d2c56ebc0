// C10 parallel loops, C11 partitioners.
#include <array>
#include <deque>
#include "volume.h"
#include "oqpi/parallel_algorithms/atomic_partitioner.hpp"
#include "oqpi/parallel_algorithms.hpp"
#include "oqpi/scheduling_helpers.hpp"
using namespace hv;

namespace {
using Helpers = oqpi::default_helpers;
constexpr int C_IDX = 20000, C_BATCH = 40000, MAXIDX = 8000;

struct RangeGen { int first, last; };
RangeGen genRange(int maxLen) {
    RangeGen r;
    switch (vt::pick(6)) {
    case 0: r.first = 0; break;
    case 1: r.first = vt::range(-20, 20); break;
    case 2: r.first = INT32_MAX - (int)vt::pick(2000); break;
    case 3: r.first = INT32_MIN + (int)vt::pick(50); break;
    default: r.first = vt::chance(1, 2) ? vt::range(-3, 5) : (int)vt::bits(31) - (1 << 30);
    }
    int len = vt::chance(1, 8) ? -(int)vt::pick(4) : (int)vt::pick(vt::chance(1, 2) ? 8u : (uint32_t)maxLen);
    if (len > 0) len = (int)std::min<int64_t>(len, (int64_t)INT32_MAX - r.first);
    else len = (int)std::max<int64_t>(len, (int64_t)INT32_MIN - r.first);
    r.last = r.first + len;
    return r;
}
struct Range { int32_t a, b; int client; };

// Draws from a partitioner until it is exhausted, by several threads at the same time
template <class P> void drain(P &p, int clients, int copies, std::vector<std::vector<Range>> &out) {
    out.assign((size_t)clients, {});
    {
        Clients c;
        for (int k = 0; k < clients; ++k) c.add([&p, &out, k] {
            int32_t a = 123456789, b = -5;
            for (int extra = 0; extra < 2;) {
                bool ok = p.getNextValidRange(a, b);
                if (!ok) { ++extra; continue; }
                VT_CHECK(extra == 0, "cover", "a partitioner that was exhausted handed out [%d,%d)", a, b);
                vt::Quiet q; out[(size_t)k].push_back({a, b, k});
            }
        });
    }
    (void)copies;
    int32_t a, b;
    for (int i = 0; i < 3; ++i) VT_CHECK(!p.getNextValidRange(a, b), "cover", "an exhausted partitioner handed out [%d,%d)", a, b);
}
template <class P> void checkFigures(const P &p, const RangeGen &r, int maxBatches, const char *when) {
    int64_t n = (int64_t)r.last - r.first;
    VT_CHECK((bool)p.isValid() == (n > 0), "cover", "%s: isValid is %d for [%d,%d)", when, (int)p.isValid(), r.first, r.last);
    if (n <= 0) return;
    VT_CHECK(p.elementCount() == n, "cover", "%s: elementCount is %d for [%d,%d)", when, p.elementCount(), r.first, r.last);
    VT_CHECK(p.batchCount() == std::min<int64_t>(n, maxBatches), "cover", "%s: batchCount is %d for %lld elements in at most %d batches", when, p.batchCount(), (long long)n, maxBatches);
}
void checkExact(const std::vector<std::vector<Range>> &got, int64_t first, int64_t last, const char *what) {
    std::vector<Range> all; for (auto &v : got) for (auto &x : v) all.push_back(x);
    std::sort(all.begin(), all.end(), [](const Range &x, const Range &y) { return x.a < y.a || (x.a == y.a && x.b < y.b); });
    int64_t at = first;
    for (auto &x : all) {
        VT_CHECK(x.a < x.b, "cover", "%s: empty range [%d,%d)", what, x.a, x.b);
        VT_CHECK(x.a == at, "cover", "%s: %s at %lld (next range handed out: [%d,%d))", what, x.a < at ? "overlap" : "gap", (long long)at, x.a, x.b);
        at = x.b;
    }
    VT_CHECK(at == std::max(first, last), "cover", "%s: covered up to %lld instead of %lld", what, (long long)at, (long long)last);
    for (auto &v : got) for (size_t i = 1; i < v.size(); ++i) VT_CHECK(v[i - 1].a < v[i].a, "cover", "%s: ranges were handed out in decreasing order", what);
}
} // namespace

// ------------------------------------------------------------------------------------------- C11
VT_SCENARIO(C11, simple, 3) {
    auto r = genRange(400);
    bool big = vt::chance(1, 6);
    if (big) { // few batches over a huge range
        int64_t len = 1 + (int64_t)vt::bits(31); r.first = vt::chance(1, 2) ? 0 : INT32_MIN + (int)vt::bits(30); len = std::min<int64_t>(len, std::min<int64_t>(INT32_MAX, (int64_t)INT32_MAX - r.first)); r.last = (int)(r.first + len); vt::label("huge-range");
    }
    int batches = vt::chance(1, 2) ? vt::range(1, 4) : sized(1, 40, 400);
    bool zero = r.first == 0 && vt::chance(1, 2);
    int clients = sized(1, 4, 16);
    vt::describe("simple [%d,%d) in %d batches, %d threads", r.first, r.last, batches, clients);
    oqpi::simple_partitioner p = zero ? oqpi::simple_partitioner(r.last, batches) : oqpi::simple_partitioner(r.first, r.last, batches);
    int64_t n = std::max<int64_t>(0, (int64_t)r.last - r.first);
    checkFigures(p, r, batches, "simple_partitioner");
    int pre = (int)vt::pick(4);
    std::vector<std::vector<Range>> done(1);
    for (int i = 0; i < pre; ++i) { int32_t a, b; if (p.getNextValidRange(a, b)) done[0].push_back({a, b, 0}); }
    oqpi::simple_partitioner q(p); // continues from here
    checkFigures(q, r, batches, "copy");
    std::vector<std::vector<Range>> got, got2;
    drain(p, clients, 0, got);
    got.push_back(done[0]);
    checkExact(got, r.first, r.last, "simple_partitioner");
    int64_t want = n ? std::min<int64_t>(n, batches) : 0, cnt = 0, lo = INT64_MAX, hi = 0;
    for (auto &v : got) for (auto &x : v) { ++cnt; lo = std::min<int64_t>(lo, (int64_t)x.b - x.a); hi = std::max<int64_t>(hi, (int64_t)x.b - x.a); }
    VT_CHECK(cnt == want, "cover", "%lld ranges were handed out instead of %lld", (long long)cnt, (long long)want);
    VT_CHECK(cnt == 0 || hi - lo <= 1, "cover", "the sizes of the ranges lie between %lld and %lld", (long long)lo, (long long)hi);
    drain(q, vt::range(1, 2), 0, got2);
    got2.push_back(done[0]);
    checkExact(got2, r.first, r.last, "copied simple_partitioner");
    vt::nontrivial(n > 1);
}
VT_SCENARIO(C11, atomic, 4) {
    auto r = genRange(vt::chance(1, 16) ? 1000 : 60);
    int grab = 1 + (int)(vt::chance(1, 2) ? vt::pick(3) : vt::pick(30));
    if (vt::chance(1, 10)) grab = INT32_MAX - (int)vt::pick(3);
    int batches = sized(1, 8, 500);
    if (vt::chance(1, 8)) { int64_t len = 1 + (int64_t)vt::bits(31); r.first = vt::chance(1, 2) ? 0 : INT32_MIN + (int)vt::bits(30); len = std::min<int64_t>(len, std::min<int64_t>(INT32_MAX, (int64_t)INT32_MAX - r.first)); r.last = (int)(r.first + len); grab = (int)std::max<int64_t>(1, len / vt::range(1, 20)); vt::label("huge-range"); }
    bool zero = r.first == 0 && vt::chance(1, 2);
    int clients = sized(1, 4, 16);
    vt::describe("atomic [%d,%d) by %d in %d batches, %d threads", r.first, r.last, grab, batches, clients);
    oqpi::atomic_partitioner p = zero ? oqpi::atomic_partitioner(r.last, grab, batches) : oqpi::atomic_partitioner(r.first, r.last, grab, batches);
    int64_t n = std::max<int64_t>(0, (int64_t)r.last - r.first);
    checkFigures(p, r, batches, "atomic_partitioner");
    int pre = (int)vt::pick(3);
    std::vector<std::vector<Range>> done(1);
    for (int i = 0; i < pre; ++i) { int32_t a, b; if (p.getNextValidRange(a, b)) done[0].push_back({a, b, 0}); }
    oqpi::atomic_partitioner q(p);
    checkFigures(q, r, batches, "copy");
    std::vector<std::vector<Range>> got, got2;
    drain(p, clients, 0, got);
    got.push_back(done[0]);
    checkExact(got, r.first, r.last, "atomic_partitioner");
    for (auto &v : got) for (auto &x : v) VT_CHECK((int64_t)x.b - x.a == grab || (x.b == r.last && (int64_t)x.b - x.a < grab), "cover", "range [%d,%d) is not of the requested size %d", x.a, x.b, grab);
    drain(q, vt::range(1, 2), 0, got2);
    got2.push_back(done[0]);
    checkExact(got2, r.first, r.last, "copied atomic_partitioner");
    vt::nontrivial(n > 1);
}

// ------------------------------------------------------------------------------------------- C10
namespace {
struct Loop {
    int id; RangeGen r; int part, batches, grab, batchArg, yields, how; task_priority prio;
    int64_t count() const { return std::max<int64_t>(0, (int64_t)r.last - r.first); }
    int nbBatches() const { return (int)std::min<int64_t>(count(), batches); }
};
Loop genLoop(int id, bool defaults) {
    Loop l; l.id = id;
    l.r = genRange(40); if (l.count() > 100) l.r.last = l.r.first + 100;
    if (vt::chance(1, 24)) { vt::label("large"); vt::maxSteps(300000); l.r.first = std::min(l.r.first, INT32_MAX - 1200); l.r.last = l.r.first + vt::range(100, 1200); }
    l.part = (int)vt::pick(2); l.batches = sized(1, 8, 60); l.grab = sized(1, 6, 200); l.batchArg = (int)vt::pick(3); l.yields = (int)vt::pick(3);
    l.prio = task_priority(vt::pick(5)); l.how = defaults ? (int)vt::pick(6) : 0;
    vt::describe(" loop%d:[%d,%d)%s batches %d grab %d%s how%d", id, l.r.first, l.r.last, l.part ? " atomic" : "", l.batches, l.grab, l.batchArg ? " batch-index" : "", l.how);
    return l;
}
void visit(const Loop &l, int batch, int64_t i) {
    int64_t k = i - l.r.first;
    VT_CHECK(k >= 0 && k < l.count(), "index", "loop %d called its function for %lld, outside of [%d,%d)", l.id, (long long)i, l.r.first, l.r.last);
    VT_CHECK(vt::cellAdd(C_IDX + l.id * 2000 + (int)k, 1) == 1, "index", "loop %d called its function twice for %lld", l.id, (long long)i);
    if (batch >= -1) {
        int nb = l.how == 0 ? l.nbBatches() : 64;
        VT_CHECK(batch >= 0 && batch < nb, "batch-index", "loop %d: batch index %d of %d batches", l.id, batch, nb);
        VT_CHECK(vt::cellAdd(C_BATCH + l.id * 100 + batch, 1) == 1, "batch-index", "loop %d: two calls with batch index %d overlap", l.id, batch);
    }
    vt::cellAdd(C_SPARE - 40 + l.id, 1);
    for (int y = l.yields; y > 0; --y) vt::yield();
    vt::cellAdd(C_SPARE - 40 + l.id, -1);
    if (batch >= -1) vt::cellAdd(C_BATCH + l.id * 100 + batch, -1);
}
void complete(const Loop &l) {
    for (int64_t k = 0; k < l.count(); ++k) VT_CHECK(vt::cell(C_IDX + l.id * 2000 + (int)k) == 1, "index", "loop %d returned with index %lld visited %lld times", l.id, (long long)(l.r.first + k), (long long)vt::cell(C_IDX + l.id * 2000 + (int)k));
    VT_CHECK(vt::cell(C_SPARE - 40 + l.id) == 0, "early-return", "loop %d returned while its function was running", l.id);
}
// a function that can be called with and without batch index
struct Both { const Loop *l; void operator()(int i) const { (void)i; vt::fail("batch-index", "loop %d: called without batch index", l->id); } void operator()(int b, int i) const { visit(*l, b, i); } };
template <class S> void runLoop(S &s, const Loop &l) {
    auto go = [&](const auto &p) {
        auto call = [&](auto &&f) { oqpi::parallel_for<Event, oqpi::empty_group_context, oqpi::empty_task_context>(s, "pf", p, l.prio, f); };
        if (l.batchArg == 0) call([&l](int i) { visit(l, -2, i); });
        else if (l.batchArg == 1) call([&l](int b, int i) { visit(l, b, i); });
        else call(Both{&l});
    };
    if (l.part) go(oqpi::atomic_partitioner(l.r.first, l.r.last, l.grab, l.batches));
    else go(oqpi::simple_partitioner(l.r.first, l.r.last, l.batches));
    complete(l);
}
} // namespace
VT_SCENARIO(C10, loops, 4) {
    auto w = genWorkers(2, 4);
    auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start();
    int nc = vt::range(0, 2);
    std::vector<std::vector<Loop>> plan((size_t)nc + 1);
    int id = 0, big = 0;
    for (auto &p : plan) { int n = vt::range(1, 2); for (int i = 0; i < n && id < 6; ++i) { p.push_back(genLoop(id++, false)); if (p.back().count() > 1) ++big; } }
    // loops started by tasks
    bool inTask = vt::chance(1, 3);
    Loop tl; task_handle th;
    if (inTask) { vt::describe(" in-task"); tl = genLoop(id++, false); th = task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority::normal, [&] { runLoop(*s, tl); })); s->add(th); }
    {
        Clients c;
        for (int k = 1; k <= nc; ++k) c.add([&, k] { for (auto &l : plan[(size_t)k]) runLoop(*s, l); });
        for (auto &l : plan[0]) runLoop(*s, l);
    }
    if (inTask) th.wait();
    for (auto &p : plan) for (auto &l : p) complete(l);
    s->stop();
    for (auto &p : plan) for (auto &l : p) complete(l);
    vt::nontrivial(big > 0);
}
namespace {
// A partitioner of the user: ranges of any size, empty ones included, in any order.
class listed_partitioner {
    std::shared_ptr<const std::vector<std::pair<int32_t, int32_t>>> ranges_; int32_t elements_, batches_; std::atomic<size_t> next_{0};
public:
    listed_partitioner(std::shared_ptr<const std::vector<std::pair<int32_t, int32_t>>> r, int32_t elements, int32_t batches) : ranges_(std::move(r)), elements_(elements), batches_(batches) {}
    listed_partitioner(const listed_partitioner &o) : ranges_(o.ranges_), elements_(o.elements_), batches_(o.batches_), next_(o.next_.load()) {}
    bool isValid() const { return elements_ > 0; }
    int32_t elementCount() const { return elements_; }
    int32_t batchCount() const { return batches_; }
    bool getNextValidRange(int32_t &a, int32_t &b) { size_t i = next_.fetch_add(1); if (i >= ranges_->size()) return false; a = (*ranges_)[i].first; b = (*ranges_)[i].second; return true; }
};
} // namespace
// many indices or batches, and partitioners of all kinds
VT_SCENARIO(C10, volume, 2) {
    int part = (int)vt::pick(3), n = volumeSize(70000), batches = vt::chance(1, 2) ? vt::range(1, 8) : volumeSize(), grab = vt::chance(1, 2) ? vt::range(1, 4) : volumeSize(), workers = vt::range(1, 4);
    int64_t first = vt::chance(1, 2) ? 0 : vt::chance(1, 2) ? vt::range(-50, 50) : vt::chance(1, 2) ? (int64_t)INT32_MIN : (int64_t)INT32_MAX - n;
    bool withIndex = vt::chance(1, 2), alone = vt::chance(1, 6); int yields = (int)vt::pick(2);
    vt::maxSteps(400000 + (uint64_t)(n + batches) * 400);
    auto s = std::make_unique<Sched>(); registerAll(*s, plainWorkers(workers)); s->start();
    auto ranges = std::make_shared<std::vector<std::pair<int32_t, int32_t>>>();
    if (part == 2) { // cut, then mixed
        int64_t at = first, end = first + n; int most = vt::chance(1, 2) ? 4 : 1 + n;
        while (at < end) { int64_t k = std::min<int64_t>(end - at, (int64_t)vt::pick((uint32_t)most + 1)); ranges->push_back({(int32_t)at, (int32_t)(at + k)}); at += k; }
        bool mix = vt::chance(1, 2); if (mix) { uint32_t r = vt::pick(1000000); for (size_t i = ranges->size(); i > 1; --i) { r = r * 1664525u + 1013904223u; std::swap((*ranges)[i - 1], (*ranges)[(r >> 8) % i]); } }
        vt::label("listed");
        vt::describe("%zu %sranges, at most %d long; ", ranges->size(), mix ? "mixed " : "", most);
    }
    vt::describe("[%lld,%lld) %s, %d batches, grab %d, %d workers%s%s", (long long)first, (long long)first + n, part == 0 ? "simple" : part == 1 ? "atomic" : "listed", batches, grab, workers, withIndex ? ", batch index" : "", alone ? ", single-threaded" : "");
    int nb = part == 2 ? batches : std::min(n, batches);
    Tally idx(n), in(nb);
    auto call = [&, first, n, nb, yields](int b, int i) {
        VT_CHECK(i >= first && i < first + n, "index", "called for %d", i);
        VT_CHECK(b >= -1 && b < nb, "batch-index", "batch index %d of %d", b, nb);
        idx.hit((int)(i - first));
        if (b >= 0) { VT_CHECK(!in.v[(size_t)b], "batch-index", "two calls with batch index %d overlap", b); in.v[(size_t)b] = 1; }
        vt::cellAdd(C_SPARE, 1); for (int y = yields; y > 0; --y) vt::yield(); vt::cellAdd(C_SPARE, -1);
        if (b >= 0) in.v[(size_t)b] = 0;
    };
    auto go = [&](const auto &p) {
        auto f = [&](auto &&fn) {
            if (alone) { auto g = oqpi::make_parallel_for_task_group<task_type::waitable, Event, oqpi::empty_group_context, oqpi::empty_task_context>(*s, "g", p, task_priority::normal, fn); task_handle(g).executeSingleThreaded(); }
            else oqpi::parallel_for<Event, oqpi::empty_group_context, oqpi::empty_task_context>(*s, "pf", p, task_priority::normal, fn);
        };
        if (withIndex) f([&](int b, int i) { VT_CHECK(b >= 0, "batch-index", "batch index %d", b); call(b, i); }); else f([&](int i) { call(-1, i); });
    };
    if (part == 0) go(oqpi::simple_partitioner((int32_t)first, (int32_t)(first + n), batches));
    else if (part == 1) go(oqpi::atomic_partitioner((int32_t)first, (int32_t)(first + n), grab, batches));
    else go(listed_partitioner(ranges, n, batches));
    VT_CHECK(vt::cell(C_SPARE) == 0, "early-return", "the loop returned while its function was running");
    for (int i = 0; i < n; ++i) VT_CHECK(idx.v[(size_t)i] == 1, "index", "the loop returned with index %lld visited %d times", (long long)first + i, idx.v[(size_t)i]);
    vt::nontrivial(n > 1);
    s->stop();
    for (int i = 0; i < n; ++i) VT_CHECK(idx.v[(size_t)i] == 1, "index", "index %lld was visited %d times in the end", (long long)first + i, idx.v[(size_t)i]);
}
// the group of a loop, scheduled explicitly or as a part of something else
VT_SCENARIO(C10, groups, 2) {
    auto w = genWorkers(2, 3);
    auto s = std::make_unique<Sched>(); registerAll(*s, w); s->start();
    Loop l = genLoop(0, false), m = genLoop(1, false);
    int how = (int)vt::pick(4); vt::describe(" how %d", how);
    auto mk = [&](const Loop &x) -> task_handle {
        auto f = [&x](int b, int i) { visit(x, b, i); };
        task_handle h;
        auto set = [&](auto grp) { VT_CHECK((grp != nullptr) == (x.count() > 0), "index", "a task group was %s for [%d,%d)", grp ? "created" : "not created", x.r.first, x.r.last); if (grp) h = task_handle(grp); };
        if (x.part) set(oqpi::make_parallel_for_task_group<task_type::waitable, Event, oqpi::empty_group_context, oqpi::empty_task_context>(*s, "g", oqpi::atomic_partitioner(x.r.first, x.r.last, x.grab, x.batches), x.prio, f));
        else set(oqpi::make_parallel_for_task_group<task_type::waitable, Event, oqpi::empty_group_context, oqpi::empty_task_context>(*s, "g", oqpi::simple_partitioner(x.r.first, x.r.last, x.batches), x.prio, f));
        return h;
    };
    task_handle a = mk(l), b = mk(m);
    if (how == 0) { for (auto &h : {a, b}) s->add(h); for (auto &h : {a, b}) if (h.isValid()) h.wait(); }
    else if (how == 1) { for (auto &h : {a, b}) if (h.isValid()) { task_handle x = h; x.executeSingleThreaded(); } }
    else if (a.isValid() || b.isValid()) {
        auto run = [&](auto grp) { for (auto &h : {a, b}) if (h.isValid()) grp->addTask(h); s->add(task_handle(grp)).wait(); };
        if (how == 2) run(oqpi::make_sequence_group<task_type::waitable, oqpi::empty_group_context>(*s, "q", task_priority::normal));
        else run(oqpi::make_parallel_group<task_type::waitable, oqpi::empty_group_context>(*s, "p", task_priority::normal, 2));
    }
    complete(l); complete(m);
    vt::nontrivial(l.count() > 1 || m.count() > 1);
    s->stop();
}
// the helper functions, with their defaults
VT_SCENARIO(C10, helpers, 3) {
    int workers = sized(1, 4, 24);
    vt::describe("workers: %d", workers);
    vt::enableLeakCheck(false); // the scheduler of the helpers is a static object
    Helpers::start_default_scheduler(workers);
    int nc = vt::range(0, 1), id = 0;
    std::vector<std::vector<Loop>> plan((size_t)nc + 1);
    for (auto &p : plan) { int n = vt::range(1, 2); for (int i = 0; i < n; ++i) p.push_back(genLoop(id++, true)); }
    auto run = [&](const Loop &l0) {
        Loop l = l0; int n = (int)l.count();
        auto f = [&l](int i) { visit(l, -2, i); };
        auto fb = [&l](int b, int i) { visit(l, b, i); };
        switch (l.how) {
        case 0: if (l.batchArg) Helpers::parallel_for("pf", oqpi::simple_partitioner(l.r.first, l.r.last, l.batches), l.prio, fb); else Helpers::parallel_for("pf", oqpi::atomic_partitioner(l.r.first, l.r.last, l.grab, l.batches), l.prio, f); break;
        case 1: if (l.batchArg) Helpers::parallel_for("pf", l.r.first, l.r.last, fb); else Helpers::parallel_for("pf", l.r.first, l.r.last, f); break;
        case 2: l.r = {0, n}; if (l.batchArg) Helpers::parallel_for("pf", n, fb); else Helpers::parallel_for("pf", n, f); break;
        default: { // every element once, the element itself
            l.r = {0, n};
            auto each = [&](auto &c) {
                auto fe = [&](auto &e) { int64_t k = &e - &c[0]; if (l.how == 4) { k = e >= 0 && e < n && &c[(size_t)e] == &e ? e : -1; } visit(l, -2, k); e += 1000; };
                if (l.how == 5) { if (l.part) Helpers::parallel_for_each("pfe", c, oqpi::atomic_partitioner(n, l.grab, l.batches), l.prio, fe); else Helpers::parallel_for_each("pfe", c, oqpi::simple_partitioner(n, l.batches), l.prio, fe); }
                else Helpers::parallel_for_each("pfe", c, fe);
                for (int i = 0; i < n; ++i) VT_CHECK(c[(size_t)i] == i + 1000, "index", "element %d was changed to %d", i, c[(size_t)i]);
            };
            if (l.how == 4) { std::deque<int> c; for (int i = 0; i < n; ++i) c.push_back(i); each(c); }
            else { std::vector<int> c; for (int i = 0; i < n; ++i) c.push_back(i); each(c); }
            break; }
        }
        complete(l);
    };
    { Clients c; for (int k = 1; k <= nc; ++k) c.add([&, k] { for (auto &l : plan[(size_t)k]) run(l); }); for (auto &l : plan[0]) run(l); }
    Helpers::stop_scheduler();
    bool nt = false; for (auto &p : plan) for (auto &l : p) if (l.count() > 1) nt = true;
    vt::nontrivial(nt);
}
