// C17 concurrent queue.
#include "common.h"
#include "lin.h"
using namespace hv;

namespace {
enum { QPush, QPop, QEmpty };
// Values carry a heap block, so that copies, moves and destructions are checked as well.
struct Val {
    std::unique_ptr<int64_t> p; 
    Val() {}
    explicit Val(int64_t v) : p(new int64_t(v)) {}
    Val(const Val &o) : p(o.p ? new int64_t(*o.p) : nullptr) {}
    Val(Val &&) = default;
    Val &operator=(const Val &o) { p.reset(o.p ? new int64_t(*o.p) : nullptr); return *this; }
    Val &operator=(Val &&) = default;
    int64_t get() const { return p ? *p : -1; }
};
struct Move { // cannot be copied
    std::unique_ptr<int64_t> p;
#ifdef VT_PLAIN_C17
    Move(const Move &o) : p(o.p ? new int64_t(*o.p) : nullptr) {}
    Move(Move &&) = default;
    Move &operator=(const Move &o) { p.reset(o.p ? new int64_t(*o.p) : nullptr); return *this; }
    Move &operator=(Move &&) = default;
#endif
    Move() {}
    explicit Move(int64_t v) : p(new int64_t(v)) {}
    int64_t get() const { return p ? *p : -1; }
};
struct Plain { int64_t v = -1; Plain() {} explicit Plain(int64_t x) : v(x) {} int64_t get() const { return v; } };

template <class T> void push(concurrent_queue<T> &q, int64_t v, bool copy) {
    if constexpr (std::is_copy_constructible_v<T>) {
        if (copy) { const T t(v); q.push(t); VT_CHECK(t.get() == v, "model", "pushing a copy changed the original"); return; }
    }
    T t(v); q.push(std::move(t));
}
using State = std::vector<int64_t>;
bool apply(State &s, const LOp &l) {
    switch (l.kind) {
    case QPush: s.push_back(l.a); return true;
    case QPop:
        if (l.a < 0) return s.empty();
        if (s.empty() || s[0] != l.a) return false;
        s.erase(s.begin()); return true;
    default: return (l.a != 0) == s.empty();
    }
}
template <class T> void sequential(const char *what) {
    vt::describe("%s queue:", what);
    auto q = std::make_unique<concurrent_queue<T>>();
    std::vector<int64_t> m; size_t head = 0; int64_t next = 0;
    int steps = sized(1, 60, 600); int bias = vt::range(1, 4);
    T v; int64_t out = -1; int pops = 0;
    for (int i = 0; i < steps; ++i) {
        int k = (int)vt::pick(6);
        if (k == 5) { vt::describe(" empty"); VT_CHECK(q->empty() == (head == m.size()), "model", "empty() is %d with %zu elements", q->empty(), m.size() - head); }
        else if (k < bias) { bool c = vt::chance(1, 2); vt::describe(" push"); push(*q, next, c); m.push_back(next++); }
        else {
            vt::describe(" pop");
            bool r = q->tryPop(v);
            VT_CHECK(r == (head < m.size()), "model", "tryPop returned %d with %zu elements", r, m.size() - head);
            if (r) { out = m[head++]; ++pops; VT_CHECK(v.get() == out, "model", "popped %lld instead of %lld", (long long)v.get(), (long long)out); }
            else VT_CHECK(v.get() == out, "model", "a failed tryPop changed its argument");
        }
    }
    if (vt::chance(1, 2)) {
        while (head < m.size()) { VT_CHECK(q->tryPop(v) && v.get() == m[head], "model", "popped a wrong element at the end"); ++head; }
        VT_CHECK(q->empty() && !q->tryPop(v), "model", "the queue is not empty");
    }
    q.reset(); // what is left is released
    vt::nontrivial(pops > 1);
}
template <class T> void concurrent(const char *what) {
    vt::enableRaces(1);
    auto q = std::make_unique<concurrent_queue<T>>();
    int nc = vt::range(1, 4), pre = (int)vt::pick(3);
    vt::describe("%s queue with %d elements, %d clients:", what, pre, nc);
    std::vector<int64_t> init;
    for (int i = 0; i < pre; ++i) { push(*q, 1000 + i, false); init.push_back(1000 + i); }
    struct Step { int op; bool copy; int64_t v; };
    std::vector<std::vector<Step>> plan((size_t)nc); int64_t next = 0; int n = 0, pushes = 0, pops = 0;
    for (int c = 0; c < nc; ++c) { int k = vt::range(1, 7); for (int i = 0; i < k && n < 16; ++i, ++n) { Step s{(int)vt::pick(5), vt::chance(1, 2), next++}; s.op = s.op < 2 ? QPush : s.op < 4 ? QPop : QEmpty; pushes += s.op == QPush; pops += s.op == QPop; plan[(size_t)c].push_back(s); vt::describe(" %d:%s", c, s.op == QPush ? "push" : s.op == QPop ? "pop" : "empty"); } }
    std::vector<std::vector<LOp>> hist((size_t)nc);
    for (auto &h : hist) h.reserve(16);
    {
        Clients c;
        for (int k = 0; k < nc; ++k) c.add([&, k] {
            for (auto &s : plan[(size_t)k]) {
                LOp l; l.client = k; l.kind = s.op;
                if (s.op == QPush) { l.a = s.v; l.inv = stamp(); push(*q, s.v, s.copy); l.resp = stamp(); }
                else if (s.op == QPop) { T v; l.inv = stamp(); bool r = q->tryPop(v); l.resp = stamp(); l.a = r ? v.get() : -1; VT_CHECK(!r || v.get() >= 0, "model", "popped an element that was never pushed"); }
                else { l.inv = stamp(); bool e = q->empty(); l.resp = stamp(); l.a = e; }
                hist[(size_t)k].push_back(l);
            }
        });
    }
    std::vector<LOp> all; for (auto &h : hist) for (auto &l : h) all.push_back(l);
    for (;;) { T v; LOp l; l.kind = QPop; l.client = -1; l.inv = stamp(); bool r = q->tryPop(v); l.resp = stamp(); l.a = r ? v.get() : -1; all.push_back(l); if (!r) break; VT_CHECK(all.size() < 60, "model", "the queue yields more elements than were pushed"); }
    // elements are popped in the order of their pushes: prunes the search
    vt::Quiet qu;
    std::map<int64_t, std::pair<int64_t, int64_t>> popped;
    for (auto &l : all) if (l.kind == QPop && l.a >= 0) popped[l.a] = {l.inv, l.resp};
    vt::maxSteps(1ull << 40);
    bool ok = linearizable(all, State(init), [&popped](State &s, const LOp &l) {
        if (l.kind == QPush && !s.empty()) {
            auto u = popped.find(s.back()), v = popped.find(l.a);
            if (u == popped.end() ? v != popped.end() : v != popped.end() && v->second.second < u->second.first) return false;
        }
        return apply(s, l);
    });
    if (!ok) {
        std::string h; char b[80];
        for (auto &l : all) { snprintf(b, sizeof b, " [%lld,%lld]%d:%s=%lld", (long long)l.inv, (long long)l.resp, l.client, l.kind == QPush ? "push" : l.kind == QPop ? "pop" : "empty", (long long)l.a); h += b; }
        vt::fail("not-linearizable", "no order of the operations explains their results:%s", h.c_str());
    }
    vt::nontrivial(nc > 1 && pushes && pops);
}
// Producers and consumers: every element arrives once, and those of one producer in their order at each consumer.
template <class T> void bulk(const char *what) {
    vt::enableRaces(1);
    auto q = std::make_unique<concurrent_queue<T>>();
    int np = sized(1, 3, 8), nq = sized(1, 3, 8), per = sized(1, 40, 200);
    vt::describe("%s queue, %d producers of %d, %d consumers", what, np, per, nq);
    std::vector<std::vector<int64_t>> got((size_t)nq + 1); for (auto &g : got) g.reserve((size_t)(np * per) + 1);
    std::vector<int> tries; for (int i = 0; i < nq; ++i) tries.push_back(vt::range(0, per > 60 ? per : 60));
    bool copy = vt::chance(1, 2);
    {
        Clients c;
        for (int p = 0; p < np; ++p) c.add([&, p] { for (int i = 0; i < per; ++i) push(*q, p * 1000 + i, copy); });
        for (int k = 0; k < nq; ++k) c.add([&, k] { for (int t = 0; t < tries[(size_t)k]; ++t) { T v; if (q->tryPop(v)) { if (got[(size_t)k].size() < got[(size_t)k].capacity()) got[(size_t)k].push_back(v.get()); else vt::fail("model", "more elements than were pushed"); } } });
    }
    { T v; while (q->tryPop(v)) { VT_CHECK(got[(size_t)nq].size() <= (size_t)(np * per), "model", "more elements than were pushed"); got[(size_t)nq].push_back(v.get()); } }
    VT_CHECK(q->empty(), "model", "not empty");
    std::vector<int> seen((size_t)(np * 1000), 0);
    for (auto &g : got) {
        std::vector<int64_t> last((size_t)np, -1);
        for (auto v : g) {
            VT_CHECK(v >= 0 && v / 1000 < np && v % 1000 < per, "model", "element %lld was never pushed", (long long)v);
            VT_CHECK(seen[(size_t)v]++ == 0, "model", "element %lld was popped twice", (long long)v);
            VT_CHECK(v > last[(size_t)(v / 1000)], "model", "elements of a producer were popped out of order");
            last[(size_t)(v / 1000)] = v;
        }
    }
    for (int p = 0; p < np; ++p) for (int i = 0; i < per; ++i) VT_CHECK(seen[(size_t)(p * 1000 + i)], "model", "element %d was lost", p * 1000 + i);
    vt::nontrivial(np + nq > 2);
}
} // namespace
VT_SCENARIO(C17, sequential, 2) { switch (vt::pick(3)) { case 0: sequential<Val>("copyable"); break; case 1: sequential<Move>("move-only"); break; default: sequential<Plain>("plain"); } }
VT_SCENARIO(C17, concurrent, 5) { switch (vt::pick(3)) { case 0: concurrent<Val>("copyable"); break; case 1: concurrent<Move>("move-only"); break; default: concurrent<Plain>("plain"); } }
VT_SCENARIO(C17, bulk, 1) { switch (vt::pick(3)) { case 0: bulk<Val>("copyable"); break; case 1: bulk<Move>("move-only"); break; default: bulk<Plain>("plain"); } }
