// Client programs over a generated graph of tasks.
#pragma once
#include "common.h"
namespace hv {
struct Ops { bool dup = true, clients = true, early = true, waits = true; };

// User-made layers around the threads, semaphores and events the scheduler and its tasks use: slow, but otherwise neutral.
template <class B> struct SlowSync : oqpi::local_sync_object<B> {
    using P = oqpi::local_sync_object<B>;
    template <class... A> SlowSync(A &&...a) : P(std::forward<A>(a)...) {}
    SlowSync(SlowSync &&) = default; SlowSync &operator=(SlowSync &&) = default;
    bool wait() { vt::yield(); bool r = P::wait(); vt::yield(); return r; }
};
template <class B> struct SlowSema : SlowSync<B> {
    using SlowSync<B>::SlowSync;
    SlowSema(SlowSema &&) = default; SlowSema &operator=(SlowSema &&) = default;
    void notify(int32_t n) { vt::yield(); SlowSync<B>::notify(n); vt::yield(); }
    bool tryWait() { vt::yield(); bool r = SlowSync<B>::tryWait(); vt::yield(); return r; }
};
template <class B> struct SlowEvent : SlowSync<B> {
    using SlowSync<B>::SlowSync;
    SlowEvent(SlowEvent &&) = default; SlowEvent &operator=(SlowEvent &&) = default;
    void notify() { vt::yield(); SlowSync<B>::notify(); vt::yield(); }
};
template <class B> struct SlowThread : B {
    SlowThread() = default; SlowThread(SlowThread &&) = default; SlowThread &operator=(SlowThread &&) = default;
    std::unique_ptr<int> extra = std::make_unique<int>(1);
};
template <class E> struct Kit { using T = Thread; using N = Sema; };
using LayeredEvent = oqpi::manual_reset_event_interface<SlowEvent>;
template <> struct Kit<LayeredEvent> { using T = oqpi::thread_interface<SlowThread>; using N = oqpi::semaphore_interface<SlowSema>; };
using LayeredGraph = GraphT<Sched, LayeredEvent>;
// Clients submit the roots (possibly several times, possibly before start) and wait in different ways.
template <class S, class E> void drive(GraphT<S, E> &g, const std::vector<WorkerGen> &ws, const Ops &o, bool checkWaits) {
    using Graph = GraphT<S, E>;
    std::vector<std::unique_ptr<S>> scheds; std::vector<S *> raw;
    int workers = 0;
    for (auto &w : ws) { scheds.push_back(std::make_unique<S>()); raw.push_back(scheds.back().get()); registerAll<typename Kit<E>::T, typename Kit<E>::N>(*raw.back(), w); workers += w.total; }
    g.buildAll(raw);
    int nClients = o.clients ? (int)vt::pick(3) : 0;
    struct Op { int root; int what; int owner; int sch; };
    std::vector<Op> ops;
    std::vector<int> submittedBefore;
    bool lateStart = o.early && vt::chance(1, 4);
    for (size_t i = 0; i < g.roots.size(); ++i) {
        int times = 1 + (o.dup && vt::chance(1, 3) ? (int)vt::pick(3) : 0);
        for (int k = 0; k < times; ++k) ops.push_back({(int)i, 0, (int)vt::pick((uint32_t)nClients + 1), raw.size() > 1 ? (int)vt::pick((uint32_t)raw.size()) : 0});
        if (o.waits) {
            int nw = (int)vt::pick(3);
            for (int k = 0; k < nw; ++k) ops.push_back({(int)i, 1 + (int)vt::pick(4), (int)vt::pick((uint32_t)nClients + 1), 0});
        }
    }
    // every client first submits what it submits, then waits: passive waits always have a submission
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return (a.what != 0) < (b.what != 0); });
    if (nClients) vt::describe("clients: %d; ", nClients);
    vt::describe("ops:");
    for (auto &op : ops) { static const char *n[] = {"add", "wait", "activeWait", "poll", "waitForResult"}; vt::describe(" %s(%d)@%d", n[op.what], g.roots[op.root]->id, op.owner); if (op.sch) vt::describe("s%d", op.sch); }
    if (lateStart) vt::describe(" [started after the submissions]");
    auto run = [&](int me, int phase) {
        for (auto &op : ops) {
            if (op.owner != me || (op.what != 0) != (phase == 1)) continue;
            Node &n = *g.roots[op.root];
            switch (op.what) {
            case 0: raw[(size_t)op.sch]->add(n.h); break;
            case 1: if (n.waitable) { n.h.wait(); if (checkWaits) Graph::checkCompleted(n, "wait"); VT_CHECK(n.h.isDone(), "not-done", "not done after wait"); } break;
            case 2: if (n.waitable && n.kind != Seq) { task_handle h = n.h; h.activeWait(); if (checkWaits) Graph::checkCompleted(n, "activeWait"); VT_CHECK(n.h.isDone(), "not-done", "not done after activeWait"); } break;
            case 3: for (int k = 0; k < 6; ++k) { if (n.h.isDone()) { if (checkWaits) Graph::checkCompleted(n, "isDone"); if (n.result) VT_CHECK(n.result() == valueOf(n.id) + 1, "wrong-result", "getResult of a done task is wrong"); break; } vt::yield(); } break;
            case 4: if (n.waitResult) { int64_t r = n.waitResult(); if (checkWaits) Graph::checkCompleted(n, "waitForResult"); VT_CHECK(r == valueOf(n.id) + 1, "wrong-result", "waitForResult returned %lld", (long long)r); } break;
            }
        }
    };
    if (lateStart) run(0, 0);
    for (S *s : raw) s->start();
    {
        Clients c;
        for (int k = 1; k <= nClients; ++k) c.add([&, k] { run(k, 0); run(k, 1); });
        if (!lateStart) run(0, 0);
        run(0, 1);
        c.join();
    }
    vt::settle();
    g.checkExactlyOnce("once everything had settled");
    vt::nontrivial(g.all.size() >= 2);
    if (workers > 1) vt::label("several-workers");
    if (nClients) vt::label("several-clients");
    if (lateStart) vt::label("submitted-before-start");
    if (g.all.size() > 4) vt::label("more-than-4-nodes");
    bool drop = vt::chance(1, 3);
    if (drop) g.dropHandles();
    for (auto &s : scheds) { if (vt::chance(1, 2)) s->stop(); s.reset(); }
    for (Node *n : g.all) if (n->kind == Leaf) VT_CHECK(vt::cell(C_EXEC + n->id) == 1, "executed-twice", "task %d executed %lld times after the scheduler stopped", n->id, (long long)vt::cell(C_EXEC + n->id));
}
inline void drive(Graph &g, const WorkerGen &w, const Ops &o, bool checkWaits) { drive(g, std::vector<WorkerGen>{w}, o, checkWaits); }
// Several schedulers at the same time: their tasks, groups and submissions are mixed.
inline void driveTwo(Graph &g, const Ops &o, bool checkWaits) {
    std::vector<WorkerGen> ws; for (int i = 0; i < g.o.scheds; ++i) ws.push_back(genWorkers(2, 2, false));
    g.generate(1, 4); g.describe();
    for (Node *n : g.all) if (n->sch) vt::describe("%d in s%d; ", n->id, n->sch);
    vt::label("several-schedulers");
    drive(g, ws, o, checkWaits);
}
// A queue policy that hands elements out in no particular order.
template <class T> class bag_queue {
    mutable std::mutex m_; std::vector<T> v_; uint32_t r_ = 1;
public:
    void push(const T &t) { std::lock_guard<std::mutex> l(m_); v_.push_back(t); }
    void push(T &&t) { std::lock_guard<std::mutex> l(m_); v_.push_back(std::move(t)); }
    bool tryPop(T &t) {
        std::lock_guard<std::mutex> l(m_);
        if (v_.empty()) return false;
        r_ = r_ * 1664525u + 1013904223u;
        size_t i = (r_ >> 16) % v_.size();
        t = std::move(v_[i]); v_.erase(v_.begin() + (long)i);
        return true;
    }
    bool empty() const { std::lock_guard<std::mutex> l(m_); return v_.empty(); }
};
using BagSched = oqpi::scheduler<bag_queue>;
} // namespace hv
