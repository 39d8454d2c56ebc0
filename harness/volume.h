// Many tasks at once: what depends on how much there is (counters, indices, queues, chains).
#pragma once
#include "common.h"
namespace hv {
// A number over several orders of magnitude.
inline int volumeSize(int huge = 0) {
    int e = (int)std::min(vt::pick(11), vt::pick(11)), n = (1 << e) + (int)vt::pick(1u << e);
    if (huge && vt::chance(1, 1500)) n = vt::range(huge / 2, huge);
    vt::maxSteps(300000 + (uint64_t)n * 400);
    vt::label(n < 256 ? "below-256" : n < 2048 ? "256-to-2047" : "huge");
    return n;
}
// Per-item counters, outside of what the schedule may interleave.
struct Tally {
    std::vector<uint8_t> v;
    explicit Tally(int n) { vt::Quiet q; v.assign((size_t)n, 0); }
    ~Tally() { vt::Quiet q; std::vector<uint8_t>().swap(v); }
    void hit(int i) { if (v[(size_t)i] < 255) ++v[(size_t)i]; }
    int count() const { int k = 0; for (auto x : v) k += x != 0; return k; }
    void exactlyOnce(const char *what) const { for (size_t i = 0; i < v.size(); ++i) if (v[i] != 1) vt::fail(v[i] ? "executed-twice" : "lost-task", "%s: item %zu of %zu was executed %d times", what, i, v.size(), v[i]); }
};
enum VForm { VTasks, VPar, VLimited, VSeq, VParOfPar, VParOfSeq, VSeqOfPar, VNested, VFORMS };
// One item is held back, so that everything else has to be done and what it belongs to must not be.
template <class S> void volume(unsigned forms, bool idle = false, int huge = 0) {
    static const char *names[] = {"tasks", "parallel", "limited", "sequence", "parallel of parallels", "parallel of sequences", "sequence of parallels", "tasks of a task"};
    int f; do f = (int)vt::pick(VFORMS); while (!(forms >> f & 1));
    int n = volumeSize(huge), workers = vt::range(2, 4), hold = vt::chance(1, 4) ? -1 : vt::chance(1, 2) ? (int)vt::pick((uint32_t)n) : vt::chance(1, 2) ? 0 : n - 1;
    int chunk = 1 + (int)vt::pick(vt::chance(1, 2) ? 8u : (uint32_t)n), lim = vt::chance(1, 2) ? vt::range(1, 4) : vt::range(1, n + 4), prios = vt::chance(1, 2) ? 1 : 5, hint = vt::chance(1, 3) ? (int)vt::pick((uint32_t)n + 9) : n, yields = (int)vt::pick(3);
    if (f == VNested && vt::chance(1, 2)) { workers = 1; hold = -1; }
    bool late = vt::chance(1, 4), active = !idle && vt::chance(1, 4), wtb = vt::chance(1, 2);
    if (idle && n > 2047 && vt::chance(3, 4)) { f = VTasks; late = true; }
    vt::describe("%d items as %s, held back: %d, chunks of %d, limit %d, hint %d, %d workers%s%s", n, names[f], hold, chunk, lim, hint, workers, late ? ", started late" : "", active ? ", active wait" : "");
    auto s = std::make_unique<S>(); registerAll(*s, plainWorkers(workers));
    if (!late) s->start();
    Tally tally(n); struct { operator int() const { return (int)vt::cell(C_SPARE); } } done; vt::Gate gate = vt::makeGate();
    auto item = [&, yields](int i) { return [&, yields, i] {
        tally.hit(i); vt::cellMax(C_SPARE + 2, vt::cellAdd(C_SPARE + 1, 1));
        VT_CHECK(f != VSeq || done == i, "order", "item %d of a sequence started when %d were done", i, (int)done);
        VT_CHECK(f != VSeqOfPar || done >= i - i % chunk, "order", "item %d started when %d were done", i, (int)done);
        for (int k = 0; k < yields; ++k) vt::yield();
        if (i == hold) vt::passGate(gate);
        vt::cellAdd(C_SPARE + 1, -1); vt::cellAdd(C_SPARE, 1);
    }; };
    auto make = [&](int i) { return i % 2 || !wtb ? task_handle(oqpi::make_task<task_type::fire_and_forget, Event, oqpi::empty_task_context>("t", task_priority(prios == 1 ? 2 : i % prios), item(i)))
                                                    : task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority(prios == 1 ? 2 : i % prios), item(i))); };
    auto par = [&](int kids, int limit, auto add) { auto g = oqpi::make_parallel_group<task_type::waitable, oqpi::empty_group_context>(*s, "p", task_priority::normal, kids, limit); add(*g); return task_handle(g); };
    auto seq = [&](auto add) { auto g = oqpi::make_sequence_group<task_type::waitable, oqpi::empty_group_context>(*s, "s", task_priority::normal); add(*g); return task_handle(g); };
    auto items = [&](int a, int b) { return [&make, a, b](auto &g) { for (int i = a; i < b; ++i) g.addTask(make(i)); }; };
    auto chunks = [&](auto sub) { return [&n, &chunk, sub](auto &g) { for (int a = 0; a < n; a += chunk) g.addTask(sub(a, std::min(n, a + chunk))); }; };
    task_handle nested; std::vector<task_handle> tops; int freeBefore = 0; // how many must be done while the one is held back
    switch (f) {
    case VTasks: for (int i = 0; i < n; ++i) tops.push_back(make(i)); freeBefore = n - 1; break;
    case VPar: tops.push_back(par(hint, 0, items(0, n))); freeBefore = n - 1; break;
    case VLimited: tops.push_back(par(hint, lim, items(0, n))); freeBefore = lim > 1 ? n - 1 : -1; break;
    case VSeq: tops.push_back(seq(items(0, n))); freeBefore = hold; break;
    case VParOfPar: tops.push_back(par(hint, 0, chunks([&](int a, int b) { return par(b - a, 0, items(a, b)); }))); freeBefore = n - 1; break;
    case VParOfSeq: tops.push_back(par(hint, 0, chunks([&](int a, int b) { return seq(items(a, b)); }))); freeBefore = hold < 0 ? 0 : n - (std::min(n, hold - hold % chunk + chunk) - hold); break;
    case VNested: // waited for by the task that submits them: one by one, as a group, or by waiting for all of them
        tops.push_back(task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("n", task_priority::normal, [&, how = vt::pick(3)] {
            if (how == 0) { nested = par(hint, 0, items(0, n)); s->add(nested); nested.activeWait(); nested.reset(); }
            else { std::vector<task_handle> hs; for (int i = 0; i < n; ++i) hs.push_back(s->add(task_handle(oqpi::make_task<task_type::waitable, Event, oqpi::empty_task_context>("t", task_priority(prios == 1 ? 2 : i % prios), item(i))))); if (how == 1) for (auto &h : hs) h.activeWait(); else for (auto i = hs.rbegin(); i != hs.rend(); ++i) i->activeWait(); }
            VT_CHECK(done == n, "early-return", "the nested waits returned with %d of %d items done", (int)done, n);
        }))); freeBefore = -1; break;
    default: tops.push_back(seq(chunks([&](int a, int b) { return par(b - a, 0, items(a, b)); }))); freeBefore = hold < 0 ? 0 : std::min(n, hold - hold % chunk + chunk) - 1; break;
    }
    for (size_t i = 0; i < tops.size(); ++i) { s->add(tops[i]); if (idle && late && !(i + 1 & i)) VT_CHECK(!s->isIdle(), "idle", "idle with %zu items submitted and none started", i + 1); }
    if (late) { if (idle) VT_CHECK(!s->isIdle(), "idle", "idle with %d items submitted and none started", n); s->start(); }
    task_handle last = tops.back();
    Clients c; bool grouped = f != VTasks;
    if (grouped) c.add([&] { task_handle h = last; if (active && f != VSeq && f != VSeqOfPar && f != VLimited) h.activeWait(); else h.wait(); VT_CHECK(h.isDone() && done == n, "early-return", "a wait returned with %d of %d items done", (int)done, n); });
    if (idle) for (int k = 0; k < 60; ++k) { bool all = done == n; if (s->isIdle()) VT_CHECK(done == n, "idle", "idle with %d of %d items done", (int)done, n); if (all) break; vt::yield(); }
    if (hold >= 0) {
        vt::settle();
        if (freeBefore >= 0) VT_CHECK(tally.count() == freeBefore + 1 && done == freeBefore, freeBefore + 1 > tally.count() ? "lost-task" : "order", "%d items were started and %d finished while item %d was held back, instead of %d and %d", tally.count(), (int)done, hold, freeBefore + 1, freeBefore);
        if (grouped) { VT_CHECK(!last.isDone(), "join", "the group is done although item %d is not", hold); VT_CHECK(!vt::isFinished(c.ids[0]), "join", "a waiter was released although item %d is not done", hold); }
        else VT_CHECK(!tops[(size_t)hold].isDone(), "join", "task %d is done although it has not returned", hold);
        if (idle) VT_CHECK(!s->isIdle(), "idle", "idle although item %d is being executed", hold);
        vt::openGate(gate);
    }
    vt::settle();
    tally.exactlyOnce("once everything had settled");
    if (grouped) VT_CHECK(vt::isFinished(c.ids[0]), "lost-task", "all items are done and a waiter on their group is not released");
    c.join();
    for (auto &h : tops) VT_CHECK(h.isDone(), "not-done", "not done although all items are");
    int most = (int)vt::cell(C_SPARE + 2);
    if (f == VLimited && !active) VT_CHECK(most <= lim, "limit", "%d items were executed at the same time, the limit is %d", most, lim);
    if (idle) VT_CHECK(s->isIdle(), "idle", "not idle although everything is done");
    vt::nontrivial(n > 1);
    s->stop();
    tally.exactlyOnce("after the scheduler was stopped");
}
} // namespace hv
