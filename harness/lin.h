// Linearizability checker (Wing & Gong search with memoisation) for small histories.
#pragma once
#include <cstdint>
#include <set>
#include <vector>
#include "rt.h"
namespace hv {
struct LOp { int64_t inv = 0, resp = INT64_MAX; int kind = 0; int64_t a = 0, b = 0; int client = 0; };
constexpr int EvLin = 90;
inline int64_t stamp() { return (int64_t)vt::log(EvLin); }

// apply(state, op) -> legal; changes the state. An operation with resp == INT64_MAX is pending and may or may not have taken effect.
template <class State, class Apply> struct Lin {
    const std::vector<LOp> &ops; Apply apply; std::set<std::pair<uint64_t, State>> seen; uint64_t must = 0;
    Lin(const std::vector<LOp> &o, Apply a) : ops(o), apply(a) { for (size_t i = 0; i < o.size(); ++i) if (o[i].resp != INT64_MAX) must |= 1ull << i; }
    bool go(uint64_t done, const State &s) {
        if ((done & must) == must) return true;
        if (!seen.insert({done, s}).second) return false;
        int64_t minResp = INT64_MAX;
        for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) minResp = std::min(minResp, ops[i].resp);
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done >> i & 1 || ops[i].inv > minResp) continue;
            State t = s;
            if (apply(t, ops[i]) && go(done | 1ull << i, t)) return true;
        }
        return false;
    }
};
template <class State, class Apply> bool linearizable(const std::vector<LOp> &ops, const State &init, Apply apply) {
    vt::Quiet q;
    VT_CHECK(ops.size() <= 62, "internal", "history too long");
    Lin<State, Apply> l(ops, apply);
    return l.go(0, init);
}
} // namespace hv
