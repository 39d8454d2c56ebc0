// A value that counts its live instances and notices double destruction and use after destruction.
#pragma once
#include "common.h"
namespace hv {
constexpr int C_LIVE = vt::CELLS - 1;
struct Tok {
    int64_t v; uint32_t magic;
    explicit Tok(int64_t x) : v(x), magic(0x70C4) { vt::cellAdd(C_LIVE, 1); }
    Tok(const Tok &o) : v(o.v), magic(0x70C4) { o.use(); vt::cellAdd(C_LIVE, 1); }
    Tok(Tok &&o) noexcept : v(o.v), magic(0x70C4) { o.use(); o.v = -7; vt::cellAdd(C_LIVE, 1); }
    Tok &operator=(const Tok &) = delete;
    ~Tok() { use(); magic = 0xDEAD; vt::cellAdd(C_LIVE, -1); }
    void use() const { VT_CHECK(magic == 0x70C4, "use-after-free", "use of a destroyed argument"); }
    int64_t get() const { use(); return v; }
};
// VT_PLAIN_<property>: without what cannot be copied; used when the harness does not compile with it (see check.py)
#ifdef VT_PLAIN
template <class T> using Own = std::shared_ptr<T>;
template <class T, class... A> Own<T> makeOwn(A &&...a) { return std::make_shared<T>(std::forward<A>(a)...); }
struct MoveTok { Tok t; explicit MoveTok(int64_t v) : t(v) {} int64_t get() const { return t.get(); } };
#define VT_RVALUE
#else
template <class T> using Own = std::unique_ptr<T>;
template <class T, class... A> Own<T> makeOwn(A &&...a) { return std::make_unique<T>(std::forward<A>(a)...); }
#define VT_RVALUE &&
struct MoveTok {
    std::unique_ptr<Tok> t;
    explicit MoveTok(int64_t v) : t(std::make_unique<Tok>(v)) {}
    MoveTok(MoveTok &&) = default;
    int64_t get() const { return t ? t->get() : -9; }
};
#endif
} // namespace hv
