// Durations in all kinds of units.
#pragma once
#include <cmath>
#include "common.h"
namespace hv {
using namespace std::chrono;
// ------------------------------------------------------------------------------------- durations
template <int N> struct Unit;
template <> struct Unit<0> { using D = nanoseconds; };
template <> struct Unit<1> { using D = microseconds; };
template <> struct Unit<2> { using D = milliseconds; };
template <> struct Unit<3> { using D = seconds; };
template <> struct Unit<4> { using D = minutes; };
template <> struct Unit<5> { using D = hours; };
template <> struct Unit<6> { using D = duration<double>; };
template <> struct Unit<7> { using D = duration<float, std::milli>; };
template <> struct Unit<8> { using D = duration<double, std::ratio<3600>>; };
template <> struct Unit<9> { using D = duration<int32_t, std::micro>; };
template <> struct Unit<10> { using D = duration<int64_t, std::ratio<1, 3>>; };
template <> struct Unit<11> { using D = duration<int, std::ratio<1, 60>>; };
template <> struct Unit<12> { using D = duration<float>; };
template <> struct Unit<13> { using D = duration<int64_t, std::ratio<1, 100000000>>; };
constexpr int UNITS = 14;
template <class D> int64_t nsUp(D d) { // smallest number of nanoseconds that is not shorter
    if constexpr (!std::is_floating_point_v<typename D::rep>) {
        __int128 a = (__int128)d.count() * D::period::num * 1000000000, q = a / D::period::den;
        return (int64_t)(q + (q * D::period::den < a));
    }
    long double x = (long double)d.count() * (long double)D::period::num / (long double)D::period::den * 1e9L;
    long double r = floorl(x + 1e-6L); if (r < x - 1e-6L) r += 1; return (int64_t)r;
}
// what may be lost by converting a duration to whole nanoseconds in its own arithmetic
template <class D> int64_t slack(D x) {
    int64_t n = nsUp(x);
    if constexpr (std::is_floating_point_v<typename D::rep>) n -= 1 + (int64_t)((long double)n * (sizeof(typename D::rep) < 8 ? 4e-7L : 1e-14L));
    else if (1000000000 % D::period::den != 0) n -= 1;
    return n < 0 ? 0 : n;
}
struct Dur { int unit; int64_t n; };
template <class F, int I = 0> auto withDur(const Dur &d, F f) {
    if constexpr (I + 1 < UNITS) { if (d.unit != I) return withDur<F, I + 1>(d, f); }
    using D = typename Unit<I>::D;
    using R = typename D::rep;
    constexpr long double per = (long double)D::period::num / D::period::den * 1e9L;
    long double c = (long double)d.n / per;
    if constexpr (!std::is_floating_point_v<R>) c = truncl(c);
    constexpr long double lim = std::is_floating_point_v<R> ? 1e30L : (long double)std::numeric_limits<R>::max() / 2;
    if (c > lim) c = lim;
    if (c < -lim) c = -lim;
    return f(D((R)c));
}
// magnitude from nanoseconds to years; often next to a boundary of seconds
inline Dur genDur(bool allowNeg = true) {
    Dur d; d.unit = (int)vt::pick(UNITS);
    int64_t ns;
    switch (vt::pick(9)) {
    case 0: ns = 0; break;
    case 1: ns = 1 + (int64_t)vt::pick(1000); break;
    case 2: ns = (int64_t)vt::bits(20); break;
    case 3: ns = (int64_t)vt::bits(30); break;
    case 4: ns = (int64_t)(1 + vt::pick(5)) * 1000000000ll + (int64_t)vt::range(-2, 2); break;
    case 5: ns = (int64_t)vt::bits(36); break;
    case 6: ns = (int64_t)vt::bits(43); break;
    case 7: ns = vt::chance(1, 2) ? (int64_t)vt::bits(50) : (int64_t)vt::bits(55); break;
    default: ns = (int64_t)vt::pick(3000) * 1000000ll; break;
    }
    if (allowNeg && vt::chance(1, 8)) ns = -ns;
    d.n = ns;
    return d;
}
inline void genPhase() {
    static const int64_t special[] = {0, 1, 999999999, 999999998, 500000000, 999000000};
    vt::setWallPhase(vt::chance(1, 2) ? special[vt::pick(6)] : (int64_t)(vt::bits(30) % 1000000000ull));
}

} // namespace hv
