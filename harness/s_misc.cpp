// C34 checks and reports, C35 augmentation layers.
#include <iostream>
#include <streambuf>
#include "drive.h"
#include "oqpi/threading/this_thread.hpp"
#include "dur.h"
#include "oqpi/error_handling.hpp"
#include "oqpi/empty_layer.hpp"
using namespace hv;
using namespace std::chrono;

// ------------------------------------------------------------------------------------------- C34
namespace {
#if defined(NDEBUG)
constexpr bool DEBUG = false;
#else
constexpr bool DEBUG = true;
#endif
// Captures what the library prints, outside of the instrumented world
struct Capture : std::streambuf {
    static constexpr size_t N = 1 << 16;
    char buf[N]; size_t n = 0; std::streambuf *old; FILE *oldErr, *mem; char *errBuf = nullptr; size_t errN = 0;
    Capture() { vt::Quiet q; old = std::cout.rdbuf(this); oldErr = stderr; fflush(stderr); mem = open_memstream(&errBuf, &errN); stderr = mem; }
    ~Capture() { vt::Quiet q; std::cout.rdbuf(old); stderr = oldErr; fclose(mem); free(errBuf); }
    __attribute__((disable_sanitizer_instrumentation)) std::streamsize xsputn(const char *s, std::streamsize k) override { size_t c = (size_t)k < N - n ? (size_t)k : N - n; __builtin_memcpy(buf + n, s, c); n += c; return k; }
    __attribute__((disable_sanitizer_instrumentation)) int overflow(int c) override { if (c != EOF && n < N) buf[n++] = (char)c; return c == EOF ? 0 : c; }
    std::string out() { return std::string(buf, n); }
    std::string err() { vt::Quiet q; fflush(mem); return std::string(errBuf ? errBuf : "", errN); }
};
bool conditionOf(int id, bool v) { vt::cellAdd(100 + id, 1); return v; }

enum Macro { MVerify, MVerifyF, MCheck, MCheckF, MEnsure, MEnsureF, MFailed, MFailedF, MACROS };
const char *macroName(int m) { static const char *n[] = {"verify", "verifyf", "check", "checkf", "ensure", "ensuref", "failed", "failedf"}; return n[m]; }
// Uses the macro; returns the value of the expression (1: true) or -1 for statements
struct Args { int i; long long l; std::string s; double d; unsigned u; };
// The condition is written in one of three ways: on its own, and as operators that bind less than what the macros do with it
#define SHAPED(USE) switch (shape) { case 0: USE(conditionOf(id, v)); case 1: USE(id < 0 || conditionOf(id, v)); default: USE(id >= 0 ? conditionOf(id, v) : 7 % 4 == 2); }
const char *shapes[] = {"conditionOf(id,v)", "id<0||conditionOf(id,v)", "id>=0?conditionOf(id,v):7%4==2"};
int use(int m, int id, bool v, int form, const Args &a, int &line, int shape = 0) {
#define VERIFY(C) line = __LINE__; oqpi_verify(C); return -1
#define CHECK(C)  line = __LINE__; oqpi_check(C); return -1
#define ENSURE(C) line = __LINE__; return !oqpi_ensure(C) ? 0 : 1
#define FAILED(C) line = __LINE__; return !oqpi_failed(C) ? 0 : 1
#define FORMS(C, M, RET0, RET1) switch (form) { case 0: line = __LINE__; RET0 M(C, "plain message") RET1; case 1: line = __LINE__; RET0 M(C, "i %d", a.i) RET1; default: line = __LINE__; RET0 M(C, "i %d s '%s' l %lld d %.3f u %u", a.i, a.s.c_str(), a.l, a.d, a.u) RET1; }
#define VERIFYF(C) FORMS(C, oqpi_verifyf, , ; return -1)
#define CHECKF(C)  FORMS(C, oqpi_checkf, , ; return -1)
#define ENSUREF(C) FORMS(C, oqpi_ensuref, return !, ? 0 : 1)
#define FAILEDF(C) FORMS(C, oqpi_failedf, return !, ? 0 : 1)
    switch (m) {
    case MVerify: SHAPED(VERIFY)
    case MCheck: SHAPED(CHECK)
    case MEnsure: SHAPED(ENSURE)
    case MFailed: SHAPED(FAILED)
    case MVerifyF: SHAPED(VERIFYF)
    case MCheckF: SHAPED(CHECKF)
    case MEnsureF: SHAPED(ENSUREF)
    default: SHAPED(FAILEDF)
    }
#undef VERIFY
#undef CHECK
#undef ENSURE
#undef FAILED
#undef VERIFYF
#undef CHECKF
#undef ENSUREF
#undef FAILEDF
#undef FORMS
}
bool hasMessage(int m) { return m == MVerifyF || m == MCheckF || m == MEnsureF || m == MFailedF; }
std::string message(int form, const Args &a) {
    if (form == 0) return "plain message";
    if (form == 1) return "i " + std::to_string(a.i);
    char d[64]; snprintf(d, sizeof d, "%.3f", a.d);
    return "i " + std::to_string(a.i) + " s '" + a.s + "' l " + std::to_string(a.l) + " d " + d + " u " + std::to_string(a.u);
}
Args genArgs() {
    Args a; a.i = (int)vt::bits(32); a.l = (long long)vt::bits(64); a.u = (unsigned)vt::bits(32); a.d = (double)(int)vt::bits(20) / 8;
    int len = vt::chance(1, 6) ? (int)vt::pick(3000) : (int)vt::pick(40);
    for (int i = 0; i < len; ++i) a.s += (char)('a' + (i * 7 + len) % 26);
    if (len > 4 && vt::chance(1, 3)) { static const char *specials[] = {"%d", "%s", "%%", "%n", "\n", "\"", "\\", "{0}"}; a.s.insert(vt::pick((uint32_t)len), specials[vt::pick(8)]); }
    return a;
}
bool evaluates(int m) { return DEBUG || m == MVerify || m == MVerifyF; } // in non debug builds, only verify evaluates its condition
bool reports(int m, bool v) { (void)m; return DEBUG && !v; }
int valueOfMacro(int m, bool v) {
    bool eff = DEBUG ? v : true;
    return m == MEnsure || m == MEnsureF ? eff : m == MFailed || m == MFailedF ? !eff : -1;
}
} // namespace
VT_SCENARIO(C34, sequential, 3) {
    int n = sized(1, 12, 60), failed = 0;
    vt::expectTraps(true);
    auto cap = std::make_unique<Capture>();
    for (int k = 0; k < n; ++k) {
        int m = (int)vt::pick(MACROS), form = (int)vt::pick(3), shape = (int)vt::pick(3); bool v = vt::chance(1, 2); Args a = genArgs(); int line = 0;
        vt::describe(" %s(%d)%s", macroName(m), v, shape == 0 ? "" : shape == 1 ? "||" : "?:");
        if (hasMessage(m)) vt::describe("'%s'", message(form, a).substr(0, 60).c_str());
        auto cell0 = vt::cell(100 + k), t0 = vt::traps(); cap->n = 0;
        int r = use(m, k, v, form, a, line, shape);
        std::string out = cap->out();
        VT_CHECK(vt::cell(100 + k) - cell0 == (evaluates(m) ? 1 : 0), "evaluation", "the condition of %s was evaluated %lld times", macroName(m), (long long)(vt::cell(100 + k) - cell0));
        VT_CHECK(r == valueOfMacro(m, v), "value", "%s evaluates to %d for a condition that is %d", macroName(m), r, v);
        bool rep = reports(m, v); failed += rep;
        VT_CHECK(vt::traps() - t0 == (rep ? 1 : 0), "report", "%s with a condition that is %d broke into the debugger %lld times", macroName(m), v, (long long)(vt::traps() - t0));
        if (!rep) { VT_CHECK(out.empty(), "report", "%s reported a failure although there is none: %s", macroName(m), out.c_str()); continue; }
        std::string packed; for (char ch : out) if (ch != ' ') packed += ch;
        VT_CHECK(packed.find(shapes[shape]) != std::string::npos, "report", "the condition of a failed %s is not reported: %s", macroName(m), out.c_str());
        VT_CHECK(out.find("s_misc.cpp") != std::string::npos && out.find("line " + std::to_string(line)) != std::string::npos, "report", "the location of a failed %s is not reported: %s", macroName(m), out.c_str());
        if (hasMessage(m)) {
            std::string want = message(form, a); bool cut = want.size() > 900; if (cut) want.resize(900);
            VT_CHECK(out.find(want) != std::string::npos, "report", "the message of a failed %s is not reported: '%s' in %s", macroName(m), want.c_str(), out.c_str());
            if (cut) vt::label("long-message");
        }
    }
    vt::nontrivial(n > 1);
    if (failed) vt::label("failed-checks");
}
VT_SCENARIO(C34, logs, 1) {
    int n = vt::range(1, 6);
    auto cap = std::make_unique<Capture>();
    std::vector<std::string> want; std::string all;
    for (int k = 0; k < n; ++k) {
        Args a = genArgs(); int form = (int)vt::pick(3); bool w = vt::chance(1, 2);
        switch (form) {
        case 0: if (w) oqpi_warning("plain message"); else oqpi_error("plain message"); break;
        case 1: if (w) oqpi_warning("i %d", a.i); else oqpi_error("i %d", a.i); break;
        default: if (w) oqpi_warning("i %d s '%s' l %lld d %.3f u %u", a.i, a.s.c_str(), a.l, a.d, a.u); else oqpi_error("i %d s '%s' l %lld d %.3f u %u", a.i, a.s.c_str(), a.l, a.d, a.u); break;
        }
        vt::describe(" %s '%s'", w ? "warning" : "error", message(form, a).substr(0, 60).c_str());
        std::string err = cap->err(), line = err.substr(all.size());
        VT_CHECK(err.compare(0, all.size(), all) == 0, "report", "earlier reports were changed");
        VT_CHECK(line.find(w ? "warning" : "error") != std::string::npos && line.find(message(form, a)) != std::string::npos && line.back() == '\n', "report", "logged '%s' instead of '%s'", line.c_str(), message(form, a).c_str());
        all = err;
    }
    VT_CHECK(cap->n == 0, "report", "a log was printed to the standard output");
    vt::nontrivial(n > 1);
}
// threads failing checks at the same time: every report is about one of them
VT_SCENARIO(C34, concurrent, 2) {
    int n = sized(2, 4, 12); vt::expectTraps(true);
    auto cap = std::make_unique<Capture>();
    struct Op { int m, form; bool v; Args a; int line = 0; };
    std::vector<std::vector<Op>> ops((size_t)n); int reportsWanted = 0;
    for (auto &l : ops) { int k = vt::range(1, 3); for (int i = 0; i < k; ++i) { Op o{(int)vt::pick(MACROS), (int)vt::pick(3), vt::chance(1, 4), genArgs()}; o.a.s.resize(std::min<size_t>(o.a.s.size(), 60)); if (!o.a.s.empty() && o.a.s.back() == '%') o.a.s.back() = 'x'; l.push_back(o); reportsWanted += reports(o.m, o.v); vt::describe(" %s(%d)", macroName(o.m), o.v); } vt::describe(";"); }
    Clients c;
    for (int t = 0; t < n; ++t) c.add([&, t] { int id = t * 8; for (auto &o : ops[(size_t)t]) { int r = use(o.m, id, o.v, o.form, o.a, o.line); VT_CHECK(r == valueOfMacro(o.m, o.v), "value", "%s evaluates to %d for a condition that is %d", macroName(o.m), r, o.v); VT_CHECK(vt::cell(100 + id) == (evaluates(o.m) ? 1 : 0), "evaluation", "the condition of %s was evaluated %lld times", macroName(o.m), (long long)vt::cell(100 + id)); ++id; } });
    c.join();
    VT_CHECK(vt::traps() == reportsWanted, "report", "%lld instead of %d failures were signalled", (long long)vt::traps(), reportsWanted);
    std::string out = cap->out();
    for (auto &l : ops) for (auto &o : l) if (reports(o.m, o.v) && hasMessage(o.m)) VT_CHECK(out.find(message(o.form, o.a)) != std::string::npos, "report", "the message of a failed %s is not reported: %s", macroName(o.m), message(o.form, o.a).c_str());
    for (auto &l : ops) for (auto &o : l) if (!reports(o.m, o.v) && o.form == 2) VT_CHECK(out.find(message(2, o.a)) == std::string::npos, "report", "a %s that holds is reported", macroName(o.m));
    vt::nontrivial(reportsWanted > 1 || !DEBUG);
}

// ------------------------------------------------------------------------------------------- C35
namespace {
enum Call { KNotify, KNotifyAll, KWait, KTryWait, KWaitFor, KReset, KLock, KUnlock, KTryLock, KTryLockFor, KValid, KNative, CALLS };
struct CallLog { int n[CALLS]; int64_t arg; };
CallLog g_log; // calls seen by the layers since the last clear(); single threaded
void clear() { memset(&g_log, 0, sizeof g_log); }
void seen(Call c, int64_t a = 0) { g_log.n[c]++; g_log.arg = a; }

// A layer: sees every operation and carries a value of its own
template <template <typename> class Storage> struct Layers {
    template <class Impl> class layer : public Storage<Impl> {
        using Base = Storage<Impl>;
    protected:
        template <class... A> layer(A &&...a) : Base(std::forward<A>(a)...) {}
        layer(layer &&) = default;
        layer &operator=(layer &&) = default;
        auto getNativeHandle() const { seen(KNative); return Base::getNativeHandle(); }
        bool isValid() const { seen(KValid); return Base::isValid(); }
        template <class... A> void notify(A... a) { seen(KNotify, (int64_t(a) + ... + 0)); Base::notify(a...); }
        void notifyAll() { seen(KNotifyAll); Base::notifyAll(); }
        bool wait() { seen(KWait); return Base::wait(); }
        bool tryWait() { seen(KTryWait); return Base::tryWait(); }
        template <class R, class P> bool waitFor(const duration<R, P> &d) { seen(KWaitFor, duration_cast<nanoseconds>(d).count()); return Base::waitFor(d); }
        void reset() { seen(KReset); Base::reset(); }
        bool lock() { seen(KLock); return Base::lock(); }
        void unlock() { seen(KUnlock); Base::unlock(); }
        bool tryLock() { seen(KTryLock); return Base::tryLock(); }
        template <class R, class P> bool tryLockFor(const duration<R, P> &d) { seen(KTryLockFor, duration_cast<nanoseconds>(d).count()); return Base::tryLockFor(d); }
    public:
        std::unique_ptr<int64_t> own = std::make_unique<int64_t>(-1); // moves with the object
    };
};
template <class I> using LocalLayer = Layers<oqpi::local_sync_object>::layer<I>;
template <class I> using GlobalLayer = Layers<oqpi::global_sync_object>::layer<I>;
// a layer on top of a layer
template <class I> struct SecondLayer : LocalLayer<I> {
    template <class... A> SecondLayer(A &&...a) : LocalLayer<I>(std::forward<A>(a)...) {}
    SecondLayer(SecondLayer &&) = default; SecondLayer &operator=(SecondLayer &&) = default;
    bool wait() { vt::cellAdd(50, 1); return LocalLayer<I>::wait(); }
    int64_t second = -1;
};
void expectCall(const char *what, Call c, int times = 1) {
    for (int k = 0; k < CALLS; ++k) if (k != KValid && k != KNative) VT_CHECK(g_log.n[k] == (k == c ? times : 0), "layer", "%s made %d calls of kind %d of the layer instead of %d", what, g_log.n[k], k, k == c ? times : 0);
    if (c == KValid || c == KNative) VT_CHECK(g_log.n[c] == times, "layer", "%s made %d calls of the layer instead of %d", what, g_log.n[c], times);
}
template <class T> void commonOps(T &t, bool valid) {
    clear(); VT_CHECK(t.isValid() == valid, "layer", "isValid is %d", !valid); expectCall("isValid", KValid);
    clear(); auto h = t.getNativeHandle(); VT_CHECK((h != nullptr) == valid, "layer", "the native handle of %s object", valid ? "a valid" : "an invalid"); expectCall("getNativeHandle", KNative);
}
enum Which { Sem, AutoEv, ManualEv, Mtx };
template <template <class> class L, Which W> using Sync = std::conditional_t<W == Sem, oqpi::semaphore_interface<L>, std::conditional_t<W == Mtx, oqpi::mutex_interface<L>, std::conditional_t<W == AutoEv, oqpi::auto_reset_event_interface<L>, oqpi::manual_reset_event_interface<L>>>>;
template <class T, Which W> constexpr bool requiresImpl() { return std::is_same_v<T, Sync<LocalLayer, W>> || std::is_same_v<T, Sync<GlobalLayer, W>> || std::is_same_v<T, Sync<SecondLayer, W>>; }
struct Slot { int64_t count = 0, tag = -1; bool valid = true; };
template <class T> constexpr bool requiresSem = requiresImpl<T, Sem>();
template <class T> constexpr bool requiresManual = requiresImpl<T, ManualEv>();
template <class T, class Make> void layeredHistory(int kind /* 0 sem 1 auto 2 manual 3 mutex */, Make make) {
    int n = vt::range(1, 3); std::vector<T> os; std::vector<Slot> ms((size_t)n); os.reserve((size_t)n); int moves = 0, waits = 0;
    for (int i = 0; i < n; ++i) { os.push_back(make(i, ms[(size_t)i])); ms[(size_t)i].tag = 100 + i; VT_CHECK(os.back().own && *os.back().own == -1, "layer", "the layer of a new object is not"); *os.back().own = 100 + i; }
    int steps = sized(2, 16, 80);
    for (int k = 0; k < steps; ++k) {
        size_t i = vt::pick((uint32_t)n); T &o = os[i]; Slot &m = ms[i];
        int what = (int)vt::pick(8);
        vt::describe(" %zu:%d", i, what);
        if (what == 0) { commonOps(o, m.valid); continue; }
        if (what == 1 && n > 1) { // move
            size_t j = vt::pick((uint32_t)n); if (i == j) continue;
            bool viaCtor = vt::chance(1, 2);
            clear();
            if (viaCtor) { T x(std::move(o)); os[j] = std::move(x); } else os[j] = std::move(o);
            ms[j] = m; m = Slot{0, -1, false}; ++moves;
            VT_CHECK(os[j].isValid() == ms[j].valid && !o.isValid(), "layer", "validity is not moved");
            VT_CHECK((os[j].own ? *os[j].own : -1) == ms[j].tag, "layer", "what belongs to a layer is %lld after a move instead of %lld", (long long)(os[j].own ? *os[j].own : -1), (long long)ms[j].tag);
            VT_CHECK(!o.own, "layer", "what belongs to a layer was not moved");
            continue;
        }
        if (!m.valid) continue;
        clear();
        bool avail = m.count > 0; int64_t ns = vt::range(0, 3) * 1000;
        auto took = [&](bool ok, const char *name) { ++waits; VT_CHECK(ok == avail, "layer", "%s returned %d with %lld available", name, ok, (long long)m.count); if (ok && kind != 2) --m.count; };
        if constexpr (std::is_same_v<T, oqpi::mutex_interface<GlobalLayer>>) {
            switch (what) {
            case 2: if (avail) { bool r = o.lock(); expectCall("lock", KLock); took(r, "lock"); } break;
            case 3: { bool r = vt::chance(1, 2) ? o.tryLock() : o.try_lock(); expectCall("tryLock", KTryLock); took(r, "tryLock"); break; }
            case 4: { bool r = vt::chance(1, 2) ? o.tryLockFor(nanoseconds(ns)) : o.try_lock_for(nanoseconds(ns)); expectCall("tryLockFor", KTryLockFor); VT_CHECK(g_log.arg == ns, "layer", "tryLockFor passed another duration"); took(r, "tryLockFor"); break; }
            case 5: { auto tp = steady_clock::now() + nanoseconds(ns); bool r = vt::chance(1, 2) ? o.tryLockUntil(tp) : o.try_lock_until(tp); expectCall("tryLockUntil", KTryLockFor); took(r, "tryLockUntil"); break; }
            default: if (!avail) { o.unlock(); expectCall("unlock", KUnlock); m.count = 1; }
            }
        } else {
            switch (what) {
            case 2: if (avail) { bool r = o.wait(); expectCall("wait", KWait); took(r, "wait"); } break;
            case 3: { bool r = o.waitFor(nanoseconds(ns)); expectCall("waitFor", KWaitFor); VT_CHECK(g_log.arg == ns, "layer", "waitFor passed another duration"); took(r, "waitFor"); break; }
            case 4: { bool r = o.waitUntil(steady_clock::now() + nanoseconds(ns)); expectCall("waitUntil", KWaitFor); took(r, "waitUntil"); break; }
            default:
                if (kind == 0) {
                    if constexpr (requiresSem<T>) {
                        if (what == 5) { bool r = o.tryWait(); expectCall("tryWait", KTryWait); took(r, "tryWait"); break; }
                        if (m.count > 1000) break;
                        int form = (int)vt::pick(3), c = vt::range(0, 5);
                        if (form == 0) { o.notify(c); m.count += c; expectCall("notify", KNotify); VT_CHECK(g_log.arg == c, "layer", "notify(%d) was passed on as notify(%lld)", c, (long long)g_log.arg); }
                        else if (form == 1) { o.notifyOne(); ++m.count; expectCall("notifyOne", KNotify); VT_CHECK(g_log.arg == 1, "layer", "notifyOne was passed on as notify(%lld)", (long long)g_log.arg); }
                        else { o.notifyAll(); m.count += 7; expectCall("notifyAll", KNotifyAll); }
                    }
                } else if (kind == 2 && what == 5) { if constexpr (requiresManual<T>) { o.reset(); expectCall("reset", KReset); m.count = 0; } }
                else if constexpr (!requiresSem<T>) { o.notify(); expectCall("notify", KNotify); m.count = 1; }
            }
        }
    }
    for (int i = 0; i < n; ++i) { VT_CHECK(os[(size_t)i].isValid() == ms[(size_t)i].valid, "layer", "validity changed"); if (ms[(size_t)i].valid) VT_CHECK(*os[(size_t)i].own == ms[(size_t)i].tag, "layer", "what belongs to a layer changed"); }
    vt::nontrivial(waits > 0 || moves > 0);
}
std::string objName(int i) { return "layered" + std::to_string(i); }
constexpr auto CREATE = oqpi::sync_object_creation_options::create_if_nonexistent;
template <template <class> class L> void layeredLocal(int kind) {
    auto count = [](Slot &m) { m.count = vt::range(0, 5); return (int32_t)m.count; };
    switch (kind) {
    case 0: layeredHistory<Sync<L, Sem>>(0, [&](int, Slot &m) { return Sync<L, Sem>(count(m), 7); }); break;
    case 1: layeredHistory<Sync<L, AutoEv>>(1, [&](int, Slot &) { return Sync<L, AutoEv>(); }); break;
    default: layeredHistory<Sync<L, ManualEv>>(2, [&](int, Slot &) { return Sync<L, ManualEv>(); });
    }
}
template <class T> void expectName(T &t, int i) { VT_CHECK(t.getName() == objName(i), "layer", "a global object is named %s instead of %s", t.getName().c_str(), objName(i).c_str()); }
} // namespace
VT_SCENARIO(C35, local, 2) {
    int kind = (int)vt::pick(3); vt::describe("local %d:", kind);
    layeredLocal<LocalLayer>(kind);
}
VT_SCENARIO(C35, stacked, 1) {
    int kind = (int)vt::pick(3); vt::describe("two layers, %d:", kind);
    layeredLocal<SecondLayer>(kind);
}
VT_SCENARIO(C35, global, 2) {
    int kind = (int)vt::pick(4); vt::describe("global %d:", kind);
    switch (kind) {
    case 0: layeredHistory<Sync<GlobalLayer, Sem>>(0, [&](int i, Slot &m) { m.count = vt::range(0, 5); Sync<GlobalLayer, Sem> s(objName(i), CREATE, (int32_t)m.count, 7); expectName(s, i); return s; }); break;
    case 1: layeredHistory<Sync<GlobalLayer, AutoEv>>(1, [&](int i, Slot &) { Sync<GlobalLayer, AutoEv> s(objName(i), CREATE); expectName(s, i); return s; }); break;
    case 2: layeredHistory<Sync<GlobalLayer, ManualEv>>(2, [&](int i, Slot &) { Sync<GlobalLayer, ManualEv> s(objName(i), CREATE); expectName(s, i); return s; }); break;
    default: layeredHistory<Sync<GlobalLayer, Mtx>>(3, [&](int i, Slot &m) { bool lock = vt::chance(1, 2); m.count = !lock; Sync<GlobalLayer, Mtx> s(objName(i), CREATE, lock); expectName(s, i); return s; });
    }
}
// Threads: what belongs to the layer and the thread itself are moved together
namespace {
template <class Base> struct TagLayer : Base {
    TagLayer() = default;
    TagLayer(TagLayer &&) = default;
    TagLayer &operator=(TagLayer &&) = default;
    std::unique_ptr<int64_t> tag = std::make_unique<int64_t>(-1);
};
template <class Base> struct TagLayer2 : TagLayer<Base> { int64_t second = -1; };
template <class T> void threadMoves() {
    static_assert(!T::is_lean && oqpi::thread_interface<>::is_lean, "");
    int n = vt::range(1, 4), moves = 0; std::vector<T> ts((size_t)n); struct M { bool running = false; int64_t tag = -1; int run = -1; }; std::vector<M> ms((size_t)n);
    int started = 0, steps = vt::range(2, 14);
    for (int k = 0; k < steps; ++k) {
        size_t i = vt::pick((uint32_t)n), j = vt::pick((uint32_t)n);
        switch (vt::pick(4)) {
        case 0: if (!ms[i].running) {
            int id = started++; vt::describe(" start(%zu)", i);
            T t(oqpi::thread_attributes("t" + std::to_string(id)), [id] { vt::yield(); vt::cellAdd(200 + id, 1); });
            VT_CHECK(t.tag && *t.tag == -1, "layer", "the layer of a new thread is not constructed");
            *t.tag = 1000 + id; ts[i] = std::move(t);
            VT_CHECK(!t.joinable() && !t.tag, "layer", "a layer was not moved along with its thread"); ms[i] = {true, 1000 + id, id};
            break; }
            break;
        case 1: case 2: if (i != j && !ms[j].running) {
            vt::describe(" move(%zu->%zu)", i, j);
            if (vt::chance(1, 2)) { T t(std::move(ts[i])); VT_CHECK((t.tag ? *t.tag : -1) == ms[i].tag || !ms[i].running, "layer", "a layer was not moved along with its thread"); ts[j] = std::move(t); }
            else ts[j] = std::move(ts[i]);
            ms[j] = ms[i]; ms[i].running = false; moves += ms[j].running; }
            break;
        default: if (ms[i].running) { vt::describe(" join(%zu)", i); ts[i].join(); VT_CHECK(vt::cell(200 + ms[i].run) == 1, "layer", "a joined thread has run %lld times", (long long)vt::cell(200 + ms[i].run)); ms[i].running = false; }
        }
        for (size_t x = 0; x < (size_t)n; ++x) {
            VT_CHECK(ts[x].joinable() == ms[x].running, "layer", "joinable is %d", !ms[x].running);
            if (ms[x].running) VT_CHECK(ts[x].tag && *ts[x].tag == ms[x].tag, "layer", "the layer of a thread carries %lld instead of %lld", (long long)(ts[x].tag ? *ts[x].tag : -1), (long long)ms[x].tag);
        }
    }
    for (size_t x = 0; x < (size_t)n; ++x) if (ms[x].running) ts[x].join();
    for (int k = 0; k < started; ++k) VT_CHECK(vt::cell(200 + k) == 1, "layer", "a thread has run %lld times", (long long)vt::cell(200 + k));
    vt::nontrivial(moves > 0);
}
} // namespace
VT_SCENARIO(C35, threads, 2) { if (vt::chance(1, 2)) threadMoves<oqpi::thread_interface<TagLayer>>(); else threadMoves<oqpi::thread_interface<TagLayer2>>(); }
// No layer at all: the object is the platform's implementation itself
VT_SCENARIO(C35, lean, 1) {
    using S = oqpi::semaphore_interface<oqpi::empty_layer>; using M = oqpi::mutex_interface<oqpi::empty_layer>;
    using E = oqpi::auto_reset_event_interface<oqpi::empty_layer>; using R = oqpi::manual_reset_event_interface<oqpi::empty_layer>;
    static_assert(S::is_lean && M::is_lean && E::is_lean && R::is_lean && !oqpi::semaphore_interface<>::is_lean, "");
    auto opt = vt::chance(1, 2) ? CREATE : oqpi::sync_object_creation_options::open_or_create;
    int32_t c = vt::range(0, 5); int n = vt::range(1, 12), kind = (int)vt::pick(4); bool locked = vt::chance(1, 2), sig = false; int64_t done = 0;
    S s("leans", opt, c, 9); M m("leanm", opt, locked); E e("leane", opt); R r("leanr", opt);
    VT_CHECK(s.isValid() && m.isValid() && e.isValid() && r.isValid(), "layer", "an object without layers is not valid");
    vt::describe("lean %d (%d, %d):", kind, c, locked);
    for (int k = 0; k < n; ++k) {
        int w = (int)vt::pick(3); vt::describe(" %d", w);
        switch (kind) {
        case 0: if (w == 0) { s.notify(2); c += 2; } else { bool ok = w == 1 ? s.tryWait() : s.waitFor(nanoseconds(50)); VT_CHECK(ok == (c > 0), "layer", "a lean semaphore has %d available", !ok); c -= ok; done += ok; } break;
        case 1: if (w == 0) { if (locked) { m.unlock(); locked = false; } } else { bool ok = w == 1 ? m.tryLock() : m.try_lock_for(nanoseconds(50)); VT_CHECK(ok != locked, "layer", "a lean mutex was locked %d", locked); locked = true; done += ok; } break;
        case 2: if (w == 0) { if (!sig) e.notify(); sig = true; } else { bool ok = e.waitFor(nanoseconds(w * 20)); VT_CHECK(ok == sig, "layer", "a lean event was signalled %d", ok); sig = false; done += ok; } break;
        default: if (w == 0) { r.notify(); sig = true; } else if (w == 1) { r.reset(); sig = false; } else { bool ok = r.waitFor(nanoseconds(50)); VT_CHECK(ok == sig, "layer", "a lean event was signalled %d", ok); done += ok; }
        }
    }
    vt::nontrivial(done > 0);
}

// ------------------------------------------------------------------------------------------- C36
namespace {
int reportsIn(const std::string &e) { int n = 0; for (size_t i = 0; i < e.size(); ++i) n += e.compare(i, 6, "[error") == 0 || e.compare(i, 6, "[warni") == 0; return n; }
// Judges one operation: what it printed, given whether a call of the system failed during it.
struct Watch {
    Capture c; int before = vt::failuresDelivered(); std::string text;
    bool failed() const { return vt::failuresDelivered() > before; }
    void expect(bool report, const char *what) {
        text = c.err();
        if (report) VT_CHECK(reportsIn(text) > 0, "unreported", "%s failed without a report", what);
        else VT_CHECK(text.empty() && c.n == 0, "spurious-report", "%s succeeded and reported \"%s\"", what, text.substr(0, 200).c_str());
    }
};
enum OKind { OSem, OMtx, OAuto, OManual };
template <class S, class M, class A, class R> struct Objs { std::unique_ptr<S> s; std::unique_ptr<M> m; std::unique_ptr<A> a; std::unique_ptr<R> r; };
template <bool NAMED> void failingObjects() {
    using L = std::conditional_t<NAMED, oqpi::semaphore_interface<oqpi::global_sync_object>, Sema>;
    using M = oqpi::mutex_interface<oqpi::global_sync_object>;
    using A = std::conditional_t<NAMED, oqpi::auto_reset_event_interface<oqpi::global_sync_object>, oqpi::auto_reset_event_interface<>>;
    using R = std::conditional_t<NAMED, oqpi::manual_reset_event_interface<oqpi::global_sync_object>, Event>;
    static const int errs[] = {EINVAL, EPERM, EACCES, ENOMEM, EMFILE, ENOSYS};
    int kind = (int)vt::pick(NAMED ? 4 : 3), steps = sized(2, 14, 60), failures = 0, name = 0; if (!NAMED && kind == 1) kind = 3;
    std::unique_ptr<L> s; std::unique_ptr<M> m; std::unique_ptr<A> a; std::unique_ptr<R> r;
    int64_t count = 0; bool exists = false;
    genPhase();
    if (vt::chance(1, 3)) { vt::enableEintr(1 + vt::pick(300)); vt::describe("EINTR; "); vt::label("interrupted-waits"); }
    auto fail = [&](const char *call, const char *other = nullptr, bool always = false) {
        if (!vt::chance(1, 3)) return;
        int e = errs[vt::pick(6)]; vt::failCall(call, 0, e, always); if (other) vt::failCall(other, 0, e, always); vt::describe("!"); ++failures;
    };
    auto noFail = [] { for (auto *c : {"sem_init", "sem_open", "sem_post", "sem_wait", "sem_trywait", "sem_timedwait"}) vt::failCall(c, -1, 0); };
    static const char *kn[] = {"semaphore", "mutex", "auto-reset event", "manual-reset event"};
    vt::describe("%s %s:", NAMED ? "named" : "local", kn[kind]);
    for (int i = 0; i < steps; ++i) {
        if (!exists) { // create
            int64_t init = kind == OSem ? (vt::chance(1, 6) ? (int64_t)0x7fffffff : (int64_t)vt::pick(4)) : kind == OMtx ? (int64_t)vt::pick(2) : 0;
            vt::describe(" create(%lld)", (long long)init);
            std::string n = "o" + std::to_string(name);
            if (NAMED && vt::chance(1, 12)) { vt::failCall("sem_open", 0, ENOENT, true); vt::describe("!"); ++failures; } // nowhere to keep named objects
            else fail(NAMED ? "sem_open" : "sem_init", nullptr, vt::chance(1, 2));
            auto opt = vt::chance(1, 3) ? oqpi::sync_object_creation_options::create_if_nonexistent : oqpi::sync_object_creation_options::open_or_create;
            Watch w; bool valid = false;
            if constexpr (NAMED) switch (kind) {
                case OSem: s = std::make_unique<L>(n, opt, (int)init); valid = s->isValid(); break;
                case OMtx: m = std::make_unique<M>(n, opt, init == 0); valid = m->isValid(); break;
                case OAuto: a = std::make_unique<A>(n, opt); valid = a->isValid(); break;
                default: r = std::make_unique<R>(n, opt); valid = r->isValid(); }
            else switch (kind) {
                case OSem: s = std::make_unique<L>((int)init); valid = s->isValid(); break;
                case OAuto: a = std::make_unique<A>(); valid = a->isValid(); break;
                default: r = std::make_unique<R>(); valid = r->isValid(); }
            w.expect(w.failed(), "creating an object");
            VT_CHECK(valid == !w.failed(), "creation", "an object whose creation %s is %svalid", w.failed() ? "failed" : "succeeded", valid ? "" : "in");
            noFail();
            if (valid) { exists = true; count = init; } else { s.reset(); m.reset(); a.reset(); r.reset(); }
            if constexpr (NAMED) if (!valid) { // the name has not come into existence
                Watch w2;
                switch (kind) {
                case OMtx: VT_CHECK(!M(n, oqpi::sync_object_creation_options::open_existing, false).isValid(), "creation", "a name exists although its creation failed"); break;
                default: VT_CHECK(!L(n, oqpi::sync_object_creation_options::open_existing).isValid(), "creation", "a name exists although its creation failed"); }
            }
            continue;
        }
        bool bin = kind == OMtx || kind == OAuto || kind == OManual;
        if constexpr (NAMED) if (vt::chance(1, 8)) { // another object under the name, which may be refused in either of the two calls this takes
            auto o2 = vt::chance(1, 2) ? oqpi::sync_object_creation_options::open_existing : oqpi::sync_object_creation_options::open_or_create; std::string n = "o" + std::to_string(name);
            int nth = vt::chance(1, 2) ? (int)vt::pick(2) : -1; vt::describe(" open(%d)", nth); if (nth >= 0) { vt::failCall("sem_open", nth, errs[vt::pick(6)]); ++failures; }
            Watch w; bool valid;
            if (vt::chance(1, 2)) valid = M(n, o2, vt::chance(1, 2)).isValid(); else valid = L(n, o2, 1).isValid();
            w.expect(w.failed(), "opening an object");
            VT_CHECK(valid == !w.failed(), "creation", "an object whose opening %s is %svalid", w.failed() ? "failed" : "succeeded", valid ? "" : "in");
            noFail(); continue;
        }
        switch (vt::pick(7)) {
        case 0: case 1: { // notify or unlock
            if (kind == OMtx && count) { vt::describe(" -"); break; }
            vt::describe(kind == OMtx ? " unlock" : " notify");
            fail("sem_post");
            Watch w;
            bool full = kind == OSem && count == 0x7fffffff;
            switch (kind) { case OSem: s->notifyOne(); break; case OMtx: m->unlock(); break; case OAuto: a->notify(); break; default: r->notify(); }
            w.expect(w.failed() || full, kind == OMtx ? "an unlock" : "a notification");
            if (!w.failed() && !full) count = bin ? 1 : count + 1;
            break; }
        case 2: { // try
            if (kind == OAuto || kind == OManual) break;
            vt::describe(" try");
            fail("sem_trywait");
            Watch w; bool ok = kind == OSem ? s->tryWait() : m->tryLock();
            w.expect(w.failed(), "a try");
            VT_CHECK(ok == (!w.failed() && count > 0), "result", "a try returned %d with %lld available", ok, (long long)count);
            if (ok) --count;
            break; }
        case 3: { // wait
            vt::describe(" wait");
            fail("sem_wait");
            if (!count) { // it has to fail, or it would block
                noFail(); vt::failCall("sem_wait", 0, EINVAL); ++failures; vt::describe("!");
            }
            Watch w; bool ok;
            switch (kind) { case OSem: ok = s->wait(); break; case OMtx: ok = m->lock(); break; case OAuto: ok = a->wait(); break; default: ok = r->wait(); }
            w.expect(w.failed(), "a wait");
            VT_CHECK(ok == !w.failed(), "result", "a wait returned %d", ok);
            if (ok && kind != OManual) --count;
            break; }
        case 4: { // timed wait
            auto d = genDur(); if (d.n > 3000000000ll) d.n = 3000000000ll;
            vt::describe(" waitFor(%lld)", (long long)d.n);
            fail("sem_timedwait");
            Watch w;
            bool ok = withDur(d, [&](auto x) { switch (kind) { case OSem: return s->waitFor(x); case OMtx: return m->tryLockFor(x); case OAuto: return a->waitFor(x); default: return r->waitFor(x); } });
            w.expect(w.failed(), "a timed wait");
            VT_CHECK(ok == (!w.failed() && count > 0), "result", "a timed wait returned %d with %lld available", ok, (long long)count);
            if (ok && kind != OManual) --count;
            break; }
        case 5: if (kind == OManual) { vt::describe(" reset"); Watch w; r->reset(); w.expect(false, "a reset"); count = 0; break; }
            [[fallthrough]];
        default: { // what it is now
            if (count > 100) break;
            vt::describe(" drain"); Watch w; int64_t got = 0;
            if (kind == OManual) { got = r->waitFor(nanoseconds(10)); VT_CHECK(got == count, "effect", "an event is %d instead of %lld", (int)got, (long long)count); }
            else { while (got <= 200 && (kind == OSem ? s->tryWait() : kind == OMtx ? m->tryLock() : a->waitFor(nanoseconds(10)))) ++got; VT_CHECK(got == count, "effect", "%lld instead of %lld were available", (long long)got, (long long)count); count = 0; }
            w.expect(false, "trying until nothing is left");
            if (vt::chance(1, 4)) { vt::describe(" destroy"); Watch w2; s.reset(); m.reset(); a.reset(); r.reset(); w2.expect(false, "destroying an object"); exists = false; ++name; }
            break; }
        }
        noFail();
    }
    vt::nontrivial(failures > 0);
}
} // namespace
VT_SCENARIO(C36, local, 2) { failingObjects<false>(); }
VT_SCENARIO(C36, named, 2) { failingObjects<true>(); }
VT_SCENARIO(C36, threads, 2) {
    vt::setCpuCount(8);
    static const int errs[] = {EAGAIN, EPERM, EINVAL, ESRCH, ENOMEM};
    bool rt = vt::chance(1, 2); vt::grantRealtime(rt, 1, 99, vt::chance(1, 2) ? 99 : vt::range(1, 99));
    static const char *attr[] = {"pthread_attr_init", "pthread_attr_setdetachstate", "pthread_attr_setschedpolicy", "getrlimit", "pthread_attr_setschedparam", "pthread_attr_setinheritsched", "pthread_attr_setstacksize"};
    int steps = sized(2, 14, 40), failures = 0, made = 0;
    Thread t; bool joinable = false; vt::Gate gate{}; bool open = true;
    vt::describe("thread:");
    auto fail = [&](const char *call) { if (vt::chance(1, 3)) { vt::failCall(call, 0, errs[vt::pick(5)], true); vt::describe("!"); ++failures; } };
    auto noFail = [] { for (auto *c : {"pthread_create", "pthread_join", "pthread_detach", "pthread_cancel", "pthread_setaffinity_np", "pthread_setname_np"}) vt::failCall(c, -1, 0); for (auto *c : attr) vt::failCall(c, -1, 0); };
    unsigned mask = 0;
    for (int i = 0; i < steps; ++i) {
        switch (vt::pick(8)) {
        case 0: case 1: { // create
            if (joinable || made >= 12) { vt::describe(" -"); break; }
            ++made; vt::describe(" create");
            bool only = vt::chance(1, 2); // only attributes are refused
            if (!only) fail("pthread_create");
            else if (vt::chance(1, 2)) { const char *c = attr[vt::pick(7)]; vt::failCall(c, 0, errs[vt::pick(5)]); vt::describe("(%s!)", c); ++failures; }
            gate = vt::makeGate(); open = false; auto g = gate; int id = made;
            mask = 1 + vt::pick(255);
            Watch w;
            { oqpi::thread_attributes at("t" + std::to_string(id)); at.coreAffinityMask_ = oqpi::core_affinity(mask);
              if (vt::chance(1, 3)) { at.stackSize_ = vt::chance(1, 3) ? 100 : 65536; vt::describe("(stack %u)", at.stackSize_); }
              if (vt::chance(1, 2)) { at.priority_ = oqpi::thread_priority(vt::pick(6)); vt::describe("(priority %d)", (int)at.priority_); }
              t = Thread(at, [g, id] { vt::passGate(g); vt::cellAdd(id, 1); }); }
            w.expect(w.failed(), "creating a thread");
            if (only) VT_CHECK(t.joinable(), "creation", "a thread some attribute of which was refused is not joinable");
            else VT_CHECK(t.joinable() || w.failed(), "creation", "a thread whose creation succeeded is not joinable");
            joinable = t.joinable();
            break; }
        case 2: { // join
            vt::describe(" join");
            fail("pthread_join");
            if (joinable && !open) { vt::openGate(gate); open = true; }
            Watch w; t.join();
            w.expect(w.failed() || !joinable, "joining a thread");
            if (!w.failed()) joinable = false;
            VT_CHECK(t.joinable() == joinable, "effect", "a thread is %sjoinable after a join that %s", t.joinable() ? "" : "not ", w.failed() ? "failed" : "succeeded");
            break; }
        case 3: { // detach
            if (vt::chance(1, 2)) { vt::describe(" -"); break; }
            vt::describe(" detach");
            fail("pthread_detach");
            Watch w; t.detach();
            w.expect(w.failed() || !joinable, "detaching a thread");
            if (!w.failed()) { if (joinable && !open) { vt::openGate(gate); open = true; } joinable = false; }
            VT_CHECK(t.joinable() == joinable, "effect", "a thread is %sjoinable after a detach that %s", t.joinable() ? "" : "not ", w.failed() ? "failed" : "succeeded");
            break; }
        case 5: { // a thread that joins itself
            if (joinable || made >= 12) { vt::describe(" -"); break; }
            ++made; vt::describe(" joins-itself");
            gate = vt::makeGate(); auto g = gate;
            t = Thread("self", [g, &t] {
                vt::passGate(g);
                Watch w; t.join(); w.expect(true, "joining the calling thread");
                VT_CHECK(t.joinable(), "effect", "a thread is not joinable after joining itself");
            });
            mask = 0xff; joinable = true;
            vt::openGate(gate); open = true; vt::settle();
            break; }
        case 6: { // terminate
            if (vt::chance(1, 2)) { vt::describe(" -"); break; }
            vt::describe(" terminate");
            fail("pthread_cancel");
            Watch w; t.terminate();
            w.expect(w.failed() || !joinable, "terminating a thread");
            if (!w.failed()) { if (joinable && !open) { vt::openGate(gate); open = true; } joinable = false; }
            VT_CHECK(t.joinable() == joinable, "effect", "a thread is %sjoinable after a termination that %s", t.joinable() ? "" : "not ", w.failed() ? "failed" : "succeeded");
            break; }
        case 4: { // pin
            if (!joinable) { vt::describe(" -"); break; }
            vt::describe(" pin");
            fail("pthread_setaffinity_np");
            unsigned n = 1 + vt::pick(255);
            Watch w; t.setCoreAffinityMask(oqpi::core_affinity(n));
            w.expect(w.failed(), "pinning a thread");
            if (!w.failed()) mask = n;
            VT_CHECK((unsigned)t.getCoreAffinityMask() == mask, "effect", "the mask of a thread is %x instead of %x", (unsigned)t.getCoreAffinityMask(), mask);
            break; }
        default: { // name the calling thread
            std::string n((size_t)vt::pick(24), 'a' + (char)vt::pick(26)); vt::describe(" name(%zu)", n.size());
            fail("pthread_setname_np");
            std::string was = vt::nameOf(vt::self());
            Watch w; oqpi::this_thread::set_name(n.c_str());
            bool ok = !w.failed() && n.size() <= 15;
            w.expect(!ok, "naming a thread");
            VT_CHECK(vt::nameOf(vt::self()) == (ok ? n : was), "effect", "the thread is named '%s'", vt::nameOf(vt::self()));
            break; }
        }
        noFail();
    }
    if (joinable) { if (!open) vt::openGate(gate); t.join(); }
    vt::settle();
    vt::nontrivial(failures > 0);
}
// ordinary use of everything reports nothing
VT_SCENARIO(C36, silence, 1) {
    GraphOpts o; o.maxNodes = 8; Graph g(o);
    auto w = genWorkers(2, 3);
    if (vt::chance(1, 3)) { vt::enableEintr(1 + vt::pick(300)); vt::describe("EINTR; "); }
    g.generate(1, 3); g.describe();
    Watch wa;
    drive(g, w, Ops{}, false);
    wa.expect(false, "executing tasks");
    vt::nontrivial(g.all.size() > 1);
}
