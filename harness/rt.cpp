// See rt.h. This file must not be compiled with -fsanitize=thread, and must not instantiate any
// standard library template (the linker would merge it with an instrumented instantiation).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <algorithm>
#include <initializer_list>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unwind.h>

// The state of the runtime lives in sections of its own: everything else is reset between cases.
#pragma clang section bss = "vtbss" data = "vtdata"

#define NOINL __attribute__((noinline))
#define ALW inline __attribute__((always_inline))
#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" char __data_start, _end, __executable_start, __start_vtbss, __stop_vtbss, __start_vtdata, __stop_vtdata;
extern "C" char __libc_single_threaded;

extern "C" void vt_switch(void **saveSp, void *newSp);
extern "C" void vt_start();
extern "C" void vt_fiberMain() noexcept;
asm(R"(
.text
.globl vt_switch
.type vt_switch,@function
vt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vt_switch,.-vt_switch
.globl vt_start
.type vt_start,@function
vt_start:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call vt_fiberMain
    ud2
    .cfi_endproc
.size vt_start,.-vt_start
)");

namespace {

// ------------------------------------------------------------------------------- small helpers
template <class T> struct Vec {
    T *d = nullptr; size_t n = 0, cap = 0;
    void push(const T &v) {
        if (n == cap) { cap = cap ? cap * 2 : 64; d = (T *)realloc((void *)d, cap * sizeof(T)); }
        d[n++] = v;
    }
    T &operator[](size_t i) { return d[i]; }
    void clear() { n = 0; }
};

struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * (uint64_t)n >> 32) : 0; }
};
uint64_t mix(uint64_t a, uint64_t b) { Rng r{a * 0x9E3779B97F4A7C15ull + b}; r.next(); return r.next(); }
uint64_t hashStr(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }

constexpr int MAXF = 64;
struct VC { uint32_t c[MAXF]; };

enum St : uint8_t { Unused, Ready, Blocked, Settling, Done };
enum WaitKind : uint8_t { WNone, WSem, WMutex, WJoin, WSleep, WCond, WGate, WFutex, WGuard, WRw };
enum Reason : uint8_t { RWoken, RTimeout, RIntr };

struct TlsDtor { void (*fn)(void *); void *obj; };

struct Fiber {
    void *sp;
    St st; WaitKind wk; Reason reason; bool raw, isDetached, joined, created, cancelled, unwinding;
    const void *wobj;
    int64_t deadline;
    VC vc, acq, rel; bool hasAcq, hasRel;
    int err;
    char *tls;
    void *(*fn)(void *); void *arg; void *ret;
    uint64_t pctPrio;
    int quiet;
    char name[32];
    size_t stackSize; uint64_t affinity; int prio; int policy;
    bool intrArmed;
    Vec<TlsDtor> dtors;
    uintptr_t calls[128]; int depth;
    int spin;
};

// memory regions
constexpr uintptr_t ARENA = 0x100000000000ull; constexpr size_t ARENA_SZ = 1ull << 30;
constexpr uintptr_t STK   = 0x200000000000ull; constexpr size_t STK_ONE = 1024 * 1024; constexpr size_t STK_SZ = (MAXF + 1) * STK_ONE;
constexpr uintptr_t SEMS  = 0x300000000000ull; constexpr size_t SEMS_SZ = 1 << 20;

struct Ent { uint64_t pcfid; uint32_t epoch; uint8_t mask; uint8_t flags; uint16_t pad; };
struct Cell { uint32_t gen; uint32_t n; Ent e[4]; };
Cell *shArena, *shStk, *shGlob; uint8_t *aState; // 1 byte per 8 arena bytes
uintptr_t gLo, gHi;

struct Blk { uint64_t magic; uint64_t size; void *pc; uint32_t gen; uint32_t flags; }; // 32 bytes
constexpr uint64_t MAGIC_LIVE = 0xA11CA7EDA11CA7EDull, MAGIC_DEAD = 0xDEADB10CDEADB10Cull;

struct Sync { uintptr_t addr; uint32_t gen; int lastRel; VC vc; };
constexpr int SYNCS = 1 << 13;
Sync *syncs;

struct NamedSem { char name[256]; int value; int opens; bool unlinked; bool used; bool openable; sem_t *mem; };
struct SemMem { uint32_t magic; int32_t value; int32_t named; };
constexpr uint32_t SEM_LIVE = 0x53454D31, SEM_DEAD = 0x53454D00;

struct Dec { uint64_t pt; uint32_t v; };
struct FailSpec { char name[32]; int nth; int err; bool always; };
struct CallCount { char name[32]; int n; };

struct G {
    bool active = false;
    uint32_t gen = 0;
    Fiber f[MAXF];
    int nF = 0, cur = 0;
    uint64_t ready = 0;
    void *rootSp = nullptr;
    uint64_t steps = 0, points = 0, plain = 0;
    uint64_t maxSteps = 60000;
    bool fair = false;
    bool allowDl = false, dead = false;
    int64_t now = 0, wallOff = 0, drift = 20;
    int races = 0; uintptr_t watchLo[256], watchHi[256]; int nWatch = 0;
    bool jumps = false; uint32_t eintr = 0; uint64_t eintrs = 0;
    bool leak = true;
    bool discarded = false, nontriv = false;
    int strat = 0; uint32_t pKind[4] = {0, 0, 0, 0}; bool plainSw = false;
    uint64_t pctPts[8]; int nPct = 0; uint64_t pctLow = 0;
    int atomicDepth = 0;
    uintptr_t arenaTop = ARENA + 64, arenaBase = ARENA + 64; int64_t liveBlk = 0, liveTracked = 0;
    uintptr_t semTop = SEMS + 64; int liveSem = 0; int64_t semOps = 0;
    int gates[1024]; int nGates = 0; VC gateVc[8];
    bool rt = false; int rtMin = 1, rtMax = 99, rtLimit = 99; int cpus = 8; bool expectTraps = false; int64_t traps = 0;
    uint64_t schedHash = 0;
} g;

Vec<TlsDtor> exitDtors; // destructors of statics initialised during the case
Vec<uint32_t> prog; bool replayProg = false; Vec<uint32_t> progIn;
Vec<Dec> decs; bool replaySched = false; Vec<Dec> decsIn; size_t decCur = 0;
Rng progRng, schedRng;
Vec<vt::Ev> evs;
int64_t cells[vt::CELLS]; uint64_t cellsDirty = 0; // bit per 1024 cells
void dirty(int i) { cellsDirty |= 1ull << (i >> 10); }
NamedSem named[128]; int nNamed = 0;
FailSpec fails[32]; int nFails = 0;
CallCount counts[64]; int nCounts = 0; int nDelivered = 0;
char desc[8192]; size_t descN = 0;
const char *caseLabels[64]; int nCaseLabels = 0;
size_t tlsSize = 0; char *tlsAddr = nullptr; const char *tlsInit = nullptr; size_t tlsFile = 0;

// case info
const char *cProp = "", *cScen = ""; uint64_t cSeed = 0; long cIdx = 0, cFrom = 0, cStep = 1;
const char *recPath = nullptr; bool verbose = false; char wantKind[64] = "";
const char *confName =
#ifdef VT_CONF
    VT_CONF;
#else
    "chk";
#endif

Fiber &cur() { return g.f[g.cur]; }
uint64_t bit(int i) { return 1ull << i; }

// ------------------------------------------------------------------------------------- failing
void writeAll(int fd, const char *s, size_t n) { while (n) { ssize_t w = write(fd, s, n); if (w <= 0) return; s += w; n -= w; } }
void outf(int fd, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void outf(int fd, const char *fmt, ...) {
    char b[10000]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (n > 0) writeAll(fd, b, n);
}
struct Bt { int fd; int n; };
_Unwind_Reason_Code btCb(_Unwind_Context *c, void *p) {
    Bt *b = (Bt *)p; uintptr_t ip = _Unwind_GetIP(c);
    if (!ip || b->n++ > 40) return _URC_END_OF_STACK;
    outf(b->fd, " 0x%zx", (size_t)(ip - 1 - (uintptr_t)&__executable_start));
    return _URC_NO_REASON;
}
size_t off(const void *pc) { return (uintptr_t)pc - (uintptr_t)&__executable_start; }
bool failing = false;

[[noreturn]] void die(const char *kind, const char *msg) {
    if (failing) _exit(3);
    failing = true; g.active = false;
    int fd = recPath ? open(recPath, O_CREAT | O_TRUNC | O_WRONLY, 0644) : 2;
    if (fd < 0) fd = 2;
    outf(fd, "prop %s\nscenario %s\nconfig %s\nseed %llu\nidx %ld\nfrom %ld\nstep %ld\nkind %s\n", cProp, cScen, confName,
         (unsigned long long)cSeed, cIdx, cFrom, cStep, kind);
    char m[4096]; snprintf(m, sizeof m, "%s", msg);
    for (char *p = m; *p; ++p) if (*p == '\n') *p = ' ';
    outf(fd, "msg %s\n", m);
    outf(fd, "prog"); for (size_t i = 0; i < prog.n; ++i) outf(fd, " %u", prog[i]); outf(fd, "\n");
    outf(fd, "sched"); for (size_t i = 0; i < decs.n; ++i) outf(fd, " %llu:%u", (unsigned long long)decs[i].pt, decs[i].v); outf(fd, "\n");
    outf(fd, "steps %llu points %llu strat %d\n", (unsigned long long)g.steps, (unsigned long long)g.points, g.strat);
    for (int i = 0; i < g.nF; ++i) {
        Fiber &f = g.f[i];
        static const char *sn[] = {"unused", "ready", "blocked", "settling", "done"};
        static const char *wn[] = {"-", "semaphore", "mutex", "join", "sleep", "cond", "gate", "futex", "static-guard", "rwlock"};
        outf(fd, "fiber %d%s name=%s %s on %s", i, i == g.cur ? "*" : "", f.name[0] ? f.name : "-", sn[f.st], wn[f.wk]);
        outf(fd, " stack:");
        for (int d = f.depth - 1, k = 0; d >= 0 && k < 16; --d, ++k) if (d < 128) outf(fd, " 0x%zx", off((void *)(f.calls[d] - 1)));
        outf(fd, "\n");
    }
    outf(fd, "backtrace"); Bt b{fd, 0}; _Unwind_Backtrace(btCb, &b); outf(fd, "\n");
    outf(fd, "events %zu:", evs.n);
    for (size_t i = evs.n > 80 ? evs.n - 80 : 0; i < evs.n; ++i) outf(fd, " [%d %lld %lld f%d]", evs[i].kind, (long long)evs[i].a, (long long)evs[i].b, evs[i].fiber);
    outf(fd, "\ndesc\n"); writeAll(fd, desc, descN); outf(fd, "\n");
    if (fd != 2) { fsync(fd); close(fd); }
    if (fd != 2 || verbose) outf(1, "FAIL %s scenario=%s kind=%s msg=%s\n", cProp, cScen, kind, m);
    _exit(3);
}

// ----------------------------------------------------------------------------- decision stream
// Returns the decision at this point; dflt is not recorded.
template <class F> ALW uint32_t decide(uint32_t dflt, F rnd) {
    uint64_t pt = g.points++;
    uint32_t v;
    if (replaySched) {
        while (decCur < decsIn.n && decsIn[decCur].pt < pt) ++decCur;
        v = (decCur < decsIn.n && decsIn[decCur].pt == pt) ? decsIn[decCur].v : dflt;
    } else v = rnd();
    if (v != dflt) decs.push({pt, v});
    return v;
}

int nthReady(uint64_t mask, int k) { while (k--) mask &= mask - 1; return __builtin_ctzll(mask); }
int nextReadyAfter(int c, uint64_t mask) {
    uint64_t hi = c + 1 < 64 ? mask & ~((2ull << c) - 1) : 0;
    return __builtin_ctzll(hi ? hi : mask);
}
int pctBest(uint64_t mask) {
    int best = -1; uint64_t bp = 0;
    for (uint64_t m = mask; m; m &= m - 1) { int i = __builtin_ctzll(m); if (best < 0 || g.f[i].pctPrio > bp) { best = i; bp = g.f[i].pctPrio; } }
    return best;
}

void switchTo(int n) {
    if (n == g.cur) return;
    Fiber &a = cur(); Fiber &b = g.f[n];
    a.err = errno;
    memcpy(a.tls, tlsAddr, tlsSize); memcpy(tlsAddr, b.tls, tlsSize);
    g.cur = n; g.schedHash = g.schedHash * 1099511628211ull + n + (g.steps << 8);
    errno = b.err;
    vt_switch(&a.sp, b.sp);
}
void toRoot() { // never returns to the fiber
    Fiber &a = cur();
    vt_switch(&a.sp, g.rootSp);
}

void wakeFiber(int i, Reason r) {
    Fiber &f = g.f[i]; f.st = Ready; f.reason = r; f.wk = WNone; f.deadline = -1; g.ready |= bit(i);
}
int earliestTimer() {
    int b = -1;
    for (int i = 0; i < g.nF; ++i) if (g.f[i].st == Blocked && g.f[i].deadline >= 0 && (b < 0 || g.f[i].deadline < g.f[b].deadline)) b = i;
    return b;
}
bool fireTimers() {
    bool any = false;
    for (int i = 0; i < g.nF; ++i) if (g.f[i].st == Blocked && g.f[i].deadline >= 0 && g.f[i].deadline <= g.now) { wakeFiber(i, RTimeout); any = true; }
    return any;
}
void wakeAll(WaitKind k, const void *obj) {
    for (int i = 0; i < g.nF; ++i) if (g.f[i].st == Blocked && g.f[i].wk == k && g.f[i].wobj == obj) wakeFiber(i, RWoken);
}

void budget() {
    if (UNLIKELY(g.steps > g.maxSteps)) {
        if (!g.fair) g.fair = true;
        else if (g.steps > g.maxSteps + 3000000) {
            if (g.allowDl) { g.dead = true; toRoot(); }
            die("no-progress", "the execution does not end: step limit reached under a fair schedule");
        }
    }
}
// A limit of this runtime, not of the code under test: the case says nothing
[[noreturn]] void overLimit(const char *what) {
    vt::label(what); g.discarded = true; g.dead = true; toRoot(); __builtin_unreachable();
}

// cur is not runnable (or yields for good): pick somebody else
void reschedule() {
    for (;;) {
        if (g.ready) {
            uint64_t m = g.ready;
            int n, d = nextReadyAfter(g.cur, m);
            if ((m & (m - 1)) == 0) n = d;
            else if (g.fair) n = d;
            else {
                n = decide(d, [&]() -> uint32_t {
                    if (g.strat == 1) return pctBest(m);
                    if (g.strat == 3) return d;
                    return nthReady(m, schedRng.below(__builtin_popcountll(m)));
                });
                if (n >= 64 || !(m & bit(n))) n = d;
            }
            switchTo(n);
            return;
        }
        bool settled = false;
        for (int i = 0; i < g.nF; ++i) if (g.f[i].st == Settling) { wakeFiber(i, RWoken); settled = true; break; }
        if (settled) continue;
        int t = earliestTimer();
        if (t >= 0) { if (g.f[t].deadline > g.now) g.now = g.f[t].deadline; fireTimers(); continue; }
        // nobody can run
        bool allDone = true;
        for (int i = 0; i < g.nF; ++i) if (g.f[i].st != Done) allDone = false;
        if (!allDone) {
            if (g.allowDl) { g.dead = true; }
            else if (g.f[0].st == Done) die("stuck-thread", "a thread is blocked forever after the program ended");
            else die("deadlock", "all threads are blocked");
        }
        toRoot();
    }
}

enum PK { PAtomic = 0, PSync = 1, PPlain = 2, PYield = 3 };
NOINL void schedPointSlow(PK k) {
    budget();
    if (g.drift) { g.now += g.drift; }
    if (UNLIKELY(g.jumps) || g.drift) {
        int t = earliestTimer();
        if (t >= 0) {
            if (g.f[t].deadline <= g.now) fireTimers();
            else if (g.jumps) {
                uint32_t j = decide(0, [&]() -> uint32_t { return schedRng.below(64) == 0; });
                if (j) { g.now = g.f[t].deadline; fireTimers(); }
            }
        }
    }
    uint64_t m = g.ready;
    if ((m & (m - 1)) == 0) return;
    int c = g.cur;
    int n;
    if (UNLIKELY(g.fair)) { if (k == PYield || g.steps % 13 == 0) switchTo(nextReadyAfter(c, m)); return; }
    if (k == PYield) {
        n = decide(nextReadyAfter(c, m & ~bit(c)), [&]() -> uint32_t {
            if (g.strat == 1) { g.f[c].pctPrio = g.pctLow ? --g.pctLow : 0; return pctBest(m); }
            return nthReady(m & ~bit(c), schedRng.below(__builtin_popcountll(m) - 1));
        });
    } else {
        n = decide(c, [&]() -> uint32_t {
            switch (g.strat) {
            case 1:
                for (int i = 0; i < g.nPct; ++i) if (g.pctPts[i] == g.steps) { g.f[c].pctPrio = --g.pctLow; break; }
                if (++g.f[c].spin > 3000) { g.f[c].spin = 0; g.f[c].pctPrio = --g.pctLow; }
                return pctBest(m);
            case 2: case 3: return c;
            default:
                if ((schedRng.next() & 1023) < g.pKind[k]) return nthReady(m & ~bit(c), schedRng.below(__builtin_popcountll(m) - 1));
                return c;
            }
        });
    }
    if (n >= 64 || !(m & bit(n))) n = c;
    switchTo(n);
}
ALW void schedPoint(PK k) {
    if (!g.active) return;
    ++g.steps;
    schedPointSlow(k);
}

Reason blockOn(WaitKind k, const void *obj, int64_t deadline, bool intr) {
    Fiber &f = cur();
    budget(); ++g.steps;
    f.spin = 0;
    if (intr && (g.eintr || f.intrArmed)) {
        bool armed = f.intrArmed; f.intrArmed = false;
        uint32_t e = armed ? 1 : decide(0, [&]() -> uint32_t { return schedRng.below(1000) < g.eintr; });
        if (e) { ++g.eintrs; schedPoint(PYield); return RIntr; }
    }
    if (deadline >= 0 && deadline <= g.now) { schedPoint(PSync); return RTimeout; }
    f.st = Blocked; f.wk = k; f.wobj = obj; f.deadline = deadline; g.ready &= ~bit(g.cur);
    reschedule();
    return f.reason;
}

// ---------------------------------------------------------------------------------------- HB
ALW void vcJoin(VC &a, const VC &b) { for (int i = 0; i < g.nF; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
Sync *syncOf(uintptr_t a, bool create) {
    uint32_t h = (uint32_t)((a >> 2) * 0x9E3779B1u) >> 5 & (SYNCS - 1);
    for (int i = 0; i < SYNCS; ++i, h = (h + 1) & (SYNCS - 1)) {
        Sync &s = syncs[h];
        if (s.gen != g.gen) {
            if (!create) return nullptr;
            s.gen = g.gen; s.addr = a; s.lastRel = -1; memset(&s.vc, 0, sizeof s.vc);
            return &s;
        }
        if (s.addr == a) return &s;
    }
    overLimit("limit-syncs");
}
void tick() { cur().vc.c[g.cur]++; }
void hbAcquire(const void *o) { if (!g.races) return; if (Sync *s = syncOf((uintptr_t)o, false)) vcJoin(cur().vc, s->vc); }
void hbRelease(const void *o) { if (!g.races) return; Sync *s = syncOf((uintptr_t)o, true); vcJoin(s->vc, cur().vc); s->lastRel = g.cur; tick(); }
bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void hbLoad(uintptr_t a, int mo) {
    if (!g.races) return;
    Sync *s = syncOf(a, false); if (!s) return;
    Fiber &f = cur();
    if (isAcq(mo)) vcJoin(f.vc, s->vc);
    else { if (!f.hasAcq) { f.hasAcq = true; memset(&f.acq, 0, sizeof f.acq); } vcJoin(f.acq, s->vc); }
}
void hbStore(uintptr_t a, int mo, bool rmw) {
    if (!g.races) return;
    Fiber &f = cur();
    if (isRel(mo)) {
        Sync *s = syncOf(a, true);
        if (!rmw) memset(&s->vc, 0, sizeof s->vc);
        vcJoin(s->vc, f.vc); s->lastRel = g.cur; tick();
    } else {
        Sync *s = syncOf(a, f.hasRel);
        if (!s) return;
        if (!rmw && s->lastRel != g.cur) memset(&s->vc, 0, sizeof s->vc);
        if (f.hasRel) { vcJoin(s->vc, f.rel); s->lastRel = g.cur; }
    }
}

// ------------------------------------------------------------------------------- race detector
bool watched(uintptr_t a) { for (int i = 0; i < g.nWatch; ++i) if (a >= g.watchLo[i] && a < g.watchHi[i]) return true; return false; }
NOINL void reportRace(uintptr_t a, const Ent &o, bool w, bool atomic, void *pc, const char *extra) {
    char b[512];
    int fo = (int)(o.pcfid >> 48);
    snprintf(b, sizeof b, "data race on %p: %s%s by thread %d at pc:0x%zx and earlier %s%s by thread %d at pc:0x%zx%s", (void *)a,
             atomic ? "atomic " : "", w ? "write" : "read", g.cur, off((char *)pc - 1), (o.flags & 2) ? "atomic " : "", (o.flags & 1) ? "write" : "read", fo,
             off((char *)(o.pcfid & 0xFFFFFFFFFFFFull) - 1), extra);
    die("race", b);
}
ALW void shadow(Cell *c, uintptr_t a, uint8_t mask, bool w, bool atomic, void *pc, bool freeing = false) {
    if (c->gen != g.gen) { c->gen = g.gen; c->n = 0; }
    Fiber &f = cur();
    int repl = -1;
    for (uint32_t i = 0; i < c->n; ++i) {
        Ent &e = c->e[i];
        int fo = (int)(e.pcfid >> 48);
        if (fo == g.cur) { if ((e.mask & ~mask) == 0 && (e.flags == (uint8_t)(w | atomic << 1) || (w && !atomic))) repl = i; continue; }
        bool hb = e.epoch <= f.vc.c[fo];
        if (!hb) {
            if ((e.mask & mask) && ((e.flags & 1) || w) && !((e.flags & 2) && atomic)) reportRace(a, e, w, atomic, pc, freeing ? " (memory released)" : "");
        } else if (repl < 0 && (w || !(e.flags & 1)) && (e.mask & ~mask) == 0) repl = i;
    }
    Ent n{((uint64_t)g.cur << 48) | ((uintptr_t)pc & 0xFFFFFFFFFFFFull), f.vc.c[g.cur], mask, (uint8_t)(w | atomic << 1), 0};
    if (repl >= 0) c->e[repl] = n;
    else if (c->n < 4) c->e[c->n++] = n;
    else c->e[(g.plain + c->n) & 3] = n;
}
ALW void race8(uintptr_t a, unsigned size, bool w, bool atomic, void *pc, Cell *base, uintptr_t lo) {
    uintptr_t end = a + size;
    while (a < end) {
        uintptr_t gr = a & ~7ull; unsigned o = a - gr; unsigned n = 8 - o; if (n > end - a) n = end - a;
        shadow(&base[(gr - lo) >> 3], a, (uint8_t)(((1u << n) - 1) << o), w, atomic, pc);
        a += n;
    }
}
NOINL void badAccess(uintptr_t a, unsigned size, bool w, void *pc) {
    uint8_t st = aState[(a - ARENA) >> 3];
    char b[400]; const char *k = st == 0xFD ? "use-after-free" : "out-of-bounds";
    snprintf(b, sizeof b, "%s: %s of %u bytes at %p by thread %d, pc:0x%zx", k, w ? "write" : "read", size, (void *)a, g.cur, off((char *)pc - 1));
    die(k, b);
}
ALW void checkAlive(uintptr_t a, unsigned size, bool w, void *pc) {
    uintptr_t end = a + size;
    while (a < end) {
        uint8_t st = aState[(a - ARENA) >> 3]; unsigned o = a & 7; unsigned n = 8 - o; if (n > end - a) n = end - a;
        if (UNLIKELY(st > 8 || o + n > st)) badAccess(a, size, w, pc);
        a += n;
    }
}
ALW void access(const volatile void *p, unsigned size, bool w, bool atomic, void *pc) {
    if (!g.active) return;
    uintptr_t a = (uintptr_t)p;
    Cell *base; uintptr_t lo;
    if (a - ARENA < ARENA_SZ) {
        if (a - ARENA + size > ARENA_SZ) badAccess(a, size, w, pc);
        checkAlive(a, size, w, pc); base = shArena; lo = ARENA;
    } else if (a - STK < STK_SZ) { base = shStk; lo = STK; }
    else if (a >= gLo && a < gHi) { base = shGlob; lo = gLo; }
    else { if (UNLIKELY(a < 4096)) { char b[100]; snprintf(b, sizeof b, "null dereference at pc:0x%zx", off((char *)pc - 1)); die("crash", b); } return; }
    if (UNLIKELY(++g.plain > 30000000)) die("hang", "runaway computation: memory access limit reached");
    if (!atomic && g.plainSw && !(a - STK < STK_SZ && (a - STK) / STK_ONE == (uintptr_t)g.cur)) { schedPoint(PPlain); if (lo == ARENA) checkAlive(a, size, w, pc); }
    if (g.races == 1 || (g.races == 2 && watched(a))) race8(a, size, w, atomic, pc, base, lo);
}

// -------------------------------------------------------------------------------------- arena
void *arenaAlloc(size_t n, size_t align, void *pc) {
    uintptr_t p = g.arenaTop + sizeof(Blk);
    if (align < 16) align = 16;
    p = (p + align - 1) & ~(uintptr_t)(align - 1);
    size_t rn = (n + 7) & ~7ull; if (!rn) rn = 8;
    if (n > (256u << 20) || p + rn + 16 > ARENA + ARENA_SZ) { if (g.active) die("memory", "allocation limit exceeded"); return nullptr; }
    Blk *b = (Blk *)(p - sizeof(Blk));
    *b = Blk{MAGIC_LIVE, n, pc, g.gen, (uint32_t)(cur().quiet ? 1 : 0)};
    size_t gr = (p - ARENA) >> 3;
    memset(aState + gr, 8, n >> 3);
    if (n & 7) aState[gr + (n >> 3)] = n & 7;
    memset((void *)p, 0xCD, n);
    g.arenaTop = p + rn + 16;
    ++g.liveBlk; if (!(b->flags & 1)) ++g.liveTracked;
    return (void *)p;
}
void arenaFree(void *q, void *pc) {
    uintptr_t p = (uintptr_t)q; Blk *b = (Blk *)(p - sizeof(Blk));
    char m[200];
    if (b->magic != MAGIC_LIVE) {
        if (b->magic == MAGIC_DEAD) { snprintf(m, sizeof m, "double free of %p at pc:0x%zx", q, off((char *)pc - 1)); die("double-free", m); }
        snprintf(m, sizeof m, "free of an address that was not allocated: %p at pc:0x%zx", q, off((char *)pc - 1)); die("bad-free", m);
    }
    if (g.active && g.races) {
        for (size_t i = 0; i < b->size; i += 8) {
            uint8_t mask = b->size - i >= 8 ? 0xFF : (uint8_t)((1u << (b->size - i)) - 1);
            if (g.races == 1 || (g.races == 2 && watched(p + i))) shadow(&shArena[(p + i - ARENA) >> 3], p + i, mask, true, false, pc, true);
        }
    }
    b->magic = MAGIC_DEAD;
    memset(aState + ((p - ARENA) >> 3), 0xFD, (b->size + 7) >> 3);
    memset(q, 0xDD, b->size);
    --g.liveBlk; if (!(b->flags & 1) && b->gen == g.gen) --g.liveTracked;
}

// ------------------------------------------------------------------------------------- fibers
void fiberInit(int i, void *(*fn)(void *), void *arg) {
    Fiber &f = g.f[i];
    Vec<TlsDtor> keep = f.dtors; char *t = f.tls;
    memset((void *)&f, 0, sizeof f);
    keep.n = 0; f.dtors = keep; f.tls = t;
    if (!f.tls) f.tls = (char *)calloc(1, tlsSize + 16);
    memset(f.tls, 0, tlsSize); memcpy(f.tls, tlsInit, tlsFile);
    f.fn = fn; f.arg = arg; f.st = Ready; f.deadline = -1; f.prio = -1; f.policy = 0;
    uintptr_t top = STK + (uintptr_t)(i + 1) * STK_ONE - 64;
    void **sp = (void **)top;
    *--sp = (void *)&vt_start;       // return address of the first switch
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = sp;
    f.pctPrio = (1ull << 40) + schedRng.below(1u << 30);
    f.vc.c[i] = 1;
    g.ready |= bit(i);
}
int newFiber(void *(*fn)(void *), void *arg) {
    if (g.nF >= MAXF) overLimit("limit-threads");
    int i = g.nF++;
    fiberInit(i, fn, arg);
    for (int k = 0; k < g.nF; ++k) if (cur().vc.c[k] > g.f[i].vc.c[k]) g.f[i].vc.c[k] = cur().vc.c[k];
    tick();
    return i;
}
// A thread that was cancelled ends at its next cancellation point, destroying what is on its stack.
struct Cancelled {};
void cancelPoint() { if (!g.active) return; Fiber &f = cur(); if (UNLIKELY(f.cancelled) && !f.unwinding) { f.unwinding = true; throw Cancelled(); } }
void finish() {
    Fiber &f = cur();
    while (f.dtors.n) { TlsDtor d = f.dtors[--f.dtors.n]; d.fn(d.obj); }
    f.st = Done; g.ready &= ~bit(g.cur);
    wakeAll(WJoin, &f);
    reschedule();
}

} // namespace

extern "C" void vt_fiberMain() noexcept {
    Fiber &f = cur();
    try { f.ret = f.fn(f.arg); } catch (const Cancelled &) {}
    finish();
    __builtin_unreachable();
}

// ================================================================================ instrumentation
#define RA __builtin_return_address(0)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *pc) { if (g.active) { Fiber &f = cur(); if (f.depth < 128) f.calls[f.depth] = (uintptr_t)pc; ++f.depth; if (f.depth > 20000) die("crash", "runaway recursion"); } }
EXPORT void __tsan_func_exit(void *) { if (g.active && cur().depth > 0) --cur().depth; }
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
#define RW(N) \
    EXPORT void __tsan_read##N(void *a) { access(a, N, false, false, RA); } \
    EXPORT void __tsan_write##N(void *a) { access(a, N, true, false, RA); } \
    EXPORT void __tsan_unaligned_read##N(void *a) { access(a, N, false, false, RA); } \
    EXPORT void __tsan_unaligned_write##N(void *a) { access(a, N, true, false, RA); } \
    EXPORT void __tsan_volatile_read##N(void *a) { access(a, N, false, false, RA); } \
    EXPORT void __tsan_volatile_write##N(void *a) { access(a, N, true, false, RA); } \
    EXPORT void __tsan_unaligned_volatile_read##N(void *a) { access(a, N, false, false, RA); } \
    EXPORT void __tsan_unaligned_volatile_write##N(void *a) { access(a, N, true, false, RA); } \
    EXPORT void __tsan_read_write##N(void *a) { access(a, N, true, false, RA); } \
    EXPORT void __tsan_unaligned_read_write##N(void *a) { access(a, N, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, false, RA); else access(p, 8, false, false, RA); }
EXPORT void __tsan_vptr_read(void **p) { access(p, 8, false, false, RA); }
EXPORT void __tsan_read_range(void *a, unsigned long n) { access(a, (unsigned)n, false, false, RA); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { access(a, (unsigned)n, true, false, RA); }
EXPORT void *__tsan_memcpy(void *d, const void *s, uintptr_t n) { if (n) { access(s, (unsigned)n, false, false, RA); access(d, (unsigned)n, true, false, RA); } return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, uintptr_t n) { if (n) { access(s, (unsigned)n, false, false, RA); access(d, (unsigned)n, true, false, RA); } return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, uintptr_t n) { if (n) access(d, (unsigned)n, true, false, RA); return memset(d, c, n); }

typedef unsigned __int128 u128;
// A weak compare-exchange may fail although the values are equal
static bool spurious() { return decide(0, [&]() -> uint32_t { return schedRng.below(8) == 0; }) != 0; }
#define AT(N, T) \
    EXPORT T __tsan_atomic##N##_load(const volatile T *a, int mo) { schedPoint(PAtomic); access(a, sizeof(T), false, true, RA); if (g.active) hbLoad((uintptr_t)a, mo); return *a; } \
    EXPORT void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { schedPoint(PAtomic); access(a, sizeof(T), true, true, RA); if (g.active) hbStore((uintptr_t)a, mo, false); *a = v; } \
    EXPORT T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = v; return o; } \
    EXPORT T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = (T)(o + v); return o; } \
    EXPORT T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = (T)(o - v); return o; } \
    EXPORT T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = o & v; return o; } \
    EXPORT T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = o | v; return o; } \
    EXPORT T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = o ^ v; return o; } \
    EXPORT T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { RMWPRE; T o = *a; *a = (T) ~(o & v); return o; } \
    EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
        schedPoint(PAtomic); bool ok = false; access(a, sizeof(T), false, true, RA); T o = *a; ok = o == c; \
        if (ok) { access(a, sizeof(T), true, true, RA); if (g.active) { hbLoad((uintptr_t)a, mo); hbStore((uintptr_t)a, mo, true); } *a = v; } \
        else if (g.active) hbLoad((uintptr_t)a, fmo); \
        return o; } \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { T o = __tsan_atomic##N##_compare_exchange_val(a, *c, v, mo, fmo); bool ok = o == *c; if (!ok) *c = o; return ok; } \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
        if (g.active && *a == *c && spurious()) { schedPoint(PAtomic); access(a, sizeof(T), false, true, RA); T o = *a; if (o == *c) { hbLoad((uintptr_t)a, fmo); return 0; } hbLoad((uintptr_t)a, fmo); *c = o; return 0; } \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); }
#define RMWPRE schedPoint(PAtomic); access(a, sizeof(*a), true, true, RA); if (g.active) { hbLoad((uintptr_t)a, mo); hbStore((uintptr_t)a, mo, true); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
EXPORT void __tsan_atomic_thread_fence(int mo) {
    schedPoint(PAtomic);
    if (!g.active || !g.races) return;
    Fiber &f = cur();
    if (isAcq(mo) && f.hasAcq) { vcJoin(f.vc, f.acq); f.hasAcq = false; }
    if (isRel(mo)) { f.rel = f.vc; f.hasRel = true; tick(); }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ====================================================================================== allocator
namespace {
// Blocks allocated before the first case (by static objects): part of what every case starts with.
alignas(64) char preHeap[1 << 20]; size_t preTop = 0; bool preDone = false;
void *doNew(size_t n, size_t align, void *pc) {
    if (g.active) return arenaAlloc(n, align, pc);
    if (!preDone) { size_t at = (preTop + std::max<size_t>(align, 16) - 1) & ~(std::max<size_t>(align, 16) - 1); if (at + n <= sizeof preHeap) { preTop = at + (n ? n : 1); return preHeap + at; } }
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void doDelete(void *p, void *pc) {
    if (!p) return;
    if ((uintptr_t)p - ARENA < ARENA_SZ) arenaFree(p, pc);
    else if ((uintptr_t)p - (uintptr_t)preHeap >= sizeof preHeap) free(p);
}
} // namespace
void *operator new(size_t n) { return doNew(n, 16, RA); }
void *operator new[](size_t n) { return doNew(n, 16, RA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, 16, RA); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, 16, RA); }
void *operator new(size_t n, std::align_val_t a) { return doNew(n, (size_t)a, RA); }
void *operator new[](size_t n, std::align_val_t a) { return doNew(n, (size_t)a, RA); }
void operator delete(void *p) noexcept { doDelete(p, RA); }
void operator delete[](void *p) noexcept { doDelete(p, RA); }
void operator delete(void *p, size_t) noexcept { doDelete(p, RA); }
void operator delete[](void *p, size_t) noexcept { doDelete(p, RA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { doDelete(p, RA); }
void operator delete(void *p, std::align_val_t) noexcept { doDelete(p, RA); }
void operator delete[](void *p, std::align_val_t) noexcept { doDelete(p, RA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { doDelete(p, RA); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { doDelete(p, RA); }

// =================================================================================== system calls
namespace {
// returns the error to inject, or 0
int injected(const char *name) {
    int k = -1;
    for (int i = 0; i < nCounts; ++i) if (!strcmp(counts[i].name, name)) { k = i; break; }
    if (k < 0 && nCounts < 64) { k = nCounts++; snprintf(counts[k].name, 32, "%s", name); counts[k].n = 0; }
    if (k >= 0) counts[k].n++;
    for (int i = 0; i < nFails; ++i)
        if (!strcmp(fails[i].name, name)) { if (fails[i].nth == 0) { int e = fails[i].err; ++nDelivered; if (fails[i].always) return e; fails[i] = fails[--nFails]; return e; } --fails[i].nth; return 0; }
    return 0;
}
void touch(const volatile void *p, unsigned n, bool w, void *pc) { // liveness of the object only
    if (!g.active) return;
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA < ARENA_SZ) checkAlive(a, n, w, pc);
    else if (a < 4096) { char b[100]; snprintf(b, sizeof b, "null synchronization object at pc:0x%zx", off((char *)pc - 1)); die("crash", b); }
}
constexpr int64_t BIL = 1000000000ll;
constexpr int64_t WALL0 = 1700000000ll * BIL;
int64_t wallNow() { return WALL0 + g.wallOff + g.now; }
int64_t tsNs(const timespec *t) { return t->tv_sec > (1ll << 33) ? (1ll << 33) * BIL : t->tv_sec * BIL + t->tv_nsec; }
// deadline on the virtual monotonic clock for an absolute time of the given clock
int64_t absDeadline(clockid_t c, const timespec *t) {
    if (t->tv_sec < 0) return 0;
    if (t->tv_sec > (1ll << 33)) return INT64_MAX / 2;
    int64_t d = c == CLOCK_REALTIME ? tsNs(t) - (WALL0 + g.wallOff) : tsNs(t);
    return d < 0 ? 0 : d;
}
SemMem *semMem(sem_t *s, void *pc, const char *what) {
    touch(s, sizeof(SemMem), true, pc);
    SemMem *m = (SemMem *)s;
    if (m->magic != SEM_LIVE) {
        char b[160]; snprintf(b, sizeof b, "%s on a semaphore that %s, pc:0x%zx", what, m->magic == SEM_DEAD ? "was destroyed" : "was never initialised", off((char *)pc - 1));
        die(m->magic == SEM_DEAD ? "use-after-free" : "bad-semaphore", b);
    }
    return m;
}
int fails_errno(int e) { errno = e; return -1; }
int semWaitImpl(sem_t *s, int64_t deadline, void *pc) {
    schedPoint(PSync); cancelPoint();
    SemMem *m = semMem(s, pc, "wait");
    ++g.semOps;
    for (;;) {
        if (m->value > 0) { --m->value; hbAcquire(s); return 0; }
        Reason r = blockOn(WSem, s, deadline, true); cancelPoint();
        m = semMem(s, pc, "wait");
        if (r == RIntr) return fails_errno(EINTR);
        if (r == RTimeout) {
            // a token that arrived in the meantime is not taken: it stays available
            return fails_errno(ETIMEDOUT);
        }
    }
}
bool validNs(const timespec *t) { return t->tv_nsec >= 0 && t->tv_nsec < BIL; }
} // namespace

EXPORT int sem_init(sem_t *s, int, unsigned v) {
    touch(s, sizeof(sem_t), true, RA);
    schedPoint(PSync);
    if (int e = injected("sem_init")) return fails_errno(e);
    if (v > (unsigned)INT_MAX) return fails_errno(EINVAL);
    SemMem *m = (SemMem *)s; m->magic = SEM_LIVE; m->value = (int)v; m->named = 0;
    ++g.liveSem; return 0;
}
EXPORT int sem_destroy(sem_t *s) {
    schedPoint(PSync);
    SemMem *m = semMem(s, RA, "destroy");
    for (int i = 0; i < g.nF; ++i) if (g.f[i].st == Blocked && g.f[i].wk == WSem && g.f[i].wobj == s) die("destroyed-in-use", "semaphore destroyed while a thread waits on it");
    m->magic = SEM_DEAD; --g.liveSem; return 0;
}
EXPORT int sem_post(sem_t *s) {
    schedPoint(PSync);
    SemMem *m = semMem(s, RA, "post");
    ++g.semOps;
    if (nFails) if (int e = injected("sem_post")) return fails_errno(e);
    if (m->value == INT_MAX) return fails_errno(EOVERFLOW);
    hbRelease(s);
    ++m->value;
    wakeAll(WSem, s);
    return 0;
}
EXPORT int sem_wait(sem_t *s) { if (nFails) if (int e = injected("sem_wait")) return fails_errno(e); return semWaitImpl(s, -1, RA); }
EXPORT int sem_trywait(sem_t *s) {
    schedPoint(PSync);
    SemMem *m = semMem(s, RA, "trywait");
    ++g.semOps;
    if (nFails) if (int e = injected("sem_trywait")) return fails_errno(e);
    if (m->value > 0) { --m->value; hbAcquire(s); return 0; }
    return fails_errno(EAGAIN);
}
EXPORT int sem_clockwait(sem_t *s, clockid_t c, const timespec *t) {
    if (nFails) if (int e = injected("sem_timedwait")) return fails_errno(e);
    if (!validNs(t)) return fails_errno(EINVAL);
    return semWaitImpl(s, absDeadline(c, t), RA);
}
EXPORT int sem_timedwait(sem_t *s, const timespec *t) {
    if (nFails) if (int e = injected("sem_timedwait")) return fails_errno(e);
    if (!validNs(t)) return fails_errno(EINVAL);
    return semWaitImpl(s, absDeadline(CLOCK_REALTIME, t), RA);
}
EXPORT int sem_getvalue(sem_t *s, int *v) { schedPoint(PSync); SemMem *m = semMem(s, RA, "getvalue"); *v = m->value; return 0; }
EXPORT sem_t *sem_open(const char *name, int flags, ...) {
    va_list ap; va_start(ap, flags);
    mode_t mode = 0; unsigned v = 0;
    if (flags & O_CREAT) { mode = va_arg(ap, mode_t); v = va_arg(ap, unsigned); }
    va_end(ap);
    schedPoint(PSync);
    if (int e = injected("sem_open")) { errno = e; return SEM_FAILED; }
    const char *n = name; while (*n == '/') ++n;
    size_t len = strlen(n);
    if (len == 0 || strchr(n, '/')) { errno = EINVAL; return SEM_FAILED; }
    if (len > 250) { errno = len >= 255 ? EINVAL : ENAMETOOLONG; return SEM_FAILED; }
    NamedSem *ns = nullptr;
    for (int i = 0; i < nNamed; ++i) if (named[i].used && !named[i].unlinked && !strcmp(named[i].name, n)) ns = &named[i];
    if (ns) {
        if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        if (!ns->openable) { errno = EACCES; return SEM_FAILED; } // its owner may not read and write it
        if (ns->opens == 0) { // the persistent object is mapped afresh
            ns->mem = (sem_t *)g.semTop; g.semTop += 64;
            SemMem *m = (SemMem *)ns->mem; m->magic = SEM_LIVE; m->value = ns->value; m->named = 1;
        }
        ++ns->opens; ++g.liveSem; return ns->mem;
    }
    if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    if (v > (unsigned)INT_MAX) { errno = EINVAL; return SEM_FAILED; }
    if (nNamed >= 128) overLimit("limit-names");
    ns = &named[nNamed++];
    memset((void *)ns, 0, sizeof *ns);
    snprintf(ns->name, sizeof ns->name, "%s", n); ns->used = true; ns->opens = 1; ns->openable = (mode & 0600) == 0600; ns->mem = (sem_t *)g.semTop; g.semTop += 64;
    SemMem *m = (SemMem *)ns->mem; m->magic = SEM_LIVE; m->value = (int)v; m->named = 1;
    ++g.liveSem;
    return ns->mem;
}
EXPORT int sem_close(sem_t *s) {
    schedPoint(PSync);
    for (int i = 0; i < nNamed; ++i) if (named[i].used && named[i].mem == s && named[i].opens > 0) {
        --g.liveSem;
        if (--named[i].opens == 0) { SemMem *m = (SemMem *)s; named[i].value = m->value; m->magic = SEM_DEAD; }
        return 0;
    }
    uintptr_t a = (uintptr_t)s;
    if (a - SEMS < SEMS_SZ) die("double-free", "sem_close of a semaphore that is not open any more");
    return fails_errno(EINVAL);
}
EXPORT int sem_unlink(const char *name) {
    schedPoint(PSync);
    const char *n = name; while (*n == '/') ++n;
    for (int i = 0; i < nNamed; ++i) if (named[i].used && !named[i].unlinked && !strcmp(named[i].name, n)) { named[i].unlinked = true; return 0; }
    return fails_errno(ENOENT);
}

// ---- mutexes, condition variables, rwlocks (state kept inside of the object)
namespace {
struct Mtx { int32_t owner; int32_t count; int32_t pad[2]; int32_t kind; };
int mtxLock(pthread_mutex_t *pm, int64_t deadline, bool tryOnly, void *pc) {
    touch(pm, sizeof(*pm), true, pc);
    schedPoint(PSync);
    touch(pm, sizeof(*pm), true, pc);
    Mtx *m = (Mtx *)pm;
    int me = g.active ? g.cur + 1 : 1;
    if (m->owner == me && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->count; return 0; }
    if (m->owner == me && (m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return tryOnly ? EBUSY : EDEADLK;
    for (;;) {
        if (!m->owner) { m->owner = me; m->count = 1; if (g.active) hbAcquire(pm); return 0; }
        if (tryOnly) return EBUSY;
        if (!g.active) abort();
        Reason r = blockOn(WMutex, pm, deadline, false);
        touch(pm, sizeof(*pm), true, pc);
        if (r == RTimeout && m->owner) return ETIMEDOUT;
    }
}
void mtxRelease(pthread_mutex_t *pm) {
    Mtx *m = (Mtx *)pm;
    if (g.active) hbRelease(pm);
    m->owner = 0; m->count = 0;
    if (g.active) wakeAll(WMutex, pm);
}
int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline, void *pc) {
    touch(c, sizeof(*c), true, pc);
    schedPoint(PSync);
    // atomically release and block; a spurious wake-up is a decision
    mtxRelease(m);
    int res = 0;
    uint32_t spur = decide(0, [&]() -> uint32_t { return schedRng.below(64) == 0; });
    if (spur) schedPoint(PYield);
    else { Reason r = blockOn(WCond, c, deadline, false); if (r == RTimeout) res = ETIMEDOUT; }
    mtxLock(m, -1, false, pc);
    return res;
}
struct Rw { int32_t readers; int32_t writer; };
} // namespace
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return mtxLock(m, -1, false, RA); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return mtxLock(m, -1, true, RA); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) noexcept { if (!validNs(t)) return EINVAL; return mtxLock(m, absDeadline(CLOCK_REALTIME, t), false, RA); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t) noexcept { if (!validNs(t)) return EINVAL; return mtxLock(m, absDeadline(c, t), false, RA); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *pm) noexcept {
    touch(pm, sizeof(*pm), true, RA);
    schedPoint(PSync);
    touch(pm, sizeof(*pm), true, RA);
    Mtx *m = (Mtx *)pm; int me = g.active ? g.cur + 1 : 1;
    if (g.active && m->owner != me) { if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EPERM; die("mutex-misuse", "pthread mutex unlocked by a thread that does not hold it"); }
    if (--m->count > 0) return 0;
    mtxRelease(pm);
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, -1, RA); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if (!validNs(t)) return EINVAL; return condWait(c, m, absDeadline(CLOCK_REALTIME, t), RA); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { if (!validNs(t)) return EINVAL; return condWait(c, m, absDeadline(k, t), RA); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept {
    touch(c, sizeof(*c), true, RA);
    schedPoint(PSync);
    if (!g.active) return 0;
    uint64_t w = 0; for (int i = 0; i < g.nF; ++i) if (g.f[i].st == Blocked && g.f[i].wk == WCond && g.f[i].wobj == c) w |= bit(i);
    if (!w) return 0;
    int d = __builtin_ctzll(w);
    int n = decide(d, [&]() -> uint32_t { return nthReady(w, schedRng.below(__builtin_popcountll(w))); });
    if (n >= 64 || !(w & bit(n))) n = d;
    wakeFiber(n, RWoken);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept { touch(c, sizeof(*c), true, RA); schedPoint(PSync); if (g.active) wakeAll(WCond, c); return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *p) noexcept { schedPoint(PSync); Rw *r = (Rw *)p; touch(p, 8, true, RA); while (r->writer) blockOn(WRw, p, -1, false); ++r->readers; if (g.active) hbAcquire(p); return 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *p) noexcept { schedPoint(PSync); Rw *r = (Rw *)p; if (r->writer) return EBUSY; ++r->readers; if (g.active) hbAcquire(p); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *p) noexcept { schedPoint(PSync); Rw *r = (Rw *)p; touch(p, 8, true, RA); while (r->writer || r->readers) blockOn(WRw, p, -1, false); r->writer = 1; if (g.active) { hbAcquire(p); hbAcquire((char *)p + 4); } return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *p) noexcept { schedPoint(PSync); Rw *r = (Rw *)p; if (r->writer || r->readers) return EBUSY; r->writer = 1; if (g.active) { hbAcquire(p); hbAcquire((char *)p + 4); } return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *p) noexcept {
    schedPoint(PSync); Rw *r = (Rw *)p;
    if (r->writer) { r->writer = 0; if (g.active) hbRelease(p); } else { --r->readers; if (g.active) hbRelease((char *)p + 4); }
    if (g.active) wakeAll(WRw, p);
    return 0;
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    schedPoint(PSync);
    while (*o == 1 && g.active) blockOn(WGuard, o, -1, false);
    if (*o == 2) { if (g.active) hbAcquire(o); return 0; }
    *o = 1; fn(); *o = 2;
    if (g.active) { hbRelease(o); wakeAll(WGuard, o); }
    return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t *gd) {
    uint8_t *b = (uint8_t *)gd;
    if (!g.active) return b[0] ? 0 : 1;
    schedPoint(PSync);
    while (!b[0] && b[1]) { if (b[2] == g.cur + 1) die("crash", "recursive initialisation of a local static"); blockOn(WGuard, gd, -1, false); }
    if (b[0]) { hbAcquire(gd); return 0; }
    b[1] = 1; b[2] = g.cur + 1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t *gd) {
    uint8_t *b = (uint8_t *)gd;
    b[0] = 1; b[1] = 0; b[2] = 0;
    if (g.active) { hbRelease(gd); wakeAll(WGuard, gd); }
}
EXPORT void __cxa_guard_abort(uint64_t *gd) { uint8_t *b = (uint8_t *)gd; b[1] = 0; b[2] = 0; if (g.active) wakeAll(WGuard, gd); }
EXPORT int __cxa_atexit(void (*fn)(void *), void *obj, void *dso) noexcept {
    if (g.active) { exitDtors.push({fn, obj}); return 0; }
    static int (*real)(void (*)(void *), void *, void *); if (!real) real = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(fn, obj, dso);
}
EXPORT int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) noexcept {
    if (g.active) cur().dtors.push({fn, obj});
    return 0;
}

// ---- threads
namespace {
struct Attr { uint32_t magic; int32_t detach; int32_t policy; int32_t prio; int32_t inherit; size_t stack; uint64_t aff; bool hasAff; };
static_assert(sizeof(Attr) <= sizeof(pthread_attr_t), "");
constexpr uint32_t ATTR_LIVE = 0x41545452;
constexpr pthread_t TID0 = 0x7f5500000000ull;
Fiber *thr(pthread_t t) { if (t < TID0 || t >= TID0 + (pthread_t)g.nF * 0x1000 || (t & 0xFFF)) return nullptr; return &g.f[(t - TID0) / 0x1000]; }
Fiber &thrOrDie(pthread_t t, const char *what) {
    Fiber *f = thr(t);
    if (!f) { char b[160]; snprintf(b, sizeof b, "%s on an invalid thread handle 0x%lx", what, (unsigned long)t); die("bad-thread", b); }
    if (f->joined || (f->isDetached && f->st == Done)) { char b[160]; snprintf(b, sizeof b, "%s on a thread that does not exist any more", what); die("bad-thread", b); }
    return *f;
}
Attr *at(const pthread_attr_t *a) { Attr *x = (Attr *)a; if (x->magic != ATTR_LIVE) die("bad-attr", "use of thread attributes that are not initialised"); return x; }
int attrs = 0;
} // namespace
EXPORT int pthread_attr_init(pthread_attr_t *a) noexcept {
    if (int e = injected("pthread_attr_init")) return e;
    Attr x{}; x.magic = ATTR_LIVE; x.detach = PTHREAD_CREATE_JOINABLE; x.policy = SCHED_OTHER; x.inherit = PTHREAD_INHERIT_SCHED;
    memset((void *)a, 0, sizeof *a); memcpy((void *)a, &x, sizeof x); ++attrs; return 0;
}
EXPORT int pthread_attr_destroy(pthread_attr_t *a) noexcept { at(a)->magic = 0; --attrs; return 0; }
EXPORT int pthread_attr_setdetachstate(pthread_attr_t *a, int s) noexcept { if (int e = injected("pthread_attr_setdetachstate")) return e; if (s != PTHREAD_CREATE_JOINABLE && s != PTHREAD_CREATE_DETACHED) return EINVAL; at(a)->detach = s; return 0; }
EXPORT int pthread_attr_setschedpolicy(pthread_attr_t *a, int p) noexcept { if (int e = injected("pthread_attr_setschedpolicy")) return e; if (p != SCHED_OTHER && p != SCHED_FIFO && p != SCHED_RR) return EINVAL; at(a)->policy = p; return 0; }
EXPORT int pthread_attr_setschedparam(pthread_attr_t *a, const sched_param *p) noexcept {
    if (int e = injected("pthread_attr_setschedparam")) return e;
    Attr *x = at(a);
    int lo = x->policy == SCHED_OTHER ? 0 : g.rtMin, hi = x->policy == SCHED_OTHER ? 0 : g.rtMax;
    if (p->sched_priority < lo || p->sched_priority > hi) return EINVAL;
    x->prio = p->sched_priority; return 0;
}
EXPORT int pthread_attr_setinheritsched(pthread_attr_t *a, int i) noexcept { if (int e = injected("pthread_attr_setinheritsched")) return e; if (i != PTHREAD_INHERIT_SCHED && i != PTHREAD_EXPLICIT_SCHED) return EINVAL; at(a)->inherit = i; return 0; }
EXPORT int pthread_attr_setstacksize(pthread_attr_t *a, size_t n) noexcept { if (int e = injected("pthread_attr_setstacksize")) return e; if (n < 16384) { ++nDelivered; return EINVAL; } at(a)->stack = n; return 0; }
EXPORT int pthread_attr_getstacksize(const pthread_attr_t *a, size_t *n) noexcept { *n = at(a)->stack; return 0; }
EXPORT int pthread_attr_setguardsize(pthread_attr_t *, size_t) noexcept { return 0; }
EXPORT int pthread_attr_setaffinity_np(pthread_attr_t *a, size_t, const cpu_set_t *s) noexcept { if (int e = injected("pthread_setaffinity_np")) return e; uint64_t m; memcpy(&m, s, 8); at(a)->aff = m; at(a)->hasAff = true; return 0; }
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
    schedPoint(PSync);
    if (int e = injected("pthread_create")) { *t = 0x7f5566667000ull; return e; }
    Attr x{}; if (a) x = *at(a);
    if (a && x.inherit == PTHREAD_EXPLICIT_SCHED && x.policy != SCHED_OTHER && !g.rt) { ++nDelivered; *t = 0x7f5566667000ull; return EPERM; }
    if (a && x.inherit == PTHREAD_EXPLICIT_SCHED && x.policy != SCHED_OTHER && (x.prio < g.rtMin || x.prio > g.rtMax)) { ++nDelivered; *t = 0x7f5566667000ull; return EINVAL; }
    if (a && x.inherit == PTHREAD_EXPLICIT_SCHED && x.policy != SCHED_OTHER && x.prio > g.rtLimit) { ++nDelivered; *t = 0x7f5566667000ull; return EPERM; }
    int i = newFiber(fn, arg);
    Fiber &f = g.f[i];
    f.created = true; f.stackSize = x.stack; f.affinity = cur().affinity; if (x.hasAff) f.affinity = x.aff & (g.cpus >= 64 ? ~0ull : (1ull << g.cpus) - 1);
    if (a && x.detach == PTHREAD_CREATE_DETACHED) f.isDetached = true;
    if (a && x.inherit == PTHREAD_EXPLICIT_SCHED && x.policy != SCHED_OTHER) { f.prio = x.prio; f.policy = x.policy; }
    else if (!a || x.inherit == PTHREAD_INHERIT_SCHED) { f.prio = cur().prio; f.policy = cur().policy; }
    *t = TID0 + (pthread_t)i * 0x1000;
    schedPoint(PSync);
    return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret) {
    schedPoint(PSync); cancelPoint();
    Fiber &f = thrOrDie(t, "pthread_join");
    if (int e = injected("pthread_join")) return e;
    if (f.isDetached) return EINVAL;
    if (&f == &cur()) return EDEADLK;
    while (f.st != Done) { blockOn(WJoin, &f, -1, false); cancelPoint(); }
    if (f.joined) die("bad-thread", "thread joined twice");
    f.joined = true; vcJoin(cur().vc, f.vc);
    if (ret) *ret = f.ret;
    return 0;
}
EXPORT int pthread_tryjoin_np(pthread_t t, void **ret) noexcept { schedPoint(PSync); if (thrOrDie(t, "pthread_tryjoin_np").st != Done) return EBUSY; return pthread_join(t, ret); }
EXPORT int pthread_clockjoin_np(pthread_t t, void **ret, clockid_t c, const timespec *ts) {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_clockjoin_np");
    if (!validNs(ts)) return EINVAL;
    int64_t dl = absDeadline(c, ts);
    while (f.st != Done) if (blockOn(WJoin, &f, dl, false) == RTimeout) return ETIMEDOUT;
    return pthread_join(t, ret);
}
EXPORT int pthread_timedjoin_np(pthread_t t, void **ret, const timespec *ts) { return pthread_clockjoin_np(t, ret, CLOCK_REALTIME, ts); }
EXPORT int pthread_detach(pthread_t t) noexcept { schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_detach"); if (int e = injected("pthread_detach")) return e; if (f.isDetached) return EINVAL; f.isDetached = true; return 0; }
EXPORT pthread_t pthread_self() noexcept { return TID0 + (pthread_t)(g.active ? g.cur : 0) * 0x1000; }
EXPORT void pthread_exit(void *r) { Fiber &f = cur(); f.ret = r; finish(); __builtin_unreachable(); }
EXPORT int pthread_cancel(pthread_t t) {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_cancel");
    if (nFails) if (int e = injected("pthread_cancel")) return e;
    f.cancelled = true;
    if (f.st == Blocked && (f.wk == WSem || f.wk == WSleep || f.wk == WJoin)) wakeFiber((int)(&f - g.f), RIntr);
    schedPoint(PSync);
    return 0;
}
EXPORT void pthread_testcancel() { cancelPoint(); }
EXPORT int pthread_setname_np(pthread_t t, const char *n) noexcept {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_setname_np");
    if (nFails) if (int e = injected("pthread_setname_np")) return e;
    if (strlen(n) > 15) return ERANGE;
    snprintf(f.name, sizeof f.name, "%s", n); return 0;
}
EXPORT int pthread_getname_np(pthread_t t, char *b, size_t n) noexcept { Fiber &f = thrOrDie(t, "pthread_getname_np"); if (n < 16) return ERANGE; snprintf(b, n, "%s", f.name); return 0; }
EXPORT int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) noexcept {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_setaffinity_np");
    if (int e = injected("pthread_setaffinity_np")) return e;
    uint64_t m = 0; memcpy(&m, s, n < 8 ? n : 8);
    uint64_t all = g.cpus >= 64 ? ~0ull : (1ull << g.cpus) - 1;
    if (!(m & all)) return EINVAL;
    f.affinity = m & all; return 0;
}
EXPORT int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) noexcept {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_getaffinity_np");
    if (int e = injected("pthread_getaffinity_np")) return e;
    uint64_t all = g.cpus >= 64 ? ~0ull : (1ull << g.cpus) - 1;
    uint64_t m = f.affinity ? f.affinity : all; memset((void *)s, 0, n); memcpy((void *)s, &m, n < 8 ? n : 8); return 0;
}
EXPORT int pthread_setschedprio(pthread_t t, int p) noexcept {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_setschedprio");
    if (int e = injected("pthread_setschedprio")) return e;
    if (f.policy == SCHED_OTHER) { if (p != 0) return EINVAL; return 0; }
    if (p < g.rtMin || p > g.rtMax) return EINVAL;
    if (!g.rt || (p > g.rtLimit && p > f.prio)) return EPERM;
    f.prio = p; return 0;
}
EXPORT int pthread_setschedparam(pthread_t t, int pol, const sched_param *p) noexcept {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_setschedparam");
    if (int e = injected("pthread_setschedparam")) return e;
    if (pol == SCHED_OTHER) { if (p->sched_priority) return EINVAL; f.policy = pol; f.prio = 0; return 0; }
    if (p->sched_priority < g.rtMin || p->sched_priority > g.rtMax) return EINVAL;
    if (!g.rt || (p->sched_priority > g.rtLimit && p->sched_priority > f.prio)) return EPERM;
    f.policy = pol; f.prio = p->sched_priority; return 0;
}
EXPORT int pthread_getschedparam(pthread_t t, int *pol, sched_param *p) noexcept {
    schedPoint(PSync); Fiber &f = thrOrDie(t, "pthread_getschedparam");
    if (int e = injected("pthread_getschedparam")) return e;
    *pol = f.policy; p->sched_priority = f.prio < 0 ? 0 : f.prio; return 0;
}
EXPORT int sched_get_priority_min(int p) noexcept { return p == SCHED_FIFO || p == SCHED_RR ? g.rtMin : 0; }
EXPORT int sched_get_priority_max(int p) noexcept { return p == SCHED_FIFO || p == SCHED_RR ? g.rtMax : 0; }
EXPORT int sched_yield() noexcept { if (g.active) schedPoint(PYield); return 0; }
EXPORT int sched_getcpu() noexcept { uint64_t m = g.active && cur().affinity ? cur().affinity : 1; return __builtin_ctzll(m); }
EXPORT int getrlimit(__rlimit_resource_t r, struct rlimit *l) noexcept {
    if ((int)r == RLIMIT_RTPRIO && g.active) {
        if (int e = injected("getrlimit")) return fails_errno(e);
        l->rlim_cur = l->rlim_max = g.rt ? g.rtLimit : 0; return 0;
    }
    return (int)syscall(SYS_prlimit64, 0, (int)r, nullptr, l);
}
EXPORT long sysconf(int n) noexcept {
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return g.cpus;
    static long (*real)(int); if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(n);
}
EXPORT int get_nprocs() noexcept { return g.cpus; }
EXPORT int get_nprocs_conf() noexcept { return g.cpus; }
EXPORT int sched_getaffinity(pid_t, size_t n, cpu_set_t *s) noexcept { return pthread_getaffinity_np(pthread_self(), n, s) ? fails_errno(EINVAL) : 0; }
EXPORT int sched_setaffinity(pid_t, size_t n, const cpu_set_t *s) noexcept { int e = pthread_setaffinity_np(pthread_self(), n, s); return e ? fails_errno(e) : 0; }

// ---- time
EXPORT int clock_gettime(clockid_t c, timespec *t) noexcept {
    if (!g.active) return (int)syscall(SYS_clock_gettime, c, t);
    schedPoint(PSync);
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? wallNow() : g.now;
    if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE) v -= v % 4000000; // counts in ticks
    if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) v /= 16; // stands still while nothing runs
    t->tv_sec = v / BIL; t->tv_nsec = v % BIL; return 0;
}
EXPORT int gettimeofday(timeval *t, void *) noexcept { if (!g.active) return (int)syscall(SYS_gettimeofday, t, 0); schedPoint(PSync); t->tv_sec = wallNow() / BIL; t->tv_usec = wallNow() % BIL / 1000; return 0; }
EXPORT int timespec_get(timespec *t, int base) noexcept { clock_gettime(CLOCK_REALTIME, t); return base; }
EXPORT time_t time(time_t *t) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
namespace {
int sleepUntil(int64_t dl, timespec *rem) {
    schedPoint(PYield); cancelPoint();
    for (;;) {
        if (dl <= g.now) return 0;
        Reason r = blockOn(WSleep, nullptr, dl, true); cancelPoint();
        if (r == RIntr) { if (rem) { int64_t d = dl - g.now; if (d < 0) d = 0; rem->tv_sec = d / BIL; rem->tv_nsec = d % BIL; } return EINTR; }
    }
}
} // namespace
EXPORT int nanosleep(const timespec *t, timespec *rem) {
    if (!g.active) return (int)syscall(SYS_nanosleep, t, rem);
    if (!validNs(t) || t->tv_sec < 0) return fails_errno(EINVAL);
    int e = sleepUntil(g.now + tsNs(t), rem);
    return e ? fails_errno(e) : 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const timespec *t, timespec *rem) {
    if (!g.active) return EINVAL;
    if (!validNs(t) || t->tv_sec < 0) return EINVAL;
    if (flags & TIMER_ABSTIME) return sleepUntil(absDeadline(c, t), nullptr);
    return sleepUntil(g.now + tsNs(t), rem);
}
EXPORT int usleep(useconds_t us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}, r{0, 0}; return nanosleep(&t, &r) ? (unsigned)r.tv_sec + 1 : 0; }
EXPORT long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && g.active) {
        uint32_t *ad = (uint32_t *)a[0]; int op = (int)a[1] & 127;
        schedPoint(PSync);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*ad != (uint32_t)a[2]) return fails_errno(EAGAIN);
            const timespec *t = (const timespec *)a[3]; int64_t dl = -1;
            if (t) { if (op == FUTEX_WAIT) dl = g.now + tsNs(t); else dl = absDeadline((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t); }
            Reason r = blockOn(WFutex, ad, dl, true);
            if (r == RIntr) return fails_errno(EINTR);
            if (r == RTimeout) return fails_errno(ETIMEDOUT);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = 0;
            for (int i = 0; i < g.nF && k < (int)a[2]; ++i) if (g.f[i].st == Blocked && g.f[i].wk == WFutex && g.f[i].wobj == ad) { wakeFiber(i, RWoken); ++k; }
            return k;
        }
        return fails_errno(ENOSYS);
    }
    long r;
    register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) return fails_errno((int)-r);
    return r;
}

// ============================================================================================= API
namespace vt {
uint32_t pick(uint32_t n) {
    uint32_t v;
    if (n == 0) n = 1;
    if (replayProg) v = prog.n < progIn.n ? progIn[prog.n] % n : 0;
    else v = progRng.below(n);
    prog.push(v);
    return v;
}
int range(int lo, int hi) { return lo + (int)pick((uint32_t)(hi - lo + 1)); }
bool chance(uint32_t num, uint32_t den) { return pick(den) + num >= den; }
uint64_t bits(int n) { uint64_t v = 0; for (int i = 0; i < n; i += 16) { int k = n - i < 16 ? n - i : 16; v |= (uint64_t)pick(1u << k) << i; } return v; }

void yield() { schedPoint(PYield); }
int self() { return g.cur; }
bool inFiber() { return g.active; }
uint64_t steps() { return g.steps; }
int64_t now() { return g.now; }
int64_t wall() { return wallNow(); }
void sleepNs(int64_t ns) { int64_t dl = g.now + ns; schedPoint(PYield); while (dl > g.now) blockOn(WSleep, nullptr, dl, false); }
void advance(int64_t ns) { g.now += ns; fireTimers(); }
void setWallPhase(int64_t p) { int64_t w = wallNow() % BIL; g.wallOff += p - w; if (g.wallOff < 0) g.wallOff += BIL; }
int spawnRaw(void (*fn)(void *), void *arg) {
    struct T { static void *go(void *p) { void **q = (void **)p; auto f = (void (*)(void *))q[0]; void *a = q[1]; free(p); f(a); return nullptr; } };
    void **q = (void **)malloc(16); q[0] = (void *)fn; q[1] = arg;
    int i = newFiber(T::go, q); g.f[i].raw = true;
    schedPoint(PSync);
    return i;
}
void joinRaw(int id) { schedPoint(PSync); Fiber &f = g.f[id]; while (f.st != Done) blockOn(WJoin, &f, -1, false); f.joined = true; vcJoin(cur().vc, f.vc); }
int liveFibers() { int n = 0; for (int i = 1; i < g.nF; ++i) if (g.f[i].st != Done) ++n; return n; }
int blockedFibers() { int n = 0; for (int i = 1; i < g.nF; ++i) if (g.f[i].st == Blocked) ++n; return n; }
bool isBlocked(int i) { return g.f[i].st == Blocked; }
bool isFinished(int i) { return g.f[i].st == Done; }
bool settle() { Fiber &f = cur(); f.st = Settling; g.ready &= ~bit(g.cur); reschedule(); return true; }
const char *nameOf(int i) { return g.f[i].name; }
int createdThreads() { int n = 0; for (int i = 0; i < g.nF; ++i) n += g.f[i].created; return n; }
size_t stackSizeOf(int i) { return g.f[i].stackSize; }
uint64_t affinityOf(int i) { return g.f[i].affinity ? g.f[i].affinity : g.cpus >= 64 ? ~0ull : (1ull << g.cpus) - 1; }
int sysPriorityOf(int i) { return g.f[i].prio; }
bool detached(int i) { return g.f[i].isDetached; }
int liveSems() { return g.liveSem; }
int namedSems() { int n = 0; for (int i = 0; i < nNamed; ++i) n += named[i].used && !named[i].unlinked; return n; }
bool nameExists(const char *n) { while (*n == '/') ++n; for (int i = 0; i < nNamed; ++i) if (named[i].used && !named[i].unlinked && !strcmp(named[i].name, n)) return true; return false; }
int64_t semOps() { return g.semOps; }
Gate makeGate() { if (g.nGates >= 1024) overLimit("limit-gates"); g.gates[g.nGates] = 0; return {g.nGates++}; }
void openGate(Gate t, bool hb) { if (hb) hbRelease(&g.gates[t.id]); g.gates[t.id] = 1; wakeAll(WGate, &g.gates[t.id]); schedPoint(PSync); }
void passGate(Gate t, bool hb) { schedPoint(PSync); while (!g.gates[t.id]) blockOn(WGate, &g.gates[t.id], -1, false); if (hb) hbAcquire(&g.gates[t.id]); }
void enableRaces(int m) { g.races = m; }
void watch(const volatile void *p, size_t n) { if (g.nWatch < 256) { g.watchLo[g.nWatch] = (uintptr_t)p; g.watchHi[g.nWatch++] = (uintptr_t)p + n; } }
void setDrift(int64_t d) { g.drift = d; }
void enableTimeJumps(bool on) { g.jumps = on; }
void enableEintr(uint32_t p) { g.eintr = p; }
void enableLeakCheck(bool on) { g.leak = on; }
void expectTraps(bool on) { g.expectTraps = on; }
int64_t traps() { return g.traps; }
void allowDeadlock(bool on) { g.allowDl = on; }
bool deadlocked() { return g.dead; }
void maxSteps(uint64_t n) { g.maxSteps = n; }
uint64_t eintrDelivered() { return g.eintrs; }
void armEintr() { for (int i = 0; i < MAXF; ++i) g.f[i].intrArmed = true; }
void failCall(const char *name, int nth, int err, bool always) {
    if (nth < 0) { for (int i = 0; i < nFails;) if (!strcmp(fails[i].name, name)) fails[i] = fails[--nFails]; else ++i; return; }
    if (nFails < 32) { snprintf(fails[nFails].name, 32, "%s", name); fails[nFails].nth = nth; fails[nFails].always = always; fails[nFails++].err = err; }
}
int failuresDelivered() { return nDelivered; }
int callCount(const char *name) { for (int i = 0; i < nCounts; ++i) if (!strcmp(counts[i].name, name)) return counts[i].n; return 0; }
void grantRealtime(bool on, int lo, int hi, int limit) { g.rt = on; g.rtMin = lo; g.rtMax = hi; g.rtLimit = limit < 0 ? hi : limit; }
void setCpuCount(int n) { g.cpus = n; }
void fail(const char *kind, const char *fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    die(kind, b);
}
void label(const char *n) { for (int i = 0; i < nCaseLabels; ++i) if (!strcmp(caseLabels[i], n)) return; if (nCaseLabels < 64) caseLabels[nCaseLabels++] = n; }
void nontrivial(bool b) { if (b) g.nontriv = true; }
void describe(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (descN < sizeof desc - 2) { int n = vsnprintf(desc + descN, sizeof desc - descN - 1, fmt, ap); if (n > 0) { descN += n; if (descN > sizeof desc - 2) descN = sizeof desc - 2; } }
    va_end(ap);
}
void discard() { g.discarded = true; }
size_t log(int kind, int64_t a, int64_t b) { evs.push(Ev{kind, a, b, g.cur, g.now}); return evs.n - 1; }
Events events() { return {evs.d, evs.n}; }
int64_t cell(int i) { return cells[i]; }
int64_t cellSet(int i, int64_t v) { dirty(i); return cells[i] = v; }
int64_t cellAdd(int i, int64_t d) { dirty(i); return cells[i] += d; }
void cellMax(int i, int64_t v) { dirty(i); if (v > cells[i]) cells[i] = v; }
Quiet::Quiet() { ++cur().quiet; }
Quiet::~Quiet() { --cur().quiet; }
static Scenario *scenarios;
Scenario::Scenario(const char *p, const char *n, void (*r)(), uint32_t w) : prop(p), name(n), run(r), weight(w), next(scenarios) { scenarios = this; }
} // namespace vt

// ========================================================================================= driver
namespace {
struct LabelCount { const char *n; uint64_t c; };
Vec<LabelCount> labels; Vec<uint64_t> hashes; Vec<char *> samples;
uint64_t nEval, nNontriv, nDisc, totSteps, totPoints, totSwitch, totEintr, totThreads; uint64_t stratCount[4];
void countLabel(const char *n) { for (size_t i = 0; i < labels.n; ++i) if (!strcmp(labels[i].n, n)) { ++labels[i].c; return; } labels.push({strdup(n), 1}); }

int tlsCb(dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        const auto &p = i->dlpi_phdr[k];
        tlsInit = (const char *)(i->dlpi_addr + p.p_vaddr); tlsFile = p.p_filesz; tlsSize = p.p_memsz;
        size_t al = p.p_align ? p.p_align : 1;
        tlsAddr = (char *)__builtin_thread_pointer() - ((tlsSize + al - 1) & ~(al - 1));
    }
    return 1; // main executable only
}
void *mapAt(uintptr_t a, size_t n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
    return p;
}
char altStack[65536];
void onSignal(int s, siginfo_t *si, void *uc) {
    if (!g.active && !failing) { outf(2, "signal %d outside of a case\n", s); _exit(9); }
    char b[200];
    uintptr_t ip = (uintptr_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (s == SIGVTALRM) { outf(1, "HANG prop=%s scenario=%s idx=%ld\n", cProp, cScen, cIdx); _exit(5); }
    if (s == SIGTRAP && g.expectTraps) { ++g.traps; return; }
    if (s == SIGTRAP) { snprintf(b, sizeof b, "an internal assertion of the library failed at pc:0x%zx", off((void *)ip)); die("assert", b); }
    snprintf(b, sizeof b, "%s at address %p, pc:0x%zx", s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort (std::terminate?)" : s == SIGFPE ? "arithmetic fault" : "fatal signal", si->si_addr, off((void *)ip));
    die("crash", b);
}
void setup() {
    __libc_single_threaded = 0;
    dl_iterate_phdr(tlsCb, nullptr);
    mapAt(ARENA, ARENA_SZ); mapAt(STK, STK_SZ); mapAt(SEMS, SEMS_SZ);
    for (int i = 0; i <= MAXF; ++i) mprotect((void *)(STK + i * STK_ONE), 4096, PROT_NONE);
    shArena = (Cell *)mapAt(0, ARENA_SZ / 8 * sizeof(Cell));
    shStk = (Cell *)mapAt(0, STK_SZ / 8 * sizeof(Cell));
    gLo = (uintptr_t)&__data_start & ~7ull; gHi = ((uintptr_t)&_end + 7) & ~7ull;
    shGlob = (Cell *)mapAt(0, ((gHi - gLo) / 8 + 1) * sizeof(Cell));
    aState = (uint8_t *)mapAt(0, ARENA_SZ / 8);
    syncs = (Sync *)mapAt(0, SYNCS * sizeof(Sync));
    stack_t ss{}; ss.ss_sp = altStack; ss.ss_size = sizeof altStack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGTRAP, SIGABRT, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
void armWatchdog(int secs) { itimerval v{}; v.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &v, nullptr); }

void *mainFiber(void *p) {
    ((void (*)())p)();
    while (exitDtors.n) { TlsDtor d = exitDtors[--exitDtors.n]; d.fn(d.obj); }
    return nullptr;
}

// Writable data of the program (not of the runtime) as it was before the first case.
struct Range { char *p; size_t n; char *save; };
Range ranges[5]; int nRanges = 0;
void snapshotData() {
    preDone = true;
    if (preTop) { ranges[nRanges++] = {preHeap, preTop, (char *)malloc(preTop)}; memcpy(ranges[0].save, preHeap, preTop); }
    struct { char *a, *b; } holes[2] = {{&__start_vtbss, &__stop_vtbss}, {&__start_vtdata, &__stop_vtdata}};
    if (holes[0].a > holes[1].a) { auto t = holes[0]; holes[0] = holes[1]; holes[1] = t; }
    char *p = &__data_start;
    for (int i = 0; i <= 2; ++i) {
        char *e = i < 2 ? holes[i].a : &_end;
        if (i < 2 && (holes[i].b <= &__data_start || holes[i].a >= &_end)) continue;
        if (e > p) { ranges[nRanges++] = {p, (size_t)(e - p), (char *)malloc(e - p)}; memcpy(ranges[nRanges - 1].save, p, e - p); }
        if (i < 2 && holes[i].b > p) p = holes[i].b;
    }
}
void restoreData() { for (int i = 0; i < nRanges; ++i) memcpy(ranges[i].p, ranges[i].save, ranges[i].n); }

// Blocks of this case that nothing refers to any more: what static objects (which outlive the case) still hold is no leak.
void leakReport() {
    Vec<Blk *> live; Vec<uintptr_t> work;
    auto isLive = [](Blk *bl) { return bl->magic == MAGIC_LIVE && bl->gen == g.gen; };
    for (uintptr_t a = g.arenaBase & ~15ull; a + sizeof(Blk) <= g.arenaTop; a += 16) { Blk *bl = (Blk *)a; if (isLive(bl)) live.push(bl); }
    auto scan = [&](const char *p, size_t n) {
        for (uintptr_t q = ((uintptr_t)p + 7) & ~7ull; q + 8 <= (uintptr_t)p + n; q += 8) {
            uintptr_t v = *(uintptr_t *)q;
            if (v - ARENA >= ARENA_SZ) continue;
            size_t lo = 0, hi = live.n;
            while (lo < hi) { size_t m = (lo + hi) / 2; if ((uintptr_t)live[m] + sizeof(Blk) <= v) lo = m + 1; else hi = m; }
            if (!lo) continue;
            Blk *bl = live[lo - 1];
            if (v >= (uintptr_t)(bl + 1) + bl->size + (bl->size == 0) || (bl->flags & 2)) continue;
            bl->flags |= 2; work.push((uintptr_t)bl);
        }
    };
    for (int i = 0; i < nRanges; ++i) if (ranges[i].p != preHeap) scan(ranges[i].p, ranges[i].n);
    scan(preHeap, preTop);
    if (g.f[0].tls) scan(g.f[0].tls, tlsSize);
    while (work.n) { Blk *bl = (Blk *)work[--work.n]; scan((char *)(bl + 1), bl->size); }
    long lost = 0;
    for (size_t i = 0; i < live.n; ++i) if (!(live[i]->flags & 3)) ++lost;
    if (lost) {
        char b[600]; int n = snprintf(b, sizeof b, "%ld block(s) never released:", lost);
        int k = 0;
        for (size_t i = 0; i < live.n && k < 6; ++i) if (!(live[i]->flags & 3)) { n += snprintf(b + n, sizeof b - n, " %llu bytes pc:0x%zx;", (unsigned long long)live[i]->size, off((char *)live[i]->pc - 1)); ++k; }
        die("leak", b);
    }
    free(live.d); free(work.d);
}

bool recycle = false; long nextIdx = 0;
void runCase(vt::Scenario *s) {
    G &x = g;
    ++x.gen;
    restoreData(); exitDtors.n = 0;
    x.nF = 0; x.cur = 0; x.ready = 0; x.steps = x.points = x.plain = 0; x.maxSteps = 60000; x.fair = false; x.allowDl = x.dead = false;
    x.now = 1000000; x.wallOff = 0; x.drift = 20; x.races = 0; x.nWatch = 0; x.jumps = false; x.eintr = 0; x.eintrs = 0; x.leak = true;
    x.discarded = x.nontriv = false; x.rt = false; x.rtMin = 1; x.rtMax = x.rtLimit = 99; x.cpus = 8; x.expectTraps = false; x.traps = 0; x.schedHash = 0; x.nGates = 0; x.liveSem = 0; x.semOps = 0; x.semTop = SEMS + 64; x.liveTracked = 0;
    for (int i = 0; i < MAXF; ++i) x.f[i].intrArmed = false;
    memset((void *)SEMS, 0, 64 * 256);
    nNamed = 0; nFails = 0; nCounts = 0; nDelivered = 0; descN = 0; desc[0] = 0; nCaseLabels = 0; evs.clear(); prog.clear(); decs.clear(); decCur = 0; attrs = 0;
    for (; cellsDirty; cellsDirty &= cellsDirty - 1) memset(cells + ((size_t)__builtin_ctzll(cellsDirty) << 10), 0, 1024 * sizeof cells[0]);
    if (x.liveBlk == 0 && x.arenaTop > ARENA + 64) { memset(aState, 0, (x.arenaTop - ARENA) / 8 + 8); x.arenaTop = ARENA + 64; }
    else if (x.arenaTop > ARENA + (32u << 20)) { recycle = true; return; } // the shadow takes 14 times as much
    x.arenaBase = x.arenaTop;
    // strategy
    x.strat = 0; x.plainSw = false;
    {
        uint32_t r = schedRng.below(100);
        static const uint32_t P[] = {0, 4, 16, 64, 256, 512};
        if (r < 55) { x.strat = 0; for (int k = 0; k < 3; ++k) x.pKind[k] = P[schedRng.below(6)]; if (!x.pKind[0] && !x.pKind[1]) x.pKind[1] = 128; }
        else if (r < 85) {
            x.strat = 1; x.pctLow = 1u << 20;
            x.nPct = schedRng.below(6); uint64_t len = 30ull << schedRng.below(7);
            for (int i = 0; i < x.nPct; ++i) x.pctPts[i] = 1 + schedRng.below((uint32_t)len);
        } else if (r < 95) x.strat = 2;
        else x.strat = 3;
        x.plainSw = schedRng.below(8) == 0 && x.strat < 2;
        // the mode is part of the decisions so that a replay needs no seed
        uint64_t pt = x.points++;
        if (replaySched) { while (decCur < decsIn.n && decsIn[decCur].pt < pt) ++decCur; x.plainSw = decCur < decsIn.n && decsIn[decCur].pt == pt; x.strat = 3; }
        if (x.plainSw) decs.push({pt, 1});
    }
    cScen = s->name; cProp = s->prop;
    x.nF = 1; fiberInit(0, mainFiber, (void *)s->run);
    x.f[0].fn = mainFiber;
    static Fiber rootSave;
    if (!rootSave.tls) rootSave.tls = (char *)calloc(1, tlsSize + 16);
    memcpy(rootSave.tls, tlsAddr, tlsSize); memcpy(tlsAddr, x.f[0].tls, tlsSize);
    x.active = true;
    vt_switch(&x.rootSp, x.f[0].sp);
    x.active = false;
    memcpy(tlsAddr, rootSave.tls, tlsSize);
    if (!x.dead) {
        if (x.leak && x.liveTracked > 0) leakReport();
        if (x.leak && x.liveSem > 0) { char b[100]; snprintf(b, sizeof b, "%d semaphore(s) never released", x.liveSem); die("leak", b); }
        for (int i = 1; i < x.nF && x.leak; ++i) if (x.f[i].created && !x.f[i].isDetached && !x.f[i].joined) die("leak", "a thread was neither joined nor detached");
    }
    ++nEval; totSteps += x.steps; totPoints += x.points; totSwitch += decs.n; totEintr += x.eintrs; totThreads += x.nF; ++stratCount[x.strat];
    if (x.discarded) ++nDisc;
    else if (x.nontriv) {
        ++nNontriv;
        uint64_t h = hashStr(s->name);
        for (size_t i = 0; i < prog.n; ++i) h = (h ^ prog[i]) * 1099511628211ull + i;
        h ^= x.schedHash * 0x9E3779B97F4A7C15ull;
        hashes.push(h);
        if (samples.n < 3 && descN) { char *m = (char *)malloc(descN + 200); snprintf(m, descN + 200, "[%s #%ld, %llu steps, %zu switches] %s", s->name, cIdx, (unsigned long long)x.steps, decs.n, desc); samples.push(m); }
    }
    for (int i = 0; i < nCaseLabels; ++i) countLabel(caseLabels[i]);
    { char lb[128]; snprintf(lb, sizeof lb, "scenario:%s", s->name); countLabel(lb); }
}

void jsonStr(FILE *f, const char *s) { fputc('"', f); for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
void writeStats(const char *path) {
    FILE *f = fopen(path, "w"); if (!f) return;
    fprintf(f, "{\"config\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"steps\":%llu,\"points\":%llu,\"switches\":%llu,\"eintr\":%llu,\"threads\":%llu,\"strategies\":[%llu,%llu,%llu,%llu],\"next\":%ld,\"labels\":{",
            confName, (unsigned long long)nEval, (unsigned long long)nNontriv, (unsigned long long)nDisc, (unsigned long long)totSteps, (unsigned long long)totPoints, (unsigned long long)totSwitch,
            (unsigned long long)totEintr, (unsigned long long)totThreads, (unsigned long long)stratCount[0], (unsigned long long)stratCount[1], (unsigned long long)stratCount[2], (unsigned long long)stratCount[3], nextIdx);
    for (size_t i = 0; i < labels.n; ++i) { if (i) fputc(',', f); jsonStr(f, labels[i].n); fprintf(f, ":%llu", (unsigned long long)labels[i].c); }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.n; ++i) { if (i) fputc(',', f); jsonStr(f, samples[i]); }
    fprintf(f, "]}\n"); fclose(f);
    char hp[4096]; snprintf(hp, sizeof hp, "%s.hash", path);
    f = fopen(hp, "wb"); if (f) { fwrite(hashes.d, 8, hashes.n, f); fclose(f); }
}
int64_t realNs() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t, 0, 0, 0, 0); return t.tv_sec * BIL + t.tv_nsec; }

vt::Scenario *find(const char *prop, const char *name) { for (auto *s = vt::scenarios; s; s = s->next) if (!strcmp(s->prop, prop) && !strcmp(s->name, name)) return s; return nullptr; }
// scenarios of a property, in a stable order
int listOf(const char *prop, vt::Scenario **out, int cap, const char *only) {
    int n = 0;
    for (auto *s = vt::scenarios; s; s = s->next) if (!strcmp(s->prop, prop) && (only ? !strcmp(s->name, only) : s->weight > 0)) if (n < cap) out[n++] = s;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (strcmp(out[i]->name, out[j]->name) > 0) { auto *t = out[i]; out[i] = out[j]; out[j] = t; }
    return n;
}
bool loadRecord(const char *path, char *prop, char *scen) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char *line = (char *)malloc(1 << 22);
    while (fgets(line, 1 << 22, f)) {
        if (!strncmp(line, "prop ", 5)) sscanf(line + 5, "%63s", prop);
        else if (!strncmp(line, "scenario ", 9)) sscanf(line + 9, "%127s", scen);
        else if (!strncmp(line, "kind ", 5)) sscanf(line + 5, "%63s", wantKind);
        else if (!strncmp(line, "prog", 4)) { char *p = line + 4; char *e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; progIn.push((uint32_t)v); p = e; } }
        else if (!strncmp(line, "sched", 5)) { char *p = line + 5; char *e; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p || *e != ':') break; p = e + 1; unsigned long d = strtoul(p, &e, 10); decsIn.push({v, (uint32_t)d}); p = e; } }
        else if (!strncmp(line, "desc", 4)) break;
    }
    fclose(f); return true;
}
const char *arg(int c, char **v, const char *n, const char *d) { for (int i = 1; i + 1 < c; ++i) if (!strcmp(v[i], n)) return v[i + 1]; return d; }
bool flag(int c, char **v, const char *n) { for (int i = 1; i < c; ++i) if (!strcmp(v[i], n)) return true; return false; }
} // namespace

int main(int argc, char **argv) {
    setup();
    recPath = arg(argc, argv, "--rec", nullptr);
    verbose = flag(argc, argv, "--verbose");
    snapshotData();
    const char *out = arg(argc, argv, "--out", nullptr);
    if (flag(argc, argv, "--list")) { for (auto *s = vt::scenarios; s; s = s->next) printf("%s %s %u\n", s->prop, s->name, s->weight); return 0; }
    const char *rp = arg(argc, argv, "--replay", nullptr), *se = arg(argc, argv, "--search", nullptr);
    if (rp || se) {
        static char prop[64], scen[128];
        if (!loadRecord(rp ? rp : se, prop, scen)) { fprintf(stderr, "cannot read record\n"); return 9; }
        auto *s = find(prop, scen); if (!s) { fprintf(stderr, "no scenario %s %s\n", prop, scen); return 9; }
        replayProg = true;
        if (rp) { replaySched = true; armWatchdog(120); runCase(s); printf("PASS\n"); if (verbose) { outf(1, "%s\n", desc); } return 0; }
        long n = atol(arg(argc, argv, "--n", "200")); uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
        for (long i = 0; i < n; ++i) { schedRng.s = mix(seed, 77 + i); cIdx = i; armWatchdog(60); runCase(s); }
        printf("PASS\n"); return 0;
    }
    const char *prop = arg(argc, argv, "--prop", "");
    const char *only = arg(argc, argv, "--scen", nullptr);
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    long from = atol(arg(argc, argv, "--from", "0")), to = atol(arg(argc, argv, "--to", "100")), step = atol(arg(argc, argv, "--step", "1"));
    double secs = atof(arg(argc, argv, "--secs", "1e9"));
    static vt::Scenario *sc[64]; int ns = listOf(prop, sc, 64, only);
    if (!ns) { fprintf(stderr, "no scenario for %s\n", prop); return 9; }
    uint32_t tw = 0; for (int i = 0; i < ns; ++i) tw += sc[i]->weight ? sc[i]->weight : 1;
    cSeed = seed; cFrom = from; cStep = step;
    int64_t t0 = realNs();
    for (long i = from; i < to; i += step) {
        cIdx = i;
        uint64_t cs = mix(mix(seed, hashStr(prop)), (uint64_t)i);
        progRng.s = mix(cs, 1); schedRng.s = mix(cs, 2);
        uint32_t w = (uint32_t)(mix(cs, 3) % tw); int k = 0;
        for (;; ++k) { uint32_t x = sc[k]->weight ? sc[k]->weight : 1; if (w < x) break; w -= x; }
        if ((i / step) % 64 == 0) armWatchdog(120);
        runCase(sc[k]);
        if (recycle) { nextIdx = i; break; }
        nextIdx = i + step;
        if ((i / step) % 16 == 0 && (double)(realNs() - t0) > secs * 1e9) break;
    }
    if (out) writeStats(out); else printf("ok: %llu cases, %llu nontrivial\n", (unsigned long long)nEval, (unsigned long long)nNontriv);
    return 0;
}
