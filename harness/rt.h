// Runtime for controlled-concurrency property testing of oqpi.
//
// The code under test is compiled with clang's -fsanitize=thread *instrumentation* only and linked
// against rt.cpp, which implements the instrumentation callbacks, the threads (as fibers), the
// pthread/semaphore/clock/sleep calls and the allocator. Every execution is then a pure function of
// a generated program (choice stream) and a generated schedule (decision stream).
//
// Everything here is implemented in rt.cpp, which is not instrumented: none of these functions adds
// happens-before edges, and only the ones marked [sp] are points where the schedule may switch.
#pragma once
#include <cstdint>
#include <cstddef>

namespace vt {

// ---- program generation (to be used before/between concurrent phases, or from any fiber if the
//      order of calls does not depend on the schedule)
uint32_t pick(uint32_t n);                       // uniform in [0,n), recorded
int      range(int lo, int hi);                  // inclusive
bool     chance(uint32_t num, uint32_t den);     // true with probability num/den; 0 shrinks to false
uint64_t bits(int n);                            // n random bits

// ---- scheduling
void     yield();                                // [sp]
int      self();                                 // id of the running fiber (0 = main)
bool     inFiber();
uint64_t steps();
int64_t  now();                                  // virtual CLOCK_MONOTONIC, ns
void     sleepNs(int64_t ns);                    // [sp] virtual sleep
void     advance(int64_t ns);                    // moves the virtual clock
void     setWallPhase(int64_t nsOfSecond);       // sets the sub-second phase of CLOCK_REALTIME
int64_t  wall();                                 // virtual CLOCK_REALTIME, ns
int      spawnRaw(void (*fn)(void *), void *arg);// a client fiber
void     joinRaw(int id);                        // [sp] HB edge, like pthread_join
int      liveFibers();                           // fibers started and not finished, without main
int      blockedFibers();                        // of those, how many are blocked
bool     isBlocked(int fiber);
bool     isFinished(int fiber);
// Runs other fibers until all of them are blocked or finished (true), or gives up (false).
bool     settle();
const char *nameOf(int fiber);
int      createdThreads();                       // threads created through pthread_create so far
size_t   stackSizeOf(int fiber);                 // requested through attributes, 0 = default
uint64_t affinityOf(int fiber);                  // 0 = never set
int      sysPriorityOf(int fiber);               // -1 = never set
bool     detached(int fiber);
int      liveSems();                             // semaphores initialised/opened and not released
int      namedSems();                            // names that exist
bool     nameExists(const char *posixName);
int64_t  semOps();

// A gate: fibers block in pass() until open() is called. HB edges from open to pass only when hb.
struct Gate { int id; };
Gate     makeGate();
void     openGate(Gate g, bool hb = false);      // [sp]
void     passGate(Gate g, bool hb = false);      // [sp]

// ---- knobs of one execution (call before the concurrent phase)
// Race detector: 0 off, 1 everything, 2 only memory registered with watch()
void     enableRaces(int mode);
void     watch(const volatile void *p, size_t n);
void     setDrift(int64_t nsPerStep);            // how fast the clock runs while fibers are running
void     enableTimeJumps(bool on);               // timed waits may expire while others are runnable
void     enableEintr(uint32_t permille);         // blocking calls may be interrupted
void     enableLeakCheck(bool on);               // no live heap block / semaphore at the end
void     allowDeadlock(bool on);                 // a deadlock ends the execution quietly
bool     deadlocked();
void     expectTraps(bool on);                   // breakpoints of the library (failed checks) are counted instead of being failures
int64_t  traps();
void     maxSteps(uint64_t n);
uint64_t eintrDelivered();
void     armEintr();                             // interrupt every blocking call once from now on

// faults: the nth next call (0 = next) of the named system call fails with the given error;
// nth < 0 cancels what is pending for that call
void     failCall(const char *name, int nth, int err, bool always = false); // always: and all later ones
int      callCount(const char *name);
int      failuresDelivered();                    // calls that failed because of it so far
void     grantRealtime(bool on, int minPrio, int maxPrio, int limit = -1); // limit: RLIMIT_RTPRIO
void     setCpuCount(int n);

// ---- outcome
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void     label(const char *name);                // counts the case under a class
void     nontrivial(bool b = true);              // this case counts as non-trivial
void     describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void     discard();                              // execution does not count (and is reported as such)

#define VT_CHECK(cond, kind, ...) do { if (!(cond)) ::vt::fail(kind, __VA_ARGS__); } while (0)

// ---- event log shared by all fibers, outside of the instrumented world
struct Ev { int kind; int64_t a, b; int fiber; int64_t t; };
size_t   log(int kind, int64_t a = 0, int64_t b = 0);
struct Events { const Ev *b; size_t n;
    const Ev *begin() const { return b; } const Ev *end() const { return b + n; }
    size_t size() const { return n; } const Ev &operator[](size_t i) const { return b[i]; } };
Events   events();
// Uninstrumented shared cells (counters the oracles use)
int64_t  cell(int i);
int64_t  cellSet(int i, int64_t v);
int64_t  cellAdd(int i, int64_t d);              // returns the new value
void     cellMax(int i, int64_t v);
constexpr int CELLS = 1 << 16;

struct Quiet { Quiet(); ~Quiet(); };             // heap blocks allocated inside are not tracked

// ---- scenarios
struct Scenario {
    const char *prop; const char *name; void (*run)(); uint32_t weight;
    Scenario *next;
    Scenario(const char *p, const char *n, void (*r)(), uint32_t w = 1);
};
#define VT_SCENARIO(prop, name, weight) \
    static void scen_##prop##_##name(); \
    static ::vt::Scenario reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
    static void scen_##prop##_##name()

} // namespace vt
