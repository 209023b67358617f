// Deterministic simulator runtime: public interface used by the harnesses.
//
// One run is a pure function of (binary, Case).  A Case is the explicit list
// of operations, armed faults, tuning parameters and - when it comes from a
// minimised replay file - the explicit schedule.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vsim {

// ---------------------------------------------------------------- PRNG ----
struct Rng {
    std::uint64_t s[2];
    explicit Rng(std::uint64_t seed = 1) { reseed(seed); }
    static std::uint64_t mix(std::uint64_t& x) {
        std::uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(std::uint64_t seed) {
        s[0] = mix(seed);
        s[1] = mix(seed);
    }
    std::uint64_t next() {
        std::uint64_t a = s[0], b = s[1];
        std::uint64_t r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::int64_t range(std::int64_t lo, std::int64_t hi) {
        return lo + static_cast<std::int64_t>(
                        below(static_cast<std::uint64_t>(hi - lo + 1)));
    }
    bool chance(double p) {
        return static_cast<double>(next() >> 11) * 0x1.0p-53 < p;
    }
    template <class C>
    auto pick(const C& c) -> decltype(c[0]) {
        return c[below(c.size())];
    }
    std::size_t pick_w(std::initializer_list<int> w) {
        int t = 0;
        for (int x : w) t += x;
        if (t <= 0) return 0;
        int r = static_cast<int>(below(static_cast<std::uint64_t>(t)));
        std::size_t i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            ++i;
        }
        return 0;
    }
};

// ---------------------------------------------------------------- Case ----
/// Sites at which the simulator can inject a fault.
enum Site : int {
    F_UP = 0,   ///< upstream resource: allocate throws std::bad_alloc
    F_UPX,      ///< upstream resource: allocate throws another exception
    F_NEW,      ///< bookkeeping allocation (operator new) throws bad_alloc
    F_MALLOC,   ///< C library allocation returns a null pointer
    F_HOOK,     ///< user callback throws
    F_CTOR,     ///< user element constructor throws
    F_PRED,     ///< user predicate / decision function throws
    F_COPY,     ///< copy back-end operation fails
    F_API,      ///< accelerator runtime call returns an error
    F_CLOCK,    ///< wall clock steps (argument: signed milliseconds)
    F_STALL,    ///< asynchronous operation is stalled
    F_NSITES
};
const char* site_name(int s);

struct Fault {
    int site = 0;
    int nth = 0;        ///< fires at the nth (0-based) visit within the op
    std::int64_t arg = 0;
};

struct Op {
    int tid = 0;
    int kind = 0;
    std::int64_t a[6] = {0, 0, 0, 0, 0, 0};
    std::vector<Fault> faults;
};

struct Case {
    std::string harness;
    std::string prop;
    std::uint64_t seed = 0;
    std::map<std::string, std::int64_t> par;
    std::vector<Op> ops;
    /// explicit schedule (replay mode): step -> thread, index -> choice
    bool explicit_sched = false;
    std::map<std::uint64_t, int> pre;
    std::map<std::uint64_t, std::uint64_t> dec;

    std::int64_t p(const char* k, std::int64_t d = 0) const {
        auto it = par.find(k);
        return it == par.end() ? d : it->second;
    }
    std::string text() const;
    static bool parse(const std::string& txt, Case& out);
};

// ------------------------------------------------------------- Harness ----
struct Harness {
    const char* name;
    void (*gen)(Rng&, Case&);
    void (*run)(const Case&);
    /// names of op kinds, for readable traces
    const char* const* kinds;
    int nkinds;
    const char* describe;  ///< rule text for the evidence
};
void register_harness(const Harness& h);
struct Registrar {
    explicit Registrar(const Harness& h) { register_harness(h); }
};

// ------------------------------------------------------------ Run state ---
/// Is the oracle of property @c id being evaluated in this run?
bool want(const char* id);
/// Report a violation of property @c id (ends the run if it is wanted).
void fail(const char* id, const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
/// Violation that belongs to whichever property is being decided.
[[noreturn]] void fail_any(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
/// Harness is broken: error exit, never reported as a violation.
[[noreturn]] void harness_error(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
/// Skip the rest of this run without a verdict (counted)
[[noreturn]] void abandon(const char* why);

#define VSIM_CHECK(prop, cond, cls, ...)                        \
    do {                                                        \
        if (!(cond)) ::vsim::fail(prop, cls, __VA_ARGS__);      \
    } while (0)

/// Add to the event log (hashed; printed in replay mode).
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/// Reach probes / fault counters, summed over all runs.
void count(const char* name, std::uint64_t n = 1);
/// Mark this run as non-trivial (it reached the state the property is about)
void nontrivial();
/// Add to the abstract-state coverage set
void state(std::uint64_t h);

/// Environment choice (0 .. n-1), taken from the schedule stream.
std::uint64_t choose(std::uint64_t n);

// Faults ---------------------------------------------------------------
/// Arm the faults of an operation for the current simulated thread.
void arm(const Op& op);
void disarm();
/// To be called at a fault site: true if a fault fires here.
bool fire(int site, std::int64_t* arg = nullptr);
bool any_fired();  ///< did any fault of the armed operation fire?
bool fired(int site);

// Simulation scope -----------------------------------------------------
/// Library code runs inside SimScope; harness/model code inside HostScope.
struct SimScope {
    SimScope();
    ~SimScope();
    bool prev;
    SimScope(const SimScope&) = delete;
};
struct HostScope {
    HostScope();
    ~HostScope();
    bool prev;
    HostScope(const HostScope&) = delete;
};
/// Code standing in for a device kernel: may only touch device memory.
struct DeviceScope {
    DeviceScope();
    ~DeviceScope();
    bool prev;
    DeviceScope(const DeviceScope&) = delete;
};

// Threads ---------------------------------------------------------------
/// Run the given bodies as simulated threads 1..n, to completion, under the
/// seeded scheduler.  Returns when all are finished.
void run_threads(const std::vector<std::function<void()>>& bodies);
/// Explicit scheduling point
void yield_point();
/// Current simulated thread (0 = main)
int tid();
/// Global event sequence number (monotonic)
std::uint64_t seq();
/// Switch on/off data race detection
void race_detection(bool on);
/// Simulate the C++ memory model: atomic loads may return stale values as far
/// as their memory order allows it
void weak_memory(bool on);
/// Plain accesses of this memory are relaxed atomic ones: the machine does not
/// tear them, and they order nothing by themselves (device memory models).
void plain_atomics(const void* p, std::size_t n);
/// happens-before edge helpers for simulated devices
struct Clock;
std::uint64_t sched_steps();

// Heap -------------------------------------------------------------------
/// Number of live blocks on the simulated host heap
std::size_t heap_live();
std::size_t heap_live_bytes();
/// Describe live blocks (for leak messages)
std::string heap_describe(int maxn = 4);
bool heap_owns(const void* p);
bool heap_block(const void* p, std::size_t& size);

/// Simulated address ranges.
/// VIRT: pure addresses, never backed; any access is a violation.
constexpr std::uintptr_t VIRT_BASE = 0x300000000000ull;
constexpr std::uintptr_t VIRT_SIZE = 0x080000000000ull;  // 8 TiB
/// DEV: simulated device memory, backed, host may not touch it.
constexpr std::uintptr_t DEV_BASE = 0x200000000000ull;
constexpr std::uintptr_t DEV_SIZE = 1ull << 28;
/// MAN: managed / pinned memory, reachable from both sides.
constexpr std::uintptr_t MAN_BASE = 0x210000000000ull;
constexpr std::uintptr_t MAN_SIZE = 1ull << 28;
/// HEAP: simulated host heap
constexpr std::uintptr_t HEAP_BASE = 0x220000000000ull;
constexpr std::uintptr_t HEAP_SIZE = 1ull << 30;
/// Stacks of simulated threads
constexpr std::uintptr_t STK_BASE = 0x230000000000ull;
constexpr std::uintptr_t STK_SIZE = 1ull << 20;

inline bool in_dev(const void* p) {
    return reinterpret_cast<std::uintptr_t>(p) - DEV_BASE < DEV_SIZE;
}
inline bool in_man(const void* p) {
    return reinterpret_cast<std::uintptr_t>(p) - MAN_BASE < MAN_SIZE;
}
inline bool in_heap(const void* p) {
    return reinterpret_cast<std::uintptr_t>(p) - HEAP_BASE < HEAP_SIZE;
}
bool in_stack(const void* p);
/// Generic allocation in region 0=HEAP 1=DEV 2=MAN; null when exhausted.
void* region_alloc(int region, std::size_t size, std::size_t align);
/// Free; returns false if p is not the beginning of a live block.
bool region_free(int region, void* p);
bool region_block(int region, const void* p, void** base, std::size_t& size);
/// Is [p, p+n) inside live memory of its region?
bool range_live(const void* p, std::size_t n);
std::size_t region_live(int region);

// Clock --------------------------------------------------------------------
std::uint64_t now_ns();
void advance_ns(std::uint64_t d);
void step_wall_clock(std::int64_t ns);

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char b[512];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
}  // namespace vsim
