// Deterministic simulator runtime (not instrumented).
//
// The code under test is compiled with clang's -fsanitize=thread
// instrumentation pass, but linked against this file instead of the TSan
// runtime.  Every memory access, atomic operation and function entry of the
// code under test therefore calls into the simulator.
#include "vsim.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <asm/prctl.h>
#include <linux/futex.h>
#include <cstdarg>

#include <algorithm>
#include <exception>
#include <new>
#include <set>
#include <sstream>
#include <typeinfo>
#include <cxxabi.h>

#define NOINST __attribute__((no_sanitize("thread")))
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using uptr = std::uintptr_t;

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}

namespace vsim {

// ------------------------------------------------------ shared with parent
struct Counter {
    char name[56];
    u64 n;
};
struct Shared {
    volatile int viol;  // 0 none, 1 violation, 2 harness error
    char vprop[16];
    char vcls[96];
    char vmsg[2048];
    u64 vhash;
    u64 cur_run;
    u64 next_run;
    u64 done_runs;
    u64 nontrivial_runs;
    u64 abandoned;
    u64 known_hits;
    u64 sim_ns;
    u64 steps;
    u64 switches;
    u64 accesses;
    u64 last_hash;
    int ncnt;
    Counter cnt[384];
    u64 nhash;
    u64 hashes[1u << 22];
    u64 nstate;
    u64 stateset[1u << 21];
    u64 vcase_len;
    char vcase[1u << 21];
    u64 vlog_len;
    char vlog[1u << 18];
};

// ------------------------------------------------------------- VC, races --
constexpr int MAXT = 8;
struct VC {
    u32 c[MAXT];
    void join(const VC& o) {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
    void clear() { memset(c, 0, sizeof c); }
};

struct Slot {
    u32 clk;
    u8 tid;
    u8 mask;
    u8 type;  // 1 write, 2 atomic, 0x80 used
    u8 pad;
    u64 pc;
};
struct Cell {
    uptr key;
    u64 epoch;
    u32 next;
    Slot s[8];
};
struct SyncVar {
    uptr key;
    u64 epoch;
    VC vc;
};

// weak memory mode: the modification order of an atomic variable
struct WStore {
    u64 v;
    VC rel;
    u32 clk;
    u8 tid;
};
struct WLoc {
    std::vector<WStore> st;
    u64 base = 0;   // modification order index of st[0]
    u64 lastsc = 0; // index of the last sequentially consistent store
    // per thread: (clock, newest index read)
    std::vector<std::pair<u32, u64>> rd[MAXT];
};

enum FState { FS_FREE, FS_RUN, FS_BLOCKED, FS_DONE };
struct Fiber {
    void* sp;
    uptr fs;
    uptr stk_lo, stk_hi;
    int id;
    FState st;
    bool sim, dev;
    const void* wait_on;
    bool timed;
    u64 deadline;
    bool timed_out;
    std::function<void()>* body;
    VC vc, pend, relf;
    VC scvis;  // weak memory: what sequentially consistent fences revealed
    bool has_relf;
    int prio;
    // armed faults
    const Op* op;
    int visits[F_NSITES];
    int nfired;
    u32 fired_mask;
    // shadow call stack
    uptr cs[64];
    int csn;
};

struct Mutex {
    const void* key;
    int owner;  // -1 free
    int depth;
    int readers;
    u32 rmask;
    VC vc;
};

struct Block {
    uptr base;
    size_t size;
    bool live;
    u8 kind;  // 0 region 1 new 2 malloc
    u32 seqno;
    uptr pc[6];
};
struct Region {
    uptr base, size;
    uptr bump;
    u8* shadow;
    std::vector<Block> blocks;
    size_t nlive, live_bytes;
};

struct G {
    Shared* sh = nullptr;
    bool inited = false;
    bool running = false;
    bool replay_verbose = false;
    bool in_child = false;
    std::string prop;
    std::set<std::string> known;
    const Case* cs = nullptr;
    Rng sched_rng;
    u64 hash = 0;
    u64 seq = 0;
    u64 mono = 0;
    std::int64_t wall_off = 0;
    u64 start_mono = 0;
    u64 accesses = 0;
    u64 dec_idx = 0;
    std::map<u64, u64> rec_dec;
    std::map<u64, int> rec_pre;
    bool nontriv = false;
    // fibers
    Fiber f[MAXT];
    Fiber* cur = nullptr;
    Fiber boot;
    int nthreads = 0;
    bool threads = false;
    u64 step = 0, switches = 0;
    u64 run_len = 0;
    bool races = false;
    uptr pa_lo = 0, pa_hi = 0;  ///< see plain_atomics()
    bool weak = false;
    std::map<uptr, WLoc>* wloc = nullptr;
    VC scf, scst;  // clocks of SC fences and SC stores, per thread
    int strategy = 0;
    u64 countdown = 0;
    double pswitch = 0;
    std::vector<u64> change_pts;
    int pool = 0;
    uptr poolfs[MAXT];
    // tables
    Cell* cells = nullptr;
    SyncVar* syncs = nullptr;
    u64 epoch = 1;
    std::map<const void*, Mutex>* mtx = nullptr;
    std::map<const void*, int>* guards = nullptr;
    Region reg[3];
    std::string* logtext = nullptr;
    std::vector<std::string> log_ring;
    // snapshot
    char* snap = nullptr;
    size_t snap_n = 0;
    uptr tls_img = 0;
    size_t tls_filesz = 0, tls_memsz = 0, tls_align = 1;
    bool fsgs = false;
    u64 max_steps = 400000;
    u64 max_access = 60000000;
};
// the pointers never change after initialisation (see snapshot())
static G* g = nullptr;
static std::vector<Harness>* g_harness = nullptr;
constexpr u32 NCELL = 1u << 16;
constexpr u32 NSYNC = 1u << 12;

static void raw_viol(int kind, const char* id, const char* cls,
                     const char* msg);

static inline bool sim_on() { return g && g->running && g->cur->sim; }

SimScope::SimScope() : prev(g->cur->sim) { g->cur->sim = true; }
SimScope::~SimScope() { g->cur->sim = prev; }
HostScope::HostScope() : prev(g->cur->sim) { g->cur->sim = false; }
HostScope::~HostScope() { g->cur->sim = prev; }
DeviceScope::DeviceScope() : prev(g->cur->dev) { g->cur->dev = true; }
DeviceScope::~DeviceScope() { g->cur->dev = prev; }

struct RtScope {  // runtime internals never allocate on the simulated heap
    bool p;
    RtScope() : p(g->cur->sim) { g->cur->sim = false; }
    ~RtScope() { g->cur->sim = p; }
};

const char* site_name(int s) {
    static const char* const n[] = {"upstream_bad_alloc", "upstream_other_exc",
                                    "bookkeeping_new",    "malloc_null",
                                    "callback_throws",    "ctor_throws",
                                    "predicate_throws",   "copy_fails",
                                    "api_error",          "clock_step",
                                    "async_stall"};
    return s >= 0 && s < F_NSITES ? n[s] : "?";
}

void register_harness(const Harness& h) {
    if (!g_harness) g_harness = new std::vector<Harness>;
    g_harness->push_back(h);
}

// ------------------------------------------------------------------- Case -
std::string Case::text() const {
    std::ostringstream o;
    o << "vsim-case 1\nharness " << harness << "\nprop " << prop << "\nseed "
      << seed << "\n";
    for (auto& p : par) o << "par " << p.first << " " << p.second << "\n";
    const Harness* h = nullptr;
    for (auto& x : *g_harness)
        if (harness == x.name) h = &x;
    for (auto& op : ops) {
        o << "op " << op.tid << " " << op.kind;
        for (int i = 0; i < 6; ++i) o << " " << op.a[i];
        for (auto& f : op.faults)
            o << " ! " << f.site << " " << f.nth << " " << f.arg;
        if (h && op.kind < h->nkinds) {
            o << " # " << h->kinds[op.kind];
            for (auto& f : op.faults)
                o << " +" << site_name(f.site) << "@" << f.nth;
        }
        o << "\n";
    }
    if (explicit_sched) {
        o << "sched explicit\n";
        for (auto& p : pre) o << "pre " << p.first << " " << p.second << "\n";
        for (auto& p : dec) o << "dec " << p.first << " " << p.second << "\n";
    }
    o << "end\n";
    return o.str();
}

bool Case::parse(const std::string& txt, Case& c) {
    std::istringstream in(txt);
    std::string line;
    bool ok = false, end = false;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "vsim-case")
            ok = true;
        else if (w == "harness")
            l >> c.harness;
        else if (w == "prop")
            l >> c.prop;
        else if (w == "seed")
            l >> c.seed;
        else if (w == "par") {
            std::string k;
            std::int64_t v;
            l >> k >> v;
            c.par[k] = v;
        } else if (w == "op") {
            Op op;
            l >> op.tid >> op.kind;
            for (int i = 0; i < 6; ++i) l >> op.a[i];
            std::string b;
            while (l >> b) {
                if (b != "!") break;
                Fault f;
                l >> f.site >> f.nth >> f.arg;
                op.faults.push_back(f);
            }
            c.ops.push_back(op);
        } else if (w == "sched") {
            c.explicit_sched = true;
        } else if (w == "pre") {
            u64 s;
            int t;
            l >> s >> t;
            c.pre[s] = t;
        } else if (w == "dec") {
            u64 s, v;
            l >> s >> v;
            c.dec[s] = v;
        } else if (w == "end")
            end = true;
    }
    return ok && end;
}

// -------------------------------------------------------------------- log -
static void hash_bytes(const void* p, size_t n) {
    const u8* b = static_cast<const u8*>(p);
    u64 h = g->hash;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    g->hash = h;
}
static void hash_u64(u64 v) {
    g->hash = (g->hash ^ v) * 0x9E3779B97F4A7C15ull;
    g->hash ^= g->hash >> 29;
}

void log(const char* f, ...) {
    if (!g || !g->running) return;
    RtScope rs;
    char b[600];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= static_cast<int>(sizeof b)) n = sizeof b - 1;
    hash_bytes(b, static_cast<size_t>(n));
    char line[700];
    snprintf(line, sizeof line, "[%llu t%d s%llu] %s",
             static_cast<unsigned long long>(++g->seq), g->cur->id,
             static_cast<unsigned long long>(g->step), b);
    if (g->replay_verbose) {
        fprintf(stdout, "%s\n", line);
    }
    g->log_ring.push_back(line);
    if (g->seq == 2000000)
        fail_any("no-progress", "more than 2000000 events in one run");
    if (g->log_ring.size() > 400)
        g->log_ring.erase(g->log_ring.begin(), g->log_ring.begin() + 200);
}

void count(const char* name, u64 n) {
    Shared* s = g->sh;
    for (int i = 0; i < s->ncnt; ++i)
        if (!strcmp(s->cnt[i].name, name)) {
            s->cnt[i].n += n;
            return;
        }
    if (s->ncnt < 384) {
        strncpy(s->cnt[s->ncnt].name, name, 55);
        s->cnt[s->ncnt].n = n;
        ++s->ncnt;
    }
}
void nontrivial() { g->nontriv = true; }
void state(u64 h) {
    if (!h) h = 1;
    Shared* s = g->sh;
    u64 m = (1u << 21) - 1;
    if (s->nstate > (m / 4) * 3) return;
    u64 i = (h * 0x9E3779B97F4A7C15ull) >> 43;
    for (;; i = (i + 1) & m) {
        if (s->stateset[i & m] == h) return;
        if (!s->stateset[i & m]) {
            s->stateset[i & m] = h;
            ++s->nstate;
            return;
        }
    }
}

u64 seq() { return ++g->seq; }
u64 sched_steps() { return g->step; }

// ------------------------------------------------------------- violations -
bool want(const char* id) { return g->prop == id; }

static std::string pcs_of(Fiber* f) {
    std::string s;
    char b[32];
    int lo = f->csn > 10 ? f->csn - 10 : 0;
    for (int i = std::min(f->csn, 64) - 1; i >= lo && i >= 0; --i) {
        snprintf(b, sizeof b, " 0x%lx", static_cast<unsigned long>(f->cs[i]));
        s += b;
    }
    return s;
}

[[noreturn]] static void end_child(int code) {
    g->sh->last_hash = g->hash;
    _exit(code);
}

static void raw_viol(int kind, const char* id, const char* cls,
                     const char* msg) {
    if (g->cur) g->cur->sim = false;
    Shared* s = g->sh;
    s->viol = kind;
    snprintf(s->vprop, sizeof s->vprop, "%s", id);
    snprintf(s->vcls, sizeof s->vcls, "%s", cls);
    snprintf(s->vmsg, sizeof s->vmsg, "%s", msg);
    s->vhash = g->hash;
    if (g->cs) {
        Case c = *g->cs;
        if (!c.explicit_sched) {
            c.explicit_sched = true;
            c.pre = g->rec_pre;
            c.dec = g->rec_dec;
        }
        c.prop = g->prop;
        std::string t = c.text();
        if (t.size() < sizeof(s->vcase)) {
            memcpy(s->vcase, t.data(), t.size());
            s->vcase_len = t.size();
        }
    }
    std::string lg;
    for (auto& l : g->log_ring) {
        lg += l;
        lg += "\n";
    }
    if (lg.size() > sizeof(s->vlog) - 1)
        lg = lg.substr(lg.size() - sizeof(s->vlog) + 1);
    memcpy(s->vlog, lg.data(), lg.size());
    s->vlog_len = lg.size();
    if (g->replay_verbose) fflush(stdout);
}

static void do_fail(const char* id, const char* cls, const char* msg) {
    if (g->cur) g->cur->sim = false;
    std::string key = std::string(id) + " " + cls;
    if (g->known.count(key)) {
        ++g->sh->known_hits;
        count(("known:" + key).c_str());
        ++g->sh->abandoned;
        end_child(43);
    }
    raw_viol(1, id, cls, msg);
    end_child(42);
}

void fail(const char* id, const char* cls, const char* f, ...) {
    if (g->prop != id) {
        // not the property being decided: note it and carry on
        count("other-property-oracle-fired");
        return;
    }
    g->cur->sim = false;
    char b[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    do_fail(id, cls, b);
}
void fail_any(const char* cls, const char* f, ...) {
    g->cur->sim = false;
    char b[2000];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < 1500) {
        std::string s = pcs_of(g->cur);
        snprintf(b + n, sizeof b - static_cast<size_t>(n), " [pcs:%s]",
                 s.c_str());
    }
    do_fail(g->prop.c_str(), cls, b);
    end_child(42);
}
void harness_error(const char* f, ...) {
    if (g->cur) g->cur->sim = false;
    char b[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    raw_viol(2, g->prop.c_str(), "harness-error", b);
    end_child(44);
}
void abandon(const char* why) {
    if (g->cur) g->cur->sim = false;
    count((std::string("abandoned:") + why).c_str());
    ++g->sh->abandoned;
    end_child(43);
}

// -------------------------------------------------------------- decisions -
u64 choose(u64 n) {
    RtScope rs;
    u64 i = g->dec_idx++;
    u64 v = 0;
    if (g->cs->explicit_sched) {
        auto it = g->cs->dec.find(i);
        if (it != g->cs->dec.end() && n) v = it->second % n;
    } else {
        v = g->sched_rng.below(n);
        if (v) g->rec_dec[i] = v;
    }
    hash_u64(v + 0x1000);
    return v;
}

// ----------------------------------------------------------------- faults -
void arm(const Op& op) {
    Fiber* f = g->cur;
    f->op = &op;
    memset(f->visits, 0, sizeof f->visits);
    f->nfired = 0;
    f->fired_mask = 0;
}
void disarm() { g->cur->op = nullptr; }
bool fire(int site, std::int64_t* arg) {
    Fiber* f = g->cur;
    if (!f->op) return false;
    int v = f->visits[site]++;
    for (auto& x : f->op->faults)
        if (x.site == site && x.nth == v) {
            if (arg) *arg = x.arg;
            ++f->nfired;
            f->fired_mask |= 1u << site;
            char b[48];
            snprintf(b, sizeof b, "fault:%s", site_name(site));
            count(b);
            log("FAULT %s (visit %d)", site_name(site), v);
            return true;
        }
    return false;
}
bool any_fired() { return g->cur->nfired > 0; }
bool fired(int site) { return (g->cur->fired_mask >> site) & 1; }

// ---------------------------------------------------------------- regions -
static int region_of(uptr a) {
    if (a - HEAP_BASE < HEAP_SIZE) return 0;
    if (a - DEV_BASE < DEV_SIZE) return 1;
    if (a - MAN_BASE < MAN_SIZE) return 2;
    return -1;
}
static void region_reset(Region& r) {
    size_t used = r.bump - r.base;
    if (used) {
        size_t n = (used + 4096) / 8;
        if (n > (1u << 20))
            madvise(r.shadow, n, MADV_DONTNEED);
        memset(r.shadow, 0xee, std::min(n, r.size / 8));
        if (used > (8u << 20))
            madvise(reinterpret_cast<void*>(r.base), used, MADV_DONTNEED);
    }
    r.bump = r.base + 64;
    r.blocks.clear();
    r.nlive = r.live_bytes = 0;
}
static void* ralloc(Region& r, size_t size, size_t align, u8 kind) {
    RtScope rs;
    if (align < 16) align = 16;
    uptr b = (r.bump + align - 1) & ~(align - 1);
    size_t sz8 = (size + 7) & ~size_t(7);
    if (align > r.size || sz8 < size || b < r.bump ||
        b - r.base >= r.size || sz8 > r.size - 4096 ||
        b - r.base + sz8 + 4096 > r.size)
        return nullptr;
    // make sure new shadow beyond earlier high mark is poisoned
    uptr nb = b + sz8 + 32;
    memset(r.shadow + (r.bump - r.base) / 8, 0xee, (nb - r.bump) / 8 + 1);
    u8* sh = r.shadow + (b - r.base) / 8;
    memset(sh, 0, size / 8);
    if (size % 8) sh[size / 8] = static_cast<u8>(size % 8);
    r.bump = nb;
    memset(reinterpret_cast<void*>(b), 0xbe,
           size > 65536 ? size_t(65536) : size);
    Block bl;
    bl.base = b;
    bl.size = size;
    bl.live = true;
    bl.kind = kind;
    bl.seqno = static_cast<u32>(r.blocks.size());
    for (int i = 0; i < 6; ++i) {
        int k = std::min(g->cur->csn, 64) - 1 - i;
        bl.pc[i] = k >= 0 ? g->cur->cs[k] : 0;
    }
    r.blocks.push_back(bl);
    ++r.nlive;
    r.live_bytes += size;
    return reinterpret_cast<void*>(b);
}
static Block* rfind(Region& r, uptr a) {
    auto it = std::upper_bound(
        r.blocks.begin(), r.blocks.end(), a,
        [](uptr v, const Block& b) { return v < b.base; });
    if (it == r.blocks.begin()) return nullptr;
    --it;
    if (a < it->base + std::max<size_t>(it->size, 1)) return &*it;
    return nullptr;
}
static int rfree(Region& r, void* p, int kind) {
    RtScope rs;
    uptr a = reinterpret_cast<uptr>(p);
    Block* b = rfind(r, a);
    if (!b || b->base != a) return 1;
    if (!b->live) return 2;
    if (kind >= 0 && b->kind != kind) return 3;
    b->live = false;
    --r.nlive;
    r.live_bytes -= b->size;
    memset(r.shadow + (b->base - r.base) / 8, 0xfd, (b->size + 7) / 8);
    memset(p, 0xdd, b->size > 65536 ? size_t(65536) : b->size);
    return 0;
}
void* region_alloc(int reg, size_t size, size_t align) {
    return ralloc(g->reg[reg], size, align, 0);
}
bool region_free(int reg, void* p) { return rfree(g->reg[reg], p, -1) == 0; }
bool region_block(int reg, const void* p, void** base, size_t& size) {
    Block* b = rfind(g->reg[reg], reinterpret_cast<uptr>(p));
    if (!b || !b->live) return false;
    if (base) *base = reinterpret_cast<void*>(b->base);
    size = b->size;
    return true;
}
static int shadow_bad(uptr a, size_t n) {
    int r = region_of(a);
    if (r < 0) return 0;
    Region& R = g->reg[r];
    for (uptr x = a; x < a + n;) {
        if (region_of(x) != r) return 1;
        u8 s = R.shadow[(x - R.base) / 8];
        uptr e = std::min((x | 7) + 1, a + n);
        if (s) {
            if (s >= 8) return s == 0xfd ? 2 : 1;
            if (((e - 1) & 7) >= s) return 1;
        }
        x = e;
    }
    return 0;
}
bool range_live(const void* p, size_t n) {
    return shadow_bad(reinterpret_cast<uptr>(p), n) == 0;
}
size_t region_live(int r) { return g->reg[r].nlive; }
size_t heap_live() { return g->reg[0].nlive; }
size_t heap_live_bytes() { return g->reg[0].live_bytes; }
bool heap_owns(const void* p) { return in_heap(p); }
bool heap_block(const void* p, size_t& size) {
    return region_block(0, p, nullptr, size);
}
std::string heap_describe(int maxn) {
    std::string s;
    char b[256];
    for (auto& x : g->reg[0].blocks)
        if (x.live && maxn-- > 0) {
            snprintf(b, sizeof b, " #%u size %zu kind %d at", x.seqno, x.size,
                     x.kind);
            s += b;
            for (int i = 0; i < 5; ++i)
                if (x.pc[i]) {
                    snprintf(b, sizeof b, " 0x%lx",
                             static_cast<unsigned long>(x.pc[i]));
                    s += b;
                }
            s += ";";
        }
    return s;
}
bool in_stack(const void* p) {
    return reinterpret_cast<uptr>(p) - STK_BASE < STK_SIZE * MAXT;
}

// ------------------------------------------------------------------ clock -
u64 now_ns() { return g->mono; }
void advance_ns(u64 d) { g->mono += d; }
void step_wall_clock(std::int64_t ns) {
    g->wall_off += ns;
    count("fault:clock_step");
    log("CLOCK step %lld", static_cast<long long>(ns));
}

// ---------------------------------------------------------------- threads -
int tid() { return g->cur ? g->cur->id : 0; }
void race_detection(bool on) { g->races = on; }
void weak_memory(bool on) { g->weak = on; }
void plain_atomics(const void* p, std::size_t n) {
    g->pa_lo = reinterpret_cast<uptr>(p);
    g->pa_hi = g->pa_lo + n;
}

extern "C" void vsim_swap(void** from_sp, void* to_sp);
asm(R"(
.text
.globl vsim_swap
.type vsim_swap,@function
vsim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vsim_swap,.-vsim_swap
)");

static uptr get_fs() {
    uptr v = 0;
    syscall(SYS_arch_prctl, ARCH_GET_FS, &v);
    return v;
}
static inline __attribute__((always_inline)) void set_fs(uptr v) {
    if (g->fsgs)
        asm volatile("wrfsbase %0" ::"r"(v) : "memory");
    else {
        long r;
        asm volatile("syscall"
                     : "=a"(r)
                     : "a"(SYS_arch_prctl), "D"(ARCH_SET_FS), "S"(v)
                     : "rcx", "r11", "memory");
    }
}

// no stack protector / no TLS use in here
__attribute__((noinline, optnone)) static void switch_to(Fiber* to) {
    Fiber* from = g->cur;
    if (from == to) return;
    g->cur = to;
    if (from->fs != to->fs) set_fs(to->fs);
    vsim_swap(&from->sp, to->sp);
}

static void fiber_entry();
extern "C" void vsim_fiber_main() { fiber_entry(); }
asm(R"(
.text
.globl vsim_tramp
.type vsim_tramp,@function
vsim_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  callq vsim_fiber_main
  ud2
  .cfi_endproc
.size vsim_tramp,.-vsim_tramp
)");
extern "C" void vsim_tramp();

static void fiber_prepare(Fiber* f) {
    uptr top = f->stk_hi & ~uptr(15);
    top -= 64;
    void** sp = reinterpret_cast<void**>(top);
    *--sp = nullptr;
    *--sp = nullptr;  // keep the stack 16-byte aligned at the call
    *--sp = reinterpret_cast<void*>(&vsim_tramp);      // ret address
    for (int i = 0; i < 6; ++i) *--sp = nullptr;       // callee-saved
    --sp;
    u32 mx;
    unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    reinterpret_cast<u32*>(sp)[0] = mx;
    reinterpret_cast<u32*>(sp)[1] = cw;
    f->sp = sp;
}

static bool runnable(Fiber& f) { return f.st == FS_RUN; }

static Fiber* pick_search(bool cur_ok) {
    // search mode: strategy decides
    Fiber* cand[MAXT];
    int n = 0;
    for (int i = 1; i <= g->nthreads; ++i)
        if (runnable(g->f[i])) cand[n++] = &g->f[i];
    if (!n) return nullptr;
    if (g->strategy == 0) {
        if (cur_ok) {
            if (g->countdown > 0) {
                --g->countdown;
                return g->cur;
            }
            // geometric
            g->countdown = 0;
            while (g->countdown < 4000 && !g->sched_rng.chance(g->pswitch))
                ++g->countdown;
        }
        return cand[g->sched_rng.below(static_cast<u64>(n))];
    }
    // PCT: highest priority first, lowered at change points
    if (cur_ok &&
        std::binary_search(g->change_pts.begin(), g->change_pts.end(),
                           g->step)) {
        int lo = 0;
        for (int i = 1; i <= g->nthreads; ++i) lo = std::min(lo, g->f[i].prio);
        g->cur->prio = lo - 1;
    }
    Fiber* b = cand[0];
    for (int i = 1; i < n; ++i)
        if (cand[i]->prio > b->prio) b = cand[i];
    return b;
}

static void idle_or_deadlock() {
    // nobody runnable: jump the clock to the next deadline
    Fiber* b = nullptr;
    for (int i = 1; i <= g->nthreads; ++i)
        if (g->f[i].st == FS_BLOCKED && g->f[i].timed &&
            (!b || g->f[i].deadline < b->deadline))
            b = &g->f[i];
    if (b) {
        if (b->deadline > g->mono) g->mono = b->deadline;
        b->st = FS_RUN;
        b->timed_out = true;
        return;
    }
    std::string s;
    for (int i = 1; i <= g->nthreads; ++i)
        if (g->f[i].st == FS_BLOCKED) {
            char t[64];
            snprintf(t, sizeof t, " t%d waits;", i);
            s += t;
        }
    fail_any("deadlock", "no simulated thread can run:%s", s.c_str());
}

static void reschedule(bool cur_ok, bool want_other) {
    if (!g->threads) return;
    RtScope rs;
    ++g->step;
    g->mono += 7;
    if (g->step > g->max_steps)
        fail_any("livelock", "no completion within %llu scheduling steps",
                 static_cast<unsigned long long>(g->max_steps));
    for (;;) {
        bool any = false;
        bool all_done = true;
        for (int i = 1; i <= g->nthreads; ++i) {
            if (runnable(g->f[i])) any = true;
            if (g->f[i].st != FS_DONE) all_done = false;
        }
        if (all_done) {
            switch_to(&g->f[0]);
            return;
        }
        if (any) break;
        idle_or_deadlock();
    }
    Fiber* next = nullptr;
    int nrun = 0;
    for (int i = 1; i <= g->nthreads; ++i) nrun += runnable(g->f[i]);
    bool force = (want_other || g->run_len > 3000) && cur_ok && nrun > 1;
    if (g->cs->explicit_sched) {
        auto it = g->cs->pre.find(g->step);
        if (it != g->cs->pre.end() && it->second >= 1 &&
            it->second <= g->nthreads && runnable(g->f[it->second]))
            next = &g->f[it->second];
        else if (cur_ok && !force)
            next = g->cur;
    } else if (!force) {
        next = pick_search(cur_ok);
    }
    if (!next) {
        // rotate: next runnable after the current one
        int c = g->cur->id;
        for (int k = 1; k <= g->nthreads; ++k) {
            int i = (c - 1 + k) % g->nthreads + 1;
            if (c == 0) i = k;
            if (runnable(g->f[i]) && (i != c || nrun == 1)) {
                next = &g->f[i];
                break;
            }
        }
        if (!next) next = g->cur;
        if (g->run_len > 3000 && g->strategy == 1 && !g->cs->explicit_sched) {
            int lo = 0;
            for (int i = 1; i <= g->nthreads; ++i)
                lo = std::min(lo, g->f[i].prio);
            g->cur->prio = lo - 1;
        }
    }
    if (next != g->cur) {
        ++g->switches;
        g->run_len = 0;
        hash_u64((g->step << 8) | static_cast<u64>(next->id));
        if (!g->cs->explicit_sched) g->rec_pre[g->step] = next->id;
        switch_to(next);
    } else {
        ++g->run_len;
    }
}

static inline void sched_point() {
    if (g->threads && g->cur->id) reschedule(true, false);
}
void yield_point() { sched_point(); }

static void tls_reset(uptr fs) {
    if (!g->tls_memsz) return;
    size_t a = g->tls_align ? g->tls_align : 1;
    size_t sz = (g->tls_memsz + a - 1) & ~(a - 1);
    char* p = reinterpret_cast<char*>(fs - sz);
    memcpy(p, reinterpret_cast<void*>(g->tls_img), g->tls_filesz);
    memset(p + g->tls_filesz, 0, g->tls_memsz - g->tls_filesz);
}

static void fiber_entry() {
    for (;;) {
        Fiber* f = g->cur;
        try {
            (*f->body)();
        } catch (const std::exception& e) {
            // the harnesses expect exceptions wherever there may be one
            f->sim = false;
            fail(g->prop.c_str(), "unexpected-exception",
                 "an exception where there should be none: %s", e.what());
        } catch (...) {
            f->sim = false;
            fail(g->prop.c_str(), "unexpected-exception",
                 "an exception where there should be none");
        }
        f = g->cur;
        f->sim = false;
        f->st = FS_DONE;
        if (f->id == 0) {
            switch_to(&g->boot);
        } else {
            reschedule(false, false);
        }
    }
}

static void* pool_thread(void* arg) {
    *static_cast<volatile uptr*>(arg) = get_fs();
    for (;;) {
        static int never = 0;
        syscall(SYS_futex, &never, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    }
    return nullptr;
}

static void ensure_pool(int n) {
    while (g->pool < n) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 65536);
        pthread_t t;
        volatile uptr* slot = &g->poolfs[g->pool + 1];
        *slot = 0;
        // the new thread blocks signals
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_SETMASK, &all, &old);
        if (pthread_create(&t, &at, pool_thread,
                           const_cast<uptr*>(slot))) {
            fprintf(stderr, "pthread_create failed\n");
            _exit(45);
        }
        pthread_sigmask(SIG_SETMASK, &old, nullptr);
        while (!*slot) {
            syscall(SYS_sched_yield);
        }
        pthread_attr_destroy(&at);
        ++g->pool;
    }
}

void run_threads(const std::vector<std::function<void()>>& bodies) {
    RtScope rs;
    int n = static_cast<int>(bodies.size());
    if (n > MAXT - 1) harness_error("too many threads");
    ensure_pool(n);
    std::vector<std::function<void()>> b = bodies;
    Fiber& m = g->f[0];
    ++m.vc.c[0];
    for (int i = 1; i <= n; ++i) {
        Fiber& f = g->f[i];
        f.id = i;
        f.fs = g->poolfs[i];
        tls_reset(f.fs);
        f.st = FS_RUN;
        f.sim = f.dev = false;
        f.wait_on = nullptr;
        f.timed = f.timed_out = false;
        f.body = &b[static_cast<size_t>(i - 1)];
        f.vc = m.vc;
        f.vc.c[i] = 1;
        for (int k = 1; k <= n; ++k)
            if (k != i) f.vc.c[k] = std::min(f.vc.c[k], m.vc.c[k]);
        f.pend.clear();
        f.relf.clear();
        f.has_relf = false;
        f.op = nullptr;
        f.csn = 0;
        f.prio = g->cs->explicit_sched
                     ? 0
                     : static_cast<int>(g->sched_rng.below(1000)) + 1;
        fiber_prepare(&f);
    }
    // clocks of reused thread ids must stay monotonic over several phases
    for (int i = 1; i <= n; ++i) {
        g->f[i].vc.c[i] = m.vc.c[i] + 1;
    }
    g->nthreads = n;
    if (!g->cs->explicit_sched) {
        static const double ps[] = {0.5, 0.25, 0.1, 0.04, 0.015};
        g->strategy = g->sched_rng.chance(0.4) ? 1 : 0;
        g->pswitch = ps[g->sched_rng.below(5)];
        g->countdown = g->sched_rng.below(30);
        g->change_pts.clear();
        u64 d = 1 + g->sched_rng.below(4);
        u64 bound = u64(16) << g->sched_rng.below(8);
        for (u64 i = 0; i < d; ++i)
            g->change_pts.push_back(g->step + 1 + g->sched_rng.below(bound));
        std::sort(g->change_pts.begin(), g->change_pts.end());
    }
    g->threads = true;
    g->run_len = 0;
    reschedule(false, false);
    g->threads = false;
    for (int i = 1; i <= n; ++i) m.vc.join(g->f[i].vc);
    ++m.vc.c[0];
}

// ------------------------------------------------------------------ races -
static Cell* cell_for(uptr k) {
    u32 i = static_cast<u32>((k * 0x9E3779B97F4A7C15ull) >> 48) & (NCELL - 1);
    for (u32 n = 0; n < 64; ++n, i = (i + 1) & (NCELL - 1)) {
        Cell& c = g->cells[i];
        if (c.epoch != g->epoch) {
            memset(&c, 0, sizeof c);
            c.epoch = g->epoch;
            c.key = k;
            return &c;
        }
        if (c.key == k) return &c;
    }
    return nullptr;
}
static SyncVar* sync_for(uptr k, bool create) {
    u32 i = static_cast<u32>((k * 0x9E3779B97F4A7C15ull) >> 52) & (NSYNC - 1);
    for (u32 n = 0; n < NSYNC; ++n, i = (i + 1) & (NSYNC - 1)) {
        SyncVar& c = g->syncs[i];
        if (c.epoch != g->epoch) {
            if (!create) return nullptr;
            memset(&c, 0, sizeof c);
            c.epoch = g->epoch;
            c.key = k;
            return &c;
        }
        if (c.key == k) return &c;
    }
    return nullptr;
}
extern "C" char __data_start, _end;
extern "C" char __executable_start;
static bool shared_addr(uptr a) {
    if (region_of(a) >= 0) return true;
    if (a - STK_BASE < STK_SIZE * MAXT) return true;
    return a >= reinterpret_cast<uptr>(&__data_start) &&
           a < reinterpret_cast<uptr>(&_end);
}
static void race_check1(uptr granule, u8 mask, u8 type, uptr pc) {
    Cell* c = cell_for(granule);
    if (!c) return;
    int t = g->cur->id;
    VC& vc = g->cur->vc;
    int freei = -1, same = -1;
    for (int i = 0; i < 8; ++i) {
        Slot& s = c->s[i];
        if (!(s.type & 0x80)) {
            if (freei < 0) freei = i;
            continue;
        }
        if (s.tid == t) {
            if (s.mask == mask && (s.type & 3) == type) same = i;
            continue;
        }
        if (!(s.mask & mask)) continue;
        if (!((s.type | type) & 1)) continue;
        if ((s.type & 2) && (type & 2)) continue;
        if (s.clk > vc.c[s.tid]) {
            fail_any("data-race",
                     "%s%s by t%d at 0x%lx races with earlier %s%s by t%d at "
                     "0x%lx (address region %d)",
                     type & 2 ? "atomic " : "", type & 1 ? "write" : "read", t,
                     static_cast<unsigned long>(pc), s.type & 2 ? "atomic " : "",
                     s.type & 1 ? "write" : "read", s.tid,
                     static_cast<unsigned long>(s.pc),
                     region_of(granule << 3));
        }
    }
    int i = same >= 0 ? same : freei >= 0 ? freei : -1;
    if (i < 0) {
        // replace a slot that is ordered before us
        for (int k = 0; k < 8 && i < 0; ++k)
            if (c->s[k].clk <= vc.c[c->s[k].tid]) i = k;
        if (i < 0) i = static_cast<int>(c->next++ & 7);
    }
    Slot& s = c->s[i];
    s.clk = vc.c[t];
    s.tid = static_cast<u8>(t);
    s.mask = mask;
    s.type = static_cast<u8>(type | 0x80);
    s.pc = pc;
}
static void race_check(uptr a, size_t n, u8 type, uptr pc) {
    RtScope rs;
    uptr e = a + n;
    while (a < e) {
        uptr ge = std::min((a | 7) + 1, e);
        u8 mask = 0;
        for (uptr x = a; x < ge; ++x)
            mask = static_cast<u8>(mask | (1u << (x & 7)));
        race_check1(a >> 3, mask, type, pc);
        a = ge;
    }
}

// ---------------------------------------------------- access instrumentation
static void bad_access(uptr a, size_t n, bool w, int why, uptr pc) {
    int r = region_of(a);
    fail_any(why == 2 ? "use-after-free" : "out-of-bounds",
             "%s of %zu bytes in the %s region at +0x%lx, pc 0x%lx",
             w ? "write" : "read", n,
             r == 0 ? "heap" : r == 1 ? "device" : "managed",
             static_cast<unsigned long>(a - g->reg[r].base),
             static_cast<unsigned long>(pc));
}

static inline void access_slow(uptr a, size_t n, bool w, uptr pc, u8 atomic) {
    if (++g->accesses > g->max_access)
        fail_any("no-progress", "more than %llu memory accesses in one run",
                 static_cast<unsigned long long>(g->max_access));
    int r = region_of(a);
    if (r >= 0) {
        if (r == 1 && !g->cur->dev)
            fail_any("host-touches-device-memory",
                     "host code %s %zu bytes of device memory at +0x%lx, pc "
                     "0x%lx",
                     w ? "writes" : "reads", n,
                     static_cast<unsigned long>(a - DEV_BASE),
                     static_cast<unsigned long>(pc));
        if (r == 0 && g->cur->dev)
            fail_any("device-touches-host-memory",
                     "device code %s %zu bytes of host memory, pc 0x%lx",
                     w ? "writes" : "reads", n,
                     static_cast<unsigned long>(pc));
        int why = shadow_bad(a, n);
        if (why) bad_access(a, n, w, why, pc);
    } else if (a - VIRT_BASE < VIRT_SIZE) {
        fail_any("touches-upstream-memory",
                 "library code %s upstream memory at 0x%lx, pc 0x%lx",
                 w ? "writes" : "reads", static_cast<unsigned long>(a),
                 static_cast<unsigned long>(pc));
    }
    if (g->threads && g->cur->id) {
        bool own = a >= g->cur->stk_lo && a < g->cur->stk_hi;
        if (!own && shared_addr(a)) {
            sched_point();
            if (g->races)
                race_check(a, n, static_cast<u8>((w ? 1 : 0) | atomic), pc);
        }
    } else if (g->races && g->running) {
        // main phase: record for ordering against later threads
        bool own = a >= g->cur->stk_lo && a < g->cur->stk_hi;
        if (!own && shared_addr(a))
            race_check(a, n, static_cast<u8>((w ? 1 : 0) | atomic), pc);
    }
}
static void a_acquire(uptr a, int mo);
static void a_release(uptr a, int mo, bool rmw);
static inline void access(const void* p, size_t n, bool w, uptr pc) {
    if (!sim_on()) return;
    uptr a = reinterpret_cast<uptr>(p);
    if (a - g->pa_lo < g->pa_hi - g->pa_lo) {
        access_slow(a, n, w, pc, 2);
        if (w)
            a_release(a, 0, false);
        else
            a_acquire(a, 0);
        return;
    }
    access_slow(a, n, w, pc, 0);
}

// atomics ------------------------------------------------------------------
// Weak memory mode.  The simulated execution order is the modification order
// of every variable and the order S of the sequentially consistent operations;
// loads may return any older store that the C++ memory model still allows.
static inline bool m_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool m_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static WLoc& w_loc(uptr a, u64 cur) {
    WLoc& l = (*g->wloc)[a];
    if (l.st.empty() || l.st.back().v != cur) {
        // first use, or changed by something else than an atomic operation
        if (!l.st.empty()) l.base += l.st.size();
        l.st.clear();
        WStore s;
        memset(&s, 0, sizeof s);
        s.v = cur;
        l.st.push_back(s);
    }
    return l;
}
static void w_note_read(WLoc& l, u64 idx) {
    auto& v = l.rd[g->cur->id];
    u32 c = g->cur->vc.c[g->cur->id];
    if (!v.empty() && v.back().second >= idx) return;
    if (!v.empty() && v.back().first == c)
        v.back().second = idx;
    else
        v.push_back({c, idx});
}
/// The oldest store that a load of this thread with this order may read
static u64 w_oldest(WLoc& l, int mo) {
    Fiber* f = g->cur;
    u64 last = l.base + l.st.size() - 1, lo = l.base;
    // read-read coherence along happens-before
    for (int u = 0; u < MAXT; ++u)
        for (auto& p : l.rd[u])
            if (p.first <= f->vc.c[u] || u == f->id) lo = std::max(lo, p.second);
    for (u64 i = l.base; i <= last; ++i) {
        WStore& s = l.st[i - l.base];
        bool vis = s.clk <= f->vc.c[s.tid] || s.tid == f->id ||
                   s.clk <= f->scvis.c[s.tid] ||
                   (mo == 5 && s.clk <= g->scf.c[s.tid]);
        if (s.clk && vis) lo = std::max(lo, i);
    }
    if (mo == 5) lo = std::max(lo, l.lastsc);
    return lo;
}
static u64 w_read(WLoc& l, u64 i, int mo) {
    WStore& s = l.st[i - l.base];
    if (m_acq(mo))
        g->cur->vc.join(s.rel);
    else
        g->cur->pend.join(s.rel);
    w_note_read(l, i);
    return s.v;
}
static u64 w_load(uptr a, u64 cur, int mo) {
    RtScope rs;
    WLoc& l = w_loc(a, cur);
    u64 last = l.base + l.st.size() - 1, lo = w_oldest(l, mo);
    u64 i = last;
    if (lo < last && vsim::choose(2)) {
        i = lo + vsim::choose(last - lo);
        vsim::count("fault:stale_atomic_load");
    }
    return w_read(l, i, mo);
}
/// A compare-exchange that fails is a load with the failure order: it may read
/// an old store, too, as long as that one has a value other than the expected.
static bool w_cas_fails(uptr a, u64 cur, u64 expected, int mo, u64* seen) {
    RtScope rs;
    WLoc& l = w_loc(a, cur);
    u64 last = l.base + l.st.size() - 1, lo = w_oldest(l, mo);
    std::vector<u64> can;
    for (u64 i = lo; i < last; ++i)
        if (l.st[i - l.base].v != expected) can.push_back(i);
    bool last_too = l.st.back().v != expected;
    u64 i = last;
    if (!can.empty() && vsim::choose(2)) {
        i = can[vsim::choose(can.size())];
        vsim::count("fault:stale_failed_exchange");
    } else if (!last_too) {
        return false;
    }
    *seen = w_read(l, i, mo);
    return true;
}
static void w_store(uptr a, u64 cur, u64 v, int mo, bool rmw) {
    RtScope rs;
    Fiber* f = g->cur;
    WLoc& l = w_loc(a, cur);
    WStore s;
    memset(&s, 0, sizeof s);
    WStore& p = l.st.back();
    if (rmw) {
        if (m_acq(mo))
            f->vc.join(p.rel);
        else
            f->pend.join(p.rel);
        s.rel = p.rel;
    }
    s.v = v;
    s.tid = static_cast<u8>(f->id);
    s.clk = f->vc.c[f->id];
    if (m_rel(mo))
        s.rel.join(f->vc);
    else if (f->has_relf)
        s.rel.join(f->relf);
    l.st.push_back(s);
    u64 idx = l.base + l.st.size() - 1;
    if (mo == 5) {
        l.lastsc = idx;
        g->scst.c[f->id] = s.clk;
    }
    w_note_read(l, idx);
    if (l.st.size() > 8) {
        l.st.erase(l.st.begin());
        ++l.base;
    }
    ++f->vc.c[f->id];
}
static inline bool w_on() { return g->weak && g->threads && g->cur->id; }
static void a_acquire(uptr a, int mo) {
    SyncVar* s = sync_for(a, false);
    if (!s) return;
    Fiber* f = g->cur;
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5)
        f->vc.join(s->vc);
    else
        f->pend.join(s->vc);
}
static void a_release(uptr a, int mo, bool rmw) {
    Fiber* f = g->cur;
    bool rel = mo == 3 || mo == 4 || mo == 5;
    SyncVar* s = sync_for(a, true);
    if (!s) return;
    if (!rmw) s->vc.clear();
    if (rel)
        s->vc.join(f->vc);
    else if (f->has_relf)
        s->vc.join(f->relf);
    ++f->vc.c[f->id];
}
struct AtomicOp {
    uptr a;
    bool on;
    AtomicOp(const volatile void* p, size_t n, bool w, uptr pc)
        : a(reinterpret_cast<uptr>(p)), on(sim_on()) {
        if (on) {
            if (a % n)
                fail_any("misaligned-atomic",
                         "atomic access of %zu bytes at a misaligned address, "
                         "pc 0x%lx",
                         n, static_cast<unsigned long>(pc));
            access_slow(a, n, w, pc, 2);
            if (g->threads && g->cur->id &&
                a >= g->cur->stk_lo && a < g->cur->stk_hi)
                sched_point();
        }
    }
};
}  // namespace vsim

using namespace vsim;
#define PC reinterpret_cast<uptr>(__builtin_return_address(0))

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    if (g && g->running) {
        Fiber* f = g->cur;
        if (f->csn < 64 && f->csn >= 0) f->cs[f->csn] = reinterpret_cast<uptr>(pc);
        ++f->csn;
        // recursion guard: the stack is 1 MiB
        char probe;
        if (f->sim && reinterpret_cast<uptr>(&probe) - f->stk_lo < 65536)
            fail_any("stack-overflow", "unbounded recursion");
    }
}
void __tsan_func_exit() {
    if (g && g->running && g->cur->csn > 0) --g->cur->csn;
}
#define RW(n)                                                              \
    void __tsan_read##n(void* p) { vsim::access(p, n, false, PC); }        \
    void __tsan_write##n(void* p) { vsim::access(p, n, true, PC); }        \
    void __tsan_unaligned_read##n(void* p) {                               \
        vsim::access(p, n, false, PC);                                     \
    }                                                                      \
    void __tsan_unaligned_write##n(void* p) {                              \
        vsim::access(p, n, true, PC);                                      \
    }                                                                      \
    void __tsan_volatile_read##n(void* p) {                                \
        vsim::access(p, n, false, PC);                                     \
    }                                                                      \
    void __tsan_volatile_write##n(void* p) {                               \
        vsim::access(p, n, true, PC);                                      \
    }                                                                      \
    void __tsan_read_write##n(void* p) { vsim::access(p, n, true, PC); }   \
    void __tsan_unaligned_read_write##n(void* p) {                         \
        vsim::access(p, n, true, PC);                                      \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { vsim::access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { vsim::access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) {
    vsim::access(static_cast<void*>(p), 8, true, PC);
}
void __tsan_vptr_read(void** p) {
    vsim::access(static_cast<void*>(p), 8, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) {
        vsim::access(s, n, false, PC);
        vsim::access(d, n, true, PC);
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) {
        vsim::access(s, n, false, PC);
        vsim::access(d, n, true, PC);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
    if (n) vsim::access(d, n, true, PC);
    return memset(d, v, n);
}

#define ATOMIC(bits, T)                                                       \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) {               \
        AtomicOp o(p, sizeof(T), false, PC);                                  \
        T v = *p;                                                             \
        if (o.on && w_on())                                                   \
            return static_cast<T>(w_load(o.a, static_cast<u64>(v), mo));      \
        if (o.on) a_acquire(o.a, mo);                                         \
        return v;                                                             \
    }                                                                         \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {            \
        AtomicOp o(p, sizeof(T), true, PC);                                   \
        if (o.on && w_on())                                                   \
            w_store(o.a, static_cast<u64>(*p), static_cast<u64>(v), mo,       \
                    false);                                                   \
        else if (o.on)                                                        \
            a_release(o.a, mo, false);                                        \
        *p = v;                                                               \
    }
#define RMW(bits, T, name, EXPR)                                              \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo) {              \
        AtomicOp o(p, sizeof(T), true, PC);                                   \
        T old = *p;                                                           \
        if (o.on && w_on()) {                                                 \
            w_store(o.a, static_cast<u64>(old),                               \
                    static_cast<u64>(static_cast<T>(EXPR)), mo, true);        \
        } else if (o.on) {                                                    \
            a_acquire(o.a, mo);                                               \
            a_release(o.a, mo, true);                                         \
        }                                                                     \
        *p = static_cast<T>(EXPR);                                            \
        return old;                                                           \
    }
#define CAS(bits, T)                                                          \
    static bool cas##bits(volatile T* p, T* e, T v, int mo, int fmo,          \
                          bool weak, uptr pc) {                               \
        AtomicOp o(p, sizeof(T), true, pc);                                   \
        T old = *p;                                                           \
        bool spurious = false;                                                \
        u64 seen = 0;                                                         \
        if (o.on && weak && g->threads && old == *e) {                        \
            spurious = vsim::choose(8) == 1;                                  \
            if (spurious) vsim::count("fault:spurious_cas_failure");          \
        }                                                                     \
        if (!spurious && o.on && w_on() &&                                    \
            w_cas_fails(o.a, static_cast<u64>(old), static_cast<u64>(*e), fmo,\
                        &seen)) {                                             \
            *e = static_cast<T>(seen);                                        \
            return false;                                                     \
        }                                                                     \
        if (old == *e && !spurious) {                                         \
            if (o.on && w_on()) {                                             \
                w_store(o.a, static_cast<u64>(old), static_cast<u64>(v), mo,  \
                        true);                                                \
            } else if (o.on) {                                                \
                a_acquire(o.a, mo);                                           \
                a_release(o.a, mo, true);                                     \
            }                                                                 \
            *p = v;                                                           \
            return true;                                                      \
        }                                                                     \
        if (o.on && w_on()) {                                                 \
            RtScope rs;                                                       \
            WLoc& l = w_loc(o.a, static_cast<u64>(old));                      \
            w_read(l, l.base + l.st.size() - 1, fmo);                         \
        } else if (o.on) {                                                    \
            a_acquire(o.a, fmo);                                              \
        }                                                                     \
        *e = old;                                                             \
        return false;                                                         \
    }                                                                         \
    int __tsan_atomic##bits##_compare_exchange_strong(                        \
        volatile T* p, T* e, T v, int mo, int fmo) {                          \
        return cas##bits(p, e, v, mo, fmo, false, PC);                        \
    }                                                                         \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, \
                                                    int mo, int fmo) {        \
        return cas##bits(p, e, v, mo, fmo, true, PC);                         \
    }                                                                         \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v,     \
                                                 int mo, int fmo) {           \
        cas##bits(p, &e, v, mo, fmo, false, PC);                              \
        return e;                                                             \
    }
#define ALL(bits, T)                    \
    ATOMIC(bits, T)                     \
    RMW(bits, T, exchange, v)           \
    RMW(bits, T, fetch_add, old + v)    \
    RMW(bits, T, fetch_sub, old - v)    \
    RMW(bits, T, fetch_and, old& v)     \
    RMW(bits, T, fetch_or, old | v)     \
    RMW(bits, T, fetch_xor, old ^ v)    \
    RMW(bits, T, fetch_nand, ~(old& v)) \
    CAS(bits, T)
ALL(8, u8)
ALL(16, std::uint16_t)
ALL(32, u32)
ALL(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!sim_on()) return;
    sched_point();
    Fiber* f = g->cur;
    if (mo == 1 || mo == 2 || mo == 4 || mo == 5) f->vc.join(f->pend);
    if (mo == 3 || mo == 4 || mo == 5) {
        f->relf = f->vc;
        f->has_relf = true;
        if (mo == 5) {
            f->scvis.join(g->scf);
            f->scvis.join(g->scst);
            g->scf.c[f->id] = f->vc.c[f->id];
        }
        ++f->vc.c[f->id];
    }
}
void __tsan_atomic_signal_fence(int) {}
/// see weak.hpp
int vsim_spurious(void) {
    if (!sim_on() || !g->threads) return 0;
    RtScope rs;
    if (vsim::choose(8) != 1) return 0;
    vsim::count("fault:spurious_cas_failure");
    return 1;
}

// ------------------------------------------------------- C library seams --
void* __wrap_malloc(size_t n) {
    if (!sim_on()) return __real_malloc(n);
    if (fire(F_MALLOC)) return nullptr;
    return ralloc(g->reg[0], n, 16, 2);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (!sim_on()) return __real_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    if (fire(F_MALLOC)) return nullptr;
    void* p = ralloc(g->reg[0], n, 16, 2);
    if (p) memset(p, 0, n);
    return p;
}
static void* sim_aligned(size_t al, size_t n) {
    if (al == 0 || (al & (al - 1))) {
        errno = EINVAL;
        return nullptr;
    }
    if (fire(F_MALLOC)) return nullptr;
    return ralloc(g->reg[0], n, al, 2);
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
    if (!sim_on()) return __real_aligned_alloc(al, n);
    // as strict as ISO C11 allows a C library to be
    if (al && n % al) {
        errno = EINVAL;
        return nullptr;
    }
    return sim_aligned(al, n);
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (!sim_on()) return __real_posix_memalign(out, al, n);
    if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
    void* p = sim_aligned(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
static void sim_free(void* p, int kind, uptr pc) {
    int r = rfree(g->reg[0], p, kind);
    if (r) {
        fail_any(r == 2   ? "double-free"
                 : r == 3 ? "alloc-dealloc-mismatch"
                          : "invalid-free",
                 "heap block at +0x%lx, pc 0x%lx",
                 static_cast<unsigned long>(reinterpret_cast<uptr>(p) -
                                            HEAP_BASE),
                 static_cast<unsigned long>(pc));
    }
}
void __wrap_free(void* p) {
    if (!p) return;
    if (g && g->running && in_heap(p)) return sim_free(p, 2, PC);
    if (g && g->running && sim_on() &&
        (in_dev(p) || in_man(p) || in_stack(p) ||
         reinterpret_cast<uptr>(p) - VIRT_BASE < VIRT_SIZE))
        fail_any("invalid-free", "free() of memory not from the C heap");
    __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (!p && sim_on()) return __wrap_malloc(n);
    if (!g || !g->running || !in_heap(p)) return __real_realloc(p, n);
    if (fire(F_MALLOC)) return nullptr;
    size_t old;
    if (!region_block(0, p, nullptr, old))
        fail_any("invalid-free", "realloc of a dead block");
    void* q = ralloc(g->reg[0], n, 16, 2);
    if (q) {
        memcpy(q, p, std::min(n, old));
        sim_free(p, 2, PC);
    }
    return q;
}
}  // extern "C"

static void* sim_new(size_t n, size_t al) {
    if (!sim_on()) {
        void* p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al)
                          : __real_malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    if (fire(F_NEW)) throw std::bad_alloc();
    void* p = ralloc(g->reg[0], n, al, 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void sim_delete(void* p, uptr pc) {
    if (!p) return;
    if (g && g->running && in_heap(p)) return sim_free(p, 1, pc);
    __real_free(p);
}
void* operator new(size_t n) { return sim_new(n, 16); }
void* operator new[](size_t n) { return sim_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) {
    return sim_new(n, static_cast<size_t>(a));
}
void* operator new[](size_t n, std::align_val_t a) {
    return sim_new(n, static_cast<size_t>(a));
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim_new(n, 16);
    } catch (...) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim_new(n, 16);
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void* p) noexcept { sim_delete(p, PC); }
void operator delete[](void* p) noexcept { sim_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept {
    sim_delete(p, PC);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept {
    sim_delete(p, PC);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept {
    sim_delete(p, PC);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
    sim_delete(p, PC);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
    sim_delete(p, PC);
}

// ------------------------------------------------------------ thread seams -
static Mutex& mtx(const void* k) {
    RtScope rs;
    auto it = g->mtx->find(k);
    if (it == g->mtx->end()) {
        Mutex m;
        memset(&m, 0, sizeof m);
        m.key = k;
        m.owner = -1;
        it = g->mtx->emplace(k, m).first;
    }
    return it->second;
}
static void block_on(const void* k, bool timed = false, u64 dl = 0) {
    Fiber* f = g->cur;
    if (!g->threads || f->id == 0)
        fail_any("deadlock", "single simulated thread blocks forever");
    f->st = FS_BLOCKED;
    f->wait_on = k;
    f->timed = timed;
    f->deadline = dl;
    f->timed_out = false;
    reschedule(false, false);
    f->wait_on = nullptr;
    f->timed = false;
}
static void wake_all(const void* k) {
    for (int i = 1; i <= g->nthreads; ++i)
        if (g->f[i].st == FS_BLOCKED && g->f[i].wait_on == k)
            g->f[i].st = FS_RUN;
}
template <class F>
static F real_fn(const char* n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
static inline bool seam() { return g && g->running; }
static void mx_acquired(Mutex& m) {
    m.owner = g->cur->id;
    m.depth = 1;
    g->cur->vc.join(m.vc);
    hash_u64(0x2000u + static_cast<u64>(g->cur->id));
}
static void mx_release(Mutex& m) {
    m.vc = g->cur->vc;
    ++g->cur->vc.c[g->cur->id];
    m.owner = -1;
    m.depth = 0;
    wake_all(m.key);
}
static bool mx_recursive(const pthread_mutex_t* m) {
    return (m->__data.__kind & 3) == 1;
}
static int mx_lock(pthread_mutex_t* p, bool timed, u64 dl) {
    sched_point();
    Mutex& m = mtx(p);
    if (m.owner == g->cur->id) {
        if (mx_recursive(p)) {
            ++m.depth;
            return 0;
        }
        if (timed) return ETIMEDOUT;
        fail_any("deadlock", "thread t%d locks a mutex it already holds",
                 g->cur->id);
    }
    bool waited = false;
    while (m.owner != -1 || m.readers) {
        if (!waited) count("probe:lock-contended");
        waited = true;
        block_on(p, timed, dl);
        if (g->cur->timed_out) return ETIMEDOUT;
    }
    mx_acquired(m);
    return 0;
}
static u64 dl_of(const struct timespec* ts, int clk) {
    u64 t = static_cast<u64>(ts->tv_sec) * 1000000000ull +
            static_cast<u64>(ts->tv_nsec);
    if (clk == CLOCK_REALTIME)
        t -= static_cast<u64>(static_cast<std::int64_t>(1700000000ull) *
                              1000000000ll) +
             static_cast<u64>(g->wall_off);
    return t;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* p) {
    if (!seam()) {
        static auto f = real_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        return f(p);
    }
    if (!g->cur->sim) return 0;
    return mx_lock(p, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* p) {
    if (!seam()) {
        static auto f =
            real_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        return f(p);
    }
    if (!g->cur->sim) return 0;
    sched_point();
    Mutex& m = mtx(p);
    if (m.owner == g->cur->id && mx_recursive(p)) {
        ++m.depth;
        return 0;
    }
    if (m.owner != -1 || m.readers) return EBUSY;
    mx_acquired(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* p, const struct timespec* ts) {
    if (!seam()) {
        static auto f = real_fn<int (*)(pthread_mutex_t*, const timespec*)>(
            "pthread_mutex_timedlock");
        return f(p, ts);
    }
    if (!g->cur->sim) return 0;
    return mx_lock(p, true, dl_of(ts, CLOCK_REALTIME));
}
int pthread_mutex_clocklock(pthread_mutex_t* p, clockid_t c,
                            const struct timespec* ts) {
    if (!seam() || !g->cur->sim) return 0;
    return mx_lock(p, true, dl_of(ts, c));
}
int pthread_mutex_unlock(pthread_mutex_t* p) {
    if (!seam()) {
        static auto f =
            real_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        return f(p);
    }
    if (!g->cur->sim) return 0;
    Mutex& m = mtx(p);
    if (m.owner != g->cur->id)
        fail_any("bad-unlock", "t%d unlocks a mutex held by %d", g->cur->id,
                 m.owner);
    if (--m.depth == 0) {
        mx_release(m);
        sched_point();
    }
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p) {
    if (!seam()) {
        static auto f =
            real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
        return f(p);
    }
    if (!g->cur->sim) return 0;
    sched_point();
    Mutex& m = mtx(p);
    if (m.owner == g->cur->id || (m.rmask >> g->cur->id & 1))
        fail_any("deadlock", "t%d write-locks a lock it holds", g->cur->id);
    while (m.owner != -1 || m.readers) block_on(p);
    mx_acquired(m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) {
    if (!seam() || !g->cur->sim) return 0;
    sched_point();
    Mutex& m = mtx(p);
    if (m.owner != -1 || m.readers) return EBUSY;
    mx_acquired(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p) {
    if (!seam()) {
        static auto f =
            real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
        return f(p);
    }
    if (!g->cur->sim) return 0;
    sched_point();
    Mutex& m = mtx(p);
    if (m.owner == g->cur->id)
        fail_any("deadlock", "t%d read-locks a lock it write-holds",
                 g->cur->id);
    while (m.owner != -1) block_on(p);
    ++m.readers;
    m.rmask |= 1u << g->cur->id;
    g->cur->vc.join(m.vc);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) {
    if (!seam() || !g->cur->sim) return 0;
    sched_point();
    Mutex& m = mtx(p);
    if (m.owner != -1) return EBUSY;
    ++m.readers;
    m.rmask |= 1u << g->cur->id;
    g->cur->vc.join(m.vc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
    if (!seam()) {
        static auto f =
            real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
        return f(p);
    }
    if (!g->cur->sim) return 0;
    Mutex& m = mtx(p);
    if (m.owner == g->cur->id) {
        mx_release(m);
    } else if (m.rmask >> g->cur->id & 1) {
        --m.readers;
        m.rmask &= ~(1u << g->cur->id);
        m.vc.join(g->cur->vc);
        ++g->cur->vc.c[g->cur->id];
        if (!m.readers) wake_all(p);
    } else
        fail_any("bad-unlock", "rwlock not held");
    sched_point();
    return 0;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* p, bool timed, u64 dl) {
    Mutex& m = mtx(p);
    int depth = m.depth;
    mx_release(m);
    block_on(c, timed, dl);
    bool to = g->cur->timed_out;
    while (m.owner != -1) block_on(p);
    mx_acquired(m);
    m.depth = depth;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* p) {
    if (!seam() || !g->cur->sim) {
        static auto f = real_fn<int (*)(pthread_cond_t*, pthread_mutex_t*)>(
            "pthread_cond_wait");
        return f(c, p);
    }
    // spurious wake-ups are legal
    if (choose(16) == 1) {
        count("fault:spurious_wakeup");
        Mutex& m = mtx(p);
        mx_release(m);
        sched_point();
        while (m.owner != -1) block_on(p);
        mx_acquired(m);
        return 0;
    }
    return cv_wait(c, p, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* p,
                           const struct timespec* ts) {
    if (!seam() || !g->cur->sim) return 0;
    return cv_wait(c, p, true, dl_of(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* p, clockid_t k,
                           const struct timespec* ts) {
    if (!seam() || !g->cur->sim) return 0;
    return cv_wait(c, p, true, dl_of(ts, k));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!seam() || !g->cur->sim) {
        static auto f =
            real_fn<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        return f(c);
    }
    int n = 0, w[MAXT];
    for (int i = 1; i <= g->nthreads; ++i)
        if (g->f[i].st == FS_BLOCKED && g->f[i].wait_on == c) w[n++] = i;
    if (n) g->f[w[choose(static_cast<u64>(n))]].st = FS_RUN;
    sched_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!seam() || !g->cur->sim) {
        static auto f =
            real_fn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        return f(c);
    }
    wake_all(c);
    sched_point();
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!seam() || !g->cur->sim) {
        static auto f = real_fn<int (*)(pthread_once_t*, void (*)(void))>(
            "pthread_once");
        return f(o, fn);
    }
    sched_point();
    volatile int* s = reinterpret_cast<volatile int*>(o);
    Mutex& m = mtx(o);
    while (*s != 2) {
        if (m.owner == -1) {
            m.owner = g->cur->id;
            try {
                fn();
            } catch (...) {
                mx_release(m);
                throw;
            }
            *s = 2;
            mx_release(m);
            break;
        }
        block_on(o);
    }
    g->cur->vc.join(m.vc);
    return 0;
}
int sched_yield(void) {
    if (!seam()) return static_cast<int>(syscall(SYS_sched_yield));
    if (g->cur->sim && g->threads) reschedule(true, true);
    return 0;
}
int vsim_guard_acquire(u64* gd) __asm__("__cxa_guard_acquire");
void vsim_guard_release(u64* gd) __asm__("__cxa_guard_release");
void vsim_guard_abort(u64* gd) __asm__("__cxa_guard_abort");
int vsim_guard_acquire(u64* gd) {
    volatile u8* b = reinterpret_cast<volatile u8*>(gd);
    if (seam() && g->cur->sim) {
        sched_point();
        Mutex& m = mtx(gd);
        for (;;) {
            if (b[0]) {
                g->cur->vc.join(m.vc);
                return 0;
            }
            if (m.owner == -1) {
                mx_acquired(m);
                return 1;
            }
            if (m.owner == g->cur->id)
                fail_any("deadlock", "recursive static initialisation");
            block_on(gd);
        }
    }
    return b[0] ? 0 : 1;
}
void vsim_guard_release(u64* gd) {
    volatile u8* b = reinterpret_cast<volatile u8*>(gd);
    b[0] = 1;
    if (seam() && g->cur->sim) mx_release(mtx(gd));
}
void vsim_guard_abort(u64* gd) {
    if (seam() && g->cur->sim) mx_release(mtx(gd));
}

// clock seam -----------------------------------------------------------
static void fill(struct timespec* ts, u64 v) {
    ts->tv_sec = static_cast<time_t>(v / 1000000000ull);
    ts->tv_nsec = static_cast<long>(v % 1000000000ull);
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!seam()) {
        return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
    }
    count("probe:clock-reads");
    std::int64_t ms = 0;
    if (g->cur->sim && fire(F_CLOCK, &ms)) g->wall_off += ms * 1000000;
    g->mono += 113 + (g->mono >> 4) % 977;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
        fill(ts, g->mono + 1700000000ull * 1000000000ull +
                     static_cast<u64>(g->wall_off));
    else
        fill(ts, g->mono);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) noexcept {
    if (!seam()) return 0;
    return static_cast<clock_t>(g->mono / 1000);
}
int nanosleep(const struct timespec* ts, struct timespec*) {
    if (!seam()) return static_cast<int>(syscall(SYS_nanosleep, ts, nullptr));
    u64 d = static_cast<u64>(ts->tv_sec) * 1000000000ull +
            static_cast<u64>(ts->tv_nsec);
    if (g->threads && g->cur->id && g->cur->sim)
        block_on(ts, true, g->mono + d);
    else
        g->mono += d;
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts,
                    struct timespec*) {
    if (!seam()) return 0;
    u64 d = static_cast<u64>(ts->tv_sec) * 1000000000ull +
            static_cast<u64>(ts->tv_nsec);
    if (flags & TIMER_ABSTIME) d = d > g->mono ? d - g->mono : 0;
    struct timespec r;
    fill(&r, d);
    return nanosleep(&r, nullptr);
}
}  // extern "C"

// ------------------------------------------------------------ run control --
namespace vsim {
static void snapshot() {
    char* a = &__data_start;
    char* e = &_end;
    g->snap_n = static_cast<size_t>(e - a);
    g->snap = static_cast<char*>(__real_malloc(g->snap_n));
    memcpy(g->snap, a, g->snap_n);
}
static void restore() { memcpy(&__data_start, g->snap, g->snap_n); }

static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
    // first entry is the executable
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            g->tls_img = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            g->tls_filesz = i->dlpi_phdr[k].p_filesz;
            g->tls_memsz = i->dlpi_phdr[k].p_memsz;
            g->tls_align = i->dlpi_phdr[k].p_align;
        }
    return 1;
}

static void on_signal(int sig, siginfo_t* si, void* uc) {
    uptr pc = 0;
    if (uc)
        pc = static_cast<uptr>(
            static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP]);
    const char* cls = sig == SIGSEGV   ? "crash-segv"
                      : sig == SIGABRT ? "crash-abort"
                      : sig == SIGFPE  ? "crash-fpe"
                      : sig == SIGVTALRM ? "hang"
                                         : "crash-signal";
    uptr a = reinterpret_cast<uptr>(si ? si->si_addr : nullptr);
    if (sig == SIGSEGV && a - VIRT_BASE < VIRT_SIZE)
        cls = "touches-upstream-memory";
    if (!g->running) {
        fprintf(stderr, "signal %d outside of a run, pc 0x%lx\n", sig,
                static_cast<unsigned long>(pc));
        _exit(45);
    }
    // (a harness looks at what the library made: if that crashes, then it is
    // not what it should be)
    if (!g->cur->sim && sig != SIGVTALRM && sig != SIGABRT)
        cls = "crash-while-checking";
    std::string s = pcs_of(g->cur);
    char b[900];
    snprintf(b, sizeof b, "signal %d, address 0x%lx, pc 0x%lx [pcs:%s]", sig,
             static_cast<unsigned long>(a), static_cast<unsigned long>(pc),
             s.c_str());
    do_fail(g->prop.c_str(), cls, b);
    _exit(42);
}
static void on_terminate() {
    if (!g->running) abort();
    bool sim = g->cur->sim;
    g->cur->sim = false;
    std::string w = "std::terminate";
    if (std::type_info* t = abi::__cxa_current_exception_type()) {
        w += " with active exception of type ";
        w += t->name();
        try {
            throw;
        } catch (const std::exception& e) {
            w += ": ";
            w += e.what();
        } catch (...) {
        }
    }
    (void)sim;
    w += " [pcs:" + pcs_of(g->cur) + "]";
    do_fail(g->prop.c_str(), "terminate", w.c_str());
    _exit(42);
}

static void* map_at(uptr a, size_t n, int prot) {
    void* p = mmap(reinterpret_cast<void*>(a), n, prot,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       MAP_FIXED_NOREPLACE,
                   -1, 0);
    if (p == MAP_FAILED || reinterpret_cast<uptr>(p) != a) {
        fprintf(stderr, "vsim: cannot map simulated region\n");
        _exit(45);
    }
    return p;
}

static void init() {
    g = new G;
    g->sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                      PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g->mtx = new std::map<const void*, Mutex>;
    g->wloc = new std::map<uptr, WLoc>;
    g->cells = static_cast<Cell*>(
        mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g->syncs = static_cast<SyncVar*>(
        mmap(nullptr, sizeof(SyncVar) * NSYNC, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    const uptr bs[3] = {HEAP_BASE, DEV_BASE, MAN_BASE};
    const size_t sz[3] = {HEAP_SIZE, DEV_SIZE, MAN_SIZE};
    for (int i = 0; i < 3; ++i) {
        Region& r = g->reg[i];
        r.base = bs[i];
        r.size = sz[i];
        map_at(r.base, r.size, PROT_READ | PROT_WRITE);
        r.shadow = static_cast<u8*>(
            mmap(nullptr, r.size / 8, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        r.bump = r.base;
        region_reset(r);
    }
    map_at(VIRT_BASE, VIRT_SIZE, PROT_NONE);
    map_at(STK_BASE, STK_SIZE * MAXT, PROT_READ | PROT_WRITE);
    dl_iterate_phdr(phdr_cb, nullptr);
    g->fsgs = (getauxval(AT_HWCAP2) & 2) != 0;
    for (int i = 0; i < MAXT; ++i) {
        Fiber& f = g->f[i];
        memset(static_cast<void*>(&f), 0, sizeof f);
        f.id = i;
        f.stk_lo = STK_BASE + STK_SIZE * static_cast<uptr>(i);
        f.stk_hi = f.stk_lo + STK_SIZE;
    }
    memset(static_cast<void*>(&g->boot), 0, sizeof g->boot);
    g->boot.fs = get_fs();
    g->f[0].fs = g->boot.fs;
    g->cur = &g->boot;
    // warm up lazily initialised library state
    {
        std::ostringstream o;
        o << 1 << ' ' << 2.5 << std::hex << 3;
    }
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = __real_malloc(1 << 17);
    ss.ss_size = 1 << 17;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM})
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    g->inited = true;
    snapshot();
}

static const Harness* find_h(const std::string& n) {
    for (auto& h : *g_harness)
        if (n == h.name) return &h;
    return nullptr;
}

static u64 case_seed(u64 base, const std::string& h, u64 idx) {
    u64 x = base * 0x9E3779B97F4A7C15ull + idx;
    for (char c : h) x = (x ^ static_cast<u8>(c)) * 0x100000001b3ull;
    return Rng::mix(x) >> 1;
}


/// Execute one case in this process; returns only if it passed.
static void run_case(const Harness& h, const Case& c) {
    restore();
    g->cs = &c;
    g->sched_rng.reseed(c.seed ^ 0xABCDEF0123456789ull);
    g->hash = 0xcbf29ce484222325ull;
    g->seq = 0;
    g->mono = 1000000000ull;
    g->wall_off = 0;
    g->accesses = 0;
    g->dec_idx = 0;
    g->rec_dec.clear();
    g->rec_pre.clear();
    g->nontriv = false;
    g->step = g->switches = 0;
    g->threads = false;
    g->races = false;
    g->pa_lo = g->pa_hi = 0;
    g->weak = false;
    g->wloc->clear();
    g->scf.clear();
    g->scst.clear();
    for (auto& f : g->f) f.scvis.clear();
    g->nthreads = 0;
    g->mtx->clear();
    g->log_ring.clear();
    ++g->epoch;
    for (auto& r : g->reg) region_reset(r);
    tls_reset(g->boot.fs);
    for (auto& f : g->f) {
        f.vc.clear();
        f.pend.clear();
        f.relf.clear();
        f.has_relf = false;
        f.sim = f.dev = false;
        f.op = nullptr;
        f.csn = 0;
        f.st = FS_FREE;
        f.nfired = 0;
        f.fired_mask = 0;
    }
    for (int i = 0; i < MAXT; ++i) g->f[i].vc.c[i] = 1;
    // simulated threads are threads: no short cuts in reference counters
    __libc_single_threaded = 0;
    std::function<void()> body = [&] { h.run(c); };
    Fiber& m = g->f[0];
    m.body = &body;
    m.st = FS_RUN;
    fiber_prepare(&m);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 10;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    g->running = true;
    switch_to(&m);
    g->running = false;
    Shared* s = g->sh;
    ++s->done_runs;
    s->steps += g->step;
    s->switches += g->switches;
    s->accesses += g->accesses;
    s->sim_ns += g->mono - 1000000000ull;
    s->last_hash = g->hash;
    if (g->nontriv) {
        ++s->nontrivial_runs;
        if (s->nhash < (1u << 22)) s->hashes[s->nhash++] = g->hash;
    }
}

static void write_file(const std::string& p, const char* d, size_t n) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) {
        perror(p.c_str());
        _exit(45);
    }
    fwrite(d, 1, n, f);
    fclose(f);
}
static std::string read_file(const std::string& p) {
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) {
        perror(p.c_str());
        _exit(45);
    }
    std::string s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (static_cast<unsigned char>(c) < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}
static double wall() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) +
           static_cast<double>(ts.tv_nsec) * 1e-9;
}

/// Run one case in a forked child. Returns 0 pass, 42 violation, 43 abandoned,
/// else error.
static int run_forked(const Harness& h, const Case& c, bool verbose) {
    g->sh->viol = 0;
    g->sh->vcase_len = g->sh->vlog_len = 0;
    g->sh->last_hash = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        g->replay_verbose = verbose;
        g->pool = 0;
        run_case(h, c);
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    return 100 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
}

static Case make_case(const Harness& h, const std::string& prop, u64 seed) {
    Case c;
    c.harness = h.name;
    c.prop = prop;
    c.seed = seed;
    Rng r(seed);
    h.gen(r, c);
    return c;
}

static int cmd_explore(std::map<std::string, std::string>& o) {
    const Harness* h = find_h(o["harness"]);
    if (!h) return 45;
    g->prop = o["prop"];
    u64 base = strtoull(o["seed"].c_str(), nullptr, 10);
    u64 w = strtoull(o["worker"].c_str(), nullptr, 10);
    u64 nw = strtoull(o["nworkers"].c_str(), nullptr, 10);
    u64 runs = strtoull(o["runs"].c_str(), nullptr, 10);
    double secs = strtod(o["secs"].c_str(), nullptr);
    u64 chunk = o.count("chunk") ? strtoull(o["chunk"].c_str(), nullptr, 10) : 64;
    std::string out = o["out"];
    double t0 = wall();
    Shared* s = g->sh;
    u64 idx = w;
    int rc = 0;
    std::string vline;
    while (idx < runs && wall() - t0 < secs) {
        s->viol = 0;
        s->cur_run = idx;
        s->next_run = idx;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            g->pool = 0;
            for (u64 k = 0; k < chunk && idx < runs; ++k, idx += nw) {
                s->cur_run = idx;
                Case c = make_case(*h, g->prop, case_seed(base, h->name, idx));
                run_case(*h, c);
                s->next_run = idx + nw;
                if (wall() - t0 > secs) break;
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
        }
        int code = WIFEXITED(st) ? WEXITSTATUS(st)
                                 : 100 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        if (code == 0) {
            idx = s->next_run;
        } else if (code == 43) {
            ++s->done_runs;
            idx = s->cur_run + nw;
        } else if (code == 42) {
            std::string f = out + ".viol.case";
            write_file(f, s->vcase, s->vcase_len);
            write_file(out + ".viol.log", s->vlog, s->vlog_len);
            char b[64];
            snprintf(b, sizeof b, "%llu",
                     static_cast<unsigned long long>(s->cur_run));
            vline = std::string("{\"run\":") + b + ",\"prop\":\"" + s->vprop +
                    "\",\"cls\":\"" + jesc(s->vcls) + "\",\"msg\":\"" +
                    jesc(s->vmsg) + "\",\"hash\":\"" +
                    std::to_string(s->vhash) + "\",\"seed\":" +
                    std::to_string(case_seed(base, h->name, s->cur_run)) + "}";
            rc = 42;
            break;
        } else {
            fprintf(stderr, "run %llu: child ended with %d: %s\n",
                    static_cast<unsigned long long>(s->cur_run), code,
                    s->viol ? s->vmsg : "");
            rc = 45;
            break;
        }
    }
    double dt = wall() - t0;
    std::ostringstream j;
    j << "{\"runs\":" << s->done_runs << ",\"nontrivial\":"
      << s->nontrivial_runs << ",\"abandoned\":" << s->abandoned
      << ",\"known\":" << s->known_hits << ",\"sim_ns\":" << s->sim_ns
      << ",\"steps\":" << s->steps << ",\"switches\":" << s->switches
      << ",\"accesses\":" << s->accesses << ",\"wall\":" << dt
      << ",\"states\":" << s->nstate << ",\"counters\":{";
    for (int i = 0; i < s->ncnt; ++i)
        j << (i ? "," : "") << "\"" << jesc(s->cnt[i].name)
          << "\":" << s->cnt[i].n;
    j << "}";
    if (!vline.empty()) j << ",\"violation\":" << vline;
    j << "}\n";
    std::string js = j.str();
    write_file(out + ".json", js.data(), js.size());
    write_file(out + ".hash", reinterpret_cast<char*>(s->hashes),
               s->nhash * 8);
    std::vector<u64> st;
    for (u64 i = 0; i < (1u << 21); ++i)
        if (s->stateset[i]) st.push_back(s->stateset[i]);
    write_file(out + ".state", reinterpret_cast<char*>(st.data()),
               st.size() * 8);
    return rc;
}

static int cmd_seed(std::map<std::string, std::string>& o, bool digest) {
    // run the case of one run index; print hash
    const Harness* h = find_h(o["harness"]);
    if (!h) return 45;
    g->prop = o["prop"];
    u64 base = strtoull(o["seed"].c_str(), nullptr, 10);
    u64 from = strtoull(o["from"].c_str(), nullptr, 10);
    u64 n = o.count("n") ? strtoull(o["n"].c_str(), nullptr, 10) : 1;
    (void)digest;
    int rc = 0;
    for (u64 i = from; i < from + n; ++i) {
        Case c = make_case(*h, g->prop, case_seed(base, h->name, i));
        if (o.count("print")) printf("%s", c.text().c_str());
        int r = run_forked(*h, c, o.count("verbose"));
        u64 hh = r == 42 ? g->sh->vhash : g->sh->last_hash;
        printf("%llu %d %016llx %s\n", static_cast<unsigned long long>(i), r,
               static_cast<unsigned long long>(hh),
               r == 42 ? g->sh->vcls : "");
        if (r != 0 && r != 43) {
            rc = r;
            break;
        }
    }
    return rc;
}

static int cmd_sample(std::map<std::string, std::string>& o) {
    const Harness* h = find_h(o["harness"]);
    if (!h) return 45;
    g->prop = o["prop"];
    u64 base = strtoull(o["seed"].c_str(), nullptr, 10);
    u64 n = strtoull(o["n"].c_str(), nullptr, 10);
    for (u64 i = 0; i < n; ++i) {
        Case c = make_case(*h, g->prop, case_seed(base, h->name, i));
        printf("%s\n", c.text().c_str());
    }
    return 0;
}

static int cmd_replay(const std::string& f, bool verbose) {
    Case c;
    if (!Case::parse(read_file(f), c)) {
        fprintf(stderr, "bad case file\n");
        return 45;
    }
    const Harness* h = find_h(c.harness);
    if (!h) {
        fprintf(stderr, "unknown harness %s\n", c.harness.c_str());
        return 45;
    }
    g->prop = c.prop;
    int r = run_forked(*h, c, verbose);
    if (r == 42)
        printf("VIOL prop=%s cls=%s hash=%016llx msg=%s\n", g->sh->vprop,
               g->sh->vcls, static_cast<unsigned long long>(g->sh->vhash),
               g->sh->vmsg);
    else if (r == 0 || r == 43)
        printf("OK hash=%016llx\n",
               static_cast<unsigned long long>(g->sh->last_hash));
    else
        printf("ERROR code=%d msg=%s\n", r, g->sh->viol ? g->sh->vmsg : "");
    return r;
}

static int cmd_min(const std::string& in, const std::string& out,
                   double secs) {
    Case c;
    if (!Case::parse(read_file(in), c)) return 45;
    const Harness* h = find_h(c.harness);
    if (!h) return 45;
    g->prop = c.prop;
    if (run_forked(*h, c, false) != 42) return 46;  // does not reproduce
    std::string cls = g->sh->vcls, prop = g->sh->vprop;
    double t0 = wall();
    u64 tries = 0;
    auto test = [&](const Case& x) {
        if (wall() - t0 > secs) return false;
        ++tries;
        return run_forked(*h, x, false) == 42 && cls == g->sh->vcls &&
               prop == g->sh->vprop;
    };
    auto before_ops = c.ops.size();
    auto before_pre = c.pre.size() + c.dec.size();
    bool changed = true;
    for (int round = 0; round < 6 && changed; ++round) {
        changed = false;
        // operations
        for (size_t n = std::max<size_t>(1, c.ops.size() / 2); n >= 1; n /= 2) {
            for (size_t i = 0; i < c.ops.size();) {
                Case x = c;
                size_t e = std::min(c.ops.size(), i + n);
                x.ops.erase(x.ops.begin() + static_cast<long>(i),
                            x.ops.begin() + static_cast<long>(e));
                if (test(x)) {
                    c = x;
                    changed = true;
                } else
                    i += n;
            }
        }
        // faults
        for (size_t i = 0; i < c.ops.size(); ++i)
            for (size_t k = 0; k < c.ops[i].faults.size();) {
                Case x = c;
                x.ops[i].faults.erase(x.ops[i].faults.begin() +
                                      static_cast<long>(k));
                if (test(x)) {
                    c = x;
                    changed = true;
                } else
                    ++k;
            }
        // schedule
        auto shrink_map = [&](auto get) {
            for (size_t n = std::max<size_t>(1, get(c).size() / 2); n >= 1;
                 n /= 2) {
                for (size_t i = 0; i < get(c).size();) {
                    Case x = c;
                    auto& m = get(x);
                    auto b = m.begin();
                    std::advance(b, static_cast<long>(i));
                    auto e = b;
                    for (size_t k = 0; k < n && e != m.end(); ++k) ++e;
                    m.erase(b, e);
                    if (test(x)) {
                        c = x;
                        changed = true;
                    } else
                        i += n;
                }
                if (get(c).empty()) break;
            }
        };
        if (!c.pre.empty())
            shrink_map([](Case& x) -> std::map<u64, int>& { return x.pre; });
        if (!c.dec.empty())
            shrink_map([](Case& x) -> std::map<u64, u64>& { return x.dec; });
        // parameters and arguments
        for (size_t i = 0; i < c.ops.size(); ++i)
            for (int k = 0; k < 6; ++k) {
                if (!c.ops[i].a[k]) continue;
                for (std::int64_t v :
                     {std::int64_t(0), std::int64_t(1), c.ops[i].a[k] / 2,
                      c.ops[i].a[k] - 1}) {
                    if (v == c.ops[i].a[k] || (v < 0 && c.ops[i].a[k] > 0))
                        continue;
                    Case x = c;
                    x.ops[i].a[k] = v;
                    if (test(x)) {
                        c = x;
                        changed = true;
                        break;
                    }
                }
            }
    }
    c.explicit_sched = true;
    if (run_forked(*h, c, false) != 42) return 46;
    std::string t = c.text();
    t += "# violation prop=" + prop + " cls=" + cls + "\n# message " +
         std::string(g->sh->vmsg) + "\n";
    write_file(out, t.data(), t.size());
    printf("minimised: ops %zu -> %zu, schedule entries %zu -> %zu, %llu tries\n",
           before_ops, c.ops.size(), before_pre, c.pre.size() + c.dec.size(),
           static_cast<unsigned long long>(tries));
    return 42;
}
}  // namespace vsim

int main(int argc, char** argv) {
    if (!g_harness) return 45;
    std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            auto e = a.find('=');
            if (e == std::string::npos)
                o[a.substr(2)] = "1";
            else
                o[a.substr(2, e - 2)] = a.substr(e + 1);
        } else
            pos.push_back(a);
    }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    init();
    if (o.count("known")) {
        std::istringstream in(read_file(o["known"]));
        std::string l;
        while (std::getline(in, l))
            if (!l.empty() && l[0] != '#') g->known.insert(l);
    }
    int rc = 45;
    if (pos.empty()) return 45;
    if (pos[0] == "explore")
        rc = cmd_explore(o);
    else if (pos[0] == "seed")
        rc = cmd_seed(o, true);
    else if (pos[0] == "sample")
        rc = cmd_sample(o);
    else if (pos[0] == "replay" && pos.size() > 1)
        rc = cmd_replay(pos[1], o.count("verbose"));
    else if (pos[0] == "min" && pos.size() > 2)
        rc = cmd_min(pos[1], pos[2],
                     o.count("secs") ? strtod(o["secs"].c_str(), nullptr) : 20);
    else if (pos[0] == "list") {
        for (auto& h : *g_harness) printf("%s|%s\n", h.name, h.describe);
        rc = 0;
    }
    fflush(stdout);
    _exit(rc);
}

/// Where debug messages of the library go: formatted, and forgotten
extern "C" int vsim_message(const char* f, ...) {
    char text[2048];
    va_list a;
    va_start(a, f);
    int r = vsnprintf(text, sizeof text, f, a);
    va_end(a);
    return r;
}
