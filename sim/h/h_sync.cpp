// Threads sharing one resource through synchronized_memory_resource (C11) and
// threads using resources of their own at the same time (C24).
#include "common.hpp"

#include <cstdlib>

#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/utils/copy.hpp"
#include "vecmem/utils/memory_monitor.hpp"

using namespace hx;

namespace {
enum Res {
    R_UP,
    R_POOL,
    R_BINARY,
    R_ARENA,
    R_CONTIG,
    R_DEBUG,
    R_INSTR,
    R_CO,
    R_CH,
    R_COND,
    R_IDENT,
    R_MON,   // monitored instrumenting resource on a pool
    R_N
};

void add_fault(Rng& r, Op& o, double rate) {
    if (!r.chance(rate)) return;
    Fault f;
    f.site = r.chance(0.5) ? F_UP : r.chance(0.3) ? F_UPX : F_NEW;
    f.nth = static_cast<int>(r.below(f.site == F_NEW ? 3 : 2));
    if (r.chance(0.7)) f.nth = 0;
    o.faults.push_back(f);
}

/// One stack of resources over its own upstreams.
struct Stack {
    std::vector<std::unique_ptr<SimUpstream>> up;
    std::vector<vecmem::memory_resource*> parts;
    vecmem::memory_resource* top = nullptr;
    vecmem::memory_monitor* mon = nullptr;
    u64 hooks = 0;
    int res = 0;

    template <class T, class... A>
    T* make(A&&... a) {
        SimScope s;
        T* p = new T(std::forward<A>(a)...);
        HostScope h;
        parts.push_back(p);
        return p;
    }
    static vecmem::pool_memory_resource::options popts(u64 cfg) {
        SimScope s;
        vecmem::pool_memory_resource::options o;
        o.smallest_block_size = std::size_t(8) << (cfg % 3);
        o.largest_block_size = std::size_t(256) << ((cfg >> 2) % 8);
        o.alignment = 8;
        o.min_blocks_per_chunk = 1 + (cfg >> 5) % 8;
        o.cache_oversized = (cfg >> 8) & 1;
        o.max_bytes_per_chunk = 1u << 30;
        return o;
    }
    void build(int kind, u64 cfg) {
        res = kind;
        SimUpstream& u = *up[0];
        switch (kind) {
            case R_UP:
                top = &u;
                break;
            case R_POOL:
                top = make<vecmem::pool_memory_resource>(u, popts(cfg));
                break;
            case R_BINARY:
                top = make<vecmem::binary_page_memory_resource>(u);
                break;
            case R_ARENA:
                top = make<vecmem::arena_memory_resource>(
                    u, std::size_t(256) << (cfg % 8), std::size_t(1) << 38);
                break;
            case R_CONTIG:
                top = make<vecmem::contiguous_memory_resource>(
                    u, std::size_t(512) << (cfg % 8));
                break;
            case R_DEBUG:
                top = make<vecmem::debug_memory_resource>(u);
                break;
            case R_INSTR: {
                auto* t = make<vecmem::instrumenting_memory_resource>(u);
                SimScope s;
                t->add_pre_allocate_hook([this](std::size_t, std::size_t) {
                    ++hooks;
                    vsim::yield_point();
                });
                t->add_post_allocate_hook(
                    [this](std::size_t, std::size_t, void*) { ++hooks; });
                t->add_pre_deallocate_hook(
                    [this](void*, std::size_t, std::size_t) { ++hooks; });
                top = t;
                break;
            }
            case R_CO: {
                auto* a = make<vecmem::contiguous_memory_resource>(
                    u, std::size_t(256) << (cfg % 8));
                auto* b =
                    make<vecmem::pool_memory_resource>(*up[1], popts(cfg));
                SimScope s;
                std::vector<std::reference_wrapper<vecmem::memory_resource>> v;
                v.push_back(*a);
                v.push_back(*b);
                top = make<vecmem::coalescing_memory_resource>(std::move(v));
                break;
            }
            case R_CH: {
                vecmem::memory_resource* a =
                    make<vecmem::pool_memory_resource>(u, popts(cfg));
                vecmem::memory_resource* b =
                    make<vecmem::binary_page_memory_resource>(*up[1]);
                std::size_t cut = std::size_t(16) << (cfg % 8);
                top = make<vecmem::choice_memory_resource>(
                    [a, b, cut](std::size_t n,
                                std::size_t) -> vecmem::memory_resource& {
                        return n > cut ? *b : *a;
                    });
                break;
            }
            case R_COND: {
                std::size_t cut = std::size_t(16) << (cfg % 10);
                top = make<vecmem::conditional_memory_resource>(
                    u, [cut](std::size_t n, std::size_t) { return n <= cut; });
                break;
            }
            case R_IDENT:
                top = make<vecmem::identity_memory_resource>(u);
                break;
            default: {
                auto* p = make<vecmem::pool_memory_resource>(u, popts(cfg));
                auto* t = make<vecmem::instrumenting_memory_resource>(*p);
                SimScope s;
                mon = new vecmem::memory_monitor(*t);
                top = t;
            }
        }
    }
    void destroy() {
        SimScope s;
        for (std::size_t i = parts.size(); i-- > 0;) delete parts[i];
        delete mon;
        parts.clear();
        mon = nullptr;
    }
    std::size_t refusals() const {
        std::size_t n = 0;
        for (auto& u : up) n += u->refusals;
        return n;
    }
    bool owns(void* p, std::size_t n) const {
        for (auto& u : up)
            if (u->owns(p, n)) return true;
        return false;
    }
};

// ------------------------------------------------------- synchronised ----
namespace sync {
enum { O_ALLOC, O_FREE, O_TAKE, O_EQUAL, O_REWRAP };
const char* const kinds[] = {"ALLOC", "FREE", "FREE_OTHERS", "IS_EQUAL",
                             "REWRAP"};

void gen(Rng& r, Case& c) {
    c.par["res"] = static_cast<i64>(
        r.pick_w({5, 3, 3, 3, 1, 2, 3, 2, 2, 1, 0, 1}));
    c.par["cfg"] = static_cast<i64>(r.below(1 << 20));
    int nt = static_cast<int>(r.range(2, r.chance(0.2) ? 6 : 3));
    c.par["threads"] = nt;
    c.par["place"] = r.range(0, 3);
    double rate = r.chance(0.4) ? 0 : 0.03 + 0.002 * double(r.below(100));
    int phases = r.chance(0.25) ? 2 : 1;
    std::vector<std::pair<std::size_t, std::size_t>> fav;
    for (int i = 0; i < 3; ++i) fav.push_back({gen_size(r, 12), std::min<std::size_t>(gen_align(r), 1u << 14)});
    for (int ph = 0; ph < phases; ++ph) {
        if (ph) {
            Op o;
            o.kind = O_REWRAP;
            o.a[0] = static_cast<i64>(r.below(4));
            c.ops.push_back(o);
        }
        u64 n = 2 + r.below(r.chance(0.1) ? 40 : 14);
        for (u64 i = 0; i < n; ++i) {
            Op o;
            o.tid = static_cast<int>(r.below(static_cast<u64>(nt)));
            switch (r.pick_w({6, 3, 2, 1})) {
                case 0: {
                    o.kind = O_ALLOC;
                    auto f = fav[r.below(3)];
                    if (r.chance(0.3)) f = {gen_size(r, 14), std::min<std::size_t>(gen_align(r), 1u << 14)};
                    o.a[0] = static_cast<i64>(f.first);
                    o.a[1] = static_cast<i64>(f.second);
                    break;
                }
                case 1:
                    o.kind = O_FREE;
                    o.a[0] = static_cast<i64>(r.below(100));
                    break;
                case 2:
                    o.kind = O_TAKE;
                    o.a[0] = static_cast<i64>(r.below(100));
                    break;
                default:
                    o.kind = O_EQUAL;
            }
            add_fault(r, o, rate);
            c.ops.push_back(o);
        }
    }
}

struct Blk {
    std::uintptr_t p;
    std::size_t n, al;
    int owner;
};

void run(const Case& c) {
    const char* PROP = "C11";
    race_detection(true);
    Stack w;
    for (int i = 0; i < 2; ++i) {
        w.up.emplace_back(new SimUpstream(i, static_cast<int>(c.p("place"))));
        w.up.back()->probe_exclusion = true;
        w.up.back()->own_prop = PROP;
    }
    w.build(static_cast<int>(c.p("res")), static_cast<u64>(c.p("cfg")));
    using S = vecmem::synchronized_memory_resource;
    S* top;
    {
        SimScope s;
        top = new S(*w.top);
    }
    int nt = static_cast<int>(c.p("threads", 2));
    std::vector<Blk> live;
    int inflight = 0, peak = 0;
    std::size_t contig_refused = 0;

    auto do_free = [&](std::size_t i) {
        Blk b = live[i];
        live.erase(live.begin() + static_cast<long>(i));
        ++inflight;
        peak = std::max(peak, inflight);
        try {
            SimScope s;
            top->deallocate(reinterpret_cast<void*>(b.p), b.n, b.al);
        } catch (const std::exception&) {
            fail(PROP, "deallocate-threw",
                 "returning a block failed with an exception");
            abandon("dealloc");
        }
        --inflight;
    };
    auto do_alloc = [&](std::size_t n, std::size_t al, int t) {
        void* p = nullptr;
        bool threw = false;
        std::size_t r0 = w.refusals();
        ++inflight;
        peak = std::max(peak, inflight);
        try {
            SimScope s;
            p = maybe_null(top->allocate(n, al));
        } catch (const std::bad_alloc&) {
            threw = true;
        } catch (const UpstreamError&) {
            threw = true;
        }
        --inflight;
        if (threw) {
            count("probe:failed-allocation");
            bool lim = w.res == R_CONTIG || w.res == R_COND;
            if (!any_fired() && w.refusals() == r0 && !lim)
                fail(PROP, "refused-without-cause",
                     "request of %zu bytes was refused although nothing "
                     "failed",
                     n);
            if (lim) ++contig_refused;
            return;
        }
        auto a = reinterpret_cast<std::uintptr_t>(p);
        vsim::log("t%d alloc %zu/%zu -> +%llx", t, n, al,
                  ull(a & ((u64(1) << 40) - 1)));
        if (!p || !w.owns(p, n)) {
            fail(PROP, "outside-upstream-memory",
                 "allocation of %zu bytes is not inside memory held from "
                 "upstream",
                 n);
            abandon("corrupt");
        }
        if (a & (al - 1))
            fail(PROP, "misaligned",
                 "the wrapped resource's answer or the alignment asked for "
                 "was changed (%zu bytes, alignment %zu)",
                 n, al);
        for (auto& b : live)
            if (a < b.p + b.n && b.p < a + n)
                fail(PROP, "overlap",
                     "allocation of %zu bytes overlaps a live allocation of "
                     "%zu bytes of thread %d",
                     n, b.n, b.owner);
        live.push_back({a, n, al, t});
    };

    std::size_t i = 0;
    while (i < c.ops.size()) {
        // one phase
        std::size_t e = i;
        while (e < c.ops.size() && c.ops[e].kind != O_REWRAP) ++e;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t)
            bodies.push_back([&, t, i, e] {
                for (std::size_t k = i; k < e; ++k) {
                    const Op& o = c.ops[k];
                    if (o.tid != t) continue;
                    arm(o);
                    switch (o.kind) {
                        case O_ALLOC:
                            do_alloc(static_cast<std::size_t>(o.a[0]),
                                     static_cast<std::size_t>(
                                         o.a[1] > 0 ? o.a[1] : 1),
                                     t);
                            break;
                        case O_FREE:
                        case O_TAKE: {
                            std::vector<std::size_t> mine;
                            for (std::size_t q = 0; q < live.size(); ++q)
                                if ((live[q].owner == t) == (o.kind == O_FREE))
                                    mine.push_back(q);
                            if (!mine.empty())
                                do_free(mine[static_cast<std::size_t>(o.a[0]) %
                                             mine.size()]);
                            break;
                        }
                        default: {
                            bool same, other, up;
                            {
                                SimScope s;
                                S copy(*top);
                                same = top->is_equal(*top);
                                up = top->is_equal(copy);
                                other = top->is_equal(*w.up[1]);
                            }
                            if (!same || !up || other)
                                fail(PROP, "wrong-equality",
                                     "is_equal gave %d for itself, %d for a "
                                     "copy, %d for another resource",
                                     same, up, other);
                        }
                    }
                    disarm();
                }
            });
        run_threads(bodies);
        i = e;
        if (i < c.ops.size()) {
            // nobody is using the wrapper: copy or move it
            SimScope s;
            S* n;
            vecmem::memory_resource* unused = w.up[1].get();
            switch (c.ops[i].a[0] & 3) {
                case 0:
                    n = new S(*top);
                    break;
                case 1:
                    n = new S(std::move(*top));
                    break;
                case 2:
                    n = new S(*unused);
                    *n = *top;
                    break;
                default:
                    n = new S(*unused);
                    *n = std::move(*top);
            }
            delete top;
            top = n;
            ++i;
            count("probe:rewrapped");
        }
    }
    if (peak > 1) {
        nontrivial();
        count("probe:overlapping-callers");
    }
    u64 h = static_cast<u64>(w.res) * 31 + live.size();
    for (auto& b : live)
        h = (h ^ (b.n + (b.p & 0xfffff))) * 0x100000001b3ull;
    state(h);
    // leftover blocks go back (one by one), then everything is torn down
    while (!live.empty()) do_free(live.size() - 1);
    {
        SimScope s;
        delete top;
    }
    w.destroy();
    for (auto& u : w.up)
        if (!u->live.empty())
            fail(PROP, "upstream-leak",
                 "%zu upstream blocks were never returned", u->live.size());
    if (heap_live())
        fail(PROP, "heap-leak", "bookkeeping memory leaked:%s",
             heap_describe().c_str());
}
const Harness H = {
    "sync", gen, run, kinds, 5,
    "2-6 threads allocate and free (own and each other's blocks) through one "
    "synchronized_memory_resource over 11 resource stacks, upstream and "
    "bookkeeping failures inside the calls, the wrapper copied / moved / "
    "assigned between phases; non-trivial: calls of two threads overlapped"};
Registrar reg(H);
}  // namespace sync

// ------------------------------------------------------- independent -----
namespace indep {
enum {
    O_ALLOC,
    O_FREE,
    O_MOVE,
    O_UNIQUE,
    O_VECTOR,
    O_COPY,
    O_HOSTALLOC,
};
const char* const kinds[] = {"ALLOC",  "FREE",        "FREEALL", "UNIQUE_PTR",
                             "VECTOR", "BUFFER_COPY", "SHARED_HOST_ALLOC"};

void gen(Rng& r, Case& c) {
    int nt = static_cast<int>(r.range(2, r.chance(0.3) ? 4 : 3));
    c.par["threads"] = nt;
    c.par["place"] = r.chance(0.5) ? 0 : 2;
    int kind = static_cast<int>(r.below(R_N));
    for (int t = 0; t < nt; ++t) {
        // often the same kind of resource in several threads
        if (r.chance(0.5)) kind = static_cast<int>(r.below(R_N));
        c.par[fmt("res%d", t)] = kind;
        c.par[fmt("cfg%d", t)] = static_cast<i64>(r.below(1 << 20));
    }
    double rate = r.chance(0.4) ? 0 : 0.1;
    u64 n = 4 + r.below(r.chance(0.1) ? 60 : 24);
    std::vector<std::pair<std::size_t, std::size_t>> fav;
    for (int i = 0; i < 3; ++i) fav.push_back({gen_size(r, 12), std::min<std::size_t>(gen_align(r), 1u << 14)});
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.tid = static_cast<int>(r.below(static_cast<u64>(nt)));
        o.kind = static_cast<int>(r.pick_w({10, 5, 1, 1, 1, 2, 1}));
        auto f = fav[r.below(3)];
        if (r.chance(0.3)) f = {gen_size(r, 14), std::min<std::size_t>(gen_align(r), 1u << 14)};
        o.a[0] = static_cast<i64>(f.first);
        o.a[1] = static_cast<i64>(f.second);
        o.a[2] = static_cast<i64>(r.below(1000));
        if (o.kind < O_UNIQUE) add_fault(r, o, rate);
        c.ops.push_back(o);
    }
}

/// Everything one thread does, and what it observes of it.
struct Task {
    Stack w;
    std::vector<std::string> seen;
    struct Blk {
        void* p;
        std::size_t n, al;
    };
    std::vector<Blk> live;
    std::vector<void*> shared_live;

    Task(const Case& c, int t) {
        for (int i = 0; i < 2; ++i) {
            w.up.emplace_back(
                new SimUpstream(i + 2 * t, static_cast<int>(c.p("place"))));
            w.up.back()->own_prop = "C24";
        }
    }
    void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        char b[300];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        seen.push_back(b);
    }
    std::string rel(const void* p) {
        for (std::size_t i = 0; i < w.up.size(); ++i) {
            auto a = reinterpret_cast<std::uintptr_t>(p);
            if (a >= w.up[i]->lo && a < w.up[i]->hi)
                return fmt("up%zu+%llx", i, ull(a - w.up[i]->lo));
        }
        return p ? "other" : "null";
    }
    void free_one(std::size_t i) {
        Blk b = live[i];
        live.erase(live.begin() + static_cast<long>(i));
        std::size_t before = w.up[0]->n_dealloc + w.up[1]->n_dealloc;
        try {
            SimScope s;
            w.top->deallocate(b.p, b.n, b.al);
        } catch (const std::exception& e) {
            note("free threw %s", e.what());
        }
        note("free %zu: %zu returned upstream", b.n,
             w.up[0]->n_dealloc + w.up[1]->n_dealloc - before);
    }
    void go(const Case& c, int t, vecmem::memory_resource& host,
            const vecmem::copy& copy) {
        w.build(static_cast<int>(c.p(fmt("res%d", t).c_str())),
                static_cast<u64>(c.p(fmt("cfg%d", t).c_str())));
        for (const Op& o : c.ops) {
            if (o.tid != t) continue;
            std::size_t n = static_cast<std::size_t>(o.a[0]),
                        al = as_align(o.a[1]);
            arm(o);
            switch (o.kind) {
                case O_ALLOC: {
                    void* p = nullptr;
                    int exc = 0;
                    std::size_t before =
                        w.up[0]->n_alloc + w.up[1]->n_alloc;
                    try {
                        SimScope s;
                        p = maybe_null(w.top->allocate(n, al));
                    } catch (const std::bad_alloc&) {
                        exc = 1;
                    } catch (const std::exception&) {
                        exc = 2;
                    }
                    note("alloc %zu/%zu: %s exception %d, %zu upstream "
                         "requests",
                         n, al, exc ? "none" : rel(p).c_str(), exc,
                         w.up[0]->n_alloc + w.up[1]->n_alloc - before);
                    if (!exc) live.push_back({p, n, al});
                    break;
                }
                case O_FREE:
                    if (!live.empty())
                        free_one(static_cast<std::size_t>(o.a[2]) %
                                 live.size());
                    break;
                case O_MOVE:
                    while (!live.empty()) free_one(0);
                    break;
                case O_UNIQUE: {
                    u64 v = 0;
                    {
                        SimScope s;
                        auto p = vecmem::make_unique_alloc<u64[]>(
                            host, 1 + n % 50);
                        for (std::size_t k = 0; k <= n % 50; ++k) p[k] = k + n;
                        auto q = vecmem::make_unique_obj<u64>(host, n);
                        v = p[n % 50] + *q;
                    }
                    note("unique %llu", static_cast<unsigned long long>(v));
                    break;
                }
                case O_VECTOR: {
                    u64 v = 0;
                    {
                        SimScope s;
                        vecmem::vector<u32> a(&host);
                        vecmem::jagged_vector<u32> j(&host);
                        for (u32 k = 0; k < n % 40; ++k) a.push_back(k);
                        j.resize(1 + n % 5);
                        for (auto& q : j) q.assign(a.begin(), a.end());
                        for (auto& q : j)
                            for (u32 x : q) v = v * 31 + x;
                    }
                    note("vector %llu", static_cast<unsigned long long>(v));
                    break;
                }
                case O_COPY: {
                    u64 v = 0;
                    bool same = false;
                    {
                        SimScope s;
                        unsigned m = static_cast<unsigned>(n % 60);
                        vecmem::vector<u32> a(&host), b(&host);
                        for (u32 k = 0; k < m; ++k)
                            a.push_back(k * 7 + static_cast<u32>(t));
                        vecmem::data::vector_buffer<u32> buf(
                            m, host, vecmem::data::buffer_type::resizable);
                        copy.setup(buf)->wait();
                        copy(vecmem::get_data(a), buf)->wait();
                        copy(buf, b)->wait();
                        same = a == b;
                        v = b.size();
                    }
                    note("copy %llu %d", static_cast<unsigned long long>(v),
                         same);
                    if (!same)
                        fail("C24", "wrong-content",
                             "data copied through a shared copy object was "
                             "damaged");
                    break;
                }
                case O_HOSTALLOC: {
                    void* p;
                    {
                        SimScope s;
                        p = maybe_null(host.allocate(n, al));
                        *static_cast<volatile char*>(p) = char(t);
                        static_cast<volatile char*>(p)[n - 1] = char(t);
                        // gives others a chance to interfere
                        vsim::yield_point();
                        bool ok = static_cast<volatile char*>(p)[0] == char(t);
                        host.deallocate(p, n, al);
                        HostScope h;
                        note("host %zu/%zu %d %d", n, al, ok,
                             int(ull(p) % al));
                    }
                    break;
                }
            }
            disarm();
        }
        if (w.mon) {
            SimScope s;
            std::size_t a = w.mon->total_allocation(),
                        b = w.mon->outstanding_allocation(),
                        d = w.mon->maximal_allocation();
            HostScope h;
            note("monitor %zu %zu %zu", a, b, d);
        }
        note("hooks %llu", static_cast<unsigned long long>(w.hooks));
        while (!live.empty()) free_one(live.size() - 1);
        w.destroy();
        for (auto& u : w.up) {
            note("upstream: %zu allocs, %zu frees, %zu left, peak %zu",
                 u->n_alloc, u->n_dealloc, u->live.size(), u->peak);
            if (!u->live.empty())
                fail("C24", "upstream-leak",
                     "%zu upstream blocks were never returned",
                     u->live.size());
        }
    }
};

void run(const Case& c) {
    const char* PROP = "C24";
    race_detection(true);
    int nt = static_cast<int>(c.p("threads", 2));
    std::vector<std::vector<std::string>> solo;
    // each task on its own ...
    for (int t = 0; t < nt; ++t) {
        vecmem::memory_resource* host;
        vecmem::copy* cp;
        {
            SimScope s;
            host = new vecmem::host_memory_resource;
            cp = new vecmem::copy;
        }
        Task k(c, t);
        run_threads({[&] { k.go(c, t, *host, *cp); }});
        solo.push_back(k.seen);
        SimScope s;
        delete cp;
        delete host;
    }
    if (heap_live())
        fail(PROP, "heap-leak", "memory leaked:%s", heap_describe().c_str());
    // ... and all at the same time
    vecmem::memory_resource* host;
    vecmem::copy* cp;
    {
        SimScope s;
        host = new vecmem::host_memory_resource;
        cp = new vecmem::copy;
    }
    std::vector<std::unique_ptr<Task>> ts;
    std::vector<std::function<void()>> b;
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back(new Task(c, t));
        b.push_back([&, t] { ts[static_cast<std::size_t>(t)]->go(c, t, *host,
                                                                 *cp); });
    }
    run_threads(b);
    {
        SimScope s;
        delete cp;
        delete host;
    }
    u64 h = 0;
    for (int t = 0; t < nt; ++t) {
        auto &x = solo[static_cast<std::size_t>(t)],
             &y = ts[static_cast<std::size_t>(t)]->seen;
        for (std::size_t i = 0; i < std::max(x.size(), y.size()); ++i) {
            std::string p = i < x.size() ? x[i] : "nothing",
                        q = i < y.size() ? y[i] : "nothing";
            if (p != q)
                fail(PROP, "disturbed-by-another-thread",
                     "step %zu of thread %d: \"%s\" when running alone, "
                     "\"%s\" next to other threads",
                     i, t, p.c_str(), q.c_str());
        }
        for (auto& s : y)
            for (char ch : s) h = h * 131 + static_cast<u64>(ch);
    }
    state(h);
    if (heap_live())
        fail(PROP, "heap-leak", "memory leaked:%s", heap_describe().c_str());
    int busy = 0;
    for (int t = 0; t < nt; ++t)
        if (solo[static_cast<std::size_t>(t)].size() > 4) ++busy;
    if (busy > 1) nontrivial();
}
const Harness H = {
    "indep", gen, run, kinds, 7,
    "2-4 threads, each with a resource stack of its own (often of the same "
    "kind), sharing only a host resource and a copy object, compared with the "
    "same operations of each thread running alone; non-trivial: at least two "
    "threads did something"};
Registrar reg(H);
}  // namespace indep
}  // namespace
