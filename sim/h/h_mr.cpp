// Histories of allocations on every memory resource, on top of a simulated
// upstream with injected failures.  Properties C01-C07.
#include "common.hpp"

#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"

using namespace hx;

namespace {
enum Kind {
    R_POOL,
    R_BINARY,
    R_ARENA,
    R_CONTIG,
    R_IDENTITY,
    R_DEBUG,
    R_INSTR,
    R_SYNC,
    R_COND,
    R_CO2,      // coalescing over two upstreams
    R_CO3,      // coalescing over contiguous, pool, upstream
    R_CH2,      // choice between two upstreams
    R_CHMIX,    // choice between pool and binary page
    R_DBGPOOL,  // debug on pool
    R_SYNCBIN,  // synchronized on binary page
    R_INSTARENA,
    R_N
};
enum OpK { O_ALLOC, O_FREE, O_MOVECTOR, O_MOVEASSIGN, O_FREEALL, O_CYCLE, O_NOTHING };
const char* const kinds[] = {"ALLOC",      "FREE",    "MOVE_CONSTRUCT",
                             "MOVE_ASSIGN", "FREEALL", "CYCLE",
                             "NOTHING"};

std::size_t p2(Rng& r, int lo, int hi) {
    return std::size_t(1) << r.range(lo, hi);
}

void add_fault(Rng& r, Op& o, double rate) {
    if (!r.chance(rate)) return;
    Fault f;
    switch (r.pick_w({5, 1, 4})) {
        case 0:
            f.site = F_UP;
            f.nth = static_cast<int>(r.chance(0.85) ? 0 : r.below(3));
            break;
        case 1:
            f.site = F_UPX;
            f.nth = 0;
            break;
        default:
            f.site = F_NEW;
            f.nth = static_cast<int>(r.chance(0.7) ? r.below(2) : r.below(6));
    }
    o.faults.push_back(f);
    if (r.chance(0.1)) {
        f.nth += 1 + static_cast<int>(r.below(2));
        o.faults.push_back(f);
    }
}

void gen(Rng& r, Case& c) {
    int res = static_cast<int>(
        r.pick_w({8, 7, 7, 3, 1, 2, 2, 1, 1, 2, 2, 2, 2, 2, 1, 1}));
    bool cyc = c.prop == "C05";
    if (cyc) {
        static const int k[] = {R_POOL, R_BINARY, R_ARENA, R_DBGPOOL,
                                R_SYNCBIN, R_INSTARENA};
        res = k[r.below(6)];
    }
    if (c.prop == "C06") res = r.chance(0.6) ? R_CONTIG : R_ARENA;
    if (c.prop == "C02" && r.chance(0.6)) res = static_cast<int>(r.below(4));
    c.par["res"] = res;
    if (c.prop == "C16") res = r.chance(0.85) ? R_POOL : R_DBGPOOL;
    bool faults = !r.chance(0.25) && (!cyc || r.chance(0.3));
    if (c.prop == "C04") faults = true;
    double rate = faults ? 0.02 + 0.2 * (static_cast<double>(r.below(100)) / 100)
                         : 0;
    c.par["place"] = r.range(0, 3);
    // upstream capacity: usually plentiful
    c.par["cap"] = (faults && r.chance(0.3))
                       ? static_cast<i64>(std::size_t(1) << r.range(12, 22))
                       : 0;
    // pool options
    for (int t = 0;; ++t) {
        std::size_t s = p2(r, 3, 7), l = p2(r, 7, 21);
        if (l < s) l = s;
        std::size_t al = p2(r, 0, 7);
        if (al > s) al = s;
        std::size_t minb = r.chance(0.06) ? 0 : 1 + r.below(20),
                    maxb = r.chance(0.5) ? (1u << 20) : minb + r.below(40);
        std::size_t minby = r.chance(0.5) ? 1024 : r.below(5000);
        if (r.chance(0.1)) minby = r.below(1 << 17);
        std::size_t maxby = r.chance(0.5) ? (1u << 30) : minby + p2(r, 10, 24);
        bool ok = maxby && maxb && minb <= maxb && minby <= maxby &&
                  minb * l <= maxby && minb * s <= maxby && maxb * l >= minby &&
                  maxb * s >= minby;
        if (!ok && t < 60) continue;
        if (!ok) {
            s = 16;
            l = 1 << 20;
            al = 16;
            minb = 16;
            maxb = 1 << 20;
            minby = 1024;
            maxby = 1 << 30;
        }
        c.par["p_s"] = static_cast<i64>(s);
        c.par["p_l"] = static_cast<i64>(l);
        c.par["p_al"] = static_cast<i64>(al);
        c.par["p_minb"] = static_cast<i64>(minb);
        c.par["p_maxb"] = static_cast<i64>(maxb);
        c.par["p_minby"] = static_cast<i64>(minby);
        c.par["p_maxby"] = static_cast<i64>(maxby);
        c.par["p_cache"] = r.chance(0.75);
        c.par["p_csz"] = static_cast<i64>(p2(r, cyc ? 1 : 0, 6));
        c.par["p_cal"] = static_cast<i64>(p2(r, cyc ? 1 : 0, 6));
        break;
    }
    c.par["bad"] = 0;
    if (c.prop == "C16" && res == R_POOL && r.chance(0.05)) {
        // options that contradict each other
        int k = static_cast<int>(1 + r.below(12));
        c.par["bad"] = k;
        auto set = [&](const char* n, u64 v) {
            c.par[n] = static_cast<i64>(v);
        };
        u64 s = static_cast<u64>(c.p("p_s")), l = static_cast<u64>(c.p("p_l"));
        switch (k) {
            case 1: set("p_s", s + 1 + r.below(s - 1)); break;
            case 2: set("p_l", l + 1 + r.below(l - 1)); break;
            case 3: set("p_al", 3 + 2 * r.below(20)); break;
            case 4: set("p_maxby", 0); break;
            case 5: set("p_maxb", 0); break;
            case 6: set("p_s", 0); break;
            case 7: set("p_l", 0); break;
            case 8: set("p_minb", static_cast<u64>(c.p("p_maxb")) + 1 +
                                      r.below(100)); break;
            case 9: set("p_minby", static_cast<u64>(c.p("p_maxby")) + 1 +
                                       r.below(100)); break;
            case 10: set("p_s", l * 2); break;
            case 11: set("p_al", s * 2); break;
            default:
                set("p_minb", static_cast<u64>(c.p("p_maxby")) / l + 1);
                set("p_maxb", static_cast<u64>(c.p("p_minb")) + 10);
        }
    }
    c.par["a_init"] = static_cast<i64>(
        r.chance(0.5) ? std::size_t(256) << r.below(14)
                      : std::size_t(1) << r.range(18, 22));
    c.par["a_max"] = static_cast<i64>(std::size_t(1) << 38);
    if (res == R_ARENA && !cyc && r.chance(c.prop == "C06" ? 0.9 : 0.15)) {
        if (r.chance(0.5))
            c.par["a_init"] = static_cast<i64>(256 * r.below(64));
        c.par["a_max"] =
            c.p("a_init") + static_cast<i64>(r.chance(0.3) ? r.below(5000)
                                                           : p2(r, 8, 23));
        if (r.chance(0.1)) c.par["a_max"] = -1;  // "no limit"
    }
    c.par["g_size"] = static_cast<i64>(r.chance(0.5) ? 1 + r.below(4096)
                                                     : 1 + r.below(1 << 22));
    c.par["cut"] = static_cast<i64>(gen_size(r, 14));
    c.par["inv"] = r.chance(0.3);
    c.par["end"] = r.chance(0.3);
    c.par["recover"] = r.chance(0.6);
    int maxlog = r.chance(0.5) ? 12 : r.chance(0.6) ? 18 : 23;
    if (r.chance(0.08)) {  // more than 32 bits can count
        maxlog = 35;
        if (r.chance(0.6))
            c.par["g_size"] = static_cast<i64>(r.below(u64(1) << 36));
        if (res == R_ARENA && r.chance(0.4))
            c.par["a_init"] = static_cast<i64>(u64(256) << r.range(18, 29));
        if (c.p("a_max") < c.p("a_init")) c.par["a_max"] = c.p("a_init") * 2;
        if (res == R_POOL && !c.p("bad") && r.chance(0.5)) {
            c.par["p_l"] = i64(1) << r.range(28, 36);
            c.par["p_minb"] = 1 + static_cast<i64>(r.below(
                                      static_cast<u64>(std::min<i64>(
                                          4, c.p("p_maxb")))));
            c.par["p_maxby"] = i64(1) << 38;
        }
        if (c.p("cap")) c.par["cap"] = c.p("cap") << 14;
    }
    // a few favourite sizes make reuse likely
    std::vector<std::pair<std::size_t, std::size_t>> fav;
    for (u64 i = 0, n = 1 + r.below(5); i < n; ++i)
        fav.push_back({gen_size(r, maxlog), gen_align(r)});
    bool plain_align = r.chance(0.4);
    double huge = r.chance(0.1) ? 0.05 : 0;
    u64 n = 3 + r.below(r.chance(0.15) ? 120 : 40);
    int wfree = static_cast<int>(r.range(2, 8));
    int wnothing = c.prop == "C17" ? 6 : r.chance(0.2) ? 1 : 0;
    for (u64 i = 0; i < n; ++i) {
        Op o;
        switch (r.pick_w({10, wfree, 1, wnothing, 1})) {
            case 0: {
                o.kind = O_ALLOC;
                if (r.chance(huge)) {
                    o.a[0] = r.chance(0.5)
                                 ? -1 - static_cast<i64>(r.below(600))
                                 : static_cast<i64>(u64(1) << r.range(40, 63));
                    o.a[1] = static_cast<i64>(gen_align(r));
                } else if (r.chance(0.6)) {
                    auto& f = fav[r.below(fav.size())];
                    o.a[0] = static_cast<i64>(f.first);
                    o.a[1] = static_cast<i64>(f.second);
                } else {
                    o.a[0] = static_cast<i64>(r.chance(0.02)
                                                  ? 0
                                                  : gen_size(r, maxlog));
                    o.a[1] = static_cast<i64>(gen_align(r));
                }
                if (plain_align) o.a[1] = 16;
                break;
            }
            case 1:
                o.kind = O_FREE;
                o.a[0] = static_cast<i64>(r.below(1000));
                break;
            case 2:
                o.kind = r.chance(0.5) ? O_MOVECTOR : O_MOVEASSIGN;
                break;
            case 3:
                o.kind = O_NOTHING;
                o.a[0] = r.chance(0.4);
                o.a[1] = static_cast<i64>(gen_align(r));
                o.a[2] = static_cast<i64>(r.chance(0.3) ? 0 : gen_size(r, 20));
                break;
            default:
                o.kind = O_FREEALL;
        }
        add_fault(r, o, rate);
        c.ops.push_back(o);
    }
    if (cyc) {
        Op o;
        o.kind = O_CYCLE;
        o.a[0] = static_cast<i64>(r.next() >> 2);
        o.a[1] = r.range(1, 12);
        o.a[2] = maxlog;
        o.a[3] = plain_align;
        c.ops.push_back(o);
    }
}

struct Live {
    std::uintptr_t p;
    std::size_t size, align;
};

struct World {
    const Case& c;
    std::vector<std::unique_ptr<SimUpstream>> up;
    std::vector<vecmem::memory_resource*> parts;  // owned, sim heap
    std::vector<std::function<void()>> destroy;   // reverse order
    vecmem::memory_resource* top = nullptr;
    std::function<void(int)> do_move;  // 0 construct, 1 assign
    std::map<std::uintptr_t, Live> live;
    std::vector<std::uintptr_t> order;
    int res;
    bool pred_refused = false;
    // requests that upstream granted during the current allocation
    std::vector<std::pair<std::uintptr_t, std::size_t>> gave;
    // pool model: returned blocks of each class that were not used again yet
    std::map<std::size_t, std::size_t> pool_free;
    bool failed_before = false;
    // contiguous model
    std::size_t cg_base = 0, cg_next = 0, cg_size = 0;

    explicit World(const Case& cc) : c(cc) {
        res = static_cast<int>(c.p("res"));
        for (int i = 0; i < 3; ++i) {
            up.emplace_back(new SimUpstream(
                i, static_cast<int>(c.p("place")) + (i ? 0 : 0)));
            if (c.p("cap"))
                up.back()->cap = static_cast<std::size_t>(c.p("cap"));
            up.back()->on_give = [this](std::uintptr_t a, std::size_t n) {
                gave.push_back({a, n});
            };
            up.back()->on_return = [this](std::uintptr_t a, std::size_t n) {
                over.erase(a);
                auto it = live.lower_bound(a);
                if (it != live.begin()) {
                    auto q = std::prev(it);
                    if (q->second.p + q->second.size > a) it = q;
                }
                if (!tearing && it != live.end() && it->second.p < a + n)
                    fail("C01", "live-memory-returned-upstream",
                         "memory of a live allocation of %zu bytes was "
                         "returned upstream",
                         it->second.size);
            };
        }
    }
    bool tearing = false;

    template <class T, class... A>
    T* make(A&&... a) {
        SimScope s;
        T* p = new T(std::forward<A>(a)...);
        HostScope h;
        parts.push_back(p);
        return p;
    }
    vecmem::pool_memory_resource::options popts() {
        SimScope s;
        vecmem::pool_memory_resource::options o;
        o.smallest_block_size = static_cast<std::size_t>(c.p("p_s"));
        o.largest_block_size = static_cast<std::size_t>(c.p("p_l"));
        o.alignment = static_cast<std::size_t>(c.p("p_al"));
        o.min_blocks_per_chunk = static_cast<std::size_t>(c.p("p_minb"));
        o.max_blocks_per_chunk = static_cast<std::size_t>(c.p("p_maxb"));
        o.min_bytes_per_chunk = static_cast<std::size_t>(c.p("p_minby"));
        o.max_bytes_per_chunk = static_cast<std::size_t>(c.p("p_maxby"));
        o.cache_oversized = c.p("p_cache");
        o.cached_size_cutoff_factor = static_cast<std::size_t>(c.p("p_csz"));
        o.cached_alignment_cutoff_factor =
            static_cast<std::size_t>(c.p("p_cal"));
        return o;
    }
    template <class T>
    void set_move(T* t, std::function<T*()> fresh) {
        do_move = [this, t, fresh](int how) {
            T* cur = static_cast<T*>(top);
            T* n = nullptr;
            if (how == 0) {
                SimScope s;
                n = new T(std::move(*cur));
            } else {
                n = fresh();
                if (!n) return;
                SimScope s;
                *n = std::move(*cur);
            }
            {
                SimScope s;
                delete cur;
            }
            for (auto& q : parts)
                if (q == cur) q = n;
            top = n;
        };
        (void)t;
    }
    template <class T, class... A>
    T* fresh_or_null(A&&... a) {
        try {
            SimScope s;
            return new T(std::forward<A>(a)...);
        } catch (const std::exception&) {
            return nullptr;
        }
    }
    void build() {
        SimUpstream& u = *up[0];
        switch (res) {
            case R_POOL: {
                auto* t = make<vecmem::pool_memory_resource>(u, popts());
                top = t;
                set_move<vecmem::pool_memory_resource>(t, [this, &u] {
                    return fresh_or_null<vecmem::pool_memory_resource>(u,
                                                                       popts());
                });
                break;
            }
            case R_BINARY: {
                auto* t = make<vecmem::binary_page_memory_resource>(u);
                top = t;
                set_move<vecmem::binary_page_memory_resource>(t, [this, &u] {
                    auto* f =
                        fresh_or_null<vecmem::binary_page_memory_resource>(u);
                    return f;
                });
                break;
            }
            case R_ARENA: {
                auto* t = make<vecmem::arena_memory_resource>(
                    u, static_cast<std::size_t>(c.p("a_init")),
                    static_cast<std::size_t>(c.p("a_max")));
                top = t;
                set_move<vecmem::arena_memory_resource>(t, [this, &u] {
                    return fresh_or_null<vecmem::arena_memory_resource>(
                        u, static_cast<std::size_t>(c.p("a_init")),
                        static_cast<std::size_t>(c.p("a_max")));
                });
                break;
            }
            case R_CONTIG: {
                auto* t = make<vecmem::contiguous_memory_resource>(
                    u, static_cast<std::size_t>(c.p("g_size")));
                top = t;
                cg_base = u.live.begin()->first;
                cg_next = cg_base;
                cg_size = static_cast<std::size_t>(c.p("g_size"));
                if (u.live.size() != 1 || u.live.begin()->second.size != cg_size)
                    fail("C06", "upstream-request",
                         "expected exactly one upstream block of %zu bytes",
                         cg_size);
                set_move<vecmem::contiguous_memory_resource>(t, [this, &u] {
                    return fresh_or_null<vecmem::contiguous_memory_resource>(
                        u, std::size_t(64));
                });
                break;
            }
            case R_IDENTITY:
                top = make<vecmem::identity_memory_resource>(u);
                break;
            case R_DEBUG: {
                auto* t = make<vecmem::debug_memory_resource>(u);
                top = t;
                set_move<vecmem::debug_memory_resource>(t, [this, &u] {
                    return fresh_or_null<vecmem::debug_memory_resource>(u);
                });
                break;
            }
            case R_INSTR: {
                auto* t = make<vecmem::instrumenting_memory_resource>(u);
                top = t;
                set_move<vecmem::instrumenting_memory_resource>(t, [this, &u] {
                    return fresh_or_null<vecmem::instrumenting_memory_resource>(
                        u);
                });
                break;
            }
            case R_SYNC:
                top = make<vecmem::synchronized_memory_resource>(u);
                break;
            case R_COND: {
                std::size_t cut = static_cast<std::size_t>(c.p("cut"));
                auto* t = make<vecmem::conditional_memory_resource>(
                    u, [this, cut](std::size_t n, std::size_t) {
                        HostScope h;
                        ++asked;
                        bool no = c.p("inv") ? n < cut : n > cut;
                        if (no) pred_refused = true;
                        return !no;
                    });
                top = t;
                set_move<vecmem::conditional_memory_resource>(t, [this, &u] {
                    return fresh_or_null<vecmem::conditional_memory_resource>(
                        u, [](std::size_t, std::size_t) { return true; });
                });
                break;
            }
            case R_CO2:
            case R_CO3: {
                std::vector<std::reference_wrapper<vecmem::memory_resource>> v;
                if (res == R_CO3) {
                    v.push_back(*make<vecmem::contiguous_memory_resource>(
                        *up[0], static_cast<std::size_t>(c.p("g_size"))));
                    v.push_back(
                        *make<vecmem::pool_memory_resource>(*up[1], popts()));
                    v.push_back(*up[2]);
                } else {
                    v.push_back(*up[0]);
                    v.push_back(*up[1]);
                }
                SimScope s;
                auto v2 = v;
                auto* t = make<vecmem::coalescing_memory_resource>(
                    std::move(v2));
                HostScope h;
                top = t;
                set_move<vecmem::coalescing_memory_resource>(t, [this] {
                    SimScope s2;
                    std::vector<std::reference_wrapper<vecmem::memory_resource>>
                        w;
                    try {
                        w.push_back(*up[0]);
                    } catch (const std::bad_alloc&) {
                        return static_cast<vecmem::coalescing_memory_resource*>(
                            nullptr);
                    }
                    return fresh_or_null<vecmem::coalescing_memory_resource>(
                        std::move(w));
                });
                break;
            }
            case R_CH2:
            case R_CHMIX: {
                vecmem::memory_resource *a = up[0].get(), *b = up[1].get();
                if (res == R_CHMIX) {
                    a = make<vecmem::pool_memory_resource>(*up[0], popts());
                    b = make<vecmem::binary_page_memory_resource>(*up[1]);
                }
                std::size_t cut = static_cast<std::size_t>(c.p("cut"));
                auto f = [this, a, b, cut](
                             std::size_t n,
                             std::size_t) -> vecmem::memory_resource& {
                    ++asked;
                    return n > cut ? *b : *a;
                };
                auto* t = make<vecmem::choice_memory_resource>(f);
                top = t;
                set_move<vecmem::choice_memory_resource>(t, [this, f] {
                    return fresh_or_null<vecmem::choice_memory_resource>(f);
                });
                break;
            }
            case R_DBGPOOL:
                top = make<vecmem::debug_memory_resource>(
                    *make<vecmem::pool_memory_resource>(u, popts()));
                break;
            case R_SYNCBIN:
                top = make<vecmem::synchronized_memory_resource>(
                    *make<vecmem::binary_page_memory_resource>(u));
                break;
            default:
                top = make<vecmem::instrumenting_memory_resource>(
                    *make<vecmem::arena_memory_resource>(
                        u, static_cast<std::size_t>(c.p("a_init")),
                        static_cast<std::size_t>(c.p("a_max"))));
        }
    }
    std::size_t refusals() const {
        return up[0]->refusals + up[1]->refusals + up[2]->refusals;
    }
    std::size_t upcalls() const {
        return up[0]->n_alloc + up[1]->n_alloc + up[2]->n_alloc;
    }
    bool contiguous_inside() const { return res == R_CONTIG; }

    std::size_t sp(const char* k) const {
        return static_cast<std::size_t>(c.p(k));
    }
    static std::size_t log2_up(std::size_t n) {
        std::size_t l = 0;
        while (l < 63 && (std::size_t(1) << l) < n) ++l;
        return l;
    }
    bool is_pool() const { return res == R_POOL || res == R_DBGPOOL; }
    bool is_binary() const { return res == R_BINARY || res == R_SYNCBIN; }
    bool is_arena() const { return res == R_ARENA || res == R_INSTARENA; }
    bool oversized(std::size_t n, std::size_t al) const {
        return std::max(n, sp("p_s")) > sp("p_l") || al > sp("p_al");
    }
    /// Does the memory that the resource holds have room for this request?
    bool has_room(std::size_t n, std::size_t al) const {
        if (n == 0 || n > (std::size_t(1) << 39) ||
            al > (std::size_t(1) << 39))
            return false;
        const auto& held = up[0]->live;
        if (is_pool()) {
            std::size_t m = std::max(n, sp("p_s"));
            if (!oversized(n, al)) {
                auto it = pool_free.find(log2_up(m));
                return it != pool_free.end() && it->second > 0;
            }
            if (!c.p("p_cache") || sp("p_csz") < 2 || sp("p_cal") < 2)
                return false;
            // an idle block that is just like the one requested
            for (auto& b : held)
                if (b.second.size == m && b.second.align == al &&
                    over.count(b.first) && !live.count(b.first))
                    return true;
            return false;
        }
        bool bin = is_binary();
        if (!bin && !is_arena()) return false;
        for (auto& b : held) {
            // unit: what the starts and ends of the pieces are rounded to
            std::size_t lo = b.first, end = b.first + b.second.size, unit = 256,
                        need, step;
            if (bin) {
                std::size_t top_l = log2_up(b.second.size), min_l = top_l - 8,
                            want = std::max<std::size_t>(
                                8, log2_up(std::max(n, al)));
                if (want < min_l || want > top_l || al > b.second.align)
                    continue;
                unit = std::size_t(1) << min_l;
                need = step = std::size_t(1) << want;
            } else {
                need = (n + 255) & ~std::size_t(255);
                step = std::max<std::size_t>(al, 256);
            }
            std::size_t gap = lo;  // start of the current gap
            auto fits = [&](std::size_t to) {
                // the binary pages' positions count from their superpage
                std::size_t base = bin ? lo : 0;
                std::size_t at =
                    base + ((gap - base + step - 1) & ~(step - 1));
                return at <= to && to - at >= need;
            };
            for (auto it = live.lower_bound(lo);
                 it != live.end() && it->first < end; ++it) {
                if (fits(it->first)) return true;
                std::size_t sz = it->second.size;
                if (bin)
                    sz = std::max(unit, std::size_t(1) << log2_up(std::max(
                                            sz, it->second.align)));
                else
                    sz = (sz + 255) & ~std::size_t(255);
                gap = it->first + sz;
            }
            if (fits(end)) return true;
        }
        return false;
    }
    std::set<std::uintptr_t> over;  // upstream blocks that are oversized ones
    /// The pool's contract with its options, for a request just granted.
    void check_pool(std::uintptr_t a, std::size_t n, std::size_t al) {
        std::size_t m = std::max(n, sp("p_s"));
        if (gave.size() > 1)
            fail("C16", "several-upstream-requests",
                 "one request of %zu/%zu led to %zu requests to upstream", n,
                 al, gave.size());
        if (oversized(n, al)) {
            if (!gave.empty()) {
                const auto& b = up[0]->live[gave[0].first];
                if (b.size != m || b.align != al || gave[0].first != a)
                    fail("C16", "oversized-request-altered",
                         "an oversized request of %zu/%zu was passed on as "
                         "%zu/%zu",
                         n, al, b.size, b.align);
                return;
            }
            count("probe:oversized-from-cache");
            auto it = up[0]->live.find(a);
            if (!c.p("p_cache"))
                fail("C16", "cached-although-disabled",
                     "an oversized request of %zu/%zu was served from a cache "
                     "that is disabled",
                     n, al);
            if (it == up[0]->live.end() || !over.count(a))
                fail("C16", "oversized-from-pool",
                     "an oversized request of %zu/%zu was not given a block "
                     "of its own",
                     n, al);
            else if (it->second.size / m >= sp("p_csz") ||
                     it->second.align / al >= sp("p_cal"))
                fail("C16", "cutoff-ignored",
                     "a request of %zu/%zu was given a cached block of %zu/%zu "
                     "(cutoff factors: %zu, %zu)",
                     n, al, it->second.size, it->second.align, sp("p_csz"),
                     sp("p_cal"));
            return;
        }
        if (gave.empty()) return;
        const auto& b = up[0]->live[gave[0].first];
        std::size_t blk = std::size_t(1) << log2_up(m), k = b.size / blk;
        if (b.align != sp("p_al") || k == 0 || k * blk != b.size)
            fail("C16", "chunk-shape",
                 "a chunk of %zu/%zu was requested for blocks of %zu bytes",
                 b.size, b.align, blk);
        // (one block is the least that a chunk may have)
        bool above = k > 1 && (k > sp("p_maxb") || b.size > sp("p_maxby"));
        if (above)
            fail("C16", "chunk-above-maximum",
                 "a chunk of %zu blocks, %zu bytes exceeds the maximum of %zu "
                 "blocks, %zu bytes",
                 k, b.size, sp("p_maxb"), sp("p_maxby"));
        // a chunk with one more block has to be possible
        bool below = k < sp("p_minb") || b.size < sp("p_minby");
        if (below && k + 1 <= sp("p_maxb") && b.size + blk <= sp("p_maxby"))
            fail("C16", "chunk-below-minimum",
                 "a chunk of %zu blocks, %zu bytes is below the minimum of %zu "
                 "blocks, %zu bytes",
                 k, b.size, sp("p_minb"), sp("p_minby"));
        count("probe:chunk");
    }

    /// One allocation; returns 0 when it failed legitimately.
    std::uintptr_t alloc(std::size_t n, std::size_t al) {
        std::size_t r0 = refusals(), n0 = upcalls();
        bool room = has_room(n, al);
        gave.clear();
        pred_refused = false;
        void* p = nullptr;
        int exc = 0;
        bool cg_ok = false;
        std::size_t cg_at = 0;
        if (res == R_CONTIG) {
            cg_at = (cg_next + al - 1) & ~(al - 1);
            cg_ok = cg_at - cg_base <= cg_size && n <= cg_size - (cg_at - cg_base);
        }
        try {
            SimScope s;
            p = maybe_null(top->allocate(n, al));
        } catch (const std::bad_alloc&) {
            exc = 1;
        } catch (const UpstreamError&) {
            exc = 2;
        } catch (const std::exception& e) {
            exc = 3;
            vsim::log("exception %s", e.what());
        }
        bool absurd = n > (std::size_t(1) << 39);
        if (room) {
            count("probe:room");
            if (refusals() > r0 || upcalls() > n0) {
                fail("C05", "upstream-asked-although-free",
                     "a request of %zu/%zu went upstream although returned "
                     "memory that fits it was free",
                     n, al);
                if (failed_before)
                    fail("C04", "memory-lost-after-failure",
                         "after a failed request, one of %zu/%zu went "
                         "upstream although memory that fits it was free",
                         n, al);
            }
        }
        if (exc) failed_before = true;
        if (is_pool() && oversized(n, al))
            for (auto& g : gave)
                if (up[0]->live.count(g.first)) over.insert(g.first);
        if (exc) {
            vsim::log("alloc %zu/%zu threw %d", n, al, exc);
            bool cause = any_fired() || refusals() > r0 || pred_refused ||
                         absurd || (res == R_CONTIG && !cg_ok);
            // an arena may refuse what its budget leaves no room for
            if (is_arena() && n < (std::size_t(1) << 39) &&
                up[0]->used + 2 * (n + al) + 4096 >
                    static_cast<std::size_t>(c.p("a_max"))) {
                count("probe:budget-exhausted");
                cause = true;
            }
            if (exc == 2 && !fired(F_UPX))
                fail("C04", "wrong-exception", "unexpected exception type");
            if (exc == 3)
                fail("C04", "wrong-exception",
                     "allocation of %zu/%zu ended with an exception that is "
                     "neither std::bad_alloc nor the upstream's own",
                     n, al);
            if (!cause) {
                if (res == R_CONTIG)
                    fail("C06", "refused-although-it-fits",
                         "request of %zu/%zu fits but was refused", n, al);
                fail("C04", "refused-without-cause",
                     "request of %zu bytes (alignment %zu) was refused although "
                     "nothing failed",
                     n, al);
            }
            count("probe:failed-allocation");
            return 0;
        }
        auto a = reinterpret_cast<std::uintptr_t>(p);
        int ui = a >= VIRT_BASE ? static_cast<int>((a - VIRT_BASE) >> 40) : 0;
        vsim::log("alloc %zu/%zu -> up%d+%llx", n, al, ui,
                  p ? ull(a - up[static_cast<std::size_t>(ui > 2 ? 0 : ui)]->lo)
                    : 0ull);
        if (n == 0) {
            // No storage was promised; give it straight back.
            count("probe:zero-size");
            SimScope s;
            top->deallocate(p, n, al);
            return 0;
        }
        if (!p) {
            fail("C01", "null-instead-of-memory",
                 "request of %zu bytes returned a null pointer", n);
            fail("C04", "null-instead-of-exception",
                 "request of %zu bytes returned a null pointer", n);
            abandon("null");
        }
        bool inside = false;
        for (auto& u : up)
            if (u->owns(p, n)) inside = true;
        if (!inside)
            fail("C01", "outside-upstream-memory",
                 "allocation of %zu bytes is not inside memory currently held "
                 "from upstream",
                 n);
        auto it = live.lower_bound(a);
        if (it != live.begin()) {
            auto q = std::prev(it);
            if (q->second.p + q->second.size > a) it = q;
        }
        if (it != live.end() && it->second.p < a + n)
            fail("C01", "overlap",
                 "allocation of %zu bytes at +%llx overlaps a live allocation "
                 "of %zu bytes at +%llx",
                 n, ull(a - up[0]->lo), it->second.size,
                 ull(it->second.p - up[0]->lo));
        if (a & (al - 1))
            fail("C02", "misaligned",
                 "request of %zu bytes with alignment %zu returned address "
                 "0x%llx",
                 n, al, ull(a));
        if (res == R_CONTIG) {
            if (!cg_ok)
                fail("C06", "exceeds-budget",
                     "request of %zu/%zu was granted beyond the budget", n, al);
            if (a != cg_at)
                fail("C06", "not-consecutive",
                     "allocation does not start right after the previous one");
            cg_next = a + n;
        }
        if (!inside || live.count(a)) abandon("corrupt");
        if (is_pool()) {
            check_pool(a, n, al);
            auto it = pool_free.find(log2_up(std::max(n, sp("p_s"))));
            if (!oversized(n, al) && it != pool_free.end() && it->second > 0)
                --it->second;
        }
        live[a] = {a, n, al};
        order.push_back(a);
        return a;
    }
    /// A request for nothing, or the return of nothing.
    void nothing(bool ret, std::size_t al, std::size_t n) {
        if (res == R_SYNC) return;  // passes everything on
        std::size_t c0 = calls(), asked0 = asked, h0 = heap_live();
        void* p = nullptr;
        const char* what = nullptr;
        try {
            SimScope s;
            if (ret)
                top->deallocate(nullptr, n, al);
            else
                p = maybe_null(top->allocate(0, al));
        } catch (const std::exception& e) {
            what = "ended with an exception";
        }
        vsim::log("nothing %d/%zu/%zu", ret, n, al);
        if (p)
            what = "returned a pointer";
        else if (calls() != c0)
            what = "reached upstream";
        else if (asked != asked0)
            what = "reached the function that routes requests";
        else if (heap_live() != h0)
            what = "changed the bookkeeping memory";
        if (what)
            fail("C17", ret ? "null-pointer-returned" : "empty-request",
                 "%s %s", ret ? "returning a null pointer"
                              : "a request for no memory",
                 what);
        count(ret ? "probe:null-returned" : "probe:empty-request");
    }
    std::size_t asked = 0;  // calls of the predicate / choice function
    std::size_t calls() const {
        std::size_t n = 0;
        for (auto& u : up) n += u->n_alloc + u->n_dealloc + u->refusals;
        return n;
    }
    bool free_one(std::size_t i) {
        std::uintptr_t a = order[i];
        Live l = live[a];
        order.erase(order.begin() + static_cast<long>(i));
        live.erase(a);
        vsim::log("free %zu/%zu", l.size, l.align);
        try {
            SimScope s;
            top->deallocate(reinterpret_cast<void*>(a), l.size, l.align);
        } catch (const std::exception& e) {
            fail("C04", "deallocate-threw",
                 "returning a block of %zu bytes failed with an exception "
                 "(%s)",
                 l.size, e.what());
            abandon("dealloc-threw");
        }
        if (is_pool()) {
            if (!oversized(l.size, l.align))
                ++pool_free[log2_up(std::max(l.size, sp("p_s")))];
            else if (!c.p("p_cache") && up[0]->live.count(a))
                fail("C16", "cached-although-disabled",
                     "an oversized block of %zu bytes was kept although "
                     "caching is disabled",
                     l.size);
            else if (c.p("p_cache") && !up[0]->live.count(a))
                fail("C16", "not-cached",
                     "an oversized block of %zu bytes was not kept although "
                     "caching is enabled",
                     l.size);
        }
        return true;
    }
    void free_all() {
        while (!order.empty()) free_one(order.size() - 1);
    }
    void teardown() {
        SimScope s;
        // reverse order of construction
        for (std::size_t i = parts.size(); i-- > 0;) delete parts[i];
    }
};

void run(const Case& c) {
    World w(c);
    if (c.p("bad")) {
        bool refused = false;
        vsim::log("contradictory options %lld",
                  static_cast<long long>(c.p("bad")));
        try {
            SimScope s;
            vecmem::pool_memory_resource mr(*w.up[0], w.popts());
        } catch (const std::invalid_argument&) {
            refused = true;
        }
        if (!refused || w.upcalls())
            fail("C16", "contradictory-options-accepted",
                 "contradictory options (kind %lld) were not refused",
                 static_cast<long long>(c.p("bad")));
        if (heap_live())
            fail("C16", "heap-leak", "refusing options leaked memory:%s",
                 heap_describe().c_str());
        count("probe:contradictory-options");
        nontrivial();
        return;
    }
    {
        bool ok = true;
        try {
            w.build();
        } catch (const std::bad_alloc&) {
            // construction legitimately failed (upstream capacity)
            if (w.refusals() == 0)
                fail("C04", "construction-failed",
                     "construction failed without a cause");
            ok = false;
        }
        if (!ok) {
            w.teardown();
            for (auto& u : w.up)
                if (!u->live.empty())
                    fail("C03", "leak-after-failed-construction",
                         "upstream memory is still held after a failed "
                         "construction");
            return;
        }
    }
    if (w.is_arena() && w.up[0]->used != w.sp("a_init"))
        fail("C06", "initial-size",
             "the arena holds %zu bytes after its construction instead of its "
             "initial size of %zu",
             w.up[0]->used, w.sp("a_init"));
    bool had_fail = false, had_reuse = false;
    for (const Op& o : c.ops) {
        arm(o);
        switch (o.kind) {
            case O_ALLOC: {
                std::size_t n0 = w.upcalls();
                std::uintptr_t a =
                    w.alloc(static_cast<std::size_t>(o.a[0]),
                            as_align(o.a[1]));
                if (!a) had_fail = true;
                if (a && w.upcalls() == n0) had_reuse = true;
                break;
            }
            case O_FREE:
                if (!w.order.empty())
                    w.free_one(static_cast<std::size_t>(o.a[0]) %
                               w.order.size());
                break;
            case O_MOVECTOR:
            case O_MOVEASSIGN:
                if (w.do_move) {
                    if (o.kind == O_MOVECTOR) disarm();
                    try {
                        w.do_move(o.kind == O_MOVECTOR ? 0 : 1);
                    } catch (const std::exception&) {
                        // only the construction of the target may fail
                        if (!any_fired() && w.refusals() == 0) throw;
                    }
                    count("probe:moved");
                }
                break;
            case O_FREEALL:
                w.free_all();
                break;
            case O_NOTHING:
                w.nothing(o.a[0], as_align(o.a[1]),
                          static_cast<std::size_t>(o.a[2]));
                break;
            case O_CYCLE: {
                w.free_all();
                for (auto& u : w.up) u->cap = ~std::size_t(0);
                // the same sequence, again and again
                Rng r(static_cast<u64>(o.a[0]));
                std::vector<std::pair<std::size_t, std::size_t>> rq;
                std::vector<std::size_t> fr;
                for (i64 i = 0; i < o.a[1]; ++i) {
                    rq.push_back({gen_size(r, static_cast<int>(o.a[2])),
                                  o.a[3] ? 16 : gen_align(r)});
                    fr.push_back(r.below(1000));
                }
                u64 fmode = r.below(3);
                bool settled = false;
                std::size_t limit = 6 + 2 * rq.size();
                bool cached = c.p("p_cache") ||
                              !(w.res == R_POOL || w.res == R_DBGPOOL);
                for (std::size_t k = 0; k < limit && !settled; ++k) {
                    std::size_t n0 = w.upcalls();
                    for (auto& q : rq) w.alloc(q.first, q.second);
                    if (fmode == 0)
                        w.free_all();
                    else
                        for (std::size_t i = 0; !w.order.empty(); ++i)
                            w.free_one(fmode == 1 ? 0
                                                  : fr[i % fr.size()] %
                                                        w.order.size());
                    settled = w.upcalls() == n0;
                    if (!cached) {
                        // oversized blocks go straight back: footprint test
                        std::size_t u0 = w.up[0]->used;
                        for (auto& q : rq) w.alloc(q.first, q.second);
                        w.free_all();
                        settled = w.up[0]->used == u0;
                    }
                }
                if (!settled)
                    fail("C05", "footprint-keeps-growing",
                         "repeating the same %zu requests and freeing them "
                         "keeps requesting upstream memory (now %zu bytes "
                         "held)",
                         rq.size(), w.up[0]->used);
                nontrivial();
                break;
            }
        }
        disarm();
        if (w.is_arena() &&
            w.up[0]->used > static_cast<std::size_t>(c.p("a_max")))
            fail("C06", "exceeds-budget",
                 "%zu bytes are held from upstream, the limit is %lld",
                 w.up[0]->used, static_cast<long long>(c.p("a_max")));
        u64 h = 1469598103934665603ull;
        for (auto& l : w.live)
            h = (h ^ (l.second.size * 31 + (l.first & 0xffff))) *
                0x100000001b3ull;
        state(h ^ static_cast<u64>(w.res));
    }
    // Faults have stopped and upstream has memory again: requests succeed.
    if (c.p("recover") && w.res != R_CONTIG) {
        for (auto& u : w.up) u->cap = ~std::size_t(0);
        std::size_t sz = w.res == R_COND && !c.p("inv")
                             ? 1
                             : static_cast<std::size_t>(c.p("cut"));
        for (int i = 0; i < 3; ++i) w.alloc(sz, 8);
        count("probe:recovery");
    }
    bool outstanding_ok = w.res <= R_CONTIG;
    if (!(c.p("end") && outstanding_ok)) {
        w.free_all();
    } else if (!w.live.empty()) {
        count("probe:destroyed-with-outstanding");
    }
    w.tearing = true;
    w.teardown();
    for (auto& u : w.up)
        if (!u->live.empty()) {
            fail("C03", "upstream-leak",
                 "%zu upstream block(s), %zu bytes, never returned "
                 "(first: %zu bytes)",
                 u->live.size(), u->used, u->live.begin()->second.size);
            if (had_fail)
                fail("C04", "leak-after-failure",
                     "%zu upstream block(s), %zu bytes, lost after a failed "
                     "request",
                     u->live.size(), u->used);
        }
    if (heap_live())
        fail("C03", "heap-leak", "bookkeeping memory leaked:%s",
             heap_describe().c_str());
    if (c.ops.size() > 2 && (had_fail || had_reuse)) nontrivial();
}

const Harness H = {
    "mr", gen, run, kinds, 7,
    "random history of allocate/free/move on one of 16 resource stacks with "
    "random tuning, upstream and bookkeeping failures; non-trivial: at least "
    "one allocation was served without a new upstream request, or failed"};
Registrar reg(H);
}  // namespace
