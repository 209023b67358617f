// Shared pieces of the harnesses: simulated upstream resource, size mix.
#pragma once
#include "../rt/vsim.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "vecmem/memory/memory_resource.hpp"

namespace hx {
using namespace vsim;
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

struct UpstreamError : std::runtime_error {
    UpstreamError() : std::runtime_error("simulated upstream failure") {}
};
struct UserError : std::runtime_error {
    UserError() : std::runtime_error("simulated user-code failure") {}
};

inline unsigned long long ull(std::size_t v) { return v; }
inline unsigned long long ull(const void* p) {
    return reinterpret_cast<std::uintptr_t>(p);
}

/// std::pmr's allocate() is declared to never return a null pointer, and the
/// compiler believes that; here it has to be looked at.
inline void* maybe_null(void* p) {
    asm volatile("" : "+r"(p));
    return p;
}

/// Simulated upstream: an address space, not memory. The bytes it hands out
/// are not backed, so any access by a memory resource is caught.
class SimUpstream : public vecmem::memory_resource {
public:
    struct Blk {
        std::size_t size, align;
    };
    std::map<std::uintptr_t, Blk> live;
    std::uintptr_t lo, hi, bump;
    std::size_t cap = ~std::size_t(0);
    std::size_t used = 0;
    std::size_t n_alloc = 0, n_dealloc = 0;
    std::size_t refusals = 0;  ///< requests refused (any reason)
    std::size_t peak = 0;
    int id;
    int placement;
    std::vector<std::uintptr_t> freed;
    /// resources that draw from the same addresses (what one of them got back
    /// may be handed out by another one next)
    std::shared_ptr<std::vector<SimUpstream*>> peers;
    /// called (host scope) before a block is taken back
    std::function<void(std::uintptr_t, std::size_t)> on_return;
    std::function<void(std::uintptr_t, std::size_t)> on_give;
    /// exclusion probe for the synchronised resource
    int inside = 0;
    bool probe_exclusion = false;
    const char* own_prop = "C03";
    std::size_t max_align_seen = 0;

    explicit SimUpstream(int i, int place = 0) : id(i), placement(place) {
        lo = VIRT_BASE + (static_cast<std::uintptr_t>(i) << 40) + 4096;
        hi = lo + (std::uintptr_t(1) << 40) - 8192;
        bump = lo;
    }
    void share(SimUpstream& first) {
        if (!first.peers)
            first.peers = std::make_shared<std::vector<SimUpstream*>>(
                1, &first);
        peers = first.peers;
        if (this != &first) peers->push_back(this);
        lo = first.lo;
        hi = first.hi;
        bump = lo;
    }
    bool owns(const void* p, std::size_t n) const {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = live.upper_bound(a);
        if (it == live.begin()) return false;
        --it;
        return a >= it->first && a - it->first <= it->second.size &&
               n <= it->second.size - (a - it->first);
    }
    std::uintptr_t place(std::size_t n, std::size_t al) {
        auto up = [&](std::uintptr_t a) { return (a + al - 1) & ~(al - 1); };
        std::size_t eff = n ? n : 1;
        if (peers)
            for (auto* o : *peers) bump = std::max(bump, o->bump);
        if (peers && placement >= 2)
            for (auto* o : *peers)
                for (std::size_t k = 0; k < o->freed.size(); ++k) {
                    std::uintptr_t a = up(o->freed[k]);
                    bool ok = true;
                    for (auto* q : *peers) ok = ok && q->fits(a, eff);
                    if (!ok) continue;
                    if (o != this) count("probe:address-reused-by-other");
                    o->freed.erase(o->freed.begin() + static_cast<long>(k));
                    bump = std::max(bump, a + eff);
                    return a;
                }
        // reuse freed space when allowed
        if (!peers && placement >= 2 && !freed.empty()) {
            for (std::size_t k = 0; k < freed.size(); ++k) {
                std::uintptr_t a = up(freed[k]);
                if (fits(a, eff)) {
                    freed.erase(freed.begin() + static_cast<long>(k));
                    bump = std::max(bump, a + eff);
                    return a;
                }
            }
        }
        std::uintptr_t a = up(bump);
        if (placement == 1) {  // gaps, and only as aligned as asked for
            a += 64 + 64 * choose(8);
            if (al <= 4096) a += al * choose(4);
            a = up(a);
        }
        if (a + eff > hi || a + eff < a) return 0;
        bump = a + eff;
        return a;
    }
    bool fits(std::uintptr_t a, std::size_t n) const {
        if (a + n > hi) return false;
        auto it = live.lower_bound(a);
        if (it != live.end() && it->first < a + n) return false;
        if (it != live.begin()) {
            --it;
            if (it->first + std::max<std::size_t>(it->second.size, 1) > a)
                return false;
        }
        return true;
    }

private:
    void enter() {
        if (!probe_exclusion) return;
        if (inside++)
            fail("C11", "overlapping-calls",
                 "two calls are inside the wrapped resource at the same time");
        vsim::SimScope s;
        vsim::yield_point();
        vsim::yield_point();
    }
    void leave() {
        if (probe_exclusion) --inside;
    }
    void* do_allocate(std::size_t n, std::size_t al) override {
        return allocate2(n, al);
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        deallocate2(p, n, al);
    }

protected:
    void* allocate2(std::size_t n, std::size_t al) {
        HostScope hs;
        enter();
        if (fire(F_UP)) {
            ++refusals;
            leave();
            throw std::bad_alloc();
        }
        if (fire(F_UPX)) {
            ++refusals;
            leave();
            throw UpstreamError();
        }
        if (al == 0 || (al & (al - 1)))
            fail(own_prop, "bad-upstream-alignment",
                 "upstream was asked for alignment %zu", al);
        if (n > cap || used > cap - n || n > (std::size_t(1) << 39) ||
            al > (std::size_t(1) << 39)) {
            ++refusals;
            count("fault:upstream_capacity");
            leave();
            throw std::bad_alloc();
        }
        std::uintptr_t a = place(n, al);
        if (!a) {
            ++refusals;
            leave();
            throw std::bad_alloc();
        }
        live[a] = {n, al};
        used += n;
        peak = std::max(peak, used);
        ++n_alloc;
        max_align_seen = std::max(max_align_seen, al);
        vsim::log("up%d alloc %zu/%zu -> +%llx", id, n, al,
                  ull(a - lo));
        if (on_give) on_give(a, n);
        leave();
        return reinterpret_cast<void*>(a);
    }
    void deallocate2(void* p, std::size_t n, std::size_t al) {
        HostScope hs;
        enter();
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = live.find(a);
        vsim::log("up%d free +%llx %zu/%zu", id, ull(a - lo), n, al);
        if (it == live.end()) {
            fail(own_prop, "returned-unknown-block",
                 "upstream %d was given back +%llx (%zu bytes), which is not a "
                 "block it handed out (or was already returned)",
                 id, ull(a - lo), n);
            leave();
            return;
        }
        if (it->second.size != n || it->second.align != al)
            fail(own_prop, "returned-with-wrong-arguments",
                 "block +%llx was allocated with %zu/%zu and returned with "
                 "%zu/%zu",
                 ull(a - lo), it->second.size, it->second.align, n, al);
        if (on_return) on_return(a, it->second.size);
        used -= it->second.size;
        freed.push_back(a);
        live.erase(it);
        ++n_dealloc;
        leave();
    }

private:
    bool do_is_equal(const memory_resource& o) const noexcept override {
        return this == &o;
    }
};

/// Sizes that sit on and around the boundaries which matter.
inline std::size_t gen_size(Rng& r, int maxlog = 22) {
    switch (r.pick_w({5, 4, 4, 3, 2, 1})) {
        case 0:
            return 1 + r.below(64);
        case 1:
            return 1 + r.below(4096);
        case 2: {
            std::size_t p = std::size_t(1)
                            << r.below(static_cast<u64>(maxlog) + 1);
            i64 d = r.range(-1, 1);
            i64 v = static_cast<i64>(p) + d;
            return v < 1 ? 1 : static_cast<std::size_t>(v);
        }
        case 3:
            return std::size_t(8) << r.below(12);
        case 4:
            return 1 + r.below(std::size_t(1) << maxlog);
        default:
            return 256 * (1 + r.below(2000));
    }
}
/// The alignment that an (possibly minimised) operation asks for
inline std::size_t as_align(i64 v) {
    std::size_t a = 1;
    while (a <= static_cast<std::size_t>(v < 1 ? 1 : v) / 2) a *= 2;
    return a;
}
inline std::size_t gen_align(Rng& r) {
    switch (r.pick_w({60, 40, 20, 10, 2})) {
        case 0:
            return 16;
        case 1:
            return std::size_t(1) << r.below(5);
        case 2:
            return std::size_t(1) << (4 + r.below(6));
        case 3:
            return std::size_t(1) << r.below(14);
        default:
            // (up to more than anybody has)
            return std::size_t(1) << r.below(r.chance(0.5)   ? 21
                                             : r.chance(0.9) ? 38
                                                             : 63);
    }
}
}  // namespace hx
