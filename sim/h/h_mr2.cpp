// Debugging, instrumentation, routing, host memory and smart pointers.
// Properties C08-C10, C12-C14.
#include "common.hpp"

#include "vecmem/memory/allocator.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/utils/memory_monitor.hpp"

using namespace hx;

namespace {
enum Res { OK, BAD, UPX, USER, LOGIC, OTHER };
const char* const rname[] = {"success",    "std::bad_alloc", "upstream error",
                             "user error", "std::logic_error",
                             "other exception"};
Res attempt_(const std::function<void()>& f);
Res attempt(const std::function<void()>& f) {
    Res r = attempt_(f);
    vsim::log("-> %s", rname[r]);
    return r;
}
Res attempt_(const std::function<void()>& f) {
    try {
        SimScope s;
        f();
        return OK;
    } catch (const std::bad_alloc&) {
        return BAD;
    } catch (const UpstreamError&) {
        return UPX;
    } catch (const UserError&) {
        return USER;
    } catch (const std::logic_error&) {
        return LOGIC;
    } catch (const std::exception&) {
        return OTHER;
    }
}
std::uintptr_t addr(const void* p) { return reinterpret_cast<std::uintptr_t>(p); }
void leak_check(const char* prop) {
    if (heap_live())
        fail(prop, "memory-leak", "%zu heap blocks are left over%s",
             heap_live(), heap_describe().c_str());
}

// =================================================================== C08 ===
namespace dbg {
enum OpK { ALLOC, FREE, DOUBLE, FOREIGN, INTERIOR, WSIZE, WALIGN, OVERLAP, N };
const char* const kinds[] = {"ALLOC",    "FREE",       "DOUBLE_FREE",
                             "FOREIGN",  "INTERIOR",   "WRONG_SIZE",
                             "WRONG_ALIGN", "OVERLAPPING_ALLOC"};

/// An upstream which sometimes hands out memory that is in use already.
struct Upstream : SimUpstream {
    using SimUpstream::SimUpstream;
    std::uintptr_t forced = 0;
    std::size_t calls = 0;
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        ++calls;
        if (forced) {
            auto a = forced;
            forced = 0;
            return reinterpret_cast<void*>(a);
        }
        return SimUpstream::allocate2(n, al);
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        HostScope h;
        ++calls;
        SimUpstream::deallocate2(p, n, al);
    }
};

void gen(Rng& r, Case& c) {
    c.par["place"] = r.range(0, 3);
    bool faults = r.chance(0.5);
    u64 n = 3 + r.below(r.chance(0.1) ? 80 : 25);
    bool misuse = r.chance(0.9);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(
            misuse ? r.pick_w({12, 6, 1, 1, 1, 1, 1, 3}) : r.pick_w({3, 2}));
        o.a[0] = static_cast<i64>(o.kind == ALLOC && r.chance(0.03)
                                      ? 0
                                      : gen_size(r, r.chance(0.5)    ? 6
                                                     : r.chance(0.1) ? 36
                                                                     : 20));
        o.a[1] = static_cast<i64>(gen_align(r));
        o.a[2] = static_cast<i64>(r.next() >> 2);
        o.a[3] = static_cast<i64>(r.next() >> 2);
        o.a[4] = static_cast<i64>(r.below(6));
        if (faults && r.chance(0.15)) {
            Fault f;
            f.site = r.chance(0.4) ? F_UP : r.chance(0.2) ? F_UPX : F_NEW;
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

struct Blk {
    std::uintptr_t p;
    std::size_t n, al;
};

void run(const Case& c) {
    Upstream up(0, static_cast<int>(c.p("place")));
    up.own_prop = "C08";
    vecmem::debug_memory_resource* d;
    {
        SimScope s;
        d = new vecmem::debug_memory_resource(up);
    }
    std::vector<Blk> live, dead;
    auto refuse = [&](Res r, const char* what, std::size_t before) {
        // with a failing allocation inside, the error may be another one
        if (r != LOGIC && !(any_fired() && r == BAD))
            fail("C08", "misuse-not-reported",
                 "%s was not reported (%s) with %zu live blocks", what,
                 rname[r], live.size());
        if (up.calls != before)
            fail("C08", "misuse-reached-upstream",
                 "%s was passed on to the upstream resource", what);
        count("probe:misuse-reported");
        nontrivial();
    };
    for (const Op& o : c.ops) {
        vsim::log("%s %lld %lld", kinds[o.kind], static_cast<long long>(o.a[0]),
                  static_cast<long long>(o.a[1]));
        arm(o);
        std::size_t n = static_cast<std::size_t>(o.a[0]),
                    al = as_align(o.a[1]);
        std::size_t k = live.empty() ? 0
                                     : static_cast<std::size_t>(o.a[2]) %
                                           live.size();
        std::size_t before = up.calls;
        auto dealloc = [&](std::uintptr_t p, std::size_t sz, std::size_t a) {
            return attempt(
                [&] { d->deallocate(reinterpret_cast<void*>(p), sz, a); });
        };
        if (o.kind == ALLOC) {
            void* p = nullptr;
            Res r = attempt([&] { p = maybe_null(d->allocate(n, al)); });
            if (r == OK && n == 0) {
                if (p || up.calls != before)
                    fail("C08", "zero-size", "a request for nothing returned "
                                             "memory");
            } else if (r == OK) {
                if (!up.live.count(addr(p)))
                    fail("C08", "wrong-pointer",
                         "the pointer is not one of the upstream's");
                live.push_back({addr(p), n, al});
            } else if (r == LOGIC) {
                fail("C08", "false-alarm",
                     "a correct allocation of %zu bytes was refused with %zu "
                     "live blocks",
                     n, live.size());
                abandon("false alarm");
            } else if (!any_fired() && r != BAD) {
                fail("C08", "unexpected-failure", "allocation failed (%s)",
                     rname[r]);
            }
            if (r != OK && up.live.size() != live.size())
                fail("C08", "lost-block",
                     "an allocation failed, and upstream memory was lost");
        } else if (o.kind == OVERLAP) {
            if (live.empty()) continue;
            // a fitting wrong address: overlaps by at least one byte
            Blk& b = live[k];
            if (!n) n = 1;
            std::uintptr_t lo = b.p >= n - 1 ? b.p - (n - 1) : 0,
                           hi = b.p + b.n - 1;
            std::uintptr_t f;
            switch (o.a[4]) {
                case 0:
                    f = lo;
                    break;
                case 1:
                    f = hi;
                    break;
                case 2:
                    f = b.p;
                    break;
                default:
                    f = lo + static_cast<std::uintptr_t>(o.a[3]) % (hi - lo + 1);
            }
            f &= ~std::uintptr_t(0);
            if (f < up.lo) f = b.p;
            up.forced = f;
            void* p = nullptr;
            Res r = attempt([&] { p = maybe_null(d->allocate(n, 1)); });
            up.forced = 0;
            if (r != LOGIC && !(any_fired() && r == BAD))
                fail("C08", "overlap-not-reported",
                     "memory at %+lld of %zu bytes was handed out over a live "
                     "block of %zu bytes without a complaint (%s)",
                     static_cast<long long>(f - b.p), n, b.n, rname[r]);
            count("probe:overlap-reported");
            nontrivial();
            if (r == OK) abandon("overlap accepted");
        } else if (o.kind == FREE) {
            if (live.empty()) continue;
            Blk b = live[k];
            Res r = dealloc(b.p, b.n, b.al);
            if (r == LOGIC) {
                fail("C08", "false-alarm",
                     "a correct deallocation of %zu bytes was refused", b.n);
                abandon("false alarm");
            }
            if (r == OK) {
                if (up.live.count(b.p))
                    fail("C08", "lost-block",
                         "a freed block did not reach the upstream resource");
                live.erase(live.begin() + static_cast<long>(k));
                dead.push_back(b);
            } else {
                fail("C08", "unexpected-failure", "deallocation failed (%s)",
                     rname[r]);
                abandon("dealloc");
            }
        } else if (o.kind == DOUBLE) {
            if (dead.empty()) continue;
            Blk b = dead[static_cast<std::size_t>(o.a[2]) % dead.size()];
            bool again = false;
            for (auto& x : live) again |= x.p == b.p;
            if (again) continue;
            refuse(dealloc(b.p, b.n, b.al), "a second deallocation", before);
        } else if (o.kind == FOREIGN) {
            std::uintptr_t p =
                VIRT_BASE + (std::uintptr_t(5) << 40) +
                static_cast<std::uintptr_t>(o.a[3]) % (1u << 20);
            if (live.size() && o.a[4] == 0) p = live[k].p + live[k].n;
            bool again = false;
            for (auto& x : live) again |= x.p == p;
            if (again) continue;
            refuse(dealloc(p, n ? n : 1, al), "a foreign pointer", before);
        } else if (o.kind == INTERIOR) {
            if (live.empty() || live[k].n < 2) continue;
            Blk& b = live[k];
            std::size_t off =
                1 + static_cast<std::size_t>(o.a[3]) % (b.n - 1);
            refuse(dealloc(b.p + off, o.a[4] & 1 ? b.n : b.n - off, b.al),
                   "a pointer into the middle of a block", before);
        } else if (o.kind == WSIZE) {
            if (live.empty()) continue;
            Blk& b = live[k];
            std::size_t w = o.a[4] == 0   ? b.n + 1
                            : o.a[4] == 1 ? b.n - 1
                            : o.a[4] == 2 ? b.n + (std::size_t(1) << 32)
                                          : n;
            if (w == b.n) continue;
            refuse(dealloc(b.p, w, b.al), "a wrong size", before);
        } else if (o.kind == WALIGN) {
            if (live.empty()) continue;
            Blk& b = live[k];
            std::size_t w = o.a[4] == 0   ? b.al * 2
                            : o.a[4] == 1 ? std::max<std::size_t>(b.al / 2, 1)
                            : o.a[4] == 2 ? b.al << 32
                                          : al;
            if (w == b.al) continue;
            refuse(dealloc(b.p, b.n, w), "a wrong alignment", before);
        }
        if (live.size() != up.live.size())
            fail("C08", "lost-block",
                 "the client has %zu blocks, the upstream handed out %zu",
                 live.size(), up.live.size());
        disarm();
        state(live.size() * 64 + static_cast<u64>(o.kind));
    }
    // everything that is still there can be returned
    for (auto& b : live) {
        Res r = attempt([&] {
            d->deallocate(reinterpret_cast<void*>(b.p), b.n, b.al);
        });
        if (r != OK)
            fail("C08", "false-alarm",
                 "a correct deallocation was refused (%s)", rname[r]);
    }
    {
        SimScope s;
        delete d;
    }
    leak_check("C08");
}
const Harness H = {"debugmr", gen, run, kinds, N,
                   "random histories of correct and incorrect requests to a "
                   "debug resource, whose upstream sometimes hands out memory "
                   "that is in use; non-trivial: a misuse took place"};
Registrar reg(H);
}  // namespace dbg

// ============================================================== C09, C10 ===
namespace ins {
enum OpK { ALLOC, FREE, MOVE, HOOK, N };
const char* const kinds[] = {"ALLOC", "FREE", "MOVE", "ADD_HOOK"};
void gen(Rng& r, Case& c) {
    c.par["place"] = r.range(0, 3);
    c.par["hooks"] = static_cast<i64>(r.below(4));
    c.par["mon"] = static_cast<i64>(c.prop == "C10" ? 1 + r.below(2)
                                                    : r.below(2));
    bool faults = r.chance(0.75);
    c.par["slow"] = r.chance(0.7);
    u64 n = 3 + r.below(r.chance(0.1) ? 80 : 25);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(r.pick_w({12, 7, 1, 1}));
        o.a[0] = static_cast<i64>(o.kind == ALLOC && r.chance(0.03)
                                      ? 0
                                      : gen_size(r, r.chance(0.5)    ? 8
                                                     : r.chance(0.1) ? 36
                                                                     : 22));
        o.a[1] = static_cast<i64>(gen_align(r));
        o.a[2] = static_cast<i64>(r.next() >> 2);
        o.a[3] = static_cast<i64>(r.below(3));
        if (faults && r.chance(0.25)) {
            Fault f;
            int w = static_cast<int>(r.pick_w({4, 1, 3, 3, 3}));
            f.site = w == 0   ? F_UP
                     : w == 1 ? F_UPX
                     : w == 2 ? F_NEW
                     : w == 3 ? (c.prop == "C10" ? F_UP : F_HOOK)
                              : F_CLOCK;
            f.nth = static_cast<int>(r.below(4));
            if (f.site == F_UP || f.site == F_UPX) f.nth = 0;
            if (f.site == F_CLOCK) f.arg = r.range(-4000000, 4000000);
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}
using IMR = vecmem::instrumenting_memory_resource;
struct Ev {
    bool alloc;
    std::size_t n, al;
    std::uintptr_t p;
    u64 lo, hi;  ///< plausible duration
};
struct Call {
    int hook, which;  ///< 0 pre-alloc, 1 post-alloc, 2 pre-dealloc
    std::size_t n, al;
    std::uintptr_t p;
    bool up_seen;  ///< upstream had been called already
};
struct Slow : SimUpstream {
    using SimUpstream::SimUpstream;
    bool slow = false;
    u64 took = 0, hooks_took = 0;
    int calls = 0;
    void tick() {
        ++calls;
        if (slow && choose(2)) {
            u64 d = 1 + choose(5'000'000);
            advance_ns(d);
            took += d;
        }
    }
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        tick();
        return allocate2(n, al);
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        HostScope h;
        tick();
        deallocate2(p, n, al);
    }
};
void run(const Case& c) {
    Slow up(0, static_cast<int>(c.p("place")));
    up.own_prop = "C09";
    up.slow = c.p("slow");
    IMR* r;
    {
        SimScope s;
        r = new IMR(up);
    }
    std::vector<Call> calls;
    int up_before = 0;
    int nh[3] = {0, 0, 0};
    auto add = [&](int which) {
        int id = nh[which]++;
        auto rec = [&calls, &up, &up_before, id, which](
                       std::size_t n, std::size_t al, const void* p) {
            HostScope h;
            calls.push_back({id, which, n, al, addr(p), up.calls != up_before});
            if (up.slow && choose(2)) {
                u64 d = 1 + choose(5'000'000);
                advance_ns(d);
                up.hooks_took += d;
            }
            if (fire(F_HOOK)) throw UserError();
        };
        SimScope s;
        if (which == 0)
            r->add_pre_allocate_hook(
                [rec](std::size_t n, std::size_t al) { rec(n, al, nullptr); });
        else if (which == 1)
            r->add_post_allocate_hook(
                [rec](std::size_t n, std::size_t al, void* p) { rec(n, al, p); });
        else
            r->add_pre_deallocate_hook(
                [rec](void* p, std::size_t n, std::size_t al) { rec(n, al, p); });
    };
    vecmem::memory_monitor* mon[2] = {nullptr, nullptr};
    for (int i = 0; i < c.p("mon"); ++i) {
        SimScope s;
        mon[i] = new vecmem::memory_monitor(*r);
    }
    for (int i = 0; i < c.p("hooks"); ++i) add(i % 3);
    std::vector<Ev> ev;
    struct Blk {
        std::uintptr_t p;
        std::size_t n, al;
    };
    std::vector<Blk> live;
    u64 tot = 0, na = 0, out = 0, mx = 0;
    auto expect_calls = [&](const std::vector<Call>& e, const char* what) {
        bool ok = e.size() == calls.size();
        for (std::size_t i = 0; ok && i < e.size(); ++i)
            ok = e[i].hook == calls[i].hook && e[i].which == calls[i].which &&
                 e[i].n == calls[i].n && e[i].al == calls[i].al &&
                 e[i].p == calls[i].p && e[i].up_seen == calls[i].up_seen;
        if (!ok) {
            fail("C09", "wrong-hook-calls",
                 "%s: the hooks were called %zu times (expected %zu), or with "
                 "other arguments, or not before/after the upstream call",
                 what, calls.size(), e.size());
            abandon("hooks");
        }
    };
    for (const Op& o : c.ops) {
        vsim::log("%s %lld %lld", kinds[o.kind], static_cast<long long>(o.a[0]),
                  static_cast<long long>(o.a[1]));
        calls.clear();
        up_before = up.calls;
        std::size_t n = static_cast<std::size_t>(o.a[0]),
                    al = as_align(o.a[1]);
        if (o.kind == HOOK) {
            disarm();
            add(static_cast<int>(o.a[3]));
            continue;
        }
        if (o.kind == MOVE) {
            disarm();
            SimScope s;
            IMR* q = new IMR(std::move(*r));
            delete r;
            r = q;
            continue;
        }
        arm(o);
        std::vector<Call> e;
        up.took = up.hooks_took = 0;
        u64 t0 = now_ns();
        if (o.kind == ALLOC) {
            void* p = nullptr;
            std::size_t before = up.live.size();
            Res res = attempt([&] { p = maybe_null(r->allocate(n, al)); });
            u64 t1 = now_ns() - up.hooks_took;
            bool got = up.live.size() > before;
            if (n == 0) {
                if (res != OK || p || up.calls != up_before || calls.size())
                    fail("C09", "zero-size",
                         "a request for nothing had an effect");
                disarm();
                continue;
            }
            bool news = fired(F_NEW);
            bool refused = fired(F_UP) && up.calls != up_before;
            if (res == OK && (!got || addr(p) == 0)) {
                fail("C09", "wrong-pointer", "no memory was allocated");
                abandon("pointer");
            }
            if (res != OK && got) {
                fail("C09", "lost-block",
                     "an allocation failed (%s), and upstream memory was lost",
                     rname[res]);
                abandon("lost");
            }
            if (!any_fired() && res != OK && !up.refusals)
                fail("C09", "unexpected-failure", "allocation failed (%s)",
                     rname[res]);
            if (fired(F_HOOK)) {
                // the hook's exception gets out; who was asked and what is
                // recorded has to add up
                if (res != USER)
                    fail("C09", "hook-exception-lost",
                         "a hook threw, and the result was: %s", rname[res]);
                count("probe:hook-threw");
            } else if (!news && !fired(F_UPX) && (res == OK || res == BAD)) {
                for (int i = 0; i < nh[0]; ++i)
                    e.push_back({i, 0, n, al, 0, false});
                for (int i = 0; i < nh[1]; ++i)
                    e.push_back({i, 1, n, al, addr(p), true});
                expect_calls(e, "allocation");
                if (nh[0] + nh[1]) nontrivial();
            }
            const auto& ge = r->get_events();
            if (res == OK) {
                live.push_back({addr(p), n, al});
                ev.push_back({true, n, al, addr(p), up.took, t1 - t0});
                ++na;
                tot += n;
                out += n;
                mx = std::max(mx, out);
            } else if (ge.size() == ev.size() + 1) {
                // a failed request is recorded with a null pointer
                ev.push_back({true, n, al, 0, up.took, t1 - t0});
                count("probe:failure-recorded");
            } else if (ge.size() == ev.size() + 2) {
                // given back: both are recorded
                std::uintptr_t q = addr(ge.back().m_ptr);
                if (!q || !fired(F_HOOK))
                    fail("C09", "wrong-events",
                         "a failed allocation was recorded as two events");
                ev.push_back({true, n, al, q, 0, t1 - t0});
                ev.push_back({false, n, al, q, 0, t1 - t0});
                count("probe:given-back-recorded");
            } else if (refused && res == BAD && !news) {
                fail("C09", "failure-not-recorded",
                     "a failed allocation of %zu bytes left %zu events, "
                     "expected %zu",
                     n, ge.size(), ev.size() + 1);
            }
        } else {
            if (live.empty()) {
                disarm();
                continue;
            }
            std::size_t k = static_cast<std::size_t>(o.a[2]) % live.size();
            Blk b = live[k];
            Res res = attempt([&] {
                r->deallocate(reinterpret_cast<void*>(b.p), b.n, b.al);
            });
            u64 t1 = now_ns() - up.hooks_took;
            bool gone = !up.live.count(b.p);
            if (res == OK) {
                if (!gone) {
                    fail("C09", "lost-block",
                         "a freed block did not reach the upstream resource");
                    abandon("lost");
                }
                for (int i = 0; i < nh[2]; ++i)
                    e.push_back({i, 2, b.n, b.al, b.p, false});
                expect_calls(e, "deallocation");
                if (nh[2]) nontrivial();
                live.erase(live.begin() + static_cast<long>(k));
                ev.push_back({false, b.n, b.al, b.p, up.took, t1 - t0});
                out -= b.n;
            } else {
                if (gone) {
                    fail("C09", "half-done",
                         "a deallocation failed (%s) after the memory had "
                         "been returned",
                         rname[res]);
                    abandon("half done");
                }
                if (!fired(F_HOOK))
                    fail("C09", "unexpected-failure",
                         "deallocation failed (%s)", rname[res]);
                else if (res != USER)
                    fail("C09", "hook-exception-lost",
                         "a hook threw, and the result was: %s", rname[res]);
            }
        }
        disarm();
        // the record of events
        const auto& ge = r->get_events();
        if (ge.size() != ev.size()) {
            fail("C09", "wrong-events", "%zu events are recorded, expected %zu",
                 ge.size(), ev.size());
            abandon("events");
        }
        for (std::size_t i = ev.size() >= 2 ? ev.size() - 2 : 0; i < ev.size();
             ++i) {
            const auto& a = ge[i];
            const Ev& b = ev[i];
            if ((a.m_type == IMR::memory_event::type::ALLOCATION) != b.alloc ||
                a.m_size != b.n || a.m_align != b.al || addr(a.m_ptr) != b.p) {
                fail("C09", "wrong-events",
                     "event %zu is not what happened (%s of %zu bytes)", i,
                     b.alloc ? "allocation" : "deallocation", b.n);
                abandon("event");
            }
            if (i + 1 == ev.size() && (a.m_time < b.lo || a.m_time > b.hi))
                fail("C09", "wrong-duration",
                     "a request that took between %llu and %llu ns was "
                     "recorded with %zu ns",
                     static_cast<unsigned long long>(b.lo),
                     static_cast<unsigned long long>(b.hi), a.m_time);
        }
        for (auto* m : mon)
            if (m) {
                u64 avg = na ? (2 * tot + na) / (2 * na) : 0;
                if (m->total_allocation() != tot ||
                    m->outstanding_allocation() != out ||
                    m->maximal_allocation() != mx ||
                    m->average_allocation() != avg)
                    // with a hook that throws after the monitor's the
                    // monitor has counted a block that was taken back
                    if (c.prop == "C10")
                        fail("C10", "wrong-statistics",
                             "total/outstanding/maximum/average are "
                             "%zu/%zu/%zu/%zu, expected %llu/%llu/%llu/%llu",
                             m->total_allocation(),
                             m->outstanding_allocation(),
                             m->maximal_allocation(), m->average_allocation(),
                             static_cast<unsigned long long>(tot),
                             static_cast<unsigned long long>(out),
                             static_cast<unsigned long long>(mx),
                             static_cast<unsigned long long>(avg));
                if (c.prop == "C10" && na > 1) nontrivial();
            }
        state(live.size() * 64 + static_cast<u64>(nh[1]) * 8 + up.refusals);
    }
    // replaying all of the events gives what is alive
    std::set<std::uintptr_t> al;
    for (auto& x : r->get_events()) {
        if (!x.m_ptr) continue;
        if (x.m_type == IMR::memory_event::type::ALLOCATION) {
            if (!al.insert(addr(x.m_ptr)).second)
                fail("C09", "inconsistent-record",
                     "a block is allocated twice in the record");
        } else if (!al.erase(addr(x.m_ptr)))
            fail("C09", "inconsistent-record",
                 "a block is freed in the record that is not alive");
    }
    if (al.size() != live.size())
        fail("C09", "inconsistent-record",
             "%zu blocks are alive in the record, %zu are", al.size(),
             live.size());
    for (auto& b : live) {
        Res q = attempt([&] {
            r->deallocate(reinterpret_cast<void*>(b.p), b.n, b.al);
        });
        if (q != OK) fail("C09", "unexpected-failure", "%s", rname[q]);
    }
    for (auto* m : mon) {
        if (m && m->outstanding_allocation() != 0 && c.prop == "C10")
            fail("C10", "wrong-statistics",
                 "all memory was returned and %zu bytes are outstanding",
                 m->outstanding_allocation());
    }
    {
        SimScope s;
        delete r;
        delete mon[0];
        delete mon[1];
    }
    calls.clear();
    leak_check(c.prop == "C10" ? "C10" : "C09");
}
const Harness H = {"instr", gen, run, kinds, N,
                   "random histories on an instrumenting resource with hooks "
                   "and monitors, slow and failing upstream, failing hooks and "
                   "record keeping, clock jumps; non-trivial: hooks were "
                   "called / two blocks were monitored"};
Registrar reg(H);
}  // namespace ins

// =================================================================== C12 ===
namespace host {
enum OpK { ALLOC, FREE, FREEALL, N };
const char* const kinds[] = {"ALLOC", "FREE", "FREE_ALL"};
void gen(Rng& r, Case& c) {
    bool faults = r.chance(0.5);
    int maxlog = r.chance(0.7) ? 7 : r.chance(0.8) ? 11 : 16;
    u64 n = 3 + r.below(r.chance(0.15) ? 100 : 30);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(r.pick_w({12, 8, 1}));
        o.a[0] = static_cast<i64>(r.chance(0.03) ? 0 : gen_size(r, maxlog));
        o.a[1] = static_cast<i64>(gen_align(r));
        o.a[2] = static_cast<i64>(r.next() >> 2);
        o.a[3] = static_cast<i64>(r.below(4));
        if (o.kind == ALLOC && r.chance(0.05)) {  // absurd
            o.a[0] = r.chance(0.6) ? -1 - static_cast<i64>(r.below(1 << 14))
                                   : static_cast<i64>((u64(1) << r.range(31, 63)) +
                                                    r.below(4096));
        }
        if (faults && r.chance(0.2)) {
            Fault f;
            f.site = F_MALLOC;
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}
struct Blk {
    u8* p;
    std::size_t n, al;
    u64 seed;
    int by;
};
u8 byte_at(u64 seed, std::size_t i) {
    u64 x = (seed + i) * 0x9E3779B97F4A7C15ull;
    return static_cast<u8>(x >> 56);
}
/// the bytes that are written and checked: both ends, and samples in between
std::size_t next(std::size_t i, std::size_t n) {
    return i < 256 || i + 64 >= n ? i + 1 : std::min(i + 61, n - 64);
}
void run(const Case& c) {
    vecmem::host_memory_resource* mr[3];
    for (auto& m : mr) {
        SimScope s;
        m = new vecmem::host_memory_resource();
    }
    std::size_t big = 0;
    std::size_t base = heap_live();
    std::vector<Blk> live;
    auto release = [&](std::size_t k, int by) {
        Blk b = live[k];
        for (std::size_t i = 0; i < b.n; i = next(i, b.n))
            if (b.p[i] != byte_at(b.seed, i)) {
                fail("C12", "content-changed",
                     "byte %zu of a block of %zu bytes changed on its own", i,
                     b.n);
                abandon("content");
            }
        live.erase(live.begin() + static_cast<long>(k));
        Res r = attempt([&] { mr[by]->deallocate(b.p, b.n, b.al); });
        if (r != OK)
            fail("C12", "unexpected-failure", "deallocation failed (%s)",
                 rname[r]);
        if (heap_live() != base + live.size())
            fail("C12", "not-released",
                 "%zu blocks of C library memory are in use for %zu live "
                 "allocations",
                 heap_live() - base, live.size());
        count("probe:freed-by-other", by != b.by);
    };
    for (const Op& o : c.ops) {
        vsim::log("%s %lld %lld", kinds[o.kind], static_cast<long long>(o.a[0]),
                  static_cast<long long>(o.a[1]));
        std::size_t n = static_cast<std::size_t>(o.a[0]),
                    al = as_align(o.a[1]);
        int w = static_cast<int>(static_cast<std::size_t>(o.a[2]) % 3);
        if (o.kind == ALLOC) {
            arm(o);
            void* v = nullptr;
            Res r = attempt([&] { v = maybe_null(mr[w]->allocate(n, al)); });
            bool fl = any_fired();
            disarm();
            bool absurd = n > HEAP_SIZE || al > HEAP_SIZE / 4;
            if (n == 0) {
                if (r != OK || v)
                    fail("C12", "zero-size",
                         "a request for nothing returned memory");
                continue;
            }
            if (r != OK && r != BAD)
                fail("C12", "wrong-exception", "allocation failed with %s",
                     rname[r]);
            // (the simulated C library has 1 GiB)
            if (al > HEAP_SIZE / 1024) big += al + n;
            if (r == BAD && !fl && !absurd && big < HEAP_SIZE / 2) {
                fail("C12", "unexpected-failure",
                     "%zu bytes with alignment %zu were refused", n, al);
            }
            if (r == OK && n > HEAP_SIZE) {
                fail("C12", "absurd-request-accepted",
                     "%zu bytes with alignment %zu were allocated", n, al);
                abandon("absurd");
            }
            if (r != OK) {
                if (heap_live() != base + live.size())
                    fail("C12", "not-released",
                         "a failed allocation kept C library memory");
                count("probe:refused");
                continue;
            }
            if (!v) {
                fail("C12", "null-pointer",
                     "null was returned for %zu bytes instead of an exception",
                     n);
                abandon("null");
            }
            if (addr(v) % al) {
                fail("C12", "misaligned",
                     "%zu bytes were to be aligned to %zu, and are aligned to "
                     "%zu",
                     n, al, static_cast<std::size_t>(addr(v) & (~addr(v) + 1)));
                abandon("misaligned");
            }
            // (allocations that do not fit into their block are caught here)
            bool ok = range_live(v, n);
            for (auto& b : live)
                if (addr(b.p) < addr(v) + n && addr(v) < addr(b.p) + b.n)
                    ok = false;
            if (!ok) {
                fail("C12", "bad-block",
                     "the memory is not (completely) usable: %zu bytes with "
                     "alignment %zu",
                     n, al);
                abandon("bad block");
            }
            Blk b{static_cast<u8*>(v), n, al, static_cast<u64>(o.a[2]), w};
            for (std::size_t i = 0; i < n; i = next(i, n))
                b.p[i] = byte_at(b.seed, i);
            live.push_back(b);
            if (live.size() > 1) nontrivial();
            if (heap_live() != base + live.size())
                fail("C12", "not-released", "extra C library memory is in use");
        } else if (o.kind == FREE && live.size()) {
            release(static_cast<std::size_t>(o.a[2]) % live.size(),
                    o.a[3] ? w : live[static_cast<std::size_t>(o.a[2]) %
                                      live.size()]
                                     .by);
        } else if (o.kind == FREEALL) {
            while (live.size()) release(live.size() - 1, live.back().by);
        }
        state(live.size() * 1000 + al);
    }
    // null is fine
    attempt([&] { mr[0]->deallocate(nullptr, 16, 16); });
    if (!mr[0]->is_equal(*mr[1]) || !mr[1]->is_equal(*mr[0]))
        fail("C12", "not-equal",
             "two host memory resources are not interchangeable");
    while (live.size()) release(live.size() - 1, live.back().by);
    for (auto& m : mr) {
        SimScope s;
        delete m;
    }
    leak_check("C12");
}
const Harness H = {"hostmr", gen, run, kinds, N,
                   "random histories on three host resources that free each "
                   "other's blocks, absurd requests, failing C library "
                   "allocations; both ends and samples of each block written and checked; non-trivial: "
                   "two blocks at a time"};
Registrar reg(H);
}  // namespace host

// =================================================================== C13 ===
namespace up {
enum OpK { OBJ, OBJARR, RAW, RAWARR, RAWCOPY, RAWARRCOPY, ANEW, AOBJ, ABYTES,
           DROP, SWAP, N };
const char* const kinds[] = {"MAKE_OBJ",   "MAKE_OBJ_ARRAY", "MAKE_ALLOC",
                             "MAKE_ALLOC_ARRAY", "MAKE_ALLOC_COPY",
                             "MAKE_ALLOC_ARRAY_COPY", "NEW_OBJECT",
                             "ALLOCATE_OBJECT", "ALLOCATE_BYTES",
                             "DROP", "MOVE_ASSIGN"};
std::set<const void*>* g_objs;
template <std::size_t A, std::size_t SZ>
struct alignas(A) Obj {
    u8 d[SZ];
    Obj() { init(0); }
    explicit Obj(int v) { init(v); }
    Obj(const Obj&) = delete;
    void init(int v) {
        HostScope h;
        if (fire(F_CTOR)) throw UserError();
        if (addr(this) % A) {
            fail("C13", "misaligned-object",
                 "an object of alignment %zu was constructed at an address "
                 "aligned to %zu",
                 A, static_cast<std::size_t>(addr(this) & (~addr(this) + 1)));
            abandon("misaligned");
        }
        if (!range_live(this, sizeof *this)) {
            fail("C13", "outside-of-allocation",
                 "an object was constructed outside of allocated memory");
            abandon("outside");
        }
        if (!g_objs->insert(this).second)
            fail("C13", "constructed-twice", "an object was constructed on top "
                                             "of another one");
        ::memset(d, v, SZ);
    }
    ~Obj() {
        HostScope h;
        if (!g_objs->erase(this)) {
            fail("C13", "destroyed-twice",
                 "something was destroyed that is not an object");
            abandon("destroyed twice");
        }
    }
};
template <std::size_t A, std::size_t SZ>
struct alignas(A) Pod {
    u8 d[SZ];
};

/// Real memory, aligned as asked for and not more; checks what comes back.
class Strict : public vecmem::memory_resource {
public:
    struct Blk {
        std::size_t n, al, off;
    };
    std::map<std::uintptr_t, Blk> live;
    std::size_t calls = 0;
    static constexpr u64 REAL = u64(1) << 20;  ///< larger is not backed
    bool huge = false;     ///< gigabytes are available, but not real
    std::uintptr_t next = VIRT_BASE;

private:
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        ++calls;
        if (fire(F_UP) || n > (huge ? (u64(1) << 44) : REAL))
            throw std::bad_alloc();
        if (n > REAL) {
            std::uintptr_t v =
                ((next + 2 * al - 1) & ~(2 * al - 1)) + al;
            next = v + n;
            live[v] = {n, al, 0};
            count("probe:gigabytes");
            return reinterpret_cast<void*>(v);
        }
        // aligned to exactly `al`
        const std::size_t off = al;
        void* p = region_alloc(2, (n ? n : 1) + off, al * 2);
        if (!p) throw std::bad_alloc();
        p = static_cast<u8*>(p) + off;
        ::memset(p, 0xA5, n);
        live[addr(p)] = {n, al, off};
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        HostScope h;
        ++calls;
        auto it = live.find(addr(p));
        if (it == live.end()) {
            fail("C13", "returned-unknown-block",
                 "memory was returned that is not allocated");
            abandon("unknown block");
        }
        if (it->second.n != n || it->second.al != al)
            fail("C13", "returned-with-wrong-arguments",
                 "a block that was allocated with %zu/%zu was returned with "
                 "%zu/%zu",
                 it->second.n, it->second.al, n, al);
        for (const void* o : *g_objs)
            if (addr(o) >= addr(p) && addr(o) < addr(p) + it->second.n) {
                fail("C13", "not-destroyed",
                     "the memory of an object was returned before the object "
                     "was destroyed");
                abandon("not destroyed");
            }
        if (!it->second.off) {
            live.erase(it);
            return;
        }
        region_free(2, static_cast<u8*>(p) - it->second.off);
        live.erase(it);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override {
        return this == &o;
    }

};

void gen(Rng& r, Case& c) {
    bool faults = r.chance(0.7);
    u64 n = 2 + r.below(16);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(
            r.pick_w({4, 6, 2, 3, 2, 3, 4, 2, 2, 8, 3}));
        o.a[0] = static_cast<i64>(r.below(4));  // type
        o.a[1] = static_cast<i64>(r.chance(0.15) ? 0 : 1 + r.below(9));
        if (r.chance(0.04))
            o.a[1] = r.chance(0.5) ? -1 - static_cast<i64>(r.below(4))
                                   : static_cast<i64>(u64(1) << r.range(56, 63)) +
                                         static_cast<i64>(r.below(4));
        else if (r.chance(0.05))
            o.a[1] = static_cast<i64>((u64(1) << r.range(20, 34)) +
                                      r.below(u64(1) << 20));
        o.a[2] = static_cast<i64>(r.next() >> 2);
        o.a[3] = static_cast<i64>(r.next() >> 2);
        o.a[4] = static_cast<i64>(r.below(2));
        if (faults && r.chance(0.35)) {
            Fault f;
            f.site = r.chance(0.7) ? (o.kind == RAWCOPY || o.kind == RAWARRCOPY
                                          ? F_COPY
                                          : F_CTOR)
                                   : F_UP;
            f.nth = f.site == F_CTOR ? static_cast<int>(r.below(6)) : 0;
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}
struct Held {
    std::function<void()> drop;
    std::function<void(Held&)> take;  ///< move-assign from another one
    int type = -1;                    ///< same type: can be assigned
    std::function<bool()> check;
};
struct T0 {
    using obj = Obj<1, 3>;
    using pod = Pod<1, 3>;
    static constexpr int id = 0;
};
struct T1 {
    using obj = Obj<8, 24>;
    using pod = Pod<8, 24>;
    static constexpr int id = 1;
};
struct T2 {
    using obj = Obj<64, 64>;
    using pod = Pod<64, 192>;
    static constexpr int id = 2;
};
struct T3 {
    using obj = Obj<16, 32>;
    using pod = Pod<128, 128>;
    static constexpr int id = 3;
};
void run(const Case& c) {
    std::set<const void*> objs;
    g_objs = &objs;
    Strict mr[2];
    std::vector<std::unique_ptr<Held>> held;
    vecmem::allocator* al[2];
    for (int i = 0; i < 2; ++i) {
        SimScope s;
        al[i] = new vecmem::allocator(mr[i]);
    }
    auto counts = [&] { return mr[0].live.size() + mr[1].live.size(); };
    auto failed = [&](Res r, std::size_t objs0, std::size_t blk0, bool absurd) {
        if (objs.size() != objs0)
            fail("C13", "object-leak",
                 "creation failed (%s) and left %zd objects behind", rname[r],
                 static_cast<ssize_t>(objs.size() - objs0));
        if (counts() != blk0)
            fail("C13", "memory-leak",
                 "creation failed (%s) and memory was not returned", rname[r]);
        if (!any_fired() && !absurd)
            fail("C13", "unexpected-failure", "creation failed (%s)", rname[r]);
        bool want = fired(F_CTOR) || fired(F_COPY);
        if (want && r != USER)
            fail("C13", "exception-lost",
                 "user code threw, and the result was: %s", rname[r]);
        if (!want && r != BAD)
            fail("C13", "wrong-exception", "creation failed with: %s",
                 rname[r]);
        count("probe:creation-failed");
    };
    auto go = [&](const Op& o, auto tag) {
        using T = typename decltype(tag)::obj;
        using Q = typename decltype(tag)::pod;
        constexpr int ty = decltype(tag)::id;
        Strict& m = mr[o.a[4]];
        vecmem::allocator& a = *al[o.a[4]];
        std::size_t n = static_cast<std::size_t>(o.a[1]);
        std::size_t objs0 = objs.size(), blk0 = counts();
        bool raw_only = o.kind == RAWARR || o.kind == RAWARRCOPY ||
                        o.kind == AOBJ || o.kind == ABYTES;
        // sizes that are merely large
        std::size_t each = o.kind == OBJARR   ? sizeof(T)
                           : o.kind == ABYTES ? 1
                                              : sizeof(Q);
        bool huge = n > Strict::REAL / each && n < (u64(1) << 36) && raw_only;
        m.huge = huge;
        bool absurd = n > Strict::REAL / each && !huge && (o.kind == OBJARR || o.kind == RAWARR ||
                                   o.kind == RAWARRCOPY || o.kind == AOBJ ||
                                   o.kind == ABYTES);
        auto keep_ptr = [&](auto* p, std::size_t nobj, std::size_t bytes,
                            int kind, const void* raw) {
            // p: heap allocated smart pointer
            if (nobj != objs.size() - objs0)
                fail("C13", "wrong-number-of-objects",
                     "%zd objects were constructed, expected %zu",
                     static_cast<ssize_t>(objs.size() - objs0), nobj);
            if (bytes && (!raw || !m.live.count(addr(raw)) ||
                          m.live[addr(raw)].n < bytes)) {
                fail("C13", "wrong-allocation",
                     "the pointer does not own an allocation of %zu bytes",
                     bytes);
                abandon("allocation");
            }
            using P = std::remove_pointer_t<decltype(p)>;
            auto h = std::make_unique<Held>();
            h->type = kind * 8 + ty;
            h->drop = [p] {
                SimScope s;
                delete p;
            };
            (void)sizeof(P);
            held.push_back(std::move(h));
            return held.back().get();
        };
        if (absurd) count("probe:absurd-request");
        switch (o.kind) {
            case OBJ: {
                using P = vecmem::unique_obj_ptr<T>;
                P* p = nullptr;
                int v = static_cast<int>(o.a[2] & 127);
                Res r = attempt(
                    [&] { p = new P(vecmem::make_unique_obj<T>(m, v)); });
                if (r != OK) return failed(r, objs0, blk0, false);
                if ((*p)->d[0] != v || (*p)->d[sizeof(T::d) - 1] != v)
                    fail("C13", "wrong-value", "constructor argument was lost");
                auto* h = keep_ptr(p, 1, sizeof(T), 0, p->get());
                h->take = [p](Held& o2) {
                    (void)o2;
                    SimScope s;
                    P q(std::move(*p));
                    *p = std::move(q);
                };
                break;
            }
            case OBJARR: {
                using P = vecmem::unique_obj_ptr<T[]>;
                P* p = nullptr;
                Res r = attempt(
                    [&] { p = new P(vecmem::make_unique_obj<T[]>(m, n)); });
                if (r != OK) return failed(r, objs0, blk0, absurd);
                if (absurd) {
                    fail("C13", "absurd-request-accepted",
                         "an array of %zu objects was created", n);
                    abandon("absurd");
                }
                auto* h = keep_ptr(p, n, n * sizeof(T), 1, p->get());
                h->take = [p](Held&) {
                    SimScope s;
                    P q;
                    std::swap(q, *p);
                    *p = std::move(q);
                };
                if (n > 1) nontrivial();
                break;
            }
            case RAW: {
                using P = vecmem::unique_alloc_ptr<Q>;
                P* p = nullptr;
                Res r = attempt(
                    [&] { p = new P(vecmem::make_unique_alloc<Q>(m)); });
                if (r != OK) return failed(r, objs0, blk0, false);
                if (addr(p->get()) % alignof(Q))
                    fail("C13", "misaligned-object", "alignment %zu is missed",
                         alignof(Q));
                keep_ptr(p, 0, sizeof(Q), 2, p->get());
                break;
            }
            case RAWARR: {
                using P = vecmem::unique_alloc_ptr<Q[]>;
                P* p = nullptr;
                Res r = attempt(
                    [&] { p = new P(vecmem::make_unique_alloc<Q[]>(m, n)); });
                if (r != OK) return failed(r, objs0, blk0, absurd);
                if (absurd) {
                    fail("C13", "absurd-request-accepted",
                         "an array of %zu objects was created", n);
                    abandon("absurd");
                }
                if (addr(p->get()) % alignof(Q))
                    fail("C13", "misaligned-object", "alignment %zu is missed",
                         alignof(Q));
                keep_ptr(p, 0, n * sizeof(Q), 3, p->get());
                break;
            }
            case RAWCOPY:
            case RAWARRCOPY: {
                std::size_t k = o.kind == RAWCOPY ? 1 : n;
                std::vector<u8> src(absurd || huge ? 64 : k * sizeof(Q) + 64);
                Rng g(static_cast<u64>(o.a[2]));
                for (auto& b : src) b = static_cast<u8>(g.next());
                const Q* f = reinterpret_cast<const Q*>(src.data());
                std::size_t copied = 0;
                int ncp = 0;
                auto cp = [&](void* to, const void* from, std::size_t b) {
                    HostScope h;
                    if (fire(F_COPY)) throw UserError();
                    ++ncp;
                    copied = b;
                    if (huge && from == f) return;
                    if (from != f || b > src.size()) {
                        fail("C13", "wrong-copy",
                             "%zu bytes are to be copied from the wrong place",
                             b);
                        abandon("copy");
                    }
                    if (b && !range_live(to, b)) {
                        fail("C13", "outside-of-allocation",
                             "%zu bytes are to be copied outside of the "
                             "allocation",
                             b);
                        abandon("outside");
                    }
                    ::memcpy(to, from, b);
                };
                const void* raw = nullptr;
                Held* h = nullptr;
                Res r;
                if (o.kind == RAWCOPY) {
                    using P = vecmem::unique_alloc_ptr<Q>;
                    P* p = nullptr;
                    r = attempt([&] {
                        p = new P(vecmem::make_unique_alloc<Q>(m, f, cp));
                    });
                    if (r != OK) return failed(r, objs0, blk0, false);
                    raw = p->get();
                    h = keep_ptr(p, 0, sizeof(Q), 4, raw);
                } else {
                    using P = vecmem::unique_alloc_ptr<Q[]>;
                    P* p = nullptr;
                    r = attempt([&] {
                        p = new P(vecmem::make_unique_alloc<Q[]>(m, n, f, cp));
                    });
                    if (r != OK) return failed(r, objs0, blk0, absurd);
                    if (absurd) {
                        fail("C13", "absurd-request-accepted",
                             "an array of %zu objects was created", n);
                        abandon("absurd");
                    }
                    raw = p->get();
                    h = keep_ptr(p, 0, n * sizeof(Q), 5, raw);
                }
                (void)h;
                if (addr(raw) % alignof(Q))
                    fail("C13", "misaligned-object", "alignment %zu is missed",
                         alignof(Q));
                if (ncp != 1 || copied != k * sizeof(Q) ||
                    (copied && !huge && memcmp(raw, src.data(), copied)))
                    fail("C13", "wrong-copy",
                         "%zu bytes were copied, expected %zu", copied,
                         k * sizeof(Q));
                nontrivial();
                break;
            }
            case ANEW: {
                T* p = nullptr;
                int v = static_cast<int>(o.a[2] & 127);
                Res r =
                    attempt([&] { p = a.template new_object<T>(v); });
                if (r != OK) return failed(r, objs0, blk0, false);
                if (p->d[0] != v || objs.size() != objs0 + 1)
                    fail("C13", "wrong-value", "constructor argument was lost");
                auto h = std::make_unique<Held>();
                h->drop = [p, &a] {
                    SimScope s;
                    a.delete_object(p);
                };
                held.push_back(std::move(h));
                break;
            }
            case AOBJ: {
                Q* p = nullptr;
                Res r = attempt([&] { p = a.template allocate_object<Q>(n); });
                if (r != OK) return failed(r, objs0, blk0, absurd);
                if (absurd) {
                    fail("C13", "absurd-request-accepted",
                         "memory for %zu objects was allocated", n);
                    abandon("absurd");
                }
                if (n && (!m.live.count(addr(p)) ||
                          m.live[addr(p)].n < n * sizeof(Q) ||
                          addr(p) % alignof(Q)))
                    fail("C13", "wrong-allocation",
                         "memory for %zu objects of size %zu was asked for", n,
                         sizeof(Q));
                auto h = std::make_unique<Held>();
                h->drop = [p, n, &a] {
                    SimScope s;
                    a.deallocate_object(p, n);
                };
                held.push_back(std::move(h));
                break;
            }
            default: {
                std::size_t ali = std::size_t(1) << (o.a[2] % 9);
                void* p = nullptr;
                bool def = o.a[3] & 1;
                Res r = attempt([&] {
                    p = def ? a.allocate_bytes(n) : a.allocate_bytes(n, ali);
                });
                if (r != OK) return failed(r, objs0, blk0, absurd);
                if (n == 0) break;
                if (!m.live.count(addr(p)) || m.live[addr(p)].n < n ||
                    addr(p) % (def ? 16 : ali))
                    fail("C13", "wrong-allocation",
                         "%zu bytes with alignment %zu were asked for", n,
                         def ? 16 : ali);
                auto h = std::make_unique<Held>();
                h->drop = [p, n, def, ali, &a] {
                    SimScope s;
                    if (def)
                        a.deallocate_bytes(p, n);
                    else
                        a.deallocate_bytes(p, n, ali);
                };
                held.push_back(std::move(h));
            }
        }
    };
    auto drop = [&](std::size_t k) {
        std::size_t b0 = counts();
        held[k]->drop();
        held.erase(held.begin() + static_cast<long>(k));
        (void)b0;
        if (held.empty() && (objs.size() || counts()))
            fail("C13", "object-leak",
                 "%zu objects and %zu blocks are left over", objs.size(),
                 counts());
    };
    for (const Op& o : c.ops) {
        vsim::log("%s %lld %lld", kinds[o.kind], static_cast<long long>(o.a[0]),
                  static_cast<long long>(o.a[1]));
        if (o.kind == DROP || o.kind == SWAP) {
            if (held.empty()) continue;
            std::size_t k = static_cast<std::size_t>(o.a[2]) % held.size();
            if (o.kind == DROP)
                drop(k);
            else if (held[k]->take)
                held[k]->take(*held[k]);
            continue;
        }
        arm(o);
        switch (o.a[0]) {
            case 0:
                go(o, T0{});
                break;
            case 1:
                go(o, T1{});
                break;
            case 2:
                go(o, T2{});
                break;
            default:
                go(o, T3{});
        }
        disarm();
        state(held.size() * 100 + static_cast<u64>(o.kind) * 4 +
              static_cast<u64>(o.a[0]));
    }
    while (held.size()) drop(held.size() - 1);
    for (auto* a : al) {
        SimScope s;
        delete a;
    }
    leak_check("C13");
}
const Harness H = {"smartptr", gen, run, kinds, N,
                   "objects and arrays of four alignments made with unique_ptr "
                   "factories and the allocator, failing constructors, copies "
                   "and allocations, absurd sizes, on memory that is only as "
                   "aligned as asked for; non-trivial: arrays or copies"};
Registrar reg(H);
}  // namespace up

// =================================================================== C14 ===
namespace route {
enum OpK { ALLOC, FREE, N };
const char* const kinds[] = {"ALLOC", "FREE"};
enum NodeK { LEAF, IDENT, COND, COALESCE, CHOICE, SYNC, TERM, DEBUG };
struct LeafCall {
    int leaf;
    bool alloc;
    std::size_t n, al;
    std::uintptr_t p;
    int res;
};
struct Leaf : SimUpstream {
    std::vector<LeafCall>* log;
    double refuse_above = 0;
    Leaf(int i, int place, std::vector<LeafCall>* l)
        : SimUpstream(i, place), log(l) {}
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        LeafCall c{id, true, n, al, 0, BAD};
        try {
            void* p = allocate2(n, al);
            c.p = addr(p);
            c.res = OK;
            log->push_back(c);
            return p;
        } catch (const std::bad_alloc&) {
            log->push_back(c);
            throw;
        } catch (...) {
            c.res = UPX;
            log->push_back(c);
            throw;
        }
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        HostScope h;
        log->push_back({id, false, n, al, addr(p), OK});
        deallocate2(p, n, al);
    }
};
struct UserCall {
    int node;
    std::size_t n, al;
    int res;  ///< index of the child / 0,1 / -1: threw
};
struct Node {
    int kind = LEAF;
    int leaf = 0;
    std::vector<int> kids;
    vecmem::memory_resource* mr = nullptr;
    u64 salt = 0;
};
void gen(Rng& r, Case& c) {
    c.par["shape"] = static_cast<i64>(r.next() >> 2);
    c.par["place"] = r.range(0, 3);
    bool faults = r.chance(0.8);
    c.par["shared"] = r.chance(0.5);
    c.par["cap"] = r.chance(0.5) ? static_cast<i64>(u64(1) << r.range(8, 20)) : 0;
    u64 n = 3 + r.below(r.chance(0.1) ? 60 : 20);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(r.pick_w({10, 6}));
        o.a[0] = static_cast<i64>(gen_size(r, r.chance(0.5)    ? 8
                                                     : r.chance(0.1) ? 36
                                                                     : 20));
        o.a[1] = static_cast<i64>(gen_align(r));
        o.a[2] = static_cast<i64>(r.next() >> 2);
        if (faults && r.chance(0.35)) {
            for (u64 k = 0, e = 1 + r.below(2); k < e; ++k) {
                Fault f;
                int w = static_cast<int>(r.pick_w({8, 2, 3, 2}));
                f.site = w == 0 ? F_UP : w == 1 ? F_UPX : w == 2 ? F_PRED : F_NEW;
                f.nth = static_cast<int>(r.below(w == 0 ? 3 : 2));
                o.faults.push_back(f);
            }
        }
        c.ops.push_back(o);
    }
}
struct World {
    const Case& c;
    std::vector<LeafCall> log;
    std::vector<UserCall> ulog;
    std::vector<std::unique_ptr<Leaf>> leaves;
    std::vector<Node> nodes;
    u64 epoch = 0;
    explicit World(const Case& cc) : c(cc) {}

    int build(Rng& r, int depth) {
        int me = static_cast<int>(nodes.size());
        nodes.emplace_back();
        int k = depth == 0 || leaves.size() >= 6
                    ? LEAF
                    : static_cast<int>(r.pick_w({2, 2, 3, 5, 5, 1, 1, 1}));
        if (depth >= 3 && k == LEAF) k = COALESCE;
        nodes[static_cast<std::size_t>(me)].kind = k;
        nodes[static_cast<std::size_t>(me)].salt = r.next();
        std::vector<int> kids;
        int nk = k == LEAF || k == TERM       ? 0
                 : k == COALESCE              ? static_cast<int>(r.range(0, 3))
                 : k == CHOICE                ? static_cast<int>(r.range(1, 3))
                                              : 1;
        for (int i = 0; i < nk; ++i) kids.push_back(build(r, depth - 1));
        Node& n = nodes[static_cast<std::size_t>(me)];
        n.kids = kids;
        auto kid = [&](std::size_t i) -> vecmem::memory_resource& {
            return *nodes[static_cast<std::size_t>(kids[i])].mr;
        };
        if (k == LEAF) {
            n.leaf = static_cast<int>(leaves.size());
            leaves.emplace_back(
                new Leaf(n.leaf, static_cast<int>(c.p("place")), &log));
            leaves.back()->own_prop = "C14";
            if (c.p("shared")) leaves.back()->share(*leaves.front());
            if (c.p("cap"))
                leaves.back()->cap = static_cast<std::size_t>(c.p("cap"))
                                     << (n.leaf * 2);
            n.mr = leaves.back().get();
            return me;
        }
        u64 salt = n.salt;
        auto decide = [this, me, salt](std::size_t s, std::size_t a,
                                       std::size_t nopt) {
            HostScope h;
            if (fire(F_PRED)) {
                ulog.push_back({me, s, a, -1});
                throw UserError();
            }
            // changes its mind over time
            u64 x = salt ^ (s * 0x9E3779B97F4A7C15ull) ^ (epoch / 3 * 77);
            int v = static_cast<int>((x >> 33) % nopt);
            ulog.push_back({me, s, a, v});
            return static_cast<std::size_t>(v);
        };
        SimScope q;
        switch (k) {
            case IDENT:
                n.mr = new vecmem::identity_memory_resource(kid(0));
                break;
            case COND:
                n.mr = new vecmem::conditional_memory_resource(
                    kid(0), [decide](std::size_t s, std::size_t a) {
                        return decide(s, a, 3) != 0;
                    });
                break;
            case COALESCE: {
                std::vector<std::reference_wrapper<vecmem::memory_resource>> v;
                for (std::size_t i = 0; i < kids.size(); ++i) v.push_back(kid(i));
                n.mr = new vecmem::coalescing_memory_resource(std::move(v));
                break;
            }
            case CHOICE: {
                std::vector<vecmem::memory_resource*> v;
                for (std::size_t i = 0; i < kids.size(); ++i)
                    v.push_back(&kid(i));
                n.mr = new vecmem::choice_memory_resource(
                    [decide, v](std::size_t s,
                                std::size_t a) -> vecmem::memory_resource& {
                        return *v[decide(s, a, v.size())];
                    });
                break;
            }
            case SYNC:
                n.mr = new vecmem::synchronized_memory_resource(kid(0));
                break;
            case TERM:
                n.mr = new vecmem::terminal_memory_resource();
                break;
            default:
                n.mr = new vecmem::debug_memory_resource(kid(0));
        }
        return me;
    }
    // model: consumes the two logs
    std::size_t li = 0, ui = 0;
    bool bad = false;
    std::string why;
    Res model(int id, std::size_t n, std::size_t al, std::uintptr_t& p) {
        if (bad) return OTHER;
        Node& x = nodes[static_cast<std::size_t>(id)];
        auto user = [&](int& v) {
            if (ui >= ulog.size() || ulog[ui].node != id ||
                ulog[ui].n != n || ulog[ui].al != al) {
                bad = true;
                why = "the decision was not asked for, or with other arguments";
                return false;
            }
            v = ulog[ui++].res;
            return true;
        };
        switch (x.kind) {
            case LEAF: {
                if (li >= log.size() || !log[li].alloc ||
                    log[li].leaf != x.leaf || log[li].n != n ||
                    log[li].al != al) {
                    bad = true;
                    why = "a request did not reach the right resource, or not "
                          "with the right arguments";
                    return OTHER;
                }
                p = log[li].p;
                return static_cast<Res>(log[li++].res);
            }
            case IDENT:
            case SYNC:
            case DEBUG:
                return model(x.kids[0], n, al, p);
            case TERM:
                return BAD;
            case COND: {
                int v;
                if (!user(v)) return OTHER;
                if (v < 0) return USER;
                return v ? model(x.kids[0], n, al, p) : BAD;
            }
            case CHOICE: {
                int v;
                if (!user(v)) return OTHER;
                if (v < 0) return USER;
                return model(x.kids[static_cast<std::size_t>(v)], n, al, p);
            }
            default:
                for (int k : x.kids) {
                    Res r = model(k, n, al, p);
                    if (bad) return OTHER;
                    if (r != BAD) return r;
                }
                return BAD;
        }
    }
};
void run(const Case& c) {
    World w(c);
    Rng r(static_cast<u64>(c.p("shape")));
    int root = w.build(r, 3);
    vecmem::memory_resource* top = w.nodes[static_cast<std::size_t>(root)].mr;
    struct Blk {
        std::uintptr_t p;
        std::size_t n, al;
        int leaf;
    };
    std::vector<Blk> live;
    auto total = [&] {
        std::size_t n = 0;
        for (auto& l : w.leaves) n += l->live.size();
        return n;
    };
    auto release = [&](std::size_t k) {
        Blk b = live[k];
        w.log.clear();
        w.ulog.clear();
        Res q = attempt([&] {
            top->deallocate(reinterpret_cast<void*>(b.p), b.n, b.al);
        });
        live.erase(live.begin() + static_cast<long>(k));
        if (q != OK)
            fail("C14", "unexpected-failure", "deallocation failed (%s)",
                 rname[q]);
        if (w.log.size() != 1 || w.log[0].alloc || w.log[0].leaf != b.leaf ||
            w.log[0].p != b.p || w.log[0].n != b.n || w.log[0].al != b.al) {
            fail("C14", "wrong-deallocation",
                 "memory of resource %d was not returned to it (once, with the "
                 "original arguments)",
                 b.leaf);
            abandon("deallocation");
        }
        nontrivial();
    };
    for (const Op& o : c.ops) {
        vsim::log("%s %lld %lld", kinds[o.kind], static_cast<long long>(o.a[0]),
                  static_cast<long long>(o.a[1]));
        ++w.epoch;
        std::size_t n = static_cast<std::size_t>(o.a[0]),
                    al = as_align(o.a[1]);
        if (o.kind == FREE) {
            if (live.empty()) continue;
            release(static_cast<std::size_t>(o.a[2]) % live.size());
            continue;
        }
        w.log.clear();
        w.ulog.clear();
        arm(o);
        void* p = nullptr;
        Res q = attempt([&] { p = maybe_null(top->allocate(n, al)); });
        bool news = fired(F_NEW);
        disarm();
        int leaf = -1;
        if (!news) {
            w.li = w.ui = 0;
            w.bad = false;
            std::uintptr_t mp = 0;
            Res e = w.model(root, n, al, mp);
            if (!w.bad && (w.li != w.log.size() || w.ui != w.ulog.size())) {
                w.bad = true;
                w.why = "more resources or decisions were asked than necessary";
            }
            if (w.bad) {
                fail("C14", "wrong-route", "%s", w.why.c_str());
                abandon("route");
            }
            if (e != q || (q == OK && addr(p) != mp)) {
                fail("C14", "wrong-result",
                     "the request should have ended with %s, and ended with %s",
                     rname[e], rname[q]);
                abandon("result");
            }
        }
        if (q == OK) {
            for (auto& l : w.leaves)
                if (l->live.count(addr(p))) leaf = l->id;
            if (leaf < 0) {
                fail("C14", "wrong-pointer", "the memory is nobody's");
                abandon("pointer");
            }
            live.push_back({addr(p), n, al, leaf});
        }
        if (total() != live.size()) {
            fail("C14", "lost-block",
                 "the client has %zu blocks, the resources handed out %zu",
                 live.size(), total());
            abandon("lost");
        }
        state(live.size() * 4096 + w.log.size() * 64 + w.ulog.size());
    }
    while (live.size()) release(live.size() - 1);
    // equality of forwarding resources
    for (auto& a : w.nodes)
        if (!a.mr->is_equal(*a.mr))
            fail("C14", "not-equal", "a resource is not equal to itself");
    for (auto it = w.nodes.begin(); it != w.nodes.end(); ++it) {
        if (it->kind == LEAF) continue;
        SimScope s;
        delete it->mr;
    }
    w.log.clear();
    leak_check("C14");
}
const Harness H = {"route", gen, run, kinds, N,
                   "random trees of coalescing, choice, conditional, identity, "
                   "synchronized, debug and terminal resources over up to six "
                   "failing upstreams; every call that reaches one is compared "
                   "with a model; non-trivial: a block was returned"};
Registrar reg(H);
}  // namespace route
}  // namespace
