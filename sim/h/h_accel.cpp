// C40, C41: memory resources, streams, queues and events of the CUDA, HIP and
// SYCL libraries on a simulated runtime with several devices.
#include <sycl/sycl.hpp>

#include "accel.hpp"
#include "vecmem/memory/cuda/device_memory_resource.hpp"
#include "vecmem/memory/cuda/host_memory_resource.hpp"
#include "vecmem/memory/cuda/managed_memory_resource.hpp"
#include "vecmem/memory/hip/device_memory_resource.hpp"
#include "vecmem/memory/hip/host_memory_resource.hpp"
#include "vecmem/memory/hip/managed_memory_resource.hpp"
#include "vecmem/memory/sycl/device_memory_resource.hpp"
#include "vecmem/memory/sycl/host_memory_resource.hpp"
#include "vecmem/memory/sycl/shared_memory_resource.hpp"
#include "vecmem/utils/cuda/async_copy.hpp"
#include "vecmem/utils/cuda/stream_wrapper.hpp"
#include "vecmem/utils/sycl/async_copy.hpp"
#include "vecmem/utils/sycl/queue_wrapper.hpp"

namespace {
using namespace hx;
using namespace accel;
using vecmem::memory_resource;

/// Runs a library call on the current thread: the current device has to be
/// the same afterwards.
/// 0: fine, 1: bad_alloc, 2: other exception
/// must: a refusal of the driver has to be reported
template <class F>
int call(const char* prop, const char* what, F f, bool must = true) {
    auto refused = [] {
        return fired(F_API) || fired(F_COPY) || fired(F_STALL);
    };
    bool was = refused();
    int before = R().cur();
    R().home() = before;
    int r = 0;
    try {
        SimScope s;
        f();
    } catch (const std::bad_alloc&) {
        r = 1;
    } catch (const std::exception&) {
        r = 2;
    }
    if (R().cur() != before)
        fail(prop, "device-changed",
             "%s%s left device %d current instead of %d", what,
             r ? " (failing)" : "", R().cur(), before);
    if (r && !any_fired())
        fail(prop, "unexpected-failure", "%s failed although nothing went wrong",
             what);
    if (!r && must && !was && refused())
        fail(prop, "failure-not-reported",
             "%s succeeded although the driver refused something", what);
    return r;
}

// ================================================== memory resources ======
namespace mrs {
enum { O_MAKE, O_DROP, O_ALLOC, O_FREE, O_SETDEV, O_EQ, O_N };
const char* const kinds[] = {"MAKE", "DROP", "ALLOC",
                             "FREE", "SET_DEVICE", "COMPARE"};
const char* const tname[] = {
    "cuda::host",   "cuda::device", "cuda::managed",
    "hip::host",    "hip::device",  "hip::managed",
    "sycl::host",   "sycl::device", "sycl::shared"};

void gen(Rng& r, Case& c) {
    c.par["ndev"] = 1 + static_cast<i64>(r.below(3));
    i64 th = r.chance(0.3) ? 2 + static_cast<i64>(r.below(2)) : 1;
    c.par["threads"] = th;
    double rate = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.1 : 0.4;
    int nm = 2 + static_cast<int>(r.below(7));
    int family = static_cast<int>(r.below(4));  // 3: all of them
    auto make = [&](int slot) {
        Op o;
        o.kind = O_MAKE;
        o.a[0] = slot;
        o.a[1] = static_cast<i64>(family == 3 ? r.below(9)
                                              : 3 * static_cast<u64>(family) +
                                                    r.below(3));
        o.a[2] = r.range(-1, c.par["ndev"] - 1);  // device
        o.a[3] = static_cast<i64>(r.below(3));    // queue; 2: its own
        return o;
    };
    for (int i = 0; i < nm; ++i) c.ops.push_back(make(i));
    int n = 10 + static_cast<int>(r.below(60));
    for (int i = 0; i < n; ++i) {
        Op o;
        int k = static_cast<int>(r.pick_w({th > 1 ? 0 : 2, th > 1 ? 0 : 2,
                                           10, 8, 3, 3}));
        if (k == O_MAKE) {
            o = make(static_cast<int>(r.below(static_cast<u64>(nm))));
        } else {
            o.kind = k;
            o.a[0] = static_cast<i64>(r.below(static_cast<u64>(nm)));
            o.a[1] = static_cast<i64>(r.below(1000));
            o.a[4] = static_cast<i64>(r.below(4));
            if (k == O_ALLOC) {
                o.a[2] = r.chance(0.08)
                             ? 0
                             : static_cast<i64>(gen_size(r, 14));
                if (r.chance(0.03))
                    o.a[2] = (i64(1) << r.range(32, 62)) + 1 +
                             static_cast<i64>(r.below(4096));
                o.a[3] = i64(1) << r.below(r.chance(0.2) ? 13 : 9);
            }
        }
        o.tid = th > 1 ? 1 + static_cast<int>(r.below(static_cast<u64>(th))) : 0;
        if ((k == O_ALLOC || k == O_MAKE) && r.chance(rate)) {
            Fault f;
            f.site = r.pick_w({4, 2, 3, 3}) == 0   ? F_UP
                     : r.chance(0.3)               ? F_UPX
                     : r.chance(0.5)               ? F_API
                                                   : F_STALL;
            f.nth = r.chance(0.7) ? 0 : static_cast<int>(r.below(3));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

struct Res {
    int type = -1, dev = 0;
    Stream* q = nullptr;
    memory_resource* mr = nullptr;
    int api() const { return type / 3; }
    int kind() const { return type % 3; }
};
struct Got {
    void* p;
    std::size_t n, al;
    int type, dev;
    Stream* q;
    int owner;  ///< slot it came from
};

struct World {
    const Case& c;
    Runtime run;
    Stream us[2];
    ::sycl::queue* uq[2] = {};
    std::vector<Res> res;
    std::vector<Got> got;
    bool multi;

    explicit World(const Case& cc) : c(cc), multi(c.p("threads") > 1) {
        run.ndev = static_cast<int>(c.p("ndev", 1));
        res.resize(16);
        for (int i = 0; i < 2; ++i) {
            us[i].ooo = true;
            us[i].device = i % run.ndev;
            run.streams.insert(&us[i]);
            SimScope s;
            uq[i] = new ::sycl::queue(&us[i]);
        }
    }
    Got take(std::size_t i) {
        Got g = got[i];
        got.erase(got.begin() + static_cast<long>(i));
        return g;
    }
    void free_one(const Got& g, memory_resource* m) {
        std::size_t before = run.blocks.count(g.p);
        call("C40", "deallocate()", [&] { m->deallocate(g.p, g.n, g.al); });
        if (before != 1 && g.n) harness_error("block");
        if (g.n && run.blocks.count(g.p))
            fail("C40", "not-freed",
                 "deallocating %zu bytes with a %s resource did not free them",
                 g.n, tname[g.type]);
    }
    void drop(int slot) {
        Res& r = res[static_cast<std::size_t>(slot)];
        if (!r.mr) return;
        // SYCL: memory does not outlive the queue (context) it belongs to
        bool last = r.api() == SYCL && !r.q->user;
        for (std::size_t i = got.size(); last && i-- > 0;)
            if (got[i].q == r.q && got[i].owner == slot)
                free_one(take(i), r.mr);
        call("C40", "destroying a resource", [&] { delete r.mr; }, false);
        if (last && run.streams.count(r.q))
            fail("C41", "queue-leak",
                 "the queue of a destroyed resource still exists");
        r = Res();
    }
    memory_resource* construct(const Op& o, int type, int dev) {
        switch (type) {
            case 0:
                return new vecmem::cuda::host_memory_resource();
            case 1:
                return dev < 0 ? new vecmem::cuda::device_memory_resource()
                               : new vecmem::cuda::device_memory_resource(dev);
            case 2:
                return new vecmem::cuda::managed_memory_resource();
            case 3:
                return new vecmem::hip::host_memory_resource();
            case 4:
                return dev < 0 ? new vecmem::hip::device_memory_resource()
                               : new vecmem::hip::device_memory_resource(dev);
            case 5:
                return new vecmem::hip::managed_memory_resource();
            default:
                break;
        }
        auto sy = [&](const vecmem::sycl::queue_wrapper& w) -> memory_resource* {
            if (type == 6) return new vecmem::sycl::host_memory_resource(w);
            if (type == 7) return new vecmem::sycl::device_memory_resource(w);
            return new vecmem::sycl::shared_memory_resource(w);
        };
        if (o.a[3] < 2)
            return sy(vecmem::sycl::queue_wrapper(
                static_cast<void*>(uq[o.a[3]])));
        return sy(vecmem::sycl::queue_wrapper());
    }
    void make(const Op& o) {
        int slot = static_cast<int>(o.a[0]);
        drop(slot);
        Res& r = res[static_cast<std::size_t>(slot)];
        int type = static_cast<int>(o.a[1]);
        int dev = static_cast<int>(o.a[2]);
        if (dev >= run.ndev) dev = run.ndev - 1;
        std::size_t ns = run.streams.size();
        std::set<Stream*> had = run.streams;
        memory_resource* m = nullptr;
        int rc = call("C40", "making a resource",
                      [&] { m = construct(o, type, dev); });
        if (rc) {
            if (run.streams.size() != ns)
                fail("C41", "queue-leak",
                     "making a resource failed, and left a queue behind");
            return;
        }
        r.type = type;
        r.mr = m;
        r.dev = dev < 0 ? run.cur() : dev;
        if (r.api() == SYCL) {
            if (o.a[3] < 2) {
                r.q = &us[o.a[3]];
            } else {
                for (Stream* s : run.streams)
                    if (!had.count(s)) r.q = s;
                if (!r.q || run.streams.size() != ns + 1)
                    fail("C41", "queue-gone",
                         "a resource on a queue of its own has no queue");
            }
            r.dev = r.q->device;
        }
        vsim::log("slot %d: %s device %d", slot, tname[type], r.dev);
    }
    void op(const Op& o) {
        Res& r = res[static_cast<std::size_t>(o.a[0]) % res.size()];
        switch (o.kind) {
            case O_MAKE:
                arm(o);
                make(o);
                break;
            case O_DROP:
                drop(static_cast<int>(o.a[0]));
                break;
            case O_SETDEV:
                run.cur() = static_cast<int>(o.a[1]) % run.ndev;
                break;
            case O_ALLOC: {
                if (!r.mr) break;
                auto n = static_cast<std::size_t>(o.a[2]);
                auto al = static_cast<std::size_t>(o.a[3]);
                // what the drivers of CUDA and HIP promise
                if (r.api() != SYCL && al > 256) al = 256;
                std::size_t before = run.blocks.size();
                Res who = r;
                arm(o);
                run.get_device_fails = true;
                void* p = nullptr;
                bool huge = n > (std::size_t(1) << 32);
                int rc;
                if (huge) {
                    // a natural failure
                    rc = 0;
                    int d = run.cur();
                    run.home() = d;
                    try {
                        SimScope s;
                        p = maybe_null(who.mr->allocate(n, al));
                    } catch (const std::exception&) {
                        rc = 1;
                    }
                    if (run.cur() != d)
                        fail("C40", "device-changed",
                             "a failing allocation changed the device");
                    if (!rc)
                        fail("C40", "success-without-memory",
                             "an allocation that cannot work succeeded");
                } else {
                    rc = call("C40", "allocate()",
                              [&] { p = maybe_null(who.mr->allocate(n, al)); });
                }
                bool up = fired(F_UP) || fired(F_UPX), nul = fired(F_UP);
                if (!multi) run.get_device_fails = false;
                disarm();
                if (rc) {
                    count("probe:failed-allocation");
                    if (!multi && run.blocks.size() != before)
                        fail("C40", "leak-on-failure",
                             "%s: a failing allocation left memory behind",
                             tname[who.type]);
                    if (who.api() == SYCL && rc != 1 && nul)
                        fail("C40", "wrong-exception",
                             "%s: no memory is not reported as std::bad_alloc",
                             tname[who.type]);
                    break;
                }
                if (up && n)
                    fail("C40", "failure-not-reported",
                         "%s: an allocation returned %s although the driver "
                         "had no memory",
                         tname[who.type], p ? "a pointer" : "null");
                if (n == 0) {
                    if (p || (!multi && run.blocks.size() != before))
                        fail("C40", "zero-size",
                             "%s: an allocation of nothing is not a null "
                             "pointer",
                             tname[who.type]);
                    got.push_back({p, 0, al, who.type, who.dev, who.q,
                                   static_cast<int>(o.a[0])});
                    break;
                }
                nontrivial();
                auto it = run.blocks.find(p);
                if (it == run.blocks.end())
                    fail("C40", "not-allocated",
                         "%s: the pointer returned is not a block of the "
                         "driver",
                         tname[who.type]);
                const Block& b = it->second;
                if (b.api != who.api() || b.kind != who.kind())
                    fail("C40", "wrong-kind", "%s returned %s memory of %s",
                         tname[who.type], kname[b.kind], api_name[b.api]);
                if (b.n < n)
                    fail("C40", "too-small", "%s: %zu bytes instead of %zu",
                         tname[who.type], b.n, n);
                if (ull(p) % al)
                    fail("C40", "misaligned",
                         "%s: a block is not aligned to %zu", tname[who.type],
                         al);
                if (who.kind() == 1 && b.device != who.dev)
                    fail("C40", "wrong-device",
                         "%s: memory is on device %d instead of %d",
                         tname[who.type], b.device, who.dev);
                if (who.api() == SYCL && b.ctx != who.q)
                    fail("C40", "wrong-queue",
                         "%s: memory belongs to another queue", tname[who.type]);
                for (auto& g : got)
                    if (g.n && g.p == p)
                        fail("C40", "twice", "a block was handed out twice");
                got.push_back({p, n, al, who.type, who.dev, who.q,
                               static_cast<int>(o.a[0])});
                state(static_cast<u64>(who.type) * 64 +
                      static_cast<u64>(run.cur()) * 16 +
                      static_cast<u64>(who.dev) * 4 +
                      std::min<u64>(3, got.size()));
                break;
            }
            case O_FREE: {
                if (got.empty()) break;
                // (other threads may take blocks as well)
                Got g = take(static_cast<std::size_t>(o.a[1]) % got.size());
                // any resource that claims to be equal will do
                std::vector<memory_resource*> can;
                for (auto& x : res) {
                    if (!x.mr) continue;
                    if (x.type == g.type && x.q == g.q &&
                        (x.kind() != 1 || x.api() == SYCL ||
                         x.dev == g.dev))
                        can.push_back(x.mr);
                }
                Res& own = res[static_cast<std::size_t>(g.owner)];
                if (own.mr && own.type == g.type && own.q == g.q)
                    for (auto& x : res) {
                        if (!x.mr || &x == &own || own.dev != g.dev)
                            continue;
                        bool eq;
                        {
                            SimScope s;
                            eq = own.mr->is_equal(*x.mr);
                        }
                        if (eq) can.push_back(x.mr);
                    }
                if (can.empty()) {
                    // nobody left: make one like it
                    if (multi || (g.q && !g.q->user)) {
                        got.push_back(g);
                        break;
                    }
                    Op m;
                    m.a[0] = 15;
                    m.a[1] = g.type;
                    m.a[2] = g.dev;
                    m.a[3] = g.q == &us[1];
                    make(m);
                    can.push_back(res[15].mr);
                }
                free_one(g, can[static_cast<std::size_t>(o.a[4]) % can.size()]);
                break;
            }
            case O_EQ: {
                Res& x = res[static_cast<std::size_t>(o.a[1]) % res.size()];
                if (!r.mr || !x.mr) break;
                bool ab, ba, aa;
                {
                    SimScope s;
                    ab = r.mr->is_equal(*x.mr);
                    ba = x.mr->is_equal(*r.mr);
                    aa = r.mr->is_equal(*r.mr) && *r.mr == *r.mr;
                }
                if (!aa || ab != ba)
                    fail("C40", "equality-broken",
                         "comparing resources is not %s",
                         aa ? "symmetric" : "reflexive");
                bool same = r.type == x.type && r.q == x.q &&
                            (r.kind() != 1 || r.dev == x.dev);
                bool differ = r.api() != x.api() || r.q != x.q ||
                              (r.api() != SYCL && !same);
                if (same && !ab)
                    fail("C40", "should-be-equal",
                         "two %s resources of the same target are not equal",
                         tname[r.type]);
                if (differ && ab)
                    fail("C40", "should-not-be-equal",
                         "%s on device %d and %s on device %d are equal",
                         tname[r.type], r.dev, tname[x.type], x.dev);
                break;
            }
        }
        disarm();
        if (!multi && run.blocks.size() != live())
            fail("C40", "block-count", "%zu blocks of the driver instead of %zu",
                 run.blocks.size(), live());
    }
    std::size_t live() const {
        std::size_t n = 0;
        for (auto& g : got) n += g.n != 0;
        return n;
    }
    void finish() {
        disarm();
        run.get_device_fails = false;
        multi = false;
        Op f;
        f.kind = O_FREE;
        while (!got.empty()) {
            std::size_t n = got.size();
            op(f);
            if (got.size() == n) harness_error("cannot free");
        }
        for (int i = 0; i < 16; ++i) drop(i);
        for (auto* q : uq) {
            SimScope s;
            delete q;
        }
        if (!run.blocks.empty() || region_live(1) || region_live(2))
            fail("C40", "leak", "%zu blocks were not freed", run.blocks.size());
        if (heap_live())
            fail("C40", "leak", "leaked host memory: %s", heap_describe().c_str());
    }
};

void run(const Case& c) {
    World w(c);
    int th = static_cast<int>(c.p("threads", 1));
    if (th > 1) {
        for (auto& o : c.ops)
            if (o.tid == 0) w.op(o);
        w.run.get_device_fails = true;
        std::vector<std::function<void()>> b;
        for (int t = 1; t <= th; ++t)
            b.push_back([&w, &c, t] {
                HostScope h;
                for (auto& o : c.ops)
                    if (o.tid == t) {
                        w.op(o);
                        SimScope s;
                        yield_point();
                    }
            });
        run_threads(b);
    } else {
        for (auto& o : c.ops) w.op(o);
    }
    w.finish();
}
const Harness H = {
    "accelmr", gen, run, kinds, O_N,
    "CUDA, HIP and SYCL memory resources on 1-3 simulated devices, used by 1-3 "
    "threads with current devices of their own; failing drivers; blocks given "
    "back through any equal resource; non-trivial: memory was handed out"};
Registrar reg(H);
}  // namespace mrs

// ============================================== streams, queues, events ===
namespace str {
enum {
    O_NEW,
    O_VIEW,
    O_COPY,
    O_MOVE,
    O_ASSIGN,
    O_MASSIGN,
    O_DROP,
    O_SETDEV,
    O_MKCOPY,
    O_RMCOPY,
    O_WORK,
    O_EVENT,
    O_SYNC,
    O_N
};
const char* const kinds[] = {"NEW",    "VIEW",  "COPY_CTOR", "MOVE_CTOR",
                             "ASSIGN", "MOVE_ASSIGN", "DROP", "SET_DEVICE",
                             "MAKE_COPY", "DROP_COPY", "WORK", "EVENT",
                             "SYNCHRONIZE"};
constexpr int NW = 4, NC = 2;

void gen(Rng& r, Case& c) {
    c.par["ndev"] = 1 + static_cast<i64>(r.below(3));
    c.par["api"] = static_cast<i64>(r.below(2));
    c.par["eager"] = static_cast<i64>(r.below(3));
    i64 th = r.chance(0.3) ? 2 + static_cast<i64>(r.below(2)) : 1;
    c.par["threads"] = th;
    double rate = r.chance(0.4) ? 0 : r.chance(0.5) ? 0.1 : 0.35;
    int n = 8 + static_cast<int>(r.below(50));
    for (int i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(
            r.pick_w({5, 3, 4, 2, 4, 3, 3, 2, 5, 2, 10, 6, 2}));
        if (i < 2) o.kind = r.chance(0.7) ? O_NEW : O_VIEW;
        o.tid = th > 1 ? static_cast<int>(r.below(static_cast<u64>(th) + 1)) : 0;
        o.a[0] = static_cast<i64>(r.below(NW));
        o.a[1] = static_cast<i64>(r.below(NW));
        o.a[2] = r.range(-1, c.par["ndev"] - 1);
        o.a[3] = static_cast<i64>(r.below(24));
        o.a[4] = static_cast<i64>(r.below(4));
        if ((o.kind == O_NEW || o.kind == O_WORK || o.kind == O_EVENT ||
             o.kind == O_MKCOPY || o.kind == O_SYNC || o.kind == O_COPY ||
             o.kind == O_ASSIGN) &&
            r.chance(rate)) {
            Fault f;
            f.site = r.pick_w({4, 2, 3, 2}) == 0 ? F_API
                     : r.chance(0.3)             ? F_STALL
                     : r.chance(0.5)             ? F_COPY
                                                 : F_NEW;
            f.nth = r.chance(0.6) ? 0 : static_cast<int>(r.below(4));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

struct Cuda {
    using W = vecmem::cuda::stream_wrapper;
    using C = vecmem::cuda::async_copy;
    static constexpr int api = CUDA;
    static W* make(int dev) { return dev < 0 ? new W() : new W(dev); }
    static W* view(Stream* s, ::sycl::queue*) {
        return new W(static_cast<void*>(s));
    }
    static Stream* of(const W& w) {
        return reinterpret_cast<Stream*>(w.stream());
    }
    static void sync(W& w) { w.synchronize(); }
};
struct Sycl {
    using W = vecmem::sycl::queue_wrapper;
    using C = vecmem::sycl::async_copy;
    static constexpr int api = SYCL;
    static W* make(int) { return new W(); }
    static W* view(Stream*, ::sycl::queue* q) {
        return new W(static_cast<void*>(q));
    }
    static Stream* of(const W& w) {
        return reinterpret_cast<const ::sycl::queue*>(w.queue())->impl();
    }
    static void sync(W& w) {
        reinterpret_cast<::sycl::queue*>(w.queue())->wait_and_throw();
    }
};

template <class B>
struct Shared {
    Runtime run;
    Stream us[2];
    ::sycl::queue* uq[2] = {};
    std::map<Stream*, int> refs;  ///< owners of a stream of the library
    std::map<Stream*, int> evs;   ///< events on it
    long waiting = 0;             ///< events not handled yet
    bool multi = false;
};

template <class B>
struct World {
    using Wr = typename B::W;
    struct Slot {
        Wr* w = nullptr;
        Stream* s = nullptr;
        bool owned = false, moved = false;
    };
    struct Ev {
        vecmem::copy::event_type e;
        Stream* s;
        u64 upto;
        u64 from;
        std::size_t n;
        u8 *src, *dst;
        u8 fill;
        bool handled = false;
        bool ignored = false;
    };
    struct Cp {
        typename B::C* c = nullptr;
        Stream* s = nullptr;
        bool owned = false;
    };
    Shared<B>& sh;
    Runtime& run;
    Slot slot[NW];
    Cp cp[NC];
    std::vector<Ev> evs;

    explicit World(Shared<B>& x) : sh(x), run(x.run) {}

    void own(Stream* s, int d) {
        if (!s || s->user) return;
        int n = sh.refs[s] += d;
        if (n < 0) harness_error("refs");
        vsim::log("owners %d", n);
        if (!n) sh.refs.erase(s);
    }
    void clear(Slot& x) {
        if (!x.w) return;
        Slot y = x;
        x = Slot();
        if (y.owned) own(y.s, -1);
        call("C41", "destroying a wrapper", [&] { delete y.w; }, false);
    }
    void set(Slot& x, Wr* w, Stream* s, bool owned) {
        x.w = w;
        x.s = s;
        x.owned = owned;
        x.moved = false;
        if (owned) own(s, 1);
    }
    /// what does it refer to?
    void check(const Slot& x, const char* when) {
        if (!x.w || x.moved) return;
        Stream* s;
        {
            SimScope q;
            s = B::of(*x.w);
        }
        if (s != x.s)
            fail("C41", "wrong-stream", "%s a wrapper refers to another stream",
                 when);
        if (!run.streams.count(s))
            fail("C41", "stream-gone",
                 "%s a wrapper refers to a stream that was destroyed", when);
        Stream* t = nullptr;
        bool alive = false;
        {
            SimScope q;
            Wr copy(*x.w);
            t = B::of(copy);
            HostScope h;
            alive = run.streams.count(t);
        }
        if (t != x.s || !alive)
            fail("C41", "wrong-stream-in-copy",
                 "%s the copy of a wrapper refers to %s stream", when,
                 alive ? "another" : "a dead");
    }
    void invariants(const char* when) {
        disarm();
        for (auto& x : slot) check(x, when);
        if (sh.multi) return;
        for (Stream* s : run.streams) {
            if (s->user || s == &run.def_) continue;
            if (!sh.refs.count(s) && !sh.evs.count(s))
                fail("C41", "stream-leak",
                     "%s a stream has no owner any more, but still exists",
                     when);
        }
        for (auto& r : sh.refs)
            if (!run.streams.count(r.first))
                fail("C41", "stream-gone",
                     "%s a stream was destroyed that still has an owner", when);
        if (B::api == CUDA && run.events.size() !=
                                  static_cast<std::size_t>(sh.waiting))
            fail("C41", "event-count", "%s there are %zu events instead of %ld",
                 when, run.events.size(), sh.waiting);
    }
    void done(Ev& e, bool waited) {
        if (!e.handled) --sh.waiting;
        if (!e.handled && !--sh.evs[e.s]) sh.evs.erase(e.s);
        e.handled = true;
        if (!waited) return;
        if (!sh.multi && run.streams.count(e.s))
            for (auto& q : e.s->q)
                if (q.id <= e.upto && q.id >= e.from)
                    fail("C41", "event-does-not-cover",
                         "an operation from before the event is pending after "
                         "waiting for it");
        for (std::size_t i = 0; i < e.n; ++i)
            if (e.dst[i] != e.fill)
                fail("C41", "data-not-there",
                     "data of an operation from before the event is not there "
                     "after waiting for it");
        nontrivial();
    }
    void release(Ev& e) {
#ifdef VECMEM_FAIL_ON_ASYNC_ERRORS
        // forgetting an event is fatal
        if (e.e && !e.handled) {
            call("C41", "ignoring", [&] { e.e->ignore(); });
            done(e, false);
        }
#endif
        if (e.e) {
            call("C41", "destroying an event", [&] { e.e.reset(); },
                 false);
            if (!e.handled) {
                count("probe:event-dropped");
                done(e, true);
            }
        }
        // ignored ones may still be pending
        if (run.streams.count(e.s)) e.s->drain();
        if (!region_free(0, e.src) || !region_free(1, e.dst))
            harness_error("buffers");
    }
    void op(const Op& o) {
        Slot& x = slot[o.a[0] % NW];
        Slot& y = slot[o.a[1] % NW];
        switch (o.kind) {
            case O_NEW: {
                clear(x);
                std::set<Stream*> had = run.streams;
                int dev = static_cast<int>(o.a[2]);
                if (dev >= run.ndev) dev = run.ndev - 1;
                int want = dev < 0 ? run.cur() : dev;
                Wr* w = nullptr;
                arm(o);
                int rc = call("C41", "making a stream",
                              [&] { w = B::make(dev); }, dev >= 0);
                // documented: an unknown current device is taken to be 0
                if (dev < 0 && fired(F_API)) want = -1;
                disarm();
                if (rc) {
                    count("probe:failed-stream");
                    if (!sh.multi && run.streams != had)
                        fail("C41", "stream-leak",
                             "making a stream failed, and left one behind");
                    break;
                }
                Stream* s;
                {
                    SimScope q;
                    s = B::of(*w);
                }
                if (!run.streams.count(s) || had.count(s) || s->user)
                    fail("C41", "no-new-stream",
                         "a new wrapper has no stream of its own");
                if (B::api == CUDA && s->device != want &&
                    (want >= 0 || s->device != 0))
                    fail("C41", "wrong-device",
                         "a stream is on device %d instead of %d", s->device,
                         want);
                s->eager = run.eager;
                set(x, w, s, true);
                state(static_cast<u64>(want) * 4 + static_cast<u64>(run.cur()));
                break;
            }
            case O_VIEW: {
                clear(x);
                int i = static_cast<int>(o.a[3] & 1);
                Wr* w = nullptr;
                call("C41", "wrapping a stream",
                     [&] { w = B::view(&sh.us[i], sh.uq[i]); });
                set(x, w, &sh.us[i], false);
                break;
            }
            case O_COPY: {
                if (&x == &y || !y.w || y.moved) break;
                Wr* w = nullptr;
                arm(o);
                int rc =
                    call("C41", "copying a wrapper", [&] { w = new Wr(*y.w); });
                disarm();
                if (rc) break;
                clear(x);
                set(x, w, y.s, y.owned);
                break;
            }
            case O_MOVE: {
                if (&x == &y || !y.w || y.moved) break;
                Wr* w = nullptr;
                int rc = call("C41", "moving a wrapper",
                              [&] { w = new Wr(std::move(*y.w)); });
                if (rc) break;
                clear(x);
                set(x, w, y.s, y.owned);
                if (y.owned) own(y.s, -1);
                y.moved = true;
                y.owned = false;
                break;
            }
            case O_ASSIGN: {
                if (!x.w || !y.w || y.moved) break;
                arm(o);
                int rc = call("C41", "assigning a wrapper", [&] { *x.w = *y.w; });
                disarm();
                if (rc || &x == &y) break;  // failing: as before
                Stream* s = y.s;
                if (y.owned) own(s, 1);
                if (x.owned) own(x.s, -1);
                x.s = s;
                x.owned = y.owned;
                x.moved = false;
                count("probe:assignment");
                break;
            }
            case O_MASSIGN: {
                if (!x.w || !y.w || y.moved) break;
                call("C41", "moving a wrapper", [&] { *x.w = std::move(*y.w); });
                if (&x == &y) break;
                if (x.owned) own(x.s, -1);
                x.s = y.s;
                x.owned = y.owned;
                x.moved = false;
                y.moved = true;
                y.owned = false;
                count("probe:move-assignment");
                break;
            }
            case O_DROP:
                clear(x);
                break;
            case O_SETDEV:
                run.cur() = static_cast<int>(o.a[3]) % run.ndev;
                break;
            case O_MKCOPY: {
                Cp& k = cp[o.a[4] % NC];
                if (!y.w || y.moved) break;
                typename B::C* n = nullptr;
                arm(o);
                int rc = call("C41", "making a copy object",
                              [&] { n = new typename B::C(*y.w); });
                disarm();
                if (rc) break;
                drop_copy(k);
                k.c = n;
                k.s = y.s;
                k.owned = y.owned;
                if (k.owned) own(k.s, 1);
                break;
            }
            case O_RMCOPY:
                drop_copy(cp[o.a[4] % NC]);
                break;
            case O_WORK: {
                Cp& k = cp[o.a[4] % NC];
                if (!k.c || evs.size() > 12) break;
                Ev e;
                e.s = k.s;
                e.n = 1 + static_cast<std::size_t>(o.a[3]) * 3;
                e.fill = static_cast<u8>(evs.size() * 7 +
                                         static_cast<std::size_t>(o.a[3]) + 1);
                e.src = static_cast<u8*>(region_alloc(0, e.n, 16));
                e.dst = static_cast<u8*>(region_alloc(1, e.n, 16));
                ::memset(e.src, e.fill, e.n);
                ::memset(e.dst, e.fill + 1, e.n);
                e.from = B::api == CUDA ? 0 : k.s->next;
                bool user_view = B::api == CUDA && !k.owned;
                // a stream of the user: it is up to the user to be on its
                // device
                int back = run.cur();
                if (user_view) run.cur() = k.s->device;
                arm(o);
                bool err = false;
                int rc = call("C41", "copying", [&] {
                    vecmem::data::vector_view<const u8> f(
                        static_cast<unsigned>(e.n), e.src);
                    vecmem::data::vector_view<u8> t(
                        static_cast<unsigned>(e.n), e.dst);
                    e.e = (*k.c)(f, t, vecmem::copy::type::host_to_device);
                });
                disarm();
                err = rc != 0;
                run.cur() = back;
                e.upto = k.s->next - 1;
                if (err) {
                    count("probe:failed-work");
                    for (auto& q : k.s->q)
                        if (q.to == e.dst)
                            fail("C41", "pending-after-failure",
                                 "an operation failed, but is still pending, "
                                 "and nobody can wait for it");
                    region_free(0, e.src);
                    region_free(1, e.dst);
                    break;
                }
                if (!e.e)
                    fail("C41", "null-event", "an operation returned no event");
                ++sh.waiting;
                ++sh.evs[e.s];
                evs.push_back(std::move(e));
                break;
            }
            case O_EVENT: {
                if (evs.empty()) break;
                Ev& e = evs[static_cast<std::size_t>(o.a[3]) % evs.size()];
                arm(o);
                switch (o.a[4]) {
                    case 0:
                    case 1: {
                        int rc = call("C41", "waiting", [&] { e.e->wait(); });
                        disarm();
                        if (rc) count("probe:failed-wait");
                        bool was = e.ignored;
                        done(e, !was);
                        break;
                    }
                    case 2: {
                        disarm();
                        call("C41", "ignoring", [&] { e.e->ignore(); });
                        if (!e.handled) e.ignored = true;
                        done(e, false);
                        break;
                    }
                    default: {
                        // dropped; it waits
                        std::size_t i =
                            static_cast<std::size_t>(o.a[3]) % evs.size();
                        release(evs[i]);
                        evs.erase(evs.begin() + static_cast<long>(i));
                    }
                }
                break;
            }
            case O_SYNC: {
                if (!x.w || x.moved) break;
                Stream* s = x.s;
                u64 upto = s->next;
                arm(o);
                call("C41", "synchronize()", [&] { B::sync(*x.w); });
                disarm();
                for (auto& q : s->q)
                    if (q.id < upto)
                        fail("C41", "not-synchronized",
                             "an operation is pending after synchronize()");
                break;
            }
        }
        disarm();
        u64 h = static_cast<u64>(o.kind) + 16 * static_cast<u64>(B::api);
        for (auto& z : slot)
            h = h * 7 + (!z.w ? 0 : z.moved ? 1 : z.owned ? 2 + std::min(
                             sh.refs.count(z.s) ? sh.refs[z.s] : 0, 3) : 6);
        h = h * 5 + std::min<u64>(4, evs.size());
        state(h);
        invariants(kinds[o.kind]);
    }
    void drop_copy(Cp& k) {
        if (!k.c) return;
        Cp z = k;
        k = Cp();
        if (z.owned) own(z.s, -1);
        call("C41", "destroying a copy object", [&] { delete z.c; }, false);
    }
    void finish() {
        disarm();
        for (auto& e : evs) release(e);
        evs.clear();
        for (auto& k : cp) drop_copy(k);
        for (auto& x : slot) clear(x);
    }
};

template <class B>
void go(const Case& c) {
    Shared<B> sh;
    sh.run.ndev = static_cast<int>(c.p("ndev", 1));
    sh.run.eager = static_cast<int>(c.p("eager"));
    for (int i = 0; i < 2; ++i) {
        sh.us[i].device = i % sh.run.ndev;
        sh.us[i].ooo = B::api == SYCL && i;
        sh.us[i].eager = sh.run.eager;
        sh.run.streams.insert(&sh.us[i]);
        SimScope s;
        sh.uq[i] = new ::sycl::queue(&sh.us[i]);
    }
    sh.run.get_device_fails = true;
    int th = static_cast<int>(c.p("threads", 1));
    {
        World<B> w(sh);
        for (auto& o : c.ops)
            if (o.tid == 0) w.op(o);
        if (th > 1) {
            std::vector<World<B>> ws;
            ws.reserve(8);
            sh.multi = true;
            std::vector<std::function<void()>> b;
            for (int t = 1; t <= th; ++t) {
                ws.emplace_back(sh);
                // every thread starts with copies of the wrappers made so far
                World<B>& n = ws.back();
                for (int i = 0; i < NW; ++i)
                    if (w.slot[i].w && !w.slot[i].moved) {
                        auto& from = w.slot[i];
                        typename B::W* k;
                        {
                            SimScope q;
                            k = new typename B::W(*from.w);
                        }
                        n.set(n.slot[i], k, from.s, from.owned);
                    }
            }
            for (int t = 1; t <= th; ++t)
                b.push_back([&ws, &c, t] {
                    HostScope h;
                    World<B>& n = ws[static_cast<std::size_t>(t) - 1];
                    for (auto& o : c.ops)
                        if (o.tid == t) {
                            n.op(o);
                            SimScope s;
                            yield_point();
                        }
                    n.finish();
                });
            run_threads(b);
            sh.multi = false;
            w.invariants("after the threads");
        }
        w.finish();
        w.invariants("at the end");
    }
    for (auto* q : sh.uq) {
        SimScope s;
        delete q;
    }
    if (sh.waiting) harness_error("events");
    if (!sh.run.events.empty())
        fail("C41", "event-leak", "%zu events were never destroyed",
             sh.run.events.size());
    for (Stream* s : sh.run.streams)
        if (!s->user) {
            if (s == &sh.run.def_) continue;
            fail("C41", "stream-leak", "a stream was never destroyed");
        }
    if (heap_live() || region_live(1))
        fail("C41", "leak", "leaked memory: %s", heap_describe().c_str());
}
void run(const Case& c) {
    if (c.p("api") == 0)
        go<Cuda>(c);
    else
        go<Sycl>(c);
}
const Harness H = {
    "accelstream", gen, run, kinds, O_N,
    "CUDA streams and SYCL queues on 1-3 simulated devices: wrappers made, "
    "copied, moved, assigned and dropped by 1-3 threads, asynchronous copies on "
    "them, events waited for, ignored or dropped; failing drivers; non-trivial: "
    "an asynchronous operation was waited for"};
Registrar reg(H);
}  // namespace str
}  // namespace
