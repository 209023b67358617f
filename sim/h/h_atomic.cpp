// Atomic references: linearizability (C20) and memory ordering (C21).
#include "flavour.hpp"

#include "vecmem/memory/atomic.hpp"
#include "vecmem/memory/device_atomic_ref.hpp"
#include "vecmem/memory/memory_order.hpp"

using namespace vsim;
namespace {
using u64 = std::uint64_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;
using vecmem::device_address_space;

enum AK {
    A_LOAD, A_STORE, A_ASSIGN, A_XCHG, A_CAS, A_CAS2, A_ADD, A_SUB, A_AND,
    A_OR, A_XOR, A_N
};
const char* const kinds[] = {"load",      "store",     "assign",
                             "exchange",  "cas",       "cas_two_orders",
                             "fetch_add", "fetch_sub", "fetch_and",
                             "fetch_or",  "fetch_xor"};

#if defined(VSIM_SYCL2020)
using MO = vecmem::memory_order;
constexpr MO ORD[] = {MO::relaxed, MO::acquire, MO::acquire,
                      MO::release, MO::acq_rel, MO::seq_cst};
#else
using MO = vecmem::memory_order;
constexpr MO ORD[] = {MO::relaxed, MO::consume, MO::acquire,
                      MO::release, MO::acq_rel, MO::seq_cst};
#endif

struct Res {
    u64 ret = 0;
    bool ok = false;
};

/// Execute one operation on an atomic reference type that takes orders
template <class R, class T>
Res exec_ref(T& var, int kind, u64 val, u64 exp, int ord, int ford, bool copy) {
    Res res;
    T v = static_cast<T>(val), e = static_cast<T>(exp);
    SimScope s;
    R r0(var);
    R r1(r0);
    const R& r = copy ? r1 : r0;
    bool d = ord < 0;  // default argument
    MO o = ORD[d ? 5 : ord], f = ORD[ford < 0 ? 5 : ford];
    T x = 0;
    switch (kind) {
        case A_LOAD: x = d ? r.load() : r.load(o); break;
        case A_STORE: d ? r.store(v) : r.store(v, o); break;
        case A_ASSIGN: x = (r = v); break;
        case A_XCHG: x = d ? r.exchange(v) : r.exchange(v, o); break;
        case A_CAS:
            res.ok = d ? r.compare_exchange_strong(e, v)
                       : r.compare_exchange_strong(e, v, o);
            x = e;
            break;
        case A_CAS2:
            res.ok = r.compare_exchange_strong(e, v, o, f);
            x = e;
            break;
        case A_ADD: x = d ? r.fetch_add(v) : r.fetch_add(v, o); break;
        case A_SUB: x = d ? r.fetch_sub(v) : r.fetch_sub(v, o); break;
        case A_AND: x = d ? r.fetch_and(v) : r.fetch_and(v, o); break;
        case A_OR: x = d ? r.fetch_or(v) : r.fetch_or(v, o); break;
        case A_XOR: x = d ? r.fetch_xor(v) : r.fetch_xor(v, o); break;
    }
    res.ret = static_cast<u64>(static_cast<std::make_unsigned_t<T>>(x));
    return res;
}
/// The same on vecmem::atomic, which takes no orders
template <class T>
Res exec_old(T& var, int kind, u64 val, u64 exp) {
    Res res;
    T v = static_cast<T>(val), e = static_cast<T>(exp);
    SimScope s;
    vecmem::atomic<T> r(&var);
    T x = 0;
    switch (kind) {
        case A_LOAD: x = r.load(); break;
        case A_ASSIGN:
        case A_STORE: r.store(v); x = v; break;
        case A_XCHG: x = r.exchange(v); break;
        case A_CAS:
        case A_CAS2:
            res.ok = r.compare_exchange_strong(e, v);
            x = e;
            break;
        case A_ADD: x = r.fetch_add(v); break;
        case A_SUB: x = r.fetch_sub(v); break;
        case A_AND: x = r.fetch_and(v); break;
        case A_OR: x = r.fetch_or(v); break;
        case A_XOR: x = r.fetch_xor(v); break;
    }
    res.ret = static_cast<u64>(static_cast<std::make_unsigned_t<T>>(x));
    return res;
}
template <class T>
Res exec_t(void* p, int api, int kind, u64 val, u64 exp, int ord, int ford,
           bool copy) {
    T& var = *static_cast<T*>(p);
    if (api == 2) return exec_old<T>(var, kind, val, exp);
    if (api == 1)
        return exec_ref<
            vecmem::device_atomic_ref<T, device_address_space::local>, T>(
            var, kind, val, exp, ord, ford, copy);
    return exec_ref<vecmem::device_atomic_ref<T>, T>(var, kind, val, exp, ord,
                                                     ford, copy);
}
// value types
struct TypeInfo {
    int bits;
    Res (*exec)(void*, int, int, u64, u64, int, int, bool);
};
const TypeInfo TI[] = {
    {32, exec_t<unsigned int>},  {64, exec_t<unsigned long long>},
    {32, exec_t<int>},           {64, exec_t<unsigned long>},
    {64, exec_t<long>},
#if defined(VSIM_ORDERED) || defined(VSIM_SEQUENTIAL)
    {16, exec_t<unsigned short>}, {8, exec_t<unsigned char>},
    {16, exec_t<short>},
#endif
};
constexpr int NT = sizeof(TI) / sizeof(TI[0]);
u64 mask_of(int t) { return TI[t].bits == 64 ? ~u64(0) : (u64(1) << TI[t].bits) - 1; }

bool loadlike(int k) { return k == A_LOAD; }
bool storelike(int k) { return k == A_STORE || k == A_ASSIGN; }

// ----------------------------------------------------------------- C20 ----
int pick_order(Rng& r, int k) {
    if (r.chance(0.25)) return -1;
    static const int ld[] = {0, 2, 5}, st[] = {0, 3, 5},
                     any[] = {0, 2, 3, 4, 5};
    if (loadlike(k)) return ld[r.below(3)];
    if (storelike(k)) return st[r.below(3)];
    return any[r.below(5)];
}
int pick_forder(Rng& r) {
    static const int f[] = {0, 2, 5};
    return f[r.below(3)];
}
u64 pick_val(Rng& r) {
    switch (r.pick_w({6, 2, 2, 2})) {
        case 0: return r.below(4);
        case 1: return ~u64(0) - r.below(3);
        case 2: return u64(1) << r.below(64);
        default: return r.next();
    }
}
void gen_lin(Rng& r, Case& c) {
    int nt = static_cast<int>(r.range(1, 4)), nv = static_cast<int>(r.range(1, 3));
    if (r.chance(0.5)) nv = 1;
    c.par["api"] = static_cast<i64>(r.pick_w({6, 2, 2}));
#if defined(VSIM_SEQUENTIAL)
    nt = 1;
#elif defined(VSIM_ORDERED)
    if (c.par["api"] == 2) nt = 1;  // documented not to be atomic on the host
#endif
    c.par["threads"] = nt;
    c.par["vars"] = nv;
    for (int i = 0; i < nv; ++i) {
        c.par[fmt("type%d", i)] = static_cast<i64>(r.below(NT));
        c.par[fmt("init%d", i)] = static_cast<i64>(pick_val(r));
    }
    int per = static_cast<int>(r.range(1, 6));
    bool casonly = r.chance(0.15);
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < per; ++i) {
            Op o;
            o.tid = t;
            o.kind = casonly ? (r.chance(0.7) ? A_CAS : A_LOAD)
                             : static_cast<int>(r.below(A_N));
            o.a[0] = static_cast<i64>(r.below(static_cast<u64>(nv)));
            o.a[1] = static_cast<i64>(pick_val(r));
            o.a[2] = pick_order(r, o.kind);
            o.a[3] = pick_forder(r);
            o.a[4] = static_cast<i64>(r.below(4));  // expected: 0..1 last seen
            o.a[5] = static_cast<i64>(r.next() & 0xff);
            c.ops.push_back(o);
        }
}

struct Ev {
    int kind, var, tid;
    u64 val, exp;
    Res res;
    u64 inv, rsp;
};

/// what the sequential specification allows; returns false if it does not fit
bool step(const Ev& e, u64 m, u64& v) {
    u64 nv = v;
    switch (e.kind) {
        case A_LOAD: return e.res.ret == v;
        case A_STORE: v = e.val & m; return true;
        case A_ASSIGN: v = e.val & m; return e.res.ret == (e.val & m);
        case A_XCHG: nv = e.val; break;
        case A_CAS:
        case A_CAS2:
            if (e.res.ok) {
                if (v != (e.exp & m) || e.res.ret != (e.exp & m)) return false;
                v = e.val & m;
                return true;
            }
            return v != (e.exp & m) && e.res.ret == v;
        case A_ADD: nv = v + e.val; break;
        case A_SUB: nv = v - e.val; break;
        case A_AND: nv = v & e.val; break;
        case A_OR: nv = v | e.val; break;
        case A_XOR: nv = v ^ e.val; break;
    }
    if (e.res.ret != v) return false;
    v = nv & m;
    return true;
}
bool lin(const std::vector<Ev>& ev, u64 m, u64 done, u64 v,
         std::set<std::pair<u64, u64>>& memo) {
    if (done == (u64(1) << ev.size()) - 1) return true;
    if (!memo.insert({done, v}).second) return false;
    u64 minrsp = ~u64(0);
    for (std::size_t i = 0; i < ev.size(); ++i)
        if (!(done >> i & 1)) minrsp = std::min(minrsp, ev[i].rsp);
    for (std::size_t i = 0; i < ev.size(); ++i) {
        if ((done >> i & 1) || ev[i].inv > minrsp) continue;
        u64 w = v;
        if (step(ev[i], m, w) && lin(ev, m, done | (u64(1) << i), w, memo))
            return true;
    }
    return false;
}

constexpr u64 CANARY = 0xA5A5A5A5A5A5A5A5ull;

void run_lin(const Case& c) {
    int nt = static_cast<int>(c.p("threads", 1)), nv = static_cast<int>(c.p("vars", 1));
    int api = static_cast<int>(c.p("api"));
    u64* mem = static_cast<u64*>(region_alloc(2, 8 * 16, 64));
    for (int i = 0; i < 16; ++i) mem[i] = CANARY;
    std::vector<int> ty;
    std::vector<char*> at;
    std::vector<u64> init;
    for (int i = 0; i < nv; ++i) {
        int t = static_cast<int>(c.p(fmt("type%d", i).c_str()) % NT);
        ty.push_back(t);
        // variables have neighbours on both sides
        at.push_back(reinterpret_cast<char*>(mem) + 32 * (i + 1) +
                     (TI[t].bits / 8) % 8);
        u64 v = static_cast<u64>(c.p(fmt("init%d", i).c_str())) & mask_of(t);
        init.push_back(v);
        memcpy(at.back(), &v, static_cast<std::size_t>(TI[t].bits / 8));
    }
    std::vector<std::vector<Ev>> per(static_cast<std::size_t>(nt));
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            std::vector<u64> seen(init);
            for (const Op& o : c.ops) {
                if (o.tid != t) continue;
                int var = static_cast<int>(o.a[0]) % nv;
                std::size_t sv = static_cast<std::size_t>(var);
                Ev e;
                e.kind = o.kind;
                e.var = var;
                e.tid = t;
                e.val = static_cast<u64>(o.a[1]) & mask_of(ty[sv]);
                e.exp = (o.a[4] < 3 ? seen[sv] : static_cast<u64>(o.a[5])) &
                        mask_of(ty[sv]);
                e.inv = seq();
                e.res = TI[ty[sv]].exec(at[sv], api, o.kind, e.val, e.exp,
                                        static_cast<int>(o.a[2]),
                                        static_cast<int>(o.a[3]), o.a[5] & 1);
                e.rsp = seq();
                vsim::log("t%d v%d %s val=%llx exp=%llx -> %llx %d", t, var,
                          kinds[o.kind], static_cast<unsigned long long>(e.val),
                          static_cast<unsigned long long>(e.exp),
                          static_cast<unsigned long long>(e.res.ret),
                          e.res.ok);
                if (o.kind != A_STORE) seen[sv] = e.res.ret;
                if (o.kind == A_STORE) seen[sv] = e.val;
                per[static_cast<std::size_t>(t)].push_back(e);
            }
        });
    run_threads(bodies);
    for (int v = 0; v < nv; ++v) {
        std::size_t sv = static_cast<std::size_t>(v);
        std::vector<Ev> ev;
        for (auto& p : per)
            for (auto& e : p)
                if (e.var == v && ev.size() < 60) ev.push_back(e);
        Ev last;
        last.kind = A_LOAD;
        last.val = last.exp = 0;
        last.inv = seq();
        u64 fin = 0;
        memcpy(&fin, at[sv], static_cast<std::size_t>(TI[ty[sv]].bits / 8));
        last.res.ret = fin;
        last.rsp = seq();
        ev.push_back(last);
        std::set<std::pair<u64, u64>> memo;
        if (!lin(ev, mask_of(ty[sv]), 0, init[sv], memo))
            vsim::fail("C20", "not-linearizable",
                       "%zu operations on one %d-bit variable (initially %llx, "
                       "finally %llx) have no sequential explanation",
                       ev.size() - 1, TI[ty[sv]].bits,
                       static_cast<unsigned long long>(init[sv]),
                       static_cast<unsigned long long>(fin));
        memset(at[sv], 0xA5, static_cast<std::size_t>(TI[ty[sv]].bits / 8));
        u64 h = fin * 31 + init[sv];
        for (auto& e : ev) h = h * 1099511628211ull + e.res.ret + static_cast<u64>(e.kind) + (e.res.ok ? 7 : 0);
        state(h);
    }
    for (int i = 0; i < 16; ++i)
        if (mem[i] != CANARY)
            vsim::fail("C20", "neighbour-modified",
                       "memory next to the variable was changed");
    region_free(2, mem);
    if (nt > 1 && c.ops.size() > 2) nontrivial();
    if (nt == 1 && c.ops.size() > 1 && api == 2) nontrivial();
}
const Harness HL = {"atomic_lin", gen_lin, run_lin, kinds, A_N,
                    "random operations of 1-4 threads on 1-3 atomic variables "
                    "of random integer types through the back-end's atomic "
                    "reference; Wing-Gong linearizability check per variable; "
                    "non-trivial: at least two threads"};
Registrar rl(HL);

// ----------------------------------------------------------------- C21 ----
#if defined(VSIM_ORDERED)
enum Litmus { L_MP, L_CHAIN, L_LOCK, L_SB, L_IRIW, L_N };
// ways of publishing / consuming a flag value
void gen_sync(Rng& r, Case& c) {
    c.par["litmus"] = static_cast<i64>(r.pick_w({5, 3, 4, 4, 2}));
    c.par["type"] = static_cast<i64>(r.below(NT));
    c.par["threads"] = r.range(2, 4);
    c.par["rounds"] = r.range(1, 3);
    c.par["pub"] = static_cast<i64>(r.below(8));
    c.par["pord"] = static_cast<i64>(r.below(4));
    c.par["con"] = static_cast<i64>(r.below(8));
    c.par["cord"] = static_cast<i64>(r.below(4));
    c.par["mid"] = static_cast<i64>(r.below(5));
    c.par["words"] = r.range(1, 3);
    c.par["addr"] = static_cast<i64>(r.below(2));
    c.par["as"] = static_cast<i64>(r.below(2));
    Op o;  // one operation, so that the shrinker has something to look at
    o.kind = A_LOAD;
    c.ops.push_back(o);
}
struct Ctx {
    int ty, as;
    void* p(int i) { return mem + 64 * i; }
    char* mem;
    Res ex(int i, int kind, u64 v, u64 e, int o, int f) {
        return TI[ty].exec(p(i), as, kind, v, e, o, f, false);
    }
};
/// Make the flag change from old to val with release semantics.
void publish(Ctx& x, int i, int how, int ord, u64 old, u64 val) {
    static const int st[] = {3, 5, -1, 3}, rmw[] = {3, 4, 5, -1};
    int so = st[ord & 3], ro = rmw[ord & 3];
    switch (how) {
        case 0: x.ex(i, A_STORE, val, 0, so, 0); break;
        case 1: x.ex(i, A_ASSIGN, val, 0, -1, 0); break;
        case 2: x.ex(i, A_XCHG, val, 0, ro, 0); break;
        case 3: x.ex(i, A_ADD, val - old, 0, ro, 0); break;
        case 4: x.ex(i, A_SUB, old - val, 0, ro, 0); break;
        case 5: x.ex(i, A_XOR, old ^ val, 0, ro, 0); break;
        case 6:
            while (!x.ex(i, A_CAS, val, old, ro, 0).ok) {}
            break;
        default: {
            static const int fo[] = {0, 2, 5, 0};
            static const int so2[] = {3, 4, 5, 3};
            while (!x.ex(i, A_CAS2, val, old, so2[ord & 3], fo[ord & 3]).ok) {}
        }
    }
}
/// Observe the flag with acquire semantics (may leave it as it is).
u64 consume(Ctx& x, int i, int how, int ord) {
    static const int ld[] = {2, 5, -1, 2}, rmw[] = {2, 4, 5, -1};
    u64 m = mask_of(x.ty);
    int ro = rmw[ord & 3];
    switch (how) {
        case 0:
        case 1: return x.ex(i, A_LOAD, 0, 0, ld[ord & 3], 0).ret;
        case 2: return x.ex(i, A_ADD, 0, 0, ro, 0).ret;
        case 3: return x.ex(i, A_OR, 0, 0, ro, 0).ret;
        case 4: return x.ex(i, A_AND, m, 0, ro, 0).ret;
        case 5: return x.ex(i, A_SUB, 0, 0, ro, 0).ret;
        case 6: {
            // a failing exchange acquires, too
            static const int one[] = {2, 4, 5, -1};
            Res r = x.ex(i, A_CAS, 77 & m, 77 & m, one[ord & 3], 0);
            return r.ret;
        }
        default: {
            static const int fo[] = {2, 5, 2, 5}, so[] = {0, 0, 3, 4};
            Res r = x.ex(i, A_CAS2, 77 & m, 77 & m, so[ord & 3], fo[ord & 3]);
            return r.ret;
        }
    }
}
void run_sync(const Case& c) {
    Ctx x;
    x.ty = static_cast<int>(c.p("type")) % NT;
    x.as = static_cast<int>(c.p("as")) & 1;
    x.mem = static_cast<char*>(region_alloc(2, 1024, 64));
    memset(x.mem, 0, 1024);
    u64* data = static_cast<u64*>(region_alloc(2, 8 * 64, 64));
    memset(data, 0, 8 * 64);
    int words = static_cast<int>(c.p("words", 1));
    int pub = static_cast<int>(c.p("pub")) & 7, con = static_cast<int>(c.p("con")) & 7;
    int po = static_cast<int>(c.p("pord")) & 3, co = static_cast<int>(c.p("cord")) & 3;
    int nt = static_cast<int>(c.p("threads", 2));
    int rounds = static_cast<int>(c.p("rounds", 1));
    race_detection(true);
    weak_memory(true);
    std::vector<std::function<void()>> b;
    // plain memory access, instrumented
    auto wr = [](volatile u64* p, u64 v) { SimScope s; *p = v; };
    auto rd = [](volatile u64* p) { SimScope s; return *p; };
    auto stale = [](const char* what) {
        vsim::fail("C21", "stale-payload", "%s", what);
    };
    // a sequentially consistent read: a load, or an exchange that fails
    auto sc_read = [&](int i) {
        static const int wo[] = {5, -1, 5, -1}, so[] = {0, 2, 4, 5};
        u64 m = mask_of(x.ty);
        if (con == 5) return x.ex(i, A_CAS, 77 & m, 77 & m, wo[co], 0).ret;
        if (con == 6) return x.ex(i, A_CAS2, 77 & m, 77 & m, so[co], 5).ret;
        return x.ex(i, A_LOAD, 0, 0, wo[co], 0).ret;
    };
    switch (c.p("litmus")) {
        case L_MP: {
            // one producer, several consumers
            b.push_back([&] {
                for (int w = 0; w < words; ++w) wr(data + w, 100 + static_cast<u64>(w));
                publish(x, 0, pub, po, 0, 1);
            });
            for (int t = 1; t < nt; ++t)
                b.push_back([&] {
                    for (int i = 0; i < 6; ++i) {
                        if (consume(x, 0, con, co) != 1) continue;
                        for (int w = 0; w < words; ++w)
                            if (rd(data + w) != 100 + static_cast<u64>(w))
                                stale("published data was not visible");
                        count("probe:published-seen");
                        nontrivial();
                        break;
                    }
                });
            break;
        }
        case L_CHAIN: {
            // a relaxed RMW in between keeps the release sequence going, or a
            // second acquire/release pair hands the data on
            int mid = static_cast<int>(c.p("mid"));
            b.push_back([&] {
                for (int w = 0; w < words; ++w) wr(data + w, 7 + static_cast<u64>(w));
                publish(x, 0, pub, po, 0, 1);
            });
            b.push_back([&, mid] {
                for (int i = 0; i < 6; ++i) {
                    if (mid < 3) {
                        static const int k[] = {A_ADD, A_OR, A_CAS};
                        // 1 -> 3, relaxed
                        if (k[mid] == A_CAS) {
                            if (x.ex(0, A_CAS, 3, 1, 0, 0).ok) break;
                        } else {
                            if (x.ex(0, A_LOAD, 0, 0, 0, 0).ret != 1) continue;
                            x.ex(0, k[mid], 2, 0, 0, 0);
                            break;
                        }
                    } else {
                        if (consume(x, 0, con, co) != 1) continue;
                        publish(x, 1, (pub + mid) & 7, po, 0, 3);
                        break;
                    }
                }
            });
            b.push_back([&, mid] {
                for (int i = 0; i < 8; ++i) {
                    if (consume(x, mid < 3 ? 0 : 1, con, co) != 3) continue;
                    for (int w = 0; w < words; ++w)
                        if (rd(data + w) != 7 + static_cast<u64>(w))
                            stale("data handed on was not visible");
                    count("probe:chain-seen");
                    nontrivial();
                    break;
                }
            });
            break;
        }
        case L_LOCK: {
            static u64 inside;
            inside = 0;
            int total = 0;
            for (int t = 0; t < nt; ++t) total += rounds;
            (void)total;
            static const int aq[] = {2, 4, 5, -1};
            for (int t = 0; t < nt; ++t)
                b.push_back([&] {
                    for (int k = 0; k < rounds; ++k) {
                        for (int spin = 0;; ++spin) {
                            bool got;
                            switch (con & 3) {
                                case 0: got = x.ex(0, A_CAS, 1, 0, aq[co], 0).ok; break;
                                case 1: got = x.ex(0, A_XCHG, 1, 0, aq[co], 0).ret == 0; break;
                                case 2: got = x.ex(0, A_OR, 1, 0, aq[co], 0).ret == 0; break;
                                default: {
                                    static const int so[] = {2, 4, 5, 2};
                                    got = x.ex(0, A_CAS2, 1, 0, so[co], 0).ok;
                                }
                            }
                            if (got) break;
                            if (spin > 20000) abandon("lock-never-free");
                        }
                        if (inside++)
                            vsim::fail("C21", "two-in-critical-section",
                                       "two threads own the lock");
                        for (int w = 0; w < words; ++w) wr(data + w, rd(data + w) + 1);
                        --inside;
                        publish(x, 0, (pub == 6 || pub == 7) ? 0 : pub, po, 1, 0);
                    }
                });
            run_threads(b);
            for (int w = 0; w < words; ++w)
                if (data[w] != static_cast<u64>(nt * rounds))
                    stale("an update made in a critical section was lost");
            nontrivial();
            b.clear();
            break;
        }
        case L_SB: {
            // store buffering with sequentially consistent operations
            static u64 r[2];
            r[0] = r[1] = 1;
            static const int wk[] = {A_STORE, A_XCHG, A_ADD, A_OR,
                                     A_ASSIGN, A_STORE, A_XOR, A_CAS};
            static const int wo[] = {5, -1, 5, -1};
            for (int t = 0; t < 2; ++t)
                b.push_back([&, t] {
                    x.ex(t, wk[pub], 1, 0, wo[po], 5);
                    r[t] = sc_read(1 - t);
                });
            run_threads(b);
            b.clear();
            if (!r[0] && !r[1])
                vsim::fail("C21", "no-single-total-order",
                           "two sequentially consistent operations and loads "
                           "missed each other (store buffering)");
            nontrivial();
            break;
        }
        default: {
            static u64 r[4];
            r[0] = r[1] = r[2] = r[3] = 0;
            static const int wk[] = {A_STORE, A_XCHG, A_ADD, A_OR,
                                     A_ASSIGN, A_STORE, A_XOR, A_CAS};
            static const int wo[] = {5, -1, 5, -1};
            for (int t = 0; t < 2; ++t)
                b.push_back([&, t] { x.ex(t, wk[pub], 1, 0, wo[po], 5); });
            for (int t = 0; t < 2; ++t)
                b.push_back([&, t] {
                    r[2 * t] = sc_read(t);
                    r[2 * t + 1] = sc_read(1 - t);
                });
            run_threads(b);
            b.clear();
            if (r[0] && !r[1] && r[2] && !r[3])
                vsim::fail("C21", "no-single-total-order",
                           "two readers saw two sequentially consistent stores "
                           "in opposite orders");
            nontrivial();
            break;
        }
    }
    if (!b.empty()) run_threads(b);
    race_detection(false);
    region_free(2, x.mem);
    region_free(2, data);
    state(static_cast<u64>(c.p("litmus") * 131 + pub * 17 + con * 5 + po * 3 + co));
}
const Harness HS = {"atomic_order", gen_sync, run_sync, kinds, A_N,
                    "message passing, release sequences, locks, store "
                    "buffering and IRIW programs on the host atomic reference, "
                    "with every operation and order that the guarantee covers, "
                    "in a simulated C++ memory model (stale loads, happens-"
                    "before race detection)"};
Registrar rs(HS);
#endif
#if defined(VSIM_CUDA) || defined(VSIM_HIP)
// The operations on CUDA and HIP devices order nothing by themselves, but
// stores and loads come with fences: what was written before a store is there
// after a load that saw it.
void gen_fence(Rng& r, Case& c) {
    c.par["type"] = static_cast<i64>(r.below(NT));
    c.par["threads"] = r.range(2, 4);
    c.par["words"] = r.range(1, 3);
    c.par["hops"] = r.range(1, 3);
    c.par["rounds"] = r.range(1, 3);
    c.par["how"] = static_cast<i64>(r.below(2));
    c.par["ord"] = r.range(-1, 5);
    c.par["as"] = static_cast<i64>(r.below(3));
    Op o;
    o.kind = A_STORE;
    c.ops.push_back(o);
}
void run_fence(const Case& c) {
    int ty = static_cast<int>(c.p("type")) % NT, as = static_cast<int>(c.p("as")) % 3;
    int nt = std::max(2, static_cast<int>(c.p("threads", 2)));
    int words = static_cast<int>(c.p("words", 1)), rounds = static_cast<int>(c.p("rounds", 1));
    int ord = static_cast<int>(c.p("ord", -1));
    char* mem = static_cast<char*>(region_alloc(2, 64 * 8, 64));
    u64* data = static_cast<u64*>(region_alloc(2, 64 * 8, 64));
    memset(mem, 0, 64 * 8);
    memset(data, 0, 64 * 8);
    plain_atomics(mem, 64 * 8);
    race_detection(true);
    bool chain = c.p("hops", 1) > 1 && nt > 2;
    auto wr = [](volatile u64* p, u64 v) { SimScope s; *p = v; };
    auto rd = [](volatile u64* p) { SimScope s; return *p; };
    auto store = [&](int i, u64 v) {
        int so = ord < 0 ? -1 : (ord & 1) ? 3 : 5;
        TI[ty].exec(mem + 64 * i, as, c.p("how") ? A_ASSIGN : A_STORE, v, 0, so, 0, false);
    };
    auto load = [&](int i) {
        int lo = ord < 0 ? -1 : (ord & 2) ? 2 : 5;
        return TI[ty].exec(mem + 64 * i, as, A_LOAD, 0, 0, lo, 0, false).ret;
    };
    auto look = [&](u64 k) {
        for (int w = 0; w < words; ++w)
            if (rd(data + w) < k * 10 + static_cast<u64>(w))
                vsim::fail("C21", "stale-payload",
                           "what was written before a store is not there "
                           "after a load that saw it");
        count("probe:fenced-seen");
        nontrivial();
    };
    std::vector<std::function<void()>> b;
    // every round has data of its own, nobody writes what others may read
    b.push_back([&] {
        for (int k = 1; k <= rounds; ++k) {
            if (k > 1) {
                // wait for everybody to have seen the previous round
                bool all = true;
                for (int t = 1; t < nt && all; ++t) {
                    all = false;
                    for (int i = 0; i < 12 && !all; ++i)
                        all = load(t) == static_cast<u64>(k - 1);
                }
                if (!all) return;
            }
            for (int w = 0; w < words; ++w)
                wr(data + w, static_cast<u64>(k * 10 + w));
            store(0, static_cast<u64>(k));
        }
    });
    for (int t = 1; t < nt; ++t)
        b.push_back([&, t] {
            u64 seen = 0;
            for (int i = 0; i < 14 && seen < static_cast<u64>(rounds); ++i) {
                // from the producer, or from the thread before
                u64 v = load(chain ? t - 1 : 0);
                if (v <= seen || v > static_cast<u64>(rounds)) continue;
                look(v);
                seen = v;
                store(t, v);
            }
        });
    run_threads(b);
    race_detection(false);
    plain_atomics(nullptr, 0);
    region_free(2, mem);
    region_free(2, data);
    state(static_cast<u64>(((as * 8 + ty) * 4 + nt) * 4 + rounds));
}
const Harness HF = {"atomic_fence", gen_fence, run_fence, kinds, A_N,
                    "message passing through stores and loads of the CUDA and "
                    "HIP atomic references and of vecmem::atomic; happens-before "
                    "race detection on the data, with the fences as the only "
                    "source of order"};
Registrar rf(HF);
#endif
}  // namespace
