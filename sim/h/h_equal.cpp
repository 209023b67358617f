// Equality of memory resources, and what relies on it. Property C15.
#include "common.hpp"

#include "vecmem/containers/vector.hpp"
#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"

using namespace hx;

namespace {
namespace equal {
enum OpK { QUERY, ALLOC, FREE, REBIND, VNEW, VPUSH, VASSIGN, VMOVE, VSWAP, VEND, N };
const char* const kinds[] = {"QUERY",     "ALLOC",    "FREE", "REBIND",
                             "VEC_NEW",   "VEC_PUSH", "VEC_ASSIGN",
                             "VEC_MOVE_ASSIGN", "VEC_SWAP", "VEC_DESTROY"};
enum NodeK {
    LEAF, HOST, TERM, IDENT, SYNC, INSTR, DEBUG, POOL, ARENA, BINPAGE, CONTIG,
    COALESCE, CHOICE, COND, NNODEK
};
const char* const nname[] = {
    "upstream",      "host",        "terminal",   "identity", "synchronized",
    "instrumenting", "debug",       "pool",       "arena",    "binary page",
    "contiguous",    "coalescing",  "choice",     "conditional"};
using Mr = vecmem::memory_resource;

/// The memory that a group of (equal) upstream resources shares
struct Ledger {
    struct Blk {
        std::size_t n, al;
    };
    std::map<std::uintptr_t, Blk> live;
    std::size_t frees = 0;
    std::uintptr_t last = 0;
    int id = 0;
};
struct Leaf : Mr {
    Ledger* g;
    explicit Leaf(Ledger* l) : g(l) {}
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        if (fire(F_UP)) throw std::bad_alloc();
        if (fire(F_UPX)) throw UpstreamError();
        void* p = n > (1u << 22) ? nullptr
                                 : region_alloc(0, n ? n : 1, al);
        if (!p) throw std::bad_alloc();
        g->live[reinterpret_cast<std::uintptr_t>(p)] = {n, al};
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        HostScope h;
        auto it = g->live.find(reinterpret_cast<std::uintptr_t>(p));
        if (it == g->live.end() || it->second.n != n || it->second.al != al) {
            fail("C15", "foreign-block",
                 "upstream resource %d got a block of %zu bytes (alignment "
                 "%zu) %s",
                 g->id, n, al,
                 it == g->live.end() ? "that is not its own"
                                     : "that it gave with other arguments");
            abandon("foreign block");
        }
        g->live.erase(it);
        ++g->frees;
        g->last = reinterpret_cast<std::uintptr_t>(p);
        region_free(0, p);
    }
    bool do_is_equal(const Mr& o) const noexcept override {
        HostScope h;
        auto* l = dynamic_cast<const Leaf*>(&o);
        return l && l->g == g;
    }
};
struct Node {
    int kind = LEAF;
    std::vector<int> up;
    Mr* mr = nullptr;
    Ledger* g = nullptr;
    int used = 0;  ///< vectors and nodes that refer to it
};
using Vec = vecmem::vector<u64>;

void gen(Rng& r, Case& c) {
    c.par["shape"] = static_cast<i64>(r.next() >> 2);
    c.par["nodes"] = r.range(3, 14);
    c.par["threads"] = r.chance(0.3) ? r.range(2, 4) : 0;
    c.par["tseed"] = static_cast<i64>(r.next() >> 2);
    c.par["tops"] = r.range(2, 12);
    bool faults = r.chance(0.5), vectors = r.chance(0.6);
    u64 n = 4 + r.below(r.chance(0.1) ? 80 : 30);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(r.pick_w({6, 8, 6, 1, 3, 8, 3, 5, 3, 1}));
        if (i < 4 && vectors) o.kind = VNEW;
        o.a[0] = static_cast<i64>(i < 4 ? i : r.next() >> 2);
        o.a[1] = static_cast<i64>(r.next() >> 2);
        o.a[2] = static_cast<i64>(gen_size(r, 12));
        o.a[3] = static_cast<i64>(gen_align(r));
        o.a[4] = static_cast<i64>(r.next() >> 2);
        if (faults && r.chance(0.2)) {
            Fault f;
            int w = static_cast<int>(r.pick_w({4, 1, 2}));
            f.site = w == 0 ? F_UP : w == 1 ? F_UPX : F_NEW;
            f.nth = static_cast<int>(r.below(2));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

struct World {
    std::vector<std::unique_ptr<Ledger>> ledgers;
    std::vector<Node> nodes;
    /// answers seen so far
    std::map<std::pair<int, int>, bool> seen;

    Node& at(int i) { return nodes[static_cast<std::size_t>(i)]; }
    void build(Rng& r, std::size_t n) {
        int ng = static_cast<int>(r.range(1, 3));
        for (int i = 0; i < ng; ++i) {
            ledgers.emplace_back(new Ledger);
            ledgers.back()->id = i;
        }
        for (std::size_t i = 0; i < n; ++i) {
            Node x;
            x.kind = i == 0 ? int(LEAF)
                            : static_cast<int>(r.pick_w(
                                  {5, 2, 1, 6, 6, 2, 2, 2, 1, 1, 1, 1, 1, 1}));
            auto pick = [&] { return static_cast<int>(r.below(i)); };
            if (x.kind >= IDENT) x.up.push_back(pick());
            if (x.kind == COALESCE && r.chance(0.7)) x.up.push_back(pick());
            auto up = [&](std::size_t k) -> Mr& { return *at(x.up[k]).mr; };
            if (x.kind == LEAF)
                x.g = ledgers[r.below(ledgers.size())].get();
            try {
                SimScope s;
                switch (x.kind) {
                    case LEAF:
                        x.mr = new Leaf(x.g);
                        break;
                    case HOST:
                        x.mr = new vecmem::host_memory_resource();
                        break;
                    case TERM:
                        x.mr = new vecmem::terminal_memory_resource();
                        break;
                    case IDENT:
                        x.mr = new vecmem::identity_memory_resource(up(0));
                        break;
                    case SYNC:
                        x.mr = new vecmem::synchronized_memory_resource(up(0));
                        break;
                    case INSTR:
                        x.mr = new vecmem::instrumenting_memory_resource(up(0));
                        break;
                    case DEBUG:
                        x.mr = new vecmem::debug_memory_resource(up(0));
                        break;
                    case POOL:
                        x.mr = new vecmem::pool_memory_resource(up(0));
                        break;
                    case ARENA:
                        x.mr = new vecmem::arena_memory_resource(up(0), 4096,
                                                                 1 << 18);
                        break;
                    case BINPAGE:
                        x.mr = new vecmem::binary_page_memory_resource(up(0));
                        break;
                    case CONTIG:
                        x.mr = new vecmem::contiguous_memory_resource(up(0),
                                                                      1 << 14);
                        break;
                    case COALESCE: {
                        std::vector<std::reference_wrapper<Mr>> v;
                        for (std::size_t k = 0; k < x.up.size(); ++k)
                            v.push_back(up(k));
                        x.mr = new vecmem::coalescing_memory_resource(
                            std::move(v));
                        break;
                    }
                    case CHOICE: {
                        Mr* u = &up(0);
                        x.mr = new vecmem::choice_memory_resource(
                            [u](std::size_t, std::size_t) -> Mr& {
                                return *u;
                            });
                        break;
                    }
                    default:
                        x.mr = new vecmem::conditional_memory_resource(
                            up(0),
                            [](std::size_t, std::size_t) { return true; });
                }
            } catch (const std::bad_alloc&) {
                // (e.g. a contiguous resource above a terminal one)
                x = Node();
                x.g = ledgers[0].get();
                SimScope s;
                x.mr = new Leaf(x.g);
            }
            for (int u : x.up) ++at(u).used;
            nodes.push_back(x);
        }
    }
    void* sink(int i) {
        Node& x = at(i);
        static char host, term;
        switch (x.kind) {
            case LEAF: return x.g;
            case HOST: return &host;
            case TERM: return &term;
            case IDENT:
            case SYNC: return sink(x.up[0]);
            default: return x.mr;
        }
    }
    /// must resource i say that it equals resource j?
    bool must(int i, int j) {
        if (i == j) return true;
        Node &a = at(i), &b = at(j);
        if (a.kind == IDENT)
            return b.kind == IDENT && must(a.up[0], b.up[0]);
        if (a.kind == SYNC)
            return b.kind == SYNC ? must(a.up[0], b.up[0]) : must(a.up[0], j);
        if (a.kind != b.kind) return false;
        return a.kind == HOST || a.kind == TERM ||
               (a.kind == LEAF && a.g == b.g);
    }
    /// can any number of threads use it?
    bool shareable(int i) {
        Node& x = at(i);
        if (x.kind <= TERM) return true;
        return (x.kind == IDENT || x.kind == SYNC) && shareable(x.up[0]);
    }
    bool query(int i, int j) {
        bool e, f;
        {
            SimScope s;
            e = at(i).mr->is_equal(*at(j).mr);
            f = *at(i).mr == *at(j).mr;
        }
        vsim::log("%d==%d: %d", i, j, e);
        if (e && sink(i) != sink(j)) {
            fail("C15", "not-interchangeable",
                 "resource %d (%s) claims to equal %d (%s), which cannot "
                 "return its memory",
                 i, nname[at(i).kind], j, nname[at(j).kind]);
            abandon("equality");
        }
        if (!e && must(i, j))
            fail("C15", "not-equal",
                 "resource %d (%s) does not equal %d (%s), although either "
                 "could be used for the other",
                 i, nname[at(i).kind], j, nname[at(j).kind]);
        if (f != (e || i == j))
            fail("C15", "not-equal", "operator== disagrees with is_equal");
        return e;
    }
};
struct Blk {
    u8* p;
    std::size_t n, al;
    int owner;
    u8 fill;
};
void put(const Blk& b) {
    for (std::size_t k = 0; k < b.n; ++k) b.p[k] = b.fill;
}
void check(const Blk& b) {
    for (std::size_t k = 0; k < b.n; ++k)
        if (b.p[k] != b.fill) {
            fail("C15", "content-changed", "memory that was in use changed");
            abandon("content");
        }
}

struct Run {
    const Case& c;
    World w;
    std::vector<Blk> live;
    struct V {
        Vec* v = nullptr;
        std::vector<u64> m;
        int node = 0;
    };
    static constexpr std::size_t NV = 4;
    V vs[NV];
    explicit Run(const Case& cc) : c(cc) {}

    template <class F>
    bool attempt(F&& f) {
        try {
            SimScope s;
            f();
            return true;
        } catch (const std::bad_alloc&) {
        } catch (const UpstreamError&) {
        }
        vsim::log("-> failed");
        return false;
    }
    /// a block goes back through any resource that claims to be equal
    void release(Blk b, u64 pick) {
        check(b);
        std::vector<int> cand;
        for (std::size_t j = 0; j < w.nodes.size(); ++j)
            if (w.query(b.owner, static_cast<int>(j)))
                cand.push_back(static_cast<int>(j));
        if (cand.empty()) cand.push_back(b.owner);
        int j = cand[pick % cand.size()];
        if (j != b.owner) {
            count("probe:freed-through-another");
            nontrivial();
        }
        auto* s = w.sink(b.owner);
        Ledger* g = nullptr;
        for (auto& l : w.ledgers)
            if (l.get() == s) g = l.get();
        std::size_t before = g ? g->frees : 0;
        try {
            SimScope q;
            w.at(j).mr->deallocate(b.p, b.n, b.al);
        } catch (const std::exception& e) {
            fail("C15", "not-interchangeable",
                 "resource %d (%s) could not return memory from %d (%s): %s", j,
                 nname[w.at(j).kind], b.owner, nname[w.at(b.owner).kind],
                 e.what());
            abandon("free");
        }
        if (g && (g->frees != before + 1 ||
                  g->last != reinterpret_cast<std::uintptr_t>(b.p))) {
            fail("C15", "not-returned",
                 "the block did not get back to upstream resource %d", g->id);
            abandon("free");
        }
    }
    void vcheck(V& v) {
        bool same = v.v->size() == v.m.size();
        for (std::size_t i = 0; same && i < v.m.size(); ++i)
            same = (*v.v)[i] == v.m[i];
        if (!same) {
            fail("C15", "content-changed",
                 "a vector does not have the elements it should");
            abandon("vector");
        }
        if (v.v->get_allocator().resource() != w.at(v.node).mr)
            fail("C15", "wrong-resource", "a vector changed its resource");
    }
    void vend(V& v) {
        if (!v.v) return;
        vcheck(v);
        --w.at(v.node).used;
        SimScope s;
        delete v.v;
        v.v = nullptr;
    }
    void step(const Op& o) {
        auto nn = w.nodes.size();
        int i = static_cast<int>(static_cast<u64>(o.a[0]) % nn),
            j = static_cast<int>(static_cast<u64>(o.a[1]) % nn);
        V &a = vs[static_cast<u64>(o.a[0]) % NV],
          &b = vs[static_cast<u64>(o.a[1]) % NV];
        switch (o.kind) {
            case QUERY: {
                arm(o);  // (it must not need memory)
                bool e = w.query(i, j);
                disarm();
                auto it = w.seen.emplace(std::make_pair(i, j), e);
                if (it.first->second != e)
                    fail("C15", "changed-its-mind",
                         "whether %d equals %d has changed", i, j);
                break;
            }
            case ALLOC: {
                Blk x{nullptr, static_cast<std::size_t>(o.a[2]),
                      as_align(o.a[3]), i, static_cast<u8>(o.a[4])};
                if (x.n < 1) x.n = 1;
                arm(o);
                bool ok = attempt([&] {
                    x.p = static_cast<u8*>(
                        w.at(i).mr->allocate(x.n, x.al));
                });
                disarm();
                if (!ok) break;
                put(x);
                live.push_back(x);
                break;
            }
            case FREE:
                if (live.size()) {
                    auto k = static_cast<u64>(o.a[0]) % live.size();
                    Blk x = live[k];
                    live.erase(live.begin() + static_cast<long>(k));
                    release(x, static_cast<u64>(o.a[4]));
                }
                break;
            case REBIND: {
                // a synchronized resource is assigned from another one
                Node &x = w.at(i), &y = w.at(j);
                if (x.kind != SYNC || y.kind != SYNC || i == j) break;
                bool eq = w.must(x.up[0], y.up[0]);
                if (!eq && x.used) break;
                if (y.up[0] >= i) break;  // (destroyed in reverse order)
                for (auto& l : live)
                    if (l.owner == i) l.owner = x.up[0];
                --w.at(x.up[0]).used;
                ++w.at(y.up[0]).used;
                x.up[0] = y.up[0];
                w.seen.clear();
                {
                    SimScope s;
                    auto& p =
                        *static_cast<vecmem::synchronized_memory_resource*>(
                            x.mr);
                    auto& q =
                        *static_cast<vecmem::synchronized_memory_resource*>(
                            y.mr);
                    if (o.a[4] & 1)
                        p = q;
                    else {
                        vecmem::synchronized_memory_resource t(q);
                        p = std::move(t);
                    }
                }
                count("probe:rebound");
                break;
            }
            case VNEW:
                vend(a);
                if (b.v && o.a[4] % 4) {  // a resource that equals b's
                    std::vector<int> cand;
                    for (std::size_t k = 0; k < nn; ++k)
                        if (w.must(b.node, static_cast<int>(k)))
                            cand.push_back(static_cast<int>(k));
                    j = cand[static_cast<u64>(o.a[4] / 4) % cand.size()];
                }
                a.node = j;
                a.m.clear();
                if (!attempt([&] { a.v = new Vec(w.at(j).mr); }))
                    a.v = nullptr;
                else
                    ++w.at(j).used;
                break;
            case VPUSH:
                if (!a.v) break;
                for (int k = 0; k < 1 + o.a[4] % 9; ++k) {
                    u64 x = static_cast<u64>(o.a[2]) * 1000 +
                            static_cast<u64>(k);
                    if (k == 0) arm(o);
                    bool ok = attempt([&] { a.v->push_back(x); });
                    disarm();
                    if (!ok) break;
                    a.m.push_back(x);
                }
                break;
            case VASSIGN:
            case VMOVE: {
                if (!a.v || !b.v || a.v == b.v) break;
                bool eq;
                {
                    SimScope s;
                    eq = w.at(a.node).mr->is_equal(*w.at(b.node).mr);
                }
                arm(o);
                bool ok = attempt([&] {
                    if (o.kind == VASSIGN)
                        *a.v = *b.v;
                    else
                        *a.v = std::move(*b.v);
                });
                disarm();
                if (!ok) {  // either content, or in between: start again
                    SimScope s;
                    a.v->clear();
                    b.v->clear();
                    a.m.clear();
                    b.m.clear();
                    break;
                }
                a.m = b.m;
                if (o.kind == VMOVE) {
                    SimScope s;
                    b.v->clear();
                    b.m.clear();
                }
                if (eq && a.node != b.node && a.m.size()) {
                    count("probe:moved-between-equal-resources",
                          o.kind == VMOVE);
                    nontrivial();
                }
                break;
            }
            case VSWAP: {
                if (!a.v || !b.v || a.v == b.v) break;
                bool eq;
                {
                    SimScope s;
                    eq = w.at(a.node).mr->is_equal(*w.at(b.node).mr);
                }
                if (!eq) break;  // (not allowed)
                attempt([&] { a.v->swap(*b.v); });
                std::swap(a.m, b.m);
                count("probe:swapped");
                break;
            }
            default:
                vend(a);
        }
        for (auto& v : vs)
            if (v.v) vcheck(v);
    }
    void parallel() {
        int nt = static_cast<int>(c.p("threads"));
        if (nt < 2) return;
        std::vector<int> sh;
        for (std::size_t k = 0; k < w.nodes.size(); ++k)
            if (w.shareable(static_cast<int>(k)))
                sh.push_back(static_cast<int>(k));
        std::vector<std::function<void()>> bodies;
        u64 seed = static_cast<u64>(c.p("tseed"));
        std::size_t tops = static_cast<std::size_t>(c.p("tops"));
        for (int t = 0; t < nt; ++t)
            bodies.push_back([this, t, seed, tops, &sh] {
                Rng r(seed + static_cast<u64>(t) * 7919);
                std::vector<Blk> mine;
                auto give = [&](Blk b) {
                    check(b);
                    std::vector<int> cand;
                    for (int j : sh)
                        if (w.query(b.owner, j)) cand.push_back(j);
                    if (cand.empty()) cand.push_back(b.owner);
                    int j = r.pick(cand);
                    SimScope s;
                    w.at(j).mr->deallocate(b.p, b.n, b.al);
                };
                for (std::size_t k = 0; k < tops; ++k) {
                    int i = static_cast<int>(r.below(w.nodes.size())),
                        j = static_cast<int>(r.below(w.nodes.size()));
                    switch (r.pick_w({3, 4, 3})) {
                        case 0:
                            w.query(i, j);
                            break;
                        case 1: {
                            Blk x{nullptr, 1 + r.below(200),
                                  std::size_t(1) << r.below(7), r.pick(sh),
                                  static_cast<u8>(r.next())};
                            if (attempt([&] {
                                    x.p = static_cast<u8*>(
                                        w.at(x.owner).mr->allocate(x.n, x.al));
                                })) {
                                put(x);
                                mine.push_back(x);
                            }
                            break;
                        }
                        default:
                            if (mine.size()) {
                                Blk x = mine.back();
                                mine.pop_back();
                                give(x);
                            }
                    }
                }
                while (mine.size()) {
                    Blk x = mine.back();
                    mine.pop_back();
                    give(x);
                }
            });
        count("probe:threads");
        run_threads(bodies);
    }
    void operator()() {
        Rng r(static_cast<u64>(c.p("shape")));
        w.build(r, static_cast<std::size_t>(std::max<i64>(c.p("nodes"), 1)));
        for (const Op& o : c.ops) {
            vsim::log("%s %lld %lld", kinds[o.kind],
                      static_cast<long long>(o.a[0]),
                      static_cast<long long>(o.a[1]));
            step(o);
            std::size_t n = 0;
            for (auto& l : w.ledgers) n = n * 31 + l->live.size();
            state(n * 64 + live.size());
        }
        parallel();
        // every pair, at the end
        for (std::size_t i = 0; i < w.nodes.size(); ++i)
            for (std::size_t j = 0; j < w.nodes.size(); ++j)
                w.query(static_cast<int>(i), static_cast<int>(j));
        u64 k = 0;
        while (live.size()) {
            Blk b = live.back();
            live.pop_back();
            release(b, k++ * 7);
        }
        for (auto& v : vs) vend(v);
        for (auto it = w.nodes.rbegin(); it != w.nodes.rend(); ++it) {
            SimScope s;
            delete it->mr;
        }
        for (auto& l : w.ledgers)
            if (l->live.size())
                fail("C15", "lost-block",
                     "%zu blocks did not get back to upstream resource %d",
                     l->live.size(), l->id);
        if (heap_live())
            fail("C15", "memory-leak", "%zu heap blocks are left over%s",
                 heap_live(), heap_describe().c_str());
    }
};
void run(const Case& c) {
    Run r(c);
    r();
}
const Harness H = {"equal", gen, run, kinds, N,
                   "random graphs of 3-14 resources of all kinds over groups of "
                   "equal upstream resources; every block goes back through a "
                   "random resource that claims to equal the one it is from; "
                   "vectors move and swap memory between equal resources; "
                   "queries by threads; non-trivial: memory went back through "
                   "another resource"};
Registrar reg(H);
}  // namespace equal
}  // namespace
