// Every way to reach an element, through containers and views that change
// their shape in between, from threads that read and write.  Property C53.
#include "flavour.hpp"

#include "vecmem/containers/data/jagged_vector_view.hpp"
#include "vecmem/containers/data/vector_view.hpp"
#include "vecmem/containers/device_array.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/containers/static_array.hpp"

using namespace vsim;
namespace {
namespace access {
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;
using u8 = std::uint8_t;
template <class T> using DV = vecmem::device_vector<T>;
template <class T> using VV = vecmem::data::vector_view<T>;
template <class T> using JD = vecmem::jagged_device_vector<T>;
template <class T> using JV = vecmem::data::jagged_vector_view<T>;

struct Dev {  // kernel code
    SimScope s;
    DeviceScope d;
};
struct Tri {
    u32 a, b, c;
    bool operator==(const Tri& o) const {
        return a == o.a && b == o.b && c == o.c;
    }
    bool operator!=(const Tri& o) const { return !(*this == o); }
};
template <class T> T make(u64 x) { return static_cast<T>(x); }
template <> Tri make<Tri>(u64 x) {
    u32 v = static_cast<u32>(x);
    return Tri{v, v * 3 + 1, ~v};
}

enum OpK { READ, WRITE, SHRINK, GROW, VIEWS, SIZES, N };
const char* const kinds[] = {"READ", "WRITE", "SHRINK", "GROW",
                             "CONVERT_VIEWS", "SIZES"};
constexpr u64 NPATH = 28;
const char* const path_name[NPATH] = {
    "at", "[]", "front or back", "*(begin+i)", "begin[i]", "++it", "it++",
    "--it", "it--", "*(end-k)", "it+=i", "it-=k", "*(rbegin+k)", "rbegin[k]",
    "*(rend-k)", "++rit", "rit++", "--rit", "rit--", "it->", "rit->",
    "rit+=k", "rit-=k", "base", "range for", "copied iterators", "assigned iterators",
    "data"};

void bad(const char* what, u64 p) {
    HostScope h;
    fail("C53", "iterator-comparison", "%s (%s)", what, path_name[p]);
}

/// Call v on element i (of n) of the container, found in way p
template <class C, class V>
void visit(C& c, u64 n, u64 i, u64 p, V&& v) {
    using D = std::ptrdiff_t;
    const D d = static_cast<D>(i), e = static_cast<D>(n - i),
            b = static_cast<D>(n - 1 - i);
    // (same type, also where the container is constant)
    using It = std::decay_t<decltype(c.begin())>;
    using Ri = std::decay_t<decltype(c.rbegin())>;
    using Sz = typename std::decay_t<C>::size_type;
    switch (p) {
        case 0: v(c.at(static_cast<Sz>(i))); break;
        case 2:
            if (i == 0) { v(c.front()); break; }
            if (i == n - 1) { v(c.back()); break; }
            [[fallthrough]];
        case 1: v(c[static_cast<Sz>(i)]); break;
        case 3: v(*(c.begin() + d)); break;
        case 4: v(c.begin()[d]); break;
        case 5: {
            It it = c.begin();
            for (u64 k = 0; k < i; ++k) {
                It o = it;
                It& r = ++it;
                if (&r != &it || o == it) bad("++ went wrong", p);
            }
            v(*it);
            break;
        }
        case 6: {
            It it = c.begin();
            for (u64 k = 0; k < i; ++k) {
                It o = it;
                It q = it++;
                if (q != o || q == it) bad("++ went wrong", p);
            }
            v(*it);
            break;
        }
        case 7: {
            It it = c.end();
            for (u64 k = n; k > i; --k) --it;
            v(*it);
            break;
        }
        case 8: {
            It it = c.end();
            for (u64 k = n; k > i; --k) {
                It o = it;
                It q = it--;
                if (q != o || q == it) bad("-- went wrong", p);
            }
            v(*it);
            break;
        }
        case 9: v(*(c.end() - e)); break;
        case 10: {
            It it = c.begin();
            it += d;
            v(*it);
            break;
        }
        case 11: {
            It it = c.end();
            it -= e;
            v(*it);
            break;
        }
        case 12: v(*(c.rbegin() + b)); break;
        case 13: v(c.rbegin()[b]); break;
        case 14: v(*(c.rend() - (d + 1))); break;
        case 15: {
            Ri it = c.rbegin();
            for (D k = 0; k < b; ++k) {
                Ri o = it;
                Ri& r = ++it;
                if (&r != &it || o == it) bad("++ went wrong", p);
            }
            v(*it);
            break;
        }
        case 16: {
            Ri it = c.rbegin();
            for (D k = 0; k < b; ++k) {
                Ri o = it;
                Ri q = it++;
                if (q != o || q == it) bad("++ went wrong", p);
            }
            v(*it);
            break;
        }
        case 17: {
            Ri it = c.rend();
            for (D k = 0; k < d + 1; ++k) --it;
            v(*it);
            break;
        }
        case 18: {
            Ri it = c.rend();
            for (D k = 0; k < d + 1; ++k) {
                Ri o = it;
                Ri q = it--;
                if (q != o || q == it) bad("-- went wrong", p);
            }
            v(*it);
            break;
        }
        case 19: {
            It it = c.begin() + d;
            if constexpr (std::is_pointer<It>::value)
                v(*it);
            else {
                auto q = it.operator->();
                v(*(q.operator->()));
            }
            break;
        }
        case 20: {
            Ri it = c.rbegin() + b;
            if constexpr (std::is_pointer<It>::value)
                v(*(it.operator->()));
            else {
                auto q = it.operator->();
                v(*(q.operator->()));
            }
            break;
        }
        case 21: {
            Ri it = c.rbegin();
            it += b;
            v(*it);
            break;
        }
        case 22: {
            Ri it = c.rend();
            it -= d + 1;
            v(*it);
            break;
        }
        case 23: {
            Ri it = c.rbegin() + b;
            It f = it.base();
            if (f != c.begin() + (d + 1)) bad("wrong base", p);
            if (Ri(f) != it) bad("not the reverse iterator of its base", p);
            v(*--f);
            break;
        }
        case 24: {
            u64 k = 0;
            for (auto&& x : c) {
                if (k++ == i) v(x);
                if (k > n) break;
            }
            if (k != n) bad("range has a wrong length", p);
            break;
        }
        case 25: {
            It it = c.begin() + d;
            It jt(it);
            Ri r = c.rbegin() + b;
            Ri q(r);
            if (jt != it || q != r || !(jt == it)) bad("copy differs", p);
            v(b & 1 ? *jt : *q);
            break;
        }
        case 26: {
            It it = c.begin(), jt = c.end();
            jt = it;
            jt += d;
            Ri r = c.rend();
            r = c.rbegin() + b;
            if (i && jt == it) bad("assignment went wrong", p);
            v(b & 1 ? *jt : *r);
            break;
        }
        default:
            if constexpr (std::is_pointer<It>::value)
                v(c.data()[d]);
            else
                v(c[static_cast<Sz>(i)]);
    }
    if (!(c.begin() + static_cast<D>(n) == c.end()) ||
        c.rbegin() + static_cast<D>(n) != c.rend())
        bad("begin and end are not size() apart", p);
}
/// the same through constant iterators of a modifiable container
template <class C, class V>
void visit_c(C& c, u64 n, u64 i, u64 p, V&& v) {
    using D = std::ptrdiff_t;
    const D d = static_cast<D>(i), b = static_cast<D>(n - 1 - i);
    using It = std::decay_t<decltype(c.begin())>;
    if (p % 4 == 0)
        v(*(c.cbegin() + d));
    else if (p % 4 == 1)
        v(*(c.crbegin() + b));
    else if (p % 4 == 2)
        v(*(c.cend() - static_cast<D>(n - i)));
    else if constexpr (std::is_pointer<It>::value) {
        // conversions
        typename C::const_iterator ci = c.begin();
        typename C::const_reverse_iterator cr = c.rbegin();
        v(i & 1 ? *(ci + d) : *(cr + b));
    } else
        v(*(c.crend() - (d + 1)));
}

void gen(Rng& r, Case& c) {
    int nt = static_cast<int>(r.range(1, 4));
    int rows = static_cast<int>(r.range(1, 5));
    c.par["threads"] = nt;
    c.par["rows"] = rows;
    c.par["et"] = static_cast<i64>(r.below(4));
    c.par["rs"] = static_cast<i64>(r.next() >> 2);
    for (int i = 0; i < rows; ++i) {
        c.par[fmt("cap%d", i)] =
            static_cast<i64>(r.chance(0.1)    ? r.below(2)
                             : r.chance(0.03) ? 1 + r.below(600)
                                              : 1 + r.below(14));
        c.par[fmt("fix%d", i)] = r.chance(0.3);
    }
    int ph = static_cast<int>(r.range(1, 8));
    for (int p = 0; p < ph; ++p) {
        bool par = nt > 1 && r.chance(0.6);
        int n = static_cast<int>(r.range(1, 6)) * (par ? nt : 1);
        for (int i = 0; i < n; ++i) {
            Op o;
            o.tid = par ? i % nt : 0;
            o.kind = static_cast<int>(par ? r.pick_w({5, 5, 0, 0, 1, 1})
                                          : r.pick_w({4, 4, 3, 4, 3, 1}));
            for (int k = 0; k < 4; ++k)
                o.a[k] = static_cast<i64>(r.next() >> 2);
            o.a[4] = par;
            o.a[5] = p;
            c.ops.push_back(o);
        }
    }
}

template <class T>
struct World {
    const Case& c;
    u64 rows;
    struct Row {
        u32 cap = 0, n = 0;
        T* p = nullptr;
        u32* size = nullptr;
        std::vector<u64> m;
        VV<T> view() const {
            return size ? VV<T>(cap, size, p) : VV<T>(cap, p);
        }
    };
    std::vector<Row> r;
    VV<T>* dviews = nullptr;
    std::vector<VV<T>> hviews;
    static constexpr std::size_t SA = 5;
    vecmem::static_array<T, SA>* sa = nullptr;
    T* sbase = nullptr;  ///< its first element
    std::vector<u64> sm;
    u64 next = 1;

    explicit World(const Case& cc)
        : c(cc), rows(static_cast<u64>(std::max<i64>(1, cc.p("rows")))) {}
    u64 id() { return next++ * 7 % 251; }
    void make_all() {
        for (u64 k = 0; k < rows; ++k) {
            Row x;
            x.cap = static_cast<u32>(
                std::max<i64>(0, c.p(fmt("cap%d", static_cast<int>(k)).c_str())));
            x.p = static_cast<T*>(region_alloc(
                1, sizeof(T) * (x.cap ? x.cap : 1), alignof(T)));
            if (!c.p(fmt("fix%d", static_cast<int>(k)).c_str())) {
                x.size = static_cast<u32*>(region_alloc(1, 4, 4));
                *x.size = x.n = 0;
            } else
                x.n = x.cap;
            for (u32 i = 0; i < x.n; ++i) {
                x.m.push_back(id());
                x.p[i] = make<T>(x.m[i]);
            }
            r.push_back(x);
        }
        dviews = static_cast<VV<T>*>(region_alloc(
            1, sizeof(VV<T>) * rows, alignof(VV<T>)));
        for (u64 k = 0; k < rows; ++k) {
            new (dviews + k) VV<T>(r[k].view());
            hviews.push_back(r[k].view());
        }
        sa = static_cast<vecmem::static_array<T, SA>*>(region_alloc(
            1, sizeof(vecmem::static_array<T, SA>),
            alignof(vecmem::static_array<T, SA>)));
        sbase = &(*sa)[0];
        for (std::size_t i = 0; i < SA; ++i) {
            sm.push_back(id());
            (*sa)[i] = make<T>(sm[i]);
        }
    }
    JV<T> jview() { return JV<T>(rows, dviews, hviews.data()); }

    void expect(const T& x, const T* want, u64 val, const char* what, u64 p) {
        HostScope h;
        if (&x != want) {
            fail("C53", "wrong-element",
                 "%s through \"%s\" reached another element than number %llu "
                 "(offset %lld bytes)",
                 what, path_name[p], static_cast<unsigned long long>(val),
                 static_cast<long long>(reinterpret_cast<i64>(&x) -
                                        reinterpret_cast<i64>(want)));
            abandon("element");
        }
    }
    /// f(element) on element i of row k, reached in one of many ways
    template <class F>
    void reach(u64 k, u64 i, u64 how, bool writing, F&& f) {
        Row& x = r[k];
        u64 p = how % NPATH, q = (how / NPATH) % NPATH, w = how / NPATH / NPATH;
        auto at = [&](auto& e) {
            expect(e, x.p + i, i, writing ? "writing" : "reading", p);
            f(const_cast<T&>(e));
        };
        Dev d;
        switch (w % (writing ? 5 : 10)) {
            case 0: {
                DV<T> v(x.view());
                visit(v, x.n, i, p, at);
                break;
            }
            case 1: {  // through copies and assignments
                VV<T> a(x.view());
                DV<T> v(a), o(r[(k + 1) % rows].view());
                DV<T> u(v);
                o = u;
                visit(o, x.n, i, p, at);
                break;
            }
            case 2: {
                JD<T> j(jview());
                visit(j, rows, k, q, [&](auto&& row) {
                    visit(row, x.n, i, p, at);
                });
                break;
            }
            case 3: {
                JD<T> j(jview()), l(JV<T>(0, nullptr));
                JD<T> m(j);
                l = m;
                visit(l, rows, k, q, [&](auto&& row) {
                    visit(row, x.n, i, p, at);
                });
                break;
            }
            case 4:
            case 9: {
                if (x.n >= 3 && i < 3) {
                    // (the other one looks elsewhere until it is assigned to)
                    Row& y = r[(k + 1) % rows];
                    vecmem::device_array<T, 3> a(x.view()),
                        o(y.n >= 3 ? y.view() : x.view());
                    vecmem::device_array<T, 3> b(a);
                    o = b;
                    if (o.size() != 3 || o.max_size() != 3 || o.empty())
                        bad("device_array has a wrong size", p);
                    const vecmem::device_array<T, 3>& u = o;
                    VV<const T> cv(x.view());
                    vecmem::device_array<const T, 3> ca(cv);
                    if (writing || q % 4 == 0)
                        visit(o, 3, i, p, at);
                    else if (q % 4 == 1)
                        visit(u, 3, i, p, at);
                    else if (q % 4 == 2)
                        visit_c(o, 3, i, p, at);
                    else
                        visit(ca, 3, i, p, at);
                } else {
                    DV<T> v(x.view());
                    visit(v, x.n, i, p, at);
                }
                break;
            }
            case 5: {
                VV<const T> a(x.view());
                DV<const T> v(a);
                visit(v, x.n, i, p, at);
                break;
            }
            case 6: {
                DV<T> v(x.view());
                const DV<T>& u = v;
                if (q & 1)
                    visit(u, x.n, i, p, at);
                else
                    visit_c(v, x.n, i, p, at);
                break;
            }
            case 7: {
                JV<const T> a(jview());
                JD<const T> j(a);
                visit(j, rows, k, q, [&](auto&& row) {
                    visit(row, x.n, i, p, at);
                });
                break;
            }
            default: {
                JD<T> j(jview());
                const JD<T>& u = j;
                auto inner = [&](auto&& row) { visit(row, x.n, i, p, at); };
                if (w / 10 % 2)
                    visit(u, rows, k, q, inner);
                else
                    visit_c(j, rows, k, q, inner);
            }
        }
    }
    template <std::size_t I>
    T& get(bool member) {
        return member ? sa->template get<I>() : vecmem::get<I>(*sa);
    }
    template <class F>
    void reach_sa(u64 i, u64 how, bool writing, F&& f) {
        u64 p = how % (NPATH + 3), w = how / (NPATH + 3);
        auto at = [&](auto& e) {
            expect(e, sbase + i, i,
                   writing ? "writing" : "reading", p % NPATH);
            f(const_cast<T&>(e));
        };
        Dev d;
        if (p >= NPATH) {
            bool m = w & 1;
            switch (i) {
                case 0: at(get<0>(m)); break;
                case 1: at(get<1>(m)); break;
                case 2: at(get<2>(m)); break;
                case 3: at(get<3>(m)); break;
                default: at(get<4>(m));
            }
            return;
        }
        const auto& k = *sa;
        if (writing || w % 3 == 0)
            visit(*sa, SA, i, p, at);
        else if (w % 3 == 1)
            visit(k, SA, i, p, at);
        else
            visit_c(*sa, SA, i, p, at);
    }
    // --- which elements a thread may write or read while others run
    u64 mix(u64 k, u64 i, u64 ph) const {
        u64 s = static_cast<u64>(c.p("rs")) + k * 1315423911u + i * 2654435761u +
                ph * 97;
        return Rng(s).next();
    }
    bool mine(u64 k, u64 i, const Op& o, bool writing) const {
        if (!o.a[4]) return true;
        u64 h = mix(k, i, static_cast<u64>(o.a[5]));
        if (h & 1) return !writing;  // nobody writes it
        return static_cast<int>((h >> 1) % static_cast<u64>(
                                    std::max<i64>(1, c.p("threads")))) == o.tid;
    }
    void one(const Op& o) {
        u64 k = static_cast<u64>(o.a[0]) % (rows + 1), how = static_cast<u64>(o.a[2]);
        vsim::log("t%d %s %llu %llx", o.tid, kinds[o.kind],
                  static_cast<unsigned long long>(k),
                  static_cast<unsigned long long>(how));
        switch (o.kind) {
            case READ:
            case WRITE: {
                bool wr = o.kind == WRITE;
                std::vector<u64>& m = k == rows ? sm : r[k].m;
                if (m.empty()) break;
                u64 i = static_cast<u64>(o.a[1]) % m.size();
                if (!mine(k, i, o, wr)) break;
                if (wr) m[i] = static_cast<u64>(o.a[3]) % 251;
                T val = make<T>(m[i]);
                bool ok = true;
                auto f = [&](T& e) {
                    if (wr)
                        e = val;
                    else {
                        T got = e;
                        ok = got == val;
                    }
                };
                u64 seen = 0;
                auto g = [&](T& e) {
                    ++seen;
                    f(e);
                };
                if (k == rows)
                    reach_sa(i, how, wr, g);
                else
                    reach(k, i, how, wr, g);
                if (seen != 1)
                    fail("C53", "wrong-element",
                         "element %llu was reached %llu times",
                         static_cast<unsigned long long>(i),
                         static_cast<unsigned long long>(seen));
                if (!ok)
                    fail("C53", "wrong-content",
                         "element %llu of row %llu does not have the value "
                         "that was written",
                         static_cast<unsigned long long>(i),
                         static_cast<unsigned long long>(k));
                if (o.a[4]) nontrivial();
                count(wr ? "probe:writes" : "probe:reads");
                break;
            }
            case SHRINK:
            case GROW: {
                if (o.a[4] || k == rows || !r[k].size) break;
                Row& x = r[k];
                u32 n = o.kind == GROW
                            ? x.n + static_cast<u32>(static_cast<u64>(o.a[1]) %
                                                     (x.cap - x.n + 1u))
                            : static_cast<u32>(static_cast<u64>(o.a[1]) %
                                               (x.n + 1u));
                while (x.m.size() > n) x.m.pop_back();
                std::vector<T> vals;
                while (x.m.size() < n) {
                    x.m.push_back(id());
                    vals.push_back(make<T>(x.m.back()));
                }
                x.n = n;
                if (how & 1) {  // by another party
                    u32 b = n - static_cast<u32>(vals.size());
                    for (std::size_t i = 0; i < vals.size(); ++i)
                        x.p[b + i] = vals[i];
                    *x.size = n;
                } else {
                    const T* pv = vals.data();
                    T tmp = make<T>(0);
                    std::size_t nv = vals.size();
                    Dev d;
                    DV<T> v(x.view());
                    while (v.size() > n) v.pop_back();
                    for (std::size_t i = 0; i < nv; ++i) {
                        {
                            HostScope h;
                            tmp = pv[i];
                        }
                        v.push_back(tmp);
                    }
                }
                nontrivial();
                break;
            }
            case SIZES: {
                if (k == rows) {
                    bool ok;
                    {
                        Dev d;
                        ok = sa->size() == SA && !sa->empty() &&
                             sa->max_size() == SA;
                    }
                    if (!ok) fail("C53", "wrong-size", "static_array");
                    break;
                }
                Row& x = r[k];
                u32 n, cap, jn, jcap;
                bool em, jem;
                std::size_t jo, joc;
                {
                    Dev d;
                    DV<T> v(x.view());
                    JD<T> j(jview());
                    DV<T> w = j[k];
                    n = v.size();
                    em = v.empty();
                    cap = v.capacity();
                    jn = w.size();
                    jcap = w.capacity();
                    jem = j.empty();
                    jo = j.size();
                    joc = j.capacity();
                }
                if (n != x.n || em != (x.n == 0) || cap != x.cap ||
                    jn != x.n || jcap != x.cap || jem || jo != rows ||
                    joc != rows)
                    fail("C53", "wrong-size",
                         "row %llu has size %u/%u, capacity %u/%u (should be "
                         "%u, %u)",
                         static_cast<unsigned long long>(k), n, jn, cap, jcap,
                         x.n, x.cap);
                break;
            }
            default:
                views(k % rows, static_cast<u64>(o.a[1]) % rows, how);
        }
    }
    void views(u64 k, u64 l, u64 how) {
        auto cmp = [&](bool got, bool want, const char* what) {
            if (got != want)
                fail("C53", "view-comparison", "%s: views compare %s", what,
                     got ? "equal" : "different");
        };
        Row &x = r[k], &y = r[l];
        bool same = k == l;
        bool r1, r2, r3, r4, r5, r6, r7, r8, f1, f2;
        {
            SimScope s;
            VV<T> a(x.view()), b(y.view());
            VV<const T> ca(a), cb;
            cb = b;
            r1 = a == b;
            r2 = !(a != b);
            r3 = ca == cb && ca == b && a == cb;
            r4 = !(ca != b) && !(a != cb);
            b = a;
            cb = b;
            r5 = a == b && cb == a && cb.ptr() == a.ptr() &&
                 cb.size_ptr() == a.size_ptr() && cb.capacity() == a.capacity();
            // each part counts
            VV<T> d1(x.cap + 1, x.size, x.p), d2(x.cap, x.size, x.p + 1),
                d3(x.cap, x.size ? nullptr : &x.cap, x.p);
            f1 = a == d1 || a == d2 || a == d3 || !(a != d1) || !(a != d2) ||
                 !(a != d3);
            JV<T> j(jview()), i(j);
            JV<const T> cj(j), ck;
            ck = j;
            r6 = i == j && !(i != j) && cj == j && j == cj && ck == cj;
            r7 = cj.size() == rows && cj.capacity() == rows &&
                 static_cast<const void*>(cj.ptr()) == dviews &&
                 static_cast<const void*>(cj.host_ptr()) == hviews.data() &&
                 static_cast<const void*>(ck.ptr()) == dviews &&
                 static_cast<const void*>(ck.host_ptr()) == hviews.data();
            JV<T> e1(rows - 1, dviews, hviews.data()),
                e2(rows, dviews + 1, hviews.data()),
                e3(rows, dviews, hviews.data() + 1);
            f2 = j == e1 || j == e2 || j == e3 || !(j != e1) || !(j != e2) ||
                 !(j != e3);
            JV<T> h(rows, dviews);  // (without a host copy)
            r8 = static_cast<const void*>(h.host_ptr()) == dviews;
        }
        cmp(r1, same, "==");
        cmp(r2, same, "!=");
        cmp(r3, same, "== of constant views");
        cmp(r4, same, "!= of constant views");
        cmp(r5, true, "assigned");
        cmp(f1, false, "with a different part");
        cmp(r6, true, "jagged");
        if (!r7 || !r8)
            fail("C53", "view-conversion",
                 "the view of constant elements does not describe the same "
                 "memory");
        cmp(f2, false, "jagged with a different part");
        // arrays by value
        vecmem::static_array<T, 4> p, q;
        u64 v = how % 251, w = (how >> 9) % 251;
        std::size_t at = (how >> 20) % 4;
        bool eq, ne, thrown = false;
        {
            SimScope s;
            p.fill(make<T>(v));
            q.fill(make<T>(v));
            q[at] = make<T>(w);
            eq = p == q;
            ne = p != q;
            q = p;
            eq = eq == (v == w) && p == q && !(p != q);
            ne = ne == (v != w);
            const vecmem::static_array<T, 4>& cq = q;
            try {
                q.at(4 + (how >> 30) % 3) = p[0];
            } catch (const std::out_of_range&) {
                thrown = true;
            }
            try {
                T t = cq.at(4 + (how >> 31) % 3);
                thrown = false;
                (void)t;
            } catch (const std::out_of_range&) {
            }
        }
        if (!eq || !ne)
            fail("C53", "view-comparison", "static arrays compare wrongly");
        if (!thrown)
            fail("C53", "out-of-range",
                 "static_array::at accepted an index beyond its end");
    }
    void check_all() {
        for (u64 k = 0; k < rows; ++k) {
            if (r[k].size && *r[k].size != r[k].n)
                fail("C53", "wrong-size", "the size of a row changed on its own");
            for (u32 i = 0; i < r[k].n; ++i)
                if (!(r[k].p[i] == make<T>(r[k].m[i])))
                    fail("C53", "wrong-content",
                         "element %u of row %llu changed or was not written", i,
                         static_cast<unsigned long long>(k));
        }
        for (std::size_t i = 0; i < SA; ++i)
            if (!(sbase[i] == make<T>(sm[i])))
                fail("C53", "wrong-content",
                     "element %zu of the static array is wrong", i);
    }
    void operator()() {
        make_all();
        std::size_t i = 0;
        int nt = static_cast<int>(std::max<i64>(1, c.p("threads")));
        while (i < c.ops.size()) {
            std::size_t e = i;
            while (e < c.ops.size() && c.ops[e].a[5] == c.ops[i].a[5]) ++e;
            if (c.ops[i].a[4]) {
                std::vector<std::function<void()>> b;
                for (int t = 0; t < nt; ++t)
                    b.push_back([this, i, e, t] {
                        for (std::size_t k = i; k < e; ++k)
                            if (c.ops[k].tid == t) one(c.ops[k]);
                    });
                run_threads(b);
                count("probe:threads");
            } else
                for (std::size_t k = i; k < e; ++k) one(c.ops[k]);
            i = e;
            check_all();
            u64 s = 0;
            for (auto& x : r) s = s * 17 + x.n;
            state(s);
        }
    }
};
void run(const Case& c) {
    switch (c.p("et")) {
        case 0: {
            World<u32> w(c);
            w();
            break;
        }
        case 1: {
            World<u64> w(c);
            w();
            break;
        }
        case 2: {
            World<u8> w(c);
            w();
            break;
        }
        default: {
            World<Tri> w(c);
            w();
        }
    }
}
const Harness H = {"access", gen, run, kinds, N,
                   "1-5 rows (fixed or resizable) and a static array, reached by "
                   "kernel threads in 28 ways through device vectors, jagged "
                   "vectors, arrays and constant views of them, while sizes "
                   "change between phases; non-trivial: concurrent accesses or "
                   "changed sizes"};
Registrar reg(H);
}  // namespace access
}  // namespace
