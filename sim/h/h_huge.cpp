// Copies and buffers of gigabytes, in memory that exists only symbolically.
// Properties C30-C32, C34-C36, C42, C50.
#include "copyworld.hpp"

namespace {
struct Page {
    char b[4096];
};
struct Meg {
    char b[1 << 20];
};
using soa_c = vecmem::edm::container<iface, et::scalar<u64>, et::vector<Page>,
                                     et::vector<u8>, et::vector<Meg>>;
using soa_d =
    vecmem::edm::container<iface, et::vector<Page>, et::jagged_vector<Meg>,
                           et::scalar<u32>, et::jagged_vector<u16>>;

enum OpK { O_NEW, O_COPY, O_MEMSET, O_TO, O_SIZES, O_SETSIZES, O_KERNEL, O_N };
const char* const kinds[] = {"NEW",       "COPY",      "MEMSET", "TO",
                             "GET_SIZES", "SET_SIZES", "WRITE"};

/// a number of bytes; mostly around the limits of smaller integer types
u64 gen_bytes(Rng& r) {
    switch (r.pick_w({3, 3, 2, 2})) {
        case 0:
            return (u64(1) << r.range(28, 34)) + r.below(1u << 22);
        case 1:
            return (u64(1) << r.range(31, 33)) +
                   static_cast<u64>(r.range(-3, 3)) * 4096;
        case 2:
            return u64(1) << r.below(35);
        default:
            return r.below(u64(1) << 34);
    }
}

void gen(Rng& r, Case& c) {
    c.par["ooo"] = r.chance(0.4);
    c.par["et"] = static_cast<i64>(r.below(4));
    c.par["eager"] = static_cast<i64>(r.below(3));
    if (c.prop == "C42") {
        c.par["bk"] = static_cast<i64>(1 + r.pick_w({6, 2, 2, 6, 2}));
        if (c.p("bk") < 4) c.par["ooo"] = 0;
    }
    int ns = static_cast<int>(r.range(2, 4));
    c.par["slots"] = ns;
    c.par["place"] = static_cast<i64>(r.below(3));
    u64 favs = r.next() >> 2;
    auto mk = [&](int s) {
        Op o;
        o.kind = O_NEW;
        o.a[0] = s;
        o.a[2] = r.chance(0.55);
        o.a[3] = static_cast<i64>(r.chance(0.7) ? favs : r.next() >> 2);
        o.a[5] = static_cast<i64>(r.below(4));
        return o;
    };
    for (int s = 0; s < ns; ++s) c.ops.push_back(mk(s));
    u64 n = 2 + r.below(10);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        int s = static_cast<int>(r.below(static_cast<u64>(ns)));
        o.kind = static_cast<int>(r.pick_w({1, 8, 2, 2, 2, 1, 3}));
        if (o.kind == O_NEW) {
            o = mk(s);
        } else {
            o.a[0] = s;
            o.a[1] = static_cast<i64>(r.below(static_cast<u64>(ns)));
            o.a[2] = static_cast<i64>(r.below(2));
            o.a[4] = static_cast<i64>(r.next() >> 2);
        }
        c.ops.push_back(o);
    }
}

template <class W, std::size_t ES>
struct World {
    using Buf = typename W::Buf;
    using View = typename W::View;
    struct Slot {
        Buf* buf = nullptr;
        bool resizable = false;
        std::vector<Var> vars;
    };
    const Case& c;
    Stream st;
    Backend be;
    SimUpstream up;
    Symbolic real, want;
    vecmem::copy& dev;
    std::vector<Slot> slots;
    u64 labels = 1;

    static Stream& init(Stream& s, const Case& c) {
        s.ooo = c.p("ooo");
        s.eager = static_cast<int>(c.p("eager"));
        return s;
    }
    explicit World(const Case& cc)
        : c(cc), be(init(st, cc), static_cast<int>(c.p("bk"))),
          up(0, static_cast<int>(c.p("place"))), dev(*be.dev) {
        slots.resize(static_cast<std::size_t>(c.p("slots", 2)));
        up.own_prop = ALL ? ALL : "C50";
        real.owns = [this](u64 a, u64 n) {
            return up.owns(reinterpret_cast<void*>(a), n);
        };
        sym = &real;
    }
    ~World() { sym = nullptr; }
    Shape shape(u64 seed, i64 delta) {
        Rng r(seed);
        Shape s;
        if constexpr (W::jag) {
            u64 n = 1 + r.below(5);
            for (u64 i = 0; i < n; ++i)
                s.push_back(r.chance(0.2) ? 0 : gen_bytes(r) / ES);
        } else {
            u64 n = gen_bytes(r) / ES;
            if (W::soa) n = std::min<u64>(n, 20000);
            s.push_back(n);
        }
        u64 tot = 0;
        for (auto& x : s) {
            if (x > 0xffffffffu - 1) x = 0xffffffffu - 1;
            if (delta == 1) x += 1;
            if (delta == 2 && x) x -= 1;
            if (tot + x * ES > (u64(1) << 36)) x = 1;
            tot += x * ES;
        }
        if (tot > (u64(1) << 32)) count("probe:more-than-4GiB");
        return s;
    }
    template <class F>
    int call(F f) {
        ++st.call;
        st.in_call = true;
        int r = 0;
        try {
            SimScope s;
            f();
        } catch (const std::length_error&) {
            r = 2;
        } catch (const std::exception&) {
            r = 1;
        }
        st.leave();
        if (r == 1)
            flag(PROP, "unexpected-failure",
                 "an operation failed although nothing went wrong");
        return r;
    }
    void wait(vecmem::copy::event_type e) {
        if (!e) return;
        SimScope s;
        e->wait();
        e.reset();
    }
    static u64 A(const void* p) { return reinterpret_cast<u64>(p); }
    u32 size_of(const Row& r) {
        if (!r.sp) return r.cap;
        u32 n = 0;
        if (!real.read(A(r.sp), &n, 4)) return 0xffffffffu;
        return n;
    }
    // everything is what it should be; and from here on it is the reference
    void verify(const char* when) {
        st.drain();
        for (auto& s : slots) {
            if (!s.buf) continue;
            for (std::size_t i = 0; i < s.vars.size(); ++i)
                for (std::size_t j = 0; j < s.vars[i].rows.size(); ++j) {
                    Row& r = s.vars[i].rows[j];
                    u32 n = size_of(r);
                    if (n != r.size) {
                        flag(PROP, "wrong-size",
                             "%s: variable %zu row %zu has size %u, expected "
                             "%u (capacity %u, elements of %zu bytes)",
                             when, i, j, n, r.size, r.cap, s.vars[i].es);
                        abandon("size");
                    }
                    if (r.sp) want.any(A(r.sp), 4);
                }
            View v(*s.buf);
            layouts(v, [&](const void* p, const void*, std::size_t n) {
                if (Symbolic::virt(p)) want.any(A(p), n);
            });
        }
        for (auto& b : up.live) {
            u64 at = 0;
            if (!Symbolic::same(want, real, b.first, b.second.size, &at)) {
                flag(PROP, "wrong-content",
                     "%s: byte +%llu of a block of %zu bytes is not what it "
                     "should be",
                     when, ull(at - b.first), b.second.size);
                abandon("content");
            }
        }
        want.m = real.m;
    }
    template <class T, class F>
    void layout1(const vecmem::data::jagged_vector_view<T>& x, F f) {
        if (x.size() && x.ptr() != x.host_ptr())
            f(x.ptr(), x.host_ptr(), x.size() * sizeof(*x.ptr()));
    }
    template <class X, class F>
    void layout1(const X&, F) {}
    template <class F>
    void layouts(View v, F f) {
        if constexpr (W::soa) {
            layout1(v.template get<0>(), f);
            layout1(v.template get<1>(), f);
            layout1(v.template get<2>(), f);
            layout1(v.template get<3>(), f);
        } else {
            layout1(v, f);
        }
    }
    /// the memory of a buffer outside of its elements may change
    void loose(Slot& s, bool rest) {
        for (auto& b : up.live) {
            bool mine = false;
            for (auto& v : s.vars)
                for (auto& r : v.rows)
                    mine = mine || (r.cap && A(r.p) >= b.first &&
                                    A(r.p) < b.first + b.second.size);
            if (!mine) continue;
            u64 at = b.first;
            std::vector<std::pair<u64, u64>> k;
            for (auto& v : s.vars)
                for (auto& r : v.rows)
                    k.push_back({A(r.p), (rest ? r.size : r.cap) * v.es});
            std::sort(k.begin(), k.end());
            for (auto& x : k) {
                if (x.second == 0 || x.first < at) continue;
                want.any(at, x.first - at);
                at = x.first + x.second;
            }
            want.any(at, b.first + b.second.size - at);
        }
    }
    void destroy(Slot& s) {
        SimScope q;
        delete s.buf;
        s.buf = nullptr;
    }
    /// C50: where everything is
    void check_layout(Slot& s, const Shape* sh, bool rs) {
        const char* P = ALL ? ALL : "C50";
        std::map<u64, u64> used;
        auto claim = [&](u64 a, u64 n, std::size_t al, const char* what) {
            if (!n) return;
            if (!up.owns(reinterpret_cast<void*>(a), n))
                flag(P, "outside-allocation",
                     "%s of %llu bytes is not inside the memory of the buffer",
                     what, ull(n));
            if (a % al) flag(P, "misaligned", "%s is misaligned", what);
            auto it = used.lower_bound(a);
            bool bad = it != used.end() && it->first < a + n;
            if (it != used.begin() && std::prev(it)->second > a) bad = true;
            if (bad) flag(P, "overlap", "%s overlaps something else", what);
            used[a] = a + n;
        };
        std::set<u32*> sps;
        for (auto& v : s.vars)
            for (std::size_t j = 0; j < v.rows.size(); ++j) {
                Row& r = v.rows[j];
                if (v.kind && sh) {
                    u64 n = W::jag && v.kind == 2 ? (*sh)[j]
                            : W::jag              ? sh->size()
                                                  : (*sh)[0];
                    if (r.cap != n)
                        flag(P, "wrong-capacity", "capacity %u instead of %llu",
                             r.cap, ull(n));
                }
                claim(A(r.p), r.cap * v.es, v.es & (0 - v.es) & 15 ? v.es : 1,
                      "an array");
                if (r.sp && sps.insert(r.sp).second)
                    claim(A(r.sp), 4, 4, "a size");
                if (rs && !r.sp && r.cap && v.kind && (!W::soa || !W::jag || v.kind == 2))
                    flag(P, "wrong-kind", "a resizable buffer without a size");
            }
        View w(*s.buf);
        layouts(w, [&](const void* p, const void*, std::size_t n) {
            claim(A(p), n, 8, "a description");
        });
    }
    void reshape(Slot& s) {
        SimScope q;
        View w(*s.buf);
        HostScope h;
        s.vars = W::vars(w);
    }
    void paint(Slot& s) {
        for (auto& v : s.vars)
            for (auto& r : v.rows)
                if (r.cap) real.label(A(r.p), r.cap * v.es, ++labels);
    }
    void act_new(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        verify("before");
        destroy(s);
        s = Slot();
        s.resizable = o.a[2];
        Shape sh = shape(static_cast<u64>(o.a[3]), o.a[5]);
        int r = call([&] {
            s.buf = W::make_buf(sh, up, be.mr[0], s.resizable);
        });
        if (r) abandon("new");
        reshape(s);
        check_layout(s, &sh, s.resizable);
        for (auto& b : up.live) {
            auto old = real.get(b.first, 1)[0];
            if (old.kind == Symbolic::LABEL && old.id == 0)
                real.label(b.first, b.second.size, ++labels);
        }
        want.m = real.m;
        do_setup(s);
        scribble(s, static_cast<u64>(o.a[3]) * 7 + 1);
    }
    void do_setup(Slot& s) {
        const char* keep = PROP;
        PROP = "C34";
        vecmem::copy::event_type e;
        View w(*s.buf);
        if (call([&] { e = dev.setup(w); })) abandon("setup");
        wait(std::move(e));
        st.drain();
        for (auto& v : s.vars)
            for (auto& r : v.rows) {
                if (r.sp) real.any(0, 0);
                r.size = r.sp ? 0 : r.cap;
            }
        layouts(w, [&](const void* p, const void* h, std::size_t n) {
            std::string b(n, '\0');
            if (!real.read(A(p), b.data(), n) || memcmp(b.data(), h, n)) {
                flag("C34", "layout-not-copied",
                     "the description of the inner vectors is not usable on "
                     "the device");
                abandon("layout");
            }
            want.any(A(p), n);
        });
        loose(s, false);
        verify("after setup()");
        PROP = keep;
    }
    /// what kernels would do
    void scribble(Slot& s, u64 seed) {
        st.drain();
        Rng r(seed);
        std::map<u32*, u32> done;
        for (auto& v : s.vars)
            for (auto& y : v.rows) {
                if (y.sp) {
                    u32 n = r.chance(0.3)   ? y.cap
                            : r.chance(0.2) ? 0
                                            : static_cast<u32>(r.below(
                                                  u64(y.cap) + 1));
                    if (done.count(y.sp)) n = done[y.sp];
                    done[y.sp] = n;
                    y.size = n;
                    real.write(A(y.sp), &n, 4);
                } else {
                    y.size = y.cap;
                }
            }
        paint(s);
        want.m = real.m;
    }
    int fits(Slot& f, Slot& t) {
        for (std::size_t i = 0; i < f.vars.size(); ++i)
            if (f.vars[i].kind == 2 &&
                f.vars[i].rows.size() != t.vars[i].rows.size())
                return 1;
        for (std::size_t i = 0; i < f.vars.size(); ++i)
            for (std::size_t j = 0; j < f.vars[i].rows.size(); ++j)
                if (f.vars[i].rows[j].size > t.vars[i].rows[j].cap) return 1;
        return 0;
    }
    void model_copy(Slot& f, Slot& t) {
        for (std::size_t i = 0; i < t.vars.size(); ++i)
            for (std::size_t j = 0; j < t.vars[i].rows.size(); ++j) {
                Row &d = t.vars[i].rows[j], &s = f.vars[i].rows[j];
                u64 es = t.vars[i].es;
                if (s.size) want.copy(A(s.p), A(d.p), s.size * es);
                if (d.sp) d.size = s.size;
                if ((W::jag || W::soa || d.sp) && d.cap > s.size)
                    want.any(A(d.p) + s.size * es, (d.cap - s.size) * es);
            }
        if (W::jag || W::soa) loose(t, false);
    }
    vecmem::copy::type::copy_type hint(const Op& o) {
        return o.a[2] & 1 ? vecmem::copy::type::device_to_device
                          : vecmem::copy::type::unknown;
    }
    void act_copy(const Op& o) {
        std::size_t i = static_cast<std::size_t>(o.a[0]) % slots.size(),
                    j = static_cast<std::size_t>(o.a[1]) % slots.size();
        Slot &f = slots[i], &t = slots[j];
        if (i == j || !f.buf || !t.buf) return;
        int fit = fits(f, t);
        View a(*f.buf), b(*t.buf);
        vecmem::copy::event_type e;
        int r = call([&] { e = dev(a, b, hint(o)); });
        vsim::log("copy %zu -> %zu: %d (%d)", i, j, r, fit);
        if (r == 2) {
            st.drain();
            if (!fit) {
                flag(PROP, "fitting-copy-refused",
                     "a copy that fits was refused");
                abandon("refused");
            }
            if (W::soa) {  // some of the variables may have been copied
                for (auto& v : t.vars)
                    for (auto& y : v.rows) {
                        if (y.sp) y.size = size_of(y);
                        want.any(A(y.p), y.cap * v.es);
                    }
                loose(t, false);
            }
            verify("after a refused copy");
            return;
        }
        if (fit) {
            flag(PROP, "unfitting-copy-accepted",
                 "a copy that does not fit was accepted");
            abandon("accepted");
        }
        wait(std::move(e));
        st.drain();
        model_copy(f, t);
        nontrivial();
        verify("after a copy");
    }
    void act_memset(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        if (!s.buf) return;
        const char* keep = PROP;
        PROP = "C34";
        int val = static_cast<int>(o.a[4] % 600) - 300;
        View w(*s.buf);
        vecmem::copy::event_type e;
        if (call([&] { e = dev.memset(w, val); })) abandon("memset");
        wait(std::move(e));
        st.drain();
        for (auto& v : s.vars)
            for (auto& y : v.rows)
                if (y.cap) want.value(A(y.p), y.cap * v.es, val);
        if (W::jag || W::soa) loose(s, false);
        nontrivial();
        verify("after memset()");
        PROP = keep;
    }
    void act_to(const Op& o) {
        if constexpr (W::has_to) {
            std::size_t i = static_cast<std::size_t>(o.a[0]) % slots.size(),
                        j = static_cast<std::size_t>(o.a[1]) % slots.size();
            Slot& f = slots[i];
            if (i == j || !f.buf) return;
            verify("before to()");
            const char* keep = PROP;
            PROP = "C36";
            Slot n;
            View a(*f.buf);
            int r = call([&] {
                if constexpr (W::jag)
                    n.buf = new Buf(dev.to(a, up, be.mr[0], hint(o)));
                else
                    n.buf = new Buf(dev.to(a, up, hint(o)));
            });
            if (r) {
                flag("C36", "unexpected-failure", "to() threw");
                abandon("to");
            }
            if (!st.q.empty())
                flag("C36", "returned-before-finished",
                     "to() returned before it was finished");
            reshape(n);
            bool ok = n.vars[0].rows.size() == f.vars[0].rows.size();
            for (std::size_t k = 0; ok && k < n.vars[0].rows.size(); ++k) {
                Row& y = n.vars[0].rows[k];
                ok = y.cap == f.vars[0].rows[k].size && !y.sp;
                y.size = y.cap;
            }
            if (!ok) {
                flag("C36", "wrong-shape",
                     "the new buffer has another shape than its source");
                abandon("to");
            }
            check_layout(n, nullptr, false);
            std::swap(slots[j], n);
            model_copy(f, slots[j]);
            verify("after to()");
            destroy(n);
            want.m = real.m;
            nontrivial();
            PROP = keep;
        } else {
            (void)o;
        }
    }
    void act_sizes(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        if (!s.buf) return;
        const char* keep = PROP;
        PROP = "C36";
        View w(*s.buf);
        if constexpr (W::jag && !W::soa) {
            std::vector<u32> got;
            call([&] {
                auto g = dev.get_sizes(w);
                HostScope h;
                got.assign(g.begin(), g.end());
            });
            bool ok = got.size() == s.vars[0].rows.size();
            for (std::size_t i = 0; ok && i < got.size(); ++i)
                ok = got[i] == s.vars[0].rows[i].size;
            if (!ok) flag("C36", "wrong-sizes", "get_sizes() is wrong");
        } else {
            u32 got = 0;
            call([&] { got = static_cast<u32>(dev.get_size(w)); });
            u32 exp = W::soa && W::jag
                          ? static_cast<u32>(s.vars[1].rows.size())
                          : s.vars[1 % s.vars.size()].rows[0].size;
            if (got != exp)
                flag("C36", "wrong-size", "get_size() returned %u instead of %u",
                     got, exp);
        }
        PROP = keep;
    }
    void act_setsizes(const Op& o) {
        if constexpr (W::jag && !W::soa) {
            Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
            if (!s.buf) return;
            const char* keep = PROP;
            PROP = "C36";
            Rng r(static_cast<u64>(o.a[4]));
            std::vector<u32>* z;
            bool bad = false;
            {
                SimScope q;
                z = new std::vector<u32>();
                for (auto& y : s.vars[0].rows) {
                    u32 n = static_cast<u32>(r.below(u64(y.cap) + 1));
                    if (r.chance(0.06) && y.cap < 0xfffffff0u) {
                        n = y.cap + 1;
                        bad = true;
                    }
                    z->push_back(n);
                }
            }
            View w(*s.buf);
            vecmem::copy::event_type e;
            int res = call([&] { e = dev.set_sizes(*z, w); });
            if ((res == 2) != bad) {
                flag("C36", bad ? "bad-sizes-accepted" : "good-sizes-refused",
                     "sizes were %s", bad ? "accepted" : "refused");
                abandon("sizes");
            }
            wait(std::move(e));
            st.drain();
            if (!res && s.resizable)
                for (std::size_t i = 0; i < z->size(); ++i)
                    s.vars[0].rows[i].size = (*z)[i];
            {
                SimScope q;
                delete z;
            }
            verify("after set_sizes()");
            PROP = keep;
        } else {
            (void)o;
        }
    }
    void run() {
        for (const Op& o : c.ops) {
            switch (o.kind) {
                case O_NEW:
                    act_new(o);
                    break;
                case O_COPY:
                    act_copy(o);
                    break;
                case O_MEMSET:
                    act_memset(o);
                    break;
                case O_TO:
                    act_to(o);
                    break;
                case O_SIZES:
                    act_sizes(o);
                    break;
                case O_SETSIZES:
                    act_setsizes(o);
                    break;
                default: {
                    Slot& s = slots[static_cast<std::size_t>(o.a[0]) %
                                    slots.size()];
                    if (!s.buf) break;
                    verify("before it is modified");
                    scribble(s, static_cast<u64>(o.a[4]));
                }
            }
            u64 h = 1469598103934665603ull;
            for (auto& s : slots)
                for (auto& v : s.vars)
                    for (auto& r : v.rows)
                        h = (h ^ (u64(r.size) * 977 + r.cap)) *
                            0x100000001b3ull;
            state(h);
        }
        verify("at the end");
        for (auto& s : slots) destroy(s);
        if (!up.live.empty())
            flag(ALL ? ALL : "C50", "memory-leak",
                 "%zu blocks were never returned", up.live.size());
    }
};

template <class W, std::size_t ES>
void run_w(const Case& c) {
    PROP = W::prop;
    ALL = c.prop == "C42" ? "C42" : nullptr;
    World<W, ES> w(c);
    w.run();
    w.be.clear();
    const char* P = PROP;
    if (heap_live())
        flag(P, "memory-leak", "%zu host blocks leaked%s", heap_live(),
             heap_describe().c_str());
}
void run_huge(const Case& c) {
    std::string p = c.prop;
    // which container: as the property asks for, or any
    int which = p == "C30"   ? 0
                : p == "C31" ? 1
                : p == "C32" ? 2
                             : static_cast<int>(c.p("slots") + c.p("place")) % 3;
    switch (which * 4 + static_cast<int>(c.p("et"))) {
        case 0:
            return run_w<W1<u64>, 8>(c);
        case 1:
            return run_w<W1<u8>, 1>(c);
        case 2:
            return run_w<W1<Page>, 4096>(c);
        case 3:
            return run_w<W1<Meg>, 1 << 20>(c);
        case 4:
            return run_w<WJ<u64>, 8>(c);
        case 5:
            return run_w<WJ<u8>, 1>(c);
        case 6:
            return run_w<WJ<Page>, 4096>(c);
        case 7:
            return run_w<WJ<Meg>, 1 << 20>(c);
        case 8:
        case 9:
            return run_w<WS<soa_c, false>, (1 << 20) + 4097>(c);
        default:
            return run_w<WS<soa_d, true>, (1 << 20) + 2>(c);
    }
}
const Harness H = {
    "huge", gen, run_huge, kinds, O_N,
    "copy, memset, setup, to, sizes on 2-4 buffers of up to 64 GiB in symbolic "
    "device memory (byte ranges know where their content came from); sizes "
    "around the limits of 31, 32 and 33 bits; non-trivial: data was moved or "
    "set"};
Registrar r1(H);
}  // namespace
