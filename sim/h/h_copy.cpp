// The copy objects on a simulated accelerator: an asynchronous back-end with
// separate device memory.  Properties C30-C37.
#include "copyworld.hpp"

namespace {
enum OpK {
    O_NEW,
    O_COPY,
    O_COPYHOST,
    O_TO,
    O_MEMSET,
    O_SETUP,
    O_SIZES,
    O_SETSIZES,
    O_KERNEL,
    O_SYNC,
    O_N
};
const char* const kinds[] = {"NEW",   "COPY",     "COPY_TO_HOST", "TO",
                             "MEMSET", "SETUP",    "GET_SIZES",    "SET_SIZES",
                             "WRITE",  "SYNC"};

void gen(Rng& r, Case& c) {
    c.par["et"] = static_cast<i64>(r.below(4));
    c.par["ooo"] = r.chance(0.4);
    if (c.prop == "C42") {
        c.par["bk"] = static_cast<i64>(1 + r.pick_w({6, 2, 2, 6, 2}));
        if (c.p("bk") < 4) c.par["ooo"] = 0;
    }
    c.par["eager"] = static_cast<i64>(r.below(3));
    int ns = static_cast<int>(r.range(2, 5));
    c.par["slots"] = ns;
    u64 favs = r.next() >> 2;  // shared shape, so that sizes match often
    double rate = c.prop == "C37" ? 0.35 : r.chance(0.6) ? 0 : 0.15;
#ifdef VECMEM_FAIL_ON_ASYNC_ERRORS
    rate = 0;  // any event that the library drops is fatal
#endif
    auto mk = [&](int s) {
        Op o;
        o.kind = O_NEW;
        o.a[0] = s;
        o.a[1] = static_cast<i64>(r.pick_w({3, 3, 5, 2, 2}));  // kind
        o.a[2] = r.chance(0.55);                               // resizable
        o.a[3] = static_cast<i64>(r.chance(0.7) ? favs : r.next() >> 2);
        o.a[4] = static_cast<i64>(r.next() >> 2);
        o.a[5] = static_cast<i64>(r.below(4));
        return o;
    };
    for (int s = 0; s < ns; ++s) {
        c.ops.push_back(mk(s));
        if (r.chance(0.8)) {
            Op o;
            o.kind = O_KERNEL;
            o.a[0] = s;
            o.a[4] = static_cast<i64>(r.next() >> 2);
            c.ops.push_back(o);
        }
    }
    u64 n = 1 + r.below(r.chance(0.1) ? 40 : 12);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        int s = static_cast<int>(r.below(static_cast<u64>(ns)));
        o.kind = static_cast<int>(r.pick_w({1, 8, 3, 2, 2, 1, 2, 2, 4, 1}));
        if (o.kind == O_NEW) {
            o = mk(s);
        } else {
            o.a[0] = s;
            o.a[1] = static_cast<i64>(r.below(static_cast<u64>(ns)));
            o.a[2] = static_cast<i64>(r.below(4));   // typed / host copy
            o.a[3] = static_cast<i64>(r.below(3));   // event policy
            o.a[4] = static_cast<i64>(r.next() >> 2);
            o.a[5] = static_cast<i64>(r.below(5));
        }
        if (r.chance(rate)) {
            Fault f;
            f.site = r.chance(0.75) ? F_COPY : r.chance(0.6) ? F_UP : F_NEW;
            if (c.p("bk") && r.chance(0.25)) f.site = F_API;
            f.nth = static_cast<int>(r.chance(0.4)   ? 0
                                    : r.chance(0.7) ? r.below(6)
                                                    : r.below(16));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

template <class W>
struct World {
    using Host = typename W::Host;
    using Buf = typename W::Buf;
    using View = typename W::View;
    struct Slot {
        Host* host = nullptr;
        Buf* buf = nullptr;
        int region = 0;
        bool resizable = false;
        std::vector<Var> vars;
    };
    const Case& c;
    Stream st;
    Backend be;
    struct {
        Backend& b;
        vecmem::memory_resource& operator[](int i) { return *b.mr[i]; }
    } mr{be};
    vecmem::copy& dev;
    vecmem::copy hst;
    std::vector<Slot> slots;
    std::vector<vecmem::copy::event_type> held;
    std::vector<std::function<void()>> grave;
    bool faulted = false;

    static Stream& init(Stream& s, const Case& c) {
        s.ooo = c.p("ooo");
        s.eager = static_cast<int>(c.p("eager"));
        return s;
    }
    explicit World(const Case& cc)
        : c(cc), be(init(st, cc), static_cast<int>(c.p("bk"))), dev(*be.dev) {
        slots.resize(static_cast<std::size_t>(c.p("slots", 2)));
    }
    static bool refused() {
        return fired(F_API) || fired(F_COPY) || fired(F_STALL);
    }
    /// waiting reports errors of the back-end; called inside SimScope
    void wait_on(vecmem::abstract_event& e) {
        bool was = refused();
        try {
            e.wait();
            HostScope h;
            if (!was && refused())
                flag(PROP, "failure-not-reported",
                     "waiting succeeded although the back-end failed");
        } catch (const std::exception&) {
            HostScope h;
            faulted = true;
            count("probe:failed-wait");
            if (!any_fired())
                flag("C33", "wait-failed",
                     "waiting failed although nothing went wrong");
        }
    }
    /// Everything queued is done, events released.
    void sync() {
        st.drain();
        {
            SimScope s;
            for (auto& e : held) wait_on(*e);
            held.clear();
        }
        for (auto& f : grave) f();
        grave.clear();
    }
    View view(Slot& s) { return View(*s.buf); }

    /// Runs a library call. 0: fine, 1: back-end error, 2: length error,
    /// 3: bad_alloc
    template <class F>
    int call(F f) {
        ++st.call;
        st.in_call = true;
        bool was = refused();
        int r = 0;
        try {
            SimScope s;
            f();
        } catch (const std::length_error&) {
            r = 2;
        } catch (const std::bad_alloc&) {
            r = 3;
        } catch (const std::exception&) {
            r = 1;  // errors of the back-end: their type is its business
        }
        st.leave();
        if (!r && !was && refused())
            flag(PROP, "failure-not-reported",
                 "an operation succeeded although the back-end failed");
        if ((r == 1 || r == 3) && !any_fired())
            flag(PROP, "unexpected-failure",
                 "an operation failed (%d) although nothing went wrong", r);
        if (r == 1 || r == 3) {
            faulted = true;
            count("probe:failed-operation");
        }
        return r;
    }
    void after(vecmem::copy::event_type e, i64 policy) {
        if (!e) {
            flag("C33", "null-event", "an operation returned no event");
            return;
        }
        if (policy == 2 && !st.ooo) {
            count("probe:event-ignored");
            call([&] { e->ignore(); });
            SimScope s;
            e.reset();
        } else if (policy == 1) {
            count("probe:event-held");
            held.push_back(std::move(e));
        } else {
            {
                SimScope s;
                wait_on(*e);
                wait_on(*e);  // once more is harmless
                e.reset();
            }
            for (auto& q : st.q)
                if (q.call == st.call)
                    flag("C33", "event-does-not-cover",
                         "the event was waited for, but an operation of the "
                         "call is still pending");
            return;
        }
    }
    /// A call that returns no event has to have finished its work.
    void finished(const char* what) {
        for (auto& q : st.q)
            if (q.call == st.call)
                flag("C33", "returned-before-finished",
                     "%s returned while an operation that it had started was "
                     "still pending, and nobody can wait for it",
                     what);
    }
    /// in the out-of-order back-end, dependencies are the user's business
    void before() {
        if (st.ooo) sync();
    }
    /// the host is going to touch the slot directly
    void quiesce() { sync(); }

    // ------------------------------------------------------------ model --
    std::vector<Var> raw(Slot& s) {
        std::vector<Var> v;
        if (s.buf) {
            SimScope q;
            View w(*s.buf);
            HostScope h;
            v = W::vars(w);
        } else {
            // host containers: the view is only needed for a moment
            for (int i = 0;; ++i) {
                try {
                    SimScope q;
                    auto d = W::data(*s.host);
                    View w(d);
                    HostScope h;
                    v = W::vars(w);
                    break;
                } catch (const std::exception&) {
                    // an injected one; they are used up at some point
                    if (i > 8) throw;
                }
            }
        }
        return v;
    }
    void remodel(Slot& s, bool forget) {
        std::vector<Var> v = raw(s);
        for (std::size_t i = 0; i < v.size(); ++i)
            for (std::size_t j = 0; j < v[i].rows.size(); ++j) {
                Row& r = v[i].rows[j];
                r.size = r.sp ? *r.sp : r.cap;
                if (r.size > r.cap) {
                    flag(PROP, "size-beyond-capacity",
                         "a vector has size %u and capacity %u", r.size, r.cap);
                    abandon("corrupt size");
                }
                r.b.assign(r.cap * v[i].es, 0);
                if (r.cap) memcpy(r.b.data(), r.p, r.cap * v[i].es);
                r.known.assign(r.cap, forget ? 0 : 1);
            }
        s.vars = v;
    }
    void verify(Slot& s, const char* when) {
        std::vector<Var> v = raw(s);
        const char* P = PROP;
        if (v.size() != s.vars.size()) harness_error("variables");
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (v[i].rows.size() != s.vars[i].rows.size()) {
                flag(P, "wrong-outer-size",
                     "%s: the container has %zu inner vectors, expected %zu",
                     when, v[i].rows.size(), s.vars[i].rows.size());
                abandon("outer");
            }
            for (std::size_t j = 0; j < v[i].rows.size(); ++j) {
                Row &a = v[i].rows[j], &m = s.vars[i].rows[j];
                u32 sz = a.sp ? *a.sp : a.cap;
                if (a.cap != m.cap || sz != m.size) {
                    flag(P, "wrong-size",
                         "%s: variable %zu row %zu of a %s %s has size %u "
                         "capacity %u, expected %u / %u",
                         when, i, j, kname[s.region],
                         s.host ? "container" : "buffer", sz, a.cap, m.size,
                         m.cap);
                    abandon("size");
                }
                for (u32 k = 0; k < m.size; ++k)
                    if (m.known[k] && memcmp(a.p + k * v[i].es,
                                             m.b.data() + k * v[i].es,
                                             v[i].es)) {
                        flag(P, "wrong-content",
                             "%s: element %u of variable %zu row %zu of a %s "
                             "%s differs from what it should be",
                             when, k, i, j, kname[s.region],
                             s.host ? "container" : "buffer");
                        abandon("content");
                    }
            }
        }
    }
    void verify_all(const char* when) {
        for (auto& s : slots)
            if (s.host || s.buf) verify(s, when);
    }
    void destroy(Slot& s) {
        SimScope q;
        delete s.host;
        delete s.buf;
        s.host = nullptr;
        s.buf = nullptr;
    }
    void scribble(Slot& s, u64 seed) {
        // what a kernel or the user's code would do
        disarm();
        Rng r(seed);
        if (s.host) {
            Rng q(seed);
            Shape sh = W::shape(q);
            if (seed & 1) {
                try {
                    SimScope sc;
                    W::host_shape(*s.host, sh);
                } catch (const std::exception&) {
                    faulted = true;
                }
            }
        }
        std::vector<Var> v = raw(s);
        std::map<u32*, u32> done;
        for (auto& x : v)
            for (auto& y : x.rows) {
                if (y.sp) {
                    u32 n = r.chance(0.3) ? y.cap
                            : r.chance(0.2)
                                ? 0
                                : static_cast<u32>(r.below(y.cap + 1));
                    if (done.count(y.sp))
                        n = done[y.sp];
                    done[y.sp] = n;
                    *y.sp = n;
                }
                for (std::size_t k = 0; k < y.cap * x.es; ++k)
                    y.p[k] = static_cast<u8>(r.next());
            }
        remodel(s, false);
    }
    static constexpr bool strict_rest = !W::jag && !W::soa;
    /// target of a copy
    void model_copy(Slot& f, Slot& t) {
        for (std::size_t i = 0; i < t.vars.size(); ++i)
            for (std::size_t j = 0; j < t.vars[i].rows.size(); ++j) {
                Row& d = t.vars[i].rows[j];
                u32 n = 0;
                if (j < f.vars[i].rows.size()) {
                    Row& s = f.vars[i].rows[j];
                    n = s.size;
                    std::size_t es = t.vars[i].es;
                    for (u32 k = 0; k < n; ++k) {
                        memcpy(&d.b[k * es], &s.b[k * es], es);
                        d.known[k] = s.known[k];
                    }
                }
                if (d.sp) d.size = n;
                if (!strict_rest || d.sp)
                    for (u32 k = n; k < d.cap; ++k) d.known[k] = 0;
            }
    }
    void forget(Slot& s) {
        for (auto& v : s.vars)
            for (auto& r : v.rows) r.known.assign(r.cap, 0);
    }
    /// 0 fits, 1 length error, 2 unspecified
    int fits(Slot& f, Slot& t) {
        for (std::size_t i = 0; i < f.vars.size(); ++i) {
            auto &a = f.vars[i].rows, &b = t.vars[i].rows;
            if (f.vars[i].kind == 2) {
                if (a.empty() && !b.empty()) return 2;
                if (a.size() != b.size()) return 1;
            }
        }
        for (std::size_t i = 0; i < f.vars.size(); ++i) {
            auto &a = f.vars[i].rows, &b = t.vars[i].rows;
            for (std::size_t j = 0; j < a.size(); ++j)
                if (a[j].size > b[j].cap) return 1;
        }
        return 0;
    }
    vecmem::copy::type::copy_type hint(const Slot& f, const Slot& t, i64 a,
                                       u64 rnd) {
        if (!(a & 1)) return vecmem::copy::type::unknown;
        bool fd = f.region == 1 || (f.region == 2 && (rnd & 1));
        bool td = t.region == 1 || (t.region == 2 && (rnd & 2));
        using T = vecmem::copy::type;
        count("probe:typed-copy");
        return fd ? (td ? T::device_to_device : T::device_to_host)
                  : (td ? T::host_to_device : T::host_to_host);
    }
    const vecmem::copy& pick(i64 a, std::initializer_list<const Slot*> l) {
        bool ok = a & 2;
        for (const Slot* s : l)
            if (s->region == 1) ok = false;
        if (!ok) return dev;
        // a synchronous host copy: the user has to wait first
        sync();
        count("probe:host-copy");
        return hst;
    }

    // ---------------------------------------------------------- actions --
    void act_new(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        sync();
        destroy(s);
        s = Slot();
        Rng r(static_cast<u64>(o.a[3]));
        Shape sh = W::shape(r);
        if (o.a[5] == 1)  // a bit more room than others
            for (auto& x : sh) x += 1;
        if (o.a[5] == 2)
            for (auto& x : sh)
                if (x) x -= 1;
        int k = static_cast<int>(o.a[1]);
        try {
            if (k == 0) {
                SimScope q;
                s.host = W::make_host(mr[0]);
                W::host_shape(*s.host, sh);
            } else {
                s.region = k == 1 ? 0 : k == 2 ? 1 : k == 3 ? 2 : 1;
                s.resizable = o.a[2];
                SimScope q;
                s.buf = W::make_buf(sh, mr[s.region],
                                    s.region == 1   ? &mr[0]
                                    : o.a[4] & 1024 ? nullptr
                                    : s.region == 2 ? &mr[0]
                                                    : nullptr,
                                    s.resizable);
            }
        } catch (const std::exception&) {
            if (!any_fired())
                flag(PROP, "unexpected-failure", "creation failed");
            faulted = true;
            destroy(s);
            s = Slot();
            {
                disarm();
                SimScope q;
                s.host = W::make_host(mr[0]);
            }
            remodel(s, false);
            return;
        }
        disarm();
        if (s.buf) {
            // fill with recognisable garbage, then set up
            std::vector<Var> v = raw(s);
            Rng g(static_cast<u64>(o.a[4]));
            for (auto& x : v)
                for (auto& y : x.rows) {
                    for (std::size_t b = 0; b < y.cap * x.es; ++b)
                        y.p[b] = static_cast<u8>(g.next());
                    if (y.sp) *y.sp = 0xdeadbeef;
                }
            do_setup(s, 0);
        } else {
            std::vector<Var> v = raw(s);
            Rng g(static_cast<u64>(o.a[4]));
            for (auto& x : v)
                for (auto& y : x.rows)
                    for (std::size_t b = 0; b < y.cap * x.es; ++b)
                        y.p[b] = static_cast<u8>(g.next());
        }
        remodel(s, false);
    }
    int do_setup(Slot& s, i64 policy) {
        const char* keep = PROP;
        PROP = "C34";
        vecmem::copy::event_type e;
        View w = view(s);
        int r = call([&] { e = dev.setup(w); });
        if (r == 2) {
            flag("C34", "unexpected-failure", "setup threw a length error");
            abandon("setup");
        }
        if (!r) {
            after(std::move(e), policy);
            if (policy == 0) {
                for (auto& v : raw(s))
                    for (auto& y : v.rows)
                        if (y.sp && *y.sp != 0)
                            flag("C34", "size-not-reset",
                                 "a resizable vector of capacity %u has size "
                                 "%u after setup",
                                 y.cap, *y.sp);
                if (!W::layouts(w))
                    flag("C34", "layout-not-copied",
                         "the description of the inner vectors in device "
                         "memory is not usable after setup");
            }
        }
        PROP = keep;
        return r;
    }
    void act_copy(const Op& o) {
        std::size_t i = static_cast<std::size_t>(o.a[0]) % slots.size(),
                    j = static_cast<std::size_t>(o.a[1]) % slots.size();
        if (i == j) return;
        Slot &f = slots[i], &t = slots[j];
        int fit = fits(f, t);
        if (fit == 2) return;
        for (int attempt = 0; attempt < 2; ++attempt) {
            before();
            const vecmem::copy& cp = pick(o.a[2], {&f, &t});
            auto h = hint(f, t, o.a[2], static_cast<u64>(o.a[4]));
            vecmem::copy::event_type e;
            int r;
            if (f.host && t.host) {
                auto run2 = [&](auto& fd, auto& td) {
                    return call([&] { e = cp(fd, View(td), h); });
                };
                r = with_data(*f.host, [&](auto& fd) {
                    return with_data(*t.host,
                                     [&](auto& td) { return run2(fd, td); });
                });
            } else if (f.host) {
                r = with_data(*f.host, [&](auto& fd) {
                    View w(fd);
                    View tw = view(t);
                    return call([&] { e = cp(w, tw, h); });
                });
            } else if (t.host) {
                r = with_data(*t.host, [&](auto& td) {
                    View w = view(f);
                    View tw(td);
                    return call([&] { e = cp(w, tw, h); });
                });
            } else {
                View w = view(f), tw = view(t);
                r = call([&] { e = cp(w, tw, h); });
            }
            vsim::log("copy %zu -> %zu: result %d", i, j, r);
            if (r == 0 && fit == 1) {
                flag(PROP, "overfull-copy-accepted",
                     "a copy that does not fit into its target was accepted");
                abandon("overfull");
            }
            if (r == 2 && fit == 0) {
                flag(PROP, "fitting-copy-refused",
                     "a copy that fits into its target was refused");
                abandon("refused");
            }
            if (r == 0) {
                if (attempt) count("probe:retry-succeeded");
                after(std::move(e), o.a[3]);
                model_copy(f, t);
                if (moved_something(f)) nontrivial();
                return;
            }
            if (r == 2) {
                count("probe:refused-copy");
                if (W::soa) {
                    sync();
                    remodel_after_failure(f, t);
                }
                return;
            }
            // failed half way: the target is unspecified, but sane
            sync();
            disarm();
            remodel_after_failure(f, t);
            if (o.a[5] == 0) return;
        }
    }
    bool moved_something(Slot& f) {
        for (auto& v : f.vars)
            for (auto& r : v.rows)
                if (v.kind && r.size) return true;
        return false;
    }
    void remodel_after_failure(Slot& f, Slot& t) {
        std::vector<Var> old = t.vars;
        const char* keep = PROP;
        PROP = "C37";
        remodel(t, true);
        for (std::size_t i = 0; i < old.size(); ++i)
            for (std::size_t j = 0; j < t.vars[i].rows.size(); ++j) {
                Row& n = t.vars[i].rows[j];
                if (!n.sp || j >= old[i].rows.size()) continue;
                u32 src = j < f.vars[i].rows.size() ? f.vars[i].rows[j].size : 0;
                if (n.size != old[i].rows[j].size && n.size != src && n.size)
                    flag("C37", "size-corrupted",
                         "after a failed copy a vector has size %u, it had %u "
                         "and the source has %u",
                         n.size, old[i].rows[j].size, src);
            }
        PROP = keep;
    }
    template <class F>
    int with_data(Host& h, F f) {
        using D = std::decay_t<decltype(W::data(h))>;
        D* d = nullptr;
        try {
            SimScope s;
            d = new D(W::data(h));
        } catch (const std::exception&) {
            faulted = true;
            return 3;
        }
        int r = f(*d);
        grave.push_back([d] {
            SimScope s;
            delete d;
        });
        return r;
    }
    void act_copyhost(const Op& o) {
        std::size_t i = static_cast<std::size_t>(o.a[0]) % slots.size(),
                    j = static_cast<std::size_t>(o.a[1]) % slots.size();
        Slot &f = slots[i], &t = slots[j];
        if (i == j || !t.host || !f.buf) return;
        for (int attempt = 0; attempt < 2; ++attempt) {
            sync();  // the host is going to resize the container
            const vecmem::copy& cp = pick(o.a[2], {&f, &t});
            auto h = f.region == 1 ? vecmem::copy::type::device_to_host
                                   : vecmem::copy::type::host_to_host;
            if (!(o.a[2] & 1)) h = vecmem::copy::type::unknown;
            vecmem::copy::event_type e;
            View w = view(f);
            int r = call([&] { e = cp(w, *t.host, h); });
            vsim::log("copy %zu -> host %zu: result %d", i, j, r);
            if (r == 2) {
                flag(PROP, "fitting-copy-refused",
                     "a copy into a host container was refused");
                abandon("refused");
            }
            if (r == 0) {
                // the container has the source's shape
                std::vector<Var> v = raw(t);
                for (std::size_t a = 0; a < v.size(); ++a) {
                    if (v[a].rows.size() != f.vars[a].rows.size()) {
                        flag(PROP, "wrong-outer-size",
                             "the host container got %zu inner vectors, "
                             "expected %zu",
                             v[a].rows.size(), f.vars[a].rows.size());
                        abandon("outer");
                    }
                    for (std::size_t b = 0; b < v[a].rows.size(); ++b) {
                        Row &x = v[a].rows[b], &y = f.vars[a].rows[b];
                        if (x.cap != y.size) {
                            flag(PROP, "wrong-size",
                                 "the host container got size %u, expected %u",
                                 x.cap, y.size);
                            abandon("size");
                        }
                        x.size = x.cap;
                        x.b.assign(y.b.begin(),
                                   y.b.begin() +
                                       static_cast<long>(y.size * v[a].es));
                        x.known.assign(y.known.begin(),
                                       y.known.begin() + y.size);
                    }
                }
                t.vars = v;
                after(std::move(e), o.a[3]);
                if (moved_something(f)) nontrivial();
                return;
            }
            // The variables of an SoA container may have different sizes now;
            // either the user tries again, or makes it consistent.
            sync();
            disarm();
            if (o.a[5] == 0 || attempt) {
                Rng q(static_cast<u64>(o.a[4]));
                Shape sh = W::shape(q);
                SimScope sc;
                W::host_shape(*t.host, sh);
                HostScope hs;
                remodel(t, true);
                return;
            }
        }
    }
    void act_to(const Op& o) {
        if constexpr (W::has_to) {
            std::size_t i = static_cast<std::size_t>(o.a[0]) % slots.size(),
                        j = static_cast<std::size_t>(o.a[1]) % slots.size();
            Slot& f = slots[i];
            if (i == j || !f.buf) return;
            sync();
            const char* keep = PROP;
            PROP = "C36";
            int reg = o.a[5] % 3;
            Slot n;
            n.region = reg;
            Slot probe;
            probe.region = reg;
            const vecmem::copy& cp = pick(o.a[2], {&f, &probe});
            auto h = hint(f, probe, o.a[2], static_cast<u64>(o.a[4]));
            View w = view(f);
            for (int attempt = 0; attempt < 2; ++attempt) {
                int r = call([&] {
                    if constexpr (W::jag)
                        n.buf = new Buf(cp.to(
                            w, mr[reg], reg == 1 ? &mr[0] : nullptr, h));
                    else
                        n.buf = new Buf(cp.to(w, mr[reg], h));
                });
                vsim::log("to %zu -> %zu: result %d", i, j, r);
                if (r == 2) {
                    flag("C36", "unexpected-failure", "to() threw");
                    abandon("to");
                }
                if (r) {
                    sync();
                    disarm();
                    if (o.a[5] < 2) {
                        PROP = keep;
                        return;
                    }
                    continue;
                }
                finished("to()");
                for (auto& v : raw(n))
                    for (auto& y : v.rows)
                        if (st.pending_on(y.p, y.cap * v.es))
                            flag("C36", "returned-before-finished",
                                 "to() returned a buffer which is still being "
                                 "written");
                n.vars = raw(n);
                for (std::size_t a = 0; a < n.vars.size(); ++a) {
                    auto& y = n.vars[a].rows;
                    if (y.size() != f.vars[a].rows.size()) {
                        flag("C36", "wrong-outer-size",
                             "the new buffer has %zu inner vectors, expected "
                             "%zu",
                             y.size(), f.vars[a].rows.size());
                        abandon("outer");
                    }
                    for (std::size_t b = 0; b < y.size(); ++b) {
                        Row& s = f.vars[a].rows[b];
                        if (y[b].cap < s.size || y[b].sp) {
                            flag("C36", "wrong-size",
                                 "the new buffer has capacity %u for %u "
                                 "elements",
                                 y[b].cap, s.size);
                            abandon("size");
                        }
                        y[b].size = y[b].cap;
                        y[b].b.assign(y[b].cap * n.vars[a].es, 0);
                        y[b].known.assign(y[b].cap, 0);
                        if (y[b].cap != s.size)
                            flag("C36", "wrong-size",
                                 "the new buffer has size %u, expected %u",
                                 y[b].cap, s.size);
                        for (u32 k = 0; k < s.size; ++k) {
                            memcpy(&y[b].b[k * n.vars[a].es],
                                   &s.b[k * n.vars[a].es], n.vars[a].es);
                            y[b].known[k] = s.known[k];
                        }
                    }
                }
                if (!W::layouts(view(n)))
                    flag("C36", "layout-not-copied",
                         "the description of the inner vectors is not usable "
                         "on the device");
                destroy(slots[j]);
                slots[j] = n;
                if (moved_something(f)) nontrivial();
                verify(slots[j], "after to()");
                PROP = keep;
                return;
            }
            PROP = keep;
        } else {
            (void)o;
        }
    }
    void act_memset(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        const char* keep = PROP;
        PROP = "C34";
        int val = static_cast<int>(o.a[4] % 600) - 300;
        for (int attempt = 0; attempt < 2; ++attempt) {
            before();
            const vecmem::copy& cp = pick(o.a[2], {&s});
            vecmem::copy::event_type e;
            int r;
            if (s.host) {
                r = with_data(*s.host, [&](auto& d) {
                    View w(d);
                    return call([&] { e = cp.memset(w, val); });
                });
            } else {
                View w = view(s);
                r = call([&] { e = cp.memset(w, val); });
            }
            vsim::log("memset -> %d", r);
            if (r == 2) {
                flag("C34", "unexpected-failure", "memset threw");
                abandon("memset");
            }
            if (r == 0) {
                after(std::move(e), o.a[3]);
                for (auto& v : s.vars)
                    for (auto& y : v.rows) {
                        y.b.assign(y.b.size(), static_cast<u8>(val));
                        y.known.assign(y.known.size(), 1);
                    }
                nontrivial();
                // waited for: its effect is there, whatever comes later
                if (o.a[3] == 0 && st.q.empty()) {
                    disarm();
                    verify(s, "after memset");
                }
                break;
            }
            sync();
            disarm();
            forget(s);
            if (o.a[5] == 0) break;
        }
        PROP = keep;
    }
    void act_setup(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        if (!s.buf) return;
        before();
        int r = do_setup(s, o.a[3]);
        if (r) {
            sync();
            disarm();
            do_setup(s, 0);
        }
        for (auto& v : s.vars)
            for (auto& y : v.rows)
                if (y.sp) y.size = 0;
    }
    void act_sizes(const Op& o) {
        Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
        if (!s.buf) return;
        const char* keep = PROP;
        PROP = "C36";
        before();
        const vecmem::copy& cp = pick(o.a[2], {&s});
        View w = view(s);
        if constexpr (W::jag && !W::soa) {
            std::vector<u32> got;
            int r = call([&] {
                auto g = cp.get_sizes(w);
                HostScope h;
                got.assign(g.begin(), g.end());
            });
            if (!r) {
                finished("get_sizes()");
                auto& y = s.vars[0].rows;
                bool ok = got.size() == y.size();
                for (std::size_t i = 0; ok && i < y.size(); ++i)
                    ok = got[i] == y[i].size;
                if (!ok)
                    flag("C36", "wrong-sizes",
                         "get_sizes() does not return the inner sizes");
                nontrivial();
            }
        } else {
            u32 got = 0;
            int r = call([&] { got = static_cast<u32>(cp.get_size(w)); });
            u32 want = s.vars[1 % s.vars.size()].rows.empty()
                           ? 0
                           : s.vars[1 % s.vars.size()].rows[0].size;
            if (W::soa && W::jag)
                want = static_cast<u32>(s.vars[1].rows.size());
            if (!r) {
                finished("get_size()");
                if (got != want)
                    flag("C36", "wrong-size",
                         "get_size() returned %u, expected %u", got, want);
                nontrivial();
            }
        }
        sync();
        PROP = keep;
    }
    void act_setsizes(const Op& o) {
        if constexpr (W::jag && !W::soa) {
            Slot& s = slots[static_cast<std::size_t>(o.a[0]) % slots.size()];
            if (!s.buf) return;
            const char* keep = PROP;
            PROP = "C36";
            auto& rows = s.vars[0].rows;
            Rng r(static_cast<u64>(o.a[4]));
            std::vector<u32> want;
            bool bad = false;
            for (auto& y : rows) {
                u32 n = static_cast<u32>(r.below(y.cap + 1));
                if (r.chance(0.06)) {
                    n = y.cap + 1 + static_cast<u32>(r.below(3));
                    bad = true;
                }
                want.push_back(n);
            }
            if (r.chance(0.06)) {
                want.push_back(0);
                bad = true;
            }
            before();
            std::vector<u32>* sz;
            {
                disarm();
                SimScope q;
                sz = new std::vector<u32>(want);
            }
            arm(o);
            const vecmem::copy& cp = pick(o.a[2], {&s});
            vecmem::copy::event_type e;
            View w = view(s);
            int res = call([&] { e = cp.set_sizes(*sz, w); });
            if (res == 0 && bad) {
                flag("C36", "bad-sizes-accepted",
                     "sizes that do not fit were accepted");
                abandon("sizes");
            }
            if (res == 2 && !bad) {
                flag("C36", "good-sizes-refused", "sizes that fit were refused");
                abandon("sizes");
            }
            if (res == 0) {
                after(std::move(e), o.a[3]);
                if (s.resizable)
                    for (std::size_t i = 0; i < rows.size(); ++i) {
                        // elements that became visible hold what was there
                        if (want[i] > rows[i].size)
                            for (u32 k = rows[i].size; k < want[i]; ++k)
                                rows[i].known[k] = 0;
                        rows[i].size = want[i];
                    }
                nontrivial();
                if (o.a[3] == 0 && st.q.empty()) {
                    disarm();
                    verify(s, "after set_sizes()");
                }
            } else {
                sync();
                disarm();
                std::vector<Var> v = raw(s);
                for (std::size_t i = 0; i < rows.size(); ++i) {
                    u32* sp = v[0].rows[i].sp;
                    if (!sp) continue;
                    if (*sp != rows[i].size && (res == 2 || *sp != want[i]))
                        flag("C37", "size-corrupted",
                             "after failing to set the sizes a vector has size "
                             "%u, it had %u and should have got %u",
                             *sp, rows[i].size, want[i]);
                }
                remodel(s, false);
            }
            grave.push_back([sz] {
                SimScope q;
                delete sz;
            });
            PROP = keep;
        } else {
            (void)o;
        }
    }
    void finish() {
        sync();
        verify_all("at the end");
        u64 h = 1469598103934665603ull;
        for (auto& s : slots)
            for (auto& v : s.vars)
                for (auto& r : v.rows)
                    h = (h ^ (r.size * 977 + r.cap * 31 +
                              static_cast<u64>(s.region))) *
                        0x100000001b3ull;
        state(h + st.executed);
        for (auto& s : slots) destroy(s);
    }
};

template <class W>
void run_w(const Case& c) {
    PROP = W::prop;
    ALL = c.prop == "C42" ? "C42" : nullptr;
    {
        World<W> w(c);
        for (auto& s : w.slots) {
            SimScope q;
            s.host = W::make_host(w.mr[0]);
        }
        for (auto& s : w.slots) w.remodel(s, false);
        for (const Op& o : c.ops) {
            arm(o);
            switch (o.kind) {
                case O_NEW:
                    w.act_new(o);
                    break;
                case O_COPY:
                    w.act_copy(o);
                    break;
                case O_COPYHOST:
                    w.act_copyhost(o);
                    break;
                case O_TO:
                    w.act_to(o);
                    break;
                case O_MEMSET:
                    w.act_memset(o);
                    break;
                case O_SETUP:
                    w.act_setup(o);
                    break;
                case O_SIZES:
                    w.act_sizes(o);
                    break;
                case O_SETSIZES:
                    w.act_setsizes(o);
                    break;
                case O_KERNEL: {
                    typename World<W>::Slot& s = w.slots[static_cast<std::size_t>(o.a[0]) %
                                           w.slots.size()];
                    w.quiesce();
                    w.verify(s, "before it is modified");
                    w.scribble(s, static_cast<u64>(o.a[4]));
                    break;
                }
                default:
                    w.sync();
                    w.verify_all("after synchronisation");
            }
            disarm();
        }
        w.finish();
        w.be.clear();
        if (w.st.events || !w.be.run.events.empty())
            flag("C33", "event-leak", "%ld events were never released",
                 w.st.events + static_cast<long>(w.be.run.events.size()));
        if (w.be.run.cur() != 0)
            flag("C40", "device-changed", "the current device was changed");
        const char* P = w.faulted ? "C37" : PROP;
        if (heap_live() || region_live(1) || region_live(2))
            flag(P, "memory-leak",
                 "%zu host, %zu device, %zu managed blocks leaked%s",
                 heap_live(), region_live(1), region_live(2),
                 heap_describe().c_str());
    }
}

void run_1d(const Case& c) {
    switch (c.p("et")) {
        case 0:
            return run_w<W1<u32>>(c);
        case 1:
            return run_w<W1<u8>>(c);
        case 2:
            return run_w<W1<Big>>(c);
        default:
            return run_w<W1<u64>>(c);
    }
}
void run_jag(const Case& c) {
    if (c.p("et") & 1)
        run_w<WJ<u8>>(c);
    else
        run_w<WJ<Big>>(c);
}
void run_soa(const Case& c) {
    switch (c.p("et") & 3) {
        case 1:
            return run_w<WS<soa_a, false>>(c);
        case 3:
            return run_w<WS<soa_e, false>>(c);
        default:
            return run_w<WS<soa_b, true>>(c);
    }
}
#define DESC(what)                                                           \
    "random operations (copy, copy into host containers, to, memset, setup, " \
    "sizes, kernel writes) between 2-5 " what                                 \
    " in host, device and managed memory on an asynchronous back-end (in "    \
    "order or out of order), events waited for, held or ignored, back-end "   \
    "and allocation failures; non-trivial: data was moved or set"
const Harness H1 = {"copy1d", gen, run_1d, kinds, O_N, DESC("1D vectors")};
const Harness HJ = {"copyjag", gen, run_jag, kinds, O_N, DESC("jagged vectors")};
const Harness HS = {"copysoa", gen, run_soa, kinds, O_N,
                    DESC("SoA containers")};
Registrar r1(H1), rj(HJ), rs(HS);
}  // namespace
