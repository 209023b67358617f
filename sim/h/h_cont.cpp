// Buffers, host containers and the static vector.  Properties C50-C52.
#include "common.hpp"

#include "vecmem/containers/array.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/jagged_vector_data.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/details/resize_jagged_vector.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/static_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/edm/buffer.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/edm/data.hpp"
#include "vecmem/edm/device.hpp"
#include "vecmem/edm/host.hpp"

using namespace hx;

namespace {
using u16 = std::uint16_t;
using vecmem::data::buffer_type;
using uptr = std::uintptr_t;
uptr addr(const volatile void* p) { return reinterpret_cast<uptr>(p); }

/// Real memory of a region, aligned as asked for and not more.
class Exact : public vecmem::memory_resource {
public:
    struct Blk {
        std::size_t n, al, off;
    };
    int region;
    const char* prop;
    std::map<uptr, Blk> live;
    Exact(int r, const char* p) : region(r), prop(p) {}
    bool inside(uptr p, std::size_t n) const {
        auto it = live.upper_bound(p);
        if (it == live.begin()) return false;
        --it;
        return p - it->first <= it->second.n &&
               n <= it->second.n - (p - it->first);
    }

private:
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        if (fire(F_UP) || n > (1u << 26)) throw std::bad_alloc();
        const std::size_t off = al;
        void* p = region_alloc(region, (n ? n : 1) + off, al * 2);
        if (!p) throw std::bad_alloc();
        p = static_cast<u8*>(p) + off;
        ::memset(p, 0xA5, n);
        live[addr(p)] = {n, al, off};
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        HostScope h;
        auto it = live.find(addr(p));
        if (it == live.end()) {
            fail(prop, "returned-unknown-block",
                 "memory was returned that is not allocated");
            abandon("unknown block");
        }
        if (it->second.n != n || it->second.al != al)
            fail(prop, "returned-with-wrong-arguments",
                 "a block that was allocated with %zu/%zu was returned with "
                 "%zu/%zu",
                 it->second.n, it->second.al, n, al);
        region_free(region, static_cast<u8*>(p) - it->second.off);
        live.erase(it);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override {
        return this == &o;
    }
};

enum Res { OK, BAD, USER, LEN, RANGE, OTHER };
const char* const rname[] = {"no exception", "std::bad_alloc",
                             "the user's exception", "std::length_error",
                             "std::out_of_range", "another exception"};
template <class F>
Res attempt(F&& f) {
    SimScope s;
    try {
        f();
        return OK;
    } catch (const std::bad_alloc&) {
        return BAD;
    } catch (const UserError&) {
        return USER;
    } catch (const std::length_error&) {
        return LEN;
    } catch (const std::out_of_range&) {
        return RANGE;
    } catch (const std::exception&) {
        return OTHER;
    }
}

struct B3 {
    u8 b[3];
};
template <std::size_t A>
struct alignas(A) Al {
    u8 b[A];
};
using A32 = Al<32>;
using A64 = Al<64>;
using A256 = Al<256>;

namespace edm = vecmem::edm;
template <class T>
using sca = edm::type::scalar<T>;
template <class T>
using vec = edm::type::vector<T>;
template <class T>
using jag = edm::type::jagged_vector<T>;

template <class T>
struct is_jv : std::false_type {};
template <class T>
struct is_jv<vecmem::data::jagged_vector_view<T>> : std::true_type {};

// =================================================================== C50 ===
namespace bufs {
enum OpK { MAKE, DEFAULT, MOVE, ASSIGN, DROP, N };
const char* const kinds[] = {"MAKE", "MAKE_DEFAULT", "MOVE_CONSTRUCT",
                             "MOVE_ASSIGN", "DROP"};
constexpr int NTYPES = 21;

void gen(Rng& r, Case& c) {
    bool faults = r.chance(0.4);
    u64 n = 2 + r.below(14);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(r.pick_w({10, 1, 4, 5, 3}));
        o.a[0] = static_cast<i64>(r.below(NTYPES));
        if (r.chance(0.5)) o.a[0] %= 3;  // make assignments more likely
        o.a[1] = static_cast<i64>(r.next() >> 2);  // slots
        o.a[2] = static_cast<i64>(r.below(2));     // resizable?
        o.a[3] = static_cast<i64>(r.below(3));     // memory
        o.a[4] = static_cast<i64>(r.next() >> 2);  // shape
        o.a[5] = static_cast<i64>(r.next() >> 2);
        if (faults && r.chance(0.3)) {
            Fault f;
            f.site = r.chance(0.7) ? F_UP : F_NEW;
            f.nth = static_cast<int>(r.below(3));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

struct Reg {
    uptr p;
    std::size_t n, al;
    int what;   ///< 0 size, 1 layout, 2 host layout, 3 payload
    bool host;  ///< in the host resource
    bool operator==(const Reg& o) const {
        return p == o.p && n == o.n && al == o.al && what == o.what;
    }
};
const char* const wname[] = {"size variable", "layout", "host layout",
                             "payload"};
struct Want {
    int mem = 0;
    bool resizable = false;
    std::vector<std::size_t> caps;  ///< of a jagged container
    std::size_t cap = 0;
    bool empty = true;
};
using Regs = std::vector<Reg>;

template <class T>
void one(Regs& out, const vecmem::data::vector_view<T>& v, std::size_t cap,
         bool resizable, const char* what) {
    if (v.capacity() != cap) {
        fail("C50", "wrong-capacity", "%s: capacity %u, expected %zu", what,
             static_cast<unsigned>(v.capacity()), cap);
        abandon("capacity");
    }
    if (resizable && cap && !v.size_ptr())
        fail("C50", "wrong-kind", "%s: a resizable buffer has no size variable",
             what);
    if (!resizable && v.size_ptr())
        fail("C50", "wrong-kind",
             "%s: a buffer of fixed size has a size variable", what);
    if (!resizable && v.size() != cap)
        fail("C50", "wrong-size", "%s: size %u, expected %zu", what,
             static_cast<unsigned>(v.size()), cap);
    if (v.size_ptr()) {
        Reg q{addr(v.size_ptr()), sizeof(*v.size_ptr()),
              alignof(std::remove_reference_t<decltype(*v.size_ptr())>), 0,
              false};
        if (std::find(out.begin(), out.end(), q) == out.end() ||
            what[0] == 'i')  // the SoA size is shared, inner sizes are not
            out.push_back(q);
    }
    if (cap) out.push_back({addr(v.ptr()), cap * sizeof(T), alignof(T), 3, false});
}
template <class T>
void jagged(Regs& out, const vecmem::data::jagged_vector_view<T>& v,
            const Want& w) {
    using VV = vecmem::data::vector_view<T>;
    std::size_t n = w.caps.size();
    if (v.size() != n || v.capacity() != n) {
        fail("C50", "wrong-size", "%zu inner vectors, expected %zu",
             static_cast<std::size_t>(v.size()), n);
        abandon("size");
    }
    if (!n) return;
    out.push_back({addr(v.ptr()), n * sizeof(VV), alignof(VV), 1, false});
    if (w.mem) {
        if (addr(v.ptr()) == addr(v.host_ptr()))
            fail("C50", "wrong-resource",
                 "there is no separate host-accessible layout");
        out.push_back({addr(v.host_ptr()), n * sizeof(VV), alignof(VV), 2, true});
    } else if (addr(v.ptr()) != addr(v.host_ptr())) {
        fail("C50", "wrong-resource",
             "the layout of host-accessible memory is duplicated");
    }
    if (!range_live(v.host_ptr(), n * sizeof(VV))) {
        fail("C50", "outside-of-allocation", "layout not in allocated memory");
        abandon("layout");
    }
    for (std::size_t i = 0; i < n; ++i)
        one(out, v.host_ptr()[i], w.caps[i], w.resizable, "inner vector");
}

struct Base {
    virtual ~Base() = default;
    virtual Regs collect(const Want&) = 0;
    virtual Base* moved() = 0;
    virtual void assign(Base&) = 0;
};
template <class B>
struct Hold;
template <class T>
struct Hold<vecmem::data::vector_buffer<T>> : Base {
    using B = vecmem::data::vector_buffer<T>;
    B b;
    explicit Hold(B&& x) : b(std::move(x)) {}
    Regs collect(const Want& w) override {
        Regs r;
        auto& v = vecmem::get_data(b);
        one(r, v, w.cap, w.resizable, "vector");
        return r;
    }
    Base* moved() override { return new Hold(std::move(b)); }
    void assign(Base& o) override { b = std::move(static_cast<Hold&>(o).b); }
};
template <class T>
struct Hold<vecmem::data::jagged_vector_buffer<T>> : Base {
    using B = vecmem::data::jagged_vector_buffer<T>;
    B b;
    explicit Hold(B&& x) : b(std::move(x)) {}
    Regs collect(const Want& w) override {
        Regs r;
        jagged(r, vecmem::get_data(b), w);
        return r;
    }
    Base* moved() override { return new Hold(std::move(b)); }
    void assign(Base& o) override { b = std::move(static_cast<Hold&>(o).b); }
};
} // namespace bufs
/// A view of constants describes what the original one does (C53)
template <class S, std::size_t... I>
void edm_const_views(const edm::view<S>& v, std::index_sequence<I...>) {
    using CV = edm::view<edm::details::add_const_t<S>>;
    auto all = [](auto& x) {
        std::vector<uptr> r;
        auto mem = [&](auto& m) {
            r.push_back(addr(m.ptr()));
            r.push_back(m.size());
        };
        r.push_back(x.capacity());
        mem(x.size());
        mem(x.payload());
        mem(x.layout());
        mem(x.host_layout());
        auto var = [&](auto& y) {
            using Y = std::decay_t<decltype(y)>;
            if constexpr (std::is_pointer_v<Y>) {
                r.push_back(addr(y));
            } else {
                r.push_back(addr(y.ptr()));
                r.push_back(y.capacity());
                if constexpr (is_jv<Y>::value)
                    r.push_back(addr(y.host_ptr()));
                else
                    r.push_back(addr(y.size_ptr()));
            }
        };
        (var(x.template get<I>()), ...);
        return r;
    };
    std::vector<uptr> want = all(v), got, got2, got3;
    {
        SimScope s;
        CV a(v), b, d;
        b = v;
        d = a;
        HostScope h;
        got = all(a);
        got2 = all(b);
        got3 = all(d);
    }
    if (got != want || got2 != want || got3 != want)
        fail("C53", "view-conversion",
             "a SoA view of constants does not describe what the view that it "
             "was made of does");
}
namespace bufs {
template <class M>
void covered(const Regs& r, const M& m, int what, const char* name) {
    for (auto& x : r)
        if (x.what == what &&
            (x.p < addr(m.ptr()) || x.p + x.n > addr(m.ptr()) + m.size()))
            fail("C50", "bad-block-view",
                 "%s() does not cover the %s of every variable", name,
                 wname[what]);
}
template <class... V>
struct Hold<edm::buffer<edm::schema<V...>>> : Base {
    using S = edm::schema<V...>;
    using B = edm::buffer<S>;
    B b;
    explicit Hold(B&& x) : b(std::move(x)) {}
    template <std::size_t I>
    void var(Regs& r, const edm::view<S>& v, const Want& w) {
        using X = std::tuple_element_t<I, std::tuple<V...>>;
        constexpr bool has_jagged =
            std::disjunction_v<edm::type::details::is_jagged_vector<V>...>;
        if constexpr (edm::type::details::is_scalar_v<X>) {
            using T = typename X::type;
            r.push_back({addr(v.template get<I>()), sizeof(T), alignof(T), 3,
                         false});
        } else if constexpr (edm::type::details::is_jagged_vector_v<X>) {
            jagged(r, v.template get<I>(), w);
        } else {
            one(r, v.template get<I>(), w.cap, w.resizable && !has_jagged,
                "vector variable");
        }
    }
    template <std::size_t... I>
    void vars(Regs& r, const edm::view<S>& v, const Want& w,
              std::index_sequence<I...>) {
        (var<I>(r, v, w), ...);
    }
    Regs collect(const Want& w) override {
        Regs r;
        edm::view<S> v = vecmem::get_data(b);
        if (w.empty) return r;
        if (v.capacity() != w.cap) {
            fail("C50", "wrong-capacity", "capacity %u, expected %zu",
                 static_cast<unsigned>(v.capacity()), w.cap);
            abandon("capacity");
        }
        vars(r, v, w, std::index_sequence_for<V...>{});
        // block operations work on these
        covered(r, v.payload(), 3, "payload");
        covered(r, v.layout(), 1, "layout");
        covered(r, v.host_layout(), w.mem ? 2 : 1, "host_layout");
        covered(r, v.size(), 0, "size");
        bool any = false;
        for (auto& x : r) any |= x.what == 1;
        if (any && v.layout().size() != v.host_layout().size())
            fail("C50", "bad-block-view",
                 "layout() and host_layout() differ in size");
        // each layout can be transferred as one block
        std::vector<uptr> a, h;
        for (auto& x : r) {
            if (x.what == 1) a.push_back(x.p - addr(v.layout().ptr()));
            if (x.what == (w.mem ? 2 : 1))
                h.push_back(x.p - addr(v.host_layout().ptr()));
        }
        if (a != h)
            fail("C50", "bad-block-view",
                 "the layouts for host and device are arranged differently");
        // ... without touching anything else
        auto clear = [&](auto& m, int what, const char* name) {
            uptr lo = addr(m.ptr()), hi = lo + m.size();
            for (auto& x : r)
                if (x.what != what && !(what == 2 && x.what == 1) &&
                    !(what == 1 && x.what == 2) && x.p < hi && lo < x.p + x.n)
                    fail("C50", "bad-block-view", "%s() covers a %s", name,
                         wname[x.what]);
        };
        clear(v.payload(), 3, "payload");
        clear(v.layout(), 1, "layout");
        clear(v.size(), 0, "size");
        edm_const_views<S>(v, std::index_sequence_for<V...>());
        return r;
    }
    Base* moved() override { return new Hold(std::move(b)); }
    void assign(Base& o) override { b = std::move(static_cast<Hold&>(o).b); }
};

template <class S>
using EB = edm::buffer<S>;
using S0 = edm::schema<sca<u8>, vec<u32>, vec<A64>, sca<A32>>;
using S1 = edm::schema<vec<u8>, vec<double>>;
using S2 = edm::schema<sca<u8>, vec<B3>, jag<u16>, jag<A64>>;
using S3 = edm::schema<jag<u8>>;
using S4 = edm::schema<jag<A64>, vec<u64>, sca<u32>>;
using S5 = edm::schema<jag<u16>, vec<u8>, jag<u8>, vec<B3>>;
using S6 = edm::schema<vec<A256>, sca<B3>, vec<u16>>;
// (strictly and loosely aligned variables take turns)
using S7 = edm::schema<vec<u8>, vec<A64>, sca<u8>, vec<A64>, vec<u16>, sca<A64>>;
using S8 = edm::schema<jag<u8>, jag<A64>, sca<u8>, vec<A64>, jag<u16>, sca<A64>>;

struct Make {
    Exact &main, &host;
    Want& w;
    u64 seed;
    bool from_view;
    std::vector<std::size_t> caps;
    unsigned cap;
    buffer_type type;

    template <class T>
    Base* vector_() {
        w.cap = cap;
        SimScope s;
        vecmem::data::vector_buffer<T> b(cap, main, type);
        HostScope h;
        return new Hold<vecmem::data::vector_buffer<T>>(std::move(b));
    }
    template <class T>
    Base* jagged_() {
        if (!from_view && seed % 4 == 0)  // what its type can represent
            for (auto& x : caps) x = std::min<std::size_t>(x, 255);
        w.caps = caps;
        using B = vecmem::data::jagged_vector_buffer<T>;
        vecmem::memory_resource* hp = w.mem ? &host : nullptr;
        if (from_view) {
            // the shape of existing data
            std::vector<vecmem::data::vector_view<T>> inner;
            std::vector<unsigned> sizes(caps.begin(), caps.end());
            for (std::size_t k = 0; k < caps.size(); ++k)
                if ((seed >> (k % 24)) & 1)  // a resizable one, maybe not full
                    inner.emplace_back(
                        sizes[k] + static_cast<unsigned>((seed + k) % 3),
                        &sizes[k], nullptr);
                else
                    inner.emplace_back(sizes[k], nullptr);
            vecmem::data::jagged_vector_view<T> v(caps.size(), inner.data());
            SimScope s;
            B b(v, main, hp, type);
            HostScope h;
            return new Hold<B>(std::move(b));
        }
        auto mk = [&](auto zero) -> Base* {
            std::vector<decltype(zero)> c(caps.begin(), caps.end());
            SimScope s;
            B b(c, main, hp, type);
            HostScope h;
            return new Hold<B>(std::move(b));
        };
        switch (seed % 4) {
            case 0:
                return mk(u8());
            case 1:
                return mk(u16());
            case 2:
                return mk(u32());
            default:
                return mk(std::size_t());
        }
    }
    template <class S>
    Base* edm1() {
        w.cap = cap;
        w.empty = false;
        w.mem = 0;
        SimScope s;
        EB<S> b(cap, main, type);
        HostScope h;
        return new Hold<EB<S>>(std::move(b));
    }
    template <class S>
    Base* edmj() {
        w.caps = caps;
        w.cap = caps.size();
        w.empty = false;
        vecmem::memory_resource* hp = w.mem ? &host : nullptr;
        auto mk = [&](auto zero) -> Base* {
            std::vector<decltype(zero)> c(caps.begin(), caps.end());
            SimScope s;
            EB<S> b(c, main, hp, type);
            HostScope h;
            return new Hold<EB<S>>(std::move(b));
        };
        switch (seed % 3) {
            case 0:
                return mk(u16());
            case 1:
                return mk(u32());
            default:
                return mk(std::size_t());
        }
    }
    template <class B>
    static Base* dflt() {
        SimScope s;
        B b;
        HostScope h;
        return new Hold<B>(std::move(b));
    }
    Base* make(i64 t) {
        switch (t) {
            case 0:
                return vector_<u32>();
            case 1:
                return jagged_<u64>();
            case 2:
                return edmj<S2>();
            case 3:
                return vector_<u8>();
            case 4:
                return vector_<B3>();
            case 5:
                return vector_<u64>();
            case 6:
                return vector_<A32>();
            case 7:
                return vector_<A64>();
            case 8:
                return vector_<A256>();
            case 9:
                return jagged_<u8>();
            case 10:
                return jagged_<B3>();
            case 11:
                return jagged_<A64>();
            case 12:
                return edm1<S0>();
            case 13:
                return edm1<S1>();
            case 14:
                return edmj<S3>();
            case 15:
                return edmj<S4>();
            case 16:
                return edmj<S5>();
            case 17:
                return edm1<S6>();
            case 18:
                return edm1<S7>();
            case 19:
                return edmj<S8>();
            default:
                return jagged_<A256>();
        }
    }
    static Base* make_default(i64 t) {
        switch (t) {
            case 0:
                return dflt<vecmem::data::vector_buffer<u32>>();
            case 1:
                return dflt<vecmem::data::jagged_vector_buffer<u64>>();
            default:
                return dflt<EB<S2>>();
        }
    }
};

struct Slot {
    std::unique_ptr<Base> b;
    Want w;
    i64 type = -1;
    Regs regs;
    std::set<uptr> blocks;
    bool valid = false;  ///< not moved from
};

void run(const Case& c) {
    // memory kinds: managed only / device + host / managed + host
    std::vector<std::unique_ptr<Exact>> res;
    for (int i = 0; i < 4; ++i)
        res.emplace_back(new Exact(i == 0 ? 2 : i == 1 ? 1 : i == 2 ? 2 : 0,
                                   "C50"));
    auto main_of = [&](int m) -> Exact& {
        return *res[static_cast<std::size_t>(m)];
    };
    Exact& host = *res[3];
    std::vector<Slot> slots(5);
    auto books = [&] {
        return heap_live() - host.live.size();
    };
    std::size_t heap0 = books();
    auto all_blocks = [&] {
        std::set<uptr> s;
        for (auto& r : res)
            for (auto& b : r->live) s.insert(b.first);
        return s;
    };
    auto verify = [&] {
        // every piece lies in its memory, aligned, and overlaps no other one
        struct Seen {
            uptr lo, hi;
            int what;
        };
        std::vector<Seen> seen;
        for (auto& s : slots) {
            if (!s.b || !s.valid) continue;
            Regs r = s.b->collect(s.w);
            if (!(r == s.regs)) {
                fail("C50", "changed-on-its-own",
                     "the layout of a buffer changed while others were used");
                abandon("changed");
            }
            for (auto& x : r) {
                Exact& m = x.host ? host : main_of(s.w.mem);
                if (!m.inside(x.p, x.n)) {
                    fail("C50", "outside-of-allocation",
                         "the %s (%zu bytes) is not inside memory of the right "
                         "resource",
                         wname[x.what], x.n);
                    abandon("outside");
                }
                if (x.p % x.al)
                    fail("C50", "misaligned",
                         "the %s should be aligned to %zu and is aligned to "
                         "%zu",
                         wname[x.what], x.al,
                         static_cast<std::size_t>(x.p & (~x.p + 1)));
                seen.push_back({x.p, x.p + x.n, x.what});
            }
        }
        std::sort(seen.begin(), seen.end(),
                  [](const Seen& a, const Seen& b) { return a.lo < b.lo; });
        for (std::size_t i = 1; i < seen.size(); ++i)
            if (seen[i].lo < seen[i - 1].hi)
                fail("C50", "overlap", "a %s and a %s share memory",
                     wname[seen[i - 1].what], wname[seen[i].what]);
    };
    auto drop = [&](Slot& s) {
        {
            SimScope q;
            Base* b = s.b.release();
            // the harness object itself is not part of the simulation
            b->~Base();
            HostScope h;
            ::operator delete(b);
        }
        auto now = all_blocks();
        for (uptr b : s.blocks)
            if (now.count(b)) {
                fail("C50", "not-released",
                     "a buffer was destroyed, and its memory is still "
                     "allocated");
                abandon("leak");
            }
        s = Slot();
    };
    u64 nbig = 0;
    for (auto& o : c.ops) {
        std::size_t i = static_cast<u64>(o.a[1]) % slots.size();
        if (o.kind == MAKE || o.kind == DEFAULT) {
            if (slots[i].b) drop(slots[i]);
            Slot s;
            s.type = o.a[0];
            Rng r(static_cast<u64>(o.a[4]));
            s.w.resizable = o.a[2];
            s.w.mem = static_cast<int>(o.a[3]);
            Make m{main_of(s.w.mem), host, s.w, static_cast<u64>(o.a[5]),
                   (o.a[5] & 64) != 0, {}, 0,
                   o.a[2] ? buffer_type::resizable : buffer_type::fixed_size};
            m.cap = static_cast<unsigned>(
                r.chance(0.15)   ? 0
                : r.chance(0.1)  ? 1
                : r.chance(0.04) ? r.below(u64(1) << r.range(5, 12))
                                 : r.below(20));
            std::size_t n = r.chance(0.12) ? 0 : 1 + r.below(7);
            u64 len = 12;
            if (r.chance(0.04)) {  // many of them, or long ones
                if (r.chance(0.5))
                    n = 1 + r.below(300);
                else
                    len = r.chance(0.2) && s.type != 20 ? 16000 : 2000;
            }
            for (std::size_t k = 0; k < n; ++k)
                m.caps.push_back(r.chance(0.35) ? 0 : r.below(len));
            if (s.type >= 12 && s.type != 14 && s.type != 15 && s.type != 16 &&
                s.type != 18 && s.w.mem == 2)
                s.w.mem = 0;
            // one dimensional containers only have one resource
            bool one_d = s.type == 0 || (s.type >= 3 && s.type <= 8) ||
                         s.type == 12 || s.type == 13 || s.type == 17;
            Exact& mm = main_of(s.w.mem);
            Make m2{mm, host, s.w, m.seed, m.from_view, m.caps, m.cap, m.type};
            auto before = all_blocks();
            std::size_t hl = books();
            arm(o);
            Base* b = nullptr;
            int mem = s.w.mem;
            Res q = attempt([&] {
                HostScope h;
                b = o.kind == DEFAULT ? Make::make_default(s.type = s.type % 3)
                                      : m2.make(s.type);
            });
            bool f = any_fired();
            disarm();
            s.w.mem = mem;
            if (one_d) s.w.mem = mem;
            if (o.kind == DEFAULT) {
                s.w = Want();
                s.w.mem = mem;
                if (s.type == 2) s.w.empty = true;
            }
            vsim::log("make type %d -> %s", static_cast<int>(s.type), rname[q]);
            auto now = all_blocks();
            if (q != OK) {
                if (q != BAD || !f)
                    fail("C50", "unexpected-failure",
                         "a buffer could not be made (%s)", rname[q]);
                if (now != before || books() != hl)
                    fail("C50", "not-released",
                         "a buffer could not be made, and its memory was not "
                         "returned");
                count("probe:construction-failed");
                verify();
                continue;
            }
            if (f)
                fail("C50", "failure-lost",
                     "an allocation failed, and nothing was reported");
            if (books() != hl)
                fail("C50", "not-released",
                     "a buffer keeps %zu blocks of bookkeeping memory",
                     books() - hl);
            for (uptr x : now)
                if (!before.count(x)) s.blocks.insert(x);
            s.b.reset(b);
            s.valid = true;
            s.regs = s.b->collect(s.w);
            if (s.regs.size() >= 3) ++nbig;
            slots[i] = std::move(s);
        } else if (o.kind == DROP) {
            if (slots[i].b) drop(slots[i]);
        } else {
            std::vector<std::size_t> src;
            for (std::size_t k = 0; k < slots.size(); ++k)
                if (k != i && slots[k].b && slots[k].valid &&
                    (o.kind == MOVE ? true
                                    : slots[i].b && slots[i].type == slots[k].type))
                    src.push_back(k);
            if (src.empty()) continue;
            Slot& s = slots[src[static_cast<u64>(o.a[4]) % src.size()]];
            Slot& d = slots[i];
            auto before = all_blocks();
            if (o.kind == MOVE) {
                if (d.b) drop(d);
                Base* b = nullptr;
                Res q = attempt([&] {
                    HostScope h;
                    b = s.b->moved();
                });
                if (q != OK) fail("C50", "unexpected-failure", "%s", rname[q]);
                d.b.reset(b);
            } else {
                Res q = attempt([&] { d.b->assign(*s.b); });
                if (q != OK) fail("C50", "unexpected-failure", "%s", rname[q]);
            }
            auto now = all_blocks();
            std::set<uptr> old = d.blocks;
            d.w = s.w;
            d.type = s.type;
            d.blocks = s.blocks;
            d.regs = s.regs;
            d.valid = true;
            s.valid = false;
            s.blocks.clear();
            for (uptr b : old)
                if (now.count(b)) s.blocks.insert(b);  // swapped: fine
            for (uptr b : d.blocks)
                if (!now.count(b)) {
                    fail("C50", "lost-memory",
                         "memory of a moved buffer was returned");
                    abandon("lost");
                }
            (void)before;
            count("probe:moves");
            vsim::log("move");
            if (o.a[2]) drop(s);
        }
        verify();
        std::size_t nl = 0;
        for (auto& s : slots) nl += s.b ? 1 + s.blocks.size() : 0;
        state(nl * 64 + static_cast<u64>(o.kind) * 8 + slots.size());
    }
    if (nbig >= 1) nontrivial();
    for (auto& s : slots)
        if (s.b) drop(s);
    if (!all_blocks().empty())
        fail("C50", "not-released",
             "%zu blocks are in use after the last buffer is gone",
             all_blocks().size());
    if (books() != heap0)
        fail("C50", "not-released", "bookkeeping memory was lost: %s",
             heap_describe().c_str());
}
const Harness H = {"buffers", gen, run, kinds, N,
                   "up to five vector, jagged and SoA buffers of 19 types on "
                   "three kinds of memory that is aligned exactly as asked, "
                   "made, moved, assigned and dropped with failing "
                   "allocations; non-trivial: a buffer with three or more "
                   "pieces"};
Registrar reg(H);
}  // namespace bufs

// =================================================================== C51 ===
namespace hostc {
enum OpK { RESIZE, RESERVE, SET, INNER, BADAT, VIEW, MOVE, JRESIZE, JPUSH, JINNER,
           JVIEW, ARRAY, SKEW, DATA, PLAIN, N };
const char* const kinds[] = {
    "RESIZE", "RESERVE", "SET", "RESIZE_INNER", "AT_BAD_INDEX", "GET_DATA",
    "MOVE", "JAGGED_RESIZE", "JAGGED_PUSH", "JAGGED_RESIZE_INNER",
    "JAGGED_GET_DATA", "ARRAY", "SKEW_SIZES", "MAKE_DATA",
    "STD_VECTOR_GET_DATA"};
void gen(Rng& r, Case& c) {
    bool faults = r.chance(0.6);
    c.par["schema"] = r.range(0, 5);
    u64 n = 3 + r.below(18);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(
            r.pick_w({6, 3, 4, 5, 1, 3, 1, 3, 2, 3, 2, 3, 2, 1, 1}));
        o.a[0] = static_cast<i64>(r.chance(0.1)    ? 0
                                  : r.chance(0.02) ? r.below(1500)
                                                   : r.below(14));
        o.a[1] = static_cast<i64>(r.next() >> 2);
        o.a[2] = static_cast<i64>(r.chance(0.02) ? r.below(300) : r.below(9));
        o.a[3] = static_cast<i64>(r.next() >> 2);
        o.a[4] = static_cast<i64>(r.below(4));
        if (faults && r.chance(0.4)) {
            Fault f;
            f.site = F_UP;
            f.nth = static_cast<int>(r.below(5));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}

template <class P>
struct Ifc : public P {
    using P::P;
    using base_type = P;
    Ifc(const P& p) : P(p) {}
};
template <class T>
T val(u64 x) {
    T t;
    u8* p = reinterpret_cast<u8*>(&t);
    for (std::size_t i = 0; i < sizeof(T); ++i)
        p[i] = static_cast<u8>(x >> (8 * (i % 8)));
    return t;
}
template <class T>
bool same(const T& t, u64 x) {
    T y = val<T>(x);
    return ::memcmp(&t, &y, sizeof(T)) == 0;
}
template <class T>
bool zero(const T& t) {
    T y;
    ::memset(static_cast<void*>(&y), 0, sizeof y);
    return ::memcmp(&t, &y, sizeof(T)) == 0;
}

/// contents of a container, as a model: 0 means value-initialised
struct MVar {
    int kind;
    u64 scalar = 0;
    std::vector<u64> v;
    std::vector<std::vector<u64>> j;
};
template <class T>
bool is(const T& t, u64 x) {
    return x ? same(t, x) : zero(t);
}

template <class S>
struct Runner;
template <class... V>
struct Runner<edm::schema<V...>> {
    using S = edm::schema<V...>;
    using Host = edm::host<S, Ifc>;
    static constexpr std::size_t NV = sizeof...(V);
    template <std::size_t I>
    using VT = std::tuple_element_t<I, std::tuple<V...>>;

    Exact &mr, &other;
    std::unique_ptr<Host> h;
    std::vector<MVar> m;
    std::size_t size = 0;
    bool scalar_known = false;

    Runner(Exact& a, Exact& b) : mr(a), other(b) {
        (m.push_back(MVar{edm::type::details::is_scalar_v<V>          ? 0
                          : edm::type::details::is_jagged_vector_v<V> ? 2
                                                                      : 1,
                          0,
                          {},
                          {}}),
         ...);
    }
    template <class F, std::size_t... I>
    void each(F&& f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>()), ...);
    }
    template <class F>
    void each(F&& f) {
        each(f, std::index_sequence_for<V...>());
    }
    void make(const Op* o) {
        if (o) arm(*o);
        Res q = attempt([&] {
            void* p = mem;
            new (p) Host(mr);
        });
        bool f = any_fired();
        disarm();
        if (q == OK) {
            alive = true;
            return;
        }
        if (q != BAD || !f)
            fail("C51", "unexpected-failure", "construction failed (%s)",
                 rname[q]);
        if (!mr.live.empty())
            fail("C51", "not-released",
                 "a container could not be made, and memory was lost");
    }
    alignas(64) unsigned char mem[sizeof(Host) + 64];
    bool alive = false;
    Host& host() { return *static_cast<Host*>(static_cast<void*>(mem)); }
    void destroy() {
        if (!alive) return;
        SimScope s;
        host().~Host();
        alive = false;
    }

    /// everything observable agrees with the model
    void check(const char* after) {
        Host& c = host();
        const Host& cc = c;
        std::size_t sz = 0;
        Res q = attempt([&] { sz = c.size(); });
        if (q != OK) {
            fail("C51", "inconsistent-sizes",
                 "after %s, the variables of the container have different "
                 "sizes",
                 after);
            abandon("sizes");
        }
        if (sz != size) {
            fail("C51", "wrong-size", "after %s, the size is %zu, expected %zu",
                 after, sz, size);
            abandon("size");
        }
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            MVar& v = m[I];
            if (&cc.template get<I>() != &c.template get<I>())
                fail("C51", "wrong-content",
                     "variable %zu of the constant container is another object",
                     I);
            if constexpr (edm::type::details::is_scalar_v<VT<I>>) {
                if (v.scalar && !same(c.template get<I>(), v.scalar))
                    bad(after, I);
            } else if constexpr (edm::type::details::is_jagged_vector_v<VT<I>>) {
                auto& x = c.template get<I>();
                if (x.size() != v.j.size()) {
                    bad(after, I);
                    return;
                }
                for (std::size_t k = 0; k < x.size(); ++k) {
                    if (x[k].get_allocator().resource() != &mr)
                        fail("C51", "wrong-resource",
                             "after %s, an inner vector does not use the "
                             "container's memory resource",
                             after);
                    if (x[k].size() != v.j[k].size()) {
                        bad(after, I);
                        return;
                    }
                    for (std::size_t l = 0; l < x[k].size(); ++l)
                        if (!is(x[k][l], v.j[k][l])) {
                            bad(after, I);
                            return;
                        }
                    own(x[k].data(), x[k].size() * sizeof(*x[k].data()));
                }
                own(x.data(), x.size() * sizeof(*x.data()));
            } else {
                auto& x = c.template get<I>();
                if (x.size() != v.v.size()) {
                    bad(after, I);
                    return;
                }
                if (std::size_t k = x.size()) {
                    --k;
                    if (&cc.at(k).template get<I>() != &x[k] ||
                        &cc[k].template get<I>() != &x[k] ||
                        &c.at(k).template get<I>() != &x[k])
                        bad(after, I);
                }
                for (std::size_t k = 0; k < x.size(); ++k)
                    if (!is(x[k], v.v[k])) {
                        bad(after, I);
                        return;
                    }
                own(x.data(), x.size() * sizeof(*x.data()));
            }
        });
    }
    void bad(const char* after, std::size_t i) {
        fail("C51", "wrong-content",
             "after %s, variable %zu does not have the expected content", after,
             i);
    }
    void own(const void* p, std::size_t n) {
        if (n && !mr.inside(addr(p), n))
            fail("C51", "wrong-resource",
                 "elements are not in memory of the container's resource");
    }

    void resize(const Op& o) {
        std::size_t n = static_cast<std::size_t>(o.a[0]);
        arm(o);
        Res q = attempt([&] { host().resize(n); });
        bool f = any_fired();
        disarm();
        vsim::log("resize %zu: %s", n, rname[q]);
        if (q == OK) {
            if (f)
                fail("C51", "failure-lost",
                     "an allocation failed, and nothing was reported");
            for (auto& v : m) {
                if (v.kind == 1) v.v.resize(n);
                if (v.kind == 2) v.j.resize(n);
            }
            size = n;
            check("resize()");
        } else {
            if (q != BAD || !f)
                fail("C51", "unexpected-failure", "resize() failed (%s)",
                     rname[q]);
            count("probe:resize-failed");
            check("a failed resize()");
        }
    }
    void reserve(const Op& o) {
        arm(o);
        Res q = attempt(
            [&] { host().reserve(static_cast<std::size_t>(o.a[0])); });
        bool f = any_fired();
        disarm();
        vsim::log("reserve: %s", rname[q]);
        if (q == OK ? f : (q != BAD || !f))
            fail("C51", "unexpected-failure", "reserve(): %s", rname[q]);
        if (q == OK)
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                if constexpr (!edm::type::details::is_scalar_v<VT<I>>)
                    if (host().template get<I>().capacity() <
                        static_cast<std::size_t>(o.a[0]))
                        fail("C51", "nothing-reserved",
                             "variable %zu has no room for the elements that "
                             "memory was reserved for",
                             I);
            });
        check(q == OK ? "reserve()" : "a failed reserve()");
    }
    /// One variable gets another size, behind the container's back.
    void skew(const Op& o) {
        std::size_t vi = static_cast<std::size_t>(o.a[4]) % NV, vectors = 0;
        for (auto& v : m) vectors += v.kind != 0;
        std::size_t n = static_cast<std::size_t>(o.a[0]);
        if (o.a[2] & 1) n = size + 1;
        if (n == size || m[vi].kind == 0) return;
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if constexpr (!edm::type::details::is_scalar_v<VT<I>>) {
                if (I != vi) return;
                auto& x = host().template get<I>();
                auto to = [&](std::size_t k) {
                    SimScope q;
                    if constexpr (edm::type::details::is_jagged_vector_v<VT<I>>)
                        vecmem::details::resize_jagged_vector(x, k);
                    else
                        x.resize(k);
                };
                to(n);
                std::size_t got = 0;
                const Host& c = host();
                Res q = attempt([&] { got = c.size(); });
                vsim::log("skew %zu: %s", n, rname[q]);
                if (vectors > 1 ? q != LEN : (q != OK || got != n))
                    fail("C51", "inconsistent-sizes-accepted",
                         "variable %zu has size %zu, others have %zu, and "
                         "size() gives %zu (%s)",
                         I, n, size, got, rname[q]);
                to(size);
                if (m[I].kind == 1) {
                    m[I].v.resize(n);
                    m[I].v.resize(size);
                } else {
                    m[I].j.resize(n);
                    m[I].j.resize(size);
                }
            }
        });
        check("one variable was resized and put back");
    }
    /// A description that is not filled yet
    void data(const Op& o) {
        std::size_t n = static_cast<std::size_t>(o.a[0]);
        std::size_t before = other.live.size();
        arm(o);
        bool f = false;
        Res q = attempt([&] {
            edm::data<S> d(static_cast<unsigned>(n), other);
            edm::data<S> e;
            e = std::move(d);
            edm::data<S> g(std::move(e));
            HostScope hs;
            f = any_fired();
            disarm();
            auto& v = vecmem::get_data(g);
            if (v.capacity() != n)
                fail("C51", "wrong-view", "capacity %u, expected %zu",
                     static_cast<unsigned>(v.capacity()), n);
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                if constexpr (edm::type::details::is_jagged_vector_v<VT<I>>) {
                    auto& w = v.template get<I>();
                    bool ok = w.size() == n && w.capacity() == n &&
                              (!n || range_live(w.host_ptr(),
                                                n * sizeof(*w.host_ptr())));
                    for (std::size_t k = 0; ok && k < n; ++k)
                        ok = w.host_ptr()[k].size() == 0 &&
                             w.host_ptr()[k].capacity() == 0;
                    if (!ok)
                        fail("C51", "wrong-view",
                             "variable %zu of an empty description", I);
                }
            });
        });
        f |= any_fired();
        disarm();
        vsim::log("data: %s", rname[q]);
        if (q == OK ? f : (q != BAD || !f))
            fail("C51", "unexpected-failure", "edm::data: %s", rname[q]);
        if (other.live.size() != before)
            fail("C51", "not-released", "memory of a description was lost");
    }
    void set(const Op& o) {
        u64 x = static_cast<u64>(o.a[3]) | 1;
        std::size_t vi = static_cast<std::size_t>(o.a[4]) % NV;
        std::size_t i = size ? static_cast<std::size_t>(o.a[1]) % size : 0;
        bool use_at = o.a[2] & 1;
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if (I != vi) return;
            using T = typename VT<I>::type;
            if constexpr (edm::type::details::is_scalar_v<VT<I>>) {
                host().template get<I>() = val<T>(x);
                m[I].scalar = x;
            } else if constexpr (edm::type::details::is_jagged_vector_v<VT<I>>) {
                if (!size || m[I].j[i].empty()) return;
                std::size_t k =
                    static_cast<std::size_t>(o.a[2]) % m[I].j[i].size();
                Res q = attempt([&] {
                    if (use_at)
                        host().at(i).template get<I>()[k] = val<T>(x);
                    else
                        host()[i].template get<I>()[k] = val<T>(x);
                });
                if (q != OK) fail("C51", "unexpected-failure", "%s", rname[q]);
                m[I].j[i][k] = x;
            } else {
                if (!size) return;
                Res q = attempt([&] {
                    if (use_at)
                        host().at(i).template get<I>() = val<T>(x);
                    else
                        host()[i].template get<I>() = val<T>(x);
                });
                if (q != OK) fail("C51", "unexpected-failure", "%s", rname[q]);
                m[I].v[i] = x;
            }
        });
        vsim::log("set");
        check("an element was set");
    }
    void inner(const Op& o) {
        if (!size) return;
        std::size_t i = static_cast<std::size_t>(o.a[1]) % size;
        std::size_t n = static_cast<std::size_t>(o.a[2]);
        std::size_t vi = static_cast<std::size_t>(o.a[4]) % NV;
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if (I != vi) return;
            if constexpr (edm::type::details::is_jagged_vector_v<VT<I>>) {
                arm(o);
                Res q = attempt([&] { host().at(i).template get<I>().resize(n); });
                bool f = any_fired();
                disarm();
                if (q == OK)
                    m[I].j[i].resize(n);
                else if (q != BAD || !f)
                    fail("C51", "unexpected-failure", "%s", rname[q]);
                vsim::log("inner: %s", rname[q]);
            }
        });
        check("an inner vector was resized");
    }
    void bad_at(const Op& o) {
        // (the first one beyond the end, others, and some far away)
        std::size_t i = size + static_cast<std::size_t>(
                                   o.a[2] < 4 ? 0 : o.a[2] < 8 ? o.a[2] : o.a[1]);
        const Host& ch = host();
        Res q = attempt([&] { host().at(i); });
        Res q2 = attempt([&] { ch.at(i); });
        if (q != RANGE || q2 != RANGE)
            fail("C51", "bad-index-accepted",
                 "at(%zu) of a container of size %zu: %s", i, size,
                 rname[q != RANGE ? q : q2]);
        vsim::log("bad at");
    }

    template <bool CONST>
    void view(const Op& o) {
        // a view describes exactly the current content
        using HostC = std::conditional_t<CONST, const Host, Host>;
        HostC& c = host();
        bool with_other = o.a[2] & 1;
        std::size_t before = other.live.size(), mine = mr.live.size();
        arm(o);
        bool looked = false;
        Res q = attempt([&] {
            auto data = vecmem::get_data(c, with_other ? &other : nullptr);
            HostScope hs;
            disarm_keep();
            looked = true;
            auto view = vecmem::get_data(data);
            if (view.capacity() != size)
                fail("C51", "wrong-view", "capacity %u, expected %zu",
                     static_cast<unsigned>(view.capacity()), size);
            if (with_other ? mr.live.size() != mine
                           : other.live.size() != before)
                fail("C51", "wrong-resource",
                     "get_data() did not use the resource it was given");
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                if constexpr (edm::type::details::is_scalar_v<VT<I>>) {
                    if (addr(view.template get<I>()) !=
                        addr(&c.template get<I>()))
                        fail("C51", "wrong-view", "scalar variable %zu", I);
                } else if constexpr (edm::type::details::is_jagged_vector_v<
                                         VT<I>>) {
                    auto& x = c.template get<I>();
                    auto& w = view.template get<I>();
                    same_jagged(x, w);
                } else {
                    auto& x = c.template get<I>();
                    auto& w = view.template get<I>();
                    if (w.size() != x.size() || w.capacity() != x.size() ||
                        (x.size() && addr(w.ptr()) != addr(x.data())) ||
                        w.size_ptr())
                        fail("C51", "wrong-view", "vector variable %zu", I);
                }
            });
            device(view);
            if constexpr (!CONST)
                edm_const_views<S>(view, std::index_sequence_for<V...>());
        });
        bool f = fired_any;
        disarm();
        fired_any = false;
        vsim::log("view: %s", rname[q]);
        if (q == OK ? f : q != BAD)
            fail("C51", "unexpected-failure", "get_data(): %s", rname[q]);
        if (other.live.size() != before || mr.live.size() != mine)
            fail("C51", "not-released",
                 "the description of a container was destroyed, and its "
                 "memory is still allocated");
        check("get_data()");
    }
    bool fired_any = false;
    void disarm_keep() {
        fired_any = any_fired();
        disarm();
    }
    template <class J, class W>
    static void same_jagged(J& x, W& w) {
        if (w.size() != x.size() || w.capacity() != x.size()) {
            fail("C51", "wrong-view", "%zu inner vectors, expected %zu",
                 static_cast<std::size_t>(w.size()), x.size());
            return;
        }
        for (std::size_t k = 0; k < x.size(); ++k) {
            auto& v = w.host_ptr()[k];
            if (addr(w.ptr()) != addr(w.host_ptr()) || v.size() != x[k].size() ||
                v.capacity() != x[k].size() || v.size_ptr() ||
                (x[k].size() && addr(v.ptr()) != addr(x[k].data())))
                fail("C51", "wrong-view", "inner vector %zu", k);
        }
    }
    template <class W>
    void device(const W& view) {
        // reading through a device container
        typename edm::device<typename W::schema_type, Ifc> d(view);
        if (d.size() != size) fail("C51", "wrong-view", "device container size");
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if constexpr (edm::type::details::is_vector_v<VT<I>> &&
                          !edm::type::details::is_jagged_vector_v<VT<I>>) {
                for (unsigned k = 0; k < size; ++k)
                    if (!is(d.template get<I>()[k], m[I].v[k]) ||
                        !is(d[k].template get<I>(), m[I].v[k]))
                        fail("C51", "wrong-view",
                             "element read through a device container");
            }
        });
    }
    void move() {
        alignas(64) unsigned char tmp[sizeof(Host) + 64];
        Res q = attempt([&] {
            Host* p = new (static_cast<void*>(tmp)) Host(std::move(host()));
            host().~Host();
            new (static_cast<void*>(mem)) Host(std::move(*p));
            p->~Host();
        });
        if (q != OK) fail("C51", "unexpected-failure", "move: %s", rname[q]);
        vsim::log("move");
        check("moving the container");
    }
    void run(const Case& c) {
        make(c.ops.empty() ? nullptr : &c.ops[0]);
        if (!alive) make(nullptr);
        bool nt = false;
        for (auto& o : c.ops) {
            switch (o.kind) {
                case RESIZE:
                    resize(o);
                    nt |= size > 1;
                    break;
                case RESERVE:
                    reserve(o);
                    break;
                case SET:
                    set(o);
                    break;
                case INNER:
                    inner(o);
                    break;
                case BADAT:
                    bad_at(o);
                    break;
                case VIEW:
                    if (o.a[2] & 2)
                        view<true>(o);
                    else
                        view<false>(o);
                    break;
                case MOVE:
                    move();
                    break;
                case SKEW:
                    skew(o);
                    break;
                case DATA:
                    data(o);
                    break;
                default:
                    break;
            }
            state(size * 16 + static_cast<u64>(o.kind));
        }
        if (nt) nontrivial();
        destroy();
    }
};

struct Noisy {
    u64 x;
    static bool quiet;
    Noisy() : x(0) {
        HostScope h;
        if (!quiet && fire(F_CTOR)) throw UserError();
    }
};

bool Noisy::quiet = false;

/// every way to reach the elements of an array
template <class A>
void look_at_array(A& ar, std::size_t n, const Op& o, Exact& mr) {
    const A& car = ar;
    auto bad = [&](const char* what) {
        fail("C51", "wrong-content", "%s of an array of %zu elements", what, n);
    };
    if (car.size() != n || car.empty() != (n == 0) ||
        (n && !mr.inside(addr(ar.data()), n * sizeof(Noisy))))
        fail("C51", "wrong-size", "array of %zu elements", n);
    Noisy* p = ar.data();
    for (std::size_t k = 0; k < n; ++k)
        if (p[k].x) bad("construction");
    // written in one way, read in every other one
    for (std::size_t k = 0; k < n; ++k) {
        u64 v = static_cast<u64>(o.a[3]) + k * k + 1;
        auto d = static_cast<std::ptrdiff_t>(k),
             b = static_cast<std::ptrdiff_t>(n - 1 - k);
        switch ((static_cast<u64>(o.a[1]) + k) % 6) {
            case 0: ar[k].x = v; break;
            case 1: ar.at(k).x = v; break;
            case 2: (ar.begin() + d)->x = v; break;
            case 3: (ar.rbegin() + b)->x = v; break;
            case 4: (ar.end() - (b + 1))->x = v; break;
            default: (ar.rend() - (d + 1))->x = v;
        }
        const Noisy* e = p + k;
        if (e->x != v || &car[k] != e || &car.at(k) != e || &ar[k] != e ||
            &ar.at(k) != e || &*(car.begin() + d) != e ||
            &*(car.cbegin() + d) != e || &*(car.rbegin() + b) != e ||
            &*(car.crbegin() + b) != e || &*(car.end() - (b + 1)) != e ||
            &*(car.cend() - (b + 1)) != e || &*(car.rend() - (d + 1)) != e ||
            &*(car.crend() - (d + 1)) != e || &*(ar.end() - (b + 1)) != e ||
            &*(ar.rend() - (d + 1)) != e)
            bad("an element");
    }
    if (car.data() != p ||
        ar.end() - ar.begin() != static_cast<std::ptrdiff_t>(n) ||
        car.end() - car.begin() != static_cast<std::ptrdiff_t>(n))
        bad("iteration");
    auto refuses = [&](const char* what, auto f) {
        Res b = attempt(f);
        if (b != RANGE)
            fail("C51", "bad-index-accepted", "array::%s: %s", what, rname[b]);
    };
    std::size_t beyond = n + static_cast<std::size_t>(
                                 o.a[2] < 5 ? 0 : o.a[2] < 8 ? o.a[2] : o.a[1]);
    refuses("at()", [&] { ar.at(beyond); });
    refuses("at() const", [&] { car.at(beyond); });
    if (n) {
        if (&ar.front() != p || &car.front() != p || &ar.back() != p + n - 1 ||
            &car.back() != p + n - 1)
            bad("front() or back()");
    } else {
        refuses("front()", [&] { ar.front(); });
        refuses("front() const", [&] { car.front(); });
        refuses("back()", [&] { ar.back(); });
        refuses("back() const", [&] { car.back(); });
    }
    auto v = vecmem::get_data(ar);
    auto cv = vecmem::get_data(car);
    if (v.size() != n || v.capacity() != n || v.size_ptr() || cv.size_ptr() ||
        cv.size() != n || cv.capacity() != n || (n && v.ptr() != p) ||
        (n && cv.ptr() != p))
        fail("C51", "wrong-view", "array of %zu elements", n);
    if (o.a[2] & 2) {
        Noisy::quiet = true;
        Noisy x;
        Noisy::quiet = false;
        x.x = static_cast<u64>(o.a[3]) ^ 0x55;
        ar.fill(x);
        for (std::size_t k = 0; k < n; ++k)
            if (p[k].x != x.x) bad("fill()");
    }
}

/// plain jagged vectors and arrays
void jagged_run(const Case& c, Exact& mr, Exact& other) {
    using JV = vecmem::jagged_vector<u32>;
    alignas(JV) unsigned char mem[sizeof(JV)];
    {
        SimScope s;
        new (static_cast<void*>(mem)) JV(&mr);
    }
    JV& jv = *static_cast<JV*>(static_cast<void*>(mem));
    std::vector<std::vector<u32>> m;
    auto check = [&](const char* after) {
        bool ok = jv.size() == m.size();
        for (std::size_t i = 0; ok && i < m.size(); ++i) {
            ok = jv[i].size() == m[i].size();
            for (std::size_t k = 0; ok && k < m[i].size(); ++k)
                ok = jv[i][k] == m[i][k];
            if (jv[i].get_allocator().resource() != &mr ||
                (jv[i].size() &&
                 !mr.inside(addr(jv[i].data()), jv[i].size() * 4)))
                fail("C51", "wrong-resource",
                     "after %s, an inner vector does not use the memory "
                     "resource of the outer one",
                     after);
        }
        if (!ok) {
            fail("C51", "wrong-content", "after %s, a jagged vector changed",
                 after);
            abandon("content");
        }
    };
    for (auto& o : c.ops) {
        std::size_t n = static_cast<std::size_t>(o.a[0]);
        std::size_t i = m.empty() ? 0 : static_cast<u64>(o.a[1]) % m.size();
        Res q = OK;
        bool f = false;
        switch (o.kind) {
            case JRESIZE:
                arm(o);
                q = attempt([&] { vecmem::details::resize_jagged_vector(jv, n); });
                f = any_fired();
                disarm();
                if (q == OK) m.resize(n);
                break;
            case JPUSH:
                arm(o);
                q = attempt([&] {
                    jv.push_back(vecmem::vector<u32>(&mr));
                });
                f = any_fired();
                disarm();
                if (q == OK) m.emplace_back();
                break;
            case JINNER:
                if (m.empty()) continue;
                arm(o);
                q = attempt([&] { jv[i].push_back(static_cast<u32>(o.a[3])); });
                f = any_fired();
                disarm();
                if (q == OK) m[i].push_back(static_cast<u32>(o.a[3]));
                break;
            case JVIEW: {
                std::size_t a = mr.live.size(), b = other.live.size();
                bool fir = false;
                arm(o);
                q = attempt([&] {
                    auto look = [&](auto& x) {
                        auto d = vecmem::get_data(x, (o.a[2] & 1) ? &other
                                                                  : nullptr);
                        HostScope hs;
                        fir = any_fired();
                        disarm();
                        auto& v = vecmem::get_data(d);
                        if ((o.a[2] & 1) ? mr.live.size() != a
                                         : other.live.size() != b)
                            fail("C51", "wrong-resource",
                                 "get_data() did not use the resource it was "
                                 "given");
                        Runner<edm::schema<vec<u8>>>::same_jagged(x, v);
                    };
                    const JV& cj = jv;
                    if (o.a[2] & 2)
                        look(cj);
                    else
                        look(jv);
                });
                f = any_fired() || fir;
                disarm();
                if (mr.live.size() != a || other.live.size() != b)
                    fail("C51", "not-released",
                         "the description of a jagged vector was destroyed, "
                         "and its memory is still allocated");
                break;
            }
            case PLAIN: {
                // the same data, in containers that know nothing of resources
                std::vector<std::vector<u32>> pj(m);
                const std::vector<std::vector<u32>>& cpj = pj;
                std::size_t b = other.live.size();
                bool fir = false;
                arm(o);
                q = attempt([&] {
                    auto look = [&](auto& x) {
                        auto d = vecmem::get_data(x, &other);
                        HostScope hs;
                        fir = any_fired();
                        disarm();
                        Runner<edm::schema<vec<u8>>>::same_jagged(
                            x, vecmem::get_data(d));
                    };
                    if (o.a[2] & 2)
                        look(cpj);
                    else
                        look(pj);
                });
                f = any_fired() || fir;
                disarm();
                if (other.live.size() != b)
                    fail("C51", "not-released",
                         "the description of a jagged vector was destroyed, "
                         "and its memory is still allocated");
                for (auto& x : pj) {
                    const auto& cx = x;
                    SimScope q1;
                    auto v = vecmem::get_data(x);
                    auto cv = vecmem::get_data(cx);
                    HostScope hs;
                    if (v.size() != x.size() || cv.size() != x.size() ||
                        v.ptr() != x.data() || cv.ptr() != x.data() ||
                        v.capacity() != x.size() || cv.capacity() != x.size() ||
                        v.size_ptr() || cv.size_ptr())
                        fail("C51", "wrong-view", "view of a vector");
                }
                break;
            }
            case ARRAY: {
                std::size_t a = mr.live.size();
                Op o2 = o;
                for (auto& x : o2.faults)
                    if (o.a[2] & 1) x.site = F_CTOR;
                arm(o2);
                q = attempt([&] {
                    if (o.a[4]) {
                        vecmem::array<Noisy> ar(mr, n);
                        HostScope hs;
                        look_at_array(ar, n, o, mr);
                    } else {
                        vecmem::array<Noisy, 6> ar(mr);
                        HostScope hs;
                        look_at_array(ar, 6, o, mr);
                    }
                });
                f = any_fired();
                if (q == USER && fired(F_CTOR)) q = BAD;
                disarm();
                if (mr.live.size() != a)
                    fail("C51", "not-released", "memory of an array was lost");
                break;
            }
            default:
                continue;
        }
        vsim::log("%s: %s", kinds[o.kind], rname[q]);
        if (q == OK ? f : (q != BAD || !f))
            fail("C51", "unexpected-failure", "%s: %s%s", kinds[o.kind],
                 rname[q], f ? " after a failure" : "");
        check(kinds[o.kind]);
    }
    SimScope s;
    jv.~JV();
}

void run(const Case& c) {
    Exact mr(0, "C51"), other(0, "C51");
    std::size_t heap0 = heap_live();
    switch (c.p("schema")) {
        case 0: {
            Runner<edm::schema<sca<u32>, vec<u32>, vec<double>>> r(mr, other);
            r.run(c);
            break;
        }
        case 1: {
            Runner<edm::schema<vec<A64>, jag<u8>, sca<A32>, vec<B3>, jag<A64>>>
                r(mr, other);
            r.run(c);
            break;
        }
        case 2: {
            Runner<edm::schema<jag<u32>, jag<u64>>> r(mr, other);
            r.run(c);
            break;
        }
        case 3: {
            Runner<edm::schema<sca<u64>, sca<u8>, jag<u16>, vec<u32>>> r(mr,
                                                                       other);
            r.run(c);
            break;
        }
        case 4: {
            Runner<edm::schema<vec<u16>>> r(mr, other);
            r.run(c);
            break;
        }
        default: {
            Runner<edm::schema<jag<B3>>> r(mr, other);
            r.run(c);
            break;
        }
    }
    if (!mr.live.empty() || !other.live.empty())
        fail("C51", "not-released",
             "%zu blocks are in use after the container is gone",
             mr.live.size() + other.live.size());
    jagged_run(c, mr, other);
    if (!mr.live.empty() || !other.live.empty())
        fail("C51", "not-released",
             "%zu blocks are in use after the container is gone",
             mr.live.size() + other.live.size());
    if (heap_live() != heap0)
        fail("C51", "not-released", "memory was lost: %s",
             heap_describe().c_str());
}
const Harness H = {"hostcont", gen, run, kinds, N,
                   "SoA host containers of six schemas, jagged vectors and "
                   "arrays: random histories of resizing, element access, "
                   "moves and get_data() with failing allocations at any "
                   "point, compared with a model; non-trivial: two or more "
                   "elements"};
Registrar reg(H);
}  // namespace hostc

// =================================================================== C52 ===
namespace svec {
enum OpK { CTOR, CTORN, CTORR, COPY, ASSIGN, ASSIGNN, ASSIGNR, INS, INSN, INSR, EMPL,
           EMPLB, PUSH, ER1, ERR, POP, CLEAR, RES, RESV, READ, N };
const char* const kinds[] = {
    "MAKE", "MAKE_N", "MAKE_RANGE", "COPY", "COPY_ASSIGN", "ASSIGN_N",
    "ASSIGN_RANGE", "INSERT", "INSERT_N", "INSERT_RANGE", "EMPLACE",
    "EMPLACE_BACK", "PUSH_BACK", "ERASE", "ERASE_RANGE", "POP_BACK", "CLEAR",
    "RESIZE", "RESIZE_VALUE", "READ"};
void gen(Rng& r, Case& c) {
    bool faults = r.chance(0.6);
    c.par["type"] = r.range(0, 3);
    u64 n = 3 + r.below(24);
    for (u64 i = 0; i < n; ++i) {
        Op o;
        o.kind = static_cast<int>(r.pick_w({1, 2, 2, 2, 3, 2, 2, 6, 3, 3, 4, 3, 6,
                                            4, 3, 2, 1, 3, 3, 2}));
        o.a[0] = static_cast<i64>(r.below(3));   // which vector
        o.a[1] = static_cast<i64>(r.next() >> 2);  // position
        o.a[2] = static_cast<i64>(r.below(10));  // count
        o.a[3] = static_cast<i64>(r.below(1000));
        o.a[4] = static_cast<i64>(r.below(4));  // 0: the value is an element
        o.a[5] = static_cast<i64>(r.next() >> 2);
        if (faults && r.chance(0.25)) {
            Fault f;
            f.site = F_CTOR;
            f.nth = static_cast<int>(r.below(5));
            o.faults.push_back(f);
        }
        c.ops.push_back(o);
    }
}
std::map<u64, u64>* g_live;  ///< token -> value
u64 g_next;
/// An element with an identity. Relocating its bytes is fine.
template <std::size_t A>
struct alignas(A) Elem {
    u64 tok;
    Elem() : Elem(0) {}
    Elem(u64 v) {
        HostScope h;
        born(v);
    }
    Elem(const Elem& o) {
        HostScope h;
        born(o.value());
    }
    Elem& operator=(const Elem& o) {
        HostScope h;
        u64 v = o.value();
        value();
        (*g_live)[tok] = v;
        return *this;
    }
    u64 value() const {
        auto it = g_live->find(tok);
        if (it == g_live->end()) {
            fail("C52", "not-an-object",
                 "something is used as an object that was never constructed "
                 "or is destroyed");
            abandon("dead object");
        }
        return it->second;
    }
    void born(u64 v) {
        if (fire(F_CTOR)) throw UserError();
        if (addr(this) % A) {
            fail("C52", "misaligned",
                 "an element of alignment %zu was constructed at an address "
                 "aligned to %zu",
                 A, static_cast<std::size_t>(addr(this) & (~addr(this) + 1)));
            abandon("misaligned");
        }
        tok = g_next++;
        (*g_live)[tok] = v;
    }
    ~Elem() {
        HostScope h;
        if (!g_live->erase(tok)) {
            fail("C52", "destroyed-twice",
                 "an element was destroyed that is not an object");
            abandon("destroyed twice");
        }
        tok = 0;
    }
};

template <class E, std::size_t CAP>
struct Runner {
    using SV = vecmem::static_vector<E, CAP>;
    struct Slot {
        alignas(64) unsigned char mem[sizeof(SV) + 64];
        bool alive = false;
        std::vector<u64> m;
        Slot() { ::memset(mem, 0xC3, sizeof mem); }
        bool intact() const {
            for (std::size_t i = sizeof(SV); i < sizeof mem; ++i)
                if (mem[i] != 0xC3) return false;
            return true;
        }
        SV& v() {
            return *static_cast<SV*>(static_cast<void*>(mem));
        }
    };
    Slot s[3];
    std::size_t tokens() {
        std::size_t n = 0;
        for (auto& x : s)
            if (x.alive) n += x.v().size();
        return n;
    }
    void check(const char* after) {
        std::set<u64> seen;
        for (auto& x : s) {
            if (!x.intact())
                fail("C52", "outside", "after %s, memory behind a vector changed",
                     after);
            if (!x.alive) continue;
            SV& v = x.v();
            if (v.size() != x.m.size() || v.size() > CAP ||
                v.empty() != x.m.empty() || v.capacity() != CAP ||
                v.max_size() != CAP) {
                fail("C52", "wrong-size", "after %s, size %zu, expected %zu",
                     after, v.size(), x.m.size());
                abandon("size");
            }
            for (std::size_t i = 0; i < x.m.size(); ++i) {
                const E& e = v[i];
                if (e.value() != x.m[i]) {
                    fail("C52", "wrong-content",
                         "after %s, element %zu of %zu is %llu, expected %llu",
                         after, i, x.m.size(), ull(e.value()), ull(x.m[i]));
                    abandon("content");
                }
                if (!seen.insert(e.tok).second)
                    fail("C52", "duplicated",
                         "after %s, two elements are the same object", after);
            }
        }
        if (g_live->size() != seen.size())
            fail("C52", "not-destroyed",
                 "after %s, %zu objects exist, and the vectors hold %zu", after,
                 g_live->size(), seen.size());
    }
    void fresh(Slot& x) {
        if (!x.alive) return;
        SimScope q;
        x.v().~SV();
        x.alive = false;
        HostScope h;
        x.m.clear();
    }
    void run(const Case& c) {
        bool nt = false;
        for (auto& o : c.ops) {
            Slot& x = s[static_cast<u64>(o.a[0]) % 3];
            Slot& y = s[(static_cast<u64>(o.a[0]) + 1 +
                         static_cast<u64>(o.a[5]) % 2) % 3];
            if (o.kind <= COPY) {
                fresh(x);
            } else if (!x.alive) {
                SimScope q;
                new (static_cast<void*>(x.mem)) SV();
                x.alive = true;
            }
            std::size_t room = CAP - x.m.size();
            std::size_t pos =
                static_cast<u64>(o.a[1]) % (x.m.size() + 1);
            std::size_t cnt = static_cast<u64>(o.a[2]) % (CAP + 1);
            u64 val = static_cast<u64>(o.a[3]);
            bool own = o.a[4] == 0 && !x.m.empty();
            std::size_t oi = x.m.empty() ? 0 : static_cast<u64>(o.a[5]) %
                                                   x.m.size();
            std::vector<u64> m = x.m;
            Res q = OK;
            std::size_t ret = ~std::size_t(0), want = ret;
            void* mem = x.mem;
            auto run1 = [&](auto&& f) {
                arm(o);
                q = attempt(f);
            };
            // values from outside, made without faults
            struct Src {
                alignas(E) unsigned char mem[sizeof(E) * (CAP + 1)];
                std::size_t n = 0;
                E* at(std::size_t i) {
                    return static_cast<E*>(static_cast<void*>(mem)) + i;
                }
                void add(u64 v) { new (static_cast<void*>(at(n))) E(v); ++n; }
                ~Src() {
                    while (n) at(--n)->~E();
                }
            };
            {
                Src src;
                if (!own) {
                    src.add(val);
                } else {
                    val = x.m[oi];
                }
                auto value = [&]() -> const E& {
                    return own ? x.v()[oi] : *src.at(0);
                };
                auto range = [&](std::size_t n) {
                    while (src.n < n) src.add(val + src.n);
                };
                auto at = m.begin() + static_cast<long>(pos);
                switch (o.kind) {
                    case CTOR:
                        run1([&] { new (mem) SV(); });
                        m.clear();
                        break;
                    case CTORN:
                        run1([&] {
                            if (o.a[4] & 1)
                                new (mem) SV(cnt);
                            else
                                new (mem) SV(cnt, value());
                        });
                        m.assign(cnt, (o.a[4] & 1) ? 0 : val);
                        break;
                    case CTORR:
                    case ASSIGNR:
                        own = false;
                        if (!src.n) src.add(val = static_cast<u64>(o.a[3]));
                        range(cnt);
                        m.clear();
                        for (std::size_t i = 0; i < cnt; ++i)
                            m.push_back(val + i);
                        if (o.kind == CTORR)
                            run1([&] {
                                new (mem) SV(static_cast<const E*>(src.at(0)),
                                             static_cast<const E*>(src.at(cnt)));
                            });
                        else
                            run1([&] {
                                x.v().assign(
                                    static_cast<const E*>(src.at(0)),
                                    static_cast<const E*>(src.at(cnt)));
                            });
                        break;
                    case COPY:
                        if (!y.alive) continue;
                        run1([&] { new (mem) SV(static_cast<const SV&>(y.v())); });
                        m = y.m;
                        break;
                    case ASSIGN:
                        if (o.a[4] == 1) {
                            run1([&] { x.v() = static_cast<const SV&>(x.v()); });
                            break;
                        }
                        if (!y.alive) continue;
                        run1([&] { x.v() = static_cast<const SV&>(y.v()); });
                        m = y.m;
                        break;
                    case ASSIGNN:
                        if (own) {  // not allowed by std::vector either
                            own = false;
                            src.add(val);
                        }
                        run1([&] { x.v().assign(cnt, value()); });
                        m.assign(cnt, val);
                        break;
                    case INS:
                        if (!room) continue;
                        run1([&] {
                            ret = static_cast<std::size_t>(
                                x.v().insert(x.v().begin() + pos, value()) -
                                x.v().begin());
                        });
                        m.insert(at, val);
                        want = pos;
                        break;
                    case INSN:
                        cnt %= room + 1;
                        run1([&] {
                            ret = static_cast<std::size_t>(
                                x.v().insert(x.v().begin() + pos, cnt, value()) -
                                x.v().begin());
                        });
                        m.insert(at, cnt, val);
                        want = pos;
                        break;
                    case INSR: {
                        cnt %= room + 1;
                        own = false;
                        if (!src.n) src.add(val = static_cast<u64>(o.a[3]));
                        range(cnt);
                        std::vector<u64> w;
                        for (std::size_t i = 0; i < cnt; ++i) w.push_back(val + i);
                        run1([&] {
                            ret = static_cast<std::size_t>(
                                x.v().insert(x.v().begin() + pos,
                                             static_cast<const E*>(src.at(0)),
                                             static_cast<const E*>(
                                                 src.at(cnt))) -
                                x.v().begin());
                        });
                        m.insert(at, w.begin(), w.end());
                        want = pos;
                        break;
                    }
                    case EMPL:
                        if (!room) continue;
                        run1([&] {
                            if (own)
                                ret = static_cast<std::size_t>(
                                    x.v().emplace(x.v().begin() + pos, value()) -
                                    x.v().begin());
                            else
                                ret = static_cast<std::size_t>(
                                    x.v().emplace(x.v().begin() + pos, val) -
                                    x.v().begin());
                        });
                        m.insert(at, val);
                        want = pos;
                        break;
                    case EMPLB:
                        if (!room) continue;
                        run1([&] {
                            E& e = own ? x.v().emplace_back(value())
                                       : x.v().emplace_back(val);
                            ret = static_cast<std::size_t>(&e - x.v().data());
                        });
                        want = m.size();
                        m.push_back(val);
                        break;
                    case PUSH:
                        if (!room) continue;
                        run1([&] { x.v().push_back(value()); });
                        m.push_back(val);
                        break;
                    case ER1:
                        if (m.empty()) continue;
                        pos %= m.size();
                        run1([&] {
                            ret = static_cast<std::size_t>(
                                x.v().erase(x.v().begin() + pos) -
                                x.v().begin());
                        });
                        m.erase(m.begin() + static_cast<long>(pos));
                        want = pos;
                        break;
                    case ERR: {
                        std::size_t e = pos + cnt % (m.size() - pos + 1);
                        run1([&] {
                            ret = static_cast<std::size_t>(
                                x.v().erase(x.v().begin() + pos,
                                            x.v().begin() + e) -
                                x.v().begin());
                        });
                        m.erase(m.begin() + static_cast<long>(pos),
                                m.begin() + static_cast<long>(e));
                        want = pos;
                        break;
                    }
                    case POP:
                        if (m.empty()) continue;
                        run1([&] { x.v().pop_back(); });
                        m.pop_back();
                        break;
                    case CLEAR:
                        run1([&] { x.v().clear(); });
                        m.clear();
                        break;
                    case RES:
                        run1([&] { x.v().resize(cnt); });
                        m.resize(cnt, 0);
                        break;
                    case RESV:
                        run1([&] { x.v().resize(cnt, value()); });
                        m.resize(cnt, val);
                        break;
                    default: {
                        run1([] {});
                        const SV& v = x.v();
                        SV& w = x.v();
                        std::size_t z = m.size(), i = z ? pos % z : 0;
                        auto d = static_cast<std::ptrdiff_t>(i),
                             r = static_cast<std::ptrdiff_t>(z - 1 - i);
                        const E* e = v.data() + i;
                        if (z && (&v.front() != v.data() ||
                                  &w.front() != v.data() ||
                                  &v.back() != v.data() + z - 1 ||
                                  &w.back() != v.data() + z - 1 ||
                                  w.data() != v.data() || &v[i] != e ||
                                  &w[i] != e || &v.at(i) != e || &w.at(i) != e ||
                                  &*(v.begin() + d) != e ||
                                  &*(w.begin() + d) != e ||
                                  &*(v.cbegin() + d) != e ||
                                  &*(v.end() - (r + 1)) != e ||
                                  &*(w.end() - (r + 1)) != e ||
                                  &*(v.cend() - (r + 1)) != e ||
                                  &*(v.rbegin() + r) != e ||
                                  &*(w.rbegin() + r) != e ||
                                  &*(v.crbegin() + r) != e ||
                                  &*(v.rend() - (d + 1)) != e ||
                                  &*(w.rend() - (d + 1)) != e ||
                                  &*(v.crend() - (d + 1)) != e))
                            fail("C52", "wrong-content", "element access");
                        std::vector<u64> a, b;
                        for (auto& e : v) a.push_back(e.value());
                        for (auto i = v.rbegin(); i != v.rend(); ++i)
                            b.push_back(i->value());
                        std::reverse(b.begin(), b.end());
                        if (a != m || b != m ||
                            (!m.empty() && (v.front().value() != m.front() ||
                                            v.back().value() != m.back() ||
                                            v.at(pos % m.size()).value() !=
                                                m[pos % m.size()])))
                            fail("C52", "wrong-content",
                                 "iteration or element access");
                        break;
                    }
                }
                bool f = any_fired();
                disarm();
                if (q != OK && (q != USER || !f))
                    fail("C52", "unexpected-failure", "%s: %s", kinds[o.kind],
                         rname[q]);
                if (q == OK && f)
                    fail("C52", "failure-lost",
                         "a constructor threw, and nothing was reported");
            }
            vsim::log("%s %zu: %s", kinds[o.kind], x.m.size(), rname[q]);
            if (q == OK) {
                if (o.kind <= COPY) x.alive = true;
                x.m = m;
                if (ret != want)
                    fail("C52", "wrong-result",
                         "%s returned a reference to element %zu, expected %zu",
                         kinds[o.kind], ret, want);
                nt |= m.size() > 1;
                check(kinds[o.kind]);
            } else {
                count("probe:constructor-threw");
                if (x.alive) {
                    // whatever is left: objects, each of them once
                    x.m.clear();
                    if (x.v().size() > CAP) {
                        fail("C52", "wrong-size", "after a failure");
                        abandon("size");
                    }
                    for (std::size_t i = 0; i < x.v().size(); ++i)
                        x.m.push_back(x.v()[i].value());
                }
                check("a failed operation");
            }
            state(x.m.size() * 32 + static_cast<u64>(o.kind));
        }
        if (nt) nontrivial();
        for (auto& x : s) fresh(x);
        if (!g_live->empty())
            fail("C52", "not-destroyed",
                 "%zu objects exist after the last vector is gone",
                 g_live->size());
    }
};
void run(const Case& c) {
    std::map<u64, u64> live;
    g_live = &live;
    g_next = 1;
    switch (c.p("type")) {
        case 0: {
            Runner<Elem<8>, 7> r;
            r.run(c);
            break;
        }
        case 1: {
            Runner<Elem<32>, 5> r;
            r.run(c);
            break;
        }
        case 2: {
            Runner<Elem<64>, 1> r;
            r.run(c);
            break;
        }
        default: {
            Runner<Elem<16>, 12> r;
            r.run(c);
            break;
        }
    }
}
const Harness H = {"staticvec", gen, run, kinds, N,
                   "three static vectors of objects with an identity: random "
                   "histories of all operations with throwing constructors, "
                   "compared with std::vector; non-trivial: two or more "
                   "elements"};
Registrar reg(H);
}  // namespace svec
}  // namespace
