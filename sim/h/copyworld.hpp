// Copy objects, memory and containers for the copy harnesses: a simulated
// asynchronous back-end or the real ones on the stand-ins for their runtimes,
// and uniform access to 1D, jagged and SoA containers.
#pragma once
#include "accel.hpp"

#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/jagged_vector_data.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/edm/buffer.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/edm/data.hpp"
#include "vecmem/edm/host.hpp"
#include "vecmem/utils/copy.hpp"

#ifdef VSIM_ACCEL
#include <cuda_runtime_api.h>
#include <hip/hip_runtime_api.h>
#include <sycl/sycl.hpp>
#undef H2D
#include "vecmem/memory/cuda/device_memory_resource.hpp"
#include "vecmem/memory/cuda/host_memory_resource.hpp"
#include "vecmem/memory/cuda/managed_memory_resource.hpp"
#include "vecmem/memory/hip/device_memory_resource.hpp"
#include "vecmem/memory/hip/host_memory_resource.hpp"
#include "vecmem/memory/hip/managed_memory_resource.hpp"
#include "vecmem/memory/sycl/device_memory_resource.hpp"
#include "vecmem/memory/sycl/host_memory_resource.hpp"
#include "vecmem/memory/sycl/shared_memory_resource.hpp"
#include "vecmem/utils/cuda/async_copy.hpp"
#include "vecmem/utils/cuda/copy.hpp"
#include "vecmem/utils/hip/copy.hpp"
#include "vecmem/utils/sycl/async_copy.hpp"
#include "vecmem/utils/sycl/copy.hpp"
#endif

using namespace hx;
using namespace accel;

namespace {
using vecmem::data::buffer_type;
using u16 = std::uint16_t;

struct BackendError : std::runtime_error {
    BackendError() : std::runtime_error("simulated back-end failure") {}
};

struct SimEvent : vecmem::abstract_event {
    Stream& s;
    u64 lo, hi;  ///< operations [lo, hi) complete the event
    bool handled = false;
    explicit SimEvent(Stream& st) : s(st) {
        lo = s.ooo ? s.ev_from : 0;
        hi = s.next;
        s.ev_from = s.next;
        ++s.events;
    }
    void complete() {
        if (!s.ooo) {
            while (!s.q.empty() && s.q.front().id < hi) s.exec_at(0);
            return;
        }
        for (;;) {
            std::vector<std::size_t> c;
            for (std::size_t i = 0; i < s.q.size(); ++i)
                if (s.q[i].id >= lo && s.q[i].id < hi) c.push_back(i);
            if (c.empty()) return;
            s.exec_at(c[choose(c.size())]);
        }
    }
    ~SimEvent() override {
        HostScope h;
        --s.events;
        if (handled) return;
        // like the real ones: wait implicitly ...
        complete();
        // ... but complain, because nobody asked for it
        if (s.in_call && !std::uncaught_exceptions())
            flag("C33", "event-dropped-in-library",
                 "the library created an event and destroyed it without "
                 "waiting for it (fatal with VECMEM_FAIL_ON_ASYNC_ERRORS)");
    }
    void wait() override {
        HostScope h;
        complete();
        handled = true;
    }
    void ignore() override {
        HostScope h;
        handled = true;
    }
};

class SimCopy : public vecmem::copy {
public:
    Stream& s;
    explicit SimCopy(Stream& st) : s(st) {}

protected:
    void do_copy(std::size_t n, const void* from, void* to,
                 type::copy_type t) const override {
        HostScope h;
        if (fire(F_COPY)) throw BackendError();
        s.copy(n, from, to, static_cast<int>(t));
    }
    void do_memset(std::size_t n, void* p, int v) const override {
        HostScope h;
        if (fire(F_COPY)) throw BackendError();
        s.set(n, p, v);
    }
    event_type create_event() const override {
        HostScope h;
        if (fire(F_COPY)) {
            // assumption: without an event there is nothing left to wait for,
            // so a back-end that cannot create one has finished its work
            s.drain();
            throw BackendError();
        }
        return event_type(new SimEvent(s));
    }
};

/// Memory resource of a region, only as aligned as it is asked for.
class RegionResource : public vecmem::memory_resource {
public:
    int region;
    explicit RegionResource(int r) : region(r) {}
    std::size_t live = 0, made = 0;
    std::map<void*, std::size_t> off;

private:
    void* do_allocate(std::size_t n, std::size_t al) override {
        HostScope h;
        if (fire(F_UP)) throw std::bad_alloc();
        // blocks of a region are aligned to 16 bytes, this one need not be
        std::size_t k = 0;
        if (al < 16) k = (made++ * 7 + 3) % (16 / al) * al;
        void* p = region_alloc(region, (n ? n : 1) + k, al);
        if (!p) throw std::bad_alloc();
        p = static_cast<u8*>(p) + k;
        if (k) off[p] = k;
        ::memset(p, 0xA5, n ? n : 1);
        ++live;
        return p;
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override {
        HostScope h;
        if (!p) return;
        auto it = off.find(p);
        if (it != off.end()) {
            p = static_cast<u8*>(p) - it->second;
            off.erase(it);
        }
        if (!region_free(region, p)) {
            flag(PROP, "bad-deallocation", "unknown block was deallocated");
            abandon("bad dealloc");
        }
        --live;
    }
    bool do_is_equal(const memory_resource& o) const noexcept override {
        return this == &o;
    }
};

/// A copy object and the memory resources that go with it.
struct Backend {
    Stream& st;
    Runtime run;
    vecmem::copy* dev = nullptr;
    vecmem::memory_resource* mr[3] = {};
    std::vector<std::function<void()>> drop;
    bool sync = false;

    template <class T, class... A>
    T* make(A&&... a) {
        SimScope sc;
        T* t = new T(std::forward<A>(a)...);
        HostScope h;
        drop.push_back([t] { delete t; });
        return t;
    }
    Backend(Stream& s, int bk) : st(s) {
        run.streams.insert(&st);
        run.eager = st.eager;
        switch (bk) {
            case 0:
                for (int i = 0; i < 3; ++i) mr[i] = make<RegionResource>(i);
                dev = make<SimCopy>(st);
                break;
#ifdef VSIM_ACCEL
            case 1:
                st.ooo = false;
                run.expected = &st;
                cuda();
                dev = make<vecmem::cuda::async_copy>(
                    vecmem::cuda::stream_wrapper(static_cast<void*>(&st)));
                break;
            case 2:
                synchronous();
                cuda();
                dev = make<vecmem::cuda::copy>();
                break;
            case 3:
                synchronous();
                mr[0] = make<vecmem::hip::host_memory_resource>();
                mr[1] = make<vecmem::hip::device_memory_resource>();
                mr[2] = make<vecmem::hip::managed_memory_resource>();
                dev = make<vecmem::hip::copy>();
                break;
            default: {
                auto* q = make<::sycl::queue>(&st);
                run.expected = &st;
                vecmem::sycl::queue_wrapper w(static_cast<void*>(q));
                mr[0] = make<vecmem::sycl::host_memory_resource>(w);
                mr[1] = make<vecmem::sycl::device_memory_resource>(w);
                mr[2] = make<vecmem::sycl::shared_memory_resource>(w);
                if (bk == 4) {
                    dev = make<vecmem::sycl::async_copy>(w);
                } else {
                    sync = true;
                    dev = make<vecmem::sycl::copy>(w);
                }
            }
#endif
        }
    }
    void synchronous() {
        sync = true;
        run.def = &st;
        st.ooo = false;
    }
#ifdef VSIM_ACCEL
    void cuda() {
        mr[0] = make<vecmem::cuda::host_memory_resource>();
        mr[1] = make<vecmem::cuda::device_memory_resource>();
        mr[2] = make<vecmem::cuda::managed_memory_resource>();
    }
#endif
    void clear() {
        SimScope sc;
        while (!drop.empty()) {
            auto f = drop.back();
            {
                HostScope h;
                drop.pop_back();
            }
            f();
        }
    }
};

// -------------------------------------------------------------- model -----
struct Row {
    u32 cap = 0;
    u8* p = nullptr;
    u32* sp = nullptr;
    u32 size = 0;
    std::vector<u8> b;
    std::vector<char> known;
};
struct Var {
    int kind = 0;  // 0 scalar, 1 vector, 2 jagged
    std::size_t es = 1;
    std::vector<Row> rows;
};
using Shape = std::vector<std::size_t>;

struct Big {
    u32 v[6];
};

template <class T>
void add_row(Var& v, const vecmem::data::vector_view<T>& x) {
    Row r;
    r.cap = x.capacity();
    r.p = reinterpret_cast<u8*>(
        const_cast<std::remove_const_t<T>*>(x.ptr()));
    r.sp = const_cast<u32*>(reinterpret_cast<const u32*>(x.size_ptr()));
    v.rows.push_back(r);
}
template <class T>
Var var_of(const vecmem::data::vector_view<T>& x) {
    Var v;
    v.kind = 1;
    v.es = sizeof(T);
    add_row(v, x);
    return v;
}
template <class T>
Var var_of(const vecmem::data::jagged_vector_view<T>& x) {
    Var v;
    v.kind = 2;
    v.es = sizeof(T);
    for (std::size_t i = 0; i < x.size(); ++i) add_row(v, x.host_ptr()[i]);
    return v;
}
template <class T>
Var var_of(T* x) {
    Var v;
    v.kind = 0;
    v.es = sizeof(T);
    Row r;
    r.cap = 1;
    r.p = reinterpret_cast<u8*>(x);
    v.rows.push_back(r);
    return v;
}
/// Does the device see the same description as the host?
template <class T>
bool layout_ok(const vecmem::data::jagged_vector_view<T>& x) {
    return x.size() == 0 || x.ptr() == x.host_ptr() ||
           !memcmp(static_cast<const void*>(x.ptr()),
                   static_cast<const void*>(x.host_ptr()),
                   x.size() * sizeof(*x.ptr()));
}
template <class X>
bool layout_ok(const X&) {
    return true;
}

// ------------------------------------------------------------- worlds -----
template <class T>
struct W1 {
    static constexpr bool has_to = true, jag = false, soa = false;
    static constexpr const char* prop = "C30";
    using Host = vecmem::vector<T>;
    using Buf = vecmem::data::vector_buffer<T>;
    using View = vecmem::data::vector_view<T>;
    static Shape shape(Rng& r) {
        if (r.chance(0.03)) return Shape{1 + r.below(u64(1) << r.range(5, 13))};
        return Shape{r.chance(0.12) ? 0 : 1 + r.below(24)};
    }
    static Host* make_host(vecmem::memory_resource& m) { return new Host(&m); }
    static void host_shape(Host& h, const Shape& s) { h.resize(s[0]); }
    static Buf* make_buf(const Shape& s, vecmem::memory_resource& m,
                         vecmem::memory_resource*, bool rs) {
        return new Buf(static_cast<u32>(s[0]), m,
                       rs ? buffer_type::resizable : buffer_type::fixed_size);
    }
    static View data(Host& h) { return vecmem::get_data(h); }
    static std::vector<Var> vars(View v) { return {var_of(v)}; }
    static bool layouts(View) { return true; }
};
template <class T>
struct WJ {
    static constexpr bool has_to = true, jag = true, soa = false;
    static constexpr const char* prop = "C31";
    using Host = vecmem::jagged_vector<T>;
    using Buf = vecmem::data::jagged_vector_buffer<T>;
    using View = vecmem::data::jagged_vector_view<T>;
    static Shape shape(Rng& r) {
        Shape s;
        u64 n = r.chance(0.08) ? 0 : 1 + r.below(5);
        bool z = r.chance(0.1);
        u64 len = 9;
        if (r.chance(0.03)) {  // many of them, or long ones
            if (r.chance(0.6)) n = 1 + r.below(u64(1) << r.range(3, 8));
            if (n < 20) len = 1 + r.below(u64(1) << r.range(4, 10));
        }
        for (u64 i = 0; i < n; ++i)
            s.push_back(z || r.chance(0.25) ? 0 : r.below(len));
        return s;
    }
    static Host* make_host(vecmem::memory_resource& m) { return new Host(&m); }
    static void host_shape(Host& h, const Shape& s) {
        h.clear();
        h.resize(s.size(), vecmem::vector<T>(h.get_allocator().resource()));
        for (std::size_t i = 0; i < s.size(); ++i) h[i].resize(s[i]);
    }
    static Buf* make_buf(const Shape& s, vecmem::memory_resource& m,
                         vecmem::memory_resource* hm, bool rs) {
        return new Buf(s, m, hm,
                       rs ? buffer_type::resizable : buffer_type::fixed_size);
    }
    static vecmem::data::jagged_vector_data<T> data(Host& h) {
        return vecmem::get_data(h);
    }
    static std::vector<Var> vars(View v) { return {var_of(v)}; }
    static bool layouts(View v) { return layout_ok(v); }
};
template <typename B>
struct iface : public B {
    using B::B;
};
namespace et = vecmem::edm::type;
using soa_a = vecmem::edm::container<iface, et::scalar<u64>, et::vector<u8>,
                                     et::vector<u64>, et::vector<Big>>;
using soa_e = vecmem::edm::container<iface, et::scalar<u8>, et::vector<u64>,
                                     et::vector<u16>, et::vector<Big>>;
using soa_b =
    vecmem::edm::container<iface, et::vector<u16>, et::jagged_vector<u64>,
                           et::scalar<u32>, et::jagged_vector<u8>>;

template <class C, bool JAG>
struct WS {
    static constexpr bool has_to = false, jag = JAG, soa = true;
    static constexpr const char* prop = "C32";
    using Host = typename C::host;
    using Buf = typename C::buffer;
    using View = typename C::view;
    static Shape shape(Rng& r) {
        return JAG ? WJ<u8>::shape(r) : W1<u8>::shape(r);
    }
    static Host* make_host(vecmem::memory_resource& m) { return new Host(m); }
    static void host_shape(Host& h, const Shape& s) {
        if constexpr (JAG) {
            h.resize(s.size());
            for (std::size_t i = 0; i < s.size(); ++i) {
                h.template get<1>()[i].resize(s[i]);
                h.template get<3>()[i].resize((s[i] * 7 + 3) % (s[i] + 1));
            }
        } else {
            h.resize(s[0]);
        }
    }
    static Buf* make_buf(const Shape& s, vecmem::memory_resource& m,
                         vecmem::memory_resource* hm, bool rs) {
        auto t = rs ? buffer_type::resizable : buffer_type::fixed_size;
        if constexpr (JAG)
            return new Buf(s, m, hm, t);
        else
            return new Buf(static_cast<u32>(s[0]), m, t);
    }
    static auto data(Host& h) { return vecmem::get_data(h); }
    static std::vector<Var> vars(View v) {
        return {var_of(v.template get<0>()), var_of(v.template get<1>()),
                var_of(v.template get<2>()), var_of(v.template get<3>())};
    }
    static bool layouts(View v) {
        return layout_ok(v.template get<0>()) &&
               layout_ok(v.template get<1>()) &&
               layout_ok(v.template get<2>()) && layout_ok(v.template get<3>());
    }
};

}  // namespace
