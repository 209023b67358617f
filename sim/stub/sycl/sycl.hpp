// Stand-in for the SYCL runtime: the parts that vecmem uses.
#pragma once
#include <atomic>
#include <cstddef>
namespace sycl {
namespace access {
enum class address_space { global_space, local_space, generic_space };
}
enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };

template <typename T> struct global_ptr {
    T* p;
    explicit global_ptr(T* q) : p(q) {}
    T* get() const { return p; }
};
template <typename T> struct local_ptr {
    T* p;
    explicit local_ptr(T* q) : p(q) {}
    T* get() const { return p; }
};
// SYCL 1.2.1 atomics (relaxed only)
template <typename T, access::address_space A = access::address_space::global_space>
struct atomic {
    T* p;
    template <typename P> explicit atomic(P q) : p(q.get()) {}
};
#define VSIM_SYCL_ATOMIC(NAME, BODY)                                      \
    template <typename T,                                                 \
              access::address_space A = access::address_space::global_space> \
    inline T atomic_##NAME(atomic<T, A> o, T v) { return BODY; }
VSIM_SYCL_ATOMIC(exchange, __atomic_exchange_n(o.p, v, __ATOMIC_RELAXED))
VSIM_SYCL_ATOMIC(fetch_add, __atomic_fetch_add(o.p, v, __ATOMIC_RELAXED))
VSIM_SYCL_ATOMIC(fetch_sub, __atomic_fetch_sub(o.p, v, __ATOMIC_RELAXED))
VSIM_SYCL_ATOMIC(fetch_and, __atomic_fetch_and(o.p, v, __ATOMIC_RELAXED))
VSIM_SYCL_ATOMIC(fetch_or, __atomic_fetch_or(o.p, v, __ATOMIC_RELAXED))
VSIM_SYCL_ATOMIC(fetch_xor, __atomic_fetch_xor(o.p, v, __ATOMIC_RELAXED))
#undef VSIM_SYCL_ATOMIC
template <typename T, access::address_space A = access::address_space::global_space>
inline T atomic_load(atomic<T, A> o) { return __atomic_load_n(o.p, __ATOMIC_RELAXED); }
template <typename T, access::address_space A = access::address_space::global_space>
inline void atomic_store(atomic<T, A> o, T v) { __atomic_store_n(o.p, v, __ATOMIC_RELAXED); }
template <typename T, access::address_space A = access::address_space::global_space>
inline bool atomic_compare_exchange_strong(atomic<T, A> o, T& e, T v) {
    return __atomic_compare_exchange_n(o.p, &e, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}
// SYCL 2020
template <typename T, memory_order O, memory_scope S,
          access::address_space A = access::address_space::generic_space>
struct atomic_ref {
    using value_type = T;
    T* p;
    static int o(memory_order m) {
        switch (m) {
            case memory_order::relaxed: return __ATOMIC_RELAXED;
            case memory_order::acquire: return __ATOMIC_ACQUIRE;
            case memory_order::release: return __ATOMIC_RELEASE;
            case memory_order::acq_rel: return __ATOMIC_ACQ_REL;
            default: return __ATOMIC_SEQ_CST;
        }
    }
    static int f(memory_order m) {
        return m == memory_order::release ? __ATOMIC_RELAXED
               : m == memory_order::acq_rel ? __ATOMIC_ACQUIRE : o(m);
    }
    explicit atomic_ref(T& r) : p(&r) {}
    atomic_ref(const atomic_ref&) = default;
    T operator=(T v) const { store(v); return v; }
    void store(T v, memory_order m = O, memory_scope = S) const { __atomic_store_n(p, v, o(m)); }
    T load(memory_order m = O, memory_scope = S) const { return __atomic_load_n(p, o(m)); }
    T exchange(T v, memory_order m = O, memory_scope = S) const { return __atomic_exchange_n(p, v, o(m)); }
    bool compare_exchange_strong(T& e, T v, memory_order s, memory_order x, memory_scope = S) const {
        return __atomic_compare_exchange_n(p, &e, v, false, o(s), o(x));
    }
    bool compare_exchange_strong(T& e, T v, memory_order s = O, memory_scope = S) const {
        return __atomic_compare_exchange_n(p, &e, v, false, o(s), f(s));
    }
    T fetch_add(T v, memory_order m = O, memory_scope = S) const { return __atomic_fetch_add(p, v, o(m)); }
    T fetch_sub(T v, memory_order m = O, memory_scope = S) const { return __atomic_fetch_sub(p, v, o(m)); }
    T fetch_and(T v, memory_order m = O, memory_scope = S) const { return __atomic_fetch_and(p, v, o(m)); }
    T fetch_or(T v, memory_order m = O, memory_scope = S) const { return __atomic_fetch_or(p, v, o(m)); }
    T fetch_xor(T v, memory_order m = O, memory_scope = S) const { return __atomic_fetch_xor(p, v, o(m)); }
};
}  // namespace sycl
#ifdef VSIM_ACCEL
#include "../sycl_host.hpp"
#endif
