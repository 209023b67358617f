// Selects which of the device back-ends of the library's header code is
// compiled into a simulator binary.  Standard headers come first, so that the
// compiler macros of the back-ends only affect the library's own headers.
#pragma once
#include "../rt/vsim.hpp"

#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#if defined(VSIM_CUDA) || defined(VSIM_HIP)
// Device intrinsics: relaxed atomic operations of the simulated machine.
template <typename T> inline T atomicAdd(T* p, T v) { return __atomic_fetch_add(p, v, __ATOMIC_RELAXED); }
template <typename T> inline T atomicSub(T* p, T v) { return __atomic_fetch_sub(p, v, __ATOMIC_RELAXED); }
template <typename T> inline T atomicAnd(T* p, T v) { return __atomic_fetch_and(p, v, __ATOMIC_RELAXED); }
template <typename T> inline T atomicOr(T* p, T v) { return __atomic_fetch_or(p, v, __ATOMIC_RELAXED); }
template <typename T> inline T atomicXor(T* p, T v) { return __atomic_fetch_xor(p, v, __ATOMIC_RELAXED); }
template <typename T> inline T atomicExch(T* p, T v) { return __atomic_exchange_n(p, v, __ATOMIC_RELAXED); }
template <typename T> inline T atomicCAS(T* p, T e, T v) {
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
    return e;
}
// Threads of the simulated device are in blocks of their own: what has the
// scope of a block is neither atomic nor ordered between them.
#define VSIM_BLOCK_OP(NAME, EXPR)                                             \
    template <typename T> inline T NAME##_system(T* p, T v) { return NAME(p, v); } \
    template <typename T> inline T NAME##_block(T* p, T v) {                  \
        const T old = __atomic_load_n(p, __ATOMIC_RELAXED);                   \
        __atomic_store_n(p, static_cast<T>(EXPR), __ATOMIC_RELAXED);          \
        return old;                                                           \
    }
VSIM_BLOCK_OP(atomicAdd, old + v)
VSIM_BLOCK_OP(atomicSub, old - v)
VSIM_BLOCK_OP(atomicAnd, old & v)
VSIM_BLOCK_OP(atomicOr, old | v)
VSIM_BLOCK_OP(atomicXor, old ^ v)
VSIM_BLOCK_OP(atomicExch, v)
#undef VSIM_BLOCK_OP
template <typename T> inline T atomicCAS_system(T* p, T e, T v) { return atomicCAS(p, e, v); }
template <typename T> inline T atomicCAS_block(T* p, T e, T v) {
    const T old = __atomic_load_n(p, __ATOMIC_RELAXED);
    if (old == e) __atomic_store_n(p, v, __ATOMIC_RELAXED);
    return old;
}
template <typename T> inline T atomicMax(T* p, T v) {
    T old = __atomic_load_n(p, __ATOMIC_RELAXED);
    while (old < v && !__atomic_compare_exchange_n(p, &old, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
    return old;
}
template <typename T> inline T atomicMin(T* p, T v) {
    T old = __atomic_load_n(p, __ATOMIC_RELAXED);
    while (v < old && !__atomic_compare_exchange_n(p, &old, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
    return old;
}
inline void __threadfence_block() {}
inline void __threadfence_system() { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
inline void __threadfence() { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
#define __device__
#define __host__
#define __global__
#endif
#if defined(VSIM_CUDA)
#define VSIM_FLAVOUR "cuda"
#define __CUDACC__ 1
#define __CUDA_ARCH__ 700
#elif defined(VSIM_HIP)
#define VSIM_FLAVOUR "hip"
#define __HIP__ 1
#define __HIPCC__ 1
#define __HIP_DEVICE_COMPILE__ 1
#elif defined(VSIM_SYCL)
#define VSIM_FLAVOUR "sycl"
#define SYCL_LANGUAGE_VERSION 202001
#include <sycl/sycl.hpp>
#elif defined(VSIM_SYCL2020)
#define VSIM_FLAVOUR "sycl2020"
#define SYCL_LANGUAGE_VERSION 202001
#define VECMEM_HAVE_SYCL_ATOMIC_REF 1
#include <sycl/sycl.hpp>
#elif defined(VSIM_DUMMY)
#define VSIM_FLAVOUR "dummy"
#undef VECMEM_SUPPORT_POSIX_ATOMIC_REF
#define VSIM_SEQUENTIAL 1
#else
#define VSIM_FLAVOUR "host"
#define VSIM_ORDERED 1
#endif
