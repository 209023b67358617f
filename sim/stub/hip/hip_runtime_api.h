// Stand-in for the HIP runtime (implemented in sim/h/accel.cpp).
#pragma once
#include <cstddef>
enum hipError_t {
    hipSuccess = 0,
    hipErrorInvalidValue = 1,
    hipErrorMemoryAllocation = 2,
    hipErrorInvalidDevice = 101,
    hipErrorInvalidHandle = 400,
    hipErrorNotReady = 600,
    hipErrorUnknown = 999
};
enum hipMemcpyKind {
    hipMemcpyHostToHost = 0,
    hipMemcpyHostToDevice = 1,
    hipMemcpyDeviceToHost = 2,
    hipMemcpyDeviceToDevice = 3,
    hipMemcpyDefault = 4
};
struct hipStream_;
struct hipEvent_;
using hipStream_t = hipStream_*;
using hipEvent_t = hipEvent_*;
constexpr unsigned hipStreamDefault = 0, hipStreamNonBlocking = 1;
constexpr unsigned hipEventDefault = 0, hipEventBlockingSync = 1,
                   hipEventDisableTiming = 2;
constexpr unsigned hipMemAttachGlobal = 1;

hipError_t hipMalloc(void**, std::size_t);
hipError_t hipMallocManaged(void**, std::size_t, unsigned = 1);
hipError_t hipFree(void*);
template <class T>
hipError_t hipMalloc(T** p, std::size_t n) {
    return hipMalloc(reinterpret_cast<void**>(p), n);
}
template <class T>
hipError_t hipMallocManaged(T** p, std::size_t n, unsigned f = 1) {
    return hipMallocManaged(reinterpret_cast<void**>(p), n, f);
}
const char* hipGetErrorString(hipError_t);
const char* hipGetErrorName(hipError_t);
hipError_t hipGetLastError();
hipError_t hipPeekAtLastError();
hipError_t hipGetDevice(int*);
hipError_t hipGetDeviceCount(int*);
hipError_t hipSetDevice(int);
hipError_t hipDeviceSynchronize();
hipError_t hipStreamCreate(hipStream_t*);
hipError_t hipStreamCreateWithFlags(hipStream_t*, unsigned);
hipError_t hipStreamDestroy(hipStream_t);
hipError_t hipStreamSynchronize(hipStream_t);
hipError_t hipStreamQuery(hipStream_t);
hipError_t hipMemcpy(void*, const void*, std::size_t, hipMemcpyKind);
hipError_t hipMemcpyAsync(void*, const void*, std::size_t, hipMemcpyKind,
                              hipStream_t = nullptr);
hipError_t hipMemset(void*, int, std::size_t);
hipError_t hipMemsetAsync(void*, int, std::size_t, hipStream_t = nullptr);
hipError_t hipEventCreate(hipEvent_t*);
hipError_t hipEventCreateWithFlags(hipEvent_t*, unsigned);
hipError_t hipEventRecord(hipEvent_t, hipStream_t = nullptr);
hipError_t hipEventSynchronize(hipEvent_t);
hipError_t hipEventQuery(hipEvent_t);
hipError_t hipEventDestroy(hipEvent_t);

constexpr unsigned hipHostMallocDefault = 0;
hipError_t hipHostMalloc(void**, std::size_t, unsigned = 0);
hipError_t hipMallocHost(void**, std::size_t);
hipError_t hipHostFree(void*);
