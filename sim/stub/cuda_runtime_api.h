// Stand-in for the CUDA runtime (implemented in sim/h/accel.cpp).
#pragma once
#include <cstddef>
enum cudaError_t {
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorUnknown = 999
};
enum cudaMemcpyKind {
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};
struct cudaStream_;
struct cudaEvent_;
using cudaStream_t = cudaStream_*;
using cudaEvent_t = cudaEvent_*;
constexpr unsigned cudaStreamDefault = 0, cudaStreamNonBlocking = 1;
constexpr unsigned cudaEventDefault = 0, cudaEventBlockingSync = 1,
                   cudaEventDisableTiming = 2;
constexpr unsigned cudaMemAttachGlobal = 1;

cudaError_t cudaMalloc(void**, std::size_t);
cudaError_t cudaMallocManaged(void**, std::size_t, unsigned = 1);
cudaError_t cudaFree(void*);
template <class T>
cudaError_t cudaMalloc(T** p, std::size_t n) {
    return cudaMalloc(reinterpret_cast<void**>(p), n);
}
template <class T>
cudaError_t cudaMallocManaged(T** p, std::size_t n, unsigned f = 1) {
    return cudaMallocManaged(reinterpret_cast<void**>(p), n, f);
}
const char* cudaGetErrorString(cudaError_t);
const char* cudaGetErrorName(cudaError_t);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetDevice(int*);
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaMemcpy(void*, const void*, std::size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void*, const void*, std::size_t, cudaMemcpyKind,
                              cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, std::size_t);
cudaError_t cudaMemsetAsync(void*, int, std::size_t, cudaStream_t = nullptr);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaEventDestroy(cudaEvent_t);

struct cudaDeviceProp {
    char name[256];
    int pciBusID, pciDeviceID;
};
constexpr unsigned cudaHostAllocDefault = 0;
cudaError_t cudaMallocHost(void**, std::size_t);
cudaError_t cudaHostAlloc(void**, std::size_t, unsigned);
cudaError_t cudaFreeHost(void*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
