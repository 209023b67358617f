// Stand-ins for the CUDA and HIP runtimes on top of the simulated accelerator.
#include "accel.hpp"

#include <cuda_runtime_api.h>
#include <hip/hip_runtime_api.h>


using namespace accel;
#define STREAM(S) R().use(reinterpret_cast<Stream*>(S))

#define VSIM_RUNTIME(P, API, E)                                               \
    static P##Error_t P##_done(P##Error_t e) {                                \
        if (e != P##Success) R().last_error = static_cast<int>(e);            \
        return e;                                                             \
    }                                                                         \
    static P##Error_t P##_alloc(int kind, void** p, std::size_t n) {          \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (!p) return P##_done(P##ErrorInvalidValue);                        \
        if (fire(F_UP)) return P##_done(P##ErrorMemoryAllocation);            \
        if (n == 0) {                                                         \
            *p = nullptr;                                                     \
            return P##Success;                                                \
        }                                                                     \
        *p = R().alloc(API, kind, n, 256, R().cur(), nullptr);                  \
        return P##_done(*p ? P##Success : P##ErrorMemoryAllocation);          \
    }                                                                         \
    static P##Error_t P##_free(int kinds, void* p) {                          \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (p) R().free(API, kinds, p, nullptr);                              \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##Malloc(void** p, std::size_t n) {                           \
        return P##_alloc(1, p, n);                                            \
    }                                                                         \
    P##Error_t P##MallocManaged(void** p, std::size_t n, unsigned) {          \
        return P##_alloc(2, p, n);                                            \
    }                                                                         \
    P##Error_t P##Free(void* p) { return P##_free(2 | 4, p); }                \
    const char* P##GetErrorString(P##Error_t e) {                             \
        return e == P##Success ? "no error" : "simulated error";              \
    }                                                                         \
    const char* P##GetErrorName(P##Error_t e) {                               \
        return P##GetErrorString(e);                                          \
    }                                                                         \
    P##Error_t P##GetLastError() {                                            \
        HostScope h;                                                          \
        R().enter();                                                          \
        auto e = static_cast<P##Error_t>(R().last_error);                     \
        R().last_error = 0;                                                   \
        return e;                                                             \
    }                                                                         \
    P##Error_t P##PeekAtLastError() {                                         \
        HostScope h;                                                          \
        R().enter();                                                          \
        return static_cast<P##Error_t>(R().last_error);                       \
    }                                                                         \
    P##Error_t P##GetDevice(int* d) {                                         \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (R().get_device_fails && fire(F_API)) return P##_done(E);          \
        *d = R().cur();                                                         \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##GetDeviceCount(int* d) {                                    \
        HostScope h;                                                          \
        R().enter();                                                          \
        *d = R().ndev;                                                        \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##SetDevice(int d) {                                          \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (d < 0 || d >= R().ndev) return P##_done(P##ErrorInvalidDevice);   \
        if (d != R().home() && fire(F_STALL)) return P##_done(E);             \
        R().cur() = d;                                                          \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##StreamCreate(P##Stream_t* s) {                              \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (fire(F_API)) return P##_done(E);                                  \
        *s = reinterpret_cast<P##Stream_t>(R().make_stream(R().cur(), false));  \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##StreamCreateWithFlags(P##Stream_t* s, unsigned) {           \
        return P##StreamCreate(s);                                            \
    }                                                                         \
    P##Error_t P##StreamDestroy(P##Stream_t s) {                              \
        HostScope h;                                                          \
        R().enter();                                                          \
        R().drop_stream(reinterpret_cast<Stream*>(s));                        \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##StreamSynchronize(P##Stream_t s) {                          \
        HostScope h;                                                          \
        R().enter();                                                          \
        STREAM(s).drain();                                                    \
        if (fire(F_API)) return P##_done(E);                                  \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##StreamQuery(P##Stream_t s) {                                \
        HostScope h;                                                          \
        R().enter();                                                          \
        Stream& x = STREAM(s);                                                \
        x.tick();                                                             \
        return x.q.empty() ? P##Success : P##ErrorNotReady;                   \
    }                                                                         \
    P##Error_t P##DeviceSynchronize() {                                       \
        HostScope h;                                                          \
        R().enter();                                                          \
        for (Stream* s : R().streams)                                         \
            if (s->device == R().cur()) s->drain();                             \
        return P##Success;                                                    \
    }                                                                         \
    static bool P##_dir(P##MemcpyKind k, int& d) {                            \
        switch (k) {                                                          \
            case P##MemcpyHostToHost:                                         \
                d = H2H;                                                      \
                return true;                                                  \
            case P##MemcpyHostToDevice:                                       \
                d = H2D;                                                      \
                return true;                                                  \
            case P##MemcpyDeviceToHost:                                       \
                d = D2H;                                                      \
                return true;                                                  \
            case P##MemcpyDeviceToDevice:                                     \
                d = D2D;                                                      \
                return true;                                                  \
            case P##MemcpyDefault:                                            \
                d = ANY;                                                      \
                return true;                                                  \
        }                                                                     \
        return false;                                                         \
    }                                                                         \
    P##Error_t P##MemcpyAsync(void* to, const void* from, std::size_t n,      \
                              P##MemcpyKind k, P##Stream_t s) {               \
        HostScope h;                                                          \
        R().enter();                                                          \
        int d;                                                                \
        if (!P##_dir(k, d)) return P##_done(P##ErrorInvalidValue);            \
        if (fire(F_COPY)) return P##_done(E);                                 \
        STREAM(s).copy(n, from, to, d);                                       \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##Memcpy(void* to, const void* from, std::size_t n,           \
                         P##MemcpyKind k) {                                   \
        HostScope h;                                                          \
        R().enter();                                                          \
        P##Error_t e = P##MemcpyAsync(to, from, n, k, nullptr);               \
        R().def->drain();                                                     \
        return e;                                                             \
    }                                                                         \
    P##Error_t P##MemsetAsync(void* p, int v, std::size_t n,                  \
                              P##Stream_t s) {                                \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (fire(F_COPY)) return P##_done(E);                                 \
        STREAM(s).set(n, p, v);                                               \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##Memset(void* p, int v, std::size_t n) {                     \
        HostScope h;                                                          \
        R().enter();                                                          \
        P##Error_t e = P##MemsetAsync(p, v, n, nullptr);                      \
        R().def->drain();                                                     \
        return e;                                                             \
    }                                                                         \
    static Event* P##_event(P##Event_t e) {                                   \
        Event* x = reinterpret_cast<Event*>(e);                               \
        if (!R().events.count(x))                                             \
            fail_any("bad-event", "an event is used that does not exist (any "\
                                  "more)");                                   \
        return x;                                                             \
    }                                                                         \
    P##Error_t P##EventCreate(P##Event_t* e) {                                \
        HostScope h;                                                          \
        R().enter();                                                          \
        if (fire(F_API)) return P##_done(E);                                  \
        Event* x = new Event();                                               \
        x->device = R().cur();                                                  \
        R().events.insert(x);                                                 \
        *e = reinterpret_cast<P##Event_t>(x);                                 \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##EventCreateWithFlags(P##Event_t* e, unsigned) {             \
        return P##EventCreate(e);                                             \
    }                                                                         \
    P##Error_t P##EventRecord(P##Event_t e, P##Stream_t s) {                  \
        HostScope h;                                                          \
        R().enter();                                                          \
        Event* x = P##_event(e);                                              \
        Stream& st = STREAM(s);                                               \
        if (x->device != (s ? st.device : R().cur()))                           \
            return P##_done(P##ErrorInvalidHandle);                           \
        if (fire(F_API)) return P##_done(E);                                  \
        x->s = &st;                                                           \
        x->upto = st.next - 1;                                                \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##EventSynchronize(P##Event_t e) {                            \
        HostScope h;                                                          \
        R().enter();                                                          \
        Event* x = P##_event(e);                                              \
        if (x->s && R().streams.count(x->s)) x->s->complete(x->upto);         \
        if (fire(F_API)) return P##_done(E);                                  \
        return P##Success;                                                    \
    }                                                                         \
    P##Error_t P##EventQuery(P##Event_t e) {                                  \
        HostScope h;                                                          \
        R().enter();                                                          \
        Event* x = P##_event(e);                                              \
        if (!x->s || !R().streams.count(x->s)) return P##Success;             \
        x->s->tick();                                                         \
        return x->s->q.empty() || x->s->q.front().id > x->upto                \
                   ? P##Success                                               \
                   : P##ErrorNotReady;                                        \
    }                                                                         \
    P##Error_t P##EventDestroy(P##Event_t e) {                                \
        HostScope h;                                                          \
        R().enter();                                                          \
        Event* x = P##_event(e);                                              \
        R().events.erase(x);                                                  \
        R().dead_events.push_back(x);                                         \
        /* may report the failure of something else */                        \
        if (fire(F_API)) return P##_done(E);                                  \
        return P##Success;                                                    \
    }

VSIM_RUNTIME(cuda, CUDA, cudaErrorUnknown)
VSIM_RUNTIME(hip, HIP, hipErrorUnknown)

cudaError_t cudaMallocHost(void** p, std::size_t n) {
    return cuda_alloc(0, p, n);
}
cudaError_t cudaHostAlloc(void** p, std::size_t n, unsigned) {
    return cuda_alloc(0, p, n);
}
cudaError_t cudaFreeHost(void* p) { return cuda_free(1, p); }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d) {
    HostScope h;
    R().enter();
    if (d < 0 || d >= R().ndev) return cudaErrorInvalidDevice;
    ::memset(p, 0, sizeof *p);
    ::strcpy(p->name, "Simulated");
    p->pciDeviceID = d;
    return cudaSuccess;
}
hipError_t hipHostMalloc(void** p, std::size_t n, unsigned) {
    return hip_alloc(0, p, n);
}
hipError_t hipMallocHost(void** p, std::size_t n) { return hip_alloc(0, p, n); }
hipError_t hipHostFree(void* p) { return hip_free(1, p); }
