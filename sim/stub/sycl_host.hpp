// Stand-in for the host side of the SYCL runtime (on sim/h/accel.hpp).
#pragma once
#include <stdexcept>
#include <string>
#include <vector>

#include "../h/accel.hpp"

namespace sycl {
class exception : public std::exception {
public:
    const char* what() const noexcept override { return "simulated error"; }
};
namespace info {
namespace device {
struct name {
    using return_type = std::string;
};
}  // namespace device
}  // namespace info
class device {
public:
    int id = 0;
    template <class I>
    typename I::return_type get_info() const {
        return "simulated";
    }
    bool operator==(const device& o) const { return id == o.id; }
};
class context {
public:
    accel::Stream* s = nullptr;
    bool operator==(const context& o) const { return s == o.s; }
};

/// Reference to a queue or to an operation in it
class event {
    friend class queue;
    accel::Stream* s = nullptr;
    unsigned long id = 0;
    void take(accel::Stream* x) {
        vsim::HostScope h;
        s = x;
        if (s) ++s->refs;
    }
    void drop() {
        vsim::HostScope h;
        if (s && --s->refs == 0 && !s->user) accel::R().drop_stream(s);
        s = nullptr;
    }
    void complete() const {
        if (s && id) s->complete(id);
    }
    static void check() {
        if (vsim::fire(vsim::F_API)) {
            throw exception();
        }
    }

public:
    event() = default;
    event(accel::Stream* x, unsigned long i) : id(i) { take(x); }
    event(const event& o) : id(o.id) { take(o.s); }
    event& operator=(const event& o) {
        if (this != &o) {
            accel::Stream* x = o.s;
            take2(x);
            id = o.id;
        }
        return *this;
    }
    ~event() { drop(); }
    void take2(accel::Stream* x) {
        vsim::HostScope h;
        if (x) ++x->refs;
        drop();
        s = x;
    }
    void wait() {
        vsim::HostScope h;
        complete();
    }
    void wait_and_throw() {
        vsim::HostScope h;
        complete();
        check();
    }
    static void wait(const std::vector<event>& v) {
        vsim::HostScope h;
        for (auto& e : v) e.complete();
    }
    static void wait_and_throw(const std::vector<event>& v) {
        vsim::HostScope h;
        for (auto& e : v) e.complete();
        if (!v.empty()) check();
    }
};

class queue {
    accel::Stream* s = nullptr;
    void take(accel::Stream* x) {
        vsim::HostScope h;
        s = x;
        if (s) ++s->refs;
    }
    void drop() {
        vsim::HostScope h;
        if (s && --s->refs == 0 && !s->user) accel::R().drop_stream(s);
        s = nullptr;
    }
    accel::Stream& use() const { return accel::R().use(s); }

public:
    queue() {
        vsim::HostScope h;
        if (vsim::fire(vsim::F_API)) {
            throw exception();
        }
        take(accel::R().make_stream(0, accel::R().sycl_ooo));
    }
    /// harness: a queue of the user
    explicit queue(accel::Stream* x) { take(x); }
    queue(const queue& o) { take(o.s); }
    queue& operator=(const queue& o) {
        if (s != o.s) {
            drop();
            take(o.s);
        }
        return *this;
    }
    ~queue() { drop(); }
    bool operator==(const queue& o) const { return s == o.s; }
    bool operator!=(const queue& o) const { return s != o.s; }
    accel::Stream* impl() const { return s; }
    device get_device() const {
        device d;
        d.id = s->device;
        return d;
    }
    context get_context() const {
        context c;
        c.s = s;
        return c;
    }
    bool is_in_order() const { return !s->ooo; }
    event memcpy(void* to, const void* from, std::size_t n) const {
        vsim::HostScope h;
        fault();
        return event(s, use().copy(n, from, to, accel::ANY));
    }
    event memset(void* p, int v, std::size_t n) const {
        vsim::HostScope h;
        fault();
        return event(s, use().set(n, p, v));
    }
    void wait() const {
        vsim::HostScope h;
        use().drain();
    }
    void wait_and_throw() const {
        wait();
        vsim::HostScope h;
        if (vsim::fire(vsim::F_API)) {
            throw exception();
        }
    }

private:
    static void fault() {
        accel::R().enter();
        if (vsim::fire(vsim::F_COPY)) {
            throw exception();
        }
    }
};

namespace vsim_detail {
inline void* alloc(int kind, std::size_t al, std::size_t n, const queue& q) {
    vsim::HostScope h;
    accel::R().enter();
    if (vsim::fire(vsim::F_UP)) return nullptr;
    if (vsim::fire(vsim::F_UPX)) {
        throw exception();
    }
    if (!n) return nullptr;
    accel::R().use(q.impl());
    return accel::R().alloc(accel::SYCL, kind, n, al ? al : 16,
                            q.impl()->device, q.impl());
}
}  // namespace vsim_detail
inline void* aligned_alloc_host(std::size_t al, std::size_t n, const queue& q) {
    return vsim_detail::alloc(0, al, n, q);
}
inline void* aligned_alloc_device(std::size_t al, std::size_t n, const queue& q) {
    return vsim_detail::alloc(1, al, n, q);
}
inline void* aligned_alloc_shared(std::size_t al, std::size_t n, const queue& q) {
    return vsim_detail::alloc(2, al, n, q);
}
inline void* malloc_host(std::size_t n, const queue& q) {
    return vsim_detail::alloc(0, 16, n, q);
}
inline void* malloc_device(std::size_t n, const queue& q) {
    return vsim_detail::alloc(1, 16, n, q);
}
inline void* malloc_shared(std::size_t n, const queue& q) {
    return vsim_detail::alloc(2, 16, n, q);
}
inline void free(void* p, const context& c) {
    vsim::HostScope h;
    if (!p) return;
    accel::R().enter();
    accel::R().free(accel::SYCL, 7, p, c.s);
}
inline void free(void* p, const queue& q) { sycl::free(p, q.get_context()); }
}  // namespace sycl
