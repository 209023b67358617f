// A simulated accelerator: devices, streams (in-order or out-of-order queues
// whose progress the scheduler decides), events and memory.  It is what the
// stand-ins for the CUDA, HIP and SYCL runtimes (sim/stub) are built on, and
// what the copy harness uses directly.
#pragma once
#include "common.hpp"
#include "symbolic.hpp"

#include <deque>
#include <exception>

namespace accel {
using namespace hx;

/// Property that operand checks count for; all: everything counts for it.
inline const char* PROP = "C30";
inline const char* ALL = nullptr;
template <class... A>
void flag(const char* id, const char* cls, const char* f, A... a) {
    vsim::fail(ALL ? ALL : id, cls, f, a...);
}

inline int kind_of(const void* p) {
    if (sym && Symbolic::virt(p)) return 1;
    return in_dev(p) ? 1 : in_man(p) ? 2 : in_heap(p) ? 0 : 3;
}
inline const char* const kname[] = {"host", "device", "managed", "stack"};

/// Directions of copies, numbered as in vecmem::copy::type
enum Dir { H2D, D2H, H2H, D2D, ANY };

struct Stream {
    struct QOp {
        u64 id;
        bool set;
        const void* from;
        void* to;
        std::size_t n;
        int value;
        u64 call;
    };
    std::deque<QOp> q;
    u64 next = 1;
    u64 ev_from = 0;  ///< first operation not covered by an event (ooo)
    bool ooo = false;
    int eager = 0;
    u64 call = 0;
    bool in_call = false;
    long events = 0;
    u64 executed = 0;
    int device = 0;
    int refs = 0;
    bool user = true;  ///< made by the user (not by the library)

    void bad_range(const void* p, std::size_t n, const char* what) {
        fail_any("out-of-bounds",
                 "an operation %s %zu bytes of %s memory that are not all "
                 "inside a live allocation",
                 what, n, kname[kind_of(p)]);
    }
    static bool inside(const void* p, std::size_t n) {
        int k = kind_of(p);
        if (k == 3) return true;
        if (sym && Symbolic::virt(p))
            return sym->owns(reinterpret_cast<std::uintptr_t>(p), n);
        void* base;
        std::size_t sz;
        if (!region_block(k, p, &base, sz)) return false;
        auto a = reinterpret_cast<std::uintptr_t>(p) -
                 reinterpret_cast<std::uintptr_t>(base);
        return a <= sz && n <= sz - a;
    }
    void dead(const QOp& o, const void* p) {
        fail_any("operand-gone-before-execution",
                 "an asynchronous %s of %zu bytes uses %s memory that no "
                 "longer exists when the back-end gets to it",
                 o.set ? "memset" : "copy", o.n, kname[kind_of(p)]);
    }
    void check_alive(const QOp& o, const void* p) {
        if (kind_of(p) == 3) {
            if (!in_call || o.call != call) dead(o, p);
        } else if (!inside(p, o.n)) {
            dead(o, p);
        }
    }
    void exec(QOp o) {
        if (!o.set) check_alive(o, o.from);
        check_alive(o, o.to);
        if (sym && (Symbolic::virt(o.to) || Symbolic::virt(o.from)))
            sym->exec(o.set, o.from, o.to, o.n, o.value);
        else if (o.set)
            ::memset(o.to, o.value, o.n);
        else
            ::memmove(o.to, o.from, o.n);
        ++executed;
    }
    void exec_at(std::size_t i) {
        QOp o = q[i];
        q.erase(q.begin() + static_cast<long>(i));
        exec(o);
    }
    /// make some progress
    void tick() {
        if (!eager || q.empty()) return;
        switch (choose(4)) {
            case 0:
                exec_at(ooo ? choose(q.size()) : 0);
                break;
            case 1:
                if (eager > 1)
                    while (!q.empty()) exec_at(ooo ? choose(q.size()) : 0);
                break;
            default:
                break;
        }
    }
    void drain() {
        while (!q.empty()) exec_at(ooo ? choose(q.size()) : 0);
    }
    /// everything up to operation @c id is done (in order), or just it
    void complete(u64 id) {
        if (!ooo) {
            while (!q.empty() && q.front().id <= id) exec_at(0);
            return;
        }
        for (std::size_t i = 0; i < q.size(); ++i)
            if (q[i].id == id) {
                exec_at(i);
                return;
            }
    }
    u64 push(QOp o) {
        o.id = next++;
        o.call = call;
        q.push_back(o);
        count("probe:async-operations");
        tick();
        return o.id;
    }
    /// A copy was requested; returns the number of the operation.
    u64 copy(std::size_t n, const void* from, void* to, int dir) {
        if (dir < 0 || dir > ANY)
            flag("C35", "bad-copy-type", "copy type %d", dir);
        if (n == 0) return 0;
        if (!from || !to) {
            flag(PROP, "null-operand", "copy of %zu bytes from/to null", n);
            abandon("null");
        }
        int f = kind_of(from), d = kind_of(to);
        bool fh = f != 1, fd = f == 1 || f == 2;
        bool dh = d != 1, dd = d == 1 || d == 2;
        bool ok = true;
        switch (dir) {
            case H2D:
                ok = fh && dd;
                break;
            case D2H:
                ok = fd && dh;
                break;
            case H2H:
                ok = fh && dh;
                break;
            case D2D:
                ok = fd && dd;
                break;
            default:
                break;
        }
        if (!ok)
            flag("C35", "wrong-copy-type",
                 "a copy from %s to %s memory was requested as type %d",
                 kname[f], kname[d], dir);
        if (!inside(from, n)) bad_range(from, n, "reads");
        if (!inside(to, n)) bad_range(to, n, "writes");
        vsim::log("do_copy %zu %s->%s type %d", n, kname[f], kname[d], dir);
        return push({0, false, from, to, n, 0, 0});
    }
    u64 set(std::size_t n, void* p, int v) {
        if (n == 0) return 0;
        if (!p) {
            flag(PROP, "null-operand", "memset of %zu bytes at null", n);
            abandon("null");
        }
        if (!inside(p, n)) bad_range(p, n, "sets");
        vsim::log("do_memset %zu %s %d", n, kname[kind_of(p)], v);
        return push({0, true, nullptr, p, n, v, 0});
    }
    bool pending_on(const void* p, std::size_t n) const {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        for (auto& o : q) {
            auto t = reinterpret_cast<std::uintptr_t>(o.to),
                 f = reinterpret_cast<std::uintptr_t>(o.from);
            if (t < a + n && a < t + o.n) return true;
            if (!o.set && f < a + n && a < f + o.n) return true;
        }
        return false;
    }
    /// end of a library call: no operand may be a temporary of it
    void leave() {
        in_call = false;
        for (auto& o : q) {
            if (o.call != call) continue;
            if (!o.set) check_alive(o, o.from);
            check_alive(o, o.to);
        }
    }
};

/// An event of an accelerator runtime
struct Event {
    int device = 0;
    Stream* s = nullptr;  ///< recorded on this stream
    u64 upto = 0;
    bool synced = false;
};

enum Api { CUDA, HIP, SYCL };
inline const char* const api_name[] = {"CUDA", "HIP", "SYCL"};
/// Kinds of blocks: 0 pinned host, 1 device, 2 managed
struct Block {
    int api, kind, device;
    std::size_t n;
    Stream* ctx;  ///< SYCL: the queue whose context it belongs to
};

/// State of the simulated accelerator runtimes in the current run
struct Runtime {
    int ndev = 1;
    /// current device of every thread, and the one from before the call of the
    /// library (switching back to it never fails)
    int cur_[16] = {}, home_[16] = {};
    int& cur() { return cur_[vsim::tid() & 15]; }
    int& home() { return home_[vsim::tid() & 15]; }
    /// other threads may run while one is in the driver
    void enter() {
        if (vsim::tid() == 0) return;
        vsim::SimScope s;
        vsim::yield_point();
    }
    int eager = 0;
    /// asking for the device may fail (not while memory is given back: nobody
    /// could handle that)
    bool get_device_fails = false;
    bool sycl_ooo = true;       ///< default SYCL queues are out of order
    Stream* expected = nullptr; ///< only this stream may be used, if set
    Stream* def = nullptr;      ///< where synchronous operations go
    std::map<void*, Block> blocks;
    std::set<Stream*> streams;
    std::set<Event*> events;
    std::vector<Stream*> dead;
    std::vector<Event*> dead_events;
    long made_streams = 0;
    int last_error = 0;
    Stream def_;

    Runtime();
    ~Runtime();
    Stream* make_stream(int device, bool ooo);
    void drop_stream(Stream* s);
    /// the stream behind a handle (null: the default one)
    Stream& use(Stream* s);
    void* alloc(int api, int kind, std::size_t n, std::size_t al, int device,
                Stream* ctx);
    void free(int api, int kinds, void* p, Stream* ctx);
    std::size_t live(int api = -1) const;
};
inline Runtime* rt = nullptr;
inline Runtime& R() {
    if (!rt) harness_error("no simulated accelerator runtime");
    return *rt;
}

inline Runtime::Runtime() {
    rt = this;
    def = &def_;
    streams.insert(&def_);
}
inline Runtime::~Runtime() {
    rt = nullptr;
    for (Stream* s : streams)
        if (!s->user && s != &def_) delete s;
    for (Stream* s : dead) delete s;
    for (Event* e : events) delete e;
    for (Event* e : dead_events) delete e;
}
inline Stream* Runtime::make_stream(int device, bool ooo) {
    Stream* s = new Stream();
    s->device = device;
    s->ooo = ooo;
    s->eager = eager;
    s->user = false;
    streams.insert(s);
    ++made_streams;
    return s;
}
inline void Runtime::drop_stream(Stream* s) {
    if (!streams.count(s) || s->user)
        fail_any("bad-stream", "a stream was destroyed that does not exist (any "
                               "more), or does not belong to the library");
    s->drain();
    for (Event* e : events)
        if (e->s == s) e->s = nullptr;
    streams.erase(s);
    dead.push_back(s);  // addresses are not used again
}
inline Stream& Runtime::use(Stream* s) {
    if (!s) s = def;
    if (!streams.count(s))
        fail_any("bad-stream", "an operation uses a stream that does not exist "
                               "(any more)");
    if (expected && s != expected)
        fail_any("wrong-stream",
                 "an operation goes to another stream than the one of the copy "
                 "object");
    return *s;
}
inline void* Runtime::alloc(int api, int kind, std::size_t n, std::size_t al,
                     int device, Stream* ctx) {
    void* p = region_alloc(kind, n, al);
    if (!p) return nullptr;
    ::memset(p, 0xA5, n);
    blocks[p] = {api, kind, device, n, ctx};
    vsim::log("%s alloc kind %d device %d: %zu bytes", api_name[api], kind,
              device, n);
    return p;
}
inline void Runtime::free(int api, int kinds, void* p, Stream* ctx) {
    auto it = blocks.find(p);
    if (it == blocks.end())
        fail_any("bad-free", "%s: memory was freed that is not allocated",
                 api_name[api]);
    if (it->second.api != api || !(kinds & (1 << it->second.kind)))
        fail_any("wrong-free",
                 "%s: %s memory of %s was freed with the wrong function",
                 api_name[api], kname[it->second.kind],
                 api_name[it->second.api]);
    if (it->second.ctx != ctx)
        fail_any("wrong-free", "memory was freed on a queue of another context");
    vsim::log("%s free kind %d", api_name[api], it->second.kind);
    for (Stream* s : streams)
        if (s->pending_on(p, it->second.n)) {
            // freeing waits for the device (CUDA, HIP); in SYCL this is an
            // error of whoever does it
            if (api == SYCL)
                fail_any("freed-while-in-use",
                         "memory was freed while an operation on it was "
                         "pending");
            s->drain();
        }
    if (!region_free(it->second.kind, p)) harness_error("region_free");
    blocks.erase(it);
}
inline std::size_t Runtime::live(int api) const {
    std::size_t n = 0;
    for (auto& b : blocks) n += api < 0 || b.second.api == api;
    return n;
}
}  // namespace accel
