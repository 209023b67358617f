// Device-side containers under concurrent kernels: device_vector (C22),
// jagged_device_vector and SoA device containers (C23).
#include "flavour.hpp"

#include "vecmem/containers/data/jagged_vector_view.hpp"
#include "vecmem/containers/data/vector_view.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/edm/container.hpp"

using namespace vsim;
namespace {
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;
using vecmem::device_vector;
using vecmem::data::vector_view;

const char* PROP = "C22";

// ------------------------------------------------------- element types ----
/// Non-trivial element: construction and destruction are recorded.
struct Registry {
    std::set<const void*> live;
    std::uintptr_t lo = 0, hi = 0;
    bool inside(const void* p) const {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        return a >= lo && a < hi;
    }
};
Registry* reg_ = nullptr;
struct Tracked {
    u64 tag;
    u64 self;
    void born() {
        HostScope h;
        if (reg_ && reg_->inside(this) && !reg_->live.insert(this).second)
            fail(PROP, "constructed-twice",
                 "an element was constructed in a slot that already holds one");
    }
    Tracked() : tag(0), self(~u64(0)) { born(); }
    explicit Tracked(u64 t) : tag(t), self(~t) { born(); }
    Tracked(u64 a, u64 b) : tag(a + b), self(~(a + b)) { born(); }
    Tracked(const Tracked& o) : tag(o.tag), self(o.self) { born(); }
    Tracked& operator=(const Tracked& o) {
        tag = o.tag;
        self = o.self;
        return *this;
    }
    ~Tracked() {
        HostScope h;
        if (reg_ && reg_->inside(this) && !reg_->live.erase(this))
            fail(PROP, "destructed-without-element",
                 "an element was destructed in a slot that holds none");
    }
};
struct Tri {
    u32 a, b, c;
};

template <class T> struct Tr;
template <> struct Tr<u32> {
    static u32 make(u64 t) { return static_cast<u32>(t); }
    static u64 tag(const u32& v) { return v; }
    static constexpr bool triv = true;
};
template <> struct Tr<u64> {
    static u64 make(u64 t) { return t; }
    static u64 tag(const u64& v) { return v; }
    static constexpr bool triv = true;
};
template <> struct Tr<Tri> {
    static Tri make(u64 t) {
        u32 x = static_cast<u32>(t);
        return Tri{x, x ? x + 1 : 0, x ? ~x : 0};
    }
    static u64 tag(const Tri& v) {
        u32 x = v.a;
        if (v.b != (x ? x + 1 : 0) || v.c != (x ? ~x : 0)) return ~u64(0);
        return x;
    }
    static constexpr bool triv = true;
};
template <> struct Tr<Tracked> {
    static Tracked make(u64 t) { return Tracked(t); }
    static u64 tag(const Tracked& v) {
        return v.self == ~v.tag ? v.tag : ~u64(0);
    }
    static constexpr bool triv = false;
};

// -------------------------------------------------------------- device ----
struct Dev {  // kernel code
    SimScope s;
    DeviceScope d;
};
constexpr u32 UNKNOWN_POISON = 0xCDCDCDCDu;

template <class T>
struct Slots {
    u32 cap = 0;
    T* ptr = nullptr;
    u32* size = nullptr;
    std::vector<u64> model;      // tag per element
    std::vector<char> unknown;   // content unspecified
    std::vector<char> claimed;
    u32 hw = 0;
    u64 started = 0, done = 0;   // appended elements
    void make(u32 c, bool resizable, u32 init) {
        cap = c;
        ptr = static_cast<T*>(region_alloc(1, sizeof(T) * (c ? c : 1), alignof(T)));
        memset(static_cast<void*>(ptr), 0xCD, sizeof(T) * (c ? c : 1));
        if (resizable) {
            size = static_cast<u32*>(region_alloc(1, 4, 4));
            *size = init;
        }
        claimed.assign(c, 0);
    }
    vector_view<T> view() { return vector_view<T>(cap, size, ptr); }
    u32 msize() const { return static_cast<u32>(model.size()); }
    void push(u64 tag, bool unk) {
        model.push_back(tag);
        unknown.push_back(unk);
        hw = std::max(hw, msize());
    }
    void cut(u32 n) {
        model.resize(n);
        unknown.resize(n);
    }
    void release() {
        region_free(1, ptr);
        if (size) region_free(1, size);
    }
    bool untouched(u32 i) const {
        const unsigned char* p = reinterpret_cast<const unsigned char*>(ptr + i);
        for (std::size_t k = 0; k < sizeof(T); ++k)
            if (p[k] != 0xCD) return false;
        return true;
    }
    void claim(u32 i, u32 n, const char* what) {
        if (i > cap || n > cap - i) {
            fail(PROP, "index-out-of-range",
                 "%s returned the range [%u, %u) with capacity %u", what, i,
                 i + n, cap);
            abandon("corrupt");
        }
        for (u32 k = i; k < i + n; ++k) {
            if (claimed[k]) {
                fail(PROP, "slot-given-twice",
                     "%s returned slot %u, which already holds an element",
                     what, k);
                abandon("corrupt");
            }
            claimed[k] = 1;
        }
    }
    /// content check, with the size of the vector known
    void check(const char* when) {
        if (size && *size != msize()) {
            fail(PROP, "wrong-size", "size is %u after %s, expected %u", *size,
                 when, msize());
            abandon("corrupt");
        }
        for (u32 i = 0; i < msize(); ++i) {
            u64 t;
            {
                HostScope h;
                t = Tr<T>::tag(ptr[i]);
            }
            if (!unknown[i] && t != Tr<T>::tag(Tr<T>::make(model[i])))
                fail(PROP, "wrong-content",
                     "element %u is %llu after %s, expected %llu", i,
                     static_cast<unsigned long long>(t), when,
                     static_cast<unsigned long long>(model[i]));
        }
        for (u32 i = hw; i < cap; ++i)
            if (!untouched(i))
                fail(PROP, "unclaimed-slot-modified",
                     "slot %u was modified, but only %u elements ever existed",
                     i, hw);
        if (!Tr<T>::triv)
            for (u32 i = 0; i < cap; ++i) {
                bool c = reg_->live.count(ptr + i);
                if (c != (i < msize()))
                    fail(PROP, c ? "element-not-destructed" : "element-missing",
                         "slot %u %s an element after %s (size %u)", i,
                         c ? "still holds" : "does not hold", when, msize());
            }
        claimed.assign(cap, 0);
        for (u32 i = 0; i < msize(); ++i) claimed[i] = 1;
        started = done = msize();
    }
};

enum OK {
    D_PUSH, D_EMPLACE, D_BULK, D_BULKV, D_BULKI, D_BULKU, D_SIZE, D_POP,
    D_ASSIGN, D_ASSIGNIT, D_RESIZE, D_RESIZEV, D_RESIZEI, D_RESIZEU, D_CLEAR,
    D_ITER, D_N
};
const char* const kinds[] = {
    "push_back", "emplace_back", "bulk_append", "bulk_append_value",
    "bulk_append_implicit", "bulk_append_implicit_unsafe", "size", "pop_back",
    "assign", "assign_range", "resize", "resize_value", "resize_implicit",
    "resize_implicit_unsafe", "clear", "iterate"};
bool is_append(int k) { return k <= D_BULKU; }
u32 append_n(const Op& o) {
    if (o.kind == D_PUSH || o.kind == D_EMPLACE) return 1;
    return static_cast<u32>(o.a[0] & 15);
}

// a[0] count/size, a[1] tag, a[2] row, a[5] phase
void gen_common(Rng& r, Case& c, int rows) {
    int nt = static_cast<int>(r.range(1, 4));
    c.par["threads"] = nt;
    c.par["et"] = static_cast<i64>(r.below(4));
    c.par["shared"] = static_cast<i64>(r.below(2));
    for (int i = 0; i < rows; ++i)
        c.par[fmt("cap%d", i)] = static_cast<i64>(
            r.chance(0.1) ? r.below(3) : 2 + r.below(40));
    int ph = static_cast<int>(r.range(1, 5));
    u64 tag = 1;
    for (int p = 0; p < ph; ++p) {
        int kind = p == 0 ? 0 : static_cast<int>(r.pick_w({4, 3, 3}));
        if (kind == 2) {
            Op o;
            static const int seqk[] = {D_ASSIGN, D_ASSIGNIT, D_RESIZE, D_RESIZEV,
                                       D_RESIZEI, D_RESIZEU, D_CLEAR, D_ITER,
                                       D_POP, D_PUSH};
            o.kind = seqk[r.below(10)];
            o.tid = 0;
            o.a[0] = static_cast<i64>(r.below(20));
            o.a[1] = static_cast<i64>(tag);
            tag += 64;
            o.a[2] = static_cast<i64>(r.below(static_cast<u64>(rows)));
            o.a[5] = p;
            c.ops.push_back(o);
            continue;
        }
        for (int t = 0; t < nt; ++t) {
            int n = static_cast<int>(r.range(1, 5));
            for (int i = 0; i < n; ++i) {
                Op o;
                o.tid = t;
                if (kind == 0) {
                    static const int ak[] = {D_PUSH, D_PUSH, D_EMPLACE, D_BULK,
                                             D_BULKV, D_BULKI, D_BULKU, D_SIZE};
                    o.kind = ak[r.below(8)];
                } else {
                    o.kind = r.chance(0.8) ? D_POP : D_SIZE;
                }
                o.a[0] = static_cast<i64>(r.below(5));
                o.a[1] = static_cast<i64>(tag);
                tag += 64;
                o.a[2] = static_cast<i64>(r.below(static_cast<u64>(rows)));
                o.a[5] = p;
                c.ops.push_back(o);
            }
        }
    }
}

template <class T>
void append(device_vector<T>& v, Slots<T>& s, const Op& o) {
    u32 n = append_n(o);
    u64 tag = static_cast<u64>(o.a[1]);
    s.started += n;
    u32 idx = 0;
    switch (o.kind) {
        case D_PUSH: {
            T val = Tr<T>::make(tag);
            Dev d;
            idx = v.push_back(val);
            break;
        }
        case D_EMPLACE: {
            T* p;
            {
                Dev d;
                if constexpr (std::is_same<T, Tracked>::value)
                    p = &v.emplace_back(tag - 1, u64(1));
                else
                    p = &v.emplace_back(Tr<T>::make(tag));
            }
            if (p < s.ptr || p >= s.ptr + s.cap) {
                fail(PROP, "index-out-of-range",
                     "emplace_back returned a reference outside of the vector");
                abandon("corrupt");
            }
            idx = static_cast<u32>(p - s.ptr);
            break;
        }
        case D_BULK: {
            Dev d;
            idx = v.bulk_append(n);
            break;
        }
        case D_BULKV: {
            T val = Tr<T>::make(tag);
            Dev d;
            idx = v.bulk_append(n, val);
            break;
        }
        case D_BULKI:
            if constexpr (Tr<T>::triv) {
                Dev d;
                idx = v.bulk_append_implicit(n);
                break;
            }
            [[fallthrough]];
        default: {
            Dev d;
            idx = v.bulk_append_implicit_unsafe(n);
        }
    }
    vsim::log("t%d %s n=%u -> %u", o.tid, kinds[o.kind], n, idx);
    s.claim(idx, n, kinds[o.kind]);
    for (u32 i = 0; i < n; ++i) {
        bool fill = o.kind == D_BULKI || o.kind == D_BULKU;
        u64 want = o.kind == D_BULK ? 0 : o.kind == D_BULKV ? tag : tag + i;
        if (n == 1 && !fill && o.kind != D_BULK) want = tag;
        if (fill) {
            Dev d;
            new (&v[idx + i]) T(Tr<T>::make(want));
        }
        u64 got;
        {
            Dev d;
            got = Tr<T>::tag(v[idx + i]);
        }
        if (got != Tr<T>::tag(Tr<T>::make(want)))
            fail(PROP, "wrong-content",
                 "slot %u holds %llu right after %s, expected %llu", idx + i,
                 static_cast<unsigned long long>(got), kinds[o.kind],
                 static_cast<unsigned long long>(want));
        s.model[idx + i] = want;
    }
    s.done += n;
}

/// One concurrent phase on a set of vectors
template <class T, class GETROW>
void phase(const Case& c, int p, std::vector<Slots<T>>& rows, GETROW getrow,
           int nt) {
    bool pops = false, any = false;
    // which operations fit
    std::vector<char> skip(c.ops.size(), 0);
    std::vector<u32> fin(rows.size()), tot(rows.size());
    for (std::size_t r = 0; r < rows.size(); ++r) fin[r] = rows[r].msize();
    for (auto& o : c.ops)
        if (o.a[5] == p && o.kind == D_POP) pops = true;
    for (std::size_t i = 0; i < c.ops.size(); ++i) {
        const Op& o = c.ops[i];
        if (o.a[5] != p) continue;
        any = true;
        std::size_t r = static_cast<std::size_t>(o.a[2]) % rows.size();
        if (pops) {
            if (o.kind == D_POP && fin[r] > 0)
                --fin[r];
            else if (o.kind != D_SIZE)
                skip[i] = 1;
        } else if (is_append(o.kind)) {
            u32 n = append_n(o);
            if (fin[r] + n <= rows[r].cap)
                fin[r] += n;
            else
                skip[i] = 1;
        } else if (o.kind != D_SIZE) {
            skip[i] = 1;
        }
    }
    if (!any) return;
    std::vector<u32> before(rows.size());
    for (std::size_t r = 0; r < rows.size(); ++r) {
        before[r] = rows[r].msize();
        if (!pops) {
            rows[r].model.resize(fin[r], ~u64(0));
            rows[r].unknown.resize(fin[r], 0);
            rows[r].hw = std::max(rows[r].hw, fin[r]);
        }
        rows[r].started = rows[r].done = before[r];
    }
    std::vector<std::set<u32>> popped(rows.size());
    std::vector<std::function<void()>> b;
    for (int t = 0; t < nt; ++t)
        b.push_back([&, t] {
            for (std::size_t i = 0; i < c.ops.size(); ++i) {
                const Op& o = c.ops[i];
                if (o.a[5] != p || o.tid % nt != t || skip[i]) continue;
                std::size_t r = static_cast<std::size_t>(o.a[2]) % rows.size();
                Slots<T>& s = rows[r];
                if (is_append(o.kind)) {
                    getrow(r, [&](device_vector<T>& v) { append(v, s, o); });
                } else if (o.kind == D_SIZE) {
                    u64 lo = pops ? s.started : s.done, got = 0;
                    bool empty = false;
                    u64 span = 0;
                    getrow(r, [&](device_vector<T>& v) {
                        Dev d;
                        if (o.a[0] == 0) {
                            empty = v.empty();
                            got = ~u64(0);
                        } else if (o.a[0] == 1) {
                            got = span = static_cast<u64>(v.end() - v.begin());
                        } else {
                            got = v.size();
                        }
                    });
                    u64 hi = pops ? s.done : s.started;
                    // appending: done .. started; popping: the other way round
                    u64 l = pops ? s.started : lo, h = pops ? lo : hi;
                    if (pops) {
                        l = s.started;  // all started pops applied
                        h = lo;
                        // size between now-started and previously completed
                        h = std::max(h, l);
                        h = before[r];
                    }
                    if (got == ~u64(0)) {
                        if ((empty && l > 0) || (!empty && h == 0))
                            fail(PROP, "wrong-empty",
                                 "empty() is %d while the size is between %llu "
                                 "and %llu",
                                 empty, static_cast<unsigned long long>(l),
                                 static_cast<unsigned long long>(h));
                    } else if (got < l || got > h) {
                        fail(PROP, "wrong-concurrent-size",
                             "size() returned %llu while the size is between "
                             "%llu and %llu",
                             static_cast<unsigned long long>(got),
                             static_cast<unsigned long long>(l),
                             static_cast<unsigned long long>(h));
                    }
                } else if (o.kind == D_POP) {
                    --s.started;
                    u32 idx = 0;
                    getrow(r, [&](device_vector<T>& v) {
                        Dev d;
                        idx = v.pop_back();
                    });
                    --s.done;
                    vsim::log("t%d pop_back -> %u", t, idx);
                    if (idx >= before[r] || idx < fin[r] ||
                        !popped[r].insert(idx).second) {
                        fail(PROP, "wrong-pop",
                             "pop_back returned size %u (initial size %u, %u "
                             "elements removed in total)",
                             idx, before[r], before[r] - fin[r]);
                        abandon("corrupt");
                    }
                }
            }
        });
    run_threads(b);
    for (std::size_t r = 0; r < rows.size(); ++r) {
        if (pops) rows[r].cut(fin[r]);
        rows[r].check(pops ? "concurrent pop_back calls"
                           : "concurrent appends");
        u64 h = fin[r];
        for (u64 x : rows[r].model) h = h * 1099511628211ull + x;
        state(h);
        if (nt > 1 && (fin[r] > before[r] + 1 || popped[r].size() > 1))
            nontrivial();
    }
}

template <class T, class GETROW>
void seq_op(const Op& o, Slots<T>& s, GETROW getrow) {
    u32 n = static_cast<u32>(o.a[0] & 31);
    u64 tag = static_cast<u64>(o.a[1]);
    T val = Tr<T>::make(tag);
    if (n > s.cap) n = s.cap;
    auto grow = [&](u32 m, u64 t, bool unk) {
        if (m < s.msize()) {
            s.cut(m);
            return;
        }
        while (s.msize() < m) s.push(t, unk);
    };
    switch (o.kind) {
        case D_ASSIGN:
            getrow([&](device_vector<T>& v) { Dev d; v.assign(n, val); });
            s.cut(0);
            grow(n, tag, false);
            break;
        case D_ASSIGNIT: {
            T* src = static_cast<T*>(region_alloc(1, sizeof(T) * (n + 1), alignof(T)));
            for (u32 i = 0; i < n; ++i) new (src + i) T(Tr<T>::make(tag + i));
            getrow([&](device_vector<T>& v) {
                Dev d;
                v.assign(static_cast<const T*>(src), static_cast<const T*>(src) + n);
            });
            for (u32 i = 0; i < n; ++i) src[i].~T();
            region_free(1, src);
            s.cut(0);
            for (u32 i = 0; i < n; ++i) s.push(tag + i, false);
            break;
        }
        case D_RESIZE:
            getrow([&](device_vector<T>& v) { Dev d; v.resize(n); });
            grow(n, 0, false);
            break;
        case D_RESIZEV:
            getrow([&](device_vector<T>& v) { Dev d; v.resize(n, val); });
            grow(n, tag, false);
            break;
        case D_RESIZEI:
        case D_RESIZEU:
            if constexpr (Tr<T>::triv) {
                getrow([&](device_vector<T>& v) {
                    Dev d;
                    if (o.kind == D_RESIZEI)
                        v.resize_implicit(n);
                    else
                        v.resize_implicit_unsafe(n);
                });
                u32 hw = s.hw;
                grow(n, 0, true);
                s.hw = hw;  // no slot may have been written
                s.check(kinds[o.kind]);
                s.hw = std::max(hw, n);
            }
            break;
        case D_CLEAR:
            getrow([&](device_vector<T>& v) { Dev d; v.clear(); });
            s.cut(0);
            break;
        case D_POP:
            if (s.msize()) {
                u32 r = 0;
                getrow([&](device_vector<T>& v) { Dev d; r = v.pop_back(); });
                s.cut(s.msize() - 1);
                if (r != s.msize())
                    fail(PROP, "wrong-pop", "pop_back returned %u, expected %u",
                         r, s.msize());
            }
            break;
        case D_PUSH:
            if (s.msize() < s.cap) {
                u32 r = 0;
                getrow([&](device_vector<T>& v) { Dev d; r = v.push_back(val); });
                if (r != s.msize())
                    fail(PROP, "wrong-index", "push_back returned %u, expected "
                         "%u", r, s.msize());
                s.push(tag, false);
            }
            break;
        default: {
            // every way of reading the elements gives the same answer
            getrow([&](device_vector<T>& v) {
                const device_vector<T>& cv = v;
                u32 m = s.msize();
                std::vector<u64> f, b;
                u64 fr = 0, bk = 0, sz, mx;
                {
                    f.reserve(m + 1);
                    b.reserve(m + 1);
                    Dev d;
                    sz = cv.size();
                    mx = cv.max_size() == cv.capacity() ? cv.capacity() : ~u64(0);
                    if (o.a[1] & 64) {
                        for (const T& x : cv) { u64 t = Tr<T>::tag(x); HostScope h; f.push_back(t); if (f.size() > m) break; }
                        for (auto it = cv.crbegin(); it != cv.crend(); ++it) { u64 t = Tr<T>::tag(*it); HostScope h; b.push_back(t); if (b.size() > m) break; }
                        if (m) { fr = Tr<T>::tag(cv.front()); bk = Tr<T>::tag(cv.back()); }
                    } else {
                        for (u32 i = 0; i < m; ++i) { u64 t = Tr<T>::tag(i & 1 ? v[i] : v.at(i)); HostScope h; f.push_back(t); }
                        for (auto it = v.rbegin(); it != v.rend(); ++it) { u64 t = Tr<T>::tag(*it); HostScope h; b.push_back(t); if (b.size() > m) break; }
                        if (m) { fr = Tr<T>::tag(v.front()); bk = Tr<T>::tag(v.back()); }
                    }
                }
                bool ok = f.size() == m && b.size() == m && sz == m && mx == s.cap;
                for (u32 i = 0; ok && i < m; ++i) {
                    u64 w = Tr<T>::tag(Tr<T>::make(s.model[i]));
                    if (!s.unknown[i])
                        ok = f[i] == w && b[m - 1 - i] == w;
                }
                if (ok && m && !s.unknown[0]) ok = fr == Tr<T>::tag(Tr<T>::make(s.model[0]));
                if (ok && m && !s.unknown[m - 1]) ok = bk == Tr<T>::tag(Tr<T>::make(s.model[m - 1]));
                if (!ok)
                    fail(PROP, "wrong-read", "iterating over %u elements does "
                         "not give the elements", m);
            });
        }
    }
    s.check(kinds[o.kind]);
}

bool is_seq_phase(const Case& c, int p, const Op*& op) {
    int n = 0;
    bool seq = false;
    op = nullptr;
    for (auto& o : c.ops)
        if (o.a[5] == p) {
            ++n;
            if (!op) op = &o;
            if (o.kind >= D_ASSIGN) seq = true;
        }
    return seq && n == 1;
}

template <class T>
void finish(std::vector<Slots<T>>& rows) {
    for (auto& s : rows) {
        if (!Tr<T>::triv) {
            for (u32 i = 0; i < s.msize(); ++i) s.ptr[i].~T();
        }
        s.release();
    }
}

// ----------------------------------------------------------------- C22 ----
void gen_vec(Rng& r, Case& c) {
    gen_common(r, c, 1);
    if (c.par["cap0"] > 20 && r.chance(0.4))
        c.par["cap0"] = static_cast<i64>(64 + r.below(100));
    else if (r.chance(0.03))
        c.par["cap0"] = static_cast<i64>(r.below(1500));
}
bool races_on() {
#if defined(VSIM_CUDA) || defined(VSIM_HIP) || defined(VSIM_SEQUENTIAL)
    return false;  // plain (volatile-like) size accesses by design
#else
    return true;
#endif
}
int threads_of(const Case& c) {
#if defined(VSIM_SEQUENTIAL)
    (void)c;
    return 1;
#else
    return static_cast<int>(c.p("threads", 1));
#endif
}
template <class T>
void run_vec_t(const Case& c) {
    std::vector<Slots<T>> rows(1);
    Slots<T>& s = rows[0];
    Registry reg;
    reg_ = &reg;
    s.make(static_cast<u32>(c.p("cap0", 8)), true, 0);
    reg.lo = reinterpret_cast<std::uintptr_t>(s.ptr);
    reg.hi = reinterpret_cast<std::uintptr_t>(s.ptr + s.cap);
    vector_view<T> view = s.view();
    device_vector<T> shared(view);
    bool sh = c.p("shared");
    auto getrow = [&](std::size_t, auto f) {
        if (sh) {
            f(shared);
        } else {
            device_vector<T> v(view);
            device_vector<T> w(v);
            f(w);
        }
    };
    race_detection(races_on());
    for (int p = 0; p < 8; ++p) {
        const Op* o;
        if (is_seq_phase(c, p, o)) {
            seq_op(*o, s, [&](auto f) { getrow(0, f); });
        } else {
            phase(c, p, rows, getrow, threads_of(c));
        }
    }
    race_detection(false);
    // a view without a size: the size is the capacity
    {
        vector_view<const T> cv(s.cap, static_cast<u32*>(nullptr), s.ptr);
        device_vector<const T> v(cv);
        u32 n;
        {
            Dev d;
            n = v.size();
        }
        if (n != s.cap) fail(PROP, "wrong-size", "a fixed size vector has size %u, not %u", n, s.cap);
        vector_view<const T> cv2(view);
        device_vector<const T> v2(cv2);
        {
            Dev d;
            n = v2.size();
        }
        if (n != s.msize()) fail(PROP, "wrong-size", "a read-only vector has size %u, not %u", n, s.msize());
    }
    finish(rows);
    reg_ = nullptr;
}
void run_vec(const Case& c) {
    PROP = "C22";
    switch (c.p("et") & 3) {
        case 0: run_vec_t<u32>(c); break;
        case 1: run_vec_t<u64>(c); break;
        case 2: run_vec_t<Tracked>(c); break;
        default: run_vec_t<Tri>(c);
    }
}
const Harness HV = {"devvec", gen_vec, run_vec, kinds, D_N,
                    "phases of concurrent appends, concurrent pop_back calls "
                    "and sequential calls on one resizable device_vector by "
                    "1-4 kernel threads; non-trivial: at least two elements "
                    "added or removed in a concurrent phase"};
Registrar rv(HV);

// ------------------------------------------------------- C23: jagged ------
constexpr int MAXROWS = 4;
void gen_jag(Rng& r, Case& c) {
    int rows = static_cast<int>(r.range(1, MAXROWS));
    c.par["rows"] = rows;
    gen_common(r, c, rows);
}
template <class T>
void run_jag_t(const Case& c) {
    int nr = static_cast<int>(c.p("rows", 1));
    std::vector<Slots<T>> rows(static_cast<std::size_t>(nr));
    Registry reg;
    reg_ = &reg;
    reg.lo = DEV_BASE;
    reg.hi = DEV_BASE + DEV_SIZE;
    auto* inner = static_cast<vector_view<T>*>(
        region_alloc(1, sizeof(vector_view<T>) * static_cast<std::size_t>(nr), 8));
    for (int i = 0; i < nr; ++i) {
        rows[static_cast<std::size_t>(i)].make(
            static_cast<u32>(c.p(fmt("cap%d", i).c_str(), 4)), true, 0);
        new (inner + i) vector_view<T>(rows[static_cast<std::size_t>(i)].view());
    }
    vecmem::data::jagged_vector_view<T> view(static_cast<std::size_t>(nr), inner);
    auto getrow = [&](std::size_t r, auto f) {
        auto mk = [&]() {
            Dev d;
            vecmem::jagged_device_vector<T> j(view);
            vecmem::jagged_device_vector<T> k(j);
            switch (c.p("shared") + 2 * (r & 1)) {
                case 0: return device_vector<T>(k[static_cast<u32>(r)]);
                case 1: return device_vector<T>(k.at(static_cast<u32>(r)));
                case 2: return device_vector<T>(*(k.begin() + static_cast<std::ptrdiff_t>(r)));
                default: {
                    auto it = k.begin();
                    for (std::size_t i = 0; i < r; ++i) ++it;
                    return device_vector<T>(*it);
                }
            }
        };
        device_vector<T> v = mk();
        f(v);
    };
    race_detection(races_on());
    for (int p = 0; p < 8; ++p) {
        const Op* o;
        if (is_seq_phase(c, p, o)) {
            std::size_t r = static_cast<std::size_t>(o->a[2]) % rows.size();
            seq_op(*o, rows[r], [&](auto f) { getrow(r, f); });
        } else {
            phase(c, p, rows, getrow, threads_of(c));
        }
        for (auto& s : rows) s.check("all calls of the phase");
    }
    race_detection(false);
    // read-only traversal in both directions
    {
        vecmem::data::jagged_vector_view<const T> cview(view);
        std::vector<u64> f, b, want, wantb;
        f.reserve(400);
        b.reserve(400);
        u64 ji = 0, outer, cap = 0;
        bool em;
        {
            Dev d;
            vecmem::jagged_device_vector<const T> cj(cview);
            outer = cj.size();
            em = cj.empty();
            cap = cj.capacity();
            for (auto row : cj)
                for (const T& x : row) {
                    u64 t = Tr<T>::tag(x);
                    HostScope h;
                    f.push_back(t);
                }
            for (auto it = cj.rbegin(); it != cj.rend(); ++it)
                for (const T& x : *it) {
                    u64 t = Tr<T>::tag(x);
                    HostScope h;
                    b.push_back(t);
                }
            for (auto it = cj.begin(); it != cj.end(); it++) ++ji;
        }
        for (auto& s : rows)
            for (std::size_t i = 0; i < s.model.size(); ++i)
                want.push_back(s.unknown[i] ? 0 : Tr<T>::tag(Tr<T>::make(s.model[i])));
        for (std::size_t r = rows.size(); r-- > 0;)
            for (std::size_t i = 0; i < rows[r].model.size(); ++i)
                wantb.push_back(rows[r].unknown[i] ? 0 : Tr<T>::tag(Tr<T>::make(rows[r].model[i])));
        bool unk = false;
        for (auto& s : rows)
            for (char u : s.unknown) unk = unk || u;
        bool ok = outer == static_cast<u64>(nr) && ji == outer && !em &&
                  cap >= outer && f.size() == want.size() && b.size() == wantb.size();
        if (ok && !unk) ok = f == want && b == wantb;
        if (!ok) fail(PROP, "wrong-read", "iterating over the jagged vector does not give its elements");
    }
    finish(rows);
    region_free(1, inner);
    reg_ = nullptr;
}
void run_jag(const Case& c) {
    PROP = "C23";
    switch (c.p("et") & 3) {
        case 0: run_jag_t<u32>(c); break;
        case 1: run_jag_t<u64>(c); break;
        case 2: run_jag_t<Tracked>(c); break;
        default: run_jag_t<Tri>(c);
    }
}
const Harness HJ = {"devjag", gen_jag, run_jag, kinds, D_N,
                    "the same phases spread over the 1-4 rows of a jagged "
                    "device vector, rows reached by index and iterator"};
Registrar rj(HJ);

// ---------------------------------------------------------- C23: SoA ------
template <typename BASE>
struct soa_iface : public BASE {
    using BASE::BASE;
    auto& s0() { return BASE::template get<0>(); }
    const auto& s0() const { return BASE::template get<0>(); }
    auto& v1() { return BASE::template get<1>(); }
    const auto& v1() const { return BASE::template get<1>(); }
    auto& v2() { return BASE::template get<2>(); }
    const auto& v2() const { return BASE::template get<2>(); }
    auto& v3() { return BASE::template get<3>(); }
    const auto& v3() const { return BASE::template get<3>(); }
};
namespace et = vecmem::edm::type;
using soa = vecmem::edm::container<soa_iface, et::scalar<u64>, et::vector<u32>,
                                   et::vector<Tracked>, et::vector<Tri>>;
enum SK { S_PUSH, S_SIZE, S_UPDATE, S_READ, S_N };
const char* const skinds[] = {"push_back_default", "size", "update", "read"};

void gen_soa(Rng& r, Case& c) {
    int nt = static_cast<int>(r.range(1, 4));
    c.par["threads"] = nt;
    c.par["cap0"] = static_cast<i64>(r.chance(0.1)    ? r.below(3)
                                     : r.chance(0.03) ? r.below(600)
                                                      : 1 + r.below(24));
    c.par["fixed"] = r.chance(0.1);
    c.par["shared"] = static_cast<i64>(r.below(2));
    int ph = static_cast<int>(r.range(1, 3));
    for (int p = 0; p < ph; ++p)
        for (int t = 0; t < nt; ++t) {
            int n = static_cast<int>(r.range(1, 6));
            for (int i = 0; i < n; ++i) {
                Op o;
                o.tid = t;
                o.kind = static_cast<int>(r.pick_w({5, 2, 2, 2}));
                o.a[0] = static_cast<i64>(r.below(64));
                o.a[1] = static_cast<i64>(1 + r.below(1u << 20));
                o.a[5] = p;
                c.ops.push_back(o);
            }
        }
}
void run_soa(const Case& c) {
    PROP = "C23";
    Registry reg;
    reg_ = &reg;
    reg.lo = DEV_BASE;
    reg.hi = DEV_BASE + DEV_SIZE;
    u32 cap = static_cast<u32>(c.p("cap0", 4));
    bool fixed = c.p("fixed");
    u32* size = nullptr;
    if (!fixed) {
        size = static_cast<u32*>(region_alloc(1, 4, 4));
        *size = 0;
    }
    auto arr = [&](std::size_t sz) {
        void* p = region_alloc(1, sz * (cap ? cap : 1), 8);
        memset(p, 0xCD, sz * (cap ? cap : 1));
        return p;
    };
    u64* sc = static_cast<u64*>(region_alloc(1, 8, 8));
    *sc = 42;
    u32* a1 = static_cast<u32*>(arr(sizeof(u32)));
    Tracked* a2 = static_cast<Tracked*>(arr(sizeof(Tracked)));
    Tri* a3 = static_cast<Tri*>(arr(sizeof(Tri)));
    soa::view view(cap, fixed ? vecmem::edm::details::memory_view{0u, nullptr}
                              : vecmem::edm::details::memory_view{
                                    sizeof(u32), reinterpret_cast<char*>(size)});
    view.get<0>() = sc;
    view.get<1>() = vector_view<u32>(cap, size, a1);
    view.get<2>() = vector_view<Tracked>(cap, size, a2);
    view.get<3>() = vector_view<Tri>(cap, size, a3);
    std::vector<u64> model;  // tag per element, owner-updated
    std::vector<int> owner;
    if (fixed) {
        for (u32 i = 0; i < cap; ++i) {
            a1[i] = 0;
            new (a2 + i) Tracked();
            a3[i] = Tri{0, 0, 0};
            model.push_back(0);
            owner.push_back(-1);
        }
    }
    race_detection(races_on());
    soa::device shared(view);
    int nt = threads_of(c);
    for (int p = 0; p < 4; ++p) {
        u32 before = static_cast<u32>(model.size()), fin = before;
        std::vector<char> skip(c.ops.size(), 0);
        bool any = false;
        for (std::size_t i = 0; i < c.ops.size(); ++i)
            if (c.ops[i].a[5] == p) {
                any = true;
                if (c.ops[i].kind == S_PUSH) {
                    if (fixed || fin >= cap)
                        skip[i] = 1;
                    else
                        ++fin;
                }
            }
        if (!any) continue;
        model.resize(fin, 0);
        owner.resize(fin, -1);
        for (u32 i = 0; i < before; ++i)
            owner[i] = static_cast<int>(i) % nt;
        std::vector<char> claimed(cap, 0);
        for (u32 i = 0; i < before; ++i) claimed[i] = 1;
        u64 started = before, done = before;
        std::vector<std::function<void()>> b;
        for (int t = 0; t < nt; ++t)
            b.push_back([&, t] {
                soa::device own(view);
                soa::device& dv = c.p("shared") ? shared : own;
                const soa::device& cdv = dv;
                for (std::size_t i = 0; i < c.ops.size(); ++i) {
                    const Op& o = c.ops[i];
                    if (o.a[5] != p || o.tid % nt != t || skip[i]) continue;
                    auto mine = [&](u64 k) -> int {
                        std::vector<u32> m;
                        for (u32 j = 0; j < fin; ++j)
                            if (owner[j] == t) m.push_back(j);
                        return m.empty() ? -1 : static_cast<int>(m[k % m.size()]);
                    };
                    auto write = [&](u32 idx, u64 tag, bool proxy) {
                        Dev d;
                        if (proxy) {
                            auto e = dv.at(idx);
                            e.v1() = Tr<u32>::make(tag);
                            e.v2() = Tracked(tag);
                            e.v3() = Tr<Tri>::make(tag);
                        } else {
                            dv.v1()[idx] = Tr<u32>::make(tag);
                            dv.v2().at(idx) = Tracked(tag);
                            dv.v3()[idx] = Tr<Tri>::make(tag);
                        }
                    };
                    auto check = [&](u32 idx, u64 tag, bool proxy, const char* w) {
                        u64 g1, g2, g3, g0;
                        {
                            Dev d;
                            g0 = cdv.s0();
                            if (proxy) {
                                auto e = cdv[idx];
                                g1 = e.v1();
                                g2 = Tr<Tracked>::tag(e.v2());
                                g3 = Tr<Tri>::tag(e.v3());
                            } else {
                                g1 = cdv.v1()[idx];
                                g2 = Tr<Tracked>::tag(cdv.v2()[idx]);
                                g3 = Tr<Tri>::tag(cdv.v3()[idx]);
                            }
                        }
                        if (g0 != 42 || g1 != tag || g2 != tag || g3 != tag)
                            fail(PROP, "wrong-content",
                                 "element %u of the container is (%llu, %llu, "
                                 "%llu) %s, expected %llu",
                                 idx, static_cast<unsigned long long>(g1),
                                 static_cast<unsigned long long>(g2),
                                 static_cast<unsigned long long>(g3), w,
                                 static_cast<unsigned long long>(tag));
                    };
                    switch (o.kind) {
                        case S_PUSH: {
                            ++started;
                            u32 idx;
                            {
                                Dev d;
                                idx = dv.push_back_default();
                            }
                            ++done;
                            vsim::log("t%d push_back_default -> %u", t, idx);
                            if (idx >= fin || claimed[idx]) {
                                fail(PROP, "slot-given-twice",
                                     "push_back_default returned %u (final size "
                                     "%u)", idx, fin);
                                abandon("corrupt");
                            }
                            claimed[idx] = 1;
                            check(idx, 0, o.a[0] & 1, "after push_back_default");
                            model[idx] = static_cast<u64>(o.a[1]);
                            write(idx, model[idx], o.a[0] & 2);
                            owner[idx] = t;
                            break;
                        }
                        case S_SIZE: {
                            u64 lo = done, got, cp;
                            {
                                Dev d;
                                got = cdv.size();
                                cp = cdv.capacity();
                            }
                            if (cp != cap) fail(PROP, "wrong-capacity", "capacity() is %llu, not %u", static_cast<unsigned long long>(cp), cap);
                            u64 hi = started;
                            if (got < lo || got > hi)
                                fail(PROP, "wrong-concurrent-size",
                                     "size() returned %llu while the size is "
                                     "between %llu and %llu",
                                     static_cast<unsigned long long>(got),
                                     static_cast<unsigned long long>(lo),
                                     static_cast<unsigned long long>(hi));
                            break;
                        }
                        case S_UPDATE: {
                            int idx = mine(static_cast<u64>(o.a[0]));
                            if (idx < 0) break;
                            model[static_cast<std::size_t>(idx)] = static_cast<u64>(o.a[1]);
                            write(static_cast<u32>(idx), static_cast<u64>(o.a[1]), o.a[0] & 1);
                            break;
                        }
                        default: {
                            int idx = mine(static_cast<u64>(o.a[0]));
                            if (idx < 0) break;
                            check(static_cast<u32>(idx), model[static_cast<std::size_t>(idx)], o.a[0] & 1, "when read back");
                        }
                    }
                }
            });
        run_threads(b);
        if (size && *size != fin) {
            fail(PROP, "wrong-size", "the container has size %u, expected %u", *size, fin);
            abandon("corrupt");
        }
        if (nt > 1 && fin > before + 1) nontrivial();
        soa::const_view cview(view);
        soa::const_device cd(cview);
        u64 got;
        {
            Dev d;
            got = cd.size();
        }
        if (got != fin) fail(PROP, "wrong-size", "the read-only container has size %llu, expected %u", static_cast<unsigned long long>(got), fin);
        u64 h = 7;
        for (u32 i = 0; i < fin; ++i) {
            u64 g1, g2, g3;
            {
                Dev d;
                auto e = cd.at(i);
                g1 = e.v1();
                g2 = Tr<Tracked>::tag(e.v2());
                g3 = Tr<Tri>::tag(e.v3());
            }
            if (g1 != model[i] || g2 != model[i] || g3 != model[i])
                fail(PROP, "wrong-content", "element %u differs after the phase", i);
            h = h * 1099511628211ull + model[i];
        }
        state(h);
        for (u32 i = fin; i < cap; ++i)
            if (a1[i] != UNKNOWN_POISON || a3[i].b != UNKNOWN_POISON || reg.live.count(a2 + i))
                fail(PROP, "unclaimed-slot-modified", "slot %u beyond the size was modified", i);
    }
    race_detection(false);
    for (u32 i = 0; i < model.size(); ++i) a2[i].~Tracked();
    region_free(1, a1);
    region_free(1, a2);
    region_free(1, a3);
    region_free(1, sc);
    if (size) region_free(1, size);
    reg_ = nullptr;
}
const Harness HA = {"devsoa", gen_soa, run_soa, skinds, S_N,
                    "concurrent push_back_default, size and element accesses "
                    "on an SoA device container by 1-4 kernel threads"};
Registrar ra(HA);
}  // namespace
