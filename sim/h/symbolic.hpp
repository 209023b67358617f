// Symbolic memory: gigabytes of simulated device memory that do not exist.
// Every range knows where its content came from (a label, a value that was set,
// or bytes that were transferred from real memory), and transfers move these
// descriptions around.
#pragma once
#include "common.hpp"

namespace accel {
using namespace hx;
class Symbolic {
public:
    enum Kind : int { LABEL, VALUE, BYTES, ANY };
    struct Seg {
        u64 n = 0;
        int kind = LABEL;
        u64 id = 0;   ///< LABEL: which one; VALUE: the byte
        u64 off = 0;  ///< LABEL: offset in it
        std::string data;
    };
    using Map = std::map<u64, Seg>;
    Map m;

    static bool virt(const void* p) {
        return reinterpret_cast<std::uintptr_t>(p) - vsim::VIRT_BASE <
               vsim::VIRT_SIZE;
    }
    static Seg cut(const Seg& s, u64 from, u64 n) {
        Seg r = s;
        r.n = n;
        if (s.kind == LABEL) r.off = s.off + from;
        if (s.kind == BYTES) r.data = s.data.substr(from, n);
        return r;
    }
    void split(u64 a) {
        auto it = m.upper_bound(a);
        if (it == m.begin()) return;
        --it;
        u64 d = a - it->first;
        if (d == 0 || d >= it->second.n) return;
        Seg t = cut(it->second, d, it->second.n - d);
        it->second = cut(it->second, 0, d);
        m[a] = t;
    }
    void erase(u64 a, u64 n) {
        if (!n) return;
        split(a);
        split(a + n);
        m.erase(m.lower_bound(a), m.lower_bound(a + n));
    }
    void put(u64 a, const Seg& s) {
        if (!s.n) return;
        erase(a, s.n);
        m[a] = s;
    }
    void label(u64 a, u64 n, u64 id) {
        Seg s;
        s.n = n;
        s.id = id;
        put(a, s);
    }
    void value(u64 a, u64 n, int v) {
        Seg s;
        s.n = n;
        s.kind = VALUE;
        s.id = static_cast<u8>(v);
        put(a, s);
    }
    void any(u64 a, u64 n) {
        Seg s;
        s.n = n;
        s.kind = ANY;
        put(a, s);
    }
    /// the content of a range, as few pieces as possible
    std::vector<Seg> get(u64 a, u64 n) const {
        std::vector<Seg> r;
        auto add = [&](const Seg& s) {
            if (!s.n) return;
            if (!r.empty() && r.back().kind == s.kind) {
                Seg& b = r.back();
                if (s.kind == ANY ||
                    (s.kind == VALUE && b.id == s.id) ||
                    (s.kind == LABEL && b.id == s.id &&
                     b.off + b.n == s.off)) {
                    b.n += s.n;
                    return;
                }
                if (s.kind == BYTES) {
                    b.n += s.n;
                    b.data += s.data;
                    return;
                }
            }
            r.push_back(s);
        };
        auto it = m.upper_bound(a);
        if (it != m.begin()) --it;
        u64 at = a;
        for (; it != m.end() && it->first < a + n; ++it) {
            u64 lo = std::max(it->first, at),
                hi = std::min(it->first + it->second.n, a + n);
            if (hi <= lo) continue;
            if (lo > at) {  // never written
                Seg g;
                g.n = lo - at;
                g.off = at;
                add(g);
            }
            add(cut(it->second, lo - it->first, hi - lo));
            at = hi;
        }
        if (at < a + n) {
            Seg g;
            g.n = a + n - at;
            g.off = at;
            add(g);
        }
        return r;
    }
    void copy(u64 from, u64 to, u64 n) {
        std::vector<Seg> v = get(from, n);
        erase(to, n);
        for (auto& s : v) {
            m[to] = s;
            to += s.n;
        }
    }
    void write(u64 to, const void* from, u64 n) {
        Seg s;
        s.n = n;
        s.kind = BYTES;
        s.data.assign(static_cast<const char*>(from), n);
        put(to, s);
    }
    /// false: the range does not hold bytes that are known
    bool read(u64 from, void* to, u64 n) const {
        char* q = static_cast<char*>(to);
        for (auto& s : get(from, n)) {
            if (s.kind == BYTES)
                ::memcpy(q, s.data.data(), s.n);
            else if (s.kind == VALUE)
                ::memset(q, static_cast<int>(s.id), s.n);
            else
                return false;
            q += s.n;
        }
        return true;
    }
    /// Are the ranges of two memories alike? ANY matches everything.
    static bool same(const Symbolic& x, const Symbolic& y, u64 a, u64 n,
                     u64* where = nullptr) {
        auto v = x.get(a, n), w = y.get(a, n);
        std::size_t i = 0, j = 0;
        u64 pi = 0, pj = 0, at = 0;
        while (at < n) {
            const Seg &s = v[i], &t = w[j];
            u64 k = std::min(s.n - pi, t.n - pj);
            bool ok = s.kind == ANY || t.kind == ANY;
            if (!ok) {
                Seg p = cut(s, pi, k), q = cut(t, pj, k);
                if (p.kind == VALUE && q.kind == BYTES) std::swap(p, q);
                if (p.kind == BYTES && q.kind == VALUE)
                    ok = p.data == std::string(k, static_cast<char>(q.id));
                else
                    ok = p.kind == q.kind &&
                         (p.kind == BYTES ? p.data == q.data
                                          : p.id == q.id && p.off == q.off);
            }
            if (!ok) {
                if (where) *where = a + at;
                return false;
            }
            at += k;
            if ((pi += k) == s.n) ++i, pi = 0;
            if ((pj += k) == t.n) ++j, pj = 0;
        }
        return true;
    }
    std::function<bool(u64, u64)> owns;
    bool failed_read = false;
    /// an operation of the back-end
    void exec(bool set, const void* from, void* to, u64 n, int v) {
        u64 f = reinterpret_cast<u64>(from), t = reinterpret_cast<u64>(to);
        if (set)
            value(t, n, v);
        else if (virt(from) && virt(to))
            copy(f, t, n);
        else if (virt(to))
            write(t, from, n);
        else if (!read(f, to, n)) {
            // what was never written may be anything
            ::memset(to, 0xA5, n);
            failed_read = true;
        }
    }
};
/// The one that the accelerator uses in this run, if any
inline Symbolic* sym = nullptr;
}  // namespace accel
