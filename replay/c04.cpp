// MODE: asan
// SOURCES: sequence_sign_type.cpp
// C04: SmallVector against std::vector, under the address sanitizer, over sequences of operations.
#include "vp.h"
#include "utilities/small_vector.h"
#include <list>
#include <span>
#include <sstream>
#include <memory>
using namespace Moment;

struct Elem {  // a value type with contents, default constructible
    int64_t a = 0; double b = 0;
    Elem() = default; Elem(int64_t x) : a{x}, b{x * 0.5} { }
    bool operator==(const Elem&) const = default;
};
static std::ostream& operator<<(std::ostream& o, const Elem& e) { return o << e.a; }
template<class T> std::string show(const std::vector<T>& v) { std::ostringstream s; s << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s << ","; s << v[i]; } s << "]"; return s.str(); }

template<class T, size_t N>
struct World {
    using SV = SmallVector<T, N>;
    static constexpr size_t K = 3;
    std::vector<std::unique_ptr<SV>> s; std::vector<std::vector<T>> m; std::string log; int64_t next = 1;
    World() { for (size_t i = 0; i < K; ++i) { s.push_back(std::make_unique<SV>()); m.emplace_back(); } }
    T val() { return T(next++); }
    void note(const std::string& x) { log += x + "; "; vp::current_input = log; }
    bool agree() {
        bool ok = true;
        for (size_t i = 0; i < K; ++i) {
            SV& v = *s[i]; const SV& c = v; const auto& w = m[i];
            auto in = [&] { return "SmallVector<" + std::to_string(sizeof(T)) + " bytes," + std::to_string(N) + "> " + log; };
            std::vector<T> got;
            ok &= vp::check(v.size() == w.size() && v.empty() == w.empty(), "size and emptiness", in, [&] { return "vector " + std::to_string(i) + " size " + std::to_string(v.size()) + " expected " + std::to_string(w.size()); });
            if (!ok) return false;
            ok &= vp::check(v.capacity() >= v.size(), "elements lie in storage of at least their number", in, [&] { return "capacity " + std::to_string(v.capacity()); });
            const char* p = (const char*) v.get(); const char* o = (const char*) &v;
            bool inside = p >= o && p < o + sizeof(SV);
            ok &= vp::check(inside == !v.on_heap(), "live storage is the buffer it should be", in, [&] { return "vector " + std::to_string(i) + (inside ? " data inline but marked heap" : " data outside the object but marked inline"); });
            if (inside) ok &= vp::check(v.capacity() <= N, "elements lie in storage of at least their number", in, [&] { return "inline capacity " + std::to_string(v.capacity()); });
            for (const auto& x : c) got.push_back(x);
            ok &= vp::check(got == w, "contents equal those of a growable array", in, [&] { return "vector " + std::to_string(i) + " holds " + show(got) + " expected " + show(w); });
            bool idx = v.begin() == v.get() && v.end() == v.get() + v.size() && c.cbegin() == v.get() && c.end() == c.cend();
            for (size_t j = 0; j < w.size(); ++j) idx &= v[j] == w[j] && c[j] == w[j];
            if (!w.empty()) idx &= v.front() == w.front() && v.back() == w.back() && c.front() == w.front() && c.back() == w.back();
            std::span<T> sp = v; std::span<const T> csp = c; idx &= sp.size() == w.size() && csp.size() == w.size() && sp.data() == v.get() && csp.data() == v.get();
            ok &= vp::check(idx, "element access agrees with contents", in, [&] { return show(w); });
            if (!w.empty()) {
                std::vector<T> rev; for (auto it = c.rbegin(); !(it == c.rend()); ++it) rev.push_back(*it);
                ok &= vp::check(rev == std::vector<T>(w.rbegin(), w.rend()), "reverse iteration", in, [&] { return show(rev); });
            }
            for (size_t j = 0; j < K; ++j) ok &= vp::check((*s[i] == *s[j]) == (m[i] == m[j]) && (*s[i] != *s[j]) == (m[i] != m[j]), "equality means equal contents", in, [&] { return show(m[i]) + " vs " + show(m[j]); });
        }
        return ok;
    }
    void op(unsigned which, size_t i, size_t j, size_t n, size_t p) {
        auto st = [](auto x) { return std::to_string(x); };
        SV& v = *s[i]; auto& w = m[i];
        switch (which) {
            case 0: { note("v" + st(i) + ".push_back"); T x = val(); v.push_back(x); w.push_back(x); break; }
            case 1: { note("v" + st(i) + ".emplace_back"); int64_t x = next++; v.emplace_back((T) x); w.emplace_back((T) x); break; }
            case 2: if (!w.empty()) { note("v" + st(i) + ".pop_back"); v.pop_back(); w.pop_back(); } break;
            case 3: { note("v" + st(i) + "=copy(v" + st(j) + ")"); auto c = std::make_unique<SV>(*s[j]); s[i] = std::move(c); m[i] = m[j]; break; }
            case 4: { note("v" + st(i) + "=v" + st(j)); *s[i] = *s[j]; if (i != j) m[i] = m[j]; break; }
            case 5: if (i != j) { note("v" + st(i) + "=move-constructed(v" + st(j) + "); v" + st(j) + " replaced by fresh"); auto c = std::make_unique<SV>(std::move(*s[j])); s[i] = std::move(c); m[i] = m[j]; s[j] = std::make_unique<SV>(); m[j].clear(); } break;
            case 6: if (i != j) { note("v" + st(i) + "=std::move(v" + st(j) + "); v" + st(j) + "=v" + st(i)); *s[i] = std::move(*s[j]); *s[j] = *s[i]; m[i] = m[j]; } break;
            case 7: if (i != j) { note("swap(v" + st(i) + ",v" + st(j) + ")"); if (n & 1) s[i]->swap(*s[j]); else swap(*s[i], *s[j]); std::swap(m[i], m[j]); } break;
            case 8: { size_t at = w.empty() ? 0 : p % (w.size() + 1); note("v" + st(i) + ".insert(at " + st(at) + ", " + st(n) + " elements)"); std::vector<T> x; for (size_t k = 0; k < n; ++k) x.push_back(val());
                v.insert(v.begin() + at, x.begin(), x.end()); w.insert(w.begin() + at, x.begin(), x.end()); break; }
            case 9: if (!w.empty()) { size_t a = p % (w.size() + 1), b = a + n % (w.size() - a + 1); note("v" + st(i) + ".erase(" + st(a) + "," + st(b) + ")"); auto r = v.erase(v.begin() + a, v.begin() + b); w.erase(w.begin() + a, w.begin() + b);
                vp::check((size_t) (r - v.begin()) == a, "erase returns the position of the cut", [&] { return log; }, [&] { return "position " + st(r - v.begin()); }); } break;
            case 10: { note("v" + st(i) + ".reserve(" + st(n) + ")"); v.reserve(n); vp::check(v.capacity() >= n, "reserve gives room", [&] { return log; }, [&] { return st(v.capacity()); }); break; }
            case 11: { note("v" + st(i) + ".clear"); v.clear(); w.clear(); break; }
            case 12: { T x = val(); note("v" + st(i) + "=SmallVector(" + st(n) + ",x)"); s[i] = std::make_unique<SV>(static_cast<const size_t>(n), static_cast<const T>(x)); w.assign(n, x); break; }
            case 13: { note("v" + st(i) + "=SmallVector(range of " + st(n) + ")"); std::vector<T> x; for (size_t k = 0; k < n; ++k) x.push_back(val()); std::list<T> l(x.begin(), x.end());
                if (p & 1) s[i] = std::make_unique<SV>(x.begin(), x.end()); else s[i] = std::make_unique<SV>(l.begin(), l.end()); w = x; break; }
            case 14: if (!w.empty()) { note("v" + st(i) + "[" + st(p % w.size()) + "]=x"); T x = val(); v[p % w.size()] = x; w[p % w.size()] = x; } break;
            case 15: { note("v" + st(i) + "={a,b,c}"); T a = val(), b = val(), c = val(); if (n & 1) { s[i] = std::make_unique<SV>(std::initializer_list<T>{a, b, c}); w = {a, b, c}; } else { s[i] = std::make_unique<SV>(std::initializer_list<T>{a}); w = {a}; } break; }
        }
    }
};
template<class T, size_t N> void random_world(vp::Rng& rng, size_t histories, size_t steps) {
    for (size_t h = 0; h < histories; ++h) {
        World<T, N> w; vp::current = "history of operations";
        for (size_t k = 0; k < steps; ++k) {
            w.op(rng(16), rng(3), rng(3), rng(4) ? rng(2 * N + 3) : rng(N + 2), rng(64));
            if (!w.agree()) return;
        }
    }
}
template<class T, size_t N> void exhaustive() {
    // every pair of sizes around the switch, and every binary operation; every insert/erase position
    for (size_t a = 0; a <= 2 * N + 2; ++a) for (size_t b = 0; b <= 2 * N + 2; ++b) for (unsigned o : {3, 4, 5, 6, 7}) for (int res = 0; res < 2; ++res) {
        World<T, N> w; vp::current = "binary operation on all sizes";
        w.op(13, 0, 0, a, 1); w.op(13, 1, 0, b, 0);
        if (res) { w.op(10, 0, 0, 2 * N + 1, 0); w.op(10, 1, 0, N + 1, 0); if (a) w.op(2, 0, 0, 0, 0); }
        w.op(o, 0, 1, a, b); if (!w.agree()) return;
        w.op(0, 0, 0, 0, 0); w.op(0, 1, 0, 0, 0); if (!w.agree()) return;
    }
    for (size_t a = 0; a <= 2 * N + 2; ++a) for (size_t n = 0; n <= 2 * N + 2; ++n) for (size_t p = 0; p <= a; ++p) for (unsigned o : {8, 9}) for (int res = 0; res < 2; ++res) {
        World<T, N> w; vp::current = "insert / erase at every position";
        w.op(13, 0, 0, a, 1); if (res) w.op(10, 0, 0, 4 * N + 1, 0);
        w.op(o, 0, 0, n, p); if (!w.agree()) return;
        w.op(0, 0, 0, 0, 0); if (!w.agree()) return;
    }
}
int main(int argc, char** argv) {
    vp::init(argc, argv); vp::Rng rng{vp::seed};
    vp::group("all sizes around the switch", [&] { exhaustive<int16_t, 4>(); exhaustive<Elem, 1>(); exhaustive<Elem, 3>(); exhaustive<uint64_t, 2>(); if (vp::thorough) exhaustive<int16_t, 16>(); });
    vp::group("histories", [&] {
        size_t f = vp::thorough ? 20 : 1;
        random_world<int16_t, 16>(rng, 150 * f, 60); random_world<int16_t, 3>(rng, 200 * f, 50); random_world<Elem, 1>(rng, 200 * f, 50); random_world<uint64_t, 2>(rng, 200 * f, 50); random_world<Elem, 5>(rng, 100 * f, 50); random_world<uint64_t, 8>(rng, 100 * f, 50);
    });
    return vp::finish();
}
