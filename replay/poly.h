// shared by the symbolic harnesses: symbol tables with every kind of symbol, and polynomials as coefficient maps
#pragma once
#include "vp.h"
#include "scenarios/context.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/raw_polynomial.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/monomial_comparator_by_hash.h"
namespace vp {
    using namespace Moment;
    using cd = std::complex<double>;
    using Key = std::pair<symbol_name_t, bool>;
    using PMap = std::map<Key, cd>;

    struct Table {
        std::unique_ptr<Context> ctx;
        std::unique_ptr<SymbolTable> tab;
        std::string desc;
    };
    /** table with complex (asymmetric words), Hermitian (palindromes), and sequence-free real / imaginary / complex symbols, in random order */
    inline Table make_table(Rng& r, size_t ops = 3, size_t extra = 8) {
        Table t; t.ctx = std::make_unique<Context>(ops); t.tab = std::make_unique<SymbolTable>(*t.ctx);
        std::ostringstream d; d << "ops " << ops << ":";
        for (size_t i = 0; i < extra; ++i) {
            switch (r(5)) {
                case 0: t.tab->create(true, true); d << " create(c)"; break;
                case 1: t.tab->create(true, false); d << " create(r)"; break;
                case 2: t.tab->create(false, true); d << " create(i)"; break;
                default: { size_t n = 1 + r(4); sequence_storage_t s; d << " word["; for (size_t j = 0; j < n; ++j) { auto o = (oper_name_t) r(ops); s.push_back(o); d << o << " "; } d << "]";
                    t.tab->merge_in(OperatorSequence(std::move(s), *t.ctx)); }
            }
        }
        t.desc = d.str();
        return t;
    }
    inline cd rcoef(Rng& r, bool zero_ok = true) {
        static const double v[] = {1, -1, 0.5, -0.5, 2, -2, 3, 0.25, -1.5};
        for (;;) {
            cd c; switch (r(4)) { case 0: c = {v[r(9)], 0}; break; case 1: c = {0, v[r(9)]}; break; case 2: c = {v[r(9)], v[r(9)]}; break; default: c = {r(3) ? v[r(9)] : 0.0, 0}; }
            if (zero_ok || c != cd{0, 0}) return c;
        }
    }
    inline Monomial rmono(Rng& r, const SymbolTable& t, size_t ids = 0) {
        size_t n = ids ? std::min<size_t>(ids, t.size()) : t.size();
        return Monomial{(symbol_name_t) r(n), rcoef(r), r.coin()};
    }
    inline std::string mstr(const Monomial& m) { std::ostringstream s; s << "(" << m.factor.real() << (m.factor.imag() ? "+" + vp::str(m.factor.imag()) + "i" : std::string()) << ")#" << m.id << (m.conjugated ? "*" : ""); return s.str(); }
    template<class C> std::string pstr(const C& p) { std::string o = "{"; for (const auto& m : p) o += mstr(m) + " "; return o + "}"; }
    inline std::string pmstr(const PMap& p) { std::string o = "{"; for (auto& [k, c] : p) o += mstr(Monomial{k.first, c, k.second}) + " "; return o + "}"; }
    /** add term c * sym(id, conj) to the coefficient map, using X*=X for Hermitian, X*=-X for anti-Hermitian */
    inline void addto(PMap& m, const SymbolTable& t, symbol_name_t id, bool conj, cd c) {
        if (id == 0) return;
        const auto& s = t[id];
        if (s.is_hermitian()) conj = false;
        else if (s.is_antihermitian()) { if (conj) c = -c; conj = false; }
        auto& x = m[{id, conj}]; x += c;
        if (std::abs(x) < 1e-14) m.erase({id, conj});
    }
    template<class C> PMap value(const C& p, const SymbolTable& t) { PMap m; for (const auto& x : p) addto(m, t, x.id, x.conjugated, x.factor); return m; }
    inline bool same(const PMap& a, const PMap& b) {
        if (a.size() != b.size()) return false;
        for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || std::abs(i->second - j->second) > 1e-12) return false;
        return true;
    }
    inline PMap padd(const PMap& a, const PMap& b, cd k = 1.0) { PMap m = a; for (auto& [key, c] : b) { auto& x = m[key]; x += k * c; if (std::abs(x) < 1e-14) m.erase(key); } return m; }
    inline PMap pscale(const PMap& a, cd k) { return padd(PMap{}, a, k); }
    inline PMap pconj(const PMap& a, const SymbolTable& t) { PMap m; for (auto& [k, c] : a) addto(m, t, k.first, !k.second, std::conj(c)); return m; }
    /** canonical: strictly ascending in the factory's order, no zero terms, no redundant conjugation */
    inline std::string canonical(const Polynomial& p, const PolynomialFactory& f, const SymbolTable& t) {
        const Monomial* last = nullptr; std::set<Key> seen;
        for (const auto& m : p) {
            if (m.id <= 0) return "zero symbol in polynomial";
            if ((size_t) m.id >= t.size()) return "symbol out of range";
            if (std::abs(m.factor) < 1e-15) return "vanishing term";
            if (m.conjugated && (t[m.id].is_hermitian() || t[m.id].is_antihermitian())) return "conjugated (anti-)Hermitian symbol";
            if (!seen.insert({m.id, m.conjugated}).second) return "repeated symbol";
            if (last && !f.less(*last, m)) return "not in ascending order";
            if (last && f.less(m, *last)) return "not in ascending order";
            last = &m;
        }
        return "";
    }
    struct Fac { std::unique_ptr<PolynomialFactory> f; bool by_hash; };
    inline Fac make_factory(const SymbolTable& t, bool by_hash) {
        Fac o; o.by_hash = by_hash;
        if (by_hash) o.f = std::make_unique<ByHashPolynomialFactory>(t); else o.f = std::make_unique<ByIDPolynomialFactory>(t);
        return o;
    }
    inline Polynomial::storage_t rterms(Rng& r, const SymbolTable& t, size_t maxn, size_t ids = 0) {
        Polynomial::storage_t s; size_t n = r(maxn + 1);
        for (size_t i = 0; i < n; ++i) {
            s.push_back(rmono(r, t, ids));
            if (r(5) == 0) { auto m = s.back(); m.factor = -m.factor; s.push_back(m); }           // cancellation
            if (r(5) == 0) { auto m = s.back(); m.conjugated = !m.conjugated; s.push_back(m); }   // conjugate pair
            if (r(6) == 0) { auto m = s.back(); m.factor = std::conj(m.factor); m.conjugated = !m.conjugated; s.push_back(m); }
        }
        return s;
    }
}
