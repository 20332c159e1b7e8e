// C16: inflated causal networks against the definition: relabelling of source copies, connected components, products of factors.
// Bound: random networks of up to 4 observables (0..4 outcomes) and 4 sources, inflation 1..3; words up to length 8; extended matrices of level 1.
#include "vp.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/inflation/inflation_osg.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/dictionary.h"
#include "matrix/monomial_matrix.h"
#include "matrix/symbolic_matrix.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/symbol_table.h"
#include "multithreading/multithreading.h"
#include <set>
using namespace Moment; using namespace Moment::Inflation;
using vp::Rng; using vp::str; using vp::list; using W = std::vector<oper_name_t>;
struct Op { size_t obs, var, out; std::vector<size_t> copy; };
struct Net { std::vector<size_t> out; std::vector<std::set<oper_name_t>> src; size_t inf; std::vector<std::vector<size_t>> of; std::vector<size_t> nvar, first; std::vector<Op> ops; std::string d;
    CausalNetwork net() const { auto s = src; return CausalNetwork{out, std::move(s)}; }
    std::unique_ptr<InflationContext> ctx() const { return std::make_unique<InflationContext>(net(), inf); } };
static size_t nops(size_t outcomes) { return outcomes ? outcomes - 1 : 1; }
static Net make(Rng& r, size_t maxops = 60) {
    for (;;) { Net n; size_t no = 1 + r(4), ns = r(5); n.inf = 1 + r(3); for (size_t i = 0; i < no; ++i) n.out.push_back(r(4) == 0 ? 0 : 2 + r(r(3) ? 2 : 3)); for (size_t s = 0; s < ns; ++s) { std::set<oper_name_t> x; size_t k = 1 + r(3); while (k--) x.insert((oper_name_t) r(no)); n.src.push_back(x); }
        n.of.resize(no); for (size_t s = 0; s < ns; ++s) for (auto o : n.src[s]) n.of[o].push_back(s);
        for (size_t o = 0; o < no; ++o) { size_t v = 1; for (size_t k = 0; k < n.of[o].size(); ++k) v *= n.inf; n.nvar.push_back(v); n.first.push_back(n.ops.size());
            for (size_t i = 0; i < v; ++i) { std::vector<size_t> c; size_t x = i; for (size_t k = 0; k < n.of[o].size(); ++k) { c.push_back(x % n.inf); x /= n.inf; } for (size_t q = 0; q < nops(n.out[o]); ++q) n.ops.push_back({o, i, q, c}); } }
        if (n.ops.empty() || n.ops.size() > maxops) continue;
        std::ostringstream s; s << "outcomes " << list(n.out) << " sources "; for (auto& x : n.src) s << list(x); s << " inflation " << n.inf; n.d = s.str(); return n; } }
/** simplified word; false: zero */
static bool simp(const Net& n, W w, W& out) { std::sort(w.begin(), w.end()); out.clear(); for (size_t i = 1; i < w.size(); ++i) if (w[i] != w[i - 1] && n.ops[w[i]].obs == n.ops[w[i - 1]].obs && n.ops[w[i]].var == n.ops[w[i - 1]].var) return false;
    for (auto o : w) if (out.empty() || out.back() != o || n.out[n.ops[o].obs] == 0) out.push_back(o); return true; }
static bool linked(const Net& n, oper_name_t a, oper_name_t b) { auto& x = n.ops[a]; auto& y = n.ops[b]; if (n.of[x.obs].empty() || n.of[y.obs].empty()) return x.obs == y.obs; for (size_t i = 0; i < x.copy.size(); ++i) for (size_t j = 0; j < y.copy.size(); ++j) if (n.of[x.obs][i] == n.of[y.obs][j] && x.copy[i] == y.copy[j]) return true; return false; }
static std::vector<W> parts(const Net& n, const W& w) { std::vector<size_t> c(w.size()); std::iota(c.begin(), c.end(), 0); for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < i; ++j) if (c[i] != c[j] && linked(n, w[i], w[j])) { size_t a = c[i], b = c[j]; for (auto& x : c) if (x == a) x = b; }
    std::map<size_t, W> m; for (size_t i = 0; i < w.size(); ++i) m[c[i]].push_back(w[i]); std::vector<W> o; for (auto& [k, v] : m) { std::sort(v.begin(), v.end()); o.push_back(v); } if (w.empty()) o.push_back({}); std::sort(o.begin(), o.end()); return o; }
static oper_name_t number(const Net& n, size_t obs, const std::vector<size_t>& copy, size_t out) { size_t v = 0, b = 1; for (auto c : copy) { v += c * b; b *= n.inf; } return (oper_name_t) (n.first[obs] + v * nops(n.out[obs]) + out); }
/** is some relabelling of each source's copies taking a to b (as sets with repetition)? */
static bool relabels(const Net& n, const W& a, const W& b) {
    size_t F = n.inf == 3 ? 6 : n.inf == 2 ? 2 : 1; static const size_t P[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}}; size_t tot = 1; for (size_t s = 0; s < n.src.size(); ++s) tot *= F; W t = b; std::sort(t.begin(), t.end());
    for (size_t k = 0; k < tot; ++k) { std::vector<size_t> which; size_t x = k; for (size_t s = 0; s < n.src.size(); ++s) { which.push_back(x % F); x /= F; } W m; for (auto o : a) { auto c = n.ops[o].copy; for (size_t i = 0; i < c.size(); ++i) c[i] = P[which[n.of[n.ops[o].obs][i]]][c[i]]; m.push_back(number(n, n.ops[o].obs, c, n.ops[o].out)); } std::sort(m.begin(), m.end()); if (m == t) return true; }
    return false; }
static W rw(Rng& r, const Net& n, size_t L) { W w; size_t k = r(L + 1); while (w.size() < k) w.push_back(w.size() && r(5) == 0 ? w[r(w.size())] : (oper_name_t) r(n.ops.size())); return w; }
static W of(const OperatorSequence& x) { return W(x.begin(), x.end()); }
static OperatorSequence seq(const W& w, const InflationContext& c) { return OperatorSequence{sequence_storage_t(w.begin(), w.end()), c}; }
static std::vector<symbol_name_t> sorted(std::vector<symbol_name_t> v) { std::sort(v.begin(), v.end()); return v; }
/** product of symbols as a list of irreducible ones */
static std::vector<symbol_name_t> prod(const FactorTable& f, const std::vector<symbol_name_t>& in) { std::vector<symbol_name_t> o; for (auto x : in) { if (x == 0) return {0}; if (x == 1) continue; for (auto y : f[x].canonical.symbols) o.push_back(y); } if (o.empty()) o.push_back(1); return sorted(o); }

static std::string show(const Polynomial& p) { std::ostringstream s; for (auto& m : p) s << "+" << m.factor << "#" << m.id << (m.conjugated ? "*" : ""); return s.str(); }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 25; Rng rng{vp::seed + 16}; const int N = vp::thorough ? 40 : 5;
    vp::group("numbering", [&] {
        for (int it = 0; it < 80 * N; ++it) { auto n = make(rng); auto cp = n.ctx(); auto& c = *cp; VP_AT("numbering", n.d); VP_CHECK(c.size() == n.ops.size() && c.Observables().size() == n.out.size(), "one operator per explicit outcome of each copy", n.d, c.size() << " operators");
            size_t g = 0; oper_name_t op = 0; for (size_t o = 0; o < n.out.size(); ++o) { auto& ob = c.Observables()[o]; VP_CHECK((size_t) ob.variant_count == n.nvar[o] && ob.variants.size() == n.nvar[o] && (size_t) ob.variant_offset == g && ob.operator_offset == op, "copies of an observable", n.d, "observable " << o);
                for (size_t v = 0; v < n.nvar[o]; ++v, ++g) { auto& va = ob.variants[v]; auto ov = c.index_to_obs_variant((oper_name_t) g); VP_CHECK(c.obs_variant_to_index((oper_name_t) o, (oper_name_t) v) == (oper_name_t) g && ov.observable == (oper_name_t) o && ov.variant == (oper_name_t) v && va.operator_offset == op && va.flat_index == (oper_name_t) v, "global copy numbers run both ways", n.d, o << "," << v);
                    for (size_t q = 0; q < nops(n.out[o]); ++q, ++op) { auto& x = n.ops[op]; VP_CHECK(c.operator_number((oper_name_t) o, (oper_name_t) v, (oper_name_t) q) == op, "operator number of an outcome", n.d, o << "," << v << "," << q);
                        if (!n.of[o].empty()) { auto ix = std::vector<oper_name_t>(x.copy.begin(), x.copy.end()); auto un = ob.unflatten_index(n.inf, (oper_name_t) v); VP_CHECK(std::equal(un.begin(), un.end(), ix.begin(), ix.end()) && ob.flatten_index(n.inf, ix) == (oper_name_t) v && std::equal(va.indices.begin(), va.indices.end(), ix.begin(), ix.end()) && &ob.variant(ix) == &va, "copy number and source indices convert both ways", n.d, o << "," << v); }
                        for (size_t w = 0; w < n.ops.size(); ++w) VP_CHECK(!(c.connected_sources(op) & c.connected_sources((oper_name_t) w)).empty() == linked(n, op, (oper_name_t) w), "operators are linked exactly if they share a source copy", n.d, op << " and " << w); } } }
            for (int k = 0; k < 20; ++k) { std::vector<OVIndex> ov; size_t tot = 1, len = 1 + rng(3); for (size_t i = 0; i < len; ++i) { size_t o = rng(n.out.size()); if (n.out[o] == 0) continue; ov.emplace_back((oper_name_t) o, (oper_name_t) rng(n.nvar[o])); tot *= n.out[o]; } if (ov.empty()) continue;
                for (size_t x = 0; x < tot; ++x) { auto u = c.unflatten_outcome_index(ov, (oper_name_t) x); bool ok = u.size() == ov.size(); size_t y = 0; for (size_t i = 0; ok && i < u.size(); ++i) { ok = u[i].observable_variant == ov[i] && (size_t) u[i].outcome < n.out[ov[i].observable]; y = y * n.out[ov[i].observable] + u[i].outcome; } VP_CHECK(ok && y == x && c.flatten_outcome_index(u) == x, "joint outcome numbers convert both ways", n.d, x); } }
            bool threw = false; std::vector<OVIndex> bad{OVIndex((oper_name_t) n.out.size(), 0)}; VP_AT("joint outcome of an unknown observable", n.d); try { (void) c.unflatten_outcome_index(bad, 0); } catch (const Moment::Inflation::errors::bad_observable&) { threw = true; } VP_CHECK(threw, "joint outcome of an unknown observable", n.d, "no exception"); } });
    vp::group("words", [&] {
        for (int it = 0; it < 200 * N; ++it) { auto n = make(rng); auto cp = n.ctx(); auto& c = *cp; size_t L = std::min<size_t>(8, c.the_hasher().longest_hashable_string());
            for (int k = 0; k < 10; ++k) { W w = rw(rng, n, L), s; bool nz = simp(n, w, s); if (!nz) s.clear(); auto in = [&] { return n.d + " word " + list(w); }; VP_AT("words", in()); auto x = seq(w, c);
                VP_CHECK(of(x) == s && x.zero() == !nz, "a word is sorted, and zero if two outcomes of one copy meet", in(), list(of(x)) << " not " << list(s)); { auto g = c.get_if_canonical(sequence_storage_t(w.begin(), w.end())); VP_CHECK(g.has_value() == (nz && s == w) && (!g || *g == x), "words recognised as simplified", in(), g.has_value()); }
                if (!nz) { VP_CHECK(c.canonical_moment(x) == x && !c.can_be_simplified_as_moment(x), "zero is canonical", in(), ""); continue; }
                auto y = c.canonical_moment(x); W yw = of(y); VP_CHECK(!y.zero() && relabels(n, s, yw), "the canonical form is a relabelling of source copies", in(), list(s) << " -> " << list(yw)); VP_CHECK(std::is_sorted(yw.begin(), yw.end()) && y.hash() == c.hash(sequence_storage_t(yw.begin(), yw.end())), "the canonical form is a simplified word", in(), list(yw));
                auto z = c.canonical_moment(y); VP_CHECK(z == y && of(z) == yw, "canonicalising again changes nothing", in(), list(yw) << " -> " << list(of(z))); VP_CHECK(c.can_be_simplified_as_moment(x) == (yw != s) && !c.can_be_simplified_as_moment(y), "the quick check agrees with canonicalising", in(), list(s) << " -> " << list(yw));
                if (c.can_have_aliases()) { auto a = c.simplify_as_moment(x); auto x2 = x; auto b = c.simplify_as_moment(std::move(x2)); VP_CHECK(a == y && b == y, "both ways to simplify agree", in(), list(of(a))); }
                auto f = c.factorize(x); std::vector<W> fw; for (auto& q : f) fw.push_back(of(q)); std::sort(fw.begin(), fw.end()); auto want = parts(n, s); std::ostringstream got; for (auto& q : fw) got << list(q); VP_CHECK(fw == want, "factors are the connected components", in(), got.str());
                for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j < i; ++j) VP_CHECK((c.connected_sources(f[i]) & c.connected_sources(f[j])).empty(), "factors share no source", in(), got.str()); } } });
    vp::group("dictionary", [&] {
        for (int it = 0; it < 12 * N; ++it) { auto n = make(rng, 14); auto cp = n.ctx(); auto& c = *cp; size_t L = std::min<size_t>(1 + rng(3), c.the_hasher().longest_hashable_string()); VP_AT("dictionary", n.d << " length " << L); std::set<W> want{{}}; std::vector<W> lvl{{}}; for (size_t l = 0; l < L; ++l) { std::vector<W> nx; for (auto& w : lvl) for (size_t o = 0; o < n.ops.size(); ++o) { auto q = w; q.push_back((oper_name_t) o); W s; if (simp(n, q, s) && s.size() == l + 1 && want.insert(s).second) nx.push_back(s); } lvl = nx; }
            const auto& osg = c.operator_sequence_generator(L); std::set<W> got; size_t cnt = 0; for (auto& x : osg) { got.insert(of(x)); ++cnt; } VP_CHECK(got == want && cnt == want.size(), "the dictionary lists every simplified word once", n.d << " length " << L, cnt << " words, expected " << want.size()); } });
    vp::group("factor tables", [&] {
        for (int it = 0; it < 30 * N; ++it) { auto n = make(rng, 14); InflationMatrixSystem ims{n.ctx()}; auto& c = ims.InflationContext(); VP_AT("factor tables", n.d); if (c.the_hasher().longest_hashable_string() < 6) continue; auto& T = ims.Symbols(); auto& F = ims.Factors();
            (void) ims.MomentMatrix(n.ops.size() < 7 ? 1 + rng(2) : 1); if (rng.coin() && n.ops.size() < 7) (void) ims.generate_dictionary(2);
            auto test = [&] { VP_CHECK(F.size() == T.size(), "one entry per symbol", n.d, F.size() << " of " << T.size());
                for (size_t i = 0; i < F.size() && i < T.size(); ++i) { auto& e = F[i]; VP_CHECK(e.id == (symbol_name_t) i, "entries are aligned with symbols", n.d, i); auto& cs = e.canonical.symbols; auto fi = F.find_index_by_factors(cs); VP_CHECK(fi && F[*fi].canonical.symbols == cs, "an entry is found by its factors", n.d, i);
                    if (!T[(symbol_name_t) i].has_sequence()) continue; auto& s = T[(symbol_name_t) i].sequence(); std::vector<symbol_name_t> want; bool all = true; if (s.zero()) want.push_back(0); else for (auto& w : parts(n, of(s))) { auto p = T.where(c.canonical_moment(seq(w, c))); if (p) want.push_back(p->Id()); else all = false; } VP_CHECK(all && sorted(want) == cs, "an entry lists the symbols of its connected components", n.d << " word " << list(of(s)), list(cs) << " not " << list(sorted(want))); }
                std::map<std::vector<symbol_name_t>, int> known; for (size_t i = 0; i < F.size(); ++i) known[F[i].canonical.symbols] = 1;
                for (int k = 0; k < 60; ++k) { std::vector<symbol_name_t> m; size_t len = 1 + rng(4); for (size_t i = 0; i < len; ++i) m.push_back((symbol_name_t) rng(rng(3) ? T.size() : std::min<size_t>(T.size(), 5))); auto want = prod(F, m); bool threw = false; symbol_name_t r = -7; VP_AT("products", n.d << " symbols " << list(m));
                    try { r = len == 2 && rng.coin() ? F.try_multiply(m[0], m[1]) : F.try_multiply(m); } catch (const Moment::Inflation::errors::unknown_symbol&) { threw = true; } VP_CHECK(threw ? !known.count(want) : r >= 0 && (size_t) r < F.size() && F[r].canonical.symbols == want, "a product of symbols has exactly their factors", n.d << " symbols " << list(m), (threw ? "not found" : str(r))); } };
            test();
            if (rng.coin()) { std::vector<symbol_name_t> ext; size_t k = 1 + rng(4); for (size_t i = 0; i < k; ++i) ext.push_back((symbol_name_t) (rng(6) == 0 ? rng(2) : rng(T.size()))); auto& base = dynamic_cast<const MonomialMatrix&>(ims.MomentMatrix(1)); VP_AT("extended matrix", n.d << " by " << list(ext));
                ExtendedMatrix E{T, F, 1.0, base, ext, Multithreading::MultiThreadPolicy::Never}; auto& M = E.SymbolMatrix(); auto& B = base.SymbolMatrix(); size_t d = base.Dimension(); VP_CHECK(E.Dimension() == d + k, "one row and column per extension", n.d, E.Dimension());
                auto sym = [&](size_t i) { return i < d ? B(std::array<size_t, 2>{0, i}).id : ext[i - d]; };
                for (size_t i = 0; i < d + k; ++i) for (size_t j = 0; j < d + k; ++j) { auto& x = M(std::array<size_t, 2>{i, j}); if (i < d && j < d) { VP_CHECK(x == B(std::array<size_t, 2>{i, j}), "the original block stays", n.d << " by " << list(ext), i << "," << j); continue; }
                    auto want = prod(F, {sym(i), sym(j)}); VP_CHECK(x.id >= 0 && (size_t) x.id < F.size() && F[x.id].canonical.symbols == want && x.factor == 1.0 && !x.conjugated, "extended elements are products of moments", n.d << " by " << list(ext), i << "," << j << " -> " << x.id); }
                test(); }
            auto& fac = ims.polynomial_factory(); for (int k = 0; k < 10; ++k) { Polynomial p[2]; for (auto& q : p) { Polynomial::storage_t s; size_t l = rng(4); for (size_t i = 0; i < l; ++i) s.emplace_back((symbol_name_t) (1 + rng(std::min<size_t>(T.size() - 1, 4))), (double) rng.range(-3, 3), false); q = fac(std::move(s)); } std::map<std::vector<symbol_name_t>, std::complex<double>> want, got; for (auto& a : p[0]) for (auto& b : p[1]) want[prod(F, {a.id, b.id})] += a.factor * b.factor; bool threw = false; Polynomial r;
                try { r = F.try_multiply(fac, p[0], p[1]); } catch (const Moment::Inflation::errors::unknown_symbol&) { threw = true; } if (threw) continue; for (auto& m : r) got[F[m.id].canonical.symbols] += m.factor; std::erase_if(want, [](auto& x) { return x.second == 0.0; }); std::erase_if(got, [](auto& x) { return x.second == 0.0; }); VP_CHECK(got == want, "products of polynomials expand", n.d << " " << show(p[0]) << " times " << show(p[1]), show(r)); } } });
    vp::group("merging factors", [&] {
        for (int it = 0; it < 2000 * N; ++it) { std::vector<symbol_name_t> a, b; for (auto* v : {&a, &b}) { size_t k = rng(4); for (size_t i = 0; i < k; ++i) v->push_back((symbol_name_t) rng(rng(2) ? 7 : 3)); std::sort(v->begin(), v->end()); if (!v->empty() && (*v)[0] == 0) *v = {0}; else if (v->size() > 1) { std::erase(*v, 1); if (v->empty()) v->push_back(1); } }
            std::vector<symbol_name_t> want; for (auto* v : {&a, &b}) for (auto x : *v) if (x != 1) want.push_back(x); if (std::count(want.begin(), want.end(), 0)) want = {0}; if (want.empty()) want = {1}; std::sort(want.begin(), want.end()); auto got = FactorTable::combine_symbolic_factors(a, b); VP_CHECK(got == want, "merged factors are those of the product", list(a) << " and " << list(b), list(got) << " not " << list(want)); } });
    return vp::finish();
}
