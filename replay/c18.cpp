// C18: Collins-Gisin, probability and full-correlator tensors against the textbook formulas.
// Bound: random locality scenarios of up to 4 parties, 3 measurements each, 1..4 outcomes; random networks of up to 3 observables, inflation 1..2; numeric tests in floating point.
#include "vp.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/tensor_conversion.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "scenarios/inflation/inflation_full_correlator.h"
#include "probability/virtual_polynomial_view.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/symbol_table.h"
#include "symbolic/rules/moment_rulebook.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "scenarios/contextual_os.h"
using namespace Moment; using vp::Rng; using vp::str; using vp::list;
namespace L = Moment::Locality; namespace I = Moment::Inflation;
using W = std::vector<oper_name_t>; using Idx = std::vector<size_t>; using PM = std::map<symbol_name_t, double>;
/** one axis of the tensors: measurements (outcome count, first operator, whether the last outcome is explicit) */
struct Mmt { size_t outcomes; std::vector<oper_name_t> ops; size_t cg0, pt0; };
struct Axis { std::vector<Mmt> mmt; size_t cg = 1, pt = 1; void add(size_t outcomes, std::vector<oper_name_t> ops) { mmt.push_back({outcomes, ops, cg, pt}); cg += ops.size(); pt += outcomes; } };
struct Sc { std::vector<Axis> ax; std::string d; size_t cgn() const { size_t n = 1; for (auto& a : ax) n *= a.cg; return n; } size_t ptn() const { size_t n = 1; for (auto& a : ax) n *= a.pt; return n; }
    size_t off(const Idx& cg) const { size_t o = 0, s = 1; for (size_t i = 0; i < ax.size(); ++i) { o += cg[i] * s; s *= ax[i].cg; } return o; }
    W word(const Idx& cg) const { W w; for (size_t i = 0; i < ax.size(); ++i) if (cg[i]) for (auto& m : ax[i].mmt) if (cg[i] >= m.cg0 && cg[i] < m.cg0 + m.ops.size()) w.push_back(m.ops[cg[i] - m.cg0]); return w; }
    /** one axis' entry of the probability tensor as a combination of Collins-Gisin indices */
    std::vector<std::pair<size_t, double>> term(size_t a, size_t i) const { if (!i) return {{0, 1.0}}; for (auto& m : ax[a].mmt) if (i >= m.pt0 && i < m.pt0 + m.outcomes) { if (i - m.pt0 < m.ops.size()) return {{m.cg0 + i - m.pt0, 1.0}}; std::vector<std::pair<size_t, double>> o{{0, 1.0}}; for (size_t k = 0; k < m.ops.size(); ++k) o.push_back({m.cg0 + k, -1.0}); return o; } return {}; }
    PM expand(const std::vector<std::vector<std::pair<size_t, double>>>& f) const { std::vector<std::pair<Idx, double>> p{{Idx{}, 1.0}}; for (auto& t : f) { std::vector<std::pair<Idx, double>> n; for (auto& [x, c] : p) for (auto& [i, k] : t) { auto y = x; y.push_back(i); n.push_back({y, c * k}); } p = n; } PM o; for (auto& [x, c] : p) o[(symbol_name_t) off(x) + 1] += c; return o; }
    PM prob(const Idx& pt) const { std::vector<std::vector<std::pair<size_t, double>>> f; for (size_t a = 0; a < ax.size(); ++a) f.push_back(term(a, pt[a])); return expand(f); }
    PM corr(const Idx& fc) const { std::vector<std::vector<std::pair<size_t, double>>> f; for (size_t a = 0; a < ax.size(); ++a) { if (!fc[a]) f.push_back({{0, 1.0}}); else f.push_back({{ax[a].mmt[fc[a] - 1].cg0, 2.0}, {0, -1.0}}); } return expand(f); } };
static PM of(const Polynomial& p, bool& clean) { PM o; for (auto& m : p) { if (o.count(m.id) || m.factor.imag() != 0 || m.conjugated || m.id == 0 || m.factor.real() == 0) clean = false; o[m.id] += m.factor.real(); } return o; }
static std::string pm(const PM& p) { std::string s = "{"; for (auto& [k, c] : p) s += str(c) + "#" + str(k) + " "; return s + "}"; }
static bool next(Idx& i, const Idx& dims) { for (size_t d = 0; d < dims.size(); ++d) { if (++i[d] < dims[d]) return true; i[d] = 0; } return false; }
static OperatorSequence seq(const W& w, const Context& c) { return OperatorSequence{sequence_storage_t(w.begin(), w.end()), c}; }
/** the moments of a combination of Collins-Gisin entries; false: some have no symbol yet */
static bool moments(const Sc& s, const std::vector<Idx>& index, const PM& p, const Context& c, const SymbolTable& t, PM& out) { for (auto& [k, v] : p) { auto r = t.where(seq(s.word(index[(size_t) k - 1]), c)); if (r == nullptr) return false; out[r->Id()] += v; } std::erase_if(out, [](auto& x) { return x.second == 0; }); return true; }
static std::vector<Idx> all(const Sc& s) { std::vector<Idx> o; Idx d, i(s.ax.size(), 0); for (auto& a : s.ax) d.push_back(a.cg); bool empty = false; for (auto x : d) empty |= !x; if (empty) return o; do o.push_back(i); while (next(i, d)); return o; }

static void check_cg(const Sc& s, const CollinsGisin& cg, const SymbolTable& t, const std::string& d) {
    auto index = all(s); Idx dims; for (auto& a : s.ax) dims.push_back(a.cg); bool allsym = true;
    if (!VP_CHECK(cg.Dimensions == dims && cg.ElementCount == s.cgn(), "Collins-Gisin axes: identity and every explicit outcome", d, list(cg.Dimensions) << " not " << list(dims))) return;
    for (size_t o = 0; o < index.size(); ++o) { auto e = cg(index[o]); auto want = seq(s.word(index[o]), cg.context); auto w = t.where(want); allsym &= w != nullptr; VP_AT("Collins-Gisin", d << " index " << list(index[o]));
        VP_CHECK(cg.index_to_offset(index[o]) == o && e->sequence == want && cg.at(o)->sequence == want, "a Collins-Gisin entry is the product of its axes' outcomes", d << " index " << list(index[o]), e->sequence.formatted_string() << " not " << want.formatted_string());
        VP_CHECK(w == nullptr ? e->symbol_id == -1 : (e->symbol_id == w->Id() && e->real_index == w->basis_key().first && e->is_alias == w.is_aliased), "a Collins-Gisin entry carries the moment of its product, as soon as there is one", d << " index " << list(index[o]), e->symbol_id << " not " << (w == nullptr ? -1 : w->Id())); }
    if (cg.StorageType == TensorStorageType::Explicit) VP_CHECK(cg.HasAllSymbols() == allsym, "the Collins-Gisin tensor knows whether moments are missing", d, cg.HasAllSymbols() << " not " << allsym); }
static void check_poly(const Sc& s, const CollinsGisin& cg, const SymbolTable& t, const PolynomialTensor& pt, const std::string& name, const Idx& dims, const std::function<PM(const Idx&)>& want, const std::string& d, Rng& rng) {
    auto index = all(s); if (!VP_CHECK(pt.Dimensions == dims, "axes of the " + name, d, list(pt.Dimensions) << " not " << list(dims))) return;
    size_t n = 1; for (auto x : dims) n *= x; Idx i(dims.size(), 0); size_t o = 0; bool everything = true;
    do { bool look = n <= 1500 || rng(n) < 600; if (!look) { ++o; continue; } VP_AT(name, d << " index " << list(i)); auto w = want(i); bool clean = true; auto e = pt(i); auto got = of(e->cgPolynomial, clean); std::erase_if(w, [](auto& x) { return x.second == 0; });
        VP_CHECK(got == w && clean && pt.index_to_offset(i) == o && pt.CGPolynomial(i) == e->cgPolynomial, "entries of the " + name + " are the textbook combination of Collins-Gisin entries", d << " index " << list(i), pm(got) << " not " << pm(w));
        PM m; bool has = moments(s, index, w, cg.context, t, m); everything &= has; clean = true;
        if (has) { VP_CHECK(e->hasSymbolPoly || pt.StorageType == TensorStorageType::Virtual, "entries of the " + name + " whose moments exist have them", d << " index " << list(i), "no polynomial"); }
        if (e->hasSymbolPoly) { auto gm = of(e->symbolPolynomial, clean); VP_CHECK(has && clean && gm == m, "entries of the " + name + " are the textbook combination of moments", d << " index " << list(i), pm(gm) << " not " << pm(m)); }
        if (rng(8) == 0) { std::map<std::string, double> a, b; size_t k = 0; VirtualPolynomialView v{cg, e->cgPolynomial}; for (auto it = v.begin(); it != v.end(); ++it) { auto [q, f] = *it; a[q.formatted_string()] += f.real(); ++k; } for (auto& [x, c] : w) b[seq(s.word(index[(size_t) x - 1]), cg.context).formatted_string()] += c; VP_CHECK(a == b && k == v.size(), "an entry of the " + name + " can be viewed as words with weights", d << " index " << list(i), k << " terms"); }
        ++o; } while (next(i, dims));
    if (n <= 1500 && pt.StorageType == TensorStorageType::Explicit) VP_CHECK(pt.HasAllPolynomials() == everything, "the " + name + " knows whether polynomials are missing", d, pt.HasAllPolynomials() << " not " << everything); }
static void check_norm(const Sc& s, const PolynomialTensor& pt, const std::string& d, Rng& rng) { // marginals
    if (s.ax.empty()) return;
    for (int k = 0; k < 20; ++k) { size_t a = rng(s.ax.size()); if (s.ax[a].mmt.empty()) continue; auto& m = s.ax[a].mmt[rng(s.ax[a].mmt.size())]; if (m.ops.size() == m.outcomes) continue; Idx i; for (auto& x : s.ax) i.push_back(rng(x.pt)); i[a] = 0; bool cl = true; PM lower = of(pt(i)->cgPolynomial, cl), sum; for (size_t o = 0; o < m.outcomes; ++o) { i[a] = m.pt0 + o; for (auto& [q, c] : of(pt(i)->cgPolynomial, cl)) sum[q] += c; } std::erase_if(sum, [](auto& x) { return x.second == 0; });
        i[a] = 0; VP_CHECK(sum == lower, "all outcomes of a measurement sum to the moment without it", d << " axis " << a << " at " << list(i), pm(sum) << " not " << pm(lower)); } }
static bool same(const Idx& a, std::span<const size_t> b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
/** a range over a tensor lists exactly the boxes' entries, first axis fastest */
template<class R> static void check_range(const R& r, const std::vector<std::pair<size_t, size_t>>& box, const std::string& what, const std::string& in) {
    size_t n = 1; for (auto& b : box) n *= b.second - b.first; Idx i; for (auto& b : box) i.push_back(b.first); size_t k = 0; auto it = r.begin(); bool ok = true; if (n) for (;;) { if (it == r.end()) { ok = false; break; } ok = ok && same(i, it.index()) && it.block_offset() == k; ++it; ++k; size_t d = 0; for (; d < box.size(); ++d) { if (++i[d] < box[d].second) break; i[d] = box[d].first; } if (d == box.size()) break; }
    VP_CHECK(ok && it == r.end() && r.size() == n, what, in, k << " entries, " << r.size() << " announced, " << n << " wanted"); }
template<class F> static bool throws(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

struct LS { Sc s; std::unique_ptr<L::LocalityMatrixSystem> ms; };
static LS locality(Rng& r, size_t maxp, size_t maxm, size_t maxo, bool binary = false) {
    LS l; size_t np = 1 + r(maxp); std::vector<size_t> mm, oo; std::ostringstream d; d << "locality outcomes"; oper_name_t op = 0; bool one = r(6) == 0;
    for (size_t p = 0; p < np; ++p) { Axis a; size_t m = r(maxm + 1); mm.push_back(m); d << " ["; for (size_t i = 0; i < m; ++i) { size_t o = binary ? 2 : (one && r(3) == 0 ? 1 : 2 + r(maxo - 1)); oo.push_back(o); d << o << " "; std::vector<oper_name_t> ops; for (size_t k = 0; k + 1 < o; ++k) ops.push_back(op++); a.add(o, ops); } d << "]"; l.s.ax.push_back(a); }
    l.s.d = d.str(); l.ms = std::make_unique<L::LocalityMatrixSystem>(std::make_unique<L::LocalityContext>(L::Party::MakeList(mm, oo))); return l; }
static void some_symbols(const Sc& s, MatrixSystem& ms, Rng& rng) { auto index = all(s); size_t n = rng(index.size() + 2); while (n--) { auto lock = ms.get_write_lock(); ms.Symbols().merge_in(seq(s.word(index[rng(index.size())]), ms.Context())); } }
static void every_symbol(const Sc& s, MatrixSystem& ms) { auto lock = ms.get_write_lock(); for (auto& i : all(s)) ms.Symbols().merge_in(seq(s.word(i), ms.Context())); }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 60; Rng rng{vp::seed + 18}; const int N = vp::thorough ? 40 : 5;
    vp::group("locality tensors", [&] {
        for (int it = 0; it < 30 * N; ++it) { bool bin = rng(3) == 0; auto l = locality(rng, bin ? 5 : 4, 3, 4, bin); auto& s = l.s; auto& ms = *l.ms; if (s.cgn() > 4000 || s.ptn() > 60000) continue; VP_AT("locality tensors", s.d);
            Idx pd, fd; bool binary = true; for (auto& a : s.ax) { pd.push_back(a.pt); fd.push_back(a.mmt.size() + 1); for (auto& m : a.mmt) binary &= m.outcomes == 2; }
            if (ms.Context().the_hasher().longest_hashable_string() < s.ax.size()) continue;
            if (rng.coin()) some_symbols(s, ms, rng);
            for (int round = 0; round < 3; ++round) { std::string d = s.d + " round " + str(round); ms.RefreshProbabilityTensor();
                check_cg(s, ms.CollinsGisin(), ms.Symbols(), d);
                check_poly(s, ms.CollinsGisin(), ms.Symbols(), ms.ProbabilityTensor(), "probability tensor", pd, [&](const Idx& i) { return s.prob(i); }, d, rng); check_norm(s, ms.ProbabilityTensor(), d, rng);
                L::LocalityProbabilityTensor v{ms, rng.coin() ? TensorStorageType::Virtual : TensorStorageType::Explicit}; check_poly(s, ms.CollinsGisin(), ms.Symbols(), v, "probability tensor", pd, [&](const Idx& i) { return s.prob(i); }, d + " on the fly", rng);
                VP_CHECK(ms.CanHaveFullCorrelator() == binary, "full correlators are for binary measurements", d, binary);
                if (binary) { ms.RefreshFullCorrelator(); check_poly(s, ms.CollinsGisin(), ms.Symbols(), ms.FullCorrelator(), "full correlator", fd, [&](const Idx& i) { return s.corr(i); }, d, rng);
                    L::LocalityFullCorrelator fv{ms, TensorStorageType::Virtual}; check_poly(s, ms.CollinsGisin(), ms.Symbols(), fv, "full correlator", fd, [&](const Idx& i) { return s.corr(i); }, d + " on the fly", rng); }
                else VP_CHECK(throws([&] { ms.RefreshFullCorrelator(); }), "full correlators are for binary measurements", d, "not refused");
                if (round == 0) some_symbols(s, ms, rng); else every_symbol(s, ms); } } });
    vp::group("inflation tensors", [&] {
        for (int it = 0; it < 20 * N; ++it) { size_t no = 1 + rng(3), ns = rng(4), inf = 1 + rng(2); std::vector<size_t> out; for (size_t i = 0; i < no; ++i) out.push_back(rng(4) == 0 ? 0 : 2 + rng(2)); std::vector<std::set<oper_name_t>> src; for (size_t k = 0; k < ns; ++k) { std::set<oper_name_t> x; size_t c = 1 + rng(2); while (c--) x.insert((oper_name_t) rng(no)); src.push_back(x); }
            Sc s; std::ostringstream d; d << "outcomes " << list(out) << " sources "; for (auto& x : src) d << list(x); d << " inflation " << inf; s.d = d.str(); oper_name_t op = 0; bool binary = true;
            for (size_t o = 0; o < no; ++o) { size_t v = 1; for (auto& x : src) if (x.count((oper_name_t) o)) v *= inf; while (v--) { Axis a; std::vector<oper_name_t> ops; for (size_t k = 0; k < (out[o] ? out[o] - 1 : 1); ++k) ops.push_back(op++); a.add(out[o] ? out[o] : 1, ops); binary &= out[o] == 2; s.ax.push_back(a); } }
            if (s.cgn() > 1500 || s.ptn() > 20000) continue; auto sc = src; auto ic = std::make_unique<I::InflationContext>(I::CausalNetwork{out, std::move(sc)}, inf); if (ic->the_hasher().longest_hashable_string() < s.ax.size()) continue; VP_AT("inflation tensors", s.d);
            I::InflationMatrixSystem ms{std::move(ic)}; Idx pd, fd; for (auto& a : s.ax) { pd.push_back(a.pt); fd.push_back(2); }
            for (int round = 0; round < 2; ++round) { if (round == 1) ms.generate_dictionary(std::min<size_t>(2, s.ax.size())); std::string dd = s.d + " round " + str(round); ms.RefreshProbabilityTensor();
                check_cg(s, ms.CollinsGisin(), ms.Symbols(), dd); check_poly(s, ms.CollinsGisin(), ms.Symbols(), ms.ProbabilityTensor(), "probability tensor", pd, [&](const Idx& i) { return s.prob(i); }, dd, rng); check_norm(s, ms.ProbabilityTensor(), dd, rng);
                if (binary) { I::InflationFullCorrelator fc{ms, rng.coin() ? TensorStorageType::Explicit : TensorStorageType::Virtual}; check_poly(s, ms.CollinsGisin(), ms.Symbols(), fc, "full correlator", fd, [&](const Idx& i) { return s.corr(i); }, dd, rng); } } 
            // ranges
            std::vector<I::OVIndex> free; std::vector<I::OVOIndex> fixed; std::vector<std::pair<size_t, size_t>> pb, cb; size_t a = 0; auto& ctx = ms.InflationContext(); bool cgok = true; Idx at;
            for (auto& ob : ctx.Observables()) for (size_t v = 0; v < ob.variant_count; ++v, ++a) { I::OVIndex ov{(oper_name_t) ob.id, (oper_name_t) v}; auto& m = s.ax[a].mmt[0]; switch (rng(3)) { case 0: free.push_back(ov); pb.push_back({1, s.ax[a].pt}); cb.push_back({1, s.ax[a].cg}); break; case 1: { size_t o = rng(m.outcomes); if (o >= m.ops.size()) cgok = false; fixed.push_back({ov, (oper_name_t) o}); pb.push_back({1 + o, 2 + o}); cb.push_back({1 + o, 2 + o}); break; } default: pb.push_back({0, 1}); cb.push_back({0, 1}); } at.push_back(pb.back().first); }
            check_range(ms.InflationProbabilityTensor().measurement_to_range(free, fixed), pb, "a range of measurement outcomes lists exactly those outcomes", s.d);
            if (cgok) check_range(ms.InflationCollinsGisin().measurement_to_range(free, fixed), cb, "a range of measurement outcomes lists exactly those outcomes", s.d); } });
    vp::group("ranges", [&] {
        for (int it = 0; it < 60 * N; ++it) { auto l = locality(rng, 4, 3, 4); auto& s = l.s; auto& ms = *l.ms; if (s.cgn() > 2000 || s.ptn() > 20000) continue; VP_AT("ranges", s.d); ms.RefreshProbabilityTensor(); auto& c = ms.localityContext; auto& cg = ms.LocalityCollinsGisin(); auto& pt = ms.LocalityProbabilityTensor();
            for (int k = 0; k < 10; ++k) { std::vector<L::PMIndex> free; std::vector<L::PMOIndex> fixed; std::vector<size_t> gm, gm2; std::vector<oper_name_t> fo; std::vector<std::pair<size_t, size_t>> pb, cb, cb2; bool cgok = true; size_t g = 0; std::string in = s.d;
                for (size_t p = 0; p < s.ax.size(); ++p) { auto& ax = s.ax[p]; pb.push_back({0, 1}); cb.push_back({0, 1}); cb2.push_back({0, 1}); size_t m = ax.mmt.empty() ? 0 : rng(ax.mmt.size()); int how = ax.mmt.empty() ? 2 : (int) rng(3); if (how < 2) { auto& mm = ax.mmt[m]; gm.push_back(g + m); cb2.back() = {mm.cg0, mm.cg0 + mm.ops.size()};
                        if (how == 0) { free.push_back(L::PMIndex{c, (party_name_t) p, (mmt_name_t) m}); pb.back() = {mm.pt0, mm.pt0 + mm.outcomes}; cb.back() = cb2.back(); fo.push_back(-1); in += " mmt " + str(p) + "." + str(m); }
                        else { size_t o = rng(mm.outcomes); fixed.push_back(L::PMOIndex{c, (party_name_t) p, (mmt_name_t) m, (uint32_t) o}); pb.back() = {mm.pt0 + o, mm.pt0 + o + 1}; cb.back() = {mm.cg0 + o, mm.cg0 + o + 1}; if (o >= mm.ops.size()) cgok = false; fo.push_back((oper_name_t) o); in += " mmt " + str(p) + "." + str(m) + "=" + str(o); } }
                    g += ax.mmt.size(); }
                VP_AT("ranges", in);
                check_range(pt.measurement_to_range(free, fixed), pb, "a range of measurement outcomes lists exactly those outcomes", in);
                if (fixed.empty()) { check_range(pt.measurement_to_range(free), pb, "a range of measurement outcomes lists exactly those outcomes", in); check_range(cg.measurement_to_range(free), cb, "a range of measurement outcomes lists exactly those outcomes", in); }
                check_range(cg.measurement_to_range(std::span<const size_t>(gm)), cb2, "a range of measurement outcomes lists exactly those outcomes", in);
                if (cgok) { check_range(cg.measurement_to_range(free, fixed), cb, "a range of measurement outcomes lists exactly those outcomes", in); check_range(cg.measurement_to_range(std::span<const size_t>(gm), std::span<const oper_name_t>(fo)), cb, "a range of measurement outcomes lists exactly those outcomes", in); }
                if (free.empty()) { Idx at; for (auto& b : pb) at.push_back(b.first); auto e = pt.outcome_to_element(fixed); VP_CHECK(e->cgPolynomial == pt(at)->cgPolynomial, "the element of fixed outcomes", in, "other element"); }
                if (ms.CanHaveFullCorrelator()) { ms.RefreshFullCorrelator(); auto& fc = ms.LocalityFullCorrelator(); std::vector<L::PMIndex> q; Idx at; for (size_t p = 0; p < s.ax.size(); ++p) { size_t m = rng(s.ax[p].mmt.size() + 1); at.push_back(m); if (m) q.push_back(L::PMIndex{c, (party_name_t) p, (mmt_name_t) (m - 1)}); } VP_CHECK(fc.mmt_to_element(q)->cgPolynomial == fc(at)->cgPolynomial, "the correlator of given measurements", in, list(at)); }
                // bad requests
                size_t total = g + rng(2); std::vector<size_t> bad{total}; std::vector<oper_name_t> m1{-1}; L::PMIndex bpm{0, 0, total}; std::vector<L::PMIndex> bl{bpm}, none; std::vector<L::PMOIndex> bo; L::PMOIndex pmo{bpm, 0}; bo.push_back(pmo); in += " global measurement " + str(total) + " of " + str(g); VP_AT("ranges", in);
                VP_CHECK(throws([&] { (void) cg.measurement_to_range(std::span<const size_t>(bad)); }) && throws([&] { (void) cg.measurement_to_range(std::span<const size_t>(bad), std::span<const oper_name_t>(m1)); }) && throws([&] { (void) cg.measurement_to_range(bl); }) && throws([&] { (void) cg.measurement_to_range(none, bo); }), "a measurement that does not exist is refused (Collins-Gisin)", in, "not refused");
                VP_CHECK(throws([&] { (void) pt.measurement_to_range(bl); }) && throws([&] { (void) pt.measurement_to_range(bl, {}); }) && throws([&] { (void) pt.measurement_to_range(none, bo); }) && throws([&] { (void) pt.outcome_to_element(bo); }), "a measurement that does not exist is refused (probability tensor)", in, "not refused"); } } });
    vp::group("values", [&] {
        for (int it = 0; it < 25 * N; ++it) { auto l = locality(rng, 3, 2, 3); auto& s = l.s; auto& ms = *l.ms; if (s.cgn() > 400) continue; VP_AT("values", s.d); every_symbol(s, ms); ms.RefreshProbabilityTensor(); auto& pt = ms.LocalityProbabilityTensor(); auto& c = ms.localityContext; auto index = all(s);
            // a mixture of product distributions over the chosen measurements, outcomes implied
            std::vector<L::PMIndex> free; std::vector<L::PMOIndex> fixed; std::vector<std::vector<std::vector<double>>> P(2); std::ostringstream in; in << s.d; double mix = (1 + (double) rng(7)) / 8; std::vector<size_t> which; bool cond = rng.coin();
            for (size_t p = 0; p < s.ax.size(); ++p) { if (s.ax[p].mmt.empty() || rng(4) == 0) { which.push_back(SIZE_MAX); for (auto& q : P) q.push_back({}); continue; } size_t m = rng(s.ax[p].mmt.size()); which.push_back(m); in << " mmt " << p << "." << m; for (auto& q : P) { size_t n = s.ax[p].mmt[m].outcomes; std::vector<double> v(n, 1.0 / 16); for (size_t k = n; k < 16; ++k) v[rng(n)] += 1.0 / 16; q.push_back(v); }
                if (cond && rng(3) == 0) { size_t o = rng(s.ax[p].mmt[m].outcomes); fixed.push_back(L::PMOIndex{c, (party_name_t) p, (mmt_name_t) m, (uint32_t) o}); in << "=" << o; } else free.push_back(L::PMIndex{c, (party_name_t) p, (mmt_name_t) m}); }
            auto joint = [&](const Idx& pti) { double a = mix, b = 1 - mix; for (size_t p = 0; p < pti.size(); ++p) if (pti[p]) { size_t o = pti[p] - s.ax[p].mmt[which[p]].pt0; a *= P[0][p][o]; b *= P[1][p][o]; } return a + b; };
            if (free.empty()) continue; auto range = pt.measurement_to_range(free, fixed); auto condition = pt.outcome_to_element(fixed); Idx ci(s.ax.size(), 0); for (auto& f : fixed) ci[f.party] = s.ax[f.party].mmt[f.mmt].pt0 + f.outcome; double pc = joint(ci);
            std::vector<double> values; std::vector<Idx> at; for (auto i = range.begin(); i != range.end(); ++i) { at.emplace_back(i.index().begin(), i.index().end()); values.push_back(joint(at.back()) / (fixed.empty() ? 1.0 : pc)); }
            VP_AT("values", in.str()); auto rules = fixed.empty() ? pt.explicit_value_rules(range, values) : pt.explicit_value_rules(range, condition, values);
            if (!VP_CHECK(rules.size() == values.size(), "one rule per assigned value", in.str(), rules.size())) continue;
            for (size_t k = 0; k < rules.size(); ++k) { PM m, cm; moments(s, index, s.prob(at[k]), c, ms.Symbols(), m); moments(s, index, s.prob(ci), c, ms.Symbols(), cm); for (auto& [x, v] : cm) m[x] -= v * values[k]; bool ok = true; PM g; for (auto& q : rules[k]) g[q.id] += q.factor.real(); for (auto& [x, v] : m) ok = ok && std::abs(g[x] - v) < 1e-9; for (auto& [x, v] : g) ok = ok && std::abs(m[x] - v) < 1e-9; VP_CHECK(ok, "a value for an outcome is a rule: the outcome's moments less the value (times the condition)", in.str() + " outcome " + list(at[k]) + " value " + str(values[k]), pm(g) << " not " << pm(m)); }
            if (fixed.empty()) { MomentRulebook book{ms}; book.add_raw_rules(std::move(rules)); book.complete(); for (size_t k = 0; k < at.size(); ++k) { auto r = book.reduce(pt(at[k])->symbolPolynomial); double v = 0; bool scalar = true; for (auto& m : r) { if (m.id == 1) v += m.factor.real(); else if (std::abs(m.factor) > 1e-9) scalar = false; } VP_CHECK(scalar && std::abs(v - values[k]) < 1e-9, "assigned values give moments that reproduce the same probabilities", in.str() + " outcome " + list(at[k]), v << " not " << values[k]); } }
            } });
    vp::group("conversion", [&] {
        for (int it = 0; it < 60 * N; ++it) { size_t a = rng(4), b = rng(4); std::vector<size_t> mm{a, b}, oo(a + b, 2); L::LocalityContext c{L::Party::MakeList(mm, oo)}; L::TensorConvertor tc{c}; std::string in = "measurements " + str(a) + "," + str(b); VP_AT("conversion", in); std::vector<double> f; for (size_t i = 0; i < (a + 1) * (b + 1); ++i) f.push_back((double) rng.range(-9, 9)); in += " " + list(f);
            std::vector<double> want(f.size(), 0.0), want2(f.size(), 0.0); auto at = [&](size_t i, size_t j) { return i + j * (a + 1); };
            for (size_t i = 0; i <= a; ++i) for (size_t j = 0; j <= b; ++j) { double v = f[at(i, j)]; // <A> = 2a-1, a = (1+<A>)/2
                std::vector<std::pair<size_t, double>> x = i ? std::vector<std::pair<size_t, double>>{{i, 2.0}, {0, -1.0}} : std::vector<std::pair<size_t, double>>{{0, 1.0}}, y = j ? std::vector<std::pair<size_t, double>>{{j, 2.0}, {0, -1.0}} : std::vector<std::pair<size_t, double>>{{0, 1.0}}; for (auto& [p, q] : x) for (auto& [r, s] : y) want[at(p, r)] += v * q * s;
                x = i ? std::vector<std::pair<size_t, double>>{{i, 0.5}, {0, 0.5}} : std::vector<std::pair<size_t, double>>{{0, 1.0}}; y = j ? std::vector<std::pair<size_t, double>>{{j, 0.5}, {0, 0.5}} : std::vector<std::pair<size_t, double>>{{0, 1.0}}; for (auto& [p, q] : x) for (auto& [r, s] : y) want2[at(p, r)] += v * q * s; }
            VP_CHECK(tc.full_correlator_to_collins_gisin(f) == want, "a functional of correlators as one of Collins-Gisin moments", in, list(tc.full_correlator_to_collins_gisin(f)));
            VP_CHECK(tc.collins_gisin_to_full_correlator(f) == want2, "a functional of Collins-Gisin moments as one of correlators", in, list(tc.collins_gisin_to_full_correlator(f)));
            VP_CHECK(tc.collins_gisin_to_full_correlator(tc.full_correlator_to_collins_gisin(f)) == f, "there and back is the identity", in, "differs"); } });
    return vp::finish();
}
