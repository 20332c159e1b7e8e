// C17: operator, monomial and polynomial matrices against element-wise word arithmetic.
// Bound: random algebraic (free, commutation rules, non-Hermitian), locality, Pauli (plain, translational; nearest-neighbour words,
// commutators) and inflation systems; levels 0..2, matrices up to 26x26, words up to length 3; single- and multithreaded construction.
#include "poly.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "scenarios/inflation/inflation_context.h"
#include "matrix_system/matrix_system.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/composite_matrix.h"
#include "matrix/operator_matrix/operator_matrix.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "matrix/operator_matrix/localizing_matrix.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence_generator.h"
#include "multithreading/multithreading.h"
using namespace Moment; using namespace vp;
namespace A = Moment::Algebraic; namespace P = Moment::Pauli;
using MT = Multithreading::MultiThreadPolicy;

struct Ctx { std::unique_ptr<Context> c; std::string name; bool aliased = false; };
static Ctx make_ctx(Rng& r, int kind = -1) {
    switch (kind >= 0 ? kind : (int) r(9)) {
        case 0: case 1: { size_t n = 1 + r(4); return {std::make_unique<Context>(n), "Context(" + str(n) + ")"}; }
        case 3: { A::AlgebraicPrecontext pc{4}; std::vector<A::OperatorRule> rules; auto sg = r.coin() ? SequenceSignType::Negative : SequenceSignType::Positive; // word * = +- another word
            rules.emplace_back(HashedSequence{{1, 2}, pc.hasher}, HashedSequence{{0, 3}, pc.hasher, sg}); rules.emplace_back(HashedSequence{{3, 0}, pc.hasher}, HashedSequence{{2, 1}, pc.hasher, sg});
            if (r.coin()) for (oper_name_t a = 0; a < 4; ++a) rules.emplace_back(HashedSequence{{a, a}, pc.hasher}, HashedSequence{{}, pc.hasher});
            std::string d = std::string("algebraic 12=") + (sg == SequenceSignType::Negative ? "-" : "") + "03" + (rules.size() > 2 ? " squares 1" : ""); VP_AT("completing rules", d);
            auto c = std::make_unique<A::AlgebraicContext>(pc, false, true, rules); if (!c->attempt_completion(12)) return {std::make_unique<Context>(2), "Context(2)"}; return {std::move(c), d}; }
        case 2: {
            oper_name_t n = 2 + (oper_name_t) r(3); A::AlgebraicPrecontext pc{n}; std::vector<A::OperatorRule> rules; std::string d = "algebraic(" + str(n) + "):";
            for (oper_name_t b = 1; b < n; ++b) for (oper_name_t a = 0; a < b; ++a) { int k = (int) r(4); if (k == 3) continue;
                auto sg = k == 0 ? SequenceSignType::Positive : SequenceSignType::Negative; d += " " + str(b) + str(a) + (k ? "=-" : "=") + str(a) + str(b);
                rules.emplace_back(HashedSequence{{b, a}, pc.hasher}, HashedSequence{{a, b}, pc.hasher, sg}); }
            if (r.coin()) { oper_name_t a = (oper_name_t) r(n); d += " " + str(a) + str(a) + "=1"; rules.emplace_back(HashedSequence{{a, a}, pc.hasher}, HashedSequence{{}, pc.hasher}); }
            VP_AT("completing rules", d); auto c = std::make_unique<A::AlgebraicContext>(pc, false, true, rules); if (!c->attempt_completion(12)) return {std::make_unique<Context>(2), "Context(2)"};
            return {std::move(c), d}; }
        case 4: { oper_name_t n = 1 + (oper_name_t) r(2); auto m = r.coin() ? A::AlgebraicPrecontext::ConjugateMode::Bunched : A::AlgebraicPrecontext::ConjugateMode::Interleaved;
            A::AlgebraicPrecontext pc{n, m}; return {std::make_unique<A::AlgebraicContext>(pc, false, false), "algebraic non-Hermitian(" + str(n) + ")"}; }
        case 5: { size_t p = 1 + r(2), m = 1 + r(2), o = 2 + r(2); return {std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(p, m, o)), "locality " + str(p) + " " + str(m) + " " + str(o)}; }
        case 6: { size_t q = 1 + r(3); return {std::make_unique<P::PauliContext>(q), "pauli " + str(q)}; }
        case 7: { size_t q = 2 + r(3); return {std::make_unique<P::PauliContext>(q, P::WrapType::Wrap, P::SymmetryType::Translational), "pauli translational " + str(q), true}; }
        default: { size_t l = 1 + r(2); return {std::make_unique<Inflation::InflationContext>(Inflation::CausalNetwork{{2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}}, l), "triangle level " + str(l), true}; }
    }
}
static std::string w2s(const OperatorSequence& s) { return s.zero() ? "0" : vp::list(s) + (s.get_sign() == SequenceSignType::Positive ? "" : "^" + str((int) s.get_sign())); }
static cd phase(const OperatorSequence& s) { switch (s.get_sign()) { case SequenceSignType::Positive: return {1, 0}; case SequenceSignType::Imaginary: return {0, 1}; case SequenceSignType::Negative: return {-1, 0}; default: return {0, -1}; } }
static SequenceSignType times(SequenceSignType a, SequenceSignType b) { return (SequenceSignType) (((int) a + (int) b) % 4); }
/** the word a.b.c simplified from its concatenated operators */
static OperatorSequence cat(const Context& c, std::initializer_list<const OperatorSequence*> ws) {
    sequence_storage_t s; int sg = 0; for (auto* w : ws) { if (w->zero()) return OperatorSequence::Zero(c); for (auto o : *w) s.push_back(o); sg += (int) w->get_sign(); }
    return OperatorSequence(std::move(s), c, (SequenceSignType) (sg % 4)); }
/** conjugate, one operator at a time */
static OperatorSequence star(const Context& c, const OperatorSequence& w) {
    if (w.zero()) return OperatorSequence::Zero(c);
    sequence_storage_t s; int sg = (4 - (int) w.get_sign()) % 4; std::vector<oper_name_t> v(w.begin(), w.end());
    for (size_t i = v.size(); i--;) { auto x = OperatorSequence({v[i]}, c).conjugate(); for (auto o : x) s.push_back(o); sg += (int) x.get_sign(); }
    return OperatorSequence(std::move(s), c, (SequenceSignType) (sg % 4)); }
/** linear combination of words */
struct Val { std::map<hash_t, std::pair<OperatorSequence, cd>> m;
    void add(OperatorSequence w, cd k) { if (w.zero()) return; k *= phase(w); w.set_sign(SequenceSignType::Positive); auto h = w.hash(); auto it = m.find(h); if (it == m.end()) m.emplace(h, std::pair(w, k)); else it->second.second += k; auto x = m.find(h); if (std::abs(x->second.second) < 1e-13) m.erase(x); }
    bool operator==(const Val& o) const { if (m.size() != o.m.size()) return false; for (auto& [h, p] : m) { auto it = o.m.find(h); if (it == o.m.end() || std::abs(it->second.second - p.second) > 1e-9) return false; } return true; }
    std::string str() const { std::ostringstream s; for (auto& [h, p] : m) s << "+" << p.second << w2s(p.first); return s.str(); } };
static void addm(Val& v, const SymbolTable& t, const Monomial& x, cd k = {1, 0}) { if (x.id == 0 || x.factor == cd{0, 0}) return; const auto& s = t[x.id]; v.add(x.conjugated ? s.sequence_conj() : s.sequence(), x.factor * k); }
static Val eval(const SymbolTable& t, const Monomial& m) { Val v; addm(v, t, m); return v; }
static Val eval(const SymbolTable& t, const Polynomial& p) { Val v; for (auto& m : p) addm(v, t, m); return v; }
static OperatorSequence moment(const Context& c, OperatorSequence w) { return c.can_have_aliases() ? c.simplify_as_moment(std::move(w)) : w; }
static Val wval(const Context& c, const OperatorSequence& w, cd k = {1, 0}) { Val v; v.add(moment(c, w), k); return v; }
static Val conj(const Context& c, const Val& a) { Val v; for (auto& [h, p] : a.m) v.add(moment(c, p.first.conjugate()), std::conj(p.second)); return v; }
static Val elem(const SymbolicMatrix& m, size_t i, size_t j) { if (m.is_monomial()) return eval(m.symbols, dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j)); return eval(m.symbols, dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)); }

/** whatever the matrix: its declared properties are those of its elements */
static void properties(const SymbolicMatrix& m, const Context& c, const std::string& d, bool flag = true) {
    VP_AT("declared properties", d);
    size_t n = m.Dimension(); bool herm = true; for (size_t i = 0; i < n && herm; ++i) for (size_t j = i; j < n && herm; ++j) if (!(elem(m, i, j) == conj(c, elem(m, j, i)))) herm = false;
    if (flag) VP_CHECK(m.Hermitian() == herm, "declared Hermitian exactly if it is", d, "declared " << m.Hermitian() << ", is " << herm);
    std::set<symbol_name_t> ids, re, im; bool cc = false;
    auto see = [&](const Monomial& x) { ids.insert(x.id); if (std::abs(x.factor.imag()) > 1e-12) cc = true; };
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (m.is_monomial()) see(dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j)); else for (auto& x : dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)) see(x);
    VP_CHECK(m.IncludedSymbols() == ids, "included symbols are those of the elements", d, list(m.IncludedSymbols()) << " vs " << list(ids));
    VP_CHECK(m.HasComplexCoefficients() == cc, "complex coefficients are declared if there are some", d, m.HasComplexCoefficients() << " vs " << cc);
    if (m.is_monomial()) { for (auto id : ids) { auto [r, i] = m.symbols[id].basis_key(); if (r >= 0) re.insert((symbol_name_t) r); if (i >= 0) im.insert((symbol_name_t) i); }
        VP_CHECK(m.RealBasisIndices() == re && m.ImaginaryBasisIndices() == im && m.HasComplexBasis() == !im.empty(), "basis elements are those of the symbols", d, list(m.RealBasisIndices()) << list(re)); }
    VP_CHECK(m.BasisKey().size() == ids.size(), "every symbol has a basis key", d, m.BasisKey().size()); for (auto& [id, k] : m.BasisKey()) VP_CHECK(ids.contains(id) && k == m.symbols[id].basis_key(), "every symbol has a basis key", d, id);
}
/** op(i, j): the word element (i, j) must be, before moment symmetries; k: factor */
template<class F> static void match(const SymbolicMatrix& m, const Context& c, const std::string& what, const std::string& d, size_t n, F&& op) {
    VP_AT(what, d);
    if (!VP_CHECK(m.Dimension() == n, what + ": dimension", d, m.Dimension() << " not " << n)) return;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { Val want = op(i, j), got = elem(m, i, j); if (!VP_CHECK(got == want, what, d << " element " << i << "," << j, got.str() << " expected " << want.str())) return; }
}
static void opmat(const SymbolicMatrix& m, const Context& c, const std::string& d, const std::vector<OperatorSequence>& rows, const std::vector<OperatorSequence>& cols, const OperatorSequence& word) {
    VP_AT("words of the operator matrix", d); if (!VP_CHECK(m.has_unaliased_operator_matrix() && m.has_aliased_operator_matrix(), "operator matrices are there", d, "missing")) return;
    auto& u = m.unaliased_operator_matrix(); auto& a = m.aliased_operator_matrix(); size_t n = cols.size(); bool hu = true, ha = true;
    if (!VP_CHECK(u.Dimension() == n && a.Dimension() == n, "operator matrix dimension", d, u.Dimension())) return;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { auto cr = star(c, rows[i]); auto want = cat(c, {&cr, &word, &cols[j]}); auto got = u(std::array<size_t, 2>{i, j});
        if (!VP_CHECK(got == want, "operator matrix element is conj(row) word column", d << " element " << i << "," << j, w2s(got) << " expected " << w2s(want))) return;
        auto am = a(std::array<size_t, 2>{i, j}); if (!VP_CHECK(am == moment(c, want), "aliased operator matrix element is the moment", d << " element " << i << "," << j, w2s(am) << " expected " << w2s(moment(c, want)))) return;
        if (!(u(std::array<size_t, 2>{i, j}) == u(std::array<size_t, 2>{j, i}).conjugate())) hu = false; if (!(a(std::array<size_t, 2>{i, j}) == a(std::array<size_t, 2>{j, i}).conjugate())) ha = false; }
    VP_CHECK(u.is_hermitian() == hu && a.is_hermitian() == ha, "operator matrix is Hermitian exactly if its elements are", d, u.is_hermitian() << hu << " " << a.is_hermitian() << ha);
    for (auto* o : {&u, &a}) if (!o->is_hermitian()) { auto nh = o->nonhermitian_index(); VP_CHECK(nh.has_value() && (*nh)[0] < n && (*nh)[1] < n && !((*o)(std::array<size_t, 2>{(*nh)[0], (*nh)[1]}) == (*o)(std::array<size_t, 2>{(*nh)[1], (*nh)[0]}).conjugate()), "the named element is not Hermitian", d, "row " << (nh ? (*nh)[0] : 0)); }
}
static OperatorSequence rword(Rng& r, const Context& c, size_t L, bool sign) { for (;;) { sequence_storage_t s; size_t k = r(L + 1); while (k--) s.push_back((oper_name_t) r(c.size())); OperatorSequence w(std::move(s), c, sign ? (SequenceSignType) r(4) : SequenceSignType::Positive); if (!w.zero()) return w; } }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 30; Rng rng{vp::seed + 17}; const int N = vp::thorough ? 12 : 1;
    auto words = [&](const OSGPair& g) { return std::vector<OperatorSequence>(g().begin(), g().end()); };
    vp::group("dictionary", [&] { for (int it = 0; it < 120 * N; ++it) { auto cx = make_ctx(rng); auto& c = *cx.c; size_t L = rng(c.size() > 8 ? 2 : 4); std::string d = cx.name + " level " + str(L); VP_AT("dictionary", d);
        // every word up to length L, by brute force
        std::set<hash_t> want; std::function<void(sequence_storage_t)> rec = [&](sequence_storage_t s) { OperatorSequence w(sequence_storage_t(s), c); if (!w.zero()) want.insert(w.hash()); if (s.size() < L) for (oper_name_t o = 0; o < (oper_name_t) c.size(); ++o) { auto t = s; t.push_back(o); rec(t); } }; if (std::pow((double) c.size(), (double) L) > 3000) continue; rec({});
        auto& g = c.dictionary().Level(L); std::set<hash_t> got; for (auto& w : g()) { VP_CHECK(got.insert(w.hash()).second, "no word is listed twice", d, w2s(w)); VP_CHECK(w.size() <= L && w.get_sign() == SequenceSignType::Positive && OperatorSequence(sequence_storage_t(w.begin(), w.end()), c) == w, "listed words are simplified", d, w2s(w)); }
        VP_CHECK(got == want, "the words of a level are all distinct simplified words up to its length", d, got.size() << " words, expected " << want.size()); VP_CHECK(c.dictionary().WordCount(L) == g().size() && !g().begin()->zero() && g().begin()->empty(), "the first word is the identity", d, "");
        VP_CHECK(g.conjugate().size() == g().size(), "conjugate words", d, ""); for (size_t i = 0; i < g().size(); ++i) VP_CHECK(g.conjugate()[i] == star(c, g()[i]), "conjugate words", d, w2s(g()[i])); } });
    vp::group("moment and localizing matrices", [&] { for (int it = 0; it < 160 * N; ++it) { auto cx = make_ctx(rng); std::string d = cx.name; MatrixSystem ms{std::move(cx.c)}; auto& c = ms.Context(); auto& t = ms.Symbols();
        size_t L = rng(c.size() > 4 ? 2 : 3); d += " level " + str(L); MT mt = rng(3) ? MT::Never : MT::Always; if (mt == MT::Always) d += " multithreaded"; VP_AT("making a moment matrix", d);
        auto one = OperatorSequence::Identity(c); size_t steps = 1 + rng(3);
        for (size_t k = 0; k < steps; ++k) { bool mm = rng(3) == 0; auto w = mm ? one : rword(rng, c, 3, rng(3) == 0); std::string e = d + (mm ? " moment" : " localizing " + w2s(w)); VP_AT("making a matrix", e);
            auto& m = mm ? ms.MomentMatrix.create(L, mt).second : ms.LocalizingMatrix.create(LocalizingMatrixIndex{L, w}, mt).second; auto g = words(c.dictionary().Level(L));
            d = e; opmat(m, c, e, g, g, w); match(m, c, "element is the moment of conj(row) word column", e, g.size(), [&](size_t i, size_t j) { auto cr = star(c, g[i]); return wval(c, cat(c, {&cr, &w, &g[j]})); }); properties(m, c, e);
            auto& again = mm ? ms.MomentMatrix.create(L, mt).second : ms.LocalizingMatrix.create(LocalizingMatrixIndex{L, w}, mt).second; VP_CHECK(&again == &m, "asking again gives the same matrix", e, "another"); } } });
    vp::group("polynomial localizing matrices", [&] { for (int it = 0; it < 100 * N; ++it) { auto cx = make_ctx(rng); std::string d = cx.name; MatrixSystem ms{std::move(cx.c)}; auto& c = ms.Context(); size_t L = rng(2); d += " level " + str(L);
        RawPolynomial rp; size_t k = rng(4); std::vector<std::pair<OperatorSequence, cd>> terms; while (k--) { auto w = rword(rng, c, 2, true); auto f = rcoef(rng, false); d += " +" + str(f) + w2s(w); rp.emplace_back(w, f); terms.emplace_back(w, f); }
        bool raw = rng.coin(); VP_AT("making a polynomial localizing matrix", d); const PolynomialMatrix* m; if (raw || c.can_have_aliases()) m = &ms.create_and_register_localizing_matrix(L, rp, MT::Never).second; else { auto p = rp.to_polynomial_register_symbols(ms.polynomial_factory(), ms.Symbols()); m = &ms.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{L, p}, MT::Never).second; }
        auto g = words(c.dictionary().Level(L)); match(*m, c, "element is the sum of the terms' elements", d, g.size(), [&](size_t i, size_t j) { Val v; auto cr = star(c, g[i]); for (auto& [w, f] : terms) v.add(moment(c, cat(c, {&cr, &w, &g[j]})), f); return v; }); properties(*m, c, d); } });
    vp::group("matrix arithmetic", [&] { for (int it = 0; it < 220 * N; ++it) { auto cx = make_ctx(rng); std::string d = cx.name; MatrixSystem ms{std::move(cx.c)}; auto& c = ms.Context(); auto& t = ms.Symbols(); auto& pf = ms.polynomial_factory(); size_t L = rng(2); auto w = rng.coin() ? OperatorSequence::Identity(c) : rword(rng, c, 2, false); d += " level " + str(L) + " word " + w2s(w); VP_AT("making a matrix", d);
        ms.generate_dictionary(2); auto& m = ms.LocalizingMatrix.create(LocalizingMatrixIndex{L, w}, MT::Never).second; auto g = words(c.dictionary().Level(L)); size_t n = g.size(); MT mt = rng(4) ? MT::Never : MT::Always;
        auto at = [&](size_t i, size_t j) { auto cr = star(c, g[i]); return cat(c, {&cr, &w, &g[j]}); }; bool pre = rng.coin(); std::string side = pre ? " pre" : " post";
        RawPolynomial rp; std::vector<std::pair<OperatorSequence, cd>> terms; size_t k = rng(4); for (size_t q = 0; q < k; ++q) { auto v = rword(rng, c, 2, true); auto f = rcoef(rng, false); rp.emplace_back(v, f); terms.emplace_back(v, f); d += " +" + str(f) + w2s(v); }
        auto prod = [&](size_t i, size_t j) { Val v; auto x = at(i, j); for (auto& [u, f] : terms) v.add(moment(c, pre ? cat(c, {&u, &x}) : cat(c, {&x, &u})), f); return v; };
        std::unique_ptr<SymbolicMatrix> o; switch (rng(7)) {
            case 0: { if (terms.empty()) break; auto [u, f] = terms[0]; terms.resize(1); VP_AT("multiplying a matrix by a word", d + side); o = pre ? m.pre_multiply(u, f, pf, t, mt) : m.post_multiply(u, f, pf, t, mt); match(*o, c, "matrix times a word", d + side, n, prod); break; }
            case 1: { VP_AT("multiplying a matrix by a raw polynomial", d + side); o = pre ? m.pre_multiply(rp, pf, t, mt) : m.post_multiply(rp, pf, t, mt); match(*o, c, "matrix times a combination of words", d + side, n, prod); break; }
            case 2: { Monomial x; do x = rmono(rng, t); while (!t[x.id].has_sequence() || (std::abs(x.factor) < 1e-9)); d += " times " + mstr(x); terms.clear(); if (x.id) terms.emplace_back(x.conjugated ? t[x.id].sequence_conj() : t[x.id].sequence(), x.factor); VP_AT("multiplying a matrix by a monomial", d + side); o = pre ? m.pre_multiply(x, pf, t, mt) : m.post_multiply(x, pf, t, mt); match(*o, c, "matrix times a monomial", d + side, n, prod); break; }
            case 3: { auto p = rp.to_polynomial_register_symbols(pf, t); if (c.can_have_aliases()) { terms.clear(); for (auto& x : p) terms.emplace_back(x.conjugated ? t[x.id].sequence_conj() : t[x.id].sequence(), x.factor); } VP_AT("multiplying a matrix by a polynomial", d + side); o = pre ? m.pre_multiply(p, pf, t, mt) : m.post_multiply(p, pf, t, mt); match(*o, c, "matrix times a polynomial", d + side, n, prod); break; }
            case 4: { auto p = rp.to_polynomial_register_symbols(pf, t); Val pv = eval(t, p); bool twice = rng.coin(); VP_AT("adding a polynomial to a matrix", d); o = m.add(p, pf, mt); auto plus = [&](size_t i, size_t j) { Val v = wval(c, at(i, j)); for (auto& [h, q] : pv.m) v.add(q.first, q.second); return v; }; match(*o, c, "matrix plus a polynomial (to every element)", d, n, plus);
                if (twice) { VP_AT("adding a polynomial to a polynomial matrix", d); auto o2 = o->add(p, pf, mt); match(*o2, c, "polynomial matrix plus a polynomial", d, n, [&](size_t i, size_t j) { Val v = plus(i, j); for (auto& [h, q] : pv.m) v.add(q.first, q.second); return v; }); properties(*o2, c, d); } break; }
            case 5: { auto x = rmono(rng, t); VP_AT("adding a monomial to a matrix", d + mstr(x)); o = m.add(x, pf, mt); Val xv = eval(t, x); match(*o, c, "matrix plus a monomial (to every element)", d + mstr(x), n, [&](size_t i, size_t j) { Val v = wval(c, at(i, j)); for (auto& [h, q] : xv.m) v.add(q.first, q.second); return v; }); break; }
            default: { auto w2 = rword(rng, c, 2, false); auto& m2 = ms.LocalizingMatrix.create(LocalizingMatrixIndex{L, w2}, MT::Never).second; VP_AT("adding two matrices", d + w2s(w2)); o = m.add(m2, pf, mt); match(*o, c, "sum of two matrices", d + " and " + w2s(w2), n, [&](size_t i, size_t j) { Val v = wval(c, at(i, j)); auto cr = star(c, g[i]); v.add(moment(c, cat(c, {&cr, &w2, &g[j]})), 1.0); return v; });
                if (rng.coin()) { auto o2 = o->add(m, pf, mt); match(*o2, c, "sum with a polynomial matrix", d + " and " + w2s(w2), n, [&](size_t i, size_t j) { Val v = wval(c, at(i, j), 2.0); auto cr = star(c, g[i]); v.add(moment(c, cat(c, {&cr, &w2, &g[j]})), 1.0); return v; }); } } }
        if (o) { properties(*o, c, d + side); if (o->is_monomial()) { VP_AT("copying a matrix", d + side); auto cl = o->clone(MT::Never); match(*cl, c, "a copy has the same elements", d + side, n, [&](size_t i, size_t j) { return elem(*o, i, j); }); VP_CHECK(cl->Hermitian() == o->Hermitian() && cl->Dimension() == o->Dimension(), "a copy has the same properties", d + side, ""); properties(*cl, c, d + side); } } } });
    vp::group("matrices without words", [&] { for (int it = 0; it < 60 * N; ++it) { auto tb = make_table(rng); auto& t = *tb.tab; auto& c = *tb.ctx; PolynomialFactory* pfp = nullptr; (void) pfp; size_t n = 1 + rng(3); std::vector<Monomial> data; std::string d = tb.desc + " : "; for (size_t i = 0; i < n * n; ++i) { data.push_back(rmono(rng, t)); d += mstr(data.back()); } VP_AT("matrix of monomials", d);
        MonomialMatrix m{c, t, 1.0, std::make_unique<SquareMatrix<Monomial>>(n, std::vector<Monomial>(data)), false};
        for (size_t i = 0; i < n * n; ++i) { PMap a, b; addto(a, t, data[i].id, data[i].conjugated, data[i].factor); auto& x = m.raw_data()[i]; addto(b, t, x.id, x.conjugated, x.factor); VP_CHECK(a == b, "monomials keep their value", d, mstr(data[i]) << " became " << mstr(x)); }
        VP_AT("copying a matrix without words", d); auto cl = m.clone(MT::Never); for (size_t i = 0; i < n * n; ++i) VP_CHECK(dynamic_cast<MonomialMatrix&>(*cl).raw_data()[i] == m.raw_data()[i], "a copy has the same elements", d, i); } });
    vp::group("Pauli matrices", [&] { for (int it = 0; it < 80 * N; ++it) { size_t q = 2 + rng(3); bool wrap = rng.coin(), sym = wrap && rng(3) == 0; std::string d = "pauli " + str(q) + (wrap ? " wrapped" : "") + (sym ? " translational" : ""); VP_AT("making a Pauli system", d);
        P::PauliMatrixSystem ms{sym ? std::make_unique<P::PauliContext>(q, P::WrapType::Wrap, P::SymmetryType::Translational) : std::make_unique<P::PauliContext>(q, wrap ? P::WrapType::Wrap : P::WrapType::None)}; auto& c = ms.pauliContext; size_t L = rng(3), nn = L ? rng(L > 1 && q > 3 ? 2 : 3) : 0; P::NearestNeighbourIndex ix{L, nn}; if (L == 2 && nn == 0 && q > 3) { L = 1; ix = P::NearestNeighbourIndex{1, 0}; nn = 0; } d += " level " + str(L) + " neighbours " + str(nn);
        VP_AT("nearest-neighbour words", d); auto g = words(c.pauli_dictionary().NearestNeighbour(ix)); size_t n = g.size(); auto w = rword(rng, c, 2, false); std::string e = d + " word " + w2s(w); int kind = (int) rng(4); MT mt = rng(4) ? MT::Never : MT::Always;
        auto at = [&](size_t i, size_t j) { auto cr = star(c, g[i]); return cat(c, {&cr, &g[j]}); };
        auto comm = [&](const OperatorSequence& x, const OperatorSequence& y, double s) { Val v; v.add(moment(c, cat(c, {&x, &y})), 1.0); v.add(moment(c, cat(c, {&y, &x})), s); return v; };
        if (kind == 0) { VP_AT("making a moment matrix", d); auto& m = ms.PauliMomentMatrices.create(P::MomentMatrixIndex{L, nn}, mt).second; auto one = OperatorSequence::Identity(c); opmat(m, c, d, g, g, one); match(m, c, "moment matrix of nearest-neighbour words", d, n, [&](size_t i, size_t j) { return wval(c, at(i, j)); }); properties(m, c, d); }
        else if (kind == 1) { VP_AT("making a localizing matrix", e); auto& m = ms.PauliLocalizingMatrices.create(P::LocalizingMatrixIndex{ix, w}, mt).second; opmat(m, c, e, g, g, w); match(m, c, "localizing matrix of nearest-neighbour words", e, n, [&](size_t i, size_t j) { auto cr = star(c, g[i]); return wval(c, cat(c, {&cr, &w, &g[j]})); }); properties(m, c, e); }
        else if (kind == 2) { VP_AT("making a commutator matrix", e); auto& m = ms.CommutatorMatrices.create(P::CommutatorMatrixIndex{ix, w}, mt).second; match(m, c, "commutator matrix", e, n, [&](size_t i, size_t j) { return comm(at(i, j), w, -1.0); }); properties(m, c, e); }
        else { VP_AT("making an anticommutator matrix", e); auto& m = ms.AnticommutatorMatrices.create(P::AnticommutatorMatrixIndex{ix, w}, mt).second; match(m, c, "anticommutator matrix", e, n, [&](size_t i, size_t j) { return comm(at(i, j), w, 1.0); }); properties(m, c, e); }
        RawPolynomial rp; std::vector<std::pair<OperatorSequence, cd>> terms; size_t k = rng(3); for (size_t z = 0; z < k; ++z) { auto v = rword(rng, c, 2, true); auto f = rcoef(rng, false); rp.emplace_back(v, f); terms.emplace_back(v, f); d += " +" + str(f) + w2s(v); }
        if (kind == 1) { VP_AT("making a polynomial localizing matrix", d); auto& m = ms.create_and_register_localizing_matrix(ix, rp, mt).second; match(m, c, "polynomial localizing matrix of nearest-neighbour words", d, n, [&](size_t i, size_t j) { Val v; auto cr = star(c, g[i]); for (auto& [u, f] : terms) v.add(moment(c, cat(c, {&cr, &u, &g[j]})), f); return v; }); }
        else if (kind) { double s = kind == 2 ? -1 : 1; VP_AT("making a polynomial commutator matrix", d); auto& m = kind == 2 ? ms.create_and_register_commutator_matrix(ix, rp, mt).second : ms.create_and_register_anticommutator_matrix(ix, rp, mt).second; match(m, c, kind == 2 ? "polynomial commutator matrix" : "polynomial anticommutator matrix", d, n, [&](size_t i, size_t j) { Val v; for (auto& [u, f] : terms) { auto z = comm(at(i, j), u, s); for (auto& [h, y] : z.m) v.add(y.first, y.second * f); } return v; }); } } });
    vp::group("the list of matrices", [&] { for (int it = 0; it < 20; ++it) { MatrixSystem ms{std::make_unique<Context>(2)}; size_t n = rng(3); std::string d = str(n) + " matrices"; VP_AT("deleting a matrix", d); for (size_t i = 0; i < n; ++i) (void) ms.MomentMatrix.create(i, MT::Never);
        auto lock = ms.get_write_lock(); VP_CHECK(!ms.delete_matrix(lock, (ptrdiff_t) n) && !ms.delete_matrix(lock, -1) && !ms.delete_matrix(lock, (ptrdiff_t) n + 3), "a matrix that does not exist is not deleted", d, ""); for (size_t i = 0; i < n; ++i) { VP_CHECK(ms.delete_matrix(lock, (ptrdiff_t) i) && !ms.delete_matrix(lock, (ptrdiff_t) i), "a matrix is deleted once", d, i); bool thrown = false; try { (void) ms[(ptrdiff_t) i]; } catch (const std::exception&) { thrown = true; } VP_CHECK(thrown, "a deleted matrix is gone", d, i); } } });
    return vp::finish();
}
