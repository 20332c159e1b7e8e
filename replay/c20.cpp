// C20: basis coefficients of polynomials, matrices and rulebooks, and value matrices, against evaluation under random moment values.
// Bound: random symbol tables of up to 12 symbols (complex, Hermitian, anti-Hermitian, with and without words), polynomials of up to 8 terms,
// matrices up to 5x5 (Hermitian and not, real and complex coefficients), rulebooks of up to 3 rules; moment values are dyadic.
#include "poly.h"
#include "matrix_system/matrix_system.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/value_matrix.h"
#include "multithreading/multithreading.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/polynomial_to_basis_mask.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
using namespace Moment; using namespace vp;
using MT = Multithreading::MultiThreadPolicy;

struct Vals { std::vector<double> a, b; };
static Vals rvals(Rng& r, const SymbolTable& t) { Vals v; auto x = [&] { return 0.25 * (double) r.range(-16, 16); }; for (size_t i = 0; i < t.Basis.RealSymbolCount(); ++i) v.a.push_back(i ? x() : 1.0); for (size_t i = 0; i < t.Basis.ImaginarySymbolCount(); ++i) v.b.push_back(x()); return v; }
static cd sval(const SymbolTable& t, const Vals& v, symbol_name_t id) { auto [r, i] = t[id].basis_key(); return {r >= 0 ? v.a.at((size_t) r) : 0.0, i >= 0 ? v.b.at((size_t) i) : 0.0}; }
static cd mval(const SymbolTable& t, const Vals& v, const Monomial& m) { auto x = sval(t, v, m.id); return m.factor * (m.conjugated ? std::conj(x) : x); }
template<class C> static cd pval(const SymbolTable& t, const Vals& v, const C& p) { cd s = 0; for (auto& m : p) s += mval(t, v, m); return s; }
template<class S> static auto dot(const S& s, const std::vector<double>& x) { typename S::Scalar o{0}; for (typename S::InnerIterator i(s); i; ++i) o += i.value() * x.at((size_t) i.index()); return o; }
static bool near(cd a, cd b) { return std::abs(a - b) < 1e-9; }
static std::string vs(const Vals& v) { std::ostringstream s; s << " a:"; for (auto x : v.a) s << x << " "; s << "b:"; for (auto x : v.b) s << x << " "; return s.str(); }
template<class M> static cd at(const M& m, size_t i, size_t j) { return cd(m.coeff((Eigen::Index) i, (Eigen::Index) j)); }

/** [real | imaginary] forms of one matrix, in each of the four layouts, summed up again */
template<class B> static void cells(const std::string& what, const std::string& d, const B& b, const Vals& v, const std::vector<std::vector<cd>>& want) {
    VP_AT(what, d); auto& [re, im] = b; size_t n = want.size();
    if (!VP_CHECK(re.size() == v.a.size() && im.size() == v.b.size(), what + ": one coefficient matrix per basis element", d, re.size() << " " << im.size())) return;
    for (auto& m : re) if (!VP_CHECK((size_t) m.rows() == n && (size_t) m.cols() == n, what + ": dimension", d, m.rows())) return;
    for (auto& m : im) if (!VP_CHECK((size_t) m.rows() == n && (size_t) m.cols() == n, what + ": dimension", d, m.rows())) return;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { cd s = 0; for (size_t k = 0; k < re.size(); ++k) s += at(re[k], i, j) * v.a[k]; for (size_t k = 0; k < im.size(); ++k) s += at(im[k], i, j) * v.b[k];
        if (!VP_CHECK(near(s, want[i][j]), what + " rebuilds the matrix", d << " element " << i << "," << j, s << " expected " << want[i][j])) return; } }
template<class B> static void mono(const std::string& what, const std::string& d, const B& b, const Vals& v, const std::vector<std::vector<cd>>& want) {
    VP_AT(what, d); auto& [re, im] = b; size_t n = want.size();
    if (!VP_CHECK((size_t) re.rows() == v.a.size() && (size_t) im.rows() == v.b.size() && (size_t) re.cols() == n * n && (size_t) im.cols() == n * n, what + ": a row per basis element, a column per matrix element", d, re.rows() << "x" << re.cols())) return;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { cd s = 0; for (size_t k = 0; k < v.a.size(); ++k) s += at(re, k, j * n + i) * v.a[k]; for (size_t k = 0; k < v.b.size(); ++k) s += at(im, k, j * n + i) * v.b[k];
        if (!VP_CHECK(near(s, want[i][j]), what + " rebuilds the matrix", d << " element " << i << "," << j, s << " expected " << want[i][j])) return; } }
static cd elval(const SymbolicMatrix& m, const Vals& v, size_t i, size_t j) { if (m.is_monomial()) return mval(m.symbols, v, dynamic_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j)); return pval(m.symbols, v, dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)); }
static void bases(Rng& r, const SymbolicMatrix& m, const std::string& d0, const std::vector<std::vector<cd>>* given = nullptr, const Vals* gv = nullptr) {
    auto v = gv ? *gv : rvals(r, m.symbols); auto d = d0 + vs(v); size_t n = m.Dimension(); std::vector<std::vector<cd>> w(n, std::vector<cd>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w[i][j] = elval(m, v, i, j);
    if (given) { VP_AT("matrix elements", d); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) VP_CHECK(near(w[i][j], (*given)[i][j]), "matrix holds the elements it was made of", d << " element " << i << "," << j, w[i][j] << " expected " << (*given)[i][j]); w = *given; }
    std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7}; for (size_t i = 8; i > 1; --i) std::swap(order[i - 1], order[r(i)]);    // each layout may be built from another one, cached or not
    for (int k : order) switch (k) {
        case 0: if (!m.HasComplexCoefficients()) cells("dense basis", d, m.Basis.Dense(), v, w); break;
        case 1: cells("dense complex basis", d, m.Basis.DenseComplex(), v, w); break;
        case 2: if (!m.HasComplexCoefficients()) cells("sparse basis", d, m.Basis.Sparse(), v, w); break;
        case 3: cells("sparse complex basis", d, m.Basis.SparseComplex(), v, w); break;
        case 4: if (!m.HasComplexCoefficients()) mono("dense monolithic basis", d, m.Basis.DenseMonolithic(), v, w); break;
        case 5: mono("dense monolithic complex basis", d, m.Basis.DenseMonolithicComplex(), v, w); break;
        case 6: if (!m.HasComplexCoefficients()) mono("sparse monolithic basis", d, m.Basis.SparseMonolithic(), v, w); break;
        case 7: mono("sparse monolithic complex basis", d, m.Basis.SparseMonolithicComplex(), v, w); break; } }
static bool herm(const std::vector<std::vector<cd>>& w) { for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w.size(); ++j) if (!near(w[i][j], std::conj(w[j][i]))) return false; return true; }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 25; Rng rng{vp::seed + 20}; const int N = vp::thorough ? 20 : 2;
    vp::group("polynomials", [&] {
        for (int it = 0; it < 1500 * N; ++it) { auto T = make_table(rng, 3, 1 + rng(9)); auto& t = *T.tab; auto F = make_factory(t, rng.coin()); auto& f = *F.f; auto v = rvals(rng, t);
            size_t A = v.a.size(), B = v.b.size(); double tol = f.zero_tolerance;
            std::vector<Polynomial> ps; for (int k = 0; k < 4; ++k) ps.push_back(f(rterms(rng, t, 6)));
            PolynomialToBasisVec to{t, tol}; PolynomialToComplexBasisVec toc{t, tol}; PolynomialToBasisMask tm{t, tol};
            std::string d0 = T.desc + (F.by_hash ? " by hash" : " by id") + vs(v);
            for (auto& p : ps) { auto d = d0 + " " + pstr(p); cd w = pval(t, v, p); VP_AT("polynomial to basis", d);
                auto o = to(p); auto re = to.Real(p), im = to.Imaginary(p); double x = dot(o.real_part.real, v.a) + dot(o.real_part.imaginary, v.b), y = dot(o.imaginary_part.real, v.a) + dot(o.imaginary_part.imaginary, v.b);
                VP_CHECK(near({x, y}, w), "real and imaginary basis coefficients give the polynomial's value", d, x << "," << y << " expected " << w);
                VP_CHECK((size_t) o.real_part.real.size() == A && (size_t) o.real_part.imaginary.size() == B && (size_t) o.imaginary_part.real.size() == A && (size_t) o.imaginary_part.imaginary.size() == B, "coefficient vectors have one entry per basis element", d, o.real_part.real.size());
                VP_CHECK(near(dot(re.real, v.a) + dot(re.imaginary, v.b), w.real()), "real part alone", d, dot(re.real, v.a) + dot(re.imaginary, v.b) << " expected " << w.real());
                VP_CHECK(near(dot(im.real, v.a) + dot(im.imaginary, v.b), w.imag()), "imaginary part alone", d, dot(im.real, v.a) + dot(im.imaginary, v.b) << " expected " << w.imag());
                auto c = toc(p); VP_CHECK((size_t) c.real.size() == A && (size_t) c.imaginary.size() == B, "coefficient vectors have one entry per basis element", d, c.real.size()); VP_CHECK(near(dot(c.real, v.a) + dot(c.imaginary, v.b), w), "complex basis coefficients give the polynomial's value", d, dot(c.real, v.a) + dot(c.imaginary, v.b) << " expected " << w);
                ComplexBasisVector cc{o}; VP_CHECK(near(dot(cc.real, v.a) + dot(cc.imaginary, v.b), w), "real and imaginary coefficients combine to complex ones", d, dot(cc.real, v.a) + dot(cc.imaginary, v.b) << " expected " << w);
                // and back: coefficients of (X + X*)/2 and (X - X*)/2, that is of a and i b
                VP_AT("basis to polynomial", d); auto back = ComplexBasisVecToPolynomial{f}(c.real, complex_basis_vec_t(c.imaginary * cd(0, -1))); VP_CHECK(near(pval(t, v, back), w) && same(value(back, t), value(p, t)), "complex basis coefficients rebuild the polynomial", d, pstr(back));
                { Eigen::SparseVector<double> ra((Eigen::Index) A), rb((Eigen::Index) B); cd want = 0; for (size_t i = 0; i < A; ++i) if (rng(3) == 0) { double q = 0.5 * (double) rng.range(-4, 4); ra.insert((Eigen::Index) i) = q; want += q * v.a[i]; } for (size_t i = 0; i < B; ++i) if (rng(3) == 0) { double q = 0.5 * (double) rng.range(-4, 4); rb.insert((Eigen::Index) i) = q; want += cd(0, q * v.b[i]); }
                  VP_AT("basis to polynomial", d); auto q = BasisVecToPolynomial{f}(ra, rb); VP_CHECK(near(pval(t, v, q), want), "basis coefficients to polynomial", d << " coefficients " << ra.transpose() << " | " << rb.transpose(), pstr(q)); VP_CHECK(canonical(q, f, t) == "", "the polynomial rebuilt is canonical", d, pstr(q) << canonical(q, f, t)); }
                { std::vector<Eigen::Triplet<double>> tr, ti, tc; Eigen::Index rr = (Eigen::Index) rng(5), ii = (Eigen::Index) rng(5); if (rng(4) == 0) rr = -1; if (rng(4) == 0) ii = -1; VP_AT("triplets", d); to.add_triplet_row(p, rr, ii, tr, ti); to.add_triplet_row(p, rr, ii, tc);
                  auto sum = [&](const std::vector<Eigen::Triplet<double>>& q, Eigen::Index row, double& o2) { bool ok = true; o2 = 0; for (auto& e : q) { if (e.row() != row) continue; size_t c2 = (size_t) e.col(); if (c2 >= A + B) { ok = false; continue; } o2 += e.value() * (c2 < A ? v.a[c2] : v.b[c2 - A]); } return ok; };
                  double a = 0, b = 0; bool ok = sum(tr, rr, a) && sum(ti, ii, b); for (auto& e : tr) ok = ok && e.row() == rr; for (auto& e : ti) ok = ok && e.row() == ii;
                  VP_CHECK(ok && near(a, rr >= 0 ? w.real() : 0) && near(b, ii >= 0 ? w.imag() : 0), "rows of triplets give the value of real and imaginary part", d << " rows " << rr << "," << ii, a << "," << b << " expected " << w);
                  for (auto& e : tc) ok = ok && (e.row() == rr || e.row() == ii + (Eigen::Index) A); double a2 = 0, b2 = 0; if (rr != ii + (Eigen::Index) A || rr < 0) { ok = sum(tc, rr, a2) && sum(tc, ii + (Eigen::Index) A, b2) && ok; VP_CHECK(ok && near(a2, rr >= 0 ? w.real() : 0) && near(b2, ii >= 0 ? w.imag() : 0), "combined triplet rows give the value of real and imaginary part", d << " rows " << rr << "," << ii, a2 << "," << b2 << " expected " << w); } }
                { VP_AT("mask", d); auto [mr, mi] = tm(p); auto [sr, si] = PolynomialToBasisMask::masks_to_sets(mr, mi); std::set<symbol_name_t> wr, wi; for (Eigen::SparseVector<cd>::InnerIterator i(c.real); i; ++i) if (std::abs(i.value()) > 1e-12) wr.insert((symbol_name_t) i.index()); for (Eigen::SparseVector<cd>::InnerIterator i(c.imaginary); i; ++i) if (std::abs(i.value()) > 1e-12) wi.insert((symbol_name_t) i.index());
                  VP_CHECK(sr == wr && si == wi, "mask names the basis elements the polynomial depends on", d, list(sr) << list(si) << " expected " << list(wr) << list(wi));
                  for (auto& m : p) { auto e = tm.empty_mask(); tm.set_bits(e.first, e.second, m); auto [xr, xi] = PolynomialToBasisMask::masks_to_sets(e.first, e.second); auto [kr, ki] = t[m.id].basis_key(); std::set<symbol_name_t> qr, qi; if (kr >= 0) qr.insert((symbol_name_t) kr); if (ki >= 0) qi.insert((symbol_name_t) ki); VP_CHECK(xr == qr && xi == qi, "mask of a monomial names the basis elements of its symbol", d << " monomial " << mstr(m), list(xr) << list(xi) << " expected " << list(qr) << list(qi)); } } }
            VP_AT("many polynomials at once", d0); auto M = toc(std::span<const Polynomial>(ps)); VP_CHECK((size_t) M.real.rows() == A && (size_t) M.imaginary.rows() == B && (size_t) M.real.cols() == ps.size() && (size_t) M.imaginary.cols() == ps.size(), "one column per polynomial", d0, M.real.rows());
            for (size_t k = 0; k < ps.size(); ++k) { cd s = 0; for (size_t i = 0; i < A; ++i) s += at(M.real, i, k) * v.a[i]; for (size_t i = 0; i < B; ++i) s += at(M.imaginary, i, k) * v.b[i]; VP_CHECK(near(s, pval(t, v, ps[k])), "columns give the values of the polynomials", d0 << " " << pstr(ps[k]), s << " expected " << pval(t, v, ps[k])); } } });
    vp::group("monomial matrices", [&] {
        for (int it = 0; it < 1500 * N; ++it) { auto T = make_table(rng, 3, 1 + rng(9)); auto& t = *T.tab; auto v = rvals(rng, t); size_t n = 1 + rng(5); bool h = rng.coin(), real = rng.coin(); std::vector<Monomial> e(n * n); std::vector<std::vector<cd>> w(n, std::vector<cd>(n));
            auto one = [&] { auto m = rmono(rng, t); if (real) m.factor = m.factor.real(); if (m.factor == cd{0}) m = Monomial{0, 0.0, false}; return m; };
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { if (!h) { e[j * n + i] = one(); continue; } if (i > j) continue;
                auto m = one(); auto& y = t[m.id];
                if (i == j) { if (!y.is_hermitian() && !y.is_antihermitian()) m = Monomial{0, 0.0, false}; else if (y.is_hermitian()) m.factor = m.factor.real(); else { m.factor = cd{0, m.factor.imag()}; } e[j * n + i] = m; continue; }
                e[j * n + i] = m; Monomial c{m.id, std::conj(m.factor), !m.conjugated}; e[i * n + j] = c; }
            std::string d = T.desc + (h ? " Hermitian {" : " {"); for (auto& m : e) d += mstr(m) + " "; d += "}";
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w[i][j] = mval(t, v, e[j * n + i]);
            VP_AT("making a matrix", d); MonomialMatrix m{*T.ctx, t, 1.0, std::make_unique<SquareMatrix<Monomial>>(n, std::vector<Monomial>(e)), h};
            bases(rng, m, d, &w, &v); if (rng(4) == 0) bases(rng, m, d); } });
    vp::group("polynomial matrices", [&] {
        for (int it = 0; it < 1000 * N; ++it) { auto T = make_table(rng, 3, 1 + rng(9)); auto& t = *T.tab; auto F = make_factory(t, rng.coin()); auto& f = *F.f; auto v = rvals(rng, t); size_t n = 1 + rng(4); bool h = rng.coin(), real = rng.coin(); std::vector<Polynomial> e(n * n); std::vector<std::vector<cd>> w(n, std::vector<cd>(n));
            auto one = [&] { auto s = rterms(rng, t, 4); if (real) for (auto& m : s) m.factor = m.factor.real(); return f(std::move(s)); };
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { if (!h) { e[j * n + i] = one(); continue; } if (i > j) continue;
                auto p = one(); Polynomial::storage_t cj; for (auto x : p) { x.factor = std::conj(x.factor); x.conjugated = !x.conjugated; cj.push_back(x); } auto q = f(std::move(cj)); if (i == j) { e[j * n + i] = f.sum(p, q); continue; } e[j * n + i] = p; e[i * n + j] = q; }
            std::string d = T.desc + (F.by_hash ? " by hash" : "") + (h ? " Hermitian " : " "); for (auto& m : e) d += pstr(m) + " ";
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w[i][j] = pval(t, v, e[j * n + i]);
            VP_AT("making a matrix", d); PolynomialMatrix m{*T.ctx, t, 1.0, std::make_unique<SquareMatrix<Polynomial>>(n, std::vector<Polynomial>(e))}; if (h) VP_CHECK(m.Hermitian(), "a Hermitian matrix is recognised", d, "not Hermitian");
            bases(rng, m, d, &w, &v); if (rng(4) == 0) bases(rng, m, d); } });
    vp::group("rulebooks", [&] {
        for (int it = 0; it < 1500 * N; ++it) { MatrixSystem sys{std::make_unique<Context>(3), 1e5}; auto& t = sys.Symbols(); auto& f = sys.polynomial_factory(); std::string d;
            for (size_t i = 0, n = 1 + rng(6); i < n; ++i) switch (rng(5)) { case 0: t.create(true, true); d += " create(c)"; break; case 1: t.create(true, false); d += " create(r)"; break; case 2: t.create(false, true); d += " create(i)"; break;
                default: { size_t k = 1 + rng(3); sequence_storage_t s; for (size_t j = 0; j < k; ++j) s.push_back((oper_name_t) rng(3)); d += " word" + list(s); t.merge_in(OperatorSequence(std::move(s), sys.Context())); } }
            MomentRulebook book{sys}; size_t ne = rng(4); bool skip = false; static const cd skew[] = {{1, 1}, {1, -1}, {0.6, 0.8}, {-0.8, 0.6}, {2, 1}};
            for (size_t i = 0; i < ne; ++i) { auto s = rterms(rng, t, 3); if (rng(3) == 0 && t.size() > 2) { auto id = (symbol_name_t) (2 + rng(t.size() - 2)); cd k = skew[rng(5)]; s.push_back(Monomial{id, k, false}); s.push_back(Monomial{id, std::conj(k), true}); s.push_back(Monomial{1, cd(0.25 * (double) rng.range(-4, 4), 0), false}); if (rng.coin()) { Polynomial::storage_t z; for (size_t q = s.size() - 3; q < s.size(); ++q) z.push_back(s[q]); s = z; } }
                auto p = f(std::move(s)); d += " ; " + pstr(p) + "=0"; book.add_raw_rule(std::move(p)); }
            VP_AT("completing", d); try { book.complete(); } catch (const std::exception&) { skip = true; } if (skip) continue;
            size_t A = t.Basis.RealSymbolCount(), B = t.Basis.ImaginarySymbolCount(), n = A + B; VP_AT("rulebook to basis", d);
            d += " rules:"; for (auto& [id, rule] : book) d += " " + str(id) + (rule.is_partial() ? "(partial " + str(rule.partial_direction()) + ")" : "") + "->" + pstr(rule.RHS());
            auto M = MomentRulebookToBasis{f}(book); auto H = MomentRulebookToBasis{f, MomentRulebookToBasis::ExportMode::Homogeneous}(book);
            if (!VP_CHECK((size_t) M.rows() == n && (size_t) M.cols() == n && (size_t) H.rows() == n && (size_t) H.cols() == n, "square in the number of basis elements", d, M.rows())) continue;
            size_t constraints = 0; for (auto& [id, rule] : book) { auto& y = t[id]; constraints += rule.is_partial() || y.is_hermitian() || y.is_antihermitian() ? 1 : 2; }
            double trace = 0; for (size_t i = 0; i < n; ++i) trace += at(M, i, i).real(); VP_CHECK(std::abs(trace - (double) (n - constraints)) < 1e-7, "exactly the constrained directions are removed", d, "trace " << trace << " expected " << n - constraints);
            auto v = rvals(rng, t); Eigen::VectorXd x((Eigen::Index) n); for (size_t i = 0; i < n; ++i) x[(Eigen::Index) i] = i < A ? v.a[i] : v.b[i - A];
            Eigen::VectorXd y = M * x, yy = M * y, z = H * x, z0 = H * y; VP_CHECK((yy - y).cwiseAbs().maxCoeff() < 1e-7, "rewriting twice changes nothing more", d << vs(v), y.transpose() << " then " << yy.transpose());
            VP_CHECK((z - (y - x)).cwiseAbs().maxCoeff() < 1e-7, "homogeneous form is the rewrite minus the identity", d << vs(v), z.transpose() << " versus " << (y - x).transpose()); VP_CHECK(z0.cwiseAbs().maxCoeff() < 1e-7, "rewritten values satisfy the homogeneous form", d << vs(v), z0.transpose());
            VP_CHECK(std::abs(y[0] - 1) < 1e-9, "the identity stays", d, y[0]);
            Vals u; for (size_t i = 0; i < n; ++i) (i < A ? u.a : u.b).push_back(y[(Eigen::Index) i]);
            for (auto& [id, rule] : book) VP_CHECK(std::abs(sval(t, u, id) - pval(t, u, rule.RHS())) < 1e-7, "rewritten values obey the rules", d << vs(v) << " rule " << id, sval(t, u, id) << " vs " << pval(t, u, rule.RHS()));
            for (size_t id = 0; id < t.size(); ++id) if (std::none_of(book.begin(), book.end(), [&](auto& q) { return q.first == (symbol_name_t) id; })) { auto [kr, ki] = t[(symbol_name_t) id].basis_key(); if (kr >= 0) VP_CHECK(std::abs(y[kr] - x[kr]) < 1e-9, "symbols without rule stay", d, id); if (ki >= 0) VP_CHECK(std::abs(y[(Eigen::Index) A + ki] - x[(Eigen::Index) A + ki]) < 1e-9, "symbols without rule stay", d, id); } } });
    vp::group("value matrices", [&] {
        for (int it = 0; it < 1500 * N; ++it) { auto T = make_table(rng, 3, rng(4)); auto& t = *T.tab; auto& c = *T.ctx; size_t n = 1 + rng(4); int kind = (int) rng(4), sym = (int) rng(4); bool cplx = rng.coin(), sparse = rng.coin(); auto N_ = (Eigen::Index) n;
            Eigen::MatrixXcd a = Eigen::MatrixXcd::Zero(N_, N_); for (Eigen::Index i = 0; i < N_; ++i) for (Eigen::Index j = 0; j < N_; ++j) if (rng(3)) { auto k = rcoef(rng); a(i, j) = cplx ? k : cd(k.real(), 0); }
            if (sym == 1) a = Eigen::MatrixXcd((a + a.adjoint()) * 0.5); else if (sym == 2) a = Eigen::MatrixXcd((a - a.adjoint()) * 0.5); else if (kind == 3) a(rng(n), rng(n)) = 1.0; if (rng(12) == 0) a.setZero(); if (rng(6) == 0) { a.setZero(); a((Eigen::Index) rng(n), (Eigen::Index) rng(n)) = 1.0; }
            std::ostringstream ds; ds << T.desc << (cplx ? " complex" : " real") << (sparse ? " sparse {" : " dense {"); for (Eigen::Index i = 0; i < N_; ++i) { for (Eigen::Index j = 0; j < N_; ++j) ds << a(i, j) << " "; ds << "; "; } ds << "}"; auto d = ds.str(); VP_AT("value matrix", d);
            std::unique_ptr<ValueMatrix> m; if (cplx && !sparse) m = std::make_unique<ValueMatrix>(c, t, 1.0, a); else if (!sparse) m = std::make_unique<ValueMatrix>(c, t, 1.0, Eigen::MatrixXd(a.real()));
            else if (cplx) { Eigen::SparseMatrix<cd> s = a.sparseView(); m = std::make_unique<ValueMatrix>(c, t, 1.0, s); } else { Eigen::MatrixXd ar = a.real(); Eigen::SparseMatrix<double> s = ar.sparseView(); m = std::make_unique<ValueMatrix>(c, t, 1.0, s); }
            std::vector<std::vector<cd>> w(n, std::vector<cd>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w[i][j] = a((Eigen::Index) i, (Eigen::Index) j);
            if (!VP_CHECK(m->Dimension() == n, "value matrix dimension", d, m->Dimension())) continue;
            VP_CHECK(m->Hermitian() == a.isApprox(a.adjoint()) || (a.isZero() && m->Hermitian()), "value matrix is declared Hermitian exactly if it is", d, m->Hermitian()); VP_CHECK(m->AntiHermitian() == (cplx ? (a + a.adjoint()).isZero() : a.isZero()), "value matrix is declared anti-Hermitian exactly if it is (real ones: if they vanish)", d, m->AntiHermitian());
            bases(rng, *m, d, &w);
            auto F = make_factory(t, rng.coin()); auto word = [&] { sequence_storage_t s; size_t k = rng(4); while (k--) s.push_back((oper_name_t) rng(3)); return OperatorSequence(std::move(s), c, (SequenceSignType) rng(4)); };
            auto ph = [](const OperatorSequence& x) { static const cd p[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; return p[(int) x.get_sign()]; };
            auto wv = [&](OperatorSequence x, const Vals& v) { cd k = ph(x); x.set_sign(SequenceSignType::Positive); auto s = t.where(x); if (!s.found()) return cd(NAN, 0); return mval(t, v, Monomial{s.symbol->Id(), k, s.is_conjugated}); };
            if (rng.coin()) { auto x = word(); cd k = rcoef(rng); bool pre = rng.coin(); auto d2 = d + " times " + str(k) + " " + list(x) + "^" + str((int) x.get_sign()); VP_AT("value matrix times word", d2);
                auto p = pre ? m->pre_multiply(x, k, *F.f, t, MT::Never) : m->post_multiply(x, k, *F.f, t, MT::Never); auto v = rvals(rng, t); auto w2 = w; if (k != cd{0}) for (auto& q : w2) for (auto& e : q) e *= k * wv(x, v); else for (auto& q : w2) for (auto& e : q) e = 0;
                if (a.isZero()) for (auto& q : w2) for (auto& e : q) e = 0;
                bases(rng, *p, d2, &w2, &v); if (p->Hermitian()) VP_CHECK(herm(w2), "a product declared Hermitian is", d2, "not Hermitian"); }
            else { RawPolynomial rp; std::string d2 = d + " times"; size_t k = rng(4); std::vector<std::pair<OperatorSequence, cd>> ts; while (k--) { auto x = word(); cd q = rcoef(rng); if (rng(4) == 0) { x = OperatorSequence::Identity(c); } rp.emplace_back(x, q); ts.emplace_back(x, q); d2 += " + " + str(q) + list(x) + "^" + str((int) x.get_sign()); }
                VP_AT("value matrix times polynomial", d2); bool pre = rng.coin(); auto p = pre ? m->pre_multiply(rp, *F.f, t, MT::Never) : m->post_multiply(rp, *F.f, t, MT::Never); auto v = rvals(rng, t); cd s = 0; bool known = true; for (auto& [x, q] : ts) if (q != cd{0}) { auto z = wv(x, v); if (std::isnan(z.real())) known = false; s += q * z; }
                auto w2 = w; for (auto& q : w2) for (auto& e : q) e *= s; if (a.isZero()) { for (auto& q : w2) for (auto& e : q) e = 0; known = true; } if (known) { bases(rng, *p, d2, &w2, &v); if (p->Hermitian()) VP_CHECK(herm(w2), "a product declared Hermitian is", d2, "not Hermitian"); } } } });
    return vp::finish();
}
