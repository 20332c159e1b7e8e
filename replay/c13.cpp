// C13: Pauli words against 2x2 complex matrices, one per qubit; whole Kronecker products for <= 3 qubits.
// Bound: random contexts of 1..40 qubits (chain and lattice), words up to length 24 within the hashable length, all four phases.
#include "vp.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/raw_polynomial.h"
using namespace Moment; using namespace Moment::Pauli;
using vp::Rng; using vp::str; using vp::list;
using Cx = std::complex<double>; using W = std::vector<oper_name_t>;
using M2 = std::array<Cx, 4>;
static const Cx I{0, 1};
static const M2 SIG[4] = {{1, 0, 0, 1}, {0, 1, 1, 0}, {0, -I, I, 0}, {1, 0, 0, -1}};
static M2 mul(const M2& a, const M2& b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
/** i^phase times the tensor product of one Pauli matrix per qubit; or zero */
struct P { bool zero = false; int s = 0; std::map<int, int> q; };
static void times(P& p, int qubit, int pauli) {
    int have = p.q.count(qubit) ? p.q[qubit] : 0; M2 m = mul(SIG[have], SIG[pauli]);
    for (int k = 0; k < 4; ++k) for (int s = 0; s < 4; ++s) { bool ok = true; for (int e = 0; e < 4; ++e) ok = ok && std::abs(m[e] - std::pow(I, s) * SIG[k][e]) < 1e-9;
        if (ok) { p.s = (p.s + s) & 3; if (k) p.q[qubit] = k; else p.q.erase(qubit); return; } }
    std::abort(); }
static P of(const W& w, int s) { P p; p.s = s & 3; for (auto c : w) times(p, c / 3, 1 + c % 3); return p; }
static P operator*(const P& a, const P& b) { if (a.zero || b.zero) return {true}; P o = a; o.s = (a.s + b.s) & 3; for (auto [q, k] : b.q) times(o, q, k); return o; }
static W word(const P& p) { W w; for (auto [q, k] : p.q) w.push_back((oper_name_t) (3 * q + k - 1)); return w; }
static std::string ps(const P& p) { if (p.zero) return "0"; static const char* n[] = {"", "i", "-", "-i"}; std::string o = n[p.s]; if (p.q.empty()) o += "1"; for (auto [q, k] : p.q) o += str("IXYZ"[k]) + str(q); return o; }
static std::string ws(const W& w, int s) { static const char* n[] = {"", "i", "-", "-i"}; return n[s & 3] + list(w); }
static std::string ss(const OperatorSequence& x) { return x.zero() ? "0" : ws(W(x.begin(), x.end()), (int) x.get_sign()); }
static OperatorSequence seq(const PauliContext& c, const P& p) { if (p.zero) return c.zero(); W w = word(p); sequence_storage_t raw(w.begin(), w.end()); return OperatorSequence{OperatorSequence::ConstructRawFlag{}, raw, c.hash(raw), c, (SequenceSignType) p.s}; }
static bool is(const PauliContext& c, const OperatorSequence& x, const P& p) {
    if (p.zero) return x.zero() && x.empty() && x == c.zero(); W w = word(p);
    return !x.zero() && W(x.begin(), x.end()) == w && (int) x.get_sign() == p.s && x.hash() == c.hash(sequence_storage_t(w.begin(), w.end())) && x.is_same_context(c); }

struct Ctx { std::unique_ptr<PauliContext> c; size_t n; size_t maxlen; std::string d; };
static Ctx make(Rng& r) {
    Ctx o; size_t n; auto wr = r.coin() ? WrapType::Wrap : WrapType::None;
    if (r(4) == 0) { size_t h = 1 + r(5), w = 1 + r(6); n = h * w; o.c = std::make_unique<PauliContext>(h, w, wr); o.d = str(h) + "x" + str(w) + " lattice"; }
    else { n = r(3) == 0 ? 1 + r(40) : 1 + r(6); o.c = std::make_unique<PauliContext>(n, wr); o.d = str(n) + " qubits"; }
    o.n = n; o.maxlen = std::min<size_t>(n, o.c->the_hasher().longest_hashable_string()); return o; }
static P rp(Rng& r, const Ctx& c, size_t maxlen) { P p; if (r(24) == 0) { p.zero = true; return p; } p.s = (int) r(4); size_t len = r(maxlen + 1); size_t span = std::max<size_t>(1, std::min<size_t>(c.n, 1 + r(c.n))); for (size_t i = 0; i < len; ++i) p.q[(int) r(span)] = 1 + (int) r(3); return p; }

using Mat = std::vector<Cx>;
static Mat kron(const Mat& a, size_t na, const Mat& b, size_t nb) { size_t n = na * nb; Mat o(n * n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) o[i * n + j] = a[(i / nb) * na + j / nb] * b[(i % nb) * nb + j % nb]; return o; }
static Mat dense(const P& p, size_t n) { Mat m{p.zero ? 0. : std::pow(I, p.s)}; size_t d = 1; for (size_t q = 0; q < n; ++q) { const M2& s = SIG[p.q.count((int) q) ? p.q.at((int) q) : 0]; m = kron(m, d, Mat(s.begin(), s.end()), 2); d *= 2; } return m; }
static Mat mm(const Mat& a, const Mat& b, size_t n) { Mat o(n * n); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) o[i * n + j] += a[i * n + k] * b[k * n + j]; return o; }

using Poly = std::map<W, Cx>;
static void put(Poly& o, const P& p, Cx f) { if (p.zero) return; o[word(p)] += f * std::pow(I, p.s); }
static Poly of(const RawPolynomial& r) { Poly o; for (auto& e : r) { static const Cx u[] = {1, I, -1, -I}; if (!e.sequence.zero()) o[W(e.sequence.begin(), e.sequence.end())] += e.weight * u[(int) e.sequence.get_sign()]; } return o; }
static bool close(const Poly& a, const Poly& b) { for (auto& [w, f] : a) { auto i = b.find(w); if (std::abs(f - (i == b.end() ? Cx{} : i->second)) > 1e-9) return false; } for (auto& [w, f] : b) if (!a.count(w) && std::abs(f) > 1e-9) return false; return true; }
static std::string pstr(const Poly& p) { std::string o; for (auto& [w, f] : p) o += (o.empty() ? "" : " + ") + str(f) + list(w); return o.empty() ? "0" : o; }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 20;
    Rng rng{vp::seed + 13}; const int N = vp::thorough ? 60 : 6;
    vp::group("single Pauli operators", [&] {
        for (int it = 0; it < 40 * N; ++it) { auto c = make(rng); size_t q = rng(c.n); int s = (int) rng(4);
            VP_AT("single Pauli operators", c.d << " qubit " << q);
            for (int k = 1; k <= 3; ++k) { auto sg = (SequenceSignType) s; P p; p.s = s; p.q[(int) q] = k;
                auto x = k == 1 ? c.c->sigmaX((oper_name_t) q, sg) : k == 2 ? c.c->sigmaY((oper_name_t) q, sg) : c.c->sigmaZ((oper_name_t) q, sg);
                VP_CHECK(is(*c.c, x, p), "sigma X/Y/Z builds the Pauli operator", c.d << " " << ps(p), "got " << ss(x));
                if (c.c->is_lattice()) { auto row = (oper_name_t) (q % c.c->col_height), col = (oper_name_t) (q / c.c->col_height);
                    auto y = k == 1 ? c.c->sigmaX(row, col, sg) : k == 2 ? c.c->sigmaY(row, col, sg) : c.c->sigmaZ(row, col, sg);
                    VP_CHECK(is(*c.c, y, p), "sigma X/Y/Z builds the Pauli operator", c.d << " " << ps(p) << " at " << row << "," << col, "got " << ss(y)); } } } });
    vp::group("simplification", [&] {
        for (int it = 0; it < 2000 * N; ++it) {
            auto c = make(rng); size_t span = std::min<size_t>(c.n, c.maxlen); std::vector<size_t> at(span); for (auto& x : at) x = rng(c.n);
            W w(rng(it % 3 ? 9 : 25)); int style = (int) rng(3); for (auto& x : w) x = (oper_name_t) (3 * at[rng(style ? std::min<size_t>(span, 3) : span)] + rng(3)); int s = (int) rng(4);
            P want = of(w, s); VP_AT("simplification gives the canonical word", c.d << " word " << ws(w, s));
            OperatorSequence x{sequence_storage_t(w.begin(), w.end()), *c.c, (SequenceSignType) s};
            VP_CHECK(is(*c.c, x, want), "simplification gives the canonical word", c.d << " word " << ws(w, s), "got " << ss(x) << " want " << ps(want));
            sequence_storage_t raw(w.begin(), w.end()); auto sg = (SequenceSignType) s; bool z = c.c->additional_simplification(raw, sg);
            VP_CHECK(!z && W(raw.begin(), raw.end()) == word(want) && (int) sg == want.s, "additional_simplification gives the canonical word", c.d << " word " << ws(w, s), "got " << ws(W(raw.begin(), raw.end()), (int) sg) << (z ? " (zero)" : "") << " want " << ps(want));
        } });
    vp::group("multiplication", [&] {
        for (int it = 0; it < 3000 * N; ++it) {
            auto c = make(rng); P a = rp(rng, c, c.maxlen / 2), b = rp(rng, c, c.maxlen - c.maxlen / 2); if (rng(30) == 0) { b = a; } P want = a * b; if (want.q.size() > c.maxlen) continue;
            auto x = seq(*c.c, a), y = seq(*c.c, b); auto in = VP_IN(c.d << " " << ps(a) << " times " << ps(b)); VP_AT("multiply", in());
            auto z = c.c->multiply(x, y); vp::check(is(*c.c, z, want), "product has the word and phase of the matrix product", in, VP_IN("got " << ss(z) << " want " << ps(want)));
            auto z2 = x * y; vp::check(is(*c.c, z2, want), "product has the word and phase of the matrix product", in, VP_IN("operator*: got " << ss(z2) << " want " << ps(want)));
            auto z3 = x; z3 *= y; vp::check(is(*c.c, z3, want), "product has the word and phase of the matrix product", in, VP_IN("operator*=: got " << ss(z3) << " want " << ps(want)));
            vp::check(is(*c.c, x, a) && is(*c.c, y, b), "multiplying leaves the factors as they were", in, VP_IN("now " << ss(x) << ", " << ss(y)));
            // commutator, anticommutator of words: half of AB -+ BA
            P ba = b * a; bool same = want.zero || want.s == ba.s; P com = want, acom = want; if (same) com = {true}; if (!same) acom = {true};
            auto cm = c.c->commutator(x, y), am = c.c->anticommutator(x, y);
            vp::check(is(*c.c, cm, com), "commutator of words is half of AB-BA", in, VP_IN("got " << ss(cm) << " want " << ps(com)));
            vp::check(is(*c.c, am, acom), "anticommutator of words is half of AB+BA", in, VP_IN("got " << ss(am) << " want " << ps(acom)));
        } });
    vp::group("conjugation", [&] {
        for (int it = 0; it < 1000 * N; ++it) {
            auto c = make(rng); P a = rp(rng, c, c.maxlen); auto x = seq(*c.c, a); P w = a; if (!w.zero) w.s = (4 - w.s) & 3; VP_AT("conjugate", c.d << " " << ps(a));
            auto z = c.c->conjugate(x), z2 = x.conjugate();
            VP_CHECK(is(*c.c, z, w) && is(*c.c, z2, w), "conjugate has the word and phase of the adjoint", c.d << " " << ps(a), "got " << ss(z) << ", " << ss(z2) << " want " << ps(w));
        } });
    vp::group("dense matrices", [&] {
        for (int it = 0; it < 60 * N; ++it) {
            size_t n = 1 + rng(3), d = (size_t) 1 << n; PauliContext c{n}; Ctx x; x.n = n; P a = rp(rng, x, 4), b = rp(rng, x, 4); a.zero = b.zero = false;
            auto A = dense(a, n), B = dense(b, n), AB = mm(A, B, d), BA = mm(B, A, d);
            auto back = [&](const OperatorSequence& s) { P p; if (s.zero()) p.zero = true; else { p.s = (int) s.get_sign(); for (auto o : s) p.q[o / 3] = 1 + o % 3; } return dense(p, n); };
            auto sa = seq(c, a), sb = seq(c, b); VP_AT("dense matrices", ps(a) << " , " << ps(b)); auto pr = back(c.multiply(sa, sb)), cm = back(c.commutator(sa, sb)), am = back(c.anticommutator(sa, sb)), cj = back(c.conjugate(sa));
            bool ok = true; for (size_t i = 0; i < d * d; ++i) { ok = ok && std::abs(pr[i] - AB[i]) < 1e-9 && std::abs(2. * cm[i] - (AB[i] - BA[i])) < 1e-9 && std::abs(2. * am[i] - (AB[i] + BA[i])) < 1e-9; ok = ok && std::abs(cj[i] - std::conj(A[(i % d) * d + i / d])) < 1e-9; }
            VP_CHECK(ok, "words act as their dense matrices", str(n) << " qubits " << ps(a) << " , " << ps(b), "product, commutator, anticommutator or adjoint differs");
        } });
    vp::group("polynomials", [&] {
        for (int it = 0; it < 500 * N; ++it) {
            auto c = make(rng); auto mk = [&](std::vector<std::pair<P, Cx>>& t) { RawPolynomial r; size_t n = rng(4); for (size_t i = 0; i < n; ++i) { P p = rp(rng, c, std::min<size_t>(c.maxlen / 2, 3)); Cx f{(double) rng.range(-2, 2), (double) rng.range(-2, 2)}; r.emplace_back(seq(*c.c, p), f); t.emplace_back(p, f); } return r; };
            std::vector<std::pair<P, Cx>> A, B; auto ra = mk(A), rb = mk(B); Poly ab, cm, am;
            for (auto& [p, f] : A) for (auto& [q, g] : B) { put(ab, p * q, f * g); put(cm, p * q, f * g); put(cm, q * p, -f * g); put(am, p * q, f * g); put(am, q * p, f * g); }
            auto in = VP_IN(c.d << " A=" << pstr(of(ra)) << " B=" << pstr(of(rb))); VP_AT("polynomials", in());
            auto m = of(c.c->Context::multiply(ra, rb)), k = of(c.c->commutator(ra, rb)), a = of(c.c->anticommutator(ra, rb));
            vp::check(close(m, ab), "product of polynomials is AB", in, VP_IN("got " << pstr(m) << " want " << pstr(ab)));
            vp::check(close(k, cm), "commutator of polynomials is AB-BA", in, VP_IN("got " << pstr(k) << " want " << pstr(cm)));
            vp::check(close(a, am), "anticommutator of polynomials is AB+BA", in, VP_IN("got " << pstr(a) << " want " << pstr(am)));
        } });
    return vp::finish();
}
