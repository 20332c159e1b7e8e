// C14: site codes and translations of Pauli words on chains and lattices, against moving each operator one by one.
// Bound: random chains and lattices of up to 256 qubits (all eight code sizes, columns below, at and across the 32-site boundary and longer), random words, all offsets of small lattices.
#include "vp.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"
#include "scenarios/pauli/symmetry/moment_simplifier_wrapping.h"
#include "scenarios/pauli/symmetry/moment_simplifier_no_wrapping.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "scenarios/pauli/symmetry/site_hasher.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/raw_polynomial.h"
using namespace Moment; using namespace Moment::Pauli;
using vp::Rng; using vp::str; using vp::list;
using Q = std::map<size_t, int>; // site -> Pauli 0..2
using W = std::vector<oper_name_t>;
static W word(const Q& q) { W w; for (auto [s, p] : q) w.push_back((oper_name_t) (3 * s + p)); return w; }
static Q sites(const W& w) { Q q; for (auto o : w) q[(size_t) o / 3] = o % 3; return q; }
static long mod(long a, long n) { return ((a % n) + n) % n; }
/** move by rows and columns around a lattice of columns of height h, w columns */
static Q move(const Q& q, size_t h, size_t w, long dr, long dc) { Q o; for (auto [s, p] : q) o[mod((long) (s / h) + dc, (long) w) * h + mod((long) (s % h) + dr, (long) h)] = p; return o; }
static Q around(const Q& q, size_t n, long d) { Q o; for (auto [s, p] : q) o[(size_t) mod((long) s + d, (long) n)] = p; return o; }
static std::string qs(const Q& q) { std::string o; for (auto [s, p] : q) o += str("XYZ"[p]) + str(s); return o.empty() ? "I" : o; }
static std::string us(const W& w) { return qs(sites(w)); }
template<class C> static W vec(const C& c) { return W(c.begin(), c.end()); }
static Q rq(Rng& r, size_t n, size_t maxlen) { Q q; size_t len = r(std::min(n, maxlen) + 1); if (r(3) == 0) { size_t a = r(n); for (size_t i = 0; i < len; ++i) q[(a + r(len + 1)) % n] = (int) r(3); } else for (size_t i = 0; i < len; ++i) q[r(n)] = (int) r(3); if (r(4) == 0) { q[n - 1] = (int) r(3); if (r.coin()) q[0] = (int) r(3); } if (n > 32 && r(3) == 0) q[31 + r(2)] = (int) r(3); return q; }
struct Shape { size_t h, w; };
/** dimensions whose codes take the given number of slides; w = 1 for chains */
static Shape shape(Rng& r, size_t slides) {
    for (;;) { size_t lo = 32 * (slides - 1) + 1, hi = 32 * slides; int k = (int) r(6);
        if (k == 0) return {lo + r(32), 1}; if (k == 1) return {r.coin() ? lo : hi, 1};
        size_t h = k == 2 ? 1 + r(hi) : k == 3 ? (size_t[]) {4, 8, 16, 32, 5, 7, 31, 33}[r(8)] : 1 + r(20), w = 1 + r(1 + hi / h); if (h * w >= lo && h * w <= hi) return {h, w}; } }

template<size_t N> static void hashers(Rng& rng, int its) {
    for (int it = 0; it < its; ++it) {
        auto [h, w] = shape(rng, N); size_t n = h * w; SiteHasher<N> hs{h, w}; std::string d = w == 1 ? "chain of " + str(n) : str(h) + " rows x " + str(w) + " columns";
        Q a = rq(rng, n, 12), b = rng(3) ? rq(rng, n, 12) : move(a, h, w, (long) rng(h), (long) rng(w)); if (rng(6) == 0) { b = a; if (!b.empty()) { auto i = b.begin(); std::advance(i, rng(b.size())); if (rng.coin()) i->second = (i->second + 1) % 3; else b.erase(i); } }
        W wa = word(a), wb = word(b); VP_AT("site codes", d << " word " << qs(a)); auto ca = hs.hash(wa), cb = hs.hash(wb);
        VP_CHECK(vec(hs.unhash(ca)) == wa, "decoding the site code gives the word back", d << " word " << qs(a), "got " << us(vec(hs.unhash(ca))));
        VP_CHECK(hs(wa) == ca, "decoding the site code gives the word back", d << " word " << qs(a), "operator() differs from hash()");
        VP_CHECK((ca == cb) == (a == b), "codes are equal exactly if the words are", d << " words " << qs(a) << ", " << qs(b), "codes equal: " << (ca == cb));
        bool l1 = hs.less(ca, cb), l2 = hs.less(cb, ca);
        VP_CHECK((a == b) ? (!l1 && !l2) : (l1 != l2), "less is a strict total order", d << " words " << qs(a) << ", " << qs(b), "less " << l1 << ", reversed " << l2);
        { Q c = rq(rng, n, 12); auto cc = hs.hash(word(c)); VP_CHECK(!(l1 && hs.less(cb, cc)) || hs.less(ca, cc), "less is a strict total order", d << " words " << qs(a) << ", " << qs(b) << ", " << qs(c), "not transitive"); }
        { Q e; VP_CHECK(hs.empty_hash() == hs.hash(word(e)), "the empty code is that of the empty word", d, "differs"); }
        for (size_t k = 0; k < (n <= 6 ? 2 * n : 4); ++k) {
            size_t off = n <= 6 ? k : rng(6) == 0 ? n * rng(3) : rng(4) == 0 ? 32 * rng(2 * N) : rng(2 * n);
            VP_AT("cyclic shift moves every operator along the chain", d << " word " << qs(a) << " by " << off); auto g = vec(hs.unhash(hs.cyclic_shift(ca, off)));
            VP_CHECK(g == word(around(a, n, (long) off)), "cyclic shift moves every operator along the chain", d << " word " << qs(a) << " by " << off, "got " << us(g) << " want " << qs(around(a, n, (long) off))); }
        for (int k = 0; k < 4; ++k) { size_t dr = rng(2 * h + 1), dc = rng(2 * w + 1);
            VP_AT("row shift moves every operator within its column", d << " word " << qs(a) << " by " << dr); auto g = vec(hs.unhash(hs.row_cyclic_shift(ca, dr)));
            VP_CHECK(g == word(move(a, h, w, (long) dr, 0)), "row shift moves every operator within its column", d << " word " << qs(a) << " by " << dr, "got " << us(g) << " want " << qs(move(a, h, w, (long) dr, 0)));
            VP_AT("column shift moves every operator to another column", d << " word " << qs(a) << " by " << dc); g = vec(hs.unhash(hs.col_shift(ca, dc)));
            VP_CHECK(g == word(move(a, h, w, 0, (long) dc)), "column shift moves every operator to another column", d << " word " << qs(a) << " by " << dc, "got " << us(g) << " want " << qs(move(a, h, w, 0, (long) dc)));
            VP_AT("lattice shift moves every operator", d << " word " << qs(a) << " by " << dr << "," << dc); g = vec(hs.unhash(hs.lattice_shift(ca, dr, dc)));
            VP_CHECK(g == word(move(a, h, w, (long) dr, (long) dc)), "lattice shift moves every operator", d << " word " << qs(a) << " by " << dr << "," << dc, "got " << us(g) << " want " << qs(move(a, h, w, (long) dr, (long) dc))); }
        if (h <= 32) { size_t c = rng(w); uint64_t want = 0; for (auto [s, p] : a) if (s / h == c) want |= (uint64_t) (p + 1) << (2 * (s % h)); VP_AT("extracting a column", d << " word " << qs(a) << " column " << c);
            VP_CHECK(hs.extract_column(ca, c) == want, "a column's code holds exactly that column", d << " word " << qs(a) << " column " << c, "got " << hs.extract_column(ca, c) << " want " << want); }
        { VP_AT("canonical code", d << " word " << qs(a)); auto [lo, self] = hs.canonical_hash(wa); auto [lo2, self2] = hs.canonical_hash(wb); W rep = vec(hs.unhash(lo)); bool found = false, same = false;
            for (size_t c = 0; c < w && !found; ++c) for (size_t r = 0; r < h && !found; ++r) found = word(move(a, h, w, (long) r, (long) c)) == rep;
            for (size_t c = 0; c < w && !same; ++c) for (size_t r = 0; r < h && !same; ++r) same = move(a, h, w, (long) r, (long) c) == b;
            VP_CHECK(self == ca && found, "the canonical code is that of a translate", d << " word " << qs(a), "got " << us(rep));
            VP_CHECK((lo == lo2) == same, "canonical codes are equal exactly for translates", d << " words " << qs(a) << ", " << qs(b), "equal: " << (lo == lo2)); }
        { size_t want = n; for (size_t k = 1; k < n; ++k) if (around(a, n, (long) k) == a) { want = k; break; } VP_AT("first alias", d << " word " << qs(a));
            VP_CHECK(hs.first_chain_alias(ca) == want, "first alias is the smallest period", d << " word " << qs(a), "got " << hs.first_chain_alias(ca) << " want " << want); }
    } }

struct Ctx { std::unique_ptr<PauliContext> c; size_t h, w, n, maxlen; bool wrap, lattice; std::string d; };
static Ctx make(Rng& r, size_t maxn = 256) {
    Ctx o; o.wrap = r(3) != 0; o.lattice = r.coin(); auto wr = o.wrap ? WrapType::Wrap : WrapType::None;
    do { auto s = shape(r, r.coin() ? 1 : 1 + r(8)); if (r(3) == 0) s = {1 + r(6), 1 + r(6)}; o.h = s.h; o.w = s.w; if (!o.lattice) { o.h *= o.w; o.w = 1; } o.n = o.h * o.w; } while (o.n > maxn);
    o.c = o.lattice ? std::make_unique<PauliContext>(o.h, o.w, wr, SymmetryType::Translational) : std::make_unique<PauliContext>(o.n, wr, SymmetryType::Translational);
    o.maxlen = std::min<size_t>(o.n, o.c->the_hasher().longest_hashable_string()); o.d = (o.lattice ? str(o.h) + " rows x " + str(o.w) + " columns" : "chain of " + str(o.n)) + (o.wrap ? " (wrapping)" : ""); return o; }
static std::pair<size_t, size_t> low(const Q& q, size_t h) { size_t r = SIZE_MAX, c = SIZE_MAX; for (auto [s, p] : q) { r = std::min(r, s % h); c = std::min(c, s / h); } return q.empty() ? std::pair<size_t, size_t>{0, 0} : std::pair{r, c}; }
static std::pair<size_t, size_t> top(const Q& q, size_t h) { size_t r = 0, c = 0; for (auto [s, p] : q) { r = std::max(r, s % h + 1); c = std::max(c, s / h + 1); } return {r, c}; }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 20;
    Rng rng{vp::seed + 14}; const int N = vp::thorough ? 40 : 4;
    vp::group("codes of one slide", [&] { hashers<1>(rng, 800 * N); }); vp::group("codes of two slides", [&] { hashers<2>(rng, 600 * N); }); vp::group("codes of three slides", [&] { hashers<3>(rng, 400 * N); }); vp::group("codes of four slides", [&] { hashers<4>(rng, 300 * N); });
    vp::group("codes of five slides", [&] { hashers<5>(rng, 100 * N); hashers<6>(rng, 100 * N); hashers<7>(rng, 100 * N); hashers<8>(rng, 100 * N); });
    vp::group("simplifiers", [&] {
        for (int it = 0; it < 1000 * N; ++it) {
            auto x = make(rng); const auto& ms = x.c->moment_simplifier(); Q a = rq(rng, x.n, x.maxlen > 4 ? x.maxlen - 3 : x.maxlen); if (a.size() > x.maxlen) continue; W wa = word(a); auto in = VP_IN(x.d << " word " << qs(a)); VP_AT("simplifiers", in());
            W rep = vec(ms.canonical_sequence(wa)); Q rq_ = sites(rep); bool ok = false; size_t hit_r = 0, hit_c = 0;
            if (x.wrap) { for (size_t c = 0; c < x.w && !ok; ++c) for (size_t r = 0; r < x.h && !ok; ++r) ok = word(move(a, x.h, x.w, (long) r, (long) c)) == rep; }
            else { auto [r0, c0] = low(a, x.h); ok = word(move(a, x.h, x.w, -(long) r0, -(long) c0)) == rep; }
            (void) hit_r; (void) hit_c;
            vp::check(ok, "the canonical representative is a translate of the word", in, VP_IN("got " << us(rep)));
            // any translate has the same representative
            auto [tr, tc] = top(a, x.h); auto [lr, lc] = low(a, x.h); long dr = x.wrap ? (long) rng(x.h) : rng.range(-(long) lr, (long) (x.h - tr)), dc = x.wrap ? (long) rng(x.w) : rng.range(-(long) lc, (long) (x.w - tc)); if (a.empty()) dr = dc = 0;
            Q b = move(a, x.h, x.w, dr, dc); W wb = word(b); W rep2 = vec(ms.canonical_sequence(wb)); vp::check(rep == rep2, "every translate has the same representative", in, VP_IN("moved by " << dr << "," << dc << " to " << qs(b) << ": " << us(rep) << " / " << us(rep2)));
            vp::check(ms.is_canonical(wa) == (rep == wa) && ms.is_canonical(rep), "a word is canonical exactly if it is its own representative", in, VP_IN("is_canonical " << ms.is_canonical(wa) << " representative " << us(rep) << " (canonical: " << ms.is_canonical(rep) << ")"));
            // through operator sequences
            auto sg = (SequenceSignType) rng(4); OperatorSequence s{sequence_storage_t(wa.begin(), wa.end()), *x.c, sg}; auto t = x.c->simplify_as_moment(s); sequence_storage_t rs(rep.begin(), rep.end());
            vp::check(vec(t.raw()) == rep && t.get_sign() == sg && t.hash() == x.c->hash(rs), "the representative moment keeps sign and has its word's hash", in, VP_IN("got " << us(vec(t.raw()))));
            vp::check(x.c->can_be_simplified_as_moment(s) == (rep != wa), "a moment can be simplified exactly if it is not its representative", in, VP_IN(""));
            // offsets, negative too
            if (!x.lattice) { long d = x.wrap ? rng.range(-3 * (long) x.n, 3 * (long) x.n) : dr; VP_AT("chain offset moves every operator", in() << " by " << d); W g = vec(ms.chain_offset(wa, d)); vp::check(g == word(around(a, x.n, d)), "chain offset moves every operator", in, VP_IN("by " << d << ": got " << us(g) << " want " << qs(around(a, x.n, d)))); }
            else { long er = x.wrap ? rng.range(-2 * (long) x.h, 2 * (long) x.h) : dr, ec = x.wrap ? rng.range(-2 * (long) x.w, 2 * (long) x.w) : dc; VP_AT("lattice offset moves every operator", in() << " by " << er << "," << ec);
                W g = vec(ms.lattice_offset(wa, er, ec)); Q want = move(a, x.h, x.w, er, ec); vp::check(g == word(want), "lattice offset moves every operator", in, VP_IN("by " << er << "," << ec << ": got " << us(g) << " want " << qs(want))); }
        }
        PauliContext c{3, WrapType::Wrap, SymmetryType::Translational}; VP_CHECK(c.simplify_as_moment(c.zero()).zero(), "the representative of zero is zero", "", ""); });
    vp::group("filling a lattice", [&] {
        for (int it = 0; it < 150 * N; ++it) {
            auto x = make(rng, 30); size_t k = 1 + rng(std::min<size_t>(x.n, 3)); std::set<size_t> S; while (S.size() < k) S.insert(rng(x.n)); std::vector<size_t> at(S.begin(), S.end()); bool check = rng.coin(); if (k > x.maxlen) continue;
            auto in = VP_IN(x.d << " sites " << list(at) << (check ? " without aliases" : "")); VP_AT("filling a lattice", in()); std::vector<OperatorSequence> out; LatticeDuplicator dup{*x.c, out}; auto [f, l] = dup.symmetrical_fill(at, check);
            std::multiset<W> got, want; std::set<std::set<size_t>> seen; for (size_t i = f; i < l; ++i) got.insert(vec(out[i].raw())); Q base; for (auto s : at) base[s] = 0; auto [tr, tc] = top(base, x.h);
            for (size_t c = 0; c < (x.wrap ? x.w : 1 + x.w - tc); ++c) for (size_t r = 0; r < (x.wrap ? x.h : 1 + x.h - tr); ++r) { Q m = move(base, x.h, x.w, (long) r, (long) c); std::set<size_t> ms; for (auto [s, p] : m) ms.insert(s); bool fresh = seen.insert(ms).second; if (check && !fresh) continue;
                size_t tot = 1; for (size_t i = 0; i < k; ++i) tot *= 3; for (size_t v = 0; v < tot; ++v) { size_t y = v; Q q; for (auto s : ms) { q[s] = (int) (y % 3); y /= 3; } want.insert(word(q)); } }
            if (!x.wrap) {} vp::check(f == 0 && l == out.size() && got == want, "a fill lists every Pauli word on every translate of the sites", in, VP_IN("got " << got.size() << " words, want " << want.size()));
            bool hashes = true; for (auto& s : out) hashes = hashes && s.hash() == x.c->hash(s.raw()) && s.get_sign() == SequenceSignType::Positive; vp::check(hashes, "filled words carry their hash", in, VP_IN(""));
        } });
    vp::group("symmetrised polynomials", [&] {
        for (int it = 0; it < 100 * N; ++it) {
            auto x = make(rng, 40); RawPolynomial p; std::map<W, double> want, got; size_t n = 1 + rng(3); std::vector<std::pair<Q, double>> ts; size_t tr = 0, tc = 0; bool scalar = true;
            for (size_t i = 0; i < n; ++i) { Q a = rq(rng, x.n, 2); if (a.size() > x.maxlen) a.clear(); double f = (double) rng.range(-3, 3); W w = word(a); p.emplace_back(OperatorSequence{sequence_storage_t(w.begin(), w.end()), *x.c}, f); ts.emplace_back(a, f); auto [r, c] = top(a, x.h); tr = std::max(tr, r); tc = std::max(tc, c); scalar = scalar && a.empty(); }
            size_t R = x.wrap ? x.h : 1 + x.h - tr, C = x.wrap ? x.w : 1 + x.w - tc; if (scalar) R = C = 1; for (auto& [a, f] : ts) for (size_t c = 0; c < C; ++c) for (size_t r = 0; r < R; ++r) want[word(a.empty() ? a : move(a, x.h, x.w, (long) r, (long) c))] += f / (double) (R * C);
            auto in = VP_IN(x.d << " polynomial " << p.to_string(*x.c)); VP_AT("symmetrised polynomials", in()); auto q = LatticeDuplicator::symmetrical_copy(*x.c, p); for (auto& e : q) got[vec(e.sequence.raw())] += e.weight.real();
            bool ok = true; for (auto& [w, f] : want) ok = ok && std::abs(f - (got.count(w) ? got[w] : 0)) < 1e-9; for (auto& [w, f] : got) ok = ok && (want.count(w) || std::abs(f) < 1e-9); vp::check(ok, "a symmetrised polynomial averages over all translates", in, VP_IN("got " << q.to_string(*x.c))); } });
    return vp::finish();
}
