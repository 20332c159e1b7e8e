// C12: operator rules, rulebooks, completion, against the congruence the equations generate (signed union-find over all words up to a length).
// Bound: random rule sets over 2-3 operators (self-adjoint, bunched and interleaved conjugates), words up to length 5, derivations through words up to length 7-9.
#include "vp.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include <deque>
using namespace Moment; using namespace Moment::Algebraic;
using vp::Rng; using vp::str;
using W = std::vector<oper_name_t>;
using Sgn = int; // exponent of i
struct SW { bool zero = false; Sgn s = 0; W w; };
static std::string ws(const SW& x) { if (x.zero) return "0"; static const char* n[] = {"", "i", "-", "-i"}; std::string o = n[x.s]; if (x.w.empty()) return o + "I"; for (auto c : x.w) o += "X" + str(c); return o; }
struct Eq { W l; SW r; };
static std::string es(const Eq& e) { return ws({false, 0, e.l}) + "=" + ws(e.r); }
static W cat(const W& a, const W& b) { W o = a; o.insert(o.end(), b.begin(), b.end()); return o; }
static SW sw(const HashedSequence& h) { if (h.zero()) return {true, 0, {}}; return {false, (Sgn) h.get_sign(), W(h.begin(), h.end())}; }
static HashedSequence hs(const SW& x, const ShortlexHasher& h) { if (x.zero) return HashedSequence{true}; return HashedSequence{sequence_storage_t(x.w.begin(), x.w.end()), h, (SequenceSignType) x.s}; }
static bool eqv(const SW& a, const SW& b) { return a.zero ? b.zero : (!b.zero && a.s == b.s && a.w == b.w); }
static bool shortlex(const W& a, const W& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

/** all words up to length L, joined along every instance u l v = s u r v within the length */
struct Theory {
    size_t n, L; std::vector<size_t> base; std::vector<int> par; std::vector<Sgn> off; std::vector<char> zero; size_t total;
    size_t id(const W& w) const { size_t x = 0; for (auto c : w) x = x * n + c; return base[w.size()] + x; }
    W word(size_t i) const { size_t len = 0; while (len < L && base[len + 1] <= i) ++len; size_t x = i - base[len]; W w(len); for (size_t k = len; k-- > 0;) { w[k] = (oper_name_t) (x % n); x /= n; } return w; }
    int find(int i, Sgn& s) { std::vector<int> path; int r = i; s = 0; while (par[r] != r) { s = (s + off[r]) & 3; r = par[r]; } Sgn t = s; for (int j = i; par[j] != r && j != r;) { int nx = par[j]; Sgn o = off[j]; par[j] = r; off[j] = t; t = (t - o) & 3; j = nx; } return r; } // w_i = i^s w_root
    bool join(int a, int b, Sgn s) { // w_a = i^s w_b
        Sgn sa, sb; int ra = find(a, sa), rb = find(b, sb);
        if (ra == rb) { if (((sa - sb - s) & 3) != 0 && !zero[ra]) { zero[ra] = 1; return true; } return false; }
        par[ra] = rb; off[ra] = (s + sb - sa) & 3; if (zero[ra]) zero[rb] = 1; return true; }
    bool kill(int a) { Sgn s; int r = find(a, s); if (zero[r]) return false; zero[r] = 1; return true; }
    Theory(size_t n, size_t L, const std::vector<Eq>& eqs) : n{n}, L{L} {
        size_t p = 1; base.push_back(0); for (size_t i = 0; i <= L; ++i) { base.push_back(base.back() + p); p *= n; } total = base[L + 1];
        par.resize(total); for (size_t i = 0; i < total; ++i) par[i] = (int) i; off.resize(total); zero.resize(total);
        for (size_t i = 0; i < total; ++i) { W w = word(i);
            for (auto& e : eqs) { if (e.l.size() > w.size()) continue;
                for (size_t k = 0; k + e.l.size() <= w.size(); ++k) if (std::equal(e.l.begin(), e.l.end(), w.begin() + k)) {
                    if (e.r.zero) { kill((int) i); continue; }
                    W v(w.begin(), w.begin() + k); v = cat(v, e.r.w); v.insert(v.end(), w.begin() + k + e.l.size(), w.end());
                    if (v.size() <= L) join((int) i, (int) id(v), e.r.s); } } }
        for (bool again = true; again;) { again = false; for (size_t i = 0; i < total; ++i) { Sgn s; if (!zero[find((int) i, s)]) continue; W w = word(i); if (w.size() >= L) continue;
            for (size_t c = 0; c < n; ++c) { W a{(oper_name_t) c}; if (kill((int) id(cat(w, a)))) again = true; if (kill((int) id(cat(a, w)))) again = true; } } }
    }
    /** derivably equal */
    bool equal(const SW& a, const SW& b) { if (a.zero && b.zero) return true; Sgn sa = 0, sb = 0; int ra = a.zero ? -1 : find((int) id(a.w), sa), rb = b.zero ? -1 : find((int) id(b.w), sb);
        bool za = a.zero || zero[ra], zb = b.zero || zero[rb]; if (za || zb) return za && zb; return ra == rb && ((a.s + sa - b.s - sb) & 3) == 0; }
};
struct Setup { AlgebraicPrecontext pc; std::vector<Eq> eqs; std::string d; size_t n; };
static W rw(Rng& r, size_t n, size_t len) { W w(len); for (auto& x : w) x = (oper_name_t) r(n); return w; }
static W conjw(const AlgebraicPrecontext& pc, const W& w) { W o(w.rbegin(), w.rend()); for (auto& x : o) { if (pc.conj_mode == AlgebraicPrecontext::ConjugateMode::Bunched) x = x < pc.raw_operators ? x + pc.raw_operators : x - pc.raw_operators; else if (pc.conj_mode == AlgebraicPrecontext::ConjugateMode::Interleaved) x = x % 2 ? x - 1 : x + 1; } return o; }
static Setup make_setup(Rng& r) {
    using CM = AlgebraicPrecontext::ConjugateMode; int k = (int) r(6);
    AlgebraicPrecontext pc = k < 4 ? AlgebraicPrecontext{(oper_name_t) (1 + r(3))} : AlgebraicPrecontext{1, k == 4 ? CM::Bunched : CM::Interleaved};
    Setup s{pc, {}, "", (size_t) pc.num_operators}; size_t m = 1 + r(3), n = s.n; int style = (int) r(4);
    if (style == 0 && n >= 2) { // (anti)commutation, squares
        for (oper_name_t b = 1; b < (oper_name_t) n; ++b) for (oper_name_t a = 0; a < b; ++a) if (r(4)) s.eqs.push_back({{b, a}, {false, (Sgn) (r.coin() ? 0 : 2), {a, b}}});
        for (oper_name_t a = 0; a < (oper_name_t) n; ++a) { int q = (int) r(5); if (q == 0) s.eqs.push_back({{a, a}, {false, 0, {}}}); if (q == 1) s.eqs.push_back({{a, a}, {false, 0, {a}}}); if (q == 2) s.eqs.push_back({{a, a}, {true, 0, {}}}); if (q == 3) s.eqs.push_back({{a, a}, {false, 2, {}}}); }
    } else for (size_t i = 0; i < m; ++i) { W l = rw(r, n, 1 + r(3)); if (l.size() == 1 && r.coin()) l.push_back((oper_name_t) r(n)); W q = rw(r, n, r(l.size() + 1)); if (!shortlex(q, l)) std::swap(q, l); if (l.empty()) continue;
        if (q == l && r(4)) continue;
        Eq e{l, {false, (Sgn) (style == 1 ? r(4) : style == 2 ? 2 * r(2) : 0), q}}; if (r(6) == 0) e.r = {true, 0, {}}; s.eqs.push_back(e); }
    s.d = str(n) + (k < 4 ? " operators" : k == 4 ? " operators (bunched)" : " operators (interleaved)"); for (auto& e : s.eqs) s.d += " " + es(e);
    return s;
}
static std::vector<OperatorRule> rules_of(const Setup& s) { std::vector<OperatorRule> o; for (auto& e : s.eqs) o.emplace_back(hs({false, 0, e.l}, s.pc.hasher), hs(e.r, s.pc.hasher)); return o; }
static bool occurs(const W& p, const W& w) { return p.size() <= w.size() && std::search(w.begin(), w.end(), p.begin(), p.end()) != w.end(); }
static size_t deep(size_t n) { return n == 1 ? 12 : n == 2 ? 9 : 6; }


/** checks every deduction completion reports: each new rule must follow, by rewriting, from rules established before */
struct Proof : RuleLogger {
    const AlgebraicPrecontext& pc; std::vector<Eq> est; std::string bad; size_t steps = 0;
    explicit Proof(const AlgebraicPrecontext& pc) : pc{pc} {}
    static Eq eq(const OperatorRule& r) { return {sw(r.LHS()).w, sw(r.RHS())}; }
    static SW times(SW x, Sgn s) { if (!x.zero) x.s = (x.s + s) & 3; return x; }
    /** everything reachable from x by the established rules (bounded) */
    std::vector<SW> reach(const SW& x) const {
        std::vector<SW> out{x};
        auto have = [&](const SW& y) { for (auto& z : out) if (eqv(z, y)) return true; return false; };
        for (size_t i = 0; i < out.size() && out.size() < 3000; ++i) { SW y = out[i]; if (y.zero) continue;
            for (auto& e : est) for (size_t k = 0; k + e.l.size() <= y.w.size(); ++k) if (std::equal(e.l.begin(), e.l.end(), y.w.begin() + k)) {
                SW z; if (e.r.zero) z.zero = true; else { z.w = cat(cat(W(y.w.begin(), y.w.begin() + k), e.r.w), W(y.w.begin() + k + e.l.size(), y.w.end())); z.s = (y.s + e.r.s) & 3; }
                if (!have(z)) out.push_back(z); } }
        return out; }
    /** does p = q entail the new rule, up to rewriting of each side? */
    bool entails(const SW& p, const SW& q, const Eq& n) const {
        auto P = reach(p), Q = reach(q); SW l{false, 0, n.l};
        auto has = [&](const std::vector<SW>& v, const SW& x) { for (auto& y : v) if (eqv(x, y)) return true; return false; };
        for (Sgn s = 0; s < 4; ++s) { SW a = times(l, s), b = times(n.r, s); if ((has(P, a) && has(Q, b)) || (has(Q, a) && has(P, b))) return true; }
        if (n.r.zero) for (auto& a : P) for (auto& b : Q) if (!a.zero && !b.zero && a.w == b.w && a.s != b.s && a.w == n.l) return true;
        if (n.r.zero) for (auto* S : {&P, &Q}) for (auto& a : *S) for (auto& b : *S) if (!a.zero && !b.zero && a.w == b.w && a.s != b.s && a.w == n.l) return true;
        if (P.size() >= 3000 || Q.size() >= 3000) return true;
        return false; }
    void add(const Eq& e) { est.push_back(e); ++steps; }
    void fail(const std::string& w) { if (bad.empty()) bad = w; }
    void rule_reduced(const OperatorRule& o, const OperatorRule& n) override { Eq a = eq(o), b = eq(n); if (!entails({false, 0, a.l}, a.r, b)) fail(str(o) + " reduced to " + str(n)); add(b); }
    void rule_removed(const OperatorRule&) override {}
    void rule_introduced(const OperatorRule& x, const OperatorRule& y, const OperatorRule& n) override {
        Eq a = eq(x), b = eq(y), c = eq(n); bool ok = false;
        for (size_t k = 1; !ok && k <= std::min(a.l.size(), b.l.size()); ++k) if (std::equal(a.l.end() - k, a.l.end(), b.l.begin())) {
            SW u = a.r, v = b.r; if (!u.zero) u.w = cat(u.w, W(b.l.begin() + k, b.l.end())); if (!v.zero) v.w = cat(W(a.l.begin(), a.l.end() - k), v.w);
            ok = entails(u, v, c); }
        if (!ok) fail(str(x) + " and " + str(y) + " combined to " + str(n)); add(c); }
    void rule_introduced(const OperatorRule& n) override { add(eq(n)); }
    void rule_introduced_conjugate(const OperatorRule& o, const OperatorRule& n) override {
        Eq a = eq(o); SW l{false, 0, conjw(pc, a.l)}, r = a.r; if (!r.zero) { r.w = conjw(pc, r.w); r.s = (4 - r.s) & 3; }
        if (!entails(l, r, eq(n))) fail("conjugate of " + str(o) + " gives " + str(n)); add(eq(n)); }
    void success(const OperatorRulebook&, size_t) override {}
    void failure(const OperatorRulebook&, size_t) override {}
};

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 20;
    Rng rng{vp::seed + 12};
    vp::group("single rules", [&] {
        for (int it = 0; it < (vp::thorough ? 100000 : 10000); ++it) {
            auto s = make_setup(rng); if (s.eqs.empty()) continue; auto& e = s.eqs[rng(s.eqs.size())];
            auto in = VP_IN(s.n << " operators, rule " << es(e)); VP_AT("single rule", s.n << " operators, rule " << es(e));
            Sgn extra = (Sgn) rng(4); SW l{false, extra, e.l}, r = e.r; if (!r.zero) r.s = (r.s + extra) & 3;
            OperatorRule rule{hs(l, s.pc.hasher), hs(r, s.pc.hasher)};
            vp::check(sw(rule.LHS()).w == e.l && eqv(sw(rule.RHS()), e.r) && (e.r.zero || (Sgn) rule.rule_sign() == e.r.s) && rule.implies_zero() == e.r.zero && rule.LHS().get_sign() == SequenceSignType::Positive, "constructing a rule moves the sign to the right side", in, VP_IN(ws(l) << " -> " << ws(r) << " became " << rule));
            vp::check(rule.trivial() == (!e.r.zero && e.r.w == e.l && e.r.s == 0), "a rule is trivial iff both sides are the same", in, VP_IN(rule.trivial()));
            bool bad = false; if (!e.r.zero && e.r.w != e.l) { try { OperatorRule x{hs({false, 0, e.r.w}, s.pc.hasher), hs({false, 0, e.l}, s.pc.hasher)}; } catch (const errors::invalid_rule&) { bad = true; } vp::check(bad, "a rule that increases shortlex order is rejected", in, VP_IN("accepted")); }
            W a = rw(rng, s.n, rng(4)), b = rw(rng, s.n, rng(4)), t = cat(cat(a, e.l), b); sequence_storage_t st(t.begin(), t.end());
            auto res = rule.apply_match_with_hint(st, st.cbegin() + a.size()); W expect = e.r.zero ? W{} : cat(cat(a, e.r.w), b);
            vp::check(W(res.begin(), res.end()) == expect, "applying a rule replaces exactly the hinted occurrence", in, VP_IN("in " << vp::list(t) << " at " << a.size() << ": " << vp::list(res)));
            auto c = rule.conjugate(s.pc); SW cr = e.r; if (!cr.zero) { cr.w = conjw(s.pc, cr.w); cr.s = (4 - cr.s) & 3; } W cl = conjw(s.pc, e.l);
            SW gl = sw(c.LHS()), gr = sw(c.RHS()); bool fwd = gl.w == cl && eqv(gr, cr), bwd = !cr.zero && gl.w == cr.w && !gr.zero && gr.w == cl && gr.s == ((4 - cr.s) & 3);
            vp::check(fwd || bwd, "the conjugate of a rule is the conjugated equation", in, VP_IN(c));
            auto& e2 = s.eqs[rng(s.eqs.size())]; OperatorRule other{hs({false, 0, e2.l}, s.pc.hasher), hs(e2.r, s.pc.hasher)};
            if (auto cmb = rule.combine(other, s.pc)) { // the critical pair: both reductions of one overlapped word
                SW x = sw(cmb->LHS()), y = sw(cmb->RHS()); bool ok = false;
                for (size_t k = 1; k <= std::min(e.l.size(), e2.l.size()); ++k) if (std::equal(e.l.end() - k, e.l.end(), e2.l.begin())) {
                    SW u = e.r, v = e2.r; if (!u.zero) u.w = cat(u.w, W(e2.l.begin() + k, e2.l.end())); if (!v.zero) v.w = cat(W(e.l.begin(), e.l.end() - k), v.w);
                    auto same = [&](const SW& p, const SW& q) { return (p.zero && q.zero && x.zero) || (!p.zero && x.w == p.w && !x.zero && (q.zero ? y.zero : !y.zero && y.w == q.w && y.s == ((q.s - p.s) & 3))); };
                    if (same(u, v) || same(v, u)) ok = true; }
                vp::check(ok, "a combination of two rules equates the two reductions of an overlap", VP_IN(es(e) << " and " << es(e2)), VP_IN(*cmb)); }
        }
    });
    vp::group("rulebooks", [&] {
        for (int it = 0; it < (vp::thorough ? 15000 : 1500); ++it) {
            auto s = make_setup(rng); bool as_ctx = false; std::vector<OperatorRule> rs;
            VP_AT("rulebook", s.d); rs = rules_of(s); OperatorRulebook book{s.pc, rs};
            std::vector<Eq> all = s.eqs; for (auto& e : s.eqs) { Eq c{conjw(s.pc, e.l), e.r}; if (!c.r.zero) { c.r.w = conjw(s.pc, c.r.w); c.r.s = (4 - c.r.s) & 3; } if (!c.r.zero && shortlex(c.l, c.r.w)) { W t = c.l; c.l = c.r.w; c.r.w = t; c.r.s = (4 - c.r.s) & 3; } all.push_back(c); }
            size_t L = deep(s.n); Theory th{s.n, L, all}; Theory plain{s.n, L, s.eqs};
            SW one{false, 0, {}}; if (th.equal(one, {true, 0, {}})) continue; // identity vanishes: nothing left to speak of
            auto test_reduction = [&](const OperatorRulebook& bk, bool complete, bool conj, const std::string& stage) {
                std::map<std::pair<int, int>, SW> nf; size_t top = s.n == 1 ? 8 : s.n == 2 ? 5 : 4; Theory& t = conj ? th : plain; std::vector<Eq> own; for (auto& [h, r] : bk.rules()) own.push_back({sw(r.LHS()).w, sw(r.RHS())}); Theory mine{s.n, top, own}; // rules never lengthen a word: exact
                for (size_t i = 0; i < t.base[top + 1]; ++i) { W w = t.word(i); if (i > 60 && rng(3)) continue; SW x{false, (Sgn) rng(4), w}; auto in = VP_IN(s.d << stage << " ; reduce " << ws(x));
                    VP_AT("reduction", s.d << stage << " ; reduce " << ws(x) << " ; rules " << [&] { std::string o; for (auto& [h, r] : bk.rules()) o += str(r) + ", "; return o; }());
                    auto h = hs(x, s.pc.hasher); std::vector<SW> got{sw(bk.reduce(h)), sw(bk.reduce_via_iteration(h)), sw(bk.reduce_via_search(h))};
                    { auto c = h; auto rr = bk.reduce_in_place(c); got.push_back(sw(c)); if (rr == OperatorRulebook::RawReductionResult::SetToZero) vp::check(c == HashedSequence{true}, "a word reduced to zero is zero", in, VP_IN(c)); vp::check((rr == OperatorRulebook::RawReductionResult::NoMatch) == (c == h), "reduce_in_place reports whether it did something", in, VP_IN(ws(sw(c)))); }
                    { sequence_storage_t st(w.begin(), w.end()); auto sg = (SequenceSignType) x.s; auto rr = bk.reduce_in_place(st, sg); got.push_back(rr == OperatorRulebook::RawReductionResult::SetToZero ? SW{true, 0, {}} : SW{false, (Sgn) sg, W(st.begin(), st.end())}); }
                    bool reducible = false; for (auto& [hh, r] : bk.rules()) if (occurs(sw(r.LHS()).w, w)) reducible = true;
                    if (!w.empty()) vp::check(bk.can_reduce(h.raw()) == reducible, "can_reduce iff a left side occurs", in, VP_IN(bk.can_reduce(h.raw())));
                    static const char* how[] = {"reduce", "via iteration", "via search", "in place", "raw in place"};
                    for (size_t k = 0; k < got.size(); ++k) {
                        vp::check(mine.equal(x, got[k]), "a reduced word equals the original", in, VP_IN(how[k] << " gives " << ws(got[k])));
                        if (!got[k].zero) { bool left = false; for (auto& [hh, r] : bk.rules()) { W l = sw(r.LHS()).w; if (!l.empty() && occurs(l, got[k].w)) left = true; } vp::check(!left, "no rule applies to a reduced word", in, VP_IN(how[k] << " gives " << ws(got[k]))); }
                        if (complete) vp::check(eqv(got[k], got[0]), "strategies agree", in, VP_IN(how[k] << " gives " << ws(got[k]) << " instead of " << ws(got[0])));
                    }
                    if (complete) { // equal words have one normal form
                        Sgn sg; int root = t.find((int) t.id(w), sg); if (t.zero[root]) { vp::check(got[0].zero, "words equal under the equations reduce to the same word", in, VP_IN(ws(got[0]) << " expected 0")); continue; }
                        SW norm = got[0]; if (!norm.zero) norm.s = (norm.s - x.s - sg) & 3; auto [pos, isnew] = nf.insert({{root, 0}, norm});
                        vp::check(isnew || eqv(pos->second, norm), "words equal under the equations reduce to the same word", in, VP_IN(ws(got[0]) << " but the class has " << ws(pos->second))); }
                } };
            test_reduction(book, false, false, "");
            bool was_complete = book.is_complete(true); if (was_complete) test_reduction(book, true, true, " (is_complete)");
            auto red = OperatorRulebook{book}; VP_AT("reduce_ruleset", s.d); red.reduce_ruleset(); test_reduction(red, false, false, " reduce_ruleset");
            auto b2 = OperatorRulebook{book}; VP_AT("complete", s.d); Proof proof{s.pc}; for (auto& [h, r] : b2.rules()) proof.add(Proof::eq(r)); bool done = b2.complete(5 + rng(8), &proof);
            bool small = true; for (auto& [h, r] : b2.rules()) if (r.LHS().size() > 12 || r.LHS().empty()) small = false; if (!small) continue; // hashes must fit; the identity must not vanish
            vp::check(proof.bad.empty(), "completion derives only consequences", VP_IN(s.d), VP_IN(proof.bad));
            for (auto& [h, r] : b2.rules()) { Eq e = Proof::eq(r); bool known = false; for (auto& k : proof.est) if (k.l == e.l && eqv(k.r, e.r)) known = true; vp::check(known, "every rule of a completed rulebook was established", VP_IN(s.d), VP_IN(r)); }
            for (auto& e : s.eqs) if (done) { auto a = b2.reduce(hs({false, 0, e.l}, s.pc.hasher)), b = b2.reduce(hs(e.r, s.pc.hasher)); vp::check(a == b, "completion forgets no equation", VP_IN(s.d), VP_IN(es(e) << ": " << ws(sw(a)) << " vs " << ws(sw(b)))); }
            for (auto& [h, r] : b2.rules()) { SW l = sw(r.LHS()), rr = sw(r.RHS()); vp::check(h == r.LHS().hash() && h == s.pc.hasher(r.LHS().raw()), "rules are keyed by the hash of the left side", VP_IN(s.d), VP_IN(r)); }
            vp::check(!was_complete || done, "a complete rulebook stays complete", VP_IN(s.d), VP_IN(done));
            test_reduction(b2, done, true, " completed");
            vp::check(b2.is_complete(true) == done || !done, "complete() and is_complete() agree", VP_IN(s.d), VP_IN(done));
            // as context
            VP_AT("context", s.d); bool comm = rng(6) == 0 && s.n > 1; AlgebraicContext ctx{s.pc, comm, rng.coin(), rs}; bool cd = false; try { cd = ctx.attempt_completion(10); } catch (...) { throw; }
            if (!comm) for (int q = 0; q < 10; ++q) { W w = rw(rng, s.n, rng(5)); SW x{false, (Sgn) rng(4), w}; VP_AT("context sequences", s.d << " ; " << ws(x)); OperatorSequence o{sequence_storage_t(w.begin(), w.end()), ctx, (SequenceSignType) x.s}; auto in = VP_IN(s.d << " ; " << ws(x));
                auto cj = o.conjugate(); OperatorSequence direct{[&] { W c = conjw(s.pc, w); return sequence_storage_t(c.begin(), c.end()); }(), ctx, (SequenceSignType) ((4 - x.s) & 3)};
                if (cd) { vp::check(cj == direct && cj.hash() == direct.hash(), "conjugation commutes with simplification", in, VP_IN(ws(sw(cj)) << " vs " << ws(sw(direct)))); auto back = cj.conjugate(); vp::check(back == o, "conjugating twice changes nothing", in, VP_IN(ws(sw(back)) << " vs " << ws(sw(o))));
                    W v = rw(rng, s.n, rng(4)); OperatorSequence p{sequence_storage_t(v.begin(), v.end()), ctx}; W u = cat(w, v); OperatorSequence pr{sequence_storage_t(u.begin(), u.end()), ctx, (SequenceSignType) x.s}; auto m = o * p; vp::check(m == pr, "multiplication commutes with simplification", in, VP_IN(ws(sw(m)) << " vs " << ws(sw(pr)))); }
                bool reducible = false; for (auto& [h, r] : book.rules()) {} auto gc = ctx.get_if_canonical(sequence_storage_t(w.begin(), w.end())); if (x.s == 0 && !w.empty()) vp::check(gc.has_value() ? *gc == o : !(sw(o).w == w && !o.zero()), "get_if_canonical accepts exactly the irreducible words", in, VP_IN(gc.has_value()));
            }
        }
    });
    return vp::finish();
}
