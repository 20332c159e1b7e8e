// C11: moment rules and rulebooks against exact elimination.  Symbols are real unknowns (re, im); every polynomial is a pair of affine forms.
// Bound: random systems of <= 6 equations in <= 7 symbols (complex, Hermitian, anti-Hermitian; with and without operator words), both orderings.
#include "poly.h"
#include "matrix_system/matrix_system.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"
using namespace Moment;
using namespace vp;
using Row = std::vector<double>; // affine form in 2n reals: last entry is the constant

struct Lin { // row space in reduced echelon form
    size_t w; std::vector<Row> rows; std::vector<size_t> piv; double worst = 1;
    explicit Lin(size_t w) : w{w} {}
    Row red(Row r) const { for (size_t i = 0; i < rows.size(); ++i) { double f = r[piv[i]]; if (f != 0) { for (size_t j = 0; j < w; ++j) r[j] -= f * rows[i][j]; r[piv[i]] = 0; } } return r; }
    static double mag(const Row& r) { double m = 0; for (double x : r) m = std::max(m, std::abs(x)); return m; }
    void add(Row r) { r = red(r); if (mag(r) < 1e-9) return; size_t p = w - 1; double b = 0; for (size_t j = 0; j + 1 < w; ++j) if (std::abs(r[j]) > b) { b = std::abs(r[j]); p = j; }
        if (b < 1e-9) { p = w - 1; b = std::abs(r[p]); }
        worst = std::min(worst, b);
        { double dv = b == 0 ? 1 : r[p]; for (auto& x : r) x /= dv; } for (auto& q : rows) { double f = q[p]; if (f != 0) for (size_t j = 0; j < w; ++j) q[j] -= f * r[j]; }
        rows.push_back(r); piv.push_back(p); }
    bool contradictory() const { for (auto p : piv) if (p == w - 1) return true; return false; }
};
/** real and imaginary part of a polynomial as affine forms; the polynomial is read term by term, by the symbols' definition */
template<class C> static std::pair<Row, Row> forms(const C& p, const SymbolTable& t) {
    size_t n = t.size(); Row re(2 * n + 1), im(2 * n + 1);
    for (const Monomial& m : p) {
        double a = m.factor.real(), b = m.factor.imag();
        if (m.id == 0) continue;
        if (m.id == 1) { re[2 * n] += a; im[2 * n] += b; continue; }
        double s = m.conjugated ? -1 : 1; const auto& y = t[m.id]; // x = r + i s q
        if (!y.is_antihermitian()) { re[2 * m.id] += a; im[2 * m.id] += b; }
        if (!y.is_hermitian()) { re[2 * m.id + 1] -= b * s; im[2 * m.id + 1] += a * s; }
    }
    return {re, im};
}
static Row minus(Row a, const Row& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
struct System { std::unique_ptr<MatrixSystem> s; std::string d; };
static System make_system(Rng& r) {
    System o; o.s = std::make_unique<MatrixSystem>(std::make_unique<Context>(3), 1e5); auto& t = o.s->Symbols(); std::ostringstream d;
    size_t n = 2 + r(6);
    for (size_t i = 0; i < n; ++i) switch (r(6)) {
        case 0: case 1: t.create(true, true); d << " create(c)"; break;
        case 2: t.create(true, false); d << " create(r)"; break;
        case 3: t.create(false, true); d << " create(i)"; break;
        default: { size_t k = 1 + r(3); sequence_storage_t s; d << " word["; for (size_t j = 0; j < k; ++j) { auto x = (oper_name_t) r(3); s.push_back(x); d << x << " "; } d << "]"; t.merge_in(OperatorSequence(std::move(s), o.s->Context())); } }
    o.d = d.str(); return o;
}
static Polynomial rpoly(Rng& r, const SymbolTable& t, const PolynomialFactory& f, size_t maxn, bool nice) {
    static const cd v[] = {1, -1, {0, 1}, {0, -1}, 2, -0.5, {1, 1}, {1, -1}};
    static const cd w[] = {3, {0.5, 2}, {-1, 0.25}, {0.6, 0.8}, {std::sqrt(0.5), std::sqrt(0.5)}};
    Polynomial::storage_t s; size_t n = 1 + r(maxn);
    for (size_t i = 0; i < n; ++i) { auto id = (symbol_name_t) (r(5) == 0 ? 1 : 1 + r(t.size() - 1)); cd c = (!nice && r(3) == 0) ? w[r(5)] : v[r(8)]; bool cj = r.coin(); s.push_back(Monomial{id, c, cj});
        if (r(3) == 0) { static const cd ph[] = {1, -1, {0, 1}, {0, -1}, {0.6, 0.8}, 2}; s.push_back(Monomial{id, c * ph[r(nice ? 4 : 6)], !cj}); } }
    return f(std::move(s));
}
static double near(const Lin& l, const Row& d) { return Lin::mag(l.red(d)); }

int main(int argc, char** argv) {
    vp::init(argc, argv);
    Rng rng{vp::seed + 11};
    vp::group("single rules", [&] {
        for (int it = 0; it < (vp::thorough ? 120000 : 12000); ++it) {
            auto sys = make_system(rng); auto& t = sys.s->Symbols(); Fac fac; fac.by_hash = rng.coin(); if (fac.by_hash) fac.f = std::make_unique<ByHashPolynomialFactory>(t, 1e5); else fac.f = std::make_unique<ByIDPolynomialFactory>(t, 1e5); const auto& f = *fac.f;
            auto p = rpoly(rng, t, f, 4, false); auto in = VP_IN((fac.by_hash ? "by hash;" : "by id;") << sys.d << " ; " << pstr(p) << " == 0");
            VP_AT("MomentRule from polynomial", sys.d + " ; " + pstr(p));
            bool contra = !p.empty() && std::all_of(p.begin(), p.end(), [](auto& m) { return m.id == 1; });
            Lin eq{2 * t.size() + 1}; { auto [a, b] = forms(p, t); eq.add(a); eq.add(b); }
            std::optional<MomentRule> rule; bool threw = false;
            try { rule.emplace(f, Polynomial{p}); } catch (const errors::invalid_moment_rule&) { threw = true; }
            vp::check(threw == contra, "a scalar that must vanish is reported, and nothing else", in, VP_IN(threw)); if (threw) continue;
            if (rule->is_trivial()) { vp::check(p.empty(), "only 0 == 0 is trivial", in, VP_IN(pstr(rule->RHS()))); continue; }
            auto lhs = rule->LHS(); Lin back{2 * t.size() + 1};
            auto ap = rule->as_polynomial(f); auto split = rule->split();
            { auto [a, b] = forms(ap, t); vp::check(near(eq, a) < 1e-8 && near(eq, b) < 1e-8, "the rule follows from the equation", in, VP_IN(lhs << " -> " << pstr(rule->RHS()))); back.add(a); back.add(b); }
            { Polynomial::storage_t q(rule->RHS().begin(), rule->RHS().end()); q.push_back(Monomial{lhs, -1.0, false}); auto [a, b] = forms(q, t); vp::check(near(eq, a) < 1e-8 && near(eq, b) < 1e-8, "LHS equals RHS whenever the equation holds", in, VP_IN(lhs << " -> " << pstr(rule->RHS()))); }
            if (split) { auto [a, b] = forms(*split, t); vp::check(near(eq, a) < 1e-8 && near(eq, b) < 1e-8, "the split-off equation follows from the equation", in, VP_IN(pstr(*split))); back.add(a); back.add(b); }
            { auto [a, b] = forms(p, t); vp::check(near(back, a) < 1e-8 && near(back, b) < 1e-8, "rule and split-off equation lose nothing", in, VP_IN(lhs << " -> " << pstr(rule->RHS()) << " split " << (split ? pstr(*split) : "-"))); }
            if (rule->is_partial()) { auto k = rule->partial_direction(); vp::check(std::abs(std::abs(k) - 1) < 1e-9, "direction has unit norm", in, VP_IN(k.real() << " " << k.imag())); }
            else vp::check(!rule->matches(rule->RHS()), "a full rule does not reproduce its own left side", in, VP_IN(lhs << " -> " << pstr(rule->RHS())));
            for (int q = 0; q < 3; ++q) {
                auto x = rpoly(rng, t, f, 5, false); auto inx = VP_IN((fac.by_hash ? "by hash;" : "by id;") << sys.d << " ; " << lhs << " -> " << pstr(rule->RHS()) << " on " << pstr(x));
                VP_AT("MomentRule::reduce", sys.d + " ; " + pstr(p) + " on " + pstr(x));
                auto y = rule->reduce(f, x); auto [a, b] = forms(x, t); auto [c, d] = forms(y, t);
                vp::check(near(eq, minus(a, c)) < 1e-8 && near(eq, minus(b, d)) < 1e-8, "reduced polynomial equals the original", inx, VP_IN(pstr(y)));
                vp::check(canonical(y, f, t) == "", "reduced polynomial is canonical", inx, VP_IN(pstr(y) << canonical(y, f, t)));
                auto yy = rule->reduce(f, y); auto [e, g] = forms(yy, t);
                vp::check(Lin::mag(minus(c, e)) < 1e-8 && Lin::mag(minus(d, g)) < 1e-8, "reduction by a rule is idempotent", inx, VP_IN(pstr(y) << " then " << pstr(yy)));
                bool has = std::any_of(x.begin(), x.end(), [&](auto& m) { return m.id == lhs; });
                vp::check(rule->matches(x) == has, "matches iff the left side occurs", inx, VP_IN(rule->matches(x)));
                auto [cnt, hint] = rule->match_info(x); size_t want = std::count_if(x.begin(), x.end(), [&](auto& m) { return m.id == lhs; });
                vp::check(cnt == want && (cnt == 0 ? hint == x.end() : hint->id == lhs && hint - x.begin() == std::find_if(x.begin(), x.end(), [&](auto& m) { return m.id == lhs; }) - x.begin()), "match_info counts occurrences", inx, VP_IN(cnt));
                if (!x.empty()) { auto m = x[rng(x.size())]; auto z = rule->reduce(f, m); auto [a1, b1] = forms(std::vector{m}, t); auto [c1, d1] = forms(z, t);
                    vp::check(near(eq, minus(a1, c1)) < 1e-8 && near(eq, minus(b1, d1)) < 1e-8, "reduced monomial equals the original", inx, VP_IN(mstr(m) << " to " << pstr(z)));
                    if (rule->RHS().is_monomial()) { auto mm = rule->reduce_monomial(t, m); auto [c2, d2] = forms(std::vector{mm}, t); vp::check(near(eq, minus(a1, c2)) < 1e-8 && near(eq, minus(b1, d2)) < 1e-8, "reduce_monomial equals the original", inx, VP_IN(mstr(m) << " to " << mstr(mm))); } }
            }
        }
    });
    vp::group("rulebooks", [&] {
        for (int it = 0; it < (vp::thorough ? 60000 : 6000); ++it) {
            auto sys = make_system(rng); auto& t = sys.s->Symbols(); const auto& f = sys.s->polynomial_factory();
            size_t ne = 1 + rng(5); std::vector<Polynomial> eqs; Lin eq{2 * t.size() + 1}; std::string h = sys.d; bool nice = rng(3) != 0;
            for (size_t i = 0; i < ne; ++i) { eqs.push_back(rpoly(rng, t, f, 3, nice)); h += " ; " + pstr(eqs.back());
                if (eqs.size() > 1 && rng(4) == 0) { auto q = f.sum(eqs[rng(i)], eqs[rng(i)] * cd{rng.coin() ? 1.0 : -2.0, rng.coin() ? 1.0 : 0.0}); eqs.back() = q; h += " ; or rather " + pstr(q); } }
            for (auto& q : eqs) { auto [a, b] = forms(q, t); eq.add(a); eq.add(b); }
            if (eq.worst < 1e-3) continue; // numerically delicate: outside the stated tolerance
            bool contra = eq.contradictory();
            MomentRulebook book{*sys.s}; bool threw = false;
            size_t cut = rng.coin() ? eqs.size() : rng(eqs.size() + 1); size_t mode = rng(3); h += mode == 2 ? " [combine at " + str(cut) + "]" : " [complete at " + str(cut) + "]";
            VP_AT("rulebook completion", h);
            std::vector<Polynomial> first(eqs.begin(), eqs.begin() + cut), second(eqs.begin() + cut, eqs.end()); Lin firsteq{2 * t.size() + 1}; for (auto& q : first) { auto [a, b] = forms(q, t); firsteq.add(a); firsteq.add(b); }
            size_t added = 0; bool rolled_back = true;
            try {
                if (mode == 0) book.add_raw_rules(std::vector<Polynomial>{first}); else for (auto& q : first) book.add_raw_rule(Polynomial{q});
                book.complete();
                if (mode == 2) { MomentRulebook other{*sys.s}; other.add_raw_rules(std::vector<Polynomial>{second}); other.complete(); std::map<symbol_name_t, std::string> before; for (auto& [id, r] : book) before[id] = pstr(r.RHS());
                    try { book.combine_and_complete(std::move(other)); } catch (const errors::invalid_moment_rule&) { std::map<symbol_name_t, std::string> after; for (auto& [id, r] : book) after[id] = pstr(r.RHS());
                        vp::check(before == after && !book.pending_rules(), "a failed combination leaves the rulebook as it was", VP_IN(h), VP_IN(after.size() << " rules")); throw; } }
                else { book.add_raw_rules(std::vector<Polynomial>{second}); book.complete(); }
            } catch (const errors::invalid_moment_rule&) { threw = true; }
            vp::check(threw == contra, "contradictory equations are reported, consistent ones are not", VP_IN(h), VP_IN((threw ? "reported" : "accepted") << " pivot " << eq.worst)); if (threw || contra) continue;
            Lin got{2 * t.size() + 1}; std::string rs; for (auto& [id, r] : book) { rs += " " + str(id) + "->" + pstr(r.RHS()); }
            bool mono = true, herm = true;
            for (auto& [id, r] : book) {
                vp::check(id == r.LHS(), "rules are keyed by their left side", VP_IN(h), VP_IN(rs));
                Polynomial::storage_t q(r.RHS().begin(), r.RHS().end()); q.push_back(Monomial{id, -1.0, false}); auto [a, b] = forms(q, t);
                vp::check(near(eq, a) < 1e-7 && near(eq, b) < 1e-7, "every rule follows from the equations", VP_IN(h), VP_IN("rule " << id << " of " << rs)); got.add(a); got.add(b);
                for (auto& m : r.RHS()) if (book.find(m.id) != book.end()) vp::check(book.find(m.id)->second.is_partial(), "right sides are fully reduced", VP_IN(h), VP_IN("rule " << id << " of " << rs));
                vp::check(canonical(r.RHS(), f, t) == "", "right sides are canonical", VP_IN(h), VP_IN("rule " << id << ": " << canonical(r.RHS(), f, t) << " of" << rs));
                mono = mono && r.RHS().is_monomial(); if (t[id].is_hermitian()) { auto [x, y] = forms(r.RHS(), t); herm = herm && Lin::mag(y) < 1e-9; }
            }
            vp::check(book.is_monomial() == mono && book.is_hermitian() == herm && !book.pending_rules(), "monomial / Hermitian flags", VP_IN(h), VP_IN(book.is_monomial() << book.is_hermitian() << " expected " << mono << herm << " " << rs));
            for (auto& q : eqs) { auto [a, b] = forms(q, t); vp::check(near(got, a) < 1e-7 && near(got, b) < 1e-7, "no equation is lost", VP_IN(h), VP_IN(pstr(q) << " rules" << rs));
                auto z = book.reduce(q); auto [c, d] = forms(z, t); vp::check(Lin::mag(c) < 1e-7 && Lin::mag(d) < 1e-7, "every supplied equation reduces to zero", VP_IN(h), VP_IN(pstr(q) << " to " << pstr(z) << " rules" << rs));
                auto z2 = book.reduce(q.conjugate(t)); auto [c2, d2] = forms(z2, t); vp::check(Lin::mag(c2) < 1e-7 && Lin::mag(d2) < 1e-7, "the conjugate of every supplied equation reduces to zero", VP_IN(h), VP_IN(pstr(q) << "* to " << pstr(z2) << " rules" << rs)); }
            for (int q = 0; q < 4; ++q) {
                auto x = rpoly(rng, t, f, 6, false); auto inx = VP_IN(h << " ; reduce " << pstr(x)); VP_AT("rulebook reduction", h + " ; reduce " + pstr(x));
                auto y = book.reduce(x); auto [a, b] = forms(x, t); auto [c, d] = forms(y, t);
                vp::check(near(eq, minus(a, c)) < 1e-7 && near(eq, minus(b, d)) < 1e-7, "reduction by a rulebook preserves the value", inx, VP_IN(pstr(y) << " rules" << rs));
                vp::check(canonical(y, f, t) == "", "reduction by a rulebook is canonical", inx, VP_IN(pstr(y) << canonical(y, f, t)));
                auto yy = book.reduce(y); auto [e, g] = forms(yy, t); vp::check(Lin::mag(minus(c, e)) < 1e-7 && Lin::mag(minus(d, g)) < 1e-7, "reduction by a rulebook is idempotent", inx, VP_IN(pstr(y) << " then " << pstr(yy) << " rules" << rs));
                for (auto& m : y) if (auto r = book.find(m.id); r != book.end()) vp::check(r->second.is_partial(), "nothing is left that a full rule rewrites", inx, VP_IN(pstr(y) << " rules" << rs));
                auto pl = x; bool did = book.reduce_in_place(pl); bool can = std::any_of(x.begin(), x.end(), [&](auto& m) { return book.find(m.id) != book.end(); });
                vp::check(did == can && same(value(pl, t), value(y, t)), "reduce_in_place reports and does what reduce does", inx, VP_IN(did << " " << pstr(pl)));
                auto [ri, pi] = book.match(x); vp::check((ri != book.end()) == can && (!can || (pi->id == ri->first && std::none_of(x.begin(), pi, [&](auto& m) { return book.find(m.id) != book.end(); }))), "match finds the first reducible term", inx, VP_IN(can));
                if (!x.empty()) { auto m = x[rng(x.size())]; auto z = book.reduce(m); auto [a1, b1] = forms(std::vector{m}, t); auto [c1, d1] = forms(z, t); vp::check(near(eq, minus(a1, c1)) < 1e-7 && near(eq, minus(b1, d1)) < 1e-7, "reducing a monomial preserves the value", inx, VP_IN(mstr(m) << " to " << pstr(z)));
                    auto r = book.find(m.id); bool ok = r == book.end() || r->second.RHS().is_monomial(); bool thr = false; Monomial mm{0}; try { mm = book.reduce_monomial(m); } catch (const errors::not_monomial&) { thr = true; }
                    vp::check(thr == !ok, "reduce_monomial refuses exactly non-monomial results", inx, VP_IN(mstr(m))); if (!thr) { auto [c2, d2] = forms(std::vector{mm}, t); vp::check(Lin::mag(minus(c1, c2)) < 1e-9 && Lin::mag(minus(d1, d2)) < 1e-9, "reduce_monomial agrees with reduce", inx, VP_IN(mstr(m) << " to " << mstr(mm))); } }
            }
            if (rng(4) == 0) { // comparison of rulebooks: the other one holds a random part of the equations, or more
                MomentRulebook other{*sys.s}; Lin oeq{2 * t.size() + 1}; for (auto& q : eqs) if (rng(3)) { other.add_raw_rule(Polynomial{q}); auto [a, b] = forms(q, t); oeq.add(a); oeq.add(b); } if (rng(3) == 0) { auto q = rpoly(rng, t, f, 2, true); other.add_raw_rule(Polynomial{q}); auto [a, b] = forms(q, t); oeq.add(a); oeq.add(b); }
                if (oeq.contradictory() || oeq.worst < 1e-3) continue;
                other.complete(); bool sub = true, sup = true; for (auto& r : oeq.rows) if (near(eq, r) > 1e-7) sub = false; for (auto& r : eq.rows) if (near(oeq, r) > 1e-7) sup = false;
                auto [res, x, y] = book.compare_rulebooks(other); using R = MomentRulebook::RulebookComparisonResult; auto want = sub ? (sup ? R::AEqualsB : R::AContainsB) : (sup ? R::BContainsA : R::Disjoint);
                vp::check(res == want, "comparison of rulebooks", VP_IN(h), VP_IN((int) res << " expected " << (int) want));
            }
        }
    });
    return vp::finish();
}
