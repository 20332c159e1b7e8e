// C15: locality scenarios against the definition: words grouped by party, repeats merged, zero when two outcomes of one measurement meet.
// Bound: random scenarios of up to 5 parties, 4 measurements each, 1..5 outcomes; words up to length 12; dictionaries up to length 4.
#include "vp.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/locality_osg.h"
#include "scenarios/locality/party.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/dictionary.h"
#include <set>
using namespace Moment; using namespace Moment::Locality;
using vp::Rng; using vp::str; using vp::list; using W = std::vector<oper_name_t>;
struct Op { size_t party, mmt, outcome, gmmt; };
struct Sc { std::unique_ptr<LocalityContext> c; std::vector<std::vector<size_t>> out; std::vector<Op> ops; std::string d; };
static Sc make(Rng& r, size_t maxp = 5, size_t maxm = 4, size_t maxo = 5) {
    Sc s; size_t np = r(12) == 0 ? 0 : 1 + r(maxp); int how = (int) r(3);
    if (how == 0) { size_t m = r(maxm + 1), o = 1 + r(maxo); s.out.assign(np, std::vector<size_t>(m, o)); s.c = std::make_unique<LocalityContext>(Party::MakeList((party_name_t) np, (mmt_name_t) m, (oper_name_t) o)); }
    else {
        std::vector<size_t> mm, oo; for (size_t p = 0; p < np; ++p) { std::vector<size_t> v; size_t m = r(maxm + 1); for (size_t i = 0; i < m; ++i) { v.push_back(1 + r(maxo)); oo.push_back(v.back()); } mm.push_back(m); s.out.push_back(v); }
        if (how == 1) s.c = std::make_unique<LocalityContext>(Party::MakeList(mm, oo));
        else { std::vector<Party> l; for (size_t p = 0; p < np; ++p) { std::vector<Measurement> ms; for (size_t m = 0; m < s.out[p].size(); ++m) ms.emplace_back("m" + str(m), (oper_name_t) s.out[p][m]); l.emplace_back((party_name_t) p, std::move(ms)); } s.c = std::make_unique<LocalityContext>(std::move(l)); } }
    size_t g = 0; for (size_t p = 0; p < np; ++p) for (size_t m = 0; m < s.out[p].size(); ++m) { for (size_t o = 0; o + 1 < s.out[p][m]; ++o) s.ops.push_back({p, m, o, g}); ++g; }
    s.d = "outcomes "; for (auto& v : s.out) s.d += list(v); return s; }
/** the word's canonical form; false: zero */
static bool canon(const Sc& s, const W& w, W& out) {
    out.clear();
    for (size_t p = 0; p < s.out.size(); ++p) for (auto o : w) if (s.ops[o].party == p && (out.empty() || out.back() != o)) out.push_back(o);
    for (size_t i = 0; i + 1 < out.size(); ++i) if (s.ops[out[i]].gmmt == s.ops[out[i + 1]].gmmt && s.ops[out[i]].party == s.ops[out[i + 1]].party) { out.clear(); return false; }
    return true; }
static W rw(Rng& r, const Sc& s, size_t maxlen) { W w; if (s.ops.empty()) return w; size_t n = r(maxlen + 1); while (w.size() < n) { if (!w.empty() && r(3) == 0) w.push_back(w[r(w.size())]); else w.push_back((oper_name_t) r(s.ops.size())); } return w; }
static W of(const OperatorSequence& x) { return W(x.begin(), x.end()); }
static bool same(const OperatorSequence& x, bool nz, const W& w, const Context& c) { return x.zero() == !nz && of(x) == w && x.hash() == (nz ? c.hash(sequence_storage_t(w.begin(), w.end())) : 0) && x.get_sign() == SequenceSignType::Positive; }

int main(int argc, char** argv) {
    vp::init(argc, argv); vp::limit_s = 25; Rng rng{vp::seed + 15}; const int N = vp::thorough ? 60 : 6;
    vp::group("numbering", [&] {
        for (int it = 0; it < 100 * N; ++it) { auto s = make(rng); auto& c = *s.c; VP_AT("numbering", s.d);
            size_t g = 0, op = 0; std::vector<size_t> all, perparty, pop, mpp;
            VP_CHECK(c.size() == s.ops.size() && c.Parties.size() == s.out.size(), "one operator per explicit outcome", s.d, c.size() << " operators");
            for (size_t p = 0; p < s.out.size(); ++p) { auto& party = c.Parties[p]; size_t first = op, tot = 0; mpp.push_back(s.out[p].size());
                VP_CHECK(party.id() == (party_name_t) p && party.Measurements.size() == s.out[p].size(), "parties and their measurements are as given", s.d, "party " << p);
                for (size_t m = 0; m < s.out[p].size(); ++m, ++g) { auto& mm = party.Measurements[m]; all.push_back(s.out[p][m]); tot += s.out[p][m];
                    VP_CHECK((size_t) mm.num_outcomes == s.out[p][m] && (size_t) mm.num_operators() + 1 == s.out[p][m] && mm.Index().party == (party_name_t) p && mm.Index().mmt == (mmt_name_t) m && mm.Index().global_mmt == g, "measurements know their own index", s.d, p << "," << m);
                    auto pm = c.global_index_to_PM(g); VP_CHECK(pm.party == (party_name_t) p && pm.mmt == (mmt_name_t) m && pm.global_mmt == g, "global measurement index to party and measurement", s.d, g << " -> " << pm.party << "," << pm.mmt);
                    VP_CHECK(c.get_global_mmt_index((party_name_t) p, (mmt_name_t) m) == g && c.get_global_mmt_index(PMOIndex{(party_name_t) p, (mmt_name_t) m, 0}) == g, "party and measurement to global measurement index", s.d, p << "," << m);
                    std::vector<PMIndex> one{PMIndex{(party_name_t) p, (mmt_name_t) m}}; auto gi = c.PM_to_global_index(one); c.populate_global_mmt_index(one);
                    VP_CHECK(gi.size() == 1 && gi[0] == g && one[0].global_mmt == g && PMIndex(c, (party_name_t) p, (mmt_name_t) m).global_mmt == g, "party and measurement to global measurement index", s.d, p << "," << m);
                    VP_CHECK(c.outcomes_per_measurement(one) == std::vector<size_t>{s.out[p][m]}, "outcomes of a measurement", s.d, p << "," << m);
                    for (size_t o = 0; o + 1 < s.out[p][m]; ++o, ++op) {
                        VP_CHECK(party.measurement_outcome(m, o) == (oper_name_t) op && party[op - first] == (oper_name_t) op && &c.associated_party((oper_name_t) op) == &party && &party.measurement_of((oper_name_t) op) == &mm, "outcomes number their operators, and back", s.d, p << "," << m << "," << o);
                        for (size_t q = first; q < first + party.size(); ++q) VP_CHECK(party.mutually_exclusive((oper_name_t) op, (oper_name_t) q) == (op != q && s.ops[op].gmmt == s.ops[q].gmmt), "different outcomes of one measurement exclude each other, nothing else does", s.d, op << " and " << q); }
                    bool threw = false; try { (void) party.measurement_outcome(m, s.out[p][m] - 1); } catch (const std::range_error&) { threw = true; } VP_CHECK(threw, "the implicit outcome has no operator", s.d, p << "," << m); }
                VP_CHECK(party.size() == op - first && party.global_offset() == (oper_name_t) first && std::equal(party.begin(), party.end(), party.operators().begin(), party.operators().end()) && (size_t) (party.end() - party.begin()) == party.size(), "operators of a party", s.d, "party " << p); pop.push_back(op - first); perparty.push_back(tot); }
            VP_CHECK(c.outcomes_per_measurement() == all && c.outcomes_per_party() == perparty && c.operators_per_party() == pop && c.measurements_per_party() == mpp && c.measurement_count() == g, "totals per measurement and party", s.d, "totals"); } });
    vp::group("simplification", [&] {
        for (int it = 0; it < 400 * N; ++it) { auto s = make(rng); auto& c = *s.c; size_t L = std::min<size_t>(12, c.the_hasher().longest_hashable_string());
            for (int k = 0; k < 6; ++k) { W w = rw(rng, s, L), want; bool nz = canon(s, w, want); VP_AT("simplification", s.d << " word " << list(w));
                OperatorSequence x{sequence_storage_t(w.begin(), w.end()), c}; VP_CHECK(same(x, nz, want, c), "a word simplifies to its canonical form or to zero", s.d << " word " << list(w), "got " << (x.zero() ? "0" : list(of(x))) << " not " << (nz ? list(want) : "0"));
                sequence_storage_t raw(w.begin(), w.end()); SequenceSignType sg = SequenceSignType::Positive; bool z = c.additional_simplification(raw, sg); VP_CHECK(z == !nz && W(raw.begin(), raw.end()) == want && sg == SequenceSignType::Positive, "additional_simplification gives the canonical form", s.d << " word " << list(w), "zero " << z << " " << list(W(raw.begin(), raw.end())));
                if (nz) { sequence_storage_t again(want.begin(), want.end()); VP_CHECK(!c.additional_simplification(again, sg) && W(again.begin(), again.end()) == want, "a canonical word is left as it is", s.d << " word " << list(want), list(W(again.begin(), again.end()))); }
                // the same element, written otherwise
                W v = w; for (int m = 0; m < 6 && !v.empty(); ++m) { size_t i = rng(v.size()); if (rng.coin() && v.size() < L) v.insert(v.begin() + (long) i, v[i]); else if (i + 1 < v.size() && s.ops[v[i]].party != s.ops[v[i + 1]].party) std::swap(v[i], v[i + 1]); }
                OperatorSequence y{sequence_storage_t(v.begin(), v.end()), c}; VP_CHECK(x == y && x.hash() == y.hash(), "equal words have one canonical form", s.d << " words " << list(w) << " and " << list(v), (y.zero() ? "0" : list(of(y))));
                W u = rw(rng, s, L / 2), pw; W a = rw(rng, s, L / 2); W cat = a; cat.insert(cat.end(), u.begin(), u.end()); bool pz = canon(s, cat, pw);
                auto pr = OperatorSequence{sequence_storage_t(a.begin(), a.end()), c} * OperatorSequence{sequence_storage_t(u.begin(), u.end()), c}; VP_CHECK(same(pr, pz, pw, c), "a product is the canonical form of the words side by side", s.d << " " << list(a) << " * " << list(u), "got " << (pr.zero() ? "0" : list(of(pr))));
                W rev(w.rbegin(), w.rend()), cw; bool cz = canon(s, rev, cw); VP_CHECK(same(x.conjugate(), cz, cw, c), "the conjugate is the canonical form of the reversed word", s.d << " word " << list(w), list(of(x.conjugate()))); } } });
    vp::group("dictionary", [&] {
        for (int it = 0; it < 10 * N; ++it) { auto s = make(rng, 4, 3, 3); auto& c = *s.c; size_t wl = rng(5); size_t b = 1; for (size_t i = 0; i < wl; ++i) b *= std::max<size_t>(1, s.ops.size()); while (b > 20000) { b /= s.ops.size(); --wl; }
            if (c.the_hasher().longest_hashable_string() < wl) continue; VP_AT("dictionary", s.d << " length " << wl);
            std::set<W> want; std::vector<W> lvl{W{}}; for (size_t l = 0; l <= wl; ++l) { std::vector<W> next; for (auto& w : lvl) { W o; if (canon(s, w, o) && o == w) want.insert(w); if (l < wl) for (size_t k = 0; k < s.ops.size(); ++k) { W v = w; v.push_back((oper_name_t) k); next.push_back(v); } } lvl = next; }
            LocalityOperatorSequenceGenerator osg{c, wl}; std::set<W> got; size_t n = 0, last = 0; bool hashes = true, order = true; for (auto& x : osg) { ++n; got.insert(of(x)); hashes = hashes && same(x, true, of(x), c); order = order && x.size() >= last; last = x.size(); }
            VP_CHECK(got == want && n == want.size(), "the dictionary lists every canonical word up to the length exactly once", s.d << " length " << wl, n << " listed, " << got.size() << " different, " << want.size() << " exist");
            VP_CHECK(hashes && order, "listed words carry their hashes, shorter ones first", s.d << " length " << wl, "order " << order);
            auto& lev = c.operator_sequence_generator(wl); VP_CHECK(lev.size() == want.size(), "the context's own generator lists as many", s.d << " length " << wl, lev.size()); } });
    return vp::finish();
}
