// C10: symbol tables against a model (moment -> id).  Bound: random registration histories (<= 40 steps) in generic, anticommuting-algebraic,
// non-Hermitian-algebraic, locality, Pauli (plain, translation symmetric) and inflation (aliased) contexts.
#include "poly.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/inflation/inflation_context.h"
#include "utilities/dynamic_bitset.h"
#include "dictionary/operator_sequence_generator.h"
using namespace Moment;
using namespace vp;
namespace A = Moment::Algebraic;

struct Ctx { std::unique_ptr<Context> c; std::string name; };
static Ctx make_ctx(Rng& r) {
    switch (r(8)) {
        case 0: case 1: { size_t n = 1 + r(4); return {std::make_unique<Context>(n), "Context(" + str(n) + ")"}; }
        case 2: { // some pairs anticommute, some commute: complete rule set
            oper_name_t n = 2 + (oper_name_t) r(3); A::AlgebraicPrecontext pc{n}; std::vector<A::OperatorRule> rules; std::string d = "algebraic(" + str(n) + "):";
            for (oper_name_t b = 1; b < n; ++b) for (oper_name_t a = 0; a < b; ++a) { int k = (int) r(4); if (k == 3) continue;
                auto sg = k == 0 ? SequenceSignType::Positive : SequenceSignType::Negative; d += " " + str(b) + str(a) + (k ? "=-" : "=") + str(a) + str(b);
                rules.emplace_back(HashedSequence{{b, a}, pc.hasher}, HashedSequence{{a, b}, pc.hasher, sg}); }
            VP_AT("completing rules", d); auto c = std::make_unique<A::AlgebraicContext>(pc, false, true, rules); if (!c->attempt_completion(12)) return {std::make_unique<Context>(2), "Context(2)"};
            return {std::move(c), d}; }
        case 3: { oper_name_t n = 1 + (oper_name_t) r(2); auto m = r.coin() ? A::AlgebraicPrecontext::ConjugateMode::Bunched : A::AlgebraicPrecontext::ConjugateMode::Interleaved;
            A::AlgebraicPrecontext pc{n, m}; auto c = std::make_unique<A::AlgebraicContext>(pc, false, false); return {std::move(c), "algebraic non-Hermitian(" + str(n) + ")"}; }
        case 4: { size_t p = 1 + r(2), m = 1 + r(2), o = 2 + r(2); return {std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(p, m, o)), "locality " + str(p) + " " + str(m) + " " + str(o)}; }
        case 5: { size_t q = 1 + r(4); return {std::make_unique<Pauli::PauliContext>(q), "pauli " + str(q)}; }
        case 6: { size_t q = 2 + r(4); return {std::make_unique<Pauli::PauliContext>(q, Pauli::WrapType::Wrap, Pauli::SymmetryType::Translational), "pauli translational " + str(q)}; }
        default: { size_t l = 1 + r(2); return {std::make_unique<Inflation::InflationContext>(Inflation::CausalNetwork{{2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}}, l), "triangle level " + str(l)}; }
    }
}

struct Model { std::map<hash_t, std::pair<symbol_name_t, bool>> ids; std::vector<std::optional<std::pair<hash_t, hash_t>>> syms; std::vector<std::array<bool, 2>> parts; };

static OperatorSequence canon(const Context& c, OperatorSequence s) {
    s.set_sign(SequenceSignType::Positive);
    if (c.can_have_aliases()) { auto x = c.simplify_as_moment(std::move(s)); x.set_sign(SequenceSignType::Positive); return x; }
    return s;
}
static std::string w2s(const OperatorSequence& s) { return s.zero() ? "0" : vp::list(s) + (s.get_sign() == SequenceSignType::Positive ? "" : "^" + str((int) s.get_sign())); }

/** everything that must be true of a table whatever its history */
static void invariants(const SymbolTable& t, const std::string& h) {
    auto in = VP_IN(h);
    vp::check(t.size() >= 2 && t[0].sequence().zero() && t[1].sequence().empty() && !t[1].sequence().zero() && t[0].is_hermitian() && t[0].is_antihermitian() && t[1].is_hermitian() && !t[1].is_antihermitian(), "0 is zero and 1 is identity", in, VP_IN(t.size()));
    std::set<symbol_name_t> re, im;
    for (size_t i = 0; i < t.size(); ++i) {
        const auto& s = t[i];
        vp::check(s.Id() == (symbol_name_t) i, "symbol ids are sequential", in, VP_IN(s.Id() << " at " << i));
        bool has_re = !s.is_antihermitian(), has_im = !s.is_hermitian();
        auto [rk, ik] = s.basis_key();
        vp::check((rk >= 0) == has_re && (ik >= 0) == has_im, "a symbol has a real (imaginary) basis element iff it is not anti-Hermitian (Hermitian)", in, VP_IN("symbol " << i << " re " << rk << " im " << ik << " herm " << s.is_hermitian() << " anti " << s.is_antihermitian()));
        vp::check(t.Basis((symbol_name_t) i) == std::pair(rk, ik), "basis lookup by id", in, VP_IN(i));
        if (rk >= 0) vp::check((size_t) rk < t.Basis.RealSymbolCount() && t.Basis.RealSymbols()[rk] == i && re.insert((symbol_name_t) rk).second && t.Basis.imaginary_from_real(rk) == ik, "real basis element maps back to its symbol", in, VP_IN("symbol " << i << " re " << rk));
        if (ik >= 0) vp::check((size_t) ik < t.Basis.ImaginarySymbolCount() && t.Basis.ImaginarySymbols()[ik] == i && im.insert((symbol_name_t) ik).second && t.Basis.real_from_imaginary(ik) == rk, "imaginary basis element maps back to its symbol", in, VP_IN("symbol " << i << " im " << ik));
        if (i > 1 && i + 1 < t.size() && rk >= 0) {}
    }
    vp::check(re.size() == t.Basis.RealSymbolCount() && im.size() == t.Basis.ImaginarySymbolCount() && t.Basis.imaginary_from_real(-1) == -1 && t.Basis.real_from_imaginary(-1) == -1, "every basis element belongs to one symbol", in, VP_IN(re.size() << " " << im.size()));
}

int main(int argc, char** argv) {
    vp::init(argc, argv);
    Rng rng{vp::seed + 10};
    vp::group("registration histories", [&] {
        for (int it = 0; it < (vp::thorough ? 6000 : 700); ++it) {
            Ctx cx = make_ctx(rng); const Context& ctx = *cx.c;
            SymbolTable t{ctx}; std::string h = cx.name; Model m;
            m.ids[0] = {0, false}; m.ids[1] = {1, false}; m.syms = {std::pair<hash_t, hash_t>{0, 0}, std::pair<hash_t, hash_t>{1, 1}};
            std::vector<OperatorSequence> words;
            std::set<symbol_name_t> imposed; std::map<symbol_name_t, std::array<bool, 2>> expect_flags; // id -> {hermitian, antihermitian}
            auto expect_register = [&](const OperatorSequence& w) -> symbol_name_t { // model of registering w
                auto c = canon(ctx, w); auto k = m.ids.find(c.hash()); if (k != m.ids.end()) return k->second.first;
                auto id = (symbol_name_t) m.syms.size(); auto cc = c.conjugate();
                m.ids[c.hash()] = {id, false}; m.ids.insert({cc.hash(), {id, true}});
                m.syms.push_back(std::pair<hash_t, hash_t>{c.hash(), cc.hash()});
                expect_flags[id] = {c == cc, c.hash() == cc.hash() && are_negatives(c.get_sign(), cc.get_sign())};
                return id; };
            auto look = [&](const OperatorSequence& w) { // look up w and its conjugate
                auto c = canon(ctx, w); auto k = m.ids.find(c.hash());
                auto in = VP_IN(h << " ; where " << w2s(w));
                auto r = t.where(w);
                if (k == m.ids.end()) { vp::check(!r.found(), "an unregistered word is not found", in, VP_IN("found " << (r.found() ? r->Id() : -1))); return; }
                auto id = k->second.first;
                if (!vp::check(r.found() && r->Id() == id, "a registered word is found under its id", in, VP_IN((r.found() ? r->Id() : -1) << " expected " << id))) return;
                const auto& s = t[id]; const auto& named = r.is_conjugated ? s.sequence_conj() : s.sequence();
                if (!imposed.contains(id)) vp::check(named.hash() == c.hash(), "conjugation flag names the word looked up", in, VP_IN("id " << id << " conj " << r.is_conjugated));
                if (c.hash() == w.hash()) { auto x = t.to_symbol(w); vp::check(x.id == id && x.conjugated == r.is_conjugated && x.factor == cd{1, 0}, "to_symbol agrees with where", in, VP_IN(mstr(x)));
                    auto [hi, hc] = t.hash_to_index(w.hash()); vp::check(hi == id && hc == r.is_conjugated, "hash_to_index agrees with where", in, VP_IN(hi << " " << hc)); }
            };
            size_t steps = 1 + rng(rng.coin() ? 6 : 25); size_t filled = 0;
            for (size_t st = 0; st < steps; ++st) {
                size_t before = t.size(); std::vector<std::pair<hash_t, bool>> old; for (auto& s : t) old.emplace_back(s.has_sequence() ? s.hash() : 0, s.has_sequence());
                int op = (int) rng(10);
                auto rword = [&]() -> OperatorSequence {
                    if (!words.empty() && rng(4) == 0) { auto& w = words[rng(words.size())]; return rng.coin() ? w.conjugate() : w; }
                    size_t n = rng(5); sequence_storage_t s; for (size_t i = 0; i < n; ++i) s.push_back((oper_name_t) rng(ctx.size()));
                    if (rng(15) == 0) return OperatorSequence::Zero(ctx);
                    return OperatorSequence(std::move(s), ctx, (SequenceSignType) rng(4)); };
                if (op <= 4) {
                    auto w = rword(); h += " ; merge " + w2s(w); VP_AT("merge word", h);
                    auto e = expect_register(w); words.push_back(w);
                    auto got = t.merge_in(OperatorSequence{w});
                    vp::check(got == e, "registering a word returns its id", VP_IN(h), VP_IN(got << " expected " << e));
                } else if (op == 5) {
                    bool a = rng(3), b = rng(3) || !a; size_t n = 1 + rng(3); h += " ; create " + str(n) + (a ? "r" : "") + (b ? "i" : ""); VP_AT("create", h);
                    auto e = (symbol_name_t) m.syms.size(); symbol_name_t got = n == 1 && rng.coin() ? t.create(a, b) : t.create(n, a, b);
                    vp::check(got == e && t.size() == before + n, "created symbols get the next ids", VP_IN(h), VP_IN(got << " " << t.size()));
                    for (size_t i = 0; i < n; ++i) { m.syms.push_back(std::nullopt); expect_flags[(symbol_name_t) (e + i)] = {!b, !a}; }
                } else if (op == 6) {
                    auto w = rword(); w = canon(ctx, w); auto c = w.conjugate(); h += " ; merge symbol " + w2s(w); VP_AT("merge symbol", h);
                    auto e = expect_register(w); words.push_back(w); size_t added = 0;
                    auto got = t.merge_in(Symbol{OperatorSequence{w}, OperatorSequence{c}}, &added);
                    vp::check(got == e && added == t.size() - before, "registering a symbol returns its id", VP_IN(h), VP_IN(got << " expected " << e));
                } else if (op == 7) {
                    std::vector<Symbol> v; std::set<symbol_name_t> es; h += " ; merge vector"; size_t n = rng(4);
                    for (size_t i = 0; i < n; ++i) { auto w = canon(ctx, rword()); auto c = w.conjugate(); es.insert(expect_register(w)); words.push_back(w); h += " " + w2s(w); v.emplace_back(OperatorSequence{w}, OperatorSequence{c}); }
                    VP_AT("merge vector", h); size_t added = 0;
                    auto got = t.merge_in(std::move(v), &added);
                    vp::check(got == es && added == t.size() - before, "registering symbols returns their ids", VP_IN(h), VP_IN(got.size() << " added " << added));
                } else if (op == 8 && ctx.size() <= 6) {
                    size_t len = 1 + rng(2); if (ctx.size() <= 3) len += rng(2);
                    h += " ; fill " + str(len); VP_AT("fill_to_word_length", h);
                    t.fill_to_word_length(len); filled = std::max(filled, len);
                    // the words of the dictionary, registered in an order the library may choose: take the ids over from the table, check everything else
                    std::map<symbol_name_t, int> news;
                    for (const auto& w : ctx.operator_sequence_generator(len)) {
                        auto c = canon(ctx, w); if (m.ids.contains(c.hash())) continue;
                        auto r = t.where(w); if (!vp::check(r.found(), "fill registers every word of the dictionary", VP_IN(h), VP_IN(w2s(w)))) continue;
                        auto id = r->Id(); auto cc = c.conjugate();
                        if (!vp::check((size_t) id >= before && t[id].has_sequence() && std::minmax<hash_t>(hash_t{t[id].hash()}, hash_t{t[id].hash_conj()}) == std::minmax<hash_t>(hash_t{c.hash()}, hash_t{cc.hash()}), "fill gives each moment a symbol of its own", VP_IN(h), VP_IN(w2s(w) << " id " << id))) continue;
                        m.ids[t[id].hash()] = {id, false}; m.ids.insert({t[id].hash_conj(), {id, true}});
                        news[id]++; expect_flags[id] = {c == cc, c.hash() == cc.hash() && are_negatives(c.get_sign(), cc.get_sign())}; words.push_back(w);
                    }
                    vp::check(news.size() == t.size() - before, "fill adds exactly the new moments", VP_IN(h), VP_IN(news.size() << " vs " << t.size() - before));
                    for (size_t i = before; i < t.size(); ++i) m.syms.push_back(t[i].has_sequence() ? std::optional(std::pair<hash_t, hash_t>(t[i].hash(), t[i].hash_conj())) : std::nullopt);
                } else if (op == 9 && rng(4) == 0) {
                    size_t n = t.size() + rng(3); DynamicBitset<uint64_t> re(n, true), im(n, true); h += " ; flags " + str(n); bool bad = false; bool change = false;
                    im.unset(1); re.unset(0); im.unset(0);
                    auto fl = expect_flags;
                    for (size_t i = 2; i < n; ++i) { auto& f = fl[(symbol_name_t) i]; if (i >= t.size()) f = {false, false};
                        bool r1 = !f[1], i1 = !f[0];
                        if (rng(4) == 0) { if (r1 && i1) { if (rng.coin()) r1 = false; else i1 = false; } else if (rng(10) == 0) { std::swap(r1, i1); } else if (rng(20) == 0) r1 = i1 = false; }
                        if (!r1) { re.unset(i); h += " " + str(i) + "noRe"; } if (!i1) { im.unset(i); h += " " + str(i) + "noIm"; }
                        if ((!r1 && !i1) || (r1 && !i1 && f[1]) || (!r1 && i1 && f[0])) bad = true;
                        else if ((r1 && !i1 && !f[0]) || (!r1 && i1 && !f[1])) { change = true; f = {!i1, !r1}; imposed.insert((symbol_name_t) i); } }
                    VP_AT("merge flags", h);
                    bool threw = false, got = false;
                    try { got = t.merge_in(re, im); } catch (const errors::zero_symbol&) { threw = true; }
                    vp::check(threw == bad, "a symbol without real and imaginary part is reported", VP_IN(h), VP_IN(threw << " expected " << bad));
                    if (threw) break;
                    vp::check(got == change && t.size() == n, "imposing real/imaginary reports changes and extends the table", VP_IN(h), VP_IN(got << " size " << t.size()));
                    expect_flags = fl; while (m.syms.size() < n) m.syms.push_back(std::nullopt);
                } else continue;
                VP_AT("after " + std::string("step"), h);
                // existing symbols unchanged
                for (size_t i = 0; i < before; ++i) vp::check(t[i].has_sequence() == old[i].second && (!old[i].second || t[i].hash() == old[i].first), "ids are never reassigned", VP_IN(h), VP_IN(i));
                vp::check(t.size() == m.syms.size(), "one symbol per moment", VP_IN(h), VP_IN(t.size() << " expected " << m.syms.size()));
                for (auto& [id, f] : expect_flags) if ((size_t) id < t.size()) vp::check(t[id].is_hermitian() == f[0] && t[id].is_antihermitian() == f[1], "a symbol is (anti-)Hermitian iff its word equals (minus) its conjugate", VP_IN(h), VP_IN("symbol " << id << (t[id].has_sequence() ? w2s(t[id].sequence()) : "") << ": " << t[id].is_hermitian() << t[id].is_antihermitian() << " expected " << f[0] << f[1]));
                invariants(t, h);
                if (st + 1 == steps || rng(4) == 0) for (int q = 0; q < 12; ++q) { auto w = rword(); look(w); look(w.conjugate()); }
                if (st + 1 == steps) for (auto& w : words) { look(w); look(w.conjugate()); }
            }
        }
    });
    return vp::finish();
}
