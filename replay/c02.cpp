// C02: signs.  Oracle: complex arithmetic on i^n.
#include "vp.h"
#include "scenarios/context.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/dictionary.h"
#include "dictionary/raw_polynomial.h"
using namespace Moment;
using S = SequenceSignType; using C = std::complex<double>;
static C val(int n) { switch (n & 3) { case 0: return {1,0}; case 1: return {0,1}; case 2: return {-1,0}; default: return {0,-1}; } }
static int n(S s) { return static_cast<int>(static_cast<uint8_t>(s)); }
int main(int argc, char** argv) {
    vp::init(argc, argv); vp::Rng rng{vp::seed};
    vp::group("sign functions", [&] {
        for (int a = 0; a < 4; ++a) {
            auto in = VP_IN("sign i^" << a); S s = (S) a;
            vp::check(n(negate(s)) < 4 && val(n(negate(s))) == -val(a), "negate", in, VP_IN(n(negate(s))));
            vp::check(n(conjugate(s)) < 4 && val(n(conjugate(s))) == std::conj(val(a)), "conjugate", in, VP_IN(n(conjugate(s))));
            vp::check(is_negative(s) == (val(a).real() < 0 || val(a).imag() < 0), "is_negative", in, VP_IN(is_negative(s)));
            vp::check(is_imaginary(s) == (val(a).imag() != 0), "is_imaginary", in, VP_IN(is_imaginary(s)));
            vp::check(to_scalar(s) == val(a), "to_scalar", in, VP_IN(to_scalar(s)));
            for (int b = 0; b < 4; ++b) {
                auto in2 = VP_IN("signs i^" << a << " i^" << b); S t = (S) b;
                vp::check(n(s * t) < 4 && val(n(s * t)) == val(a) * val(b), "product", in2, VP_IN(n(s * t)));
                vp::check(n(difference(s, t)) < 4 && val(a) * val(n(difference(s, t))) == val(b), "difference", in2, VP_IN(n(difference(s, t))));
                vp::check(are_negatives(s, t) == (val(a) == -val(b)), "are_negatives", in2, VP_IN(are_negatives(s, t)));
            }
        }
    });
    vp::group("signed words", [&] {
        for (size_t ops = 1; ops <= 3; ++ops) {
            Context ctx{ops};
            std::vector<std::vector<oper_name_t>> words{{}};
            for (size_t i = 0; i < words.size(); ++i) if (words[i].size() < 3) for (size_t o = 0; o < ops; ++o) { auto w = words[i]; w.push_back((oper_name_t) o); words.push_back(w); }
            auto mk = [&](const auto& w, int s) { return OperatorSequence{sequence_storage_t(w.begin(), w.end()), ctx, (S) s}; };
            for (const auto& w : words) for (int a = 0; a < 4; ++a) {
                auto x = mk(w, a); auto in = VP_IN("i^" << a << vp::list(w));
                VP_AT("signed words", "i^" << a << vp::list(w));
                vp::check(x.get_sign() == (S) a && x.negated() == (a >= 2) && x.imaginary() == (a & 1), "word sign predicates", in, VP_IN(n(x.get_sign())));
                auto ng = -x; vp::check(n(ng.get_sign()) == ((a + 2) & 3) && ng.hash() == x.hash() && std::equal(ng.begin(), ng.end(), x.begin(), x.end()), "unary minus of word", in, VP_IN(ng));
                auto ng2 = -OperatorSequence{x}; vp::check(ng2 == ng, "unary minus of temporary word", in, VP_IN(ng2));
                auto cj = x.conjugate(); vp::check(val(n(cj.get_sign())) == std::conj(val(a)), "conjugate of word conjugates sign", in, VP_IN(cj));
                vp::check(cj.conjugate() == x, "double conjugate of word", in, VP_IN(cj.conjugate()));
                // hermitian type
                bool pal = std::equal(w.begin(), w.end(), w.rbegin()); 
                auto ht = x.hermitian_type();
                HermitianType want = !pal ? HermitianType::NotHermitian : ((a & 1) ? HermitianType::AntiHermitian : HermitianType::Hermitian);
                vp::check(ht == want, "hermitian type of word", in, VP_IN((int) ht << " expected " << (int) want));
                RawPolynomialElement el{x, C{2.0, 3.0}};
                vp::check(el.weight == C{2.0, 3.0} * val(a) && el.sequence.get_sign() == S::Positive && el.sequence.hash() == x.hash(), "sign moved into weight", in, VP_IN(el.weight));
                for (const auto& v : words) {
                    if (v.size() + w.size() > 4) continue;
                    for (int b = 0; b < 4; ++b) {
                        auto y = mk(v, b); auto in2 = VP_IN("i^" << a << vp::list(w) << " , i^" << b << vp::list(v));
                        auto p = x * y; std::vector<oper_name_t> wv(w); wv.insert(wv.end(), v.begin(), v.end());
                        vp::check(n(p.get_sign()) == ((a + b) & 3) && std::equal(p.begin(), p.end(), wv.begin(), wv.end()), "product of words", in2, VP_IN(p));
                        vp::check((x == y) == (w == v && a == b) && (x != y) == !(w == v && a == b), "equality of words", in2, VP_IN((x == y)));
                        int e = w == v ? (a == b ? 1 : (((a + 2) & 3) == b ? -1 : 0)) : 0;
                        vp::check(HashedSequence::compare_same_negation(x, y) == e, "compare up to negation", in2, VP_IN(HashedSequence::compare_same_negation(x, y) << " expected " << e));
                        if (v.size() == w.size()) vp::check((x < y) == (w < v), "ordering ignores sign", in2, VP_IN((x < y)));
                    }
                }
            }
            auto z = ctx.zero(); auto in = VP_IN("zero");
            vp::check((-z).zero() && (-z).get_sign() == S::Positive && (-ctx.zero()).zero(), "minus zero", in, VP_IN(-z));
            for (int a = 0; a < 4; ++a) { auto x = mk(std::vector<oper_name_t>{0}, a); vp::check((x * z).zero() && (z * x).zero() && (x * z) == z && (z * x) == z, "product with zero", in, VP_IN(x * z)); }
            vp::check(z.conjugate() == z && z.hermitian_type() == HermitianType::Zero, "conjugate of zero", in, VP_IN(z.conjugate()));
            for (int a = 0; a < 4; ++a) { auto i = ctx.identity((S) a); vp::check(i.get_sign() == (S) a && i.empty() && !i.zero() && i == OperatorSequence::Identity(ctx, (S) a), "signed identity", in, VP_IN(i)); }
        }
    });
    return vp::finish();
}
