"""C12: operator rules."""
from words import *
TU = "oprule"; FN = "Moment::Algebraic::OperatorRule::"
ERR = (r"basic_string<.*>::basic_string<", r"errors::bad_hint::bad_hint", "errors::invalid_rule::invalid_rule"); HSM = (r"HashedSequence::HashedSequence\(Moment::HashedSequence&&\)",)
u64 = lambda e, s, p, o: e.z(e.as_u(s, e.get(s, p, o, "i64"), 64)); u8 = lambda e, s, p, o: e.z(e.as_u(s, e.get(s, p, o, "i8"), 8))

def word_in(e, st, p, off, name, n=None):
    """a word inside another object"""
    C = lambda o: e.const("vp_off_" + o); n = e.arg(name + "_n", 64, 0, 1 << 40); d, a = e.array(st, name + "_data", n, I16, (0, MAXOP)); q = p + off; o = C("hs_ops")
    h = e.put(st, q, C("hs_hash"), "i64", e.arg(name + "_hash", 64)); sg = e.put(st, q, C("hs_sign"), "i8", e.arg(name + "_sign", 8, 0, 3)); e.put(st, q, o + C("sv_size"), "i64", n); e.put(st, q, o + C("sv_data"), "ptr", d); e.put(st, q, o + C("sv_cap"), "i64", n)
    return e.z(n), a, e.z(h), e.z(sg), d

@unit("C12", "replacing a match", tu=TU, noinline=WV + ERR, fn=FN + "apply_match_with_hint")
def _(e):
    """the word with the pattern at the given place replaced by the right-hand side, everything before and after kept; empty if the rule gives zero"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); r = e.obj(st, "rule", e.const("vp_size_rule")); ln, la, lh, ls, _ = word_in(e, st, r, C("r_lhs"), "lhs"); rn, ra, rh, rs, rd = word_in(e, st, r, C("r_rhs"), "rhs")
    dl = e.arg("delta", 64, -(1 << 41), 1 << 41); st.assume(e.z(dl) == rn - ln); e.put(st, r, C("r_delta"), "i64", dl); z = e.z(e.put(st, r, C("r_zero"), "i8", e.arg("zero", 8, 0, 1)))
    inp = e.obj(st, "input", e.const("vp_size_sv")); nl = e.arg("in_n", 64, 0, 1 << 40); n = e.z(nl); d, a = e.array(st, "input_data", nl, I16, (0, MAXOP)); e.put(st, inp, C("sv_size"), "i64", nl); e.put(st, inp, C("sv_data"), "ptr", d)
    atl = e.arg("at", 64, 0, 1 << 40); at = e.z(atl); st.assume(at + ln <= n); W = WordVec(e); out = e.obj(st, "out", e.const("vp_size_sv")); i = z3.Int("oi"); e.cover(st, "pre")
    bad = lambda e, s, args, I: (e.prove(s, z3.BoolVal(False), "a hint at which the pattern fits is not rejected", "call"), [])[1]
    e.contract_rx.append((re.compile("bad_hint::bad_hint"), Contract("bad_hint", bad)))
    def tpl(v):
        res = []
        for x in v.vars:
            if isinstance(x["ty"], PtrTy) and x["term"].r in (d.r, rd.r):
                p = e.z(e.exact_div(x["term"].off, 2)); rhs = x["term"].r == rd.r
                for q in v.vars:
                    if q["key"][0] == "c" and isinstance(q["ty"], IntTy) and q["ty"].w == 64: res += [("length", z3.Or(e.z(q["term"]) == (p + at if rhs else p), e.z(q["term"]) == p + rn - ln))] + [("length (before)", e.z(q["term"]) == (p + at if rhs else p)), ("length (after)", e.z(q["term"]) == p + rn - ln)]
                for A in v.arrays:
                    b = A["term"]; res += [("start", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < (at if rhs else p)), b[i] == a[i]), patterns=[b[i]])), ("start kept", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < at), b[i] == a[i]), patterns=[b[i]])),
                        ("replacement so far", z3.ForAll([i], z3.Implies(z3.And(at <= i, i < at + (p if rhs else rn)), b[i] == ra[i - at]), patterns=[b[i]])), ("rest so far", z3.ForAll([i], z3.Implies(z3.And(at + rn <= i, i < p + rn - ln), b[i] == a[i - rn + ln]), patterns=[b[i]]))]
                res += [("range", z3.And(0 <= p, p <= (rn if rhs else n))), ("range to the match", p <= at), ("range from the match", p >= at + ln)]
        return res
    e.loop_templates.append(tpl); e.auto = False
    for s, _ in e.check_outs(e.call_function(st, "vp_apply", [out, r, inp, atl])):
        m, b, _d = W.view(s, out); e.prove(s, m == z3.If(z == 1, 0, n + rn - ln), "length: one pattern replaced by one right-hand side"); s.assume(z3.And(z == 0, 0 <= i, i < m))
        for c, val, nm in ((i < at, a[i], "before the match unchanged"), (z3.And(i >= at, i < at + rn), ra[i - at], "right-hand side in place of the match"), (i >= at + rn, a[i - rn + ln], "after the match unchanged")):
            s1 = s.copy(); s1.assume(c)
            if e.feasible(s1): e.prove(s1, b[i] == val, nm)

@unit("C12", "orienting a rule", tu=TU, noinline=WV + ERR + HSM, fn=FN + "OperatorRule(HashedSequence, HashedSequence)")
def _(e):
    """lhs = rhs with signs becomes (+1) lhs -> (sign of rhs over sign of lhs) rhs; words move unchanged; the shorter side must not be on the left"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); A = e.obj(st, "a", e.const("vp_size_hs")); B = e.obj(st, "b", e.const("vp_size_hs")); an, aa, ah, asg, ad = word_in(e, st, A, 0, "a"); bn, ba, bh, bsg, bd = word_in(e, st, B, 0, "b"); W = WordVec(e)
    def move(e, s, args, I):
        p, q = args[:2]; e.put(s, p, C("hs_hash"), "i64", e.get(s, q, C("hs_hash"), "i64")); e.put(s, p, C("hs_sign"), "i8", e.get(s, q, C("hs_sign"), "i8")); return W.move(e, s, [p + C("hs_ops"), q + C("hs_ops")], I)
    e.contract_rx.append((re.compile(HSM[0]), Contract("HashedSequence(&&)", move)))
    def bad(e, s, args, I): e.prove(s, ah < bh, "rejected only if the right-hand side exceeds the left", "call"); return []
    e.contract_rx.append((re.compile(ERR[0]), Contract("invalid_rule", bad))); o = e.obj(st, "rule", e.const("vp_size_rule")); e.cover(st, "pre")
    outs = e.call_function(st, "vp_rule", [o, A, B])
    for s, k, _ in outs:
        if k == "throw": bad(e, s, None, None)
    for s, _ in e.check_outs(outs, no_throw=False):
        e.prove(s, ah >= bh, "accepted only if the right-hand side does not exceed the left"); l, r = o + C("r_lhs"), o + C("r_rhs"); want = z3.If(bh == 0, 0, (4 + bsg - asg) % 4)
        e.prove(s, z3.And(u64(e, s, l, C("hs_hash")) == ah, u64(e, s, r, C("hs_hash")) == bh), "hashes kept"); e.prove(s, z3.And(u8(e, s, l, C("hs_sign")) == 0, u8(e, s, r, C("hs_sign")) == want), "sign moved to the right-hand side; none on zero")
        (m1, _x, d1), (m2, _y, d2) = W.view(s, l + C("hs_ops")), W.view(s, r + C("hs_ops")); e.prove(s, z3.And(m1 == an, m2 == bn), "words kept"); e.prove(s, z3.BoolVal(d1.r == ad.r and d2.r == bd.r), "operators kept")
        e.prove(s, u8(e, s, o, C("r_zero")) == z3.If(bh == 0, 1, 0), "rule to zero recognised"); e.prove(s, u8(e, s, o, C("r_triv")) == z3.If(z3.And(ah == bh, z3.Or(ah == 0, want == 0)), 1, 0), "trivial exactly if both sides are the same word with the same sign")
        e.prove(s, e.z(e.as_s(s, e.get(s, o, C("r_delta"), "i64"), 64)) == bn - an, "change of length")
