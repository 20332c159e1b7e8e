"""C03: pattern search in words."""
from words import *

def text(e, st):
    n = e.arg("t_n", 64, 0, 1 << 40); dp, a = e.array(st, "text", n, I16, (0, MAXOP))
    b = e.arg("t_b", 64, 0, 1 << 40); st.assume(e.z(b) <= e.z(n))
    return dp + b * 2, dp + n * 2, a, e.z(b), e.z(n), dp

def match_at(pa, pn, ta, t):
    i = z3.Int("mi")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < pn), pa[i] == ta[t + i]))

@unit("C03", "matches", tu="hashed", fn="Moment::HashedSequence::matches")
def _(e):
    st = e.state(); p, _, pa, pn, _, _ = word_obj(e, st, "pat"); tb, te, ta, b, n, _ = text(e, st); pn = e.z(pn)
    e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_matches", [p, tb, te])):
        v = e.b(v)
        e.prove(s, z3.Implies(v, z3.And(b + pn <= n, match_at(pa, pn, ta, b))), "a reported match is real")
        e.prove(s, z3.Implies(z3.Not(v), z3.Not(z3.And(b + pn <= n, match_at(pa, pn, ta, b)))), "a real match is reported")

def absent(e, st, name, cond_len, A, ia, B, ib, ln):
    """definition of the predicate name(x): x is not a fit: not cond_len(x), or A and B differ at some i < ln(x)"""
    N = z3.Function(name, z3.IntSort(), z3.BoolSort()); w = z3.Function(name + "_w", z3.IntSort(), z3.IntSort())
    x, i = z3.Ints("ax ai")
    st.assume(z3.ForAll([x], z3.Implies(z3.Not(cond_len(x)), N(x)), patterns=[N(x)]))
    st.assume(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < ln(x), A[ia(x, i)] != B[ib(x, i)]), N(x)), patterns=[z3.MultiPattern(N(x), B[ib(x, i)]) if ib(x, i).eq(i) else z3.MultiPattern(N(x), A[ia(x, i)])]))
    st.assume(z3.ForAll([x], z3.Implies(N(x), z3.Or(z3.Not(cond_len(x)), z3.And(0 <= w(x), w(x) < ln(x), A[ia(x, w(x))] != B[ib(x, w(x))]))), patterns=[N(x)]))
    return N

@unit("C03", "matches_anywhere", tu="hashed", fn="Moment::HashedSequence::matches_anywhere, matches")
def _(e):
    st = e.state(); p, _, pa, pn, _, _ = word_obj(e, st, "pat"); tb, te, ta, b, n, dp = text(e, st); pn = e.z(pn)
    NM = absent(e, st, "NM", lambda t: t + pn <= n, pa, lambda t, i: i, ta, lambda t, i: t + i, lambda t: pn)
    e.cover(st, "pre")
    j = z3.Int("mj")
    e.loop_templates.append(lambda v: [("no match before", z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + v.k), NM(j)), patterns=[NM(j)]))])
    for s, v in e.check_outs(e.call_function(st, "vp_anywhere", [p, tb, te])):
        pos = e.z(e.exact_div(v.off, 2))
        assert v.r == dp.r
        e.prove(s, z3.And(b <= pos, pos <= n), "result lies in the text")
        e.prove(s, z3.Implies(pos < n, z3.And(pos + pn <= n, match_at(pa, pn, ta, pos))), "reported occurrence is real")
        t = z3.Int("tt"); s2 = s.copy(); s2.assume(z3.And(b <= t, t < pos, t < n))
        e.prove(s2, NM(t), "no earlier occurrence")

@unit("C03", "suffix_prefix_overlap", tu="hashed", fn="Moment::HashedSequence::suffix_prefix_overlap")
def _(e):
    st = e.state(); p, _, pa, pn, _, _ = word_obj(e, st, "lhs"); q, _, qa, qn, _, _ = word_obj(e, st, "rhs"); pn = e.z(pn); qn = e.z(qn)
    mn = z3.If(pn < qn, pn, qn)
    NO = absent(e, st, "NO", lambda m: z3.And(m <= mn), pa, lambda m, i: pn - m + i, qa, lambda m, i: i, lambda m: m)
    e.cover(st, "pre")
    m = z3.Int("mj")
    e.loop_templates.append(lambda v: [("no longer overlap", z3.ForAll([m], z3.Implies(z3.And(m > mn - v.k, m <= mn), NO(m)), patterns=[NO(m)]))])
    def ov(m):
        i = z3.Int("oi"); return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), pa[pn - m + i] == qa[i]))
    for s, v in e.check_outs(e.call_function(st, "vp_overlap", [p, q])):
        v = e.z(e.as_s(s, v, 64))
        e.prove(s, z3.And(0 <= v, v <= pn, v <= qn), "overlap length within both words")
        e.prove(s, ov(v), "reported overlap is real")
        m = z3.Int("mm"); s2 = s.copy(); s2.assume(z3.And(m > v, m <= pn, m <= qn))
        e.prove(s2, NO(m), "no longer overlap exists")

def two(e, st): 
    a = word_obj(e, st, "a"); b = word_obj(e, st, "b"); return a, b
