"""C11: moment rules."""
from polys import *
TU = "rules"; FN = "Moment::MomentRule::"

def rule(e, st, lo=0):
    """a rule lhs -> rhs, as an object with its right-hand side polynomial"""
    C = lambda o: e.const("vp_off_" + o); p = Poly(e, st, "rhs", lo)
    # the rule object contains the polynomial: same vector, inside the rule
    r = e.obj(st, "rule", e.const("vp_size_rule")); o = C("rule_rhs")
    e.put(st, r, o + C("sv_size"), "i64", p.nl); e.put(st, r, o + C("sv_data"), "ptr", p.d); e.put(st, r, o + C("sv_cap"), "i64", p.nl)
    lhs = e.arg("lhs", 32, 0, MAXID); e.put(st, r, C("rule_lhs"), "i32", lhs)
    return r, p, e.z(lhs)

@unit("C11", "classification", tu=TU, noinline=("approximately_same_norm",), fn=FN + "get_difficulty")
def _(e):
    st = e.state(); p = Poly(e, st, "p"); a = p.a; n = p.n; tol = e.real("tol"); R = z3.RealSort(); SN = z3.Function("SAMENORM", R, R, R, R, R, z3.BoolSort())
    def sn(e, s, args, I):
        f = [e.get(s, x, o, "f64") for x in args[:2] for o in (0, 8)] if len(args) == 3 else list(args[:4]); return [(s, SN(*f, args[-1]))]
    e.contract_rx.append((re.compile("approximately_same_norm"), Contract("approximately_same_norm", sn))); e.cover(st, "pre")
    D = lambda w: e.const("vp_d_" + w); l = n - 1; k = n - 2
    want = z3.If(n == 0, D("trivial"), z3.If(a.id[l] == 1, D("contra"), z3.If(z3.Or(n == 1, a.id[l] != a.id[k]), D("simple"), z3.If(SN(a.re[l], a.im[l], a.re[k], a.im[k], tol), D("non"), D("re")))))
    for s, v in e.check_outs(e.call_function(st, "vp_difficulty", [p.p, tol])):
        e.prove(s, e.z(e.as_u(s, v, 32)) == want, "0 = 0 trivial, 1 = 0 contradiction, X and X* of the same norm not orientable, otherwise orientable")

@unit("C11", "matches", tu=TU, fn=FN + "matches")
def _(e):
    st = e.state(); r, rhs, lhs = rule(e, st); p = Poly(e, st, "p"); e.cover(st, "pre"); i = z3.Int("mi"); a = p.a
    none = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), a.id[i] != lhs), patterns=[a.id[i]])
    def tpl(v): return [("no match so far", none(x)) for x in ptrs(e, v, p.r, 24)] + [("range", z3.And(0 <= x, x <= p.n)) for x in ptrs(e, v, p.r, 24)]
    e.loop_templates.append(tpl); e.auto = False
    for s, v in e.check_outs(e.call_function(st, "vp_matches", [r, p.p])): e.prove(s, e.b(v) == z3.Not(none(p.n)), "true exactly if some term has the symbol of the rule")

@unit("C11", "match_info", tu=TU, fn=FN + "match_info")
def _(e):
    st = e.state(); r, rhs, lhs = rule(e, st); p = Poly(e, st, "p"); e.cover(st, "pre"); i = z3.Int("mi"); a = p.a; o = e.obj(st, "out", 16)
    none = lambda k: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), a.id[i] != lhs), patterns=[a.id[i]])
    def tpl(v): return [("no match so far", none(x)) for x in ptrs(e, v, p.r, 24)] + [("range", z3.And(0 <= x, x <= p.n)) for x in ptrs(e, v, p.r, 24)]
    e.loop_templates.append(tpl); e.auto = False
    for s, v in e.check_outs(e.call_function(st, "vp_info", [o, r, p.p])):
        m, at = e_int(e, s, o, 0, "i64", 64), e_int(e, s, o, 8, "i64", 64)
        e.prove(s, z3.And(0 <= at, at <= p.n, none(at)), "no term before the reported one matches"); e.prove(s, z3.Implies(at < p.n, a.id[at] == lhs), "the reported term matches")
        e.prove(s, m == z3.If(at == p.n, 0, z3.If(z3.And(at + 1 < p.n, a.id[at + 1] == lhs), 2, 1)), "whether the conjugate follows")

@unit("C11", "substitution terms", tu=TU, noinline=VEC, fn=FN + "append_transformed")
def _(e):
    """every term of the right-hand side is appended once, in order, times the factor of the matched term, conjugated if the match is conjugated"""
    st = e.state(); r, rhs, lhs = rule(e, st); m = Mono(e, st, "m"); st.assume(m.id == lhs); a = rhs.a; n = rhs.n; out = e.obj(st, "out", e.const("vp_size_poly")); C = lambda o: e.const(f"vp_off_{o}")
    gh = e.obj(st, "ghost", 8); e.put(st, gh, 0, "i64", Lin(0))
    def on_push(s, id, c, re_, im_):
        k = e_int(e, s, gh, 0, "i64", 64); sr = a.re[k]; si = z3.If(m.cj == 1, -a.im[k], a.im[k])
        e.prove(s, z3.And(0 <= k, k < n, id == a.id[k], c == z3.If(m.cj == 1, 1 - a.c[k], a.c[k])), "the next symbol of the right-hand side, conjugated if the match is")
        e.prove(s, z3.And(re_ == m.re * sr - m.im * si, im_ == m.re * si + m.im * sr), "its factor, conjugated if the match is, times that of the match")
        nk = e.fresh_int("nk", 64, 0, BIG); s.assume(e.z(nk) == k + 1); e.put(s, gh, 0, "i64", nk)
    V = Vec(e, on_push); V.ctor(e, st, [out], None); e.cover(st, "pre")
    def tpl(v):
        g = [e.z(x["term"]) for x in v.vars if x["key"][0] == "c" and x["key"][1] == gh.r]; res = []
        for x in ptrs(e, v, rhs.r, 24): res += [("range", z3.And(0 <= x, x <= n))] + [("terms appended", k == x) for k in g] + [("length", e.z(q["term"]) == x) for q in v.vars if q["key"][0] == "c" and q["key"][1] == out.r and isinstance(q["ty"], IntTy) and q["ty"].w == 64]
        return res
    e.loop_templates.append(tpl); e.auto = False
    for s, _ in e.check_outs(e.call_function(st, "vp_transform", [r, m.p, out])): e.prove(s, e_int(e, s, gh, 0, "i64", 64) == n, "every term of the right-hand side")

@unit("C11", "canonical conjugation", tu=TU, fn="Moment::SymbolTools::make_canonical(Monomial&)")
def _(e):
    st = e.state(); T = Table(e, st); m = Mono(e, st, "m"); st.assume(m.id < T.n); st.assume(z3.Not(z3.And(T.H(m.id), T.A(m.id), m.id != 0))); e.cover(st, "pre")
    G = lambda s: (e_int(e, s, m.p, e.const("vp_off_m_id"), "i32", 32), e_int(e, s, m.p, e.const("vp_off_m_conj"), "i8", 8), e.get(s, m.p, e.const("vp_off_m_f"), "f64"), e.get(s, m.p, e.const("vp_off_m_f") + 8, "f64"))
    for s, _ in e.check_outs(e.call_function(st, "vp_canon", [m.p, T.p])):
        id, c, x, y = G(s); h, ah = T.H(m.id), T.A(m.id); neg = z3.And(ah, z3.Not(h), m.cj == 1)
        e.prove(s, z3.Implies(m.id != 0, z3.And(id == m.id, c == z3.If(z3.Or(h, ah), 0, m.cj), x == z3.If(neg, -m.re, m.re), y == z3.If(neg, -m.im, m.im))), "a Hermitian symbol is written plain, an anti-Hermitian one plain with the sign changed")
        e.prove(s, z3.Implies(m.id == 0, z3.And(id == 0, c == 0, x == 0, y == 0)), "the zero symbol has factor zero")

@unit("C11", "substitution in a monomial", tu=TU, fn=FN + "reduce_monomial")
def _(e):
    st = e.state(); r, rhs, lhs = rule(e, st); st.assume(rhs.n <= 1); T = Table(e, st); T.known(st, rhs); m = Mono(e, st, "m"); st.assume(m.id < T.n); a = rhs.a; out = Mono(e, st, "out")
    for t in (m.id, a.id[0]): st.assume(z3.Not(z3.And(T.H(t), T.A(t), t != 0)))
    st.assume(lhs != 0); e.cover(st, "pre"); C = lambda o: e.const("vp_off_m_" + o)
    for s, _ in e.check_outs(e.call_function(st, "vp_reduce_mono", [out.p, r, T.p, m.p])):
        id, c, x, y = e_int(e, s, out.p, C("id"), "i32", 32), e_int(e, s, out.p, C("conj"), "i8", 8), e.get(s, out.p, C("f"), "f64"), e.get(s, out.p, C("f") + 8, "f64")
        hit = m.id == lhs; s1 = s.copy(); s1.assume(z3.Not(hit)); e.prove(s1, z3.And(id == m.id, c == m.cj, x == m.re, y == m.im), "any other symbol is left alone")
        s1 = s.copy(); s1.assume(z3.And(hit, rhs.n == 0)); e.prove(s1, z3.Or(id == 0, z3.And(x == 0, y == 0)), "an empty right-hand side gives zero")
        s1 = s.copy(); s1.assume(z3.And(hit, rhs.n == 1, a.id[0] != 0)); h, ah = T.H(a.id[0]), T.A(a.id[0]); si = z3.If(m.cj == 1, -a.im[0], a.im[0]); cc = z3.If(m.cj == 1, 1 - a.c[0], a.c[0]); sg = z3.If(z3.And(ah, cc == 1), -1, 1)
        fx, fy = m.re * a.re[0] - m.im * si, m.re * si + m.im * a.re[0]
        e.prove(s1, z3.And(id == a.id[0], c == z3.If(z3.Or(h, ah), 0, cc)), "the symbol of the right-hand side, conjugated if the match is")
        e.prove(s1, z3.And(x == z3.If(z3.And(ah, cc == 1), -fx, fx), y == z3.If(z3.And(ah, cc == 1), -fy, fy)), "product of the factors")

@unit("C11", "same norm", tu=TU, fn="Moment::approximately_same_norm")
def _(e):
    st = e.state(); x = e.obj(st, "x", 16); y = e.obj(st, "y", 16); v = [e.put(st, p, o, "f64", e.real(f"c{k}")) for k, (p, o) in enumerate(((x, 0), (x, 8), (y, 0), (y, 8)))]; t = e.real("tol"); e.cover(st, "pre")
    nx, ny = v[0] * v[0] + v[1] * v[1], v[2] * v[2] + v[3] * v[3]; A, B = z3.Reals("nx ny"); mx = z3.If(nx >= ny, nx, ny); d = nx - ny
    for s, w in e.check_outs(e.call_function(st, "vp_same_norm", [x, y, t])): e.prove(s, e.b(w) == (z3.If(d >= 0, d, -d) <= t * EPS * mx), "squared moduli agree relative to the larger")
