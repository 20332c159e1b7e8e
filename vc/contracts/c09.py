"""C09: conjugates and Hermiticity of polynomials."""
from polys import *
import c08
FN = "Moment::Polynomial::"

def canonical(e, st, p, T, order=None):
    """terms strictly ordered by id, plain before conjugate; Hermitian and anti-Hermitian symbols (never both) only plain; no vanishing factor"""
    a = p.a; x, y = z3.Ints("cx cy"); R = lambda i, l: z3.And(0 <= i, i < l)
    st.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < p.n), a.key(x) < a.key(y)), patterns=[z3.MultiPattern(a.id[x], a.id[y])]))
    st.assume(z3.ForAll([x], z3.Implies(R(x, p.n), z3.And(z3.Implies(z3.Or(T.H(a.id[x]), T.A(a.id[x])), a.c[x] == 0), z3.Not(z3.And(T.H(a.id[x]), T.A(a.id[x]))))), patterns=[a.id[x]]))

@unit("C09", "conjugate", tu=TU, fn=FN + "conjugate_in_place", timeout=30000)
def _(e):
    st = e.state(); p = Poly(e, st, "p"); T = Table(e, st); T.known(st, p); canonical(e, st, p, T); a = p.a; n = p.n; e.cover(st, "pre"); i = z3.Int("fi")
    h = lambda i: T.H(a.id[i]); ah = lambda i: T.A(a.id[i])
    # conjugate of term i
    C = lambda i: z3.If(z3.Or(h(i), ah(i)), a.c[i], 1 - a.c[i]); RE = lambda i: z3.If(ah(i), -a.re[i], a.re[i]); IM = lambda i: z3.If(ah(i), a.im[i], -a.im[i])
    PN = z3.Function("PAIR", z3.IntSort(), z3.BoolSort()); pn = lambda i: PN(i); pp = lambda i: PN(i - 1)      # terms i, i+1 are X, X*
    st.assume(z3.ForAll([i], PN(i) == z3.And(0 <= i, i + 1 < n, a.id[i] == a.id[i + 1]), patterns=[PN(i)]))
    lem = lambda i: z3.Implies(PN(i), z3.And(0 <= i, i + 1 < n, a.id[i] == a.id[i + 1], z3.Not(h(i)), z3.Not(ah(i)), a.c[i] == 0, a.c[i + 1] == 1))
    i0 = z3.Int("lem!c"); e.prove(st, lem(i0), "a symbol occurs at most twice, plain and then conjugated, and only if it is neither Hermitian nor anti-Hermitian", "lemma"); st.assume(z3.ForAll([i], lem(i), patterns=[PN(i)]))
    src = lambda i: z3.If(pp(i), i - 1, z3.If(pn(i), i + 1, i))        # where the conjugate of a term X goes: places of X and X* are exchanged
    same = lambda b, i, j: z3.And(b.id[i] == a.id[j], b.c[i] == C(j), b.re[i] == RE(j), b.im[i] == IM(j))
    def tpl(v):
        b = cur(e, v, p); ps = ptrs(e, v, p.r, 24); bools = flags(e, v); out = []
        b0 = Arr(e, v.entry.mem[p.r.id])
        if b0.c.eq(a.c):                                               # first loop: terms one by one
            out += [("conjugated so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.k), same(b, i, i)), patterns=[b.c[i]])), ("rest", z3.ForAll([i], z3.Implies(i >= v.k, z3.And(*[x[i] == y[i] for x, y in zip(b.all, a.all)])), patterns=[b.c[i]])),]
            out += [("all Hermitian so far unless flagged", z3.ForAll([i], z3.Or(x, z3.Implies(z3.And(0 <= i, i < v.k), h(i))), patterns=[a.id[i]])) for x in bools]
        else:
            for cond, d, nm in ((pp, -1, "X* replaced"), (pn, 1, "X replaced"), (lambda i: z3.Not(z3.Or(pp(i), pn(i))), 0, "alone")):
                out += [(nm + f" {w}", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.k, cond(i)), same(b, i, i + d).children()[w]), patterns=[b.all[w][i]])) for w in range(4)]
            out += [("current", same(b, v.k, z3.If(pp(v.k), v.k - 1, v.k))),
                    ("rest", z3.ForAll([i], z3.Implies(z3.And(i > v.k, i < n), same(b, i, i)), patterns=[b.id[i]])), ("range", v.k < n)]
        return out
    e.loop_templates.append(tpl); j = z3.Int("j!c"); e.auto = False
    for s, v in e.check_outs(e.call_function(st, "vp_conj", [p.p, T.p])):
        b, m = p.post(s); e.prove(s, m == n, "same number of terms"); s.assume(z3.And(0 <= j, j < n))
        for cond, k, nm in ((pp(j), j - 1, "the place of X* holds the conjugate of X"), (z3.And(pn(j), z3.Not(pp(j))), j + 1, "the place of X holds the conjugate of X*"), (z3.And(z3.Not(pp(j)), z3.Not(pn(j))), j, "a term without its conjugate is conjugated in place")):
            s2 = s.copy(); s2.assume(cond); e.prove(s2, same(b, j, k), nm)

for fn, anti in (("vp_herm", False), ("vp_anti", True)):
    @unit("C09", "is_antihermitian" if anti else "is_hermitian", tu=TU, noinline=NZ, fn=FN + ("is_antihermitian" if anti else "is_hermitian"), timeout=30000)
    def _(e, fn=fn, anti=anti):
        """true exactly if every Hermitian symbol has a real factor, every anti-Hermitian symbol an imaginary one, and any other X comes with X* with the conjugate factor
        (for anti: exchanged, minus the conjugate)"""
        Zf = use_zero(e); st = e.state(); p = Poly(e, st, "p"); T = Table(e, st); T.known(st, p); canonical(e, st, p, T); a = p.a; n = p.n; tol = e.real("tol"); i = z3.Int("fi")
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(z3.And(a.re[i] == 0, a.im[i] == 0))), patterns=[a.id[i]])); e.cover(st, "pre")
        h = lambda i: T.H(a.id[i]); ah = lambda i: T.A(a.id[i]); small = lambda x: z3.If(x >= 0, x, -x) <= tol * EPS
        G = z3.Function("GOOD", z3.IntSort(), z3.BoolSort()); PN = z3.Function("PAIR", z3.IntSort(), z3.BoolSort()); sg = -1 if anti else 1
        st.assume(z3.ForAll([i], PN(i) == z3.And(0 <= i, i + 1 < n, a.id[i] == a.id[i + 1]), patterns=[PN(i)]))
        lem = lambda i: z3.Implies(PN(i), z3.And(0 <= i, i + 1 < n, a.id[i] == a.id[i + 1], z3.Not(h(i)), z3.Not(ah(i)), a.c[i] == 0, a.c[i + 1] == 1))
        i0 = z3.Int("lem!c"); e.prove(st, lem(i0), "a symbol occurs at most twice, plain and then conjugated", "lemma"); st.assume(z3.ForAll([i], lem(i), patterns=[PN(i)]))
        match = lambda i: Zf(a.re[i] - sg * a.re[i + 1], a.im[i] + sg * a.im[i + 1], tol)
        st.assume(z3.ForAll([i], G(i) == z3.If(h(i), small(a.re[i]) if anti else small(a.im[i]), z3.If(ah(i), small(a.im[i]) if anti else small(a.re[i]), z3.Or(z3.And(PN(i), match(i)), z3.And(PN(i - 1), match(i - 1))))), patterns=[G(i), a.id[i]]))
        def tpl(v):
            last = [x["term"] for x in v.vars if isinstance(x["term"], engine.NPtr)]; out = []
            for L in last:
                D = e.z(e.exact_div(L.off, 24)); upto = lambda m: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), G(i)), patterns=[G(i)])
                out += [("all terms so far agree", z3.Implies(L.null, upto(v.k))), ("waiting for a conjugate", z3.Implies(z3.Not(L.null), z3.And(D == v.k - 1, D >= 0, a.c[D] == 0, z3.Not(h(D)), z3.Not(ah(D))))),
                        ("nothing is waiting", z3.Implies(L.null, z3.Not(PN(v.k - 1)))),
                        ("all before the waiting one agree", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.k - 1), G(i)), patterns=[G(i)]))]
            return out + [("range", v.k <= n)]
        e.loop_templates.append(tpl); e.auto = False; j = z3.Int("j!c"); allg = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), G(i)), patterns=[G(i)])
        for s, v in e.check_outs(e.call_function(st, fn, [p.p, T.p, tol])):
            for w in (True, False):
                s2 = s.copy(); s2.assume(e.b(v) == w)
                if not e.feasible(s2): continue
                if w: s2.assume(z3.And(0 <= j, j < n)); e.prove(s2, G(j), "accepted only if every term agrees with its conjugate")
                else: e.prove(s2, z3.Not(allg), "rejected only if some term disagrees")

for fn, im in (("vp_Re", False), ("vp_Im", True)):
    @unit("C09", "imaginary part" if im else "real part", tu=TU, noinline=NZ + VEC, fn=FN + ("Imaginary" if im else "Real"), timeout=30000)
    def _(e, fn=fn, im=im):
        """the terms handed to the factory: for every symbol X, conjugated or not, the factor it has in (P + P^*)/2, respectively (P - P^*)/(2i); terms with vanishing factor left out"""
        Zf = use_zero(e); st = e.state(); p = Poly(e, st, "p"); a = p.a; n = p.n; C = lambda o: e.const(f"vp_off_{o}"); x, y = z3.Ints("ox oy")
        st.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), a.key(x) < a.key(y)), patterns=[z3.MultiPattern(a.id[x], a.id[y])]))
        tol = e.real("tol"); fac = e.obj(st, "factory", e.const("vp_size_fac")); e.put(st, fac, C("fac_tol"), "f64", tol)
        vt = e.obj(st, "vtable", 64); e.put(st, fac, 0, "ptr", vt); e.put(st, vt, 16, "ptr", engine.FnPtr("vp_factory")); out = e.obj(st, "out", e.const("vp_size_poly"))
        kid = e.z(e.arg("K_id", 32, 0, MAXID)); kc = e.z(e.arg("K_c", 8, 0, 1)); h0, h1 = z3.Bools("has0 has1"); p0, p1 = z3.Ints("pos0 pos1")
        for (h, pos, c) in ((h0, p0, 0), (h1, p1, 1)):
            st.assume(z3.If(h, z3.And(0 <= pos, pos < n, a.key(pos) == 2 * kid + c), z3.And(pos == -1, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), a.key(x) != 2 * kid + c), patterns=[a.id[x]]))))
        adj = z3.Implies(z3.And(h0, h1), z3.And(p1 == p0 + 1, a.id[p0 + 1] == a.id[p0])); s0 = st.copy(); s0.assume(a.id[p0 + 1] >= 0); e.prove(s0, adj, "X and X* are neighbours", "lemma"); st.assume(adj)
        f0 = (z3.If(h0, a.re[p0], 0), z3.If(h0, a.im[p0], 0)); f1 = (z3.If(h1, a.re[p1], 0), z3.If(h1, a.im[p1], 0)); H = z3.Q(1, 2)
        c0 = (H * (f0[0] + f1[0]), H * (f0[1] - f1[1])) if not im else (H * (f0[1] + f1[1]), -H * (f0[0] - f1[0]))       # factor of X; that of X* is its conjugate
        ck = (c0[0], z3.If(kc == 0, c0[1], -c0[1])); gh = e.obj(st, "ghost", 40); van = Zf(ck[0], ck[1], tol)
        e.put(st, gh, 0, "i64", Lin(0)); e.put(st, gh, 8, "i64", Lin(0)); e.put(st, gh, 16, "f64", z3.RealVal(0)); e.put(st, gh, 24, "f64", z3.RealVal(0))
        def on_push(s, id, c, re_, im_):
            kk = 2 * id + c; e.prove(s, kk + 1 > e_int(e, s, gh, 0, "i64", 64), "terms appended in strictly increasing order")
            cnt = e_int(e, s, gh, 8, "i64", 64); gr, gi = e.get(s, gh, 16, "f64"), e.get(s, gh, 24, "f64"); is_k = kk == 2 * kid + kc
            lk = e.fresh_int("lk", 64, 0, 1 << 40); s.assume(e.z(lk) == kk + 1); nc = e.fresh_int("nc", 64, 0, 1 << 41); s.assume(e.z(nc) == cnt + z3.If(is_k, 1, 0))
            e.put(s, gh, 0, "i64", lk); e.put(s, gh, 8, "i64", nc); e.put(s, gh, 16, "f64", gr + z3.If(is_k, re_, 0)); e.put(s, gh, 24, "f64", gi + z3.If(is_k, im_, 0))
        Vec(e, on_push); built = []
        def factory(e, s, args, I): built.append(s.copy()); e.put(s, args[0], C("sv_size"), "i64", Lin(0)); return [(s, None)]
        e.contract_rx.append((re.compile("^vp_factory$"), Contract("PolynomialFactory::operator()", factory)))
        e.contract_rx.append((re.compile("Polynomial::Polynomial\\((Moment::Polynomial&&)?\\)"), Contract("Polynomial()", lambda e, s, args, I: [(e.put(s, args[0], C("sv_size"), "i64", Lin(0)) and False or s, None)])))
        def tpl(v):
            pos = [e.z(e.exact_div(q["term"].off, 24)) for q in v.vars if isinstance(q["ty"], PtrTy) and q["term"].r == p.r.id]
            gv = {q["key"][2]: q["term"] for q in v.vars if q["key"][0] == "c" and q["key"][1] == gh.r}; g = lambda o, d: gv.get(o, d); r = []
            for i in pos:
                lk = e.z(g(0, Lin(0))); cnt = e.z(g(8, Lin(0))); gr, gi = g(16, z3.RealVal(0)), g(24, z3.RealVal(0)); d0 = z3.And(h0, i > p0); d1 = z3.And(h1, i > p1); d = z3.Or(d0, d1)
                c = z3.If(z3.And(d, z3.Not(van)), 1, 0)
                r += [("range", z3.And(0 <= i, i <= n)), ("last term below the remaining part", z3.Implies(i < n, lk <= 2 * a.id[i])), ("X and X* are taken together", z3.Implies(z3.And(h0, h1), d0 == d1)), ("occurrences", cnt == c),
                      ("factor so far", z3.And(gr == z3.If(c == 0, 0, ck[0]), gi == z3.If(c == 0, 0, ck[1])))]
                r += [("length bounded", e.z(q["term"]) <= 2 * i) for q in v.vars if q["key"][0] == "c" and q["key"][1] != gh.r and isinstance(q["ty"], IntTy) and q["ty"].w == 64]
            return r
        e.loop_templates.append(tpl); e.auto = False; e.cover(st, "pre"); rets = e.check_outs(e.call_function(st, fn, [out, p.p, fac]))
        for s in built:
            if not s.frames or s.loops: pass
            has = z3.And(z3.Or(h0, h1), z3.Not(van)); cnt = e_int(e, s, gh, 8, "i64", 64)
            e.prove(s, cnt == z3.If(has, 1, 0), "each factor once, unless it vanishes"); e.prove(s, z3.Implies(has, z3.And(e.get(s, gh, 16, "f64") == ck[0], e.get(s, gh, 24, "f64") == ck[1])), "the factor of the real or imaginary part")
        e.prove(st if not built else built[0], z3.BoolVal(len(built) >= 1 and len(rets) >= 1), "the result is built by the factory")
