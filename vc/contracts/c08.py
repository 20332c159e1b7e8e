"""C08: canonical polynomials and their sums."""
from polys import *
FN = "Moment::Polynomial::"

@unit(["C08", "C09"], "approximately zero", tu=TU, fn="Moment::approximately_zero(complex)")
def _(e):
    st = e.state(); a = Mono(e, st, "a"); t = e.real("tol"); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_zero", [a.p, t])): e.prove(s, e.b(v) == zero(a.re, a.im, t), "squared modulus below the squared tolerance")

for which, nm in (("meq", "approximately_equals"), ("mne", "not_approximately_equals")):
    @unit("C08", f"Monomial::{nm}", tu=TU, fn="Moment::Monomial::" + nm)
    def _(e, which=which):
        st = e.state(); a = Mono(e, st, "a"); b = Mono(e, st, "b"); t = e.real("tol"); e.cover(st, "pre")
        same = z3.And(a.id == b.id, z3.Or(a.id == 0, z3.And(a.cj == b.cj, zero(a.re - b.re, a.im - b.im, t))))
        for s, v in e.check_outs(e.call_function(st, "vp_" + which, [a.p, b.p, t])):
            e.prove(s, e.b(v) == (same if which == "meq" else z3.Not(same)), "same symbol, conjugation and (to tolerance) factor; zeros are equal")

for w, nm in (("less", "IdLessComparator"), ("more", "IdMoreComparator")):
    @unit("C08", nm, tu=TU, fn=f"Moment::{nm}::operator(), key")
    def _(e, w=w):
        st = e.state(); a = Mono(e, st, "a"); b = Mono(e, st, "b"); e.cover(st, "pre")
        lt = (a.id < b.id) if w == "less" else (a.id > b.id); lt = z3.Or(lt, z3.And(a.id == b.id, a.cj < b.cj))
        for s, v in e.check_outs(e.call_function(st.copy(), "vp_" + w, [a.p, b.p])): e.prove(s, e.b(v) == lt, "ordered by id, then plain before conjugate")
        ka = e.obj(st, "ka", 16); kb = e.obj(st, "kb", 16)
        for s, _ in e.check_outs(e.call_function(st, "vp_key_" + w, [ka, a.p])):
            for s2, _ in e.check_outs(e.call_function(s, "vp_key_" + w, [kb, b.p])):
                x, y, x2, y2 = (e.z(e.as_u(s2, e.get(s2, p, o, "i64"), 64)) for p, o in ((ka, 0), (ka, 8), (kb, 0), (kb, 8)))
                e.prove(s2, z3.Or(x < x2, z3.And(x == x2, y < y2)) == lt, "keys are ordered like the monomials")

@unit("C08", "construction from a monomial", tu=TU, fn=FN + "Polynomial(const Monomial&, double)")
def _(e):
    st = e.state(); m = Mono(e, st, "m"); t = e.real("tol"); C = lambda o: e.const(f"vp_off_{o}"); p, stack = raw_poly(e, st, "p"); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_ctor1", [p, m.p, t])):
        n = e.z(e.as_u(s, e.get(s, p, C("sv_size"), "i64"), 64)); z = z3.Or(m.id == 0, zero(m.re, m.im, t))
        e.prove(s, n == z3.If(z, 0, 1), "empty exactly for the zero symbol or a vanishing factor")
        if not e.feasible(s, n == 1): continue
        s.assume(n == 1); d = e.get(s, p, C("sv_data"), "ptr")
        e.prove(s, z3.And(e.z(e.as_u(s, e.get(s, d, C("m_id"), "i32"), 32)) == m.id, e.z(e.as_u(s, e.get(s, d, C("m_conj"), "i8"), 8)) == m.cj, e.get(s, d, C("m_f"), "f64") == m.re, e.get(s, d, C("m_f") + 8, "f64") == m.im), "holds the monomial")

@unit("C08", "dropping vanishing terms", tu=TU, noinline=NZ, fn=FN + "remove_zeros")
def _(e):
    zero = use_zero(e); st = e.state(); p = Poly(e, st, "p"); t = e.real("tol"); a = p.a; n = p.n; Z = z3.IntSort(); e.cover(st, "pre")
    kept = lambda i: z3.And(a.id[i] != 0, z3.Not(zero(a.re[i], a.im[i], t)))
    K = z3.Function("K", Z, z3.BoolSort()); i = z3.Int("ki"); CNT = z3.Function("CNT", Z, Z)      # K: kept; CNT(i): kept terms before i
    st.assume(z3.ForAll([i], K(i) == kept(i), patterns=[K(i)])); st.assume(CNT(0) == 0)
    def tpl(v):
        b = cur(e, v, p); out = []; ps = ptrs(e, v, p.r, 24)
        for r in ps: v.facts += [z3.Implies(r >= 0, CNT(r + 1) == CNT(r) + z3.If(K(r), 1, 0))]
        for r in ps:
            for w in ps:
                if not r.eq(w): out += [("write position", w == CNT(r)), ("write not ahead", w <= r)]
            out += [("range", z3.And(0 <= r, r <= n)), ("unread part untouched", z3.ForAll([i], z3.Implies(z3.And(r <= i, i < n), z3.And(*[x[i] == y[i] for x, y in zip(b.all, a.all)])), patterns=[a.id[i]])),
                    ("count monotone", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r, K(i)), z3.And(0 <= CNT(i), CNT(i) < CNT(r))), patterns=[CNT(i)])), ("count bounded", z3.And(0 <= CNT(r), CNT(r) <= r)),
                    ("kept terms copied", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r, K(i)), z3.And(*[x[CNT(i)] == y[i] for x, y in zip(b.all, a.all)])), patterns=[CNT(i)]))]
        return out
    e.loop_templates.append(tpl)
    for s, _ in e.check_outs(e.call_function(st, "vp_zeros", [p.p, t])):
        b, m = p.post(s); e.prove(s, m == CNT(n), "as many terms as do not vanish")
        j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < n, K(j))); e.prove(s, z3.And(CNT(j) < m, *[x[CNT(j)] == y[j] for x, y in zip(b.all, a.all)]), "every term that does not vanish is kept, in order")
        e.prove(s, kept(j), "kept terms do not vanish")

@unit("C08", "merging equal terms", tu=TU, fn=FN + "remove_duplicates")
def _(e):
    st = e.state(); p = Poly(e, st, "p", 1); a = p.a; n = p.n; Z = z3.IntSort(); R = z3.RealSort(); e.cover(st, "pre")
    E = z3.Function("E", Z, z3.BoolSort()); i = z3.Int("gi"); G = z3.Function("G", Z, Z); SR = z3.Function("SR", Z, R); SI = z3.Function("SI", Z, R)
    # E(i): same symbol and conjugation as the term before; G(i): number of the run of equal terms i is in; SR, SI: sum of the run up to i
    st.assume(z3.ForAll([i], E(i) == z3.And(a.id[i] == a.id[i - 1], a.c[i] == a.c[i - 1]), patterns=[E(i)])); st.assume(z3.And(G(0) == 0, SR(0) == a.re[0], SI(0) == a.im[0]))
    def tpl(v):
        b = cur(e, v, p); out = []; ps = ptrs(e, v, p.r, 24)
        for r in ps:
            q = r - 1
            v.facts.append(z3.Implies(q >= 0, z3.And(G(r) == G(q) + z3.If(E(r), 0, 1), SR(r) == a.re[r] + z3.If(E(r), SR(q), 0), SI(r) == a.im[r] + z3.If(E(r), SI(q), 0))))
            for w in ps:
                if r.eq(w): continue
                out += [("run so far", z3.And(w == G(q), w <= q, b.id[w] == a.id[q], b.c[w] == a.c[q], b.re[w] == SR(q), b.im[w] == SI(q)))]
            out += [("range", z3.And(1 <= r, r <= n)), ("unread part untouched", z3.ForAll([i], z3.Implies(z3.And(r <= i, i < n), z3.And(*[x[i] == y[i] for x, y in zip(b.all, a.all)])), patterns=[a.id[i]])),
                    ("finished runs", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q, z3.Not(E(i + 1))), z3.And(0 <= G(i), G(i) < G(q), b.id[G(i)] == a.id[i], b.c[G(i)] == a.c[i], b.re[G(i)] == SR(i), b.im[G(i)] == SI(i))), patterns=[G(i)])),
                    ("run number bounded", z3.And(0 <= G(q), G(q) <= q))]
        return out
    e.loop_templates.append(tpl)
    for s, _ in e.check_outs(e.call_function(st, "vp_dups", [p.p])):
        b, m = p.post(s); e.prove(s, m == G(n - 1) + 1, "one term per run")
        j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < n, z3.Or(j == n - 1, z3.Not(E(j + 1)))))
        e.prove(s, z3.And(0 <= G(j), G(j) < m, b.id[G(j)] == a.id[j], b.c[G(j)] == a.c[j], b.re[G(j)] == SR(j), b.im[G(j)] == SI(j)), "each run becomes one term with the sum of its factors")

@unit("C08", "scalar multiple", tu=TU, noinline=NZ, fn=FN + "scale")
def _(e):
    zero = use_zero(e); st = e.state(); p = Poly(e, st, "p"); a = p.a; n = p.n; f = e.obj(st, "f", 16); t = e.real("tol"); fr = e.put(st, f, 0, "f64", e.real("fr")); fi = e.put(st, f, 8, "f64", e.real("fi")); e.cover(st, "pre")
    i = z3.Int("mi")
    def tpl(v):
        b = cur(e, v, p); return [("scaled so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.k), z3.And(b.re[i] == a.re[i] * fr - a.im[i] * fi, b.im[i] == a.re[i] * fi + a.im[i] * fr)), patterns=[b.re[i]])),
                                  ("rest", z3.ForAll([i], z3.Implies(i >= v.k, z3.And(b.re[i] == a.re[i], b.im[i] == a.im[i])), patterns=[b.re[i]]))]
    e.loop_templates.append(tpl); j = z3.Int("j!c")
    for s, _ in e.check_outs(e.call_function(st, "vp_scale", [p.p, f, t])):
        b, m = p.post(s); z = zero(fr, fi, t); one = zero(fr - 1, fi, t)
        e.prove(s, m == z3.If(z, 0, n), "no term is lost unless the factor vanishes")
        s.assume(z3.And(0 <= j, j < n, z3.Not(z))); e.prove(s, z3.And(b.id[j] == a.id[j], b.c[j] == a.c[j]), "same symbols")
        e.prove(s, z3.If(one, z3.And(b.re[j] == a.re[j], b.im[j] == a.im[j]), z3.And(b.re[j] == a.re[j] * fr - a.im[j] * fi, b.im[j] == a.re[j] * fi + a.im[j] * fr)), "every factor multiplied (unchanged for a factor of one)")

@unit("C08", "approximate equality", tu=TU, noinline=NZ, fn=FN + "approximately_equals")
def _(e):
    zero = use_zero(e); st = e.state(); p = Poly(e, st, "p"); q = Poly(e, st, "q"); t = e.real("tol"); a = p.a; b = q.a; e.cover(st, "pre")
    S = z3.Function("SAME", z3.IntSort(), z3.BoolSort()); i = z3.Int("si")
    st.assume(z3.ForAll([i], S(i) == z3.And(a.id[i] == b.id[i], z3.Or(a.id[i] == 0, z3.And(a.c[i] == b.c[i], zero(a.re[i] - b.re[i], a.im[i] - b.im[i], t)))), patterns=[S(i), a.id[i]]))
    def tpl(v):
        out = []
        for x in v.vars:
            if isinstance(x["ty"], IntTy): r = e.z(x["term"])
            elif x["term"].r in (p.r.id, q.r.id): r = e.z(e.exact_div(x["term"].off, 24))
            else: continue
            out += [("equal so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), S(i)), patterns=[S(i)])), ("range", z3.And(0 <= r, r <= p.n))]
        return out
    e.loop_templates.append(tpl); all_same = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), S(i)), patterns=[S(i)]); j = z3.Int("j!c")
    for s, v in e.check_outs(e.call_function(st, "vp_peq", [p.p, q.p, t])):
        for s2, w in e.branch(s, e.b(v)) if False else ((s.copy(), True), (s.copy(), False)):
            s2.assume(e.b(v) == w)
            if not e.feasible(s2): continue
            if w: s2.assume(z3.And(0 <= j, j < p.n)); e.prove(s2, z3.And(p.n == q.n, S(j)), "equal only if every term agrees")
            else: e.prove(s2, z3.Not(z3.And(p.n == q.n, all_same)), "different only if the lengths or a term differ")

@unit("C08", "removing redundant conjugations", tu=TU, fn=FN + "fix_cc_in_place (as called by the constructors)", timeout=30000)
def _(e):
    st = e.state(); p = Poly(e, st, "p"); T = Table(e, st); T.known(st, p); a = p.a; n = p.n; e.cover(st, "pre"); i = z3.Int("fi")
    fc = lambda i: z3.If(z3.Or(T.H(a.id[i]), T.A(a.id[i])), 0, a.c[i]); ng = lambda i: z3.And(T.A(a.id[i]), z3.Not(T.H(a.id[i])), a.c[i] == 1)
    def tpl(v):
        b = cur(e, v, p); return [("done so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.k), z3.And(b.c[i] == fc(i), b.re[i] == z3.If(ng(i), -a.re[i], a.re[i]), b.im[i] == z3.If(ng(i), -a.im[i], a.im[i]))), patterns=[b.c[i]])),
                                  ("rest", z3.ForAll([i], z3.Implies(i >= v.k, z3.And(b.c[i] == a.c[i], b.re[i] == a.re[i], b.im[i] == a.im[i])), patterns=[b.c[i]]))]
    e.loop_templates.append(tpl); j = z3.Int("j!c")
    for s, v in e.check_outs(e.call_function(st, "vp_fixcc", [p.p, T.p, False, e.real("tol")])):
        b, m = p.post(s); e.prove(s, m == n, "same number of terms"); s.assume(z3.And(0 <= j, j < n))
        e.prove(s, z3.And(b.id[j] == a.id[j], b.c[j] == fc(j)), "symbols kept; Hermitian and anti-Hermitian symbols plain")
        e.prove(s, z3.And(b.re[j] == z3.If(ng(j), -a.re[j], a.re[j]), b.im[j] == z3.If(ng(j), -a.im[j], a.im[j])), "factor negated exactly for a conjugated anti-Hermitian symbol")

for fn, order in (("vp_append", "IdLessComparator"), ("vp_appendm", "IdMoreComparator")):
    @unit("C08", f"sum of polynomials ({order})", tu=TU, noinline=NZ + VEC, fn=FN + f"append<{order}>", timeout=40000)
    def _(e, fn=fn, less=order[2] == "L"):
        """for every symbol and conjugation (K): the sum holds it with the sum of the operands' factors, unless that vanishes; terms strictly ordered"""
        Zf = use_zero(e); st = e.state(); p = Poly(e, st, "lhs"); q = Poly(e, st, "rhs"); tol = e.real("tol"); a, b = p.a, q.a; n, m = p.n, q.n
        key = (lambda id, c: 2 * id + c) if less else (lambda id, c: 2 * (MAXID - id) + c)
        ka = lambda i: key(a.id[i], a.c[i]); kb = lambda i: key(b.id[i], b.c[i]); x, y = z3.Ints("ox oy")
        for (A, k, l) in ((a, ka, n), (b, kb, m)):
            st.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < l), k(x) < k(y)), patterns=[z3.MultiPattern(A.id[x], A.id[y])]))
            st.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < l), z3.And(A.id[x] != 0, z3.Not(Zf(A.re[x], A.im[x], tol)))), patterns=[A.id[x]]))
        kid = e.z(e.arg("K_id", 32, 0, MAXID)); kc = e.z(e.arg("K_c", 8, 0, 1)); K = key(kid, kc); hL, hR = z3.Bools("hasL hasR"); pL, pR = z3.Ints("posL posR")
        for (h, pos, k, l, A) in ((hL, pL, ka, n, a), (hR, pR, kb, m, b)):
            st.assume(z3.If(h, z3.And(0 <= pos, pos < l, k(pos) == K), z3.And(pos == -1, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < l), k(x) != K), patterns=[A.id[x]]))))
        fL = (z3.If(hL, a.re[pL], 0), z3.If(hL, a.im[pL], 0)); fR = (z3.If(hR, b.re[pR], 0), z3.If(hR, b.im[pR], 0)); tot = (fL[0] + fR[0], fL[1] + fR[1])
        gh = e.obj(st, "ghost", 40)                                    # last key appended + 1, terms for K, their factor
        e.put(st, gh, 0, "i64", Lin(0)); e.put(st, gh, 8, "i64", Lin(0)); e.put(st, gh, 16, "f64", z3.RealVal(0)); e.put(st, gh, 24, "f64", z3.RealVal(0))
        def on_push(s, id, c, re_, im):
            kk = key(id, c); e.prove(s, kk + 1 > e_int(e, s, gh, 0, "i64", 64), "terms appended in strictly increasing order"); e.prove(s, z3.And(id != 0, z3.Not(Zf(re_, im, tol))), "no vanishing term appended")
            cnt = e_int(e, s, gh, 8, "i64", 64); gr, gi = e.get(s, gh, 16, "f64"), e.get(s, gh, 24, "f64"); is_k = kk == K
            lk = e.fresh_int("lk", 64, 0, 1 << 40); s.assume(e.z(lk) == kk + 1); nc = e.fresh_int("nc", 64, 0, 1 << 41); s.assume(e.z(nc) == cnt + z3.If(is_k, 1, 0))
            e.put(s, gh, 0, "i64", lk); e.put(s, gh, 8, "i64", nc); e.put(s, gh, 16, "f64", gr + z3.If(is_k, re_, 0)); e.put(s, gh, 24, "f64", gi + z3.If(is_k, im, 0))
        Vec(e, on_push)
        def state(i, j, cnt, gr, gi):
            dL = z3.And(hL, i > pL); dR = z3.And(hR, j > pR)
            c = z3.If(z3.And(dL, dR), z3.If(Zf(tot[0], tot[1], tol), 0, 1), z3.If(z3.Or(dL, dR), 1, 0))
            return [("both operands' terms of one symbol are taken together", z3.Implies(z3.And(hL, hR), dL == dR)), ("occurrences", cnt == c),
                    ("factor so far", z3.And(gr == z3.If(c == 0, 0, z3.If(dL, fL[0], 0) + z3.If(dR, fR[0], 0)), gi == z3.If(c == 0, 0, z3.If(dL, fL[1], 0) + z3.If(dR, fR[1], 0))))]
        def tpl(v):
            gv = {x["key"][2]: x["term"] for x in v.vars if x["key"][0] == "c" and x["key"][1] == gh.r}
            pos = {x["term"].r: e.z(e.exact_div(x["term"].off, 24)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r in (p.r.id, q.r.id)}
            if not gv: return []
            g = lambda o, d: gv.get(o, d); lk = e.z(g(0, Lin(0))); cnt = e.z(g(8, Lin(0))); gr, gi = g(16, z3.RealVal(0)), g(24, z3.RealVal(0)); out = []
            if len(pos) == 2:
                i, j = pos[p.r.id], pos[q.r.id]
                out += [("range", z3.And(0 <= i, i <= n, 0 <= j, j <= m)), ("last term below both remaining parts", z3.And(z3.Implies(i < n, lk <= ka(i)), z3.Implies(j < m, lk <= kb(j))))] + state(i, j, cnt, gr, gi)
                out += [("length bounded", e.z(x["term"]) <= i + j) for x in v.vars if x["key"][0] == "c" and x["key"][1] != gh.r and isinstance(x["ty"], IntTy) and x["ty"].w == 64]
            elif q.r.id in pos or True:                                 # left operand empty: copy of the right one
                js = list(pos.values()) or [v.k]; j = js[0]
                out += [("range", z3.And(0 <= j, j <= m)), ("last term below the remaining part", z3.Implies(j < m, lk <= kb(j)))] + state(n, j, cnt, gr, gi)
                out += [("length so far", e.z(x["term"]) == j) for x in v.vars if x["key"][0] == "c" and x["key"][1] != gh.r and isinstance(x["ty"], IntTy) and x["ty"].w == 64]
            return out
        e.loop_templates.append(tpl); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, fn, [p.p, q.p, tol])):
            s1 = s.copy(); s1.assume(m > 0); cnt = e_int(e, s1, gh, 8, "i64", 64); gr, gi = e.get(s1, gh, 16, "f64"), e.get(s1, gh, 24, "f64")
            if e.feasible(s1):
                van = z3.And(hL, hR, Zf(tot[0], tot[1], tol)); has = z3.And(z3.Or(hL, hR), z3.Not(van))
                e.prove(s1, cnt == z3.If(has, 1, 0), "a symbol occurs once exactly if an operand has it and the factors do not cancel")
                e.prove(s1, z3.Implies(has, z3.And(gr == tot[0], gi == tot[1])), "its factor is the sum of the operands' factors")
            s2 = s.copy(); s2.assume(m == 0)
            if e.feasible(s2): c, l = p.post(s2); j = z3.Int("j!c"); s2.assume(z3.And(0 <= j, j < n)); e.prove(s2, z3.And(l == n, *[u[j] == w[j] for u, w in zip(c.all, a.all)]), "nothing added: unchanged")
