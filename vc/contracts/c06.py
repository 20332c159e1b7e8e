"""C06: the successor steps of the index enumerators, for every rank, limit and position.
Odometer step (last or first index fastest): position j is reached by the carry when every faster position is at its last value; a position
reached by the carry moves on by one, or returns to its first value if it was at its last; all others keep their value; the enumerator is
done exactly when the carry leaves the slowest position."""
import re
from unit import *
I64 = IntTy(64); I16 = IntTy(16); TU = "iters"
BIG = 1 << 40
FILE = {"m": "Moment::MultiDimensionalIndexIterator", "o": "Moment::MultiDimensionalOffsetIndexIterator"}

def put_vec(e, st, p, dp, n, size=8):
    for k, v in enumerate((dp, dp + n * size, dp + n * size)): e.put(st, p, 8 * k, "ptr", v)

def not_all(e, st, name, at, lo, hi):
    """N(x) <=> some i in [lo(x), hi(x)) has not at(i)   (definition, with witness)"""
    N = z3.Function(name, z3.IntSort(), z3.BoolSort()); w = z3.Function(name + "_w", z3.IntSort(), z3.IntSort())
    x, i = z3.Ints("nx ni"); t = at(i)
    sel = next(s for s in e.selects(t) if s.children()[1].eq(i))
    st.assume(z3.ForAll([x], N(x) == z3.And(lo(x) <= w(x), w(x) < hi(x), z3.Not(at(w(x)))), patterns=[N(x)]))
    st.assume(z3.ForAll([x, i], z3.Implies(z3.And(lo(x) <= i, i < hi(x), z3.Not(t)), N(x)), patterns=[z3.MultiPattern(N(x), sel)]))
    return N

def odo(e, n, fwd, idx, lo, hi, carry, A):
    """loop template: after k carries"""
    j = z3.Int("tj")
    def tpl(v):
        a = [x["term"] for x in v.arrays if x["entry"].eq(idx)]
        if not a: return []
        a = a[0]; d = n - 1 - v.k if fwd else v.k
        past = (lambda j: j > d) if fwd else (lambda j: j < d)
        rng = z3.And(0 <= j, j < n)
        return [("positions passed by the carry are reset", z3.ForAll([j], z3.Implies(z3.And(rng, past(j)), a[j] == lo(j)), patterns=[a[j]])),
                ("other positions unchanged", z3.ForAll([j], z3.Implies(z3.And(rng, z3.Not(past(j))), a[j] == idx[j]), patterns=[a[j]])),
                ("every position passed was at its last value", z3.ForAll([j], z3.Implies(z3.And(rng, past(j)), idx[j] + 1 >= hi(j)), patterns=[idx[j]])),
                ("position within the index", z3.And(0 <= v.k, v.k < n))]
    return tpl

for t in ("mf", "mr", "of", "or"):
    @unit("C06", {"m": "multi-dimensional", "o": "offset multi-dimensional"}[t[0]] + " step, " + {"f": "last index fastest", "r": "first index fastest"}[t[1]], tu=TU,
          fn=FILE[t[0]] + "::operator++")
    def _(e, t=t):
        st = e.state(); fwd = t[1] == "f"; C = lambda o: e.const(f"vp_off_{t}_{o}")
        p = e.obj(st, "it", e.const("vp_size_" + t)); nl = e.arg("n", 64, 1, BIG); n = e.z(nl)
        ip, idx = e.array(st, "indices", nl, I64, (0, BIG)); mp, mx = e.array(st, "limits", nl, I64, (0, BIG))
        put_vec(e, st, p + C("idx"), ip, nl); put_vec(e, st, p + C("max"), mp, nl)
        lo = lambda j: z3.IntVal(0)
        if t[0] == "o":
            np, mn = e.array(st, "lower", nl, I64, (0, BIG)); put_vec(e, st, p + C("min"), np, nl); lo = lambda j: mn[j]
        i = z3.Int("pi"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(lo(i) <= idx[i], idx[i] < mx[i])), patterns=[idx[i]]))
        gl = e.put(st, p, C("glob"), "i64", e.arg("g", 64, 0, BIG)); e.put(st, p, C("num"), "i64", nl); e.put(st, p, C("done"), "i8", Lin(0))
        full = lambda j: idx[j] + 1 >= mx[j]
        NC = not_all(e, st, "NC", full, (lambda x: x + 1) if fwd else (lambda x: z3.IntVal(0)), (lambda x: n) if fwd else (lambda x: x))
        e.cover(st, "pre")
        e.loop_templates.append(odo(e, n, fwd, idx, lo, lambda j: mx[j], NC, None))
        for s, v in e.check_outs(e.call_function(st, "vp_inc_" + t, [p])):
            b = e.norm_ptr(s, e.get(s, p, C("idx"), "ptr")); assert b.r == ip.r
            a = e.arr_at(s, ip); j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < n))
            e.prove(s, a[j] == z3.If(NC(j), idx[j], z3.If(full(j), lo(j), idx[j] + 1)), "every position after the step")
            e.prove(s, e.b(e.z(e.get(s, p, C("done"), "i8")) != 0) == z3.Not(NC(-1 if fwd else n)), "done exactly when every position was at its last value")
            e.prove(s, e.z(e.get(s, p, C("glob"), "i64")) == e.z(gl) + 1, "global counter")
            e.prove(s, e.arr_at(s, mp)[j] == mx[j], "limits unchanged", "frame")
            if t[0] == "o": e.prove(s, e.arr_at(s, np)[j] == mn[j], "lower limits unchanged", "frame")

@unit("C06", "word enumerator step", tu=TU, fn="Moment::MultiOperatorIterator::operator++")
def _(e):
    st = e.state(); C = lambda o: e.const("vp_off_mo_" + o); V = lambda o: e.const("vp_off_sv_" + o)
    p = e.obj(st, "it", e.const("vp_size_mo")); nl = e.arg("n", 64, 1, BIG); n = e.z(nl)
    mn = e.arg("min", 16, 0, 32767); mx = e.arg("max", 16, 1, 32767); lo = lambda j: e.z(mn)
    ip, idx = e.array(st, "indices", nl, I16, (0, 32767)); i = z3.Int("pi")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(e.z(mn) <= idx[i], idx[i] < e.z(mx))), patterns=[idx[i]]))
    e.put(st, p, C("len"), "i64", nl); e.put(st, p, C("min"), "i16", mn); e.put(st, p, C("max"), "i16", mx); e.put(st, p, C("done"), "i8", Lin(0))
    e.put(st, p, C("idx") + V("size"), "i64", nl); e.put(st, p, C("idx") + V("cap"), "i64", nl); e.put(st, p, C("idx") + V("data"), "ptr", ip)
    full = lambda j: idx[j] + 1 >= e.z(mx)
    NC = not_all(e, st, "NC", full, lambda x: x + 1, lambda x: n)
    e.cover(st, "pre"); e.loop_templates.append(odo(e, n, True, idx, lo, lambda j: e.z(mx), NC, None))
    # the loop may also be entered with the position below zero
    j = z3.Int("tj")
    def all_reset(v):
        a = [x["term"] for x in v.arrays if x["entry"].eq(idx)]
        if not a: return []
        a = a[0]; d = n - 1 - v.k
        return [("passed: reset", z3.ForAll([j], z3.Implies(z3.And(j > d, 0 <= j, j < n), a[j] == lo(j)), patterns=[a[j]])), ("rest unchanged", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= d), a[j] == idx[j]), patterns=[a[j]])),
                ("passed: last value", z3.ForAll([j], z3.Implies(z3.And(j > d, 0 <= j, j < n), full(j)), patterns=[idx[j]])), ("range", z3.And(0 <= v.k, v.k <= n))]
    e.loop_templates.append(all_reset)
    for s, v in e.check_outs(e.call_function(st, "vp_inc_mo", [p])):
        a = e.arr_at(s, ip); j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < n))
        e.prove(s, a[j] == z3.If(NC(j), idx[j], z3.If(full(j), lo(j), idx[j] + 1)), "every position after the step")
        e.prove(s, e.b(e.z(e.get(s, p, C("done"), "i8")) != 0) == z3.Not(NC(-1)), "done exactly when every position was at its last value")

for t in ("ts", "td"):
    @unit("C06", "ordered indices step, " + {"ts": "strictly increasing", "td": "repetition allowed"}[t], tu=TU, fn="Moment::TriangularIndexIterator::operator++", timeout=30000)
    def _(e, t=t):
        st = e.state(); C = lambda o: e.const(f"vp_off_{t}_{o}"); dup = t == "td"
        p = e.obj(st, "it", e.const("vp_size_" + t)); nl = e.arg("n", 64, 1, BIG); n = e.z(nl); ml = e.arg("max", 64, 1, BIG); mx = e.z(ml)
        ip, idx = e.array(st, "indices", nl, I64, (0, BIG)); i = z3.Int("pi")
        if not dup: st.assume(n <= mx)
        last = (lambda j: idx[j] + 1 >= mx) if dup else (lambda j: idx[j] + 1 >= 1 + mx + j - n)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), idx[i] < mx if dup else idx[i] < 1 + mx + i - n), patterns=[idx[i]]))
        put_vec(e, st, p + C("idx"), ip, nl); gl = e.put(st, p, C("glob"), "i64", e.arg("g", 64, 0, BIG))
        e.put(st, p, C("max"), "i64", ml); e.put(st, p, C("len"), "i64", nl); e.put(st, p, C("done"), "i8", Lin(0))
        NC = not_all(e, st, "NC", last, lambda x: x + 1, lambda x: n)
        e.cover(st, "pre"); j = z3.Int("tj")
        def tpl(v):
            a = [x["term"] for x in v.arrays if x["entry"].eq(idx)]
            if not a: return []
            a = a[0]; d = n - 1 - v.k; rng = z3.And(0 <= j, j < n)
            return [("passed: raised", z3.ForAll([j], z3.Implies(z3.And(rng, j > d), a[j] == idx[j] + 1), patterns=[a[j]])), ("rest unchanged", z3.ForAll([j], z3.Implies(z3.And(rng, j <= d), a[j] == idx[j]), patterns=[a[j]])),
                    ("passed: last value", z3.ForAll([j], z3.Implies(z3.And(rng, j > d), last(j)), patterns=[idx[j]])), ("range", z3.And(0 <= v.k, v.k < n))]
        e.loop_templates.append(tpl)
        for s, v in e.check_outs(e.call_function(st, "vp_inc_" + t, [p])):
            a = e.arr_at(s, ip); j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < n))
            e.prove(s, e.b(e.z(e.get(s, p, C("done"), "i8")) != 0) == z3.Not(NC(-1)), "done exactly when every position was at its last value")
            e.prove(s, e.z(e.get(s, p, C("glob"), "i64")) == e.z(gl) + 1, "global counter")
            s1 = s.copy(); s1.assume(NC(-1))
            e.prove(s1, z3.Implies(NC(j), a[j] == idx[j]), "positions before the last one that can move are kept")
            e.prove(s1, z3.Implies(z3.And(z3.Not(NC(j)), z3.Not(last(j))), a[j] == idx[j] + 1), "the last position that can move is raised by one")
            e.prove(s1, z3.Implies(z3.And(z3.Not(NC(j)), last(j)), z3.And(j > 0, a[j] == a[j - 1] + (0 if dup else 1))), "every later position takes its least value")

def comb(e, st, t, dup):
    C = lambda o: e.const(f"vp_off_{t}_{o}")
    p = e.obj(st, "it", e.const("vp_size_" + t)); kl = e.arg("K", 64, 1, BIG); K = e.z(kl); nl = e.arg("N", 64, 1, BIG); N = e.z(nl)
    ip, idx = e.array(st, "indices", kl, I64, (0, BIG)); i = z3.Int("pi")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < K), idx[i] < N), patterns=[idx[i]]))
    if not dup:
        st.assume(K <= N); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < K), idx[i] < idx[i + 1]), patterns=[idx[i]]))
    put_vec(e, st, p + C("idx"), ip, kl); e.put(st, p, C("n"), "i64", nl); e.put(st, p, C("k"), "i64", kl); e.put(st, p, C("end"), "i8", Lin(0))
    return p, kl, K, N, ip, idx, C

@unit("C06", "combinations step", tu=TU, fn="Moment::CombinationIndexIteratorBase<false>::operator++, incIndexExclusive", timeout=30000)
def _(e):
    st = e.state(); p, kl, K, N, ip, idx, C = comb(e, st, "ci", False)
    stuck = lambda j: z3.And(j + 1 < K, idx[j] + 1 >= idx[j + 1])
    NC = not_all(e, st, "NC", stuck, lambda x: z3.IntVal(0), lambda x: x)
    e.cover(st, "pre"); j = z3.Int("tj")
    def tpl(v):
        a = [x["term"] for x in v.arrays if x["entry"].eq(idx)]
        if not a: return []
        a = a[0]; rng = z3.And(0 <= j, j < K)
        return [("passed: least values", z3.ForAll([j], z3.Implies(z3.And(rng, j < v.k), a[j] == j), patterns=[a[j]])), ("rest unchanged", z3.ForAll([j], z3.Implies(z3.And(rng, j >= v.k), a[j] == idx[j]), patterns=[a[j]])),
                ("passed: stuck", z3.ForAll([j], z3.Implies(z3.And(rng, j < v.k), stuck(j)), patterns=[idx[j]])), ("range", z3.And(0 <= v.k, v.k < K))]
    e.loop_templates.append(tpl)
    for s, v in e.check_outs(e.call_function(st, "vp_inc_ci", [p])):
        a = e.arr_at(s, ip); j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < K))
        e.prove(s, a[j] == z3.If(NC(j), idx[j], z3.If(stuck(j), j, idx[j] + 1)), "every position after the step")
        e.prove(s, e.b(e.z(e.get(s, p, C("end"), "i8")) != 0) == z3.And(z3.Not(NC(K - 1)), idx[K - 1] + 1 >= N), "done exactly when the subset was the last one")

@unit("C06", "combinations with repetition step (recursive contract)", tu=TU, noinline=("incIndexInclusive",), fn="Moment::CombinationIndexIteratorBase<true>::incIndexInclusive, operator++", timeout=30000)
def _(e):
    """inc(J): positions up to J become the successor of the weakly increasing index; done if there is none"""
    st = e.state(); p, kl, K, N, ip, idx0, C = comb(e, st, "cc", True); nm = next(f for f, d in e.dem.items() if "incIndexInclusive" in d)
    last = lambda a: lambda j: a[j] + 1 >= N
    def spec(a, b, J, NC, j):
        # NC(j): some position in (j, J] is not at its last value
        l = last(a); alive = NC(-1)
        return z3.And(z3.Implies(j > J, b[j] == a[j]),
                      z3.Implies(z3.And(alive, 0 <= j, j <= J), z3.And(z3.Implies(NC(j), b[j] == a[j]), z3.Implies(z3.And(z3.Not(NC(j)), z3.Not(l(j))), b[j] == a[j] + 1),
                                 z3.Implies(z3.And(z3.Not(NC(j)), l(j)), z3.And(j > 0, b[j] == b[j - 1])))))
    cnt = [0]
    def callee(e, s, args, I):
        J = e.z(args[1]); a = e.arr_at(s, ip); cnt[0] += 1
        e.prove(s, z3.And(0 <= J, J < K), "recursive call: position within the index", "pre")
        i = z3.Int("ri"); e.prove(s, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= J), z3.And(0 <= a[i], a[i] < N))), "recursive call: positions in range", "pre")
        e.prove(s, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= J), a[i] == idx0[i])), "recursive call: positions not yet touched", "pre")
        NCr = not_all(e, s, f"NCr{cnt[0]}", last(idx0), lambda x: x + 1, lambda x: J + 1)
        b = e.new_array("rec", I64); e.array_range(s, b, 0, 2 * BIG); r = s.wr(ip.r); r.fields[0] = (I64, b); s.log.append((ip.r, "elem", 0, None, None))
        s.assume(z3.ForAll([i], z3.And(z3.Implies(i > J, b[i] == a[i]), z3.Implies(i <= J, spec(idx0, b, J, NCr, i))), patterns=[b[i]]))
        en = e.z(e.get(s, p, C("end"), "i8")); ne = e.fresh_int("end", 8, 0, 1); s.assume(e.z(ne) == z3.If(NCr(-1), en, 1)); e.put(s, p, C("end"), "i8", ne)
        return [(s, None)]
    e.contract_rx.append((re.compile("incIndexInclusive"), Contract("incIndexInclusive (recursive)", callee)))
    jl = e.arg("J", 64, 0, BIG); J = e.z(jl); st.assume(J < K); st0 = st.copy()
    NC = not_all(e, st, "NC", last(idx0), lambda x: x + 1, lambda x: J + 1)
    e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, nm, [p, jl])):
        a = e.arr_at(s, ip); j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < K))
        e.prove(s, spec(idx0, a, J, NC, j), "positions after the call")
        e.prove(s, e.b(e.z(e.get(s, p, C("end"), "i8")) != 0) == z3.Not(NC(-1)), "done exactly when no successor exists")
    # the step is the call at the last position
    NC1 = not_all(e, st0, "NC", last(idx0), lambda x: x + 1, lambda x: K)
    for s, v in e.check_outs(e.call_function(st0, "vp_inc_cc", [p])):
        a = e.arr_at(s, ip); j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < K))
        e.prove(s, spec(idx0, a, K - 1, NC1, j), "positions after the step")
        e.prove(s, e.b(e.z(e.get(s, p, C("end"), "i8")) != 0) == z3.Not(NC1(-1)), "done exactly when the choice was the last one")

@unit("C06", "lemma: an odometer step raises the rank by exactly one", fn="(step contract)")
def _(e):
    """rank = sum_j (idx[j] - lo[j]) * P(j), P(0) = 1, P(j+1) = P(j) * size[j]; D(k) = change of the sum over the k fastest positions.
    With the step contract every index of the domain is visited once: ranks are distinct and consecutive, starting from 0 at the first."""
    D, P, D1, P1, m = z3.Ints("D P D1 P1 m")
    e.lemma("no position", [], z3.And(z3.IntVal(0) == 1 - z3.IntVal(1)))
    e.lemma("a position at its last value falls back to its first", [m >= 1, D == 1 - P, D1 == D - (m - 1) * P, P1 == P * m], D1 == 1 - P1)
    e.lemma("the position that moves adds its weight", [D == 1 - P, D1 == D + P], D1 == 1)
