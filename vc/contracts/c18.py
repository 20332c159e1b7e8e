"""C18: which entries of a tensor a choice of measurements refers to; what an entry of the probability tensor is made of; functionals of correlators."""
from words import *
TU = "probability"; I64 = IntTy(64); BIG = 1 << 40; HUGE = 1 << 60; Z = z3.IntSort()
def vec(e, st, p, off, d, nbytes):
    for k, v in enumerate((d, d + nbytes, d + nbytes)): e.put(st, p, off + 8 * k, "ptr", v)
def at(e, s, p, k=0): return e.z(e.as_u(s, e.get(s, p, k, "i64"), 64))

KINDS = {"cg": ("CollinsGisin", "cg", "cr", None, "gm"), "lcg": ("Locality::LocalityCollinsGisin", "cg", "cr", "pmi", "gm"), "lpt": ("Locality::LocalityProbabilityTensor", "pt", "pr", "pmi", "lgm")}
def setup(e, kind, sizes=True):
    C = lambda o: e.const("vp_off_" + o); cls, t, r, idx, gm = KINDS[kind]; st = e.state(); p = e.obj(st, "tensor", e.const("vp_size_" + kind)); o = e.obj(st, "range", e.const("vp_size_" + r))
    Dl, Gl = e.arg("axes", 64, 1, BIG), e.arg("measurements", 64, 0, BIG); D, G = e.z(Dl), e.z(Gl)
    d, _ = e.array(st, "dimensions", Dl, I64, (0, BIG)); vec(e, st, p, C(t + "_dims"), d, Dl * 8); gs = e.const("vp_size_" + gm); rr = e.array_region(st, "measurement_table", Gl, gs, {C(gm + "_" + f): (I64, None) for f in ("party", "offset", "length")}); F = {f: rr.fields[C(gm + "_" + f)][1] for f in ("party", "offset", "length")}
    e.array_range(st, F["party"], 0, BIG); e.array_range(st, F["offset"], 1, BIG); e.array_range(st, F["length"], 0, BIG); vec(e, st, p, C(t + "_gm"), Ptr(rr.id, Lin(0)), Gl * gs)
    i = z3.Int("gi"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < G), F["party"][i] < D), patterns=[F["party"][i]]))
    return st, p, o, Dl, Gl, F, d
def choice(e, st, kind, name, size=None, off=None, extra={}):
    """a list of measurements: pointer, length, global indices"""
    nl = e.arg(name + "_count", 64, 0, BIG)
    if size is None: q, m = e.array(st, name, nl, I64, (0, HUGE)); return q, nl, m, {}
    r = e.array_region(st, name, nl, size, {off: (I64, None), **extra}); m = r.fields[off][1]; e.array_range(st, m, 0, HUGE); return Ptr(r.id, Lin(0)), nl, m, {k: r.fields[k][1] for k in extra}

class Law:
    """the axes chosen by lists of measurements: list l covers axis d with [lo_l(j), hi_l(j)) by its entry j"""
    def __init__(s, e, st, F, G, lists):
        s.e, s.F, s.G, s.lists = e, F, G, lists; s.HIT, s.W, s.BAD = [], [], z3.Bool("BAD"); j, d, k, l = z3.Ints("hj hd hk hl"); P = F["party"]
        for q, (n, m, lo, hi) in enumerate(lists):
            H, W = z3.Function(f"HIT{q}", Z, Z, z3.BoolSort()), z3.Function(f"BY{q}", Z, Z, Z); s.HIT.append(H); s.W.append(W)
            st.assume(z3.ForAll([d, k], z3.Implies(H(d, k), z3.And(0 <= W(d, k), W(d, k) < k, P[m[W(d, k)]] == d)), patterns=[H(d, k)])); st.assume(z3.ForAll([d, k, j], z3.Implies(z3.And(0 <= j, j < k, P[m[j]] == d), H(d, k)), patterns=[z3.MultiPattern(H(d, k), m[j])]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, m[j] >= G), s.BAD), patterns=[m[j]])); st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n, P[m[j]] == P[m[k]]), s.BAD), patterns=[z3.MultiPattern(m[j], m[k])]))
        if len(lists) == 2: a, b = lists[0][1], lists[1][1]; st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < lists[0][0], 0 <= k, k < lists[1][0], P[a[j]] == P[b[k]]), s.BAD), patterns=[z3.MultiPattern(a[j], b[k])]))
    def holds(s, lo, hi, ks, D):
        """the facts after the first ks[q] entries of list q"""
        P = s.F["party"]; d, j, k = z3.Ints("ld lj lk"); out = []
        for q, (n, m, a, b) in enumerate(s.lists):
            t = ks[q]; out += [("the measurements read exist", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), m[j] < s.G), patterns=[m[j]])), ("their axes start at their outcomes", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), lo[P[m[j]]] == a(j)), patterns=[m[j]])), ("and end after them", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), hi[P[m[j]]] == b(j)), patterns=[m[j]])),
                ("one measurement per axis", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < t), P[m[j]] != P[m[k]]), patterns=[z3.MultiPattern(m[j], m[k])]))]
        if len(s.lists) == 2: m0, m1 = s.lists[0][1], s.lists[1][1]; out.append(("one measurement per axis, free or fixed", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < ks[0], 0 <= k, k < ks[1]), P[m0[j]] != P[m1[k]]), patterns=[z3.MultiPattern(m0[j], m1[k])])))
        out.append(("other axes stay at the identity", z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < D), z3.Or(*[H(d, ks[q]) for q, H in enumerate(s.HIT)], z3.And(lo[d] == 0, hi[d] == 1))), patterns=[lo[d]])))
        return out
def run(e, st, kind, fn, args, law, D, o, listed, d0, tensor):
    C = lambda x: e.const("vp_off_" + x); r = KINDS[kind][2]; dim = {}
    def tpl(v):
        A = [x["term"] for x in v.arrays]; out = []; j = z3.Int("tj")
        for a in A: out += [("zero so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.k), a[j] == 0), patterns=[a[j]])), ("one so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.k), a[j] == 1), patterns=[a[j]]))]
        if len(A) == 2:
            for q in range(len(listed)):
                ks = [z3.IntVal(0) if x > q else (v.k if x == q else law.lists[x][0]) for x in range(len(listed))]
                for x, y in ((0, 1), (1, 0)): out += law.holds(A[x], A[y], ks, D)
        return out
    e.loop_templates.append(tpl); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, fn, [o] + args), no_throw=False):
        if v == "throw": e.prove(s, law.BAD, "refuses only measurements that do not exist, or two of one axis"); continue
        lo, hi = (e.norm_ptr(s, e.get(s, o, C(f"{r}_{x}"), "ptr")) for x in ("first", "last")); a, b = e.arr_at(s, lo), e.arr_at(s, hi)
        for x, n in (("first", "lower"), ("last", "upper")): e.prove(s, e.z(e.exact_div(e.get(s, o, C(f"{r}_{x}") + 8, "ptr").off, 8)) == D, f"one {n} bound per axis")
        t = e.norm_ptr(s, e.get(s, o, C(r + "_tensor"), "ptr")); e.prove(s, z3.BoolVal(t.r == tensor.r), "the range is of this tensor")
        for nm, f in law.holds(a, b, [x[0] for x in law.lists], D): e.prove(s, f, nm)

@unit("C18", "entries of a choice of measurements", tu=TU, fn="Moment::CollinsGisin::measurement_to_range(mmtIndices)")
def _(e):
    """each chosen measurement's axis runs over its outcomes, every other axis stays at the identity; refused exactly if a measurement does not exist or two share an axis"""
    st, p, o, Dl, Gl, F, d = setup(e, "cg"); q, nl, m, _ = choice(e, st, "cg", "chosen"); law = Law(e, st, F, e.z(Gl), [(e.z(nl), m, lambda j: F["offset"][m[j]], lambda j: F["offset"][m[j]] + F["length"][m[j]])]); run(e, st, "cg", "vp_cg_range", [p, q, nl], law, e.z(Dl), o, [q], d, p)

@unit("C18", "entries of a choice of measurements, some outcomes fixed", tu=TU, fn="Moment::CollinsGisin::measurement_to_range(mmtIndices, fixedOutcomes)", budget=400)
def _(e):
    """likewise, an axis with a fixed outcome holding only that outcome"""
    st, p, o, Dl, Gl, F, d = setup(e, "cg"); q, nl, m, _ = choice(e, st, "cg", "chosen"); fq, f = e.array(st, "outcomes", nl, I16, (-32768, 32767)); O, N = F["offset"], F["length"]
    law = Law(e, st, F, e.z(Gl), [(e.z(nl), m, lambda j: z3.If(f[j] >= 0, O[m[j]] + f[j], O[m[j]]), lambda j: z3.If(f[j] >= 0, O[m[j]] + f[j] + 1, O[m[j]] + N[m[j]]))]); run(e, st, "cg", "vp_cg_fixed", [p, q, nl, fq], law, e.z(Dl), o, [q], d, p)

for kind, cls in (("lcg", "Locality::LocalityCollinsGisin"), ("lpt", "Locality::LocalityProbabilityTensor")):
    @unit("C18", f"entries of a choice of measurements, {'Collins-Gisin' if kind == 'lcg' else 'probability tensor'} of a locality scenario", tu=TU, fn=f"Moment::{cls}::measurement_to_range(mmtIndices)")
    def _(e, kind=kind):
        """each chosen measurement's axis runs over its outcomes, every other axis stays at the identity; refused exactly if a measurement does not exist or two share an axis"""
        st, p, o, Dl, Gl, F, d = setup(e, kind); q, nl, m, _ = choice(e, st, kind, "chosen", e.const("vp_size_pmi"), e.const("vp_off_pmi_global")); law = Law(e, st, F, e.z(Gl), [(e.z(nl), m, lambda j: F["offset"][m[j]], lambda j: F["offset"][m[j]] + F["length"][m[j]])]); run(e, st, kind, f"vp_{kind}_range", [p, q, nl], law, e.z(Dl), o, [q], d, p)

    @unit("C18", f"entries of a choice of measurements and outcomes, {'Collins-Gisin' if kind == 'lcg' else 'probability tensor'} of a locality scenario", tu=TU, fn=f"Moment::{cls}::measurement_to_range(freeMeasurements, fixedOutcomes)", budget=500)
    def _(e, kind=kind):
        """each chosen measurement's axis runs over its outcomes, each fixed outcome's axis holds only that, every other axis stays at the identity"""
        st, p, o, Dl, Gl, F, d = setup(e, kind); q, nl, m, _ = choice(e, st, kind, "chosen", e.const("vp_size_pmi"), e.const("vp_off_pmi_global")); x = e.const("vp_off_pmo_outcome"); fq, fl, f, ex = choice(e, st, kind, "fixed", e.const("vp_size_pmo"), e.const("vp_off_pmo_global"), {x: (IntTy(32), None)}); out = ex[x]; e.array_range(st, out, 0, (1 << 32) - 1); O, N = F["offset"], F["length"]
        law = Law(e, st, F, e.z(Gl), [(e.z(nl), m, lambda j: O[m[j]], lambda j: O[m[j]] + N[m[j]]), (e.z(fl), f, lambda j: O[f[j]] + out[j], lambda j: O[f[j]] + out[j] + 1)]); run(e, st, kind, f"vp_{kind}_fixed", [p, q, nl, fq, fl], law, e.z(Dl), o, [q, fq], d, p)
