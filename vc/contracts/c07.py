"""C07: tensor index <-> offset.  Class invariant of Tensor: Strides[k] = P(k) with P(0) = 1, P(k+1) = P(k) * Dimensions[k] (first index fastest;
mirrored for last index fastest), ElementCount = P(rank); element count below 2^62 (a larger tensor cannot be stored)."""
from unit import *
I64 = IntTy(64); TU = "tensors"; BIG = 1 << 40; LIM = 1 << 62
FN = "Moment::Tensor::"

class T:
    def __init__(self, e, st, t):
        self.e = e; self.t = t; C = lambda o: e.const(f"vp_off_{t}_{o}")
        self.p = e.obj(st, "tensor", e.const("vp_size_" + t)); nl = e.arg("rank", 64, 1, BIG); self.nl = nl; self.n = e.z(nl)
        self.dp, self.D = e.array(st, "dims", nl, I64, (0, LIM)); self.sp, self.S = e.array(st, "strides", nl, I64, (0, LIM))
        for o, dp in (("dim", self.dp), ("str", self.sp)):
            for k, v in enumerate((dp, dp + nl * 8, dp + nl * 8)): e.put(st, self.p, C(o) + 8 * k, "ptr", v)
        self.el = e.arg("elements", 64, 0, LIM); e.put(st, self.p, C("cnt"), "i64", nl); e.put(st, self.p, C("el"), "i64", self.el)
        self.fast_first = t == "tl"

    def index(self, st, name, n=None):
        e = self.e; n = self.nl if n is None else n
        return e.array(st, name, n, I64, (0, LIM))

for t in ("tl", "tf"):
    nm = {"tl": "last index major", "tf": "first index major"}[t]
    @unit("C07", f"index_to_offset_no_checks ({nm})", tu=TU, fn=FN + "index_to_offset_no_checks")
    def _(e, t=t):
        st = e.state(); o = T(e, st, t); ip, idx = o.index(st, "index"); Z = z3.IntSort()
        SUM = z3.Function("SUM", Z, Z); st.assume(SUM(0) == 0); k = z3.Int("sk")
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= o.n), z3.And(0 <= SUM(k), SUM(k) < LIM)), patterns=[SUM(k)]))
        def tpl(v):
            v.facts.append(z3.Implies(z3.And(0 <= v.k, v.k < o.n), SUM(v.k + 1) == SUM(v.k) + idx[v.k] * o.S[v.k]))
            v.facts.append(z3.And(idx[v.k] * o.S[v.k] >= 0, SUM(v.k + 1) < LIM))
            return [("sum so far", e.z(x["term"]) == SUM(v.k)) for x in v.vars if isinstance(x["ty"], IntTy) and x["ty"].w == 64]
        e.loop_templates.append(tpl); e.cover(st, "pre")
        for s, v in e.check_outs(e.call_function(st, "vp_raw_" + t, [o.p, ip, o.nl])):
            e.prove(s, e.z(v) == SUM(o.n), "offset is the sum of index times stride")
            e.prove(s, e.arr_at(s, ip)[k] == idx[k], "index unchanged", "frame")

    @unit("C07", f"offset_to_index_no_checks ({nm})", tu=TU, fn=FN + "offset_to_index_no_checks")
    def _(e, t=t):
        st = e.state(); o = T(e, st, t); Z = z3.IntSort(); off = e.arg("offset", 64, 0, LIM); out = e.obj(st, "out", 24)
        k = z3.Int("sk"); div = o.D if t == "tl" else o.S
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.n), div[k] > 0), patterns=[div[k]]))
        Q = z3.Function("Q", Z, Z); st.assume(Q(0) == e.z(off)); st.assume(z3.ForAll([k], z3.And(0 <= Q(k), Q(k) < LIM), patterns=[Q(k)]))
        nxt = (lambda k: Q(k) / div[k]) if t == "tl" else (lambda k: Q(k) % div[k])
        val = (lambda k: Q(k) % div[k]) if t == "tl" else (lambda k: Q(k) / div[k])
        j = z3.Int("oj")
        def tpl(v):
            v.facts.append(z3.Implies(z3.And(0 <= v.k, v.k < o.n), Q(v.k + 1) == nxt(v.k)))
            r = [("remaining offset", e.z(x["term"]) == Q(v.k)) for x in v.vars if isinstance(x["ty"], IntTy) and x["ty"].w == 64]
            return r + [("digits", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.k), x["term"][j] == val(j)), patterns=[x["term"][j]])) for x in v.arrays]
        e.loop_templates.append(tpl); e.cover(st, "pre")
        for s, v in e.check_outs(e.call_function(st, "vp_idx_" + t, [out, o.p, off])):
            b, en = (e.norm_ptr(s, e.get(s, out, 8 * i, "ptr")) for i in (0, 1))
            e.prove(s, z3.And(z3.BoolVal(b.r == en.r), e.z(b.off) == 0, e.z(en.off) == 8 * o.n), "as many indices as dimensions")
            a = e.arr_at(s, b); j2 = z3.Int("j!c"); s.assume(z3.And(0 <= j2, j2 < o.n)); e.prove(s, a[j2] == val(j2), "digit of the offset")

    for f, what in (("vidx", "validate_index"), ("off_X_chk", "index_to_offset"), ("voff", "validate_offset")):
        @unit("C07", f"{what} ({nm})", tu=TU, noinline=("bad_tensor_index::",), fn=FN + what)
        def _(e, t=t, f=f, what=what):
            st = e.state(); o = T(e, st, t); C = e.const(f"vp_size_{t}")
            if f == "voff":
                off = e.arg("offset", 64); e.cover(st, "pre")
                for s, kind, v in e.call_function(st, "vp_voff_" + t, [o.p, off]):
                    e.prove(s, (e.z(off) < e.z(o.el)) if kind == "ret" else e.z(off) >= e.z(o.el), "accepted exactly if below the element count")
                return
            rl = e.arg("r", 64, 0, BIG); r = e.z(rl); ip, idx = e.array(st, "index", rl, I64, (0, (1 << 64) - 1)); k = z3.Int("sk"); e.cover(st, "pre")
            if f != "vidx": e.loop_templates.append(lambda v: [])
            good = z3.And(r == o.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.n), idx[k] < o.D[k])))
            kk = z3.Int("bad!c")
            for s, kind, v in e.call_function(st, f"vp_{f.replace('X', t)}_{t}" if f == "vidx" else f"vp_off_{t}_chk", [o.p, ip, rl]):
                if kind == "ret":
                    e.prove(s, r == o.n, "accepted only with the right rank"); s1 = s.copy(); s1.assume(z3.And(0 <= kk, kk < o.n)); e.prove(s1, idx[kk] < o.D[kk], "accepted only in range")
                else: e.prove(s, z3.Not(good), "rejected only if out of range or of wrong rank")

@unit("C07", "lemma: encoding and decoding are inverse", fn="(index_to_offset_no_checks and offset_to_index_no_checks contracts)")
def _(e):
    """H(k) = idx[k] + D[k] H(k+1), H(n) = 0 (Horner form); SUM, Q, P as in the contracts.  Induction steps."""
    s, s1, i, P, P1, D, H, H1, H0, Q, Q1, off, d = z3.Ints("s s1 i P P1 D H H1 H0 Q Q1 off d")
    e.lemma("sum(k) + P(k) H(k) is the same for all k, so the offset is H(0)", [s1 == s + i * P, P1 == P * D, H == i + D * H1], s1 + P1 * H1 == s + P * H)
    e.lemma("decoding step: Q(k) = H(k) gives digit idx[k] and Q(k+1) = H(k+1)", [H == i + D * H1, 0 <= i, i < D, Q == H, H1 >= 0], z3.And(Q % D == i, Q / D == H1))
    e.lemma("encoding the digits: sum(k) + P(k) Q(k) stays the offset", [D >= 1, Q >= 0, d == Q % D, Q1 == Q / D, s1 == s + d * P, P1 == P * D, Q == d + D * Q1], s1 + P1 * Q1 == s + P * Q)
    e.lemma("division with remainder", [D >= 1, Q >= 0, d == Q % D, Q1 == Q / D], z3.And(Q == d + D * Q1, 0 <= d, d < D, Q1 >= 0))
    e.lemma("nothing remains after the last digit", [P >= 1, Q >= 0, s >= 0, s + P * Q == off, off < P], Q == 0)
    e.lemma("offset in range: sum(k) < P(k)", [s <= P - 1, 0 <= i, i <= D - 1, P >= 1, s1 == s + i * P, P1 == P * D], s1 <= P1 - 1)
    # last index fastest: Q(k+1) = Q(k) mod S(k), digit Q(k) / S(k), S(k-1) = S(k) D(k)
    S, Sp = z3.Ints("S Sp")
    e.lemma("digit below its dimension", [S >= 1, D >= 1, Q >= 0, Q < S * D, d == Q / S, Q == S * d + Q1, 0 <= Q1, Q1 < S], z3.And(0 <= d, d < D))

for t in ("tl", "tf"):
    nm = {"tl": "last index major", "tf": "first index major"}[t]
    @unit("C07", f"construction ({nm})", tu=TU, fn=FN + "Tensor, StrideCalculator, calculateNumberOfElements", timeout=30000)
    def _(e, t=t):
        st = e.state(); C = lambda o: e.const(f"vp_off_{t}_{o}"); p = e.obj(st, "tensor", e.const("vp_size_" + t)); Z = z3.IntSort()
        nl = e.arg("rank", 64, 1, BIG); n = e.z(nl); dp, D = e.array(st, "dims", nl, I64, (0, LIM)); v0 = e.obj(st, "vec", 24)
        for k, x in enumerate((dp, dp + nl * 8, dp + nl * 8)): e.put(st, v0, 8 * k, "ptr", x)
        # P(m): product of the m fastest dimensions
        P = z3.Function("P", Z, Z); m = z3.Int("pm"); dim = (lambda m: D[m]) if t == "tl" else (lambda m: D[n - 1 - m])
        st.assume(P(0) == 1); st.assume(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m <= n), z3.And(0 <= P(m), P(m) < LIM)), patterns=[P(m)]))
        fast = lambda j: j if t == "tl" else n - 1 - j
        j = z3.Int("sj")
        R = z3.Function("R", Z, Z); st.assume(R(0) == 1); st.assume(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m <= n), z3.And(0 <= R(m), R(m) < LIM)), patterns=[R(m)]))   # product in storage order
        def tpl(v):
            ptrs = [x for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == dp.r]
            out = []; pos = None
            for x in ptrs:
                i = e.z(e.exact_div(x["term"].off, 8))
                pos = i if t == "tl" or "rbegin" in "" else i
                for d in range(-1, 5): v.facts.append(z3.Implies(z3.And(0 <= i + d, i + d < n), R(i + d + 1) == R(i + d) * D[i + d])); v.facts.append(z3.Implies(z3.And(0 <= i + d, i + d < n), R(i + d) * D[i + d] < LIM))
                for y in v.vars:
                    if isinstance(y["ty"], IntTy) and y["ty"].w == 64: out.append(("product so far", e.z(y["term"]) == R(i)))
            v.facts.append(z3.Implies(z3.And(0 <= v.k, v.k < n), z3.And(P(v.k + 1) == P(v.k) * dim(v.k), P(v.k) * dim(v.k) < LIM)))
            for y in v.vars:
                if isinstance(y["ty"], IntTy) and y["ty"].w == 64: out.append(("stride so far", e.z(y["term"]) == P(v.k)))
            for x in v.arrays: out.append(("strides", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, fast(j) < v.k), x["term"][j] == P(fast(j))), patterns=[x["term"][j]])))
            return out
        e.loop_templates.append(tpl); e.cover(st, "pre")
        for s, v in e.check_outs(e.call_function(st, "vp_ctor_" + t, [p, v0])):
            e.prove(s, z3.And(e.z(e.get(s, p, C("cnt"), "i64")) == n, e.z(e.get(s, p, C("el"), "i64")) == R(n)), "rank and element count (product of the dimensions)")
            b, en = (e.norm_ptr(s, e.get(s, p, C("str") + 8 * i, "ptr")) for i in (0, 1)); d0, d1 = (e.norm_ptr(s, e.get(s, p, C("dim") + 8 * i, "ptr")) for i in (0, 1))
            e.prove(s, z3.And(z3.BoolVal(b.r == en.r and s.mem[b.r].alive and d0.r == d1.r == dp.r), e.z(b.off) == 0, e.z(en.off) == 8 * n, e.z(d0.off) == 0, e.z(d1.off) == 8 * n), "one stride per dimension")
            a = e.arr_at(s, b); jj = z3.Int("j!c"); s.assume(z3.And(0 <= jj, jj < n)); e.prove(s, a[jj] == P(fast(jj)), "stride is the product of the faster dimensions"); e.prove(s, e.arr_at(s, dp)[jj] == D[jj], "dimensions kept", "frame")
