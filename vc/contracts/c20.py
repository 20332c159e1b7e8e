"""C20: basis coefficients of polynomials.  Symbol X stands for a[re(X)] + i b[im(X)] (a term without basis element is absent); re and im are
one-to-one (class invariant of the symbol table, C10), with inverses RS, IS.  Sparse vectors, triplet lists and bit masks by their contracts:
a vector holds one coefficient per index it was inserted at, and nothing may be inserted twice."""
from polys import *
TU = "basis"; FN = "Moment::PolynomialToBasisVec::"
SPARSE = r"^Eigen::SparseVector<(double|std::complex<double>), 0, int>::"
NI = (SPARSE, r"::approximately_zero\(", r"vector<Eigen::Triplet<double, int>.*::emplace_back", "DynamicBitset<", "unknown_symbol::unknown_symbol", r"::approximately_same_norm", "::approximately_real")

class Sc:
    """polynomial in canonical order over a table; an arbitrary symbol K with its factors f0 (of K) and f1 (of K*)"""
    def __init__(S, e, nonzero=False):
        S.e = e; S.st = st = e.state(); C = lambda o: e.const("vp_off_" + o); S.C = C; S.p = Poly(e, st, "p"); S.a = a = S.p.a; S.n = n = S.p.n; S.T = T = Table(e, st); T.known(st, S.p)
        S.tol = e.real("tol"); S.nrl = e.arg("reals", 64, 0, 1 << 28); S.nil = e.arg("imaginaries", 64, 0, 1 << 28); S.nr, S.ni = e.z(S.nrl), e.z(S.nil); st.assume(z3.And(0 <= S.nr, S.nr <= 1 << 28, 0 <= S.ni, S.ni <= 1 << 28))
        sy = [r for r in st.mem.values() if r.name.startswith("symbols")][0]
        S.RS, S.IS = z3.Function("RS", z3.IntSort(), z3.IntSort()), z3.Function("IS", z3.IntSort(), z3.IntSort())
        S.base, S.at = {}, {}
        sz = e.const("vp_size_sym");
        st2 = e.array_region(st, "symbols2", T.nl, sz, {C("sym_h"): (I8, None), C("sym_a"): (I8, None), C("sym_re"): (I64, None), C("sym_im"): (I64, None)})
        T.h, T.ah = st2.fields[C("sym_h")][1], st2.fields[C("sym_a")][1]; raw = st2.fields[C("sym_re")][1], st2.fields[C("sym_im")][1]; d = Ptr(st2.id, Lin(0))
        for k, v in enumerate((d, d + T.nl * sz, d + T.nl * sz)): e.put(st, T.p, C("table_seq") + 8 * k, "ptr", v)
        for off, cnt in (("basis_re", S.nrl), ("basis_im", S.nil)):
            w = e.obj(st, off, 8); 
            for k, v in enumerate((w, w + cnt * 8, w + cnt * 8)): e.put(st, T.p, C("table_basis") + C(off) + 8 * k, "ptr", v)
        S.re, S.im = raw; i = z3.Int("bi")
        for arr, cnt, inv in ((S.re, S.nr, S.RS), (S.im, S.ni, S.IS)):

            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.n), z3.Or(arr[i] == (1 << 64) - 1, z3.And(0 <= arr[i], arr[i] < cnt, inv(arr[i]) == i))), patterns=[arr[i]])); e.array_range(st, arr, 0, (1 << 64) - 1)
        x, y = z3.Ints("ox oy"); st.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), a.key(x) < a.key(y)), patterns=[z3.MultiPattern(a.id[x], a.id[y])]))
        if nonzero: st.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.Not(z3.And(a.re[x] == 0, a.im[x] == 0))), patterns=[a.id[x]]))
        # Hermitian and anti-Hermitian symbols (those without imaginary, real basis element) occur unconjugated
        no = lambda arr, i: arr[i] == (1 << 64) - 1; S.no = no
        st.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n, z3.Or(no(S.re, a.id[x]), no(S.im, a.id[x]))), a.c[x] == 0), patterns=[a.id[x]]))
        S.K = K = e.z(e.arg("K", 32, 0, MAXID)); st.assume(K < T.n); S.h0, S.h1 = z3.Bools("has0 has1"); S.p0, S.p1 = z3.Ints("pos0 pos1")
        for (h, pos, c) in ((S.h0, S.p0, 0), (S.h1, S.p1, 1)):
            st.assume(z3.If(h, z3.And(0 <= pos, pos < n, a.key(pos) == 2 * K + c), z3.And(pos == -1, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), a.key(x) != 2 * K + c), patterns=[a.id[x]]))))
        adj = z3.Implies(z3.And(S.h0, S.h1), z3.And(S.p1 == S.p0 + 1, a.id[S.p0 + 1] == a.id[S.p0])); s0 = st.copy(); s0.assume(a.id[S.p0 + 1] >= 0); e.prove(s0, adj, "X and X* are neighbours", "lemma"); st.assume(adj)
        lem = lambda x: z3.Implies(z3.And(0 <= x, x < n, a.id[x] == K), z3.If(a.c[x] == 0, z3.And(S.h0, S.p0 == x), z3.And(S.h1, S.p1 == x, S.p0 < x)))
        x0 = z3.Int("lem!x"); e.prove(st, lem(x0), "where K and K* occur", "lemma"); st.assume(z3.ForAll([x], lem(x), patterns=[a.id[x]]))
        S.f0 = (z3.If(S.h0, a.re[S.p0], 0), z3.If(S.h0, a.im[S.p0], 0)); S.f1 = (z3.If(S.h1, a.re[S.p1], 0), z3.If(S.h1, a.im[S.p1], 0)); f0, f1 = S.f0, S.f1
        S.rK, S.iK = S.re[K], S.im[K]; S.hasr, S.hasi = z3.Not(no(S.re, K)), z3.Not(no(S.im, K))
        g = [e.real(f"K_f{i}{c}") for i in "01" for c in ("re", "im")]
        for x, y in zip(g, f0 + f1): st.assume(x == y)
        S.f0, S.f1 = f0, f1 = (g[0], g[1]), (g[2], g[3])
        # f0 (a + ib) + f1 (a - ib) = (ra a + rb b) + i (ia a + ib b)
        S.ra, S.rb, S.ia, S.ib = f0[0] + f1[0], f1[1] - f0[1], f0[1] + f1[1], f0[0] - f1[0]
        A, B = z3.Reals("A B"); mul = lambda f, x: (f[0] * x[0] - f[1] * x[1], f[0] * x[1] + f[1] * x[0]); u, v = mul(f0, (A, B)), mul(f1, (A, -B))
        e.lemma("coefficients give the value of the terms in K", [], z3.And(u[0] + v[0] == S.ra * A + S.rb * B, u[1] + v[1] == S.ia * A + S.ib * B))
        S.arr = []
        e.contract_rx.append((re.compile("unknown_symbol::unknown_symbol"), Contract("unknown_symbol()", lambda e, s, a, I: [(s, None)])))
    def vec(S, name, real, ncells, offset=0):
        """ghost: coefficients stored so far at each index, and whether something is stored there"""
        e, st = S.e, S.st; cnt = S.nrl if real else S.nil
        r = e.array_region(st, name, cnt, 8 * ncells, {8 * k: (F64, None) for k in range(ncells)}); h = e.array_region(st, name + "?", cnt, 8, {0: (I64, None)}); i = z3.Int("zi")
        for k in range(ncells): st.assume(z3.ForAll([i], r.fields[8 * k][1][i] == 0, patterns=[r.fields[8 * k][1][i]]))
        st.assume(z3.ForAll([i], h.fields[0][1][i] == 0, patterns=[h.fields[0][1][i]])); d = dict(name=name, real=real, r=r.id, h=h.id, n=cnt, w=8 * ncells, cells=ncells); S.arr.append(d); return d
    def insert(S, s, d, idx):
        """obligations of an insertion; returns the cell"""
        e = S.e; h = Ptr(d["h"], Lin(0)); e.prove(s, z3.And(0 <= e.z(idx), e.z(idx) < e.z(d["n"])), "index is a basis element", "pre")
        e.prove(s, e.z(e.as_u(s, e.get(s, h + idx * 8, 0, "i64"), 64)) == 0, "one coefficient per basis element", "pre"); e.put(s, h + idx * 8, 0, "i64", Lin(1)); return Ptr(d["r"], Lin(0)) + idx * d["w"]
    def template(S, want):
        """want(d) -> list of (coefficient of K's basis element, dropped?)"""
        e = S.e; a = S.a; q = z3.Int("q")
        def tpl(v):
            m = {x["entry"].get_id(): x["term"] for x in v.arrays}; out = []
            pos = [e.z(e.exact_div(x["term"].off, 24)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == S.p.r.id]
            for i in pos:
                d0 = z3.And(S.h0, i > S.p0); d1 = z3.And(S.h1, i > S.p1); done = z3.Or(d0, d1); inv = None
                out += [("range", z3.And(0 <= i, i <= S.n)), ("X and X* are taken together", z3.Implies(z3.And(S.h0, S.h1), d0 == d1))]
                for d in S.arr:
                    R, H = v.entry.mem[d["r"]], v.entry.mem[d["h"]]; inv = S.RS if d["real"] else S.IS; has = S.hasr if d["real"] else S.hasi; k = S.rK if d["real"] else S.iK
                    hh = H.fields[0][1]; hh = m.get(hh.get_id(), hh)
                    out += [(d["name"] + ": nothing stored for symbols to come", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < e.z(d["n"]), i < S.n, inv(q) >= a.id[i]), hh[q] == 0), patterns=[hh[q]]))]
                    for c, (w, drop) in enumerate(want(d)):
                        b = R.fields[8 * c][1]; b = m.get(b.get_id(), b)
                        out += [(d["name"] + f": coefficient of K {c}", z3.Implies(z3.And(has, done), b[k] == z3.If(drop, 0, w))), (d["name"] + f": K not yet taken {c}", z3.Implies(z3.And(has, z3.Not(done)), b[k] == 0)), (d["name"] + f": zero where nothing is stored {c}", z3.ForAll([q], z3.Implies(hh[q] == 0, b[q] == 0), patterns=[b[q]]))]
            return out
        e.loop_templates.append(tpl)
    def final(S, s, want):
        e = S.e
        for d in S.arr:
            has = S.hasr if d["real"] else S.hasi; k = S.rK if d["real"] else S.iK
            for c, (w, drop) in enumerate(want(d)):
                b = s.mem[d["r"]].fields[8 * c][1]; h = z3.Or(S.h0, S.h1)
                e.prove(s, z3.Implies(has, b[k] == z3.If(z3.And(h, z3.Not(drop)), w, 0)), f"{d['name']}: the coefficient of every basis element{', part %d' % c if d['cells'] > 1 else ''}")

def sparse(S, out, where):
    """where: offset of a sparse vector in the output -> its ghost"""
    e = S.e; which = lambda s, p: where[e.norm_ptr(s, p).off.c if hasattr(e.norm_ptr(s, p).off, "c") else 0]
    def reg(rx, nm, f): e.contract_rx.append((re.compile(SPARSE + rx), Contract("Eigen::SparseVector::" + nm, f)))
    reg(r"SparseVector\(\)", "SparseVector()", lambda e, s, a, I: [(s, None)]); reg(r"~SparseVector\(", "~SparseVector()", lambda e, s, a, I: [(s, None)]); reg(r"finalize\(", "finalize", lambda e, s, a, I: [(s, None)])
    def resize(e, s, a, I): d = which(s, a[0]); e.prove(s, e.z(e.as_u(s, a[1], 64)) == e.z(d["n"]), "one entry per basis element", "pre"); S.resized.add(d["name"]); return [(s, None)]
    reg(r"resize\(", "resize", resize); S.resized = set()
    reg(r"insert\(", "insert", lambda e, s, a, I: [(s, S.insert(s, which(s, a[0]), e.as_s(s, a[1], 64)))])

SMALL = z3.Function("SMALL", z3.RealSort(), z3.RealSort(), z3.BoolSort())
def use_small(e): e.contract_rx.append((re.compile(r"::approximately_zero\(double"), Contract("approximately_zero(double)", lambda e, st, a, I: [(st, SMALL(*a[:2]))])))
def small(x, tol): return SMALL(x, tol)

@unit("C20", "approximately zero", tu=TU, fn="Moment::approximately_zero(double)")
def _(e):
    st = e.state(); x, t = e.real("x"), e.real("tol"); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_small", [x, t])): e.prove(s, e.b(v) == (z3.If(x >= 0, x, -x) <= t * EPS), "modulus within tolerance")

for fn, name, which in (("vp_re", "real part of a polynomial in the basis", "r"), ("vp_im", "imaginary part of a polynomial in the basis", "i"), ("vp_both", "real and imaginary part of a polynomial in the basis", "ri")):
    @unit("C20", name, tu=TU, noinline=NI, fn=FN + {"r": "Real", "i": "Imaginary", "ri": "operator()"}[which], timeout=30000)
    def _(e, fn=fn, which=which):
        use_small(e); S = Sc(e); C = S.C; out = e.obj(S.st, "out", e.const("vp_size_ribv")); where = {}; W = {}
        for k, part in enumerate(which):
            base = (C("ribv_re") if part == "r" else C("ribv_im")) if len(which) > 1 else 0
            for o, real in ((C("rbv_re"), True), (C("rbv_im"), False)):
                d = S.vec(f"{'real' if part == 'r' else 'imaginary'} part, {'a' if real else 'b'}", real, 1); where[base + o] = d
                W[d["name"]] = {"r": (S.ra, S.rb), "i": (S.ia, S.ib)}[part][0 if real else 1]
        want = lambda d: [(W[d["name"]], small(W[d["name"]], S.tol))]
        sparse(S, out, where); S.template(want); e.auto = False; e.cover(S.st, "pre")
        for s, _ in e.check_outs(e.call_function(S.st, fn, [out, S.T.p, S.tol, S.p.p])): S.final(s, want)
        e.prove(S.st, z3.BoolVal(S.resized == set(W)), "every coefficient vector is given its size")

@unit("C20", "complex basis coefficients of a polynomial", tu=TU, noinline=NI, fn="Moment::PolynomialToComplexBasisVec::operator()", timeout=30000)
def _(e):
    Zf = use_zero(e); S = Sc(e); C = S.C; out = e.obj(S.st, "out", e.const("vp_size_cbv")); a = S.vec("a", True, 2); b = S.vec("b", False, 2); sparse(S, out, {C("cbv_re"): a, C("cbv_im"): b})
    w = {"a": (S.ra, S.ia), "b": (S.rb, S.ib)}; want = lambda d: [(x, Zf(*w[d["name"]], S.tol)) for x in w[d["name"]]]
    S.template(want); e.auto = False; e.cover(S.st, "pre")
    for s, _ in e.check_outs(e.call_function(S.st, "vp_cplx", [out, S.T.p, S.tol, S.p.p])): S.final(s, want)
    e.prove(S.st, z3.BoolVal(S.resized == {"a", "b"}), "every coefficient vector is given its size")

for fn, two in (("vp_trip", True), ("vp_trip1", False)):
    @unit("C20", "rows of triplets" if two else "combined rows of triplets", tu=TU, noinline=NI, fn=FN + "add_triplet_row", timeout=30000)
    def _(e, fn=fn, two=two):
        """a row index below 0: that part is not wanted.  Combined: imaginary row and imaginary columns are moved by the number of real basis elements"""
        use_small(e); S = Sc(e); C = S.C; st = S.st; zr = e.arg("row_re", 64, 0, (1 << 64) - 1); zi = e.arg("row_im", 64, 0, (1 << 64) - 1); H = 1 << 63; wr, wi = e.z(zr) < H, e.z(zi) < H
        for w, x in ((wr, zr), (wi, zi)): st.assume(z3.Implies(w, e.z(x) < 1 << 28))
        L = [e.obj(st, "list_re", 24), e.obj(st, "list_im", 24)] if two else [e.obj(st, "list", 24)] * 2
        off = 0 if two else S.nr
        if not two: st.assume(z3.Implies(z3.And(wr, wi), e.z(zr) != e.z(zi) + S.nr))       # separate rows
        V = {(p, real): S.vec(f"{p}, {'a' if real else 'b'}", real, 1) for p in ("real part", "imaginary part") for real in (True, False)}
        def emplace(e, s, a, I):
            lst = e.norm_ptr(s, a[0]); row, col = (e.z(e.as_u(s, e.get(s, x, 0, "i64"), 64)) for x in a[1:3]); val = e.get(s, a[3], 0, "f64"); out = []
            isr = row == e.z(zr) if not two else z3.BoolVal(lst.r == L[0].r)
            e.prove(s, z3.Or(z3.And(wr, row == e.z(zr)), z3.And(wi, row == e.z(zi) + off)), "row of the real or of the imaginary part", "pre")
            if two: e.prove(s, z3.If(isr, z3.And(wr, row == e.z(zr)), z3.And(wi, row == e.z(zi))), "list of its own part", "pre")
            e.prove(s, z3.And(0 <= col, col < S.nr + S.ni), "column of a basis element", "pre")
            for part, real in V:
                t = s.copy(); t.assume(isr == (part == "real part")); t.assume((col < S.nr) == real)
                if not e.feasible(t): continue
                k = e.fresh_int("ix", 64, 0, 1 << 28); t.assume(e.z(k) == (col if real else col - S.nr)); cell = S.insert(t, V[part, real], k); e.put(t, cell, 0, "f64", val); out.append((t, NULL))
            return out
        e.contract_rx.append((re.compile("vector<Eigen::Triplet<double, int>.*::emplace_back"), Contract("std::vector<Triplet>::emplace_back", emplace)))
        W = {"real part, a": (S.ra, wr), "real part, b": (S.rb, wr), "imaginary part, a": (S.ia, wi), "imaginary part, b": (S.ib, wi)}
        want = lambda d: [(W[d["name"]][0], z3.Or(z3.Not(W[d["name"]][1]), small(W[d["name"]][0], S.tol)))]
        S.template(want); e.auto = False; e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, fn, [S.T.p, S.tol, S.p.p, zr, zi] + (L if two else L[:1]))): S.final(s, want)

def bits(S, out):
    """DynamicBitset::set by its contract (C05): the bit is set, others stay"""
    e = S.e
    def setbit(e, s, a, I):
        d = out[e.norm_ptr(s, a[0]).r]; k = e.as_u(s, a[1], 32); e.prove(s, z3.And(0 <= e.z(k), e.z(k) < e.z(d["n"])), "index is a basis element", "pre"); h = Ptr(d["h"], Lin(0)); e.put(s, h + k * 8, 0, "i64", Lin(1)); return [(s, None)]
    e.contract_rx.append((re.compile(r"DynamicBitset<.*::set\(int\)"), Contract("DynamicBitset::set", setbit)))

@unit("C20", "mask of a monomial", tu=TU, noinline=NI, fn="Moment::PolynomialToBasisMask::set_bits(Monomial)")
def _(e):
    Zf = use_zero(e); S = Sc(e); C = S.C; st = S.st; m = Mono(e, st, "m"); st.assume(m.id == S.K); outs = [e.obj(st, "mask_re", e.const("vp_size_mask")), e.obj(st, "mask_im", e.const("vp_size_mask"))]
    a, b = S.vec("a", True, 1), S.vec("b", False, 1); bits(S, {outs[0].r: a, outs[1].r: b}); e.cover(st, "pre"); q = z3.Int("q!c")
    st.assume(z3.Implies(S.K == 0, z3.And(z3.Not(S.hasr), z3.Not(S.hasi))))                       # the zero symbol has no basis element
    for s, _ in e.check_outs(e.call_function(st, "vp_maskm", [S.T.p, S.tol, m.p, *outs])):
        for d, has, k in ((a, S.hasr, S.rK), (b, S.hasi, S.iK)):
            h = s.mem[d["h"]].fields[0][1]; e.prove(s, z3.Implies(z3.And(0 <= q, q < e.z(d["n"])), h[q] == z3.If(z3.And(has, q == k, z3.Not(Zf(m.re, m.im, S.tol))), 1, 0)), f"{d['name']}: exactly the basis element of the symbol, unless the factor vanishes")

@unit("C20", "mask of a polynomial", tu=TU, noinline=NI + ("__divdc3",), fn="Moment::PolynomialToBasisMask::set_bits(Polynomial)", timeout=30000)
def _(e):
    """a bit is set exactly if the coefficient of its basis element does not vanish; approximate tests by their meaning at tolerance 0"""
    S = Sc(e, nonzero=True); C = S.C; st = S.st; outs = [e.obj(st, "mask_re", e.const("vp_size_mask")), e.obj(st, "mask_im", e.const("vp_size_mask"))]
    a, b = S.vec("a", True, 1), S.vec("b", False, 1); bits(S, {outs[0].r: a, outs[1].r: b}); sq = lambda x, y: x * x + y * y
    def cx(e, s, args, n):
        f = []
        for x in args: f += [e.get(s, x, 0, "f64"), e.get(s, x, 8, "f64")] if isinstance(x, (Ptr, engine.NPtr)) else [x]
        return f
    reg = lambda rx, nm, f: e.contract_rx.append((re.compile(rx), Contract(nm + " at tolerance 0", f)))
    R = z3.RealSort(); SN = z3.Function("SAMENORM", R, R, R, R, z3.BoolSort()); x1, y1, x2, y2 = z3.Reals("x1 y1 x2 y2"); QR, QI = z3.Function("QUO_re", R, R, R, R, R), z3.Function("QUO_im", R, R, R, R, R)
    def samenorm(e, s, args, I): f = cx(e, s, args, 4); return [(s, SN(*f[:4]))]
    reg("approximately_same_norm", "approximately_same_norm", samenorm)
    reg(r"approximately_zero\(std::complex", "approximately_zero", lambda e, s, args, I: [(s, z3.And(*[v == 0 for v in cx(e, s, args, 2)[:2]]))])
    reg("approximately_real", "approximately_real", lambda e, s, args, I: [(s, cx(e, s, args, 2)[1] == 0)])
    def div(e, s, args, I):
        x, y, u, v = cx(e, s, args, 4)[:4]; s.log.append(("div", x, y, u, v)); return [(s, [QR(x, y, u, v), QI(x, y, u, v)])]
    reg("^__divdc3", "complex division", div)
    # algebra at tolerance 0: equal norms and real quotient: factors equal or opposite, according to the sign of the quotient
    q, r = z3.Reals("q r"); hyp = [z3.Or(x2 != 0, y2 != 0), q * x2 - r * y2 == x1, q * y2 + r * x2 == y1]
    e.lemma("equal norms, real quotient", hyp + [sq(x1, y1) == sq(x2, y2), r == 0], z3.If(q >= 0, z3.And(x1 == x2, y1 == y2), z3.And(x1 == -x2, y1 == -y2)))
    e.lemma("equal or opposite factors have equal norms", [z3.Or(z3.And(x1 == x2, y1 == y2), z3.And(x1 == -x2, y1 == -y2))], sq(x1, y1) == sq(x2, y2))
    e.lemma("equal or opposite factors have a real quotient", hyp + [z3.Or(z3.And(x1 == x2, y1 == y2), z3.And(x1 == -x2, y1 == -y2))], r == 0)
    e.assumptions.add("approximate comparisons taken at tolerance 0 (equal norms, vanishing imaginary part); complex division exact")
    # used below: for K's factors f1 (numerator is the plain term, f0)
    eqf = z3.And(S.f0[0] == S.f1[0], S.f0[1] == S.f1[1]); opp = z3.And(S.f0[0] == -S.f1[0], S.f0[1] == -S.f1[1]); qr, qi = QR(*S.f0, *S.f1), QI(*S.f0, *S.f1); f1nz = z3.Or(S.f1[0] != 0, S.f1[1] != 0)
    for nm in ((S.f0, S.f1), (S.f1, S.f0)): st.assume(z3.Implies(z3.Or(eqf, opp), SN(*nm[0], *nm[1])))
    for nm in ((S.f0, S.f1), (S.f1, S.f0)): st.assume(z3.Implies(z3.And(SN(*nm[0], *nm[1]), f1nz, qi == 0), z3.If(qr >= 0, eqf, opp)))
    st.assume(z3.Implies(z3.And(f1nz, z3.Or(eqf, opp)), qi == 0)); st.assume(z3.Implies(z3.And(f1nz, qi == 0, qr < 0), z3.Not(eqf)))
    both = z3.And(S.h0, S.h1); W = {"a": z3.If(both, z3.Not(opp), z3.Or(S.h0, S.h1)), "b": z3.If(both, z3.Not(eqf), z3.Or(S.h0, S.h1))}
    Q = z3.Int("q")
    def tpl(v):
        m = {x["entry"].get_id(): x["term"] for x in v.arrays}; out = []
        for x in v.vars:
            if not (isinstance(x["ty"], PtrTy) and x["term"].r == S.p.r.id): continue
            i = e.z(e.exact_div(x["term"].off, 24)); d0 = z3.And(S.h0, i > S.p0); d1 = z3.And(S.h1, i > S.p1); done = z3.Or(d0, d1)
            out += [("range", z3.And(0 <= i, i <= S.n)), ("X and X* are taken together", z3.Implies(both, d0 == d1))]
            for d, has, k, inv in ((a, S.hasr, S.rK, S.RS), (b, S.hasi, S.iK, S.IS)):
                hh = v.entry.mem[d["h"]].fields[0][1]; hh = m.get(hh.get_id(), hh)
                out += [(d["name"] + ": bit of K", z3.Implies(has, hh[k] == z3.If(z3.And(done, W[d["name"]]), 1, 0)))]
        return out
    e.loop_templates.append(tpl); e.auto = False; e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_mask", [S.T.p, S.tol, S.p.p, *outs])):
        for d, has, k in ((a, S.hasr, S.rK), (b, S.hasi, S.iK)):
            h = s.mem[d["h"]].fields[0][1]; e.prove(s, z3.Implies(has, h[k] == z3.If(W[d["name"]], 1, 0)), f"{d['name']}: set exactly if the coefficient does not vanish")
