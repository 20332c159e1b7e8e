"""C13: Pauli words.  The tables come from the 2x2 matrices, not from the code."""
from words import *
TU = "pauli"; FN = "Moment::Pauli::PauliContext::"; TOP = 32765; Z = z3.IntSort()
u64 = lambda e, s, p, o: e.z(e.as_u(s, e.get(s, p, o, "i64"), 64)); u8 = lambda e, s, p, o: e.z(e.as_u(s, e.get(s, p, o, "i8"), 8))
_S = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((0, -1j), (1j, 0)), ((1, 0), (0, -1))]
_mul = lambda a, b: tuple(tuple(sum(a[i][k] * b[k][j] for k in range(2)) for j in range(2)) for i in range(2))
def _table():
    t = {}
    for a in range(4):
        for b in range(4):
            m = _mul(_S[a], _S[b])
            t[a, b] = next((k, s) for k in range(4) for s in range(4) if all(m[i][j] == (1, 1j, -1, -1j)[s] * _S[k][i][j] for i in range(2) for j in range(2)))
    return t
TAB = _table()
def prod(a, b, which):
    """Pauli (0) or power of i (1) of sigma_a sigma_b"""
    r = z3.IntVal(0)
    for (x, y), v in TAB.items():
        if v[which]: r = z3.If(z3.And(a == x, b == y), v[which], r)
    return r

@unit("C13", "Pauli algebra", fn="lemmas over the matrix tables")
def _(e):
    a, b, c = z3.Ints("a b c"); rng = [z3.And(0 <= x, x < 4) for x in (a, b, c)]
    e.lemma("one-qubit products associate, phases included", rng, z3.And(prod(prod(a, b, 0), c, 0) == prod(a, prod(b, c, 0), 0), (prod(a, b, 1) + prod(prod(a, b, 0), c, 1)) % 4 == (prod(b, c, 1) + prod(a, prod(b, c, 0), 1)) % 4))
    e.lemma("the product of a Pauli matrix with itself is the identity; the identity is neutral", rng, z3.And(prod(a, a, 0) == 0, prod(a, a, 1) == 0, prod(a, 0, 0) == a, prod(0, a, 0) == a, prod(a, 0, 1) == 0, prod(0, a, 1) == 0))
    e.lemma("exchanging factors keeps the Pauli and conjugates the phase", rng, z3.And(prod(a, b, 0) == prod(b, a, 0), (prod(a, b, 1) + prod(b, a, 1)) % 4 == 0))
    F = z3.Array("F", Z, Z); q, r = z3.Ints("q r"); st = lambda f, k, x: z3.Store(f, k, prod(f[k], x, 0)); ph = lambda f, k, x: prod(f[k], x, 1)
    e.lemma("operators on different qubits commute: sorting by qubit keeps product and phase", rng + [q != r], z3.And(st(st(F, q, a), r, b) == st(st(F, r, b), q, a), ph(F, q, a) + ph(st(F, q, a), r, b) == ph(F, r, b) + ph(st(F, r, b), q, a)))

SORT = (r"std::stable_sort<", r"^Moment::Pauli::PauliContext::additional_simplification.*::operator\(\)")
@unit("C13", "simplification", tu=TU, noinline=SORT, fn=FN + "additional_simplification")
def _(e):
    """sorted by qubit, each run of operators on one qubit becomes the Pauli its product is (or nothing), phases multiply up, qubits strictly ascend"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); w = e.obj(st, "word", e.const("vp_size_sv")); ctx = e.obj(st, "context", e.const("vp_size_ctx")); nl = e.arg("n", 64, 0, 1 << 40); n = e.z(nl)
    d, a = e.array(st, "ops", nl, I16, (0, TOP)); e.put(st, w, C("sv_size"), "i64", nl); e.put(st, w, C("sv_data"), "ptr", d); e.put(st, w, C("sv_cap"), "i64", nl); sg = e.obj(st, "sign", 1); s0 = e.z(e.put(st, sg, 0, "i8", e.arg("sign", 8, 0, 3)))
    S = z3.Array("SORTED", Z, Z); PV = z3.Function("PV", Z, Z); PH = z3.Function("PH", Z, Z); CN = z3.Function("CN", Z, Z); QB = z3.Function("QB", Z, Z); i, j = z3.Ints("si sj")
    pv = lambda k: 1 + S[k] % 3
    def unfold(k):
        new = QB(k) != QB(k - 1)
        return z3.Implies(k >= 1, z3.And(PV(k) == z3.If(new, pv(k), prod(PV(k - 1), pv(k), 0)), PH(k) == (PH(k - 1) + z3.If(new, 0, prod(PV(k - 1), pv(k), 1))) % 4, CN(k) == CN(k - 1) + z3.If(z3.And(new, PV(k - 1) != 0), 1, 0), 0 <= PV(k), PV(k) <= 3))
    def sort(e, s, args, I):
        f, l = args[:2]; e.prove(s, z3.And(e.z(f.off) == 0, e.z(e.exact_div(l.off, 2)) == n), "the whole word is sorted", "call")
        nm = next((k for k in e.m.functions if not e.m.functions[k].is_decl and re.search(r"^Moment::Pauli::PauliContext::additional_simplification.*::operator\(\)", e.dem.get(k, k))), None)
        if nm is None: raise Unsupported("the order the word is sorted by is not a function")
        x, y = e.arg("x", 16, 0, TOP), e.arg("y", 16, 0, TOP); ob = e.obj(s, "comparator", 1); pars = len(e.m.functions[nm].params)
        for s2, v in e.check_outs(e.call_function(s.copy(), nm, [ob, x, y][-pars:])): e.prove(s2, e.b(v) == (e.z(x) / 3 < e.z(y) / 3), "words are sorted by qubit")
        g = s.wr(f.r); g.fields[0] = (g.fields[0][0], S)
        e.arr_range[S.get_id()] = (S, 0, TOP); s.assume(z3.ForAll([i], z3.And(0 <= S[i], S[i] <= TOP), patterns=[S[i]])); s.assume(z3.ForAll([i], QB(i) == S[i] / 3, patterns=[S[i], QB(i)]))
        s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), QB(i) <= QB(j)), patterns=[z3.MultiPattern(QB(i), QB(j))]))
        s.assume(z3.And(PV(0) == pv(0), PH(0) == s0, CN(0) == 0)); return [(s, None)]
    e.contract_rx.append((re.compile("stable_sort<"), Contract("std::stable_sort", sort))); e.cover(st, "pre")
    def tpl(v):
        out = []; A = [x for x in v.arrays]
        rs = [e.z(e.exact_div(x["term"].off, 2)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == d.r]
        for r in rs:
            q = r - 1; v.facts += [unfold(r)]
            out += [("range", z3.And(1 <= r, r <= n)), ("run number", z3.And(0 <= CN(q), CN(q) <= q)), ("run value", z3.And(0 <= PV(q), PV(q) <= 3)), ("phase range", z3.And(0 <= PH(q), PH(q) <= 3))]
            for x in v.vars:
                if isinstance(x["ty"], IntTy): t = e.z(x["term"]); out += [("qubit", t == QB(q)), ("Pauli so far", t == PV(q)), ("phase so far", t == PH(q))]
            for ar in A:
                b = ar["term"]; out += [("unread part", z3.ForAll([i], z3.Implies(z3.And(r <= i, i < n), b[i] == S[i]), patterns=[b[i]]))]
                for wv in rs:
                    if wv.eq(r): continue
                    out += [("written", wv == CN(q)), ("finished runs", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q, QB(i) != QB(i + 1), PV(i) != 0), z3.And(0 <= CN(i), CN(i) < CN(q), b[CN(i)] == 3 * QB(i) + PV(i) - 1)), patterns=[CN(i)])),
                            ("ascending", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < CN(q)), b[i] / 3 < b[i + 1] / 3), patterns=[b[i]])), ("below the current qubit", z3.Implies(CN(q) > 0, b[CN(q) - 1] / 3 < QB(q))), ("output range", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= b[i], b[i] <= TOP)), patterns=[b[i]]))]
        return out
    e.loop_templates.append(tpl); e.auto = False
    for s, v in e.check_outs(e.call_function(st, "vp_simplify", [ctx, w, sg])):
        e.prove(s, z3.Not(e.b(v)), "never zero"); m = u64(e, s, w, C("sv_size")); sign = u8(e, s, sg, 0); b = e.arr_at(s, e.get(s, w, C("sv_data"), "ptr"))
        s0_ = s.copy(); s0_.assume(n == 0)
        if e.feasible(s0_): e.prove(s0_, z3.And(m == 0, sign == s0), "the empty word stays")
        s.assume(n > 0)
        if not e.feasible(s): continue
        l = n - 1; e.prove(s, m == CN(l) + z3.If(PV(l) != 0, 1, 0), "one operator per qubit whose product is not the identity"); e.prove(s, sign == PH(l), "the phase is the product of the phases")
        jj = z3.Int("j!c"); s.assume(z3.And(0 <= jj, jj < n, z3.Or(jj == l, QB(jj) != QB(jj + 1)), PV(jj) != 0)); e.prove(s, z3.And(0 <= CN(jj), CN(jj) < m, b[CN(jj)] == 3 * QB(jj) + PV(jj) - 1), "each such qubit carries the product of its operators")
        k = z3.Int("k!c"); s.assume(z3.And(0 <= k, k + 1 < m)); e.prove(s, b[k] / 3 < b[k + 1] / 3, "qubits strictly ascend")

WVI = WV + ("SmallVector<short.*>::insert", r"ShortlexHasher::operator\(\)")
def use_hash(e):
    """the hash by contract: a function of the word (C01); what was hashed is remembered"""
    rec = {}
    def hs(e, s, args, I):
        p, l = e.norm_ptr(s, args[1]), args[2]; h = e.fresh_int("hash", 64, 0, (1 << 64) - 1); rec[e.z(h).get_id()] = (s.mem[p.r].fields[0][1], e.z(e.exact_div(p.off, 2)), e.z(e.as_u(s, l, 64))); return [(s, h)]
    e.contract_rx.append((re.compile(r"ShortlexHasher::operator\(\)"), Contract("ShortlexHasher::operator()", hs))); return rec

class PW:
    """a canonical Pauli word: qubits strictly ascend; a word of hash 0 is zero and empty, one of length 0 has hash 0 or 1"""
    def __init__(self, e, st, nm):
        C = lambda o: e.const("vp_off_" + o); self.nl = e.arg(nm + "_n", 64, 0, 1 << 40); self.n = n = e.z(self.nl); self.d, self.a = e.array(st, nm + "_ops", self.nl, I16, (0, TOP)); p = self.p = e.obj(st, nm, e.const("vp_size_os"))
        self.hl = e.arg(nm + "_hash", 64); self.h = e.z(e.put(st, p, C("hs_hash"), "i64", self.hl)); self.s = e.z(e.put(st, p, C("hs_sign"), "i8", e.arg(nm + "_sign", 8, 0, 3))); o = C("hs_ops"); e.put(st, p, o + C("sv_size"), "i64", self.nl); e.put(st, p, o + C("sv_data"), "ptr", self.d); e.put(st, p, o + C("sv_cap"), "i64", self.nl)
        self.q = q = z3.Function("Q" + nm, Z, Z); i, j = z3.Ints("wi wj"); st.assume(z3.ForAll([i], q(i) == self.a[i] / 3, patterns=[self.a[i], q(i)])); st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), q(i) < q(j)), patterns=[z3.MultiPattern(q(i), q(j))])); st.assume(z3.Implies(self.h == 0, n == 0)); self.zero = self.h == 0
    def pauli(self, k): return 1 + self.a[k] % 3

@unit("C13", "multiplication", tu=TU, noinline=WVI, fn=FN + "multiply", budget=400)
def _(e):
    """of canonical words: every qubit carries the product of what the factors have there, phases multiply, qubits strictly ascend; zero annihilates, phased identities only change the sign"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); ctx = e.obj(st, "context", e.const("vp_size_ctx")); A, B = PW(e, st, "a"), PW(e, st, "b"); out = e.obj(st, "out", e.const("vp_size_os")); W = WordVec(e); rec = use_hash(e); e.cover(st, "pre")
    n, m = A.n, B.n; LB = z3.Function("LB", Z, Z); LA = z3.Function("LA", Z, Z); WD = z3.Function("WD", Z, Z); PH = z3.Function("PH", Z, Z); i, j = z3.Ints("mi mj")
    # LB(i): how many operators of b are on qubits before that of a[i]; LA(j) the other way round; WD(i): operators lost by pairs among the first i of a; PH(i): phase from these pairs
    for L, X, Y in ((LB, A, B), (LA, B, A)):
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < X.n), z3.And(0 <= L(i), L(i) <= Y.n, z3.Implies(L(i) < Y.n, Y.q(L(i)) >= X.q(i)))), patterns=[L(i)]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < X.n, 0 <= j, j < L(i)), Y.q(j) < X.q(i)), patterns=[z3.MultiPattern(L(i), Y.q(j))]))
    BO = z3.BoolSort(); CM = z3.Function("COMMON", Z, BO); TR = z3.Function("TRIVIAL", Z, BO); VL = z3.Function("VALUE", Z, Z); TP = z3.Function("TURN", Z, Z); CB = z3.Function("COMMONB", Z, BO)
    common = lambda k: z3.And(LB(k) < m, B.q(LB(k)) == A.q(k)); pr = lambda k, w: prod(A.pauli(k), B.pauli(LB(k)), w); triv = lambda k: z3.And(common(k), A.pauli(k) == B.pauli(LB(k)))
    val = lambda k: z3.If(common(k), 3 * A.q(k) + pr(k, 0) - 1, A.a[k]); pa = lambda k: k + LB(k) - WD(k); pb = lambda k: k + LA(k) - WD(LA(k)); cb = lambda k: z3.And(LA(k) < n, A.q(LA(k)) == B.q(k))
    unfold = lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(CM(k) == common(k), TR(k) == triv(k), VL(k) == val(k), TP(k) == z3.If(common(k), pr(k, 1), 0), WD(k + 1) == WD(k) + z3.If(CM(k), z3.If(TR(k), 2, 1), 0), PH(k + 1) == (PH(k) + TP(k)) % 4))
    unfb = lambda k: CB(k) == cb(k)
    st.assume(z3.And(WD(0) == 0, PH(0) == (A.s + B.s) % 4)); FA = lambda v, b, p: z3.ForAll(v if isinstance(v, list) else [v], b, patterns=p)
    donea = lambda b, x, k: FA(i, z3.Implies(z3.And(0 <= i, i < x, z3.Not(TR(i))), z3.And(0 <= pa(i), pa(i) < k, b[pa(i)] == VL(i))), [LB(i)]); doneb = lambda b, y, k: FA(i, z3.Implies(z3.And(0 <= i, i < y, z3.Not(CB(i))), z3.And(0 <= pb(i), pb(i) < k, b[pb(i)] == B.a[i])), [LA(i)])
    x0 = z3.Int("x0"); step = [z3.And(0 <= x0, x0 <= i, i < n, LB(x0) == m, WD(i) == WD(x0), PH(i) == PH(x0), 0 <= PH(i), PH(i) <= 3)]
    e.lemma("beyond the last operator of the right factor nothing is shared (step of the induction)", [z3.And(*st.pc)] + step + [unfold(i)], z3.And(LB(i) == m, WD(i + 1) == WD(x0), PH(i + 1) == PH(x0)))
    st.assume(FA([x0, i], z3.Implies(z3.And(0 <= x0, x0 <= i, i <= n, x0 < n, LB(x0) == m, 0 <= PH(x0), PH(x0) <= 3), z3.And(WD(i) == WD(x0), PH(i) == PH(x0))), [z3.MultiPattern(LB(x0), WD(i))]))
    SEE = z3.Function("SEE", Z, BO); q0 = [z3.And(0 <= x, x <= h) for x, h in ((A.a[0], TOP), (B.a[0], TOP), (A.s, 3), (B.s, 3))]
    def starts(q, c0):
        """which quantity a variable of the loop follows, by its value on entry"""
        so = z3.Solver(); so.set("timeout", 1000); so.add(*q0); so.add(e.z(q["entry"]) != c0); return q.get("entry") is not None and str(so.check()) == "unsat"
    def tpl(v):
        res = []; xs = [e.z(e.exact_div(x["term"].off, 2)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == A.d.r]; ys = [e.z(e.exact_div(x["term"].off, 2)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == B.d.r]
        for x in xs:
            for y in ys:
                v.facts += [unfold(x), unfb(y), LB(x) >= 0, LA(y) >= 0, SEE(LB(x + 1)), SEE(LA(y + 1)), SEE(WD(n)), A.q(x) == A.a[x] / 3, B.q(y) == B.a[y] / 3]; k = x + y - WD(x)
                res += [("range", z3.And(0 <= x, x < n, 0 <= y, y < m)), ("loss", z3.And(0 <= WD(x), k >= 0)), ("phase range", z3.And(0 <= PH(x), PH(x) <= 3)), ("b before a", FA(i, z3.Implies(z3.And(0 <= i, i < y), B.q(i) < A.q(x)), [B.q(i)])), ("a before b", FA(i, z3.Implies(z3.And(0 <= i, i < x), A.q(i) < B.q(y)), [A.q(i)]))]
                for q in v.vars:
                    if isinstance(q["ty"], IntTy):
                        t = e.z(q["term"])
                        if q["ty"].w == 64: res += [("length", t == k)]
                        res += [(nm, c) for nm, c, c0 in (("operator a", t == A.a[x], A.a[0]), ("operator b", t == B.a[y], B.a[0]), ("qubit a", t == A.q(x), A.a[0] / 3), ("qubit b", t == B.q(y), B.a[0] / 3), ("Pauli a", t == A.a[x] % 3, A.a[0] % 3), ("Pauli b", t == B.a[y] % 3, B.a[0] % 3), ("phase so far", t == PH(x), (A.s + B.s) % 4)) if starts(q, c0)]
                for ar in v.arrays:
                    b = ar["term"]; res += [("done a", donea(b, x, k)), ("done b", doneb(b, y, k)), ("ascending", FA(i, z3.Implies(z3.And(0 <= i, i + 1 < k), b[i] / 3 < b[i + 1] / 3), [b[i]])), ("below", z3.Implies(k > 0, z3.And(b[k - 1] / 3 < A.q(x), b[k - 1] / 3 < B.q(y)))), ("output range", FA(i, z3.Implies(z3.And(0 <= i, i < k), z3.And(0 <= b[i], b[i] <= TOP)), [b[i]]))]
        return res
    e.loop_templates.append(tpl); e.auto = False; jj = z3.Int("j!c")
    for s, _ in e.check_outs(e.call_function(st, "vp_mult", [out, ctx, A.p, B.p])):
        o = out + C("hs_ops"); k, b, d = W.view(s, o); h = u64(e, s, out, C("hs_hash")); sg = u8(e, s, out, C("hs_sign")); c = e.norm_ptr(s, e.get(s, out, C("os_ctx"), "ptr")); e.prove(s, z3.BoolVal(c.r == ctx.r), "the product belongs to the context")
        def case(cond):
            t = s.copy(); t.assume(cond); return t if e.feasible(t) else None
        t = case(z3.Or(A.zero, B.zero))
        if t: e.prove(t, z3.And(k == 0, h == 0, sg == 0), "zero times anything is zero")
        t = case(z3.And(z3.Not(A.zero), z3.Not(B.zero)))
        if not t: continue
        for cond, X in ((m == 0, A), (z3.And(m > 0, n == 0), B)):
            t2 = t.copy(); t2.assume(cond); t2.assume(z3.And(0 <= jj, jj < k))
            if e.feasible(t2): e.prove(t2, z3.And(k == X.n, h == X.h, b[jj] == X.a[jj]), "a factor of phased identity keeps the other's word")
        t2 = t.copy(); t2.assume(z3.Or(n == 0, m == 0))
        if e.feasible(t2): e.prove(t2, sg == (A.s + B.s) % 4, "phases multiply")
        t.assume(z3.And(n > 0, m > 0)); 
        if not e.feasible(t): continue
        r = rec.get(h.get_id()); e.prove(t, z3.And(r[0][jj] == b[jj], r[1] == 0, r[2] == k) if r else z3.BoolVal(False), "hash of the product's word")
        t.assume(unfold(n - 1)); t.assume(unfb(m - 1))
        e.prove(t, sg == PH(n), "phase: product of the signs and of the phases of all shared qubits"); e.prove(t, k == n + m - WD(n), "length: shared qubits once, or not at all if their product is the identity")
        ta = t.copy(); ta.assume(z3.And(0 <= jj, jj < n, z3.Not(triv(jj)))); ta.assume(unfold(jj)); e.prove(ta, z3.And(0 <= pa(jj), pa(jj) < k, b[pa(jj)] == val(jj)), "each operator of the left factor, times the right's on that qubit")
        tb = t.copy(); tb.assume(z3.And(0 <= jj, jj < m, z3.Not(cb(jj)))); tb.assume(unfb(jj)); e.prove(tb, z3.And(0 <= pb(jj), pb(jj) < k, b[pb(jj)] == B.a[jj]), "each operator of the right factor on a qubit of its own")
        t.assume(z3.And(0 <= jj, jj + 1 < k)); e.prove(t, b[jj] / 3 < b[jj + 1] / 3, "qubits strictly ascend")

OPM = r"Moment::operator\*\(Moment::OperatorSequence const&, Moment::OperatorSequence const&\)"
for fn, nm in (("vp_comm", "commutator"), ("vp_acomm", "anticommutator")):
    @unit("C13", nm, tu=TU, noinline=WVI + (OPM,), fn=FN + nm + "(words)")
    def _(e, fn=fn, nm=nm):
        """of words: the product where AB = -+ BA doubles, zero where it cancels (AB and BA have the same Paulis and conjugate phases: lemma of the Pauli algebra)"""
        C = lambda o: e.const("vp_off_" + o); st = e.state(); ctx = e.obj(st, "context", e.const("vp_size_ctx")); A, B = PW(e, st, "a"), PW(e, st, "b"); P = PW(e, st, "ab"); out = e.obj(st, "out", e.const("vp_size_os")); W = WordVec(e); e.put(st, P.p, C("os_ctx"), "ptr", ctx); got = []
        st.assume(z3.Implies(P.zero, P.s == 0))
        def prodc(e, s, args, I):
            x, y, z = (e.norm_ptr(s, q) for q in args[:3]); e.prove(s, z3.BoolVal(y.r == A.p.r and z.r == B.p.r), "the product of left and right", "call"); got.append(1)
            e.put(s, x, C("hs_hash"), "i64", P.hl); e.put(s, x, C("hs_sign"), "i8", e.get(s, P.p, C("hs_sign"), "i8")); e.put(s, x, C("os_ctx"), "ptr", ctx); o = x + C("hs_ops"); e.put(s, o, C("sv_size"), "i64", P.nl); e.put(s, o, C("sv_data"), "ptr", P.d); e.put(s, o, C("sv_cap"), "i64", P.nl); return [(s, None)]
        e.contract_rx.append((re.compile(OPM), Contract("operator*", prodc))); e.cover(st, "pre"); rel = (P.s - A.s - B.s) % 2; cancel = (rel == 0) if fn == "vp_comm" else (rel == 1); j = z3.Int("j!c")
        for s, _ in e.check_outs(e.call_function(st, fn, [out, ctx, A.p, B.p])):
            k, b, d = W.view(s, out + C("hs_ops")); h = u64(e, s, out, C("hs_hash")); sg = u8(e, s, out, C("hs_sign")); s.assume(z3.Not(P.zero))
            if not e.feasible(s): continue
            e.prove(s, z3.Implies(cancel, z3.And(h == 0, k == 0, sg == 0)), "zero if the terms cancel"); s.assume(z3.And(z3.Not(cancel), 0 <= j, j < k))
            if e.feasible(s): e.prove(s, z3.And(h == P.h, sg == P.s, k == P.n, b[j] == P.a[j]), "the product if they add up")

@unit("C13", "conjugation", tu=TU, noinline=WVI, fn=FN + "conjugate")
def _(e):
    """the same word with conjugate sign (canonical Pauli words are Hermitian)"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); ctx = e.obj(st, "context", e.const("vp_size_ctx")); A = PW(e, st, "a"); out = e.obj(st, "out", e.const("vp_size_os")); W = WordVec(e); e.cover(st, "pre"); j = z3.Int("j!c")
    for s, _ in e.check_outs(e.call_function(st, "vp_conj", [out, ctx, A.p])):
        k, b, d = W.view(s, out + C("hs_ops")); e.prove(s, z3.And(u64(e, s, out, C("hs_hash")) == A.h, u8(e, s, out, C("hs_sign")) == (4 - A.s) % 4, k == A.n), "same hash and length, conjugate sign"); s.assume(z3.And(0 <= j, j < k))
        if e.feasible(s): e.prove(s, b[j] == A.a[j], "same operators")

for k, nm in enumerate("XYZ"):
    @unit("C13", "sigma" + nm, tu=TU, noinline=WV, fn=FN + "sigma" + nm)
    def _(e, k=k, nm=nm):
        """the one-operator word 3q+k with its shortlex hash: that of the single operator o is o+2"""
        C = lambda o: e.const("vp_off_" + o); st = e.state(); ctx = e.obj(st, "context", e.const("vp_size_ctx")); q = e.arg("q", 16, 0, 10921); sg = e.arg("s", 32, 0, 3); out = e.obj(st, "out", e.const("vp_size_os")); W = WordVec(e); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, "vp_s" + nm.lower(), [out, ctx, q, sg])):
            m, b, d = W.view(s, out + C("hs_ops")); op = 3 * e.z(q) + k; e.prove(s, z3.And(m == 1, b[0] == op, u64(e, s, out, C("hs_hash")) == op + 2, u8(e, s, out, C("hs_sign")) == e.z(sg)), "one operator, its hash and the sign")
