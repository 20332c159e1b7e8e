"""C17: operator matrices and their symbolic counterparts.  Words by their identity (equality and conjugation of words by contract, C02); offsets by contract (C07)."""
from unit import *
I64 = IntTy(64); Z = z3.IntSort(); LIM = 1 << 40

class Matrix:
    """a square matrix of words: dimension n, element (r, c) at offset OFF(r, c) of its data, each word given by an identity"""
    def __init__(self, e, st):
        self.e = e; C = self.C = lambda o: e.const("vp_off_" + o); self.p = e.obj(st, "matrix", e.const("vp_size_sm")); self.nl = e.arg("dimension", 64, 0, LIM); self.n = e.z(self.nl); self.cnt = e.arg("elements", 64, 0, LIM)
        osz = self.osz = e.const("vp_size_os"); r = self.r = e.array_region(st, "words", self.cnt, osz, {C("os_hash"): (I64, None)}); self.W = r.fields[C("os_hash")][1]; e.array_range(st, self.W, 0, (1 << 64) - 1); self.dp = Ptr(r.id, Lin(0))
        e.put(st, self.p, C("sm_n"), "i64", self.nl)
        for k in range(3): e.put(st, self.p, C("sm_data") + 8 * k, "ptr", self.dp if k == 0 else self.dp + self.cnt * osz)
        self.OFF = z3.Function("OFF", Z, Z, Z); self.CONJ = z3.Function("CONJ", Z, Z); i, j = z3.Ints("mi mj"); OFF = self.OFF
        st.assume(z3.ForAll([i], z3.And(0 <= self.CONJ(i), self.CONJ(i) < 1 << 64), patterns=[self.CONJ(i)]))
        def off(e, s, args, I):
            """by C07: within the matrix, the offset is below the number of elements and determines the index"""
            a, b = (e.z(e.as_u(s, e.get(s, args[1], 8 * k, "i64"), 64)) for k in (0, 1))
            e.prove(s, z3.And(0 <= a, a < self.n, 0 <= b, b < self.n), "index within the matrix", "call"); o = e.fresh_int("offset", 64, 0, LIM); s.assume(z3.And(e.z(o) == OFF(a, b), e.z(o) < e.z(self.cnt))); return [(s, o)]
        def conj(e, s, args, I):
            v = e.fresh_int("conj", 64); s.assume(e.z(v) == self.CONJ(e.z(e.as_u(s, e.get(s, args[1], C("os_hash"), "i64"), 64)))); e.put(s, args[0], C("os_hash"), "i64", v); e.put(s, args[0], C("os_heap"), "ptr", NULL); return [(s, None)]
        idw = lambda s, q: e.z(e.as_u(s, e.get(s, q, C("os_hash"), "i64"), 64))
        for rx, nm, f in (("index_to_offset_no_checks", "Tensor::index_to_offset_no_checks", off), (r"OperatorSequence::conjugate\(\)", "OperatorSequence::conjugate", conj), (r"HashedSequence::operator==\(", "HashedSequence::operator==", lambda e, s, a, I: [(s, e.sb(idw(s, a[0]) == idw(s, a[1])))]), (r"HashedSequence::operator!=\(", "HashedSequence::operator!=", lambda e, s, a, I: [(s, e.sb(idw(s, a[0]) != idw(s, a[1])))])): e.contract_rx.append((re.compile(rx), Contract(nm, f)))
    def at(self, r, c): return self.W[self.OFF(r, c)]
    def herm(self, r, c): return self.at(r, c) == self.CONJ(self.at(c, r))
NI = ("index_to_offset_no_checks", r"OperatorSequence::conjugate\(\)", r"HashedSequence::operator==", r"HashedSequence::operator!=")

@unit("C17", "hermiticity of a matrix of words", tu="hermitian", noinline=NI, fn="Moment::NonHInfo::find_first_index")
def _(e):
    """no element is named exactly if every word is the conjugate of its transpose; a named element is not"""
    st = e.state(); m = Matrix(e, st); out = e.obj(st, "out", 24); R, Cc = z3.Ints("row column"); st.assume(z3.And(0 <= Cc, Cc <= R, R < m.n)); i = z3.Int("ci")
    st.assume(z3.ForAll([i], m.CONJ(m.CONJ(i)) == i, patterns=[m.CONJ(m.CONJ(i))]))                             # conjugation is an involution (C02)
    ok = z3.And(m.herm(R, Cc), m.herm(Cc, R)); e.cover(st, "pre")
    def tpl(v):
        out = []
        for v_ in v.vars:
            if not (isinstance(v_["ty"], IntTy) and v_["ty"].w == 64): continue
            x, x0 = e.z(v_["term"]), e.z(v_["entry"]); out += [("range", x <= m.n), ("columns before", z3.Implies(Cc < x, ok)), ("rows before", z3.Implies(z3.And(x0 == Cc + 1, R < x), ok))]
        return out
    e.loop_templates.append(tpl)
    for s, v in e.check_outs(e.call_function(st, "vp_nonh", [out, m.p])):
        v = e.sb(e.z(e.as_u(s, e.get(s, out, 16, "i8"), 8)) == 1)
        z = s.copy(); z.assume(z3.Not(e.b(v)))
        if e.feasible(z): e.prove(z, z3.Implies(Cc <= R, ok), "every word is the conjugate of its transpose if none is named")
        s.assume(e.b(v))
        if e.feasible(s): a, b = (e.z(e.as_u(s, e.get(s, out, 8 * k, "i64"), 64)) for k in (0, 1)); e.prove(s, z3.And(a < m.n, b < m.n, z3.Not(m.herm(a, b))), "the named word is not the conjugate of its transpose")
