"""Shared by C08, C09: polynomials as the engine sees them.  A polynomial is its vector of monomials (id, conjugated, re, im); the vector is
taken by its class invariant (C04): data_start points to at least _size monomials.  double is treated as the real numbers."""
import re
from unit import *
I64 = IntTy(64); I32 = IntTy(32); I8 = IntTy(8); F64 = FloatTy("double"); TU = "polys"
BIG = 1 << 40; MAXID = (1 << 31) - 1
EPS = z3.Q(1, 1 << 52)

class Mono:
    """one monomial object, or element i of an array"""
    def __init__(self, e, st, name, maxid=MAXID):
        self.p = e.obj(st, name, e.const("vp_size_mono")); C = lambda o: e.const("vp_off_m_" + o)
        self.lid = e.put(st, self.p, C("id"), "i32", e.arg(name + "_id", 32, 0, maxid)); self.lcj = e.put(st, self.p, C("conj"), "i8", e.arg(name + "_c", 8, 0, 1))
        self.re = e.put(st, self.p, C("f"), "f64", e.real(name + "_re")); self.im = e.put(st, self.p, C("f") + 8, "f64", e.real(name + "_im"))
        self.id = e.z(self.lid); self.cj = e.z(self.lcj)

class Arr:
    """contents of a monomial array: id[i], c[i], re[i], im[i]"""
    def __init__(self, e, r):
        C = lambda o: e.const("vp_off_m_" + o)
        self.id, self.c, self.re, self.im = (r.fields[o][1] for o in (C("id"), C("conj"), C("f"), C("f") + 8))
        self.all = (self.id, self.c, self.re, self.im)
    def key(self, i): return 2 * self.id[i] + self.c[i]

class Poly:
    def __init__(self, e, st, name, lo=0, maxid=MAXID):
        C = lambda o: e.const(f"vp_off_{o}"); self.e = e
        self.p = e.obj(st, name, e.const("vp_size_poly")); self.nl = e.arg(name + "_n", 64, lo, BIG); self.n = e.z(self.nl)
        self.r = e.array_region(st, name + "_data", self.nl, e.const("vp_size_mono"), {C("m_id"): (I32, None), C("m_conj"): (I8, None), C("m_f"): (F64, None), C("m_f") + 8: (F64, None)})
        self.d = Ptr(self.r.id, Lin(0)); self.a = Arr(e, self.r)
        e.array_range(st, self.a.id, 0, maxid); e.array_range(st, self.a.c, 0, 1)
        e.put(st, self.p, C("sv_size"), "i64", self.nl); e.put(st, self.p, C("sv_data"), "ptr", self.d); e.put(st, self.p, C("sv_cap"), "i64", self.nl)
    def post(self, s):
        """(contents, size) in state s"""
        e = self.e; C = lambda o: e.const(f"vp_off_{o}")
        d = e.norm_ptr(s, e.get(s, self.p, C("sv_data"), "ptr"))
        return Arr(e, s.mem[d.r]), e.z(e.as_u(s, e.get(s, self.p, C("sv_size"), "i64"), 64))

def zero(re, im, tol): return re * re + im * im < tol * tol * EPS * EPS
def raw_poly(e, st, name):
    """storage of a polynomial to be constructed, with its inline buffer of one monomial"""
    C = lambda o: e.const(f"vp_off_{o}"); p = e.obj(st, name, e.const("vp_size_poly"))
    r = e.array_region(st, name + "_stack", Lin(1), e.const("vp_size_mono"), {C("m_id"): (I32, None), C("m_conj"): (I8, None), C("m_f"): (F64, None), C("m_f") + 8: (F64, None)})
    e.add_sub(st, st.wr(p.r), C("sv_stack"), r)
    return p, r
ZERO = z3.Function("ZERO", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())
NZ = ("::approximately_zero\\(std::complex",)
def use_zero(e):
    """approximately_zero(complex, tol) by its contract: ZERO(re, im, tol) stands for re^2 + im^2 < (tol eps)^2 (unit "approximately zero")"""
    e.contract_rx.append((re.compile(NZ[0]), Contract("approximately_zero(complex)", lambda e, st, args, I: [(st, ZERO(*args[:3]))])))
    return ZERO
def cur(e, v, p):
    """contents of the vector at the loop head: fields the loop changes from the view, others as they were on entry"""
    m = {}; a = Arr(e, v.entry.mem[p.r.id])
    for x in v.arrays: m[x["entry"].get_id()] = x["term"]
    b = Arr.__new__(Arr); b.id, b.c, b.re, b.im = (m.get(t.get_id(), t) for t in a.all); b.all = (b.id, b.c, b.re, b.im); return b

def ptrs(e, v, r, stride):
    return [e.z(e.exact_div(x["term"].off, stride)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == r.id]

class Table:
    """symbol table: flags of symbol i; ids in [0, size)"""
    def __init__(self, e, st):
        C = lambda o: e.const("vp_off_" + o); self.nl = e.arg("symbols", 64, 0, MAXID)
        self.p = e.obj(st, "table", e.const("vp_size_table")); self.n = e.z(self.nl); sz = e.const("vp_size_sym")
        r = e.array_region(st, "symbols", self.nl, sz, {C("sym_h"): (I8, None), C("sym_a"): (I8, None)}); self.h, self.ah = (r.fields[C(o)][1] for o in ("sym_h", "sym_a"))
        e.array_range(st, self.h, 0, 1); e.array_range(st, self.ah, 0, 1); d = Ptr(r.id, Lin(0))
        for k, v in enumerate((d, d + self.nl * sz, d + self.nl * sz)): e.put(st, self.p, C("table_seq") + 8 * k, "ptr", v)
    def H(self, i): return self.h[i] != 0
    def A(self, i): return self.ah[i] != 0
    def known(self, st, p):
        i = z3.Int("ti"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.n), p.a.id[i] < self.n), patterns=[p.a.id[i]]))

VEC = tuple("SmallVector<Moment::Monomial, 1ul>::" + f for f in (r"SmallVector\(\)", r"~SmallVector\(", r"push_back\(", r"emplace_back", r"swap\(", r"reserve\("))
class Vec:
    """SmallVector<Monomial, 1> by its contracts (C04): a vector is its length and the address of its elements; appending may move them.
    on_push(state, id, conj, re, im): obligations and ghost updates at every append."""
    def __init__(self, e, on_push=None):
        self.e = e; self.on_push = on_push; self.C = lambda o: e.const("vp_off_" + o); C = self.C
        self.base = C("sv_size") - C("sv_size")
        reg = lambda rx, nm, f: e.contract_rx.append((re.compile(r"SmallVector<Moment::Monomial, 1ul>::" + rx), Contract("SmallVector<Monomial,1>::" + nm, f)))
        reg(r"SmallVector\(\)", "SmallVector()", self.ctor); reg(r"~SmallVector\(", "~SmallVector()", lambda e, st, a, I: [(st, None)])
        reg(r"push_back\(", "push_back", self.push); reg("emplace_back", "emplace_back", self.emplace); reg(r"swap\(", "swap", self.swap); reg(r"reserve\(", "reserve", self.reserve)
    def store_for(self, st, name):
        e = self.e; C = self.C
        return e.array_region(st, name, Lin(4 * BIG), e.const("vp_size_mono"), {C("m_id"): (I32, None), C("m_conj"): (I8, None), C("m_f"): (F64, None), C("m_f") + 8: (F64, None)})
    def ctor(self, e, st, args, I):
        r = self.store_for(st, "elements"); p = args[0]
        e.put(st, p, self.C("sv_size"), "i64", Lin(0)); e.put(st, p, self.C("sv_data"), "ptr", Ptr(r.id, Lin(0))); return [(st, None)]
    def size(self, st, p): return e_int(self.e, st, p, self.C("sv_size"), "i64", 64)
    def append(self, st, p, id, c, re_, im):
        e = self.e; C = self.C; n = e.as_u(st, e.get(st, p, C("sv_size"), "i64"), 64); d = e.get(st, p, C("sv_data"), "ptr"); at = d + n * e.const("vp_size_mono")
        e.prove(st, e.z(n) < 4 * BIG, "vector length fits", "pre")
        if self.on_push: self.on_push(st, e.z(e.as_u(st, id, 32)), e.z(e.as_u(st, c, 8)), re_, im)
        e.put(st, at, C("m_id"), "i32", id); e.put(st, at, C("m_conj"), "i8", c); e.put(st, at, C("m_f"), "f64", re_); e.put(st, at, C("m_f") + 8, "f64", im)
        e.put(st, p, C("sv_size"), "i64", n + 1)
    def push(self, e, st, args, I):
        q = args[1]; C = self.C
        self.append(st, args[0], *(e.get(st, q, o, t) for o, t in ((C("m_id"), "i32"), (C("m_conj"), "i8"), (C("m_f"), "f64"), (C("m_f") + 8, "f64")))); return [(st, None)]
    def emplace(self, e, st, args, I):
        p, rest = args[0], args[1:]; C = self.C
        if len(rest) == 1: return self.push(e, st, args, I)
        id = e.get(st, rest[0], 0, "i32"); f = (e.get(st, rest[1], 0, "f64"), e.get(st, rest[1], 8, "f64")); c = e.get(st, rest[2], 0, "i8") if len(rest) > 2 else Lin(0)
        n = e.as_u(st, e.get(st, p, C("sv_size"), "i64"), 64); self.append(st, p, id, c, *f); return [(st, e.get(st, p, C("sv_data"), "ptr") + n * e.const("vp_size_mono"))]
    def swap(self, e, st, args, I):
        a, b = args[:2]
        for o, t in (("sv_size", "i64"), ("sv_data", "ptr"), ("sv_cap", "i64")):
            if o == "sv_cap": continue
            x, y = e.get(st, a, self.C(o), t), e.get(st, b, self.C(o), t); e.put(st, a, self.C(o), t, y); e.put(st, b, self.C(o), t, x)
        return [(st, None)]
    def reserve(self, e, st, args, I):
        p = args[0]; n = e.as_u(st, e.get(st, p, self.C("sv_size"), "i64"), 64); old = e.norm_ptr(st, e.get(st, p, self.C("sv_data"), "ptr")); r = self.store_for(st, "elements")
        i = z3.Int("rv")
        for o, (ty, a) in st.mem[old.r].fields.items():
            b = r.fields[o][1]; st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e.z(n)), b[i] == a[i]), patterns=[b[i]]))
        e.put(st, p, self.C("sv_data"), "ptr", Ptr(r.id, Lin(0))); return [(st, None)]

def e_int(e, st, p, off, ty, w): return e.z(e.as_u(st, e.get(st, p, off, ty), w))

def flags(e, v):
    """loop-carried truth values"""
    return [e.b(x["term"]) if x["ty"].w == 1 else e.z(x["term"]) % 2 == 1 for x in v.vars if isinstance(x["ty"], IntTy) and x["ty"].w in (1, 8)]
