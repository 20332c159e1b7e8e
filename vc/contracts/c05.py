"""C05: DynamicBitset against a set of indices, bit i = (data[i / 64] >> (i % 64)) & 1.
Class invariant: page_count = ceil(bit_size / 64), the storage holds page_count pages, final_page_mask covers exactly the bits in use
of the final page, bits of the final page beyond bit_size are clear."""
import re
from unit import *
I64 = IntTy(64); TU = "bitset"; FN = "Moment::DynamicBitset<uint64_t>::"
BV = lambda n: z3.BitVecVal(n, 64)
MAXB = 1 << 36

def bit(a, i): return z3.Extract(0, 0, z3.LShR(a[z3.LShR(i, 6)], i & 63))
def pages(n): return z3.LShR(n + 63, 6)
def mask(n): return z3.If((n & 63) == 0, BV((1 << 64) - 1), (BV(1) << (n & 63)) - 1)

class BS:
    def __init__(self, e, st, name, n=None, raw=False):
        self.e = e; self.p = e.obj(st, name, e.const("vp_size_bs"))
        if raw: return
        self.n = e.arg(name + "_bits", 64) if n is None else n
        if n is None: st.assume(z3.ULE(self.n, BV(MAXB)))
        self.pg = e.arg(name + "_pages", 64); st.assume(self.pg == pages(self.n)); st.assume(z3.ULE(self.pg, BV(MAXB)))
        dp, self.a = e.array(st, name + "_data", self.pg, I64); self.dp = dp
        end = dp + e.bvlin(self.pg) * 8
        C = lambda o: e.const("vp_off_bs_" + o)
        e.put(st, self.p, C("size"), "i64", self.n); e.put(st, self.p, C("pages"), "i64", self.pg)
        e.put(st, self.p, C("mask"), "i64", mask(self.n))
        for k, v in enumerate((dp, end, end)): e.put(st, self.p, C("data") + 8 * k, "ptr", v)
        st.assume(z3.Implies(self.pg != 0, (self.a[self.pg - 1] & ~mask(self.n)) == 0))

    def post(self, s, n, what="", fixed=False):
        """class invariant after the call; returns the page array"""
        e = self.e; C = lambda o: e.const("vp_off_bs_" + o)
        g = lambda o: e.get(s, self.p, C(o), "i64")
        e.prove(s, z3.And(g("size") == n, g("pages") == pages(n), g("mask") == mask(n)), what + "sizes and mask", "inv")
        b, en = (e.norm_ptr(s, e.get(s, self.p, C("data") + 8 * k, "ptr")) for k in (0, 1))
        if b.r is None:
            e.prove(s, pages(n) == 0, what + "no storage only for no pages", "inv"); return None
        e.prove(s, z3.BoolVal(b.r == en.r and s.mem[b.r].alive), what + "storage is one live block", "inv")
        e.prove(s, z3.And(e.z(b.off) == 0, e.z(en.off) == 8 * pages(n)), what + "storage holds page_count pages", "inv")
        r = s.mem[b.r]
        if r.kind != "array": r = e.to_array(s, r, 8)
        if 0 not in r.fields: e.new_field(s, r, 0, I64)
        a = r.fields[0][1]
        e.prove(s, z3.Implies(pages(n) != 0, (a[pages(n) - 1] & ~mask(n)) == 0), what + "padding bits are clear", "inv")
        return a

def idx(e, s, n, name="i"):
    i = z3.BitVec(name + "!c", 64); s.assume(z3.ULT(i, n)); return i

def sk(x): return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def U(name, fn, **kw): return unit("C05", name, tu=TU, mode="bv", fn=FN + fn, **kw)

@U("pages_required", "pages_required")
def _(e):
    st = e.state(); n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(MAXB)))
    for s, v in e.check_outs(e.call_function(st, "vp_required", [n])): e.prove(s, v == pages(n), "ceil(n / 64)")

@U("make_final_mask", "make_final_mask")
def _(e):
    st = e.state(); n = z3.BitVec("n", 64)
    for s, v in e.check_outs(e.call_function(st, "vp_mask", [n])): e.prove(s, v == mask(n), "mask of the bits in use")

MASK = z3.Function("MASK", z3.IntSort(), z3.IntSort())

class BI:
    """the same object in integer mode: sizes and page values, not single bits"""
    def __init__(self, e, st, name, raw=False):
        self.e = e; self.p = e.obj(st, name, e.const("vp_size_bs"))
        e.contract_rx += [(re.compile(r"::make_final_mask"), Contract("make_final_mask", self.c_mask)), (re.compile(r"::pages_required"), Contract("pages_required", self.c_pages))]
        if raw: return
        n = e.arg(name + "_bits", 64, 0, MAXB); self.n = e.z(n)
        self.pgl = e.arg(name + "_pages", 64, 0, MAXB); self.pg = e.z(self.pgl); st.assume(self.pg == (self.n + 63) / 64)
        dp, self.a = e.array(st, name + "_data", self.pgl, I64); self.dp = dp
        C = lambda o: e.const("vp_off_bs_" + o)
        m = e.arg(name + "_mask", 64); st.assume(e.z(m) == MASK(self.n))
        e.put(st, self.p, C("size"), "i64", n); e.put(st, self.p, C("pages"), "i64", self.pgl); e.put(st, self.p, C("mask"), "i64", m)
        for k, v in enumerate((dp, dp + self.pgl * 8, dp + self.pgl * 8)): e.put(st, self.p, C("data") + 8 * k, "ptr", v)

    # contracts of the two static functions (proved above in bit-vector mode)
    def c_mask(self, e, st, args, I): r = e.arg("mask", 64); st.assume(e.z(r) == MASK(e.z(args[0]))); return [(st, r)]
    def c_pages(self, e, st, args, I): r = e.arg("pgs", 64); st.assume(e.z(r) == (e.z(args[0]) + 63) / 64); return [(st, r)]

    def post(self, s, n, what=""):
        e = self.e; C = lambda o: e.const("vp_off_bs_" + o); g = lambda o: e.z(e.get(s, self.p, C(o), "i64"))
        pg = (n + 63) / 64
        e.prove(s, z3.And(g("size") == n, g("pages") == pg, g("mask") == MASK(n)), what + "sizes and mask", "inv")
        b, en = (e.norm_ptr(s, e.get(s, self.p, C("data") + 8 * k, "ptr")) for k in (0, 1))
        if b.r is None: e.prove(s, pg == 0, what + "no storage only for no pages", "inv"); return None
        e.prove(s, z3.BoolVal(b.r == en.r and s.mem[b.r].alive), what + "storage is one live block", "inv")
        e.prove(s, z3.And(e.z(b.off) == 0, e.z(en.off) == 8 * pg), what + "storage holds page_count pages", "inv")
        r = s.mem[b.r]
        if r.kind != "array": r = e.to_array(s, r, 8)
        if 0 not in r.fields: e.new_field(s, r, 0, I64)
        return r.fields[0][1]

NOI = ("make_final_mask", "pages_required")
for full in (0, 1):
    @unit("C05", "construction, " + ("all set" if full else "all clear"), tu=TU, noinline=NOI, fn=FN + "DynamicBitset(index_t, bool)")
    def _(e, full=full):
        st = e.state(); o = BI(e, st, "o", raw=True); nl = e.arg("n", 64, 0, MAXB); n = e.z(nl); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, "vp_ctor2" if full else "vp_ctor", [o.p, nl] + ([True] if full else []))):
            a = o.post(s, n); pg = (n + 63) / 64; j = z3.Int("j!c"); s.assume(z3.And(0 <= j, j < pg))
            if a is not None: e.prove(s, a[j] == (z3.If(j == pg - 1, MASK(n), (1 << 64) - 1) if full else 0), "every page as requested")

for f in ("test", "sub", "proxy_get"):
    @U({"test": "test", "sub": "operator[] const", "proxy_get": "ElementProxy read"}[f], {"test": "test", "sub": "operator[]", "proxy_get": "ElementProxy::operator bool"}[f])
    def _(e, f=f):
        st = e.state(); o = BS(e, st, "o"); i = z3.BitVec("i", 64); st.assume(z3.ULT(i, o.n)); e.cover(st, "pre")
        for s, v in e.check_outs(e.call_function(st, "vp_" + f, [o.p, i])):
            e.prove(s, sk(e.b(v)) == bit(o.a, i), "reads the bit"); j = idx(e, s, o.n); a = o.post(s, o.n); e.prove(s, bit(a, j) == bit(o.a, j), "nothing changes", "frame")

for f, val in (("set", 1), ("unset", 0), ("proxy_set", None)):
    @U({"set": "set", "unset": "unset", "proxy_set": "ElementProxy assignment"}[f], {"set": "set", "unset": "unset", "proxy_set": "ElementProxy::operator="}[f])
    def _(e, f=f, val=val):
        st = e.state(); o = BS(e, st, "o"); i = z3.BitVec("i", 64); st.assume(z3.ULT(i, o.n)); e.cover(st, "pre")
        args = [o.p, i]; b = None
        if val is None: b = z3.Bool("v"); args.append(b)
        for s, _ in e.check_outs(e.call_function(st, "vp_" + f, args)):
            a = o.post(s, o.n); j = idx(e, s, o.n)
            w = sk(b) if val is None else z3.BitVecVal(val, 1)
            e.prove(s, bit(a, j) == z3.If(j == i, w, bit(o.a, j)), "exactly that bit changes")

@U("clear", "clear")
def _(e):
    st = e.state(); o = BS(e, st, "o"); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_clear", [o.p])):
        a = o.post(s, o.n); j = idx(e, s, o.n); e.prove(s, bit(a, j) == 0, "every bit clear")

@U("invert_in_place", "invert_in_place", timeout=30000)
def _(e):
    st = e.state(); o = BS(e, st, "o"); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_inv", [o.p])):
        a = o.post(s, o.n); j = idx(e, s, o.n); e.prove(s, bit(a, j) == ~bit(o.a, j), "every bit complemented")

for f, op in (("and", lambda x, y: x & y), ("or", lambda x, y: x | y)):
    @U("operator" + {"and": "&=", "or": "|="}[f], "operator" + {"and": "&=", "or": "|="}[f], timeout=30000)
    def _(e, f=f, op=op):
        st = e.state(); o = BS(e, st, "o"); q = BS(e, st, "q", n=o.n); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, "vp_" + f, [o.p, q.p])):
            a = o.post(s, o.n); j = idx(e, s, o.n); e.prove(s, bit(a, j) == op(bit(o.a, j), bit(q.a, j)), "bitwise"); b = q.post(s, o.n, "other: "); e.prove(s, bit(b, j) == bit(q.a, j), "other operand unchanged", "frame")

for f in ("eq", "ne"):
    @U("operator" + {"eq": "==", "ne": "!="}[f], "operator" + {"eq": "==", "ne": "!="}[f], timeout=30000)
    def _(e, f=f):
        st = e.state(); o = BS(e, st, "o"); q = BS(e, st, "q", n=o.n); e.cover(st, "pre")
        k = z3.BitVec("k", 64)
        st.assume(z3.ForAll([k], z3.Implies(z3.UGE(k, o.pg), o.a[k] == q.a[k]), patterns=[o.a[k]])) if False else None
        for s, v in e.check_outs(e.call_function(st, "vp_" + f, [o.p, q.p])):
            v = e.b(v); v = v if f == "eq" else z3.Not(v)
            s1 = s.copy(); s1.assume(v); j = idx(e, s1, o.n); e.prove(s1, bit(o.a, j) == bit(q.a, j), "reported equal: same members")
            # reported different: some page differs, and every page has only bits of the set
            s2 = s.copy(); s2.assume(z3.Not(v)); s2.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, o.n), bit(o.a, k) == bit(q.a, k)), patterns=[o.a[z3.LShR(k, 6)]]))
            s2.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, o.pg), o.a[k] == q.a[k]), patterns=[o.a[k]]))
            e.prove(s2, z3.BoolVal(False), "same pages are reported equal")

@U("lemma: same members iff same pages", "(class invariant)", timeout=60000)
def _(e):
    # the bits in use of page k are those with 64 k + b < n
    x, y, m = z3.BitVecs("x y m", 64)
    n, k = z3.BitVecs("n k", 64)
    b = z3.BitVec("b", 64)
    st = e.state(); st.assume(z3.ULT(k, pages(n))); st.assume(z3.ULE(n, BV(MAXB)))
    st.assume(z3.Implies(k == pages(n) - 1, z3.And(x & ~mask(n) == 0, y & ~mask(n) == 0)))
    # x != y differ at bit b (explicit lowest difference)
    d = x ^ y; low = d & (-d); st.assume(d != 0)
    st.assume(z3.ULT(b, 64)); st.assume(low == BV(1) << b)
    e.prove(st, z3.And(z3.ULT((k << 6) + b, n), z3.Extract(0, 0, z3.LShR(x, b)) != z3.Extract(0, 0, z3.LShR(y, b))), "pages that differ differ at a member index", "lemma")

@unit("C05", "empty", tu=TU, fn=FN + "empty", timeout=30000)
def _(e):
    st = e.state(); o = BI(e, st, "o"); e.cover(st, "pre"); k = z3.Int("k")
    for s, v in e.check_outs(e.call_function(st, "vp_empty", [o.p])):
        v = e.b(v)
        s1 = s.copy(); s1.assume(v); s1.assume(z3.And(0 <= k, k < o.pg)); e.prove(s1, o.a[k] == 0, "reported empty: no page has a bit")
        s2 = s.copy(); s2.assume(z3.Not(v)); s2.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.pg), o.a[k] == 0), patterns=[o.a[k]])); e.prove(s2, z3.BoolVal(False), "all pages zero: reported empty")

CTTZ = z3.Function("CTTZ64", z3.IntSort(), z3.IntSort()); POP = z3.Function("CTPOP64", z3.IntSort(), z3.IntSort())

@unit("C05", "first_index", tu=TU, fn=FN + "first_index")
def _(e):
    st = e.state(); o = BI(e, st, "o"); e.cover(st, "pre"); j = z3.Int("j")
    e.loop_templates.append(lambda v: [("pages before are zero", z3.And(e.z(x["term"]) == 64 * v.k, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.k), o.a[j] == 0), patterns=[o.a[j]])))
                                       for x in v.vars if isinstance(x["ty"], IntTy) and x["ty"].w == 64 and x["key"][0] == "p"])
    for s, v in e.check_outs(e.call_function(st, "vp_first", [o.p])):
        v = e.z(v); pg = v / 64
        e.prove(s, z3.Or(z3.And(v == o.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o.pg), o.a[j] == 0))),
                         z3.And(0 <= v, pg < o.pg, o.a[pg] != 0, v % 64 == CTTZ(o.a[pg]), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pg), o.a[j] == 0)))),
                "bit_size if every page is zero, else the lowest bit of the first page that is not")

@unit("C05", "count", tu=TU, fn=FN + "count")
def _(e):
    st = e.state(); o = BI(e, st, "o"); e.cover(st, "pre")
    S = z3.Function("S", z3.IntSort(), z3.IntSort()); st.assume(S(0) == 0)      # S(k) = bits set in the first k pages
    def tpl(v):
        ptr = [x for x in v.vars if isinstance(x["ty"], PtrTy)]; acc = [x for x in v.vars if isinstance(x["ty"], IntTy) and x["ty"].w == 64]
        out = []
        for x in ptr:
            i = e.z(e.exact_div(x["term"].off, 8))
            for d in range(4): v.facts.append(z3.And(S(i + d + 1) == S(i + d) + POP(o.a[i + d])))
            out += [("bits of the pages before", z3.And(e.z(y["term"]) == S(i), e.z(y["term"]) <= 64 * i, e.z(y["term"]) >= 0)) for y in acc]
        return out
    e.loop_templates.append(tpl)
    for s, v in e.check_outs(e.call_function(st, "vp_count", [o.p])): e.prove(s, e.z(v) == S(o.pg), "sum of the bits of all pages")

@U("lemma: lowest bit", "(countr_zero)")
def _(e):
    st = e.state(); x, j = z3.BitVecs("x j", 64); t = e.bitcount(st, "cttz", 64, x)
    st.assume(z3.And(x != 0, z3.ULT(j, t)))
    e.prove(st, z3.And(z3.ULT(t, 64), z3.Extract(0, 0, z3.LShR(x, t)) == 1, z3.Extract(0, 0, z3.LShR(x, j)) == 0), "the bit countr_zero names is set and none below it", "lemma")

@U("small_subset", "small_subset", timeout=60000)
def _(e):
    st = e.state(); o = BS(e, st, "o"); f, n = z3.BitVecs("f n", 64)
    st.assume(z3.And(z3.ULE(n, 64), z3.ULT(f, o.n), z3.ULE(f + n, o.n))); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_small", [o.p, f, n])):
        j = z3.BitVec("j!c", 64); s.assume(z3.ULT(j, 64))
        e.prove(s, z3.Extract(0, 0, z3.LShR(v, j)) == z3.If(z3.ULT(j, n), bit(o.a, f + j), z3.BitVecVal(0, 1)), "bits of the window, zero above")

@U("subset", "subset", timeout=60000, budget=400)
def _(e):
    st = e.state(); o = BS(e, st, "o"); q = BS(e, st, "q", raw=True); f, n = z3.BitVecs("f n", 64)
    st.assume(z3.And(z3.ULE(n, BV(MAXB)), z3.ULT(f, o.n), z3.ULE(f + n, o.n))); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_subset", [q.p, o.p, f, n])):
        a = q.post(s, n)
        if a is not None: j = idx(e, s, n); e.prove(s, bit(a, j) == bit(o.a, f + j), "bits of the window")
