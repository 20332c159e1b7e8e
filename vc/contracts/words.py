"""shared vocabulary: words (HashedSequence over SmallVector<int16>), shortlex hash specification"""
from unit import *
I16 = IntTy(16)
MAXOP = 32767

def word_obj(e, st, name, n=None, lo=0, hi=MAXOP, hash=None, sign=None):
    """a HashedSequence whose operators live in one array object of symbolic length n"""
    n = e.arg(name + "_n", 64, 0, 1 << 40) if n is None else n
    dp, arr = e.array(st, name + "_data", n, I16, (lo, hi))
    p = e.obj(st, name, e.const("vp_size_hs"))
    o = e.const("vp_off_hs_ops")
    h = e.put(st, p, e.const("vp_off_hs_hash"), "i64", e.arg(name + "_hash", 64) if hash is None else hash)
    sg = e.put(st, p, e.const("vp_off_hs_sign"), "i8", e.arg(name + "_sign", 8, 0, 3) if sign is None else sign)
    e.put(st, p, o + e.const("vp_off_sv_size"), "i64", n)
    e.put(st, p, o + e.const("vp_off_sv_data"), "ptr", dp)
    e.put(st, p, o + e.const("vp_off_sv_cap"), "i64", n)
    return p, dp, arr, n, h, sg

class ShortlexSpec:
    """hash(s[0..n)) = offset + T(n),  T(k) = sum_{m<k} (s[n-1-m]+1) * P(m),  P(m) = radix^m   (mathematical integers)"""
    def __init__(self, e, st, s, n, radix, tag=""):
        i = z3.IntSort()
        self.P = z3.Function("P" + tag, i, i); self.T = z3.Function("T" + tag, i, i)
        self.s, self.n, self.r, self.e = s, n, radix, e
        st.assume(self.P(0) == 1); st.assume(self.T(0) == 0)

    def unfold(self, k):
        return z3.And(self.T(k + 1) == self.T(k) + (self.s[self.n - 1 - k] + 1) * self.P(k), self.P(k + 1) == self.P(k) * self.r)

def hasher_obj(e, st):
    h = e.obj(st, "hasher", e.const("vp_size_hasher"))
    r = e.put(st, h, e.const("vp_off_radix"), "i64", e.arg("radix", 64, 1, 1 << 20))
    o = e.put(st, h, e.const("vp_off_offset"), "i64", e.arg("offset", 64, 0, 1 << 20))
    return h, e.z(r), e.z(o)

WV = tuple("SmallVector<short.*>::" + f for f in (r"SmallVector\(", r"~SmallVector\(", r"push_back\(", r"emplace_back", r"reserve\(", r"operator=\("))
class WordVec:
    """SmallVector<oper_name_t, N> by its contracts (C04): a vector is its length and the address of its elements, which always has room for one more"""
    def __init__(self, e, on_push=None):
        self.e = e; self.on_push = on_push; reg = lambda rx, nm, f: e.contract_rx.append((re.compile(r"SmallVector<short.*>::" + rx), Contract("SmallVector<oper_name_t>::" + nm, f)))
        reg(r"SmallVector\(\)", "SmallVector()", self.ctor); reg(r"SmallVector\((Moment::SmallVector<.*>)?&&\)", "SmallVector(&&)", self.move); reg(r"~SmallVector\(", "~SmallVector()", lambda e, st, a, I: [(st, None)])
        reg(r"SmallVector\((Moment::SmallVector<.*>)? const&\)", "SmallVector(const&)", self.copy); reg(r"emplace_back<", "emplace_back", self.emplace); reg(r"insert<", "insert", self.insert); reg(r"push_back\(", "push_back", self.push); reg(r"reserve\(", "reserve", self.reserve)
    def C(self, o): return self.e.const("vp_off_" + o)
    def store(self, st): return self.e.array_region(st, "elements", Lin(1 << 44), 2, {0: (I16, None)})
    def ctor(self, e, st, args, I):
        r = self.store(st); e.put(st, args[0], self.C("sv_size"), "i64", Lin(0)); e.put(st, args[0], self.C("sv_data"), "ptr", Ptr(r.id, Lin(0))); return [(st, None)]
    def move(self, e, st, args, I):
        a, b = args[:2]; n, d = e.get(st, b, self.C("sv_size"), "i64"), e.get(st, b, self.C("sv_data"), "ptr"); self.ctor(e, st, [b], I); e.put(st, a, self.C("sv_size"), "i64", n); e.put(st, a, self.C("sv_data"), "ptr", d); return [(st, None)]
    def push(self, e, st, args, I):
        p, q = args[:2]; x = e.get(st, q, 0, "i16") if isinstance(q, Ptr) else q; n = e.as_u(st, e.get(st, p, self.C("sv_size"), "i64"), 64); d = e.get(st, p, self.C("sv_data"), "ptr")
        e.put(st, d + n * 2, 0, "i16", x); e.put(st, p, self.C("sv_size"), "i64", n + 1); return [(st, None)]
    def copy(self, e, st, args, I):
        a, b = args[:2]; src = e.norm_ptr(st, e.get(st, b, self.C("sv_data"), "ptr")); n = e.get(st, b, self.C("sv_size"), "i64"); self.ctor(e, st, [a], I); arr, off = st.mem[src.r].fields[0][1], e.z(e.exact_div(src.off, 2))
        if not z3.is_int_value(z3.simplify(off)) or z3.simplify(off).as_long() != 0: raise Unsupported("copy of a word not at the start of its elements")
        d = e.get(st, a, self.C("sv_data"), "ptr"); g = st.wr(d.r); g.fields[0] = (g.fields[0][0], arr); e.put(st, a, self.C("sv_size"), "i64", n); return [(st, None)]
    def emplace(self, e, st, args, I):
        ty = "i32" if re.search(r"emplace_back<(unsigned )?int", e.dem.get(I.x["callee"][1], "")) else "i16"; x = e.get(st, args[1], 0, ty)
        if ty == "i32": x = e.as_s(st, x, 32); e.prove(st, z3.And(-32768 <= e.z(x), e.z(x) <= 32767), "the value fits an operator name", "call")
        return self.push(e, st, [args[0], x], I)
    def insert(self, e, st, args, I):
        """at the end"""
        p, wh, f, l = args[:4]; n = e.as_u(st, e.get(st, p, self.C("sv_size"), "i64"), 64); d = e.norm_ptr(st, e.get(st, p, self.C("sv_data"), "ptr")); wh, f, l = (e.norm_ptr(st, x) for x in (wh, f, l))
        e.prove(st, z3.And(z3.BoolVal(wh.r == d.r and f.r == l.r), e.z(wh.off) == e.z(d.off) + 2 * e.z(n)), "a range is inserted at the end", "call"); cnt = e.exact_div(l.off, 2) - e.exact_div(f.off, 2); f0 = e.z(e.exact_div(f.off, 2)); e.prove(st, e.z(cnt) >= 0, "the range is not reversed", "call")
        src = st.mem[f.r].fields[0][1]; g = st.wr(d.r); ty, old = g.fields[0]; new = e.new_array("inserted", ty); i = z3.Int(f"ins!{new.get_id()}"); nz = e.z(n); g.fields[0] = (ty, new)
        st.assume(z3.ForAll([i], new[i] == z3.If(z3.And(nz <= i, i < nz + e.z(cnt)), src[f0 + i - nz], old[i]), patterns=[new[i]])); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nz), new[i] == old[i]), patterns=[old[i]]))
        e.put(st, p, self.C("sv_size"), "i64", n + cnt); return [(st, None)]
    def reserve(self, e, st, args, I): return [(st, None)]
    def view(self, s, p):
        e = self.e; d = e.norm_ptr(s, e.get(s, p, self.C("sv_data"), "ptr")); return e.z(e.as_u(s, e.get(s, p, self.C("sv_size"), "i64"), 64)), s.mem[d.r].fields[0][1], d
