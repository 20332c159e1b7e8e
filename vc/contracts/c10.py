"""C10: symbol tables."""
from polys import *
TU = "symtab"; FN = "Moment::SymbolTable::"
MAP = (r"std::map<unsigned long, long.*>::find\(", r"std::map<unsigned long, long.*>::emplace"); EB = (r"std::vector<(unsigned )?long.*>::emplace_back",)
SYMEB = (r"std::vector<Moment::Symbol.*>::emplace_back",); PB = (r"BasisView::push_back",); I16_ = IntTy(16)
BIGV = 1 << 40

class Vecs:
    """std::vector<size_t> / <ptrdiff_t> by contract (standard library, trusted): a length and elements; emplace_back appends one"""
    def __init__(self, e, st, basis):
        self.e = e; self.r = {}; C = lambda o: e.const("vp_off_" + o)
        for nm in ("b_re", "b_im", "b_ior", "b_roi"):
            n = e.arg(nm + "_n", 64, 0, MAXID); r = e.array_region(st, nm, Lin(4 * BIGV), 8, {0: (I64, None)}); a = r.fields[0][1]; p = basis + C(nm); d = Ptr(r.id, Lin(0))
            e.put(st, p, 0, "ptr", d); e.put(st, p, 8, "ptr", d + n * 8); e.put(st, p, 16, "ptr", d + n * 8); self.r[nm] = (p, r, n, a); e.array_range(st, a, 0, (1 << 64) - 1)
        def emplace(e, s, args, I):
            v, x = args; end = e.get(s, v, 8, "ptr"); w = 32 if re.match(r"int( const)?&", re.sub(r".*emplace_back<", "", e.dem.get(I.x["callee"][1], ""))) else 64
            val = e.get(s, x, 0, "i32" if w == 32 else "i64")
            if w == 32: val = e.as_u(s, e.as_s(s, val, 32), 64)
            e.put(s, end, 0, "i64", val); e.put(s, v, 8, "ptr", end + 8); e.put(s, v, 16, "ptr", end + 8); return [(s, end)]
        e.contract_rx.append((re.compile(EB[0]), Contract("std::vector::emplace_back", emplace)))
    def length(self, s, nm):
        e = self.e; p, r, n, a = self.r[nm]; d = e.norm_ptr(s, e.get(s, p, 8, "ptr")); return e.z(e.exact_div(d.off, 8))
    def arr(self, s, nm): return s.mem[self.r[nm][1].id].fields[0][1]

@unit("C10", "appending to the basis", tu=TU, noinline=EB, fn=FN + "BasisView::push_back")
def _(e):
    st = e.state(); b = e.obj(st, "basis", 200); V = Vecs(e, st, b); id = e.arg("id", 32, 0, MAXID); hr = z3.Bool("has_re"); hi = z3.Bool("has_im"); o = e.obj(st, "out", 16); i = z3.Int("bi"); e.cover(st, "pre")
    R, M = hr, hi; n = {k: e.z(v[2]) for k, v in V.r.items()}; M1 = (1 << 64) - 1
    st.assume(n["b_re"] == n["b_ior"]); st.assume(n["b_im"] == n["b_roi"])
    for s, _ in e.check_outs(e.call_function(st, "vp_push", [o, b, id, hr, hi])):
        re_, im_ = e_int(e, s, o, 0, "i64", 64), e_int(e, s, o, 8, "i64", 64)
        e.prove(s, z3.And(re_ == z3.If(R, n["b_re"], M1), im_ == z3.If(M, n["b_im"], M1)), "the next free index of the real and of the imaginary basis, -1 where there is no such part")
        for k, c in (("b_re", R), ("b_ior", R), ("b_im", M), ("b_roi", M)):
            e.prove(s, V.length(s, k) == n[k] + z3.If(c, 1, 0), "one entry per part: " + k); a0, a1 = V.r[k][3], V.arr(s, k); s1 = s.copy(); s1.assume(z3.And(0 <= i, i < n[k])); e.prove(s1, a1[i] == a0[i], "earlier entries unchanged: " + k)
        at = lambda k: V.arr(s, k)[n[k]]
        e.prove(s, z3.Implies(R, z3.And(at("b_re") == e.z(id), at("b_ior") == im_)), "real index maps back to the symbol and to its imaginary index")
        e.prove(s, z3.Implies(M, z3.And(at("b_im") == e.z(id), at("b_roi") == re_)), "imaginary index maps back to the symbol and to its real index")

@unit("C10", "look-up by hash", tu=TU, noinline=MAP, fn=FN + "hash_to_index")
def _(e):
    """std::map::find by contract (standard library, trusted)"""
    st = e.state(); t = e.obj(st, "table", e.const("vp_size_table")); m = t + e.const("vp_off_t_map"); node = e.obj(st, "node", 48); v = e.put(st, node, 40, "i64", e.arg("value", 64)); h = e.arg("hash", 64); o = e.obj(st, "out", 16)
    found = z3.Bool("found"); asked = []
    def find(e, s, args, I):
        asked.append(e.get(s, args[1], 0, "i64")); s2 = s.copy(); s.assume(found); s2.assume(z3.Not(found)); return [(s, node), (s2, m + 8)]
    e.contract_rx.append((re.compile(MAP[0]), Contract("std::map::find", find))); e.cover(st, "pre"); vz = e.z(v); neg = vz >= (1 << 63)
    for s, _ in e.check_outs(e.call_function(st, "vp_h2i", [o, t, h])):
        x, c = e_int(e, s, o, 0, "i64", 64), e_int(e, s, o, 8, "i64", 64); s.assume(z3.Implies(found, vz != (1 << 63)))
        e.prove(s, e.z(asked[0]) == e.z(h), "looked up under the hash asked for")
        e.prove(s, z3.Implies(found, z3.And(x == z3.If(neg, (1 << 64) - vz, vz), c == z3.If(neg, 1, 0))), "a negative entry is the conjugate of the symbol")
        e.prove(s, z3.Implies(z3.Not(found), z3.And(x == (1 << 63) - 1, c == 0)), "not found")

def symbol(e, st, p, name, id=None):
    C = lambda o: e.const("vp_off_" + o); d = {}
    for w, o in (("op", C("sym_op")), ("cop", C("sym_cop"))):
        d[w] = e.z(e.put(st, p, o + C("os_hash"), "i64", e.arg(f"{name}_{w}_hash", 64))); d[w + "_has"] = e.z(e.put(st, p, o + e.const("vp_size_os"), "i8", e.arg(f"{name}_{w}_has", 8, 0, 1)))
    d["h"] = e.z(e.put(st, p, C("sym_h"), "i8", e.arg(name + "_h", 8, 0, 1))); d["a"] = e.z(e.put(st, p, C("sym_a"), "i8", e.arg(name + "_a", 8, 0, 1)))
    e.put(st, p, C("sym_id"), "i32", e.arg(name + "_id", 32) if id is None else id); e.put(st, p, C("sym_re"), "i64", Lin((1 << 64) - 1)); e.put(st, p, C("sym_im"), "i64", Lin((1 << 64) - 1)); return d

@unit("C10", "registering a symbol", tu=TU, noinline=MAP + SYMEB + PB, fn=FN + "merge_in(Symbol&&)")
def _(e):
    """a moment already known under its hash gets its old id and nothing changes; otherwise the next id, entered under its own hash and (unless Hermitian) negated under that of its conjugate"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); t = e.obj(st, "table", e.const("vp_size_table")); n = e.arg("symbols", 64, 2, MAXID); nz = e.z(n); sz = e.const("vp_size_sym")
    r = e.array_region(st, "symbols", n, sz, {C("sym_id"): (I32, None)}); ids = r.fields[C("sym_id")][1]; e.array_range(st, ids, 0, MAXID); i = z3.Int("ii"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nz), ids[i] == i), patterns=[ids[i]])); d = Ptr(r.id, Lin(0))
    for k, v in enumerate((d, d + n * sz, d + n * sz)): e.put(st, t, C("t_seq") + 8 * k, "ptr", v)
    ctx = e.obj(st, "context", 64); vt = e.obj(st, "vtable", 400); e.put(st, ctx, 0, "ptr", vt); e.put(st, t, C("t_ctx"), "ptr", ctx); e.put(st, t, C("t_alias"), "i8", Lin(0))
    for k in range(0, 400, 8): e.put(st, vt, k, "ptr", engine.FnPtr(f"vp_virtual_{k}"))
    el = e.obj(st, "elem", sz); S = symbol(e, st, el, "elem"); st.assume(S["op_has"] == 1); cnt = e.obj(st, "count", 8); c0 = e.z(e.put(st, cnt, 0, "i64", e.arg("c0", 64, 0, MAXID)))
    node = e.obj(st, "node", 48); v = e.put(st, node, 40, "i64", e.arg("value", 64)); vz = e.z(v); sv = z3.If(vz >= (1 << 63), (1 << 64) - vz, vz); found = z3.Bool("found"); m = t + C("t_map")
    st.assume(z3.Implies(found, z3.And(vz != 1 << 63, sv < nz)))                        # class invariant: entries of the map name symbols of the table
    gh = e.obj(st, "ghost", 64)                                                          # [0] entries made in the map, then (key, value) pairs; [56] symbols appended
    e.put(st, gh, 0, "i64", Lin(0)); e.put(st, gh, 56, "i64", Lin(0)); log = {}
    def find(e, s, args, I):
        e.prove(s, e_int(e, s, args[1], 0, "i64", 64) == S["op"], "looked up under its hash", "call"); s2 = s.copy(); s.assume(found); s2.assume(z3.Not(found)); return [(s, node), (s2, m + 8)]
    def emplace(e, s, args, I):
        k = e.get(s, gh, 0, "i64"); q = int(k.c if hasattr(k, "c") else 0); e.put(s, gh, 8 + 16 * q, "i64", e.get(s, args[1], 0, "i64")); e.put(s, gh, 16 + 16 * q, "i64", e.as_u(s, e.as_s(s, e.get(s, args[1], 8, "i32"), 32), 64)); e.put(s, gh, 0, "i64", Lin(q + 1))
        return [(s, [node, Lin(1)])]
    nullity = e.arg("null", 16, 0, (1 << 16) - 1); rz, iz = z3.Bool("re_null"), z3.Bool("im_null"); st.assume(e.z(nullity) == z3.If(rz, 1, 0) + z3.If(iz, 256, 0))
    def virt(e, s, args, I): return [(s, nullity)]
    rb, ib = e.arg("re_index", 64), e.arg("im_index", 64); pb = []
    def push_back(e, s, args, I):
        e.prove(s, e.z(e.as_u(s, args[1], 32)) == nz, "the basis is extended for the new id", "call")
        e.prove(s, e.b(args[2]) == z3.Not(z3.Or(rz, S["a"] == 1)), "real part unless null or anti-Hermitian", "call"); e.prove(s, e.b(args[3]) == z3.Not(z3.Or(iz, S["h"] == 1)), "imaginary part unless null or Hermitian", "call")
        return [(s, [rb, ib])]
    def append(e, s, args, I):
        p = args[1]; e.prove(s, z3.BoolVal(e.norm_ptr(s, p).r == el.r), "the symbol given is appended", "call"); k = e.get(s, gh, 56, "i64")
        e.prove(s, z3.And(e_int(e, s, p, C("sym_id"), "i32", 32) == nz, e_int(e, s, p, C("sym_re"), "i64", 64) == e.z(rb), e_int(e, s, p, C("sym_im"), "i64", 64) == e.z(ib)), "with the next id and its basis indices", "call")
        e.put(s, gh, 56, "i64", k + 1); return [(s, d + n * sz)]
    for rx, nm, f in ((MAP[0], "std::map::find", find), (MAP[1], "std::map::emplace", emplace), ("^vp_virtual_", "Context::is_sequence_null", virt), (PB[0], "BasisView::push_back", push_back), (SYMEB[0], "std::vector<Symbol>::emplace_back", append)):
        e.contract_rx.append((re.compile(rx), Contract(nm, f)))
    e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_merge", [t, el, cnt])):
        rv = e.z(e.as_u(s, v, 32)); made = e_int(e, s, gh, 0, "i64", 64); app = e_int(e, s, gh, 56, "i64", 64); new = z3.Not(found)
        e.prove(s, rv == z3.If(found, sv, nz), "old id of a known moment, next free id of a new one"); e.prove(s, app == z3.If(found, 0, 1), "appended exactly once if new"); e.prove(s, made == z3.If(found, 0, z3.If(S["h"] == 1, 1, 2)), "as many hash entries as there are distinct words")
        e.prove(s, e_int(e, s, cnt, 0, "i64", 64) == c0 + z3.If(found, 0, 1), "counted if new")
        for q, key, val in ((0, S["op"], nz), (1, z3.If(S["cop_has"] == 1, S["cop"], S["op"]), (1 << 64) - nz)):
            s1 = s.copy(); s1.assume(made > q)
            if e.feasible(s1): e.prove(s1, z3.And(e_int(e, s1, gh, 8 + 16 * q, "i64", 64) == key, e_int(e, s1, gh, 16 + 16 * q, "i64", 64) == val), "the hash of the conjugate leads to minus the id" if q else "its hash leads to its id")

@unit("C10", "basis index of a symbol", tu=TU, fn=FN + "BasisView::operator(), imaginary_from_real, real_from_imaginary")
def _(e):
    C = lambda o: e.const("vp_off_" + o); st = e.state(); t = e.obj(st, "table", e.const("vp_size_table")); n = e.arg("symbols", 64, 0, MAXID); sz = e.const("vp_size_sym")
    r = e.array_region(st, "symbols", n, sz, {C("sym_re"): (I64, None), C("sym_im"): (I64, None)}); d = Ptr(r.id, Lin(0)); e.put(st, t, C("t_seq"), "ptr", d); e.put(st, t, C("t_seq") + 8, "ptr", d + n * sz)
    e.put(st, t, C("t_basis") + C("b_tab"), "ptr", t); V = Vecs(e, st, t + C("t_basis")); id = e.arg("id", 32, 0, MAXID); st.assume(e.z(id) < e.z(n)); o = e.obj(st, "out", 16); i = e.arg("i", 64); e.cover(st, "pre"); iz = e.z(i)
    for s, _ in e.check_outs(e.call_function(st.copy(), "vp_byid", [o, t, id])): e.prove(s, z3.And(e_int(e, s, o, 0, "i64", 64) == r.fields[C("sym_re")][1][e.z(id)], e_int(e, s, o, 8, "i64", 64) == r.fields[C("sym_im")][1][e.z(id)]), "the pair recorded for that symbol")
    for f, k in (("vp_im_from_re", "b_ior"), ("vp_re_from_im", "b_roi")):
        s0 = st.copy(); s0.assume(z3.Or(iz >= 1 << 63, iz < e.z(V.r[k][2])))
        for s, v in e.check_outs(e.call_function(s0, f, [t, i])): e.prove(s, e.z(e.as_u(s, v, 64)) == z3.If(iz >= 1 << 63, (1 << 64) - 1, V.r[k][3][iz]), "-1 of -1, otherwise the partner recorded")

@unit("C10", "renumbering the bases", tu=TU, noinline=EB, fn=FN + "BasisView::renumerate_bases", timeout=30000, budget=500)
def _(e):
    """RC(j), IC(j): symbols before j with a real, an imaginary part; the index of a part is the number of such parts before it"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); t = e.obj(st, "table", e.const("vp_size_table")); n = e.arg("symbols", 64, 0, MAXID); nz = e.z(n); sz = e.const("vp_size_sym"); M1 = (1 << 64) - 1
    r = e.array_region(st, "symbols", n, sz, {C("sym_id"): (I32, None), C("sym_h"): (I8, None), C("sym_a"): (I8, None), C("sym_re"): (I64, None), C("sym_im"): (I64, None)}); F = {k: r.fields[C("sym_" + k)][1] for k in ("id", "h", "a", "re", "im")}
    e.array_range(st, F["id"], 0, MAXID); e.array_range(st, F["h"], 0, 1); e.array_range(st, F["a"], 0, 1); d = Ptr(r.id, Lin(0))
    for k, v in enumerate((d, d + n * sz, d + n * sz)): e.put(st, t, C("t_seq") + 8 * k, "ptr", v)
    b = t + C("t_basis"); e.put(st, b, C("b_tab"), "ptr", t); V = Vecs(e, st, b); o = e.obj(st, "out", 16); i = z3.Int("ri"); Z = z3.IntSort()
    hr = lambda j: F["a"][j] == 0; hi = lambda j: F["h"][j] == 0; RC = z3.Function("RC", Z, Z); IC = z3.Function("IC", Z, Z); st.assume(z3.And(RC(0) == 0, IC(0) == 0)); e.cover(st, "pre")
    RI = lambda j: z3.If(hr(j), RC(j), M1); II = lambda j: z3.If(hi(j), IC(j), M1)
    parts = (("b_re", hr, RC, lambda j: F["id"][j], "real index leads to the symbol"), ("b_ior", hr, RC, II, "real index leads to the imaginary one"), ("b_im", hi, IC, lambda j: F["id"][j], "imaginary index leads to the symbol"), ("b_roi", hi, IC, RI, "imaginary index leads to the real one"))
    def tpl(v):
        vecs = {k: next(iter([x["term"] for x in v.arrays if x["entry"].eq(V.arr(v.entry, k))]), V.arr(v.entry, k)) for k in V.r}; cells = {x["key"][2]: x["term"] for x in v.vars if x["key"][0] == "c"}; out = []
        arr = {k: next(iter([x["term"] for x in v.arrays if x["entry"].eq(F[k])]), F[k]) for k in ("re", "im")}; bo = C("t_basis")
        for x in [e.z(e.exact_div(q["term"].off, sz)) for q in v.vars if isinstance(q["ty"], PtrTy) and q["term"].r == r.id]:
            v.facts.append(z3.Implies(x >= 0, z3.And(RC(x + 1) == RC(x) + z3.If(hr(x), 1, 0), IC(x + 1) == IC(x) + z3.If(hi(x), 1, 0))))
            out += [("range", z3.And(0 <= x, x <= nz)), ("counts", z3.And(0 <= RC(x), RC(x) <= x, 0 <= IC(x), IC(x) <= x))]
            for q in v.vars:
                if isinstance(q["ty"], IntTy) and q["ty"].w == 64: out += [("real parts", e.z(q["term"]) == RC(x)), ("imaginary parts", e.z(q["term"]) == IC(x))]
            for k, has, CT, val, nm in parts:
                end = cells.get(bo + C(k) + 8)
                if end is not None: out.append(("length " + k, e.z(e.exact_div(end.off, 8)) == CT(x)))
                out.append((nm, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x, has(i)), z3.And(0 <= CT(i), CT(i) < CT(x), vecs[k][CT(i)] == val(i))), patterns=[CT(i)])))
            out += [("recorded " + k, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x), arr[k][i] == f(i)), patterns=[arr[k][i]])) for k, f in (("re", RI), ("im", II))]
        return out
    e.loop_templates.append(tpl); e.auto = False; j = z3.Int("j!c")
    for s, _ in e.check_outs(e.call_function(st, "vp_renum", [o, b])):
        e.prove(s, z3.And(e_int(e, s, o, 0, "i64", 64) == RC(nz), e_int(e, s, o, 8, "i64", 64) == IC(nz)), "number of real and of imaginary parts"); s.assume(z3.And(0 <= j, j < nz)); G = s.mem[r.id].fields
        e.prove(s, z3.And(G[C("sym_re")][1][j] == RI(j), G[C("sym_im")][1][j] == II(j)), "index of a part: the number of such parts of earlier symbols, or -1")
        for k, has, CT, val, nm in parts:
            e.prove(s, V.length(s, k) == CT(nz), "one entry per part: " + k); s1 = s.copy(); s1.assume(has(j)); e.prove(s1, z3.And(CT(j) < CT(nz), V.arr(s1, k)[CT(j)] == val(j)), nm)
