"""C16: inflated networks.  Assumed: std::sort, std::unique, std::is_sorted (standard library) by contract; numbers of copies fit an oper_name_t."""
from words import *
TU = "inflation"; FN = "Moment::Inflation::InflationContext::"; Z = z3.IntSort(); TOP = 32766; I8 = IntTy(8)
u64 = lambda e, s, p, o: e.z(e.as_u(s, e.get(s, p, o, "i64"), 64)); s16 = lambda e, s, p, o: e.z(e.as_s(s, e.get(s, p, o, "i16"), 16))
def vec(e, st, p, off, d, nbytes):
    for k, v in enumerate((d, d + nbytes, d + nbytes)): e.put(st, p, off + 8 * k, "ptr", v)

def scenario(e):
    """a word of known operators, each with its observable, copy and kind"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); w = e.obj(st, "word", e.const("vp_size_sv")); ctx = e.obj(st, "context", e.const("vp_size_ctx")); nl = e.arg("n", 64, 0, 1 << 40); n = e.z(nl); ol = e.arg("operators", 16, 0, TOP); on = e.z(ol); isz = e.const("vp_size_info")
    d, a = e.array(st, "ops", nl, I16, (0, TOP)); e.put(st, w, C("sv_size"), "i64", nl); e.put(st, w, C("sv_data"), "ptr", d); e.put(st, w, C("sv_cap"), "i64", nl)
    r = e.array_region(st, "info", ol, isz, {C("info_id"): (I16, None), C("info_obs"): (I16, None), C("info_var"): (I16, None), C("info_proj"): (I8, None)}); F = {k: r.fields[C("info_" + k)][1] for k in ("id", "obs", "var", "proj")}; vec(e, st, ctx, C("ctx_info"), Ptr(r.id, Lin(0)), ol * isz)
    for k in F: e.array_range(st, F[k], 0, 1 if k == "proj" else TOP)
    i = z3.Int("i"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a[i] < on), patterns=[a[i]])); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < on), F["id"][i] == i), patterns=[F["id"][i]]))
    return C, st, ctx, w, d, a, nl, n, on, F, lambda x, y: z3.And(F["obs"][x] == F["obs"][y], F["var"][x] == F["var"][y], x != y), lambda x, y: z3.And(x == y, F["proj"][x] != 0)

def loop(bad, arr, n, i):
    def tpl(v):
        out = []
        for x in v.vars:
            if not isinstance(x["ty"], PtrTy):
                try: k = e_int(x["term"])
                except Exception: continue
                if k is not None: out += [("from the second", k >= 1), ("none so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < k), z3.Not(bad(arr[i], arr[i + 1]))), patterns=[arr[i]]))]
        return out
    return tpl

CMP = r"^bool __gnu_cxx::__ops::_Iter_comp_iter<.*>::operator\(\)<short\*, short\*>"
@unit("C16", "simplification", tu=TU, noinline=(r"std::sort<", r"std::unique<", CMP), fn=FN + "additional_simplification")
def _(e):
    """sorted; zero exactly if two outcomes of one copy meet; else with repeated projectors merged"""
    C, st, ctx, w, d, a, nl, n, on, F, orth, same = scenario(e); sg = e.obj(st, "sign", 1); s0 = e.z(e.put(st, sg, 0, "i8", e.arg("sign", 8, 0, 3))); i = z3.Int("i"); S = z3.Array("SORTED", Z, Z); U = z3.Array("MERGED", Z, Z); c = z3.Int("merged")
    def sort(e, s, args, I):
        f, l = args[:2]; e.prove(s, z3.And(e.z(f.off) == 0, e.z(e.exact_div(l.off, 2)) == n), "the whole word is sorted", "call"); g = s.wr(f.r); g.fields[0] = (g.fields[0][0], S); e.arr_range[S.get_id()] = (S, 0, TOP)
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= S[i], S[i] < on)), patterns=[S[i]])); return [(s, None)]
    def uniq(e, s, args, I):
        f, l = args[:2]; e.prove(s, z3.And(e.z(f.off) == 0, e.z(e.exact_div(l.off, 2)) == n, z3.BoolVal(s.mem[f.r].fields[0][1].eq(S))), "repeats are merged in the whole sorted word", "call")
        nm = next((k for k in e.m.functions if not e.m.functions[k].is_decl and re.search(CMP, e.dem.get(k, k))), None)
        if nm is None: raise Unsupported("the test for repeats is not a function")
        x, y = e.arg("x", 16, 0, TOP), e.arg("y", 16, 0, TOP); s1 = s.copy(); s1.assume(z3.And(e.z(x) < on, e.z(y) < on)); xo, yo = e.obj(s1, "x", 2), e.obj(s1, "y", 2); e.put(s1, xo, 0, "i16", x); e.put(s1, yo, 0, "i16", y); cap = e.obj(s1, "captures", max(8, 8 * len(args[2:])))
        for k, v in enumerate(args[2:]): e.put(s1, cap, 8 * k, "ptr", v)
        for s2, v in e.check_outs(e.call_function(s1, nm, [cap, xo, yo])): e.prove(s2, e.b(v) == same(e.z(x), e.z(y)), "repeats of projectors are merged")
        g = s.wr(f.r); g.fields[0] = (g.fields[0][0], U); e.arr_range[U.get_id()] = (U, 0, TOP); cl = e.fresh_int("merged", 64, 0, 1 << 40); s.assume(e.z(cl) == c); s.assume(z3.And(c <= n, (c == 0) == (n == 0))); return [(s, f + cl * 2)]
    for rx, nm, f in (("std::sort<", "std::sort", sort), ("std::unique<", "std::unique", uniq)): e.contract_rx.append((re.compile(rx), Contract(nm, f)))
    e.cover(st, "pre"); e.loop_templates.append(loop(orth, S, n, i))
    for s, v in e.check_outs(e.call_function(st, "vp_simplify", [ctx, w, sg])):
        m = u64(e, s, w, C("sv_size")); e.prove(s, e.z(e.as_u(s, e.get(s, sg, 0, "i8"), 8)) == s0, "the sign stays", "frame"); b = e.arr_at(s, e.get(s, w, C("sv_data"), "ptr")); z = s.copy(); z.assume(e.b(v))
        if e.feasible(z): e.prove(z, z3.And(m == 0, z3.Exists([i], z3.And(0 <= i, i + 1 < n, orth(S[i], S[i + 1])))), "a zero word is empty and had two outcomes of one copy")
        s.assume(z3.Not(e.b(v)))
        if not e.feasible(s): continue
        k = z3.Int("k!c"); e.prove(s, m == c, "the merged word is kept"); s.assume(0 <= k); t = s.copy(); t.assume(k < c); e.prove(t, b[k] == U[k], "operator by operator"); s.assume(k + 1 < n); e.prove(s, z3.Not(orth(S[k], S[k + 1])), "and never had two outcomes of one copy")

@unit("C16", "recognising simplified words", tu=TU, noinline=(r"std::is_sorted<", r"OperatorSequence::OperatorSequence\(", r"Context::hash", r"OperatorSequence::~OperatorSequence", r"hash", r"SmallVector<.*>::SmallVector\(", r"SmallVector<.*>::~SmallVector", r"make_optional"), fn=FN + "get_if_canonical")
def _(e):
    """accepted exactly if sorted, with neither two outcomes of one copy nor repeated projectors next to each other"""
    C, st, ctx, w, d, a, nl, n, on, F, orth, same = scenario(e); i = z3.Int("i"); Q = z3.Bool("SORTED"); bad = lambda x, y: z3.Or(orth(x, y), same(x, y))
    def srt(e, s, args, I):
        f, l = args[:2]; e.prove(s, z3.And(e.z(f.off) == 0, e.z(e.exact_div(l.off, 2)) == n), "the whole word is tested for order", "call"); return [(s, Q)]
    e.contract_rx.append((re.compile("std::is_sorted<"), Contract("std::is_sorted", srt))); e.contract_rx.append((re.compile(r"OperatorSequence::OperatorSequence\("), Contract("OperatorSequence", lambda e, s, args, I: [(s, None)]))); e.contract_rx.append((re.compile("~OperatorSequence"), Contract("~OperatorSequence", lambda e, s, args, I: [(s, None)])))
    for rx in (r"SmallVector<.*>::~?SmallVector\(",): e.contract_rx.append((re.compile(rx), Contract("SmallVector", lambda e, s, args, I: [(s, None)])))
    e.contract_rx.append((re.compile("hash"), Contract("hash", lambda e, s, args, I: [(s, e.fresh_int("hash", 64, 0, (1 << 64) - 1))])))
    e.cover(st, "pre"); e.loop_templates.append(loop(bad, a, n, i))
    for s, v in e.check_outs(e.call_function(st, "vp_canonical", [ctx, w])):
        z = s.copy(); z.assume(z3.Not(e.b(v)))
        if e.feasible(z): e.prove(z, z3.Or(z3.Not(Q), z3.Exists([i], z3.And(0 <= i, i + 1 < n, bad(a[i], a[i + 1])))), "refused for a reason")
        s.assume(e.b(v)); k = z3.Int("k!c")
        if e.feasible(s): s.assume(z3.And(0 <= k, k + 1 < n)); e.prove(s, z3.And(Q, z3.Not(bad(a[k], a[k + 1]))), "accepted only if simplified")

@unit("C16", "source numbering", tu=TU, fn="Moment::Inflation::CausalNetwork::source_variant_to_global_source, global_source_to_source_variant, total_source_count")
def _(e):
    """copies of explicit sources, then implicit sources: every number names one, both ways"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); net = e.obj(st, "net", e.const("vp_size_net")); imp = e.arg("explicit", 64, 0, TOP); tot = e.arg("sources", 64, 0, TOP); inf = e.arg("inflation", 64, 1, TOP); e.put(st, net, C("net_imp"), "i64", imp); ssz = e.const("vp_size_src"); r = e.array_region(st, "sources", tot, ssz, {}); vec(e, st, net, C("net_src"), Ptr(r.id, Lin(0)), tot * ssz); iz, tz, fz = e.z(imp), e.z(tot), e.z(inf); st.assume(iz <= tz); st.assume(iz * fz <= 1 << 40); e.cover(st, "pre"); o = e.obj(st, "out", 16); U = lambda s, v: e.z(e.as_u(s, v, 64))
    for s, v in e.check_outs(e.call_function(st.copy(), "vp_total_src", [net, inf])): e.prove(s, U(s, v) == iz * fz + tz - iz, "total number")
    a, b = e.arg("source", 64, 0, TOP), e.arg("copy", 64, 0, TOP); az, bz = e.z(a), e.z(b); s0 = st.copy(); s0.assume(z3.And(az < iz, bz < fz)); s0.assume(z3.And(az * fz + bz < iz * fz, az * fz >= 0)); e.prove(st, z3.Implies(z3.And(0 <= az, az < iz, 0 <= bz, bz < fz), z3.And((az + 1) * fz <= iz * fz, az * fz >= 0, (az + 1) * fz == az * fz + fz)), "copies of different sources do not overlap", "lemma")
    for s, v in e.check_outs(e.call_function(s0, "vp_src_to_global", [net, inf, a, b])): e.prove(s, U(s, v) == az * fz + bz, "copy of an explicit source")
    s0 = st.copy(); s0.assume(z3.And(az >= iz, az < tz, bz == 0))
    for s, v in e.check_outs(e.call_function(s0, "vp_src_to_global", [net, inf, a, b])): e.prove(s, U(s, v) == iz * fz + az - iz, "implicit source")
    g = e.arg("global", 64, 0, 1 << 41); gz = e.z(g); s0 = st.copy(); s0.assume(gz < iz * fz)
    for s, _ in e.check_outs(e.call_function(s0, "vp_global_to_src", [o, net, inf, g])): x, y = u64(e, s, o, 0), u64(e, s, o, 8); e.prove(s, z3.And(0 <= y, y < fz, x * fz + y == gz), "back to the copy")
    s0 = st.copy(); s0.assume(z3.And(gz >= iz * fz, gz < iz * fz + tz - iz))
    for s, _ in e.check_outs(e.call_function(s0, "vp_global_to_src", [o, net, inf, g])): x, y = u64(e, s, o, 0), u64(e, s, o, 8); e.prove(s, z3.And(y == 0, x == gz - iz * fz + iz), "back to the implicit source")

@unit("C16", "operator numbering", tu=TU, fn=FN + "operator_number, obs_variant_to_index")
def _(e):
    """first operator of the observable, plus one block per earlier copy, plus the outcome"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); ctx = e.obj(st, "context", e.const("vp_size_ctx")); ol = e.arg("observables", 16, 0, TOP); on = e.z(ol); z1, z2 = e.const("vp_size_ico"), e.const("vp_size_obs")
    r = e.array_region(st, "inflated", ol, z1, {C("ico_op"): (I16, None), C("ico_voff"): (I16, None)}); F = {k: r.fields[C("ico_" + k)][1] for k in ("op", "voff")}; vec(e, st, ctx, C("ctx_obs"), Ptr(r.id, Lin(0)), ol * z1); q = e.array_region(st, "base", ol, z2, {C("obs_outcomes"): (IntTy(64), None)}); out = q.fields[C("obs_outcomes")][1]; vec(e, st, ctx, C("ctx_net") + C("net_obs"), Ptr(q.id, Lin(0)), ol * z2)
    for k in F: e.array_range(st, F[k], 0, TOP)
    e.array_range(st, out, 0, TOP); o, v, x = e.arg("o", 16, 0, TOP), e.arg("v", 16, 0, TOP), e.arg("x", 16, 0, TOP); oz, vz, xz = map(e.z, (o, v, x)); st.assume(oz < on); blk = z3.If(out[oz] != 0, out[oz] - 1, z3.IntVal(1)); st.assume(F["op"][oz] + vz * blk + xz <= TOP); st.assume(vz * blk >= 0); st.assume(F["voff"][oz] + vz <= TOP); e.cover(st, "pre")
    for s, r in e.check_outs(e.call_function(st.copy(), "vp_ov", [ctx, o, v])): e.prove(s, e.z(e.as_s(s, r, 16)) == F["voff"][oz] + vz, "number of the copy")
    for s, r in e.check_outs(e.call_function(st, "vp_opnumber", [ctx, o, v, x])): e.prove(s, e.z(e.as_s(s, r, 16)) == F["op"][oz] + vz * blk + xz, "number of the operator")

W = z3.Function("WEIGHT", Z, Z); V = z3.Function("FLAT", Z, Z); Q = z3.Function("QUOTIENT", Z, Z)
@unit("C16", "copy number of source indices", tu=TU, fn="Moment::Inflation::Observable::flatten_index")
def _(e):
    """mixed-radix value, first source fastest"""
    st = e.state(); ob = e.obj(st, "observable", e.const("vp_size_obs")); inf = e.arg("inflation", 64, 1, TOP); f = e.z(inf); nl = e.arg("n", 64, 0, 30); n = e.z(nl); d, a = e.array(st, "indices", nl, I16, (0, TOP)); i = z3.Int("i")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(a[i] < f, W(i + 1) == W(i) * f, V(i + 1) == V(i) + a[i] * W(i), 1 <= W(i + 1), W(i + 1) <= TOP)), patterns=[a[i]])); st.assume(z3.And(W(0) == 1, V(0) == 0)); e.cover(st, "pre")
    x, y, t, g = z3.Ints("x y t g"); e.lemma("digits keep the value below the weight", [0 <= x, x < y, 0 <= t, t < g], z3.And(x + t * y < y * g, x + t * y >= 0)); e.lemma("a value's digits rebuild it", [y >= 1, g >= 1, x >= 0], z3.And((x % g) * y + (x / g) * (y * g) == x * y, x % g < g, x % g >= 0))
    def tpl(v):
        out = []; ks = [e.z(q["term"]) for q in v.vars if not isinstance(q["ty"], PtrTy)]
        for k in ks: out += [("counter in range", z3.And(k >= 0, k <= n))]
        for k in ks:
            for q in ks:
                if not q.eq(k): out += [("value so far", z3.And(q == V(k))), ("weight so far", q == W(k)), ("value below weight", z3.And(V(k) >= 0, V(k) < W(k), W(k) >= 1))]
        return out
    e.loop_templates.append(tpl)
    for s, v in e.check_outs(e.call_function(st, "vp_flatten", [ob, inf, d, nl])): e.prove(s, e.z(e.as_s(s, v, 16)) == V(n), "mixed-radix value")

@unit("C16", "source indices of a copy", tu=TU, fn="Moment::Inflation::Observable::unflatten_index", bounded="observables with up to four sources")
def _(e):
    """the digits, first source fastest"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); ob = e.obj(st, "observable", e.const("vp_size_obs")); out = e.obj(st, "out", e.const("vp_size_si")); inf = e.arg("inflation", 64, 1, TOP); f = e.z(inf); nl = e.arg("n", 64, 0, 4); n = e.z(nl); e.put(st, ob, C("obs_count"), "i64", nl); x = e.arg("index", 16, 0, TOP); i = z3.Int("i")
    st.assume(Q(0) == e.z(x)); st.assume(z3.ForAll([i], z3.Implies(0 <= i, z3.And(Q(i + 1) == Q(i) / f, Q(i) >= 0, Q(i) <= TOP)), patterns=[Q(i)])); e.cover(st, "pre")
    e.unroll = 5; e.unroll_strict = True
    for s, _ in e.check_outs(e.call_function(st, "vp_unflatten", [out, ob, inf, x])):
        e.prove(s, u64(e, s, out, C("si_size")) == n, "one digit per source"); b = e.get(s, out, C("si_data"), "ptr")
        for q in range(4): 
            t = s.copy(); t.assume(n > q)
            if e.feasible(t): e.prove(t, s16(e, t, b, 2 * q) == Q(q) % f, f"digit {q}")

VI = r"std::vector<int.*>::(reserve|emplace_back|push_back|erase|insert|resize|assign)"
@unit("C16", "merging factors", tu=TU, noinline=(r"std::merge<", r"std::upper_bound<", VI), fn="Moment::Inflation::FactorTable::combine_symbolic_factors")
def _(e):
    """zero if either side is; else both sides' factors without ones, or the single factor one.  Assumed: std::merge, std::upper_bound and growth of std::vector by contract"""
    I32 = IntTy(32); st = e.state(); i, j = z3.Ints("i j"); M = z3.Array("MERGED", Z, Z); MAXS = 1 << 30; side = []
    for nm in ("left", "right"):
        v = e.obj(st, nm, 24); nl = e.arg("n_" + nm, 64, 0, 1 << 30); d, a = e.array(st, nm + "_factors", nl, I32, (0, MAXS)); vec(e, st, v, 0, d, nl * 4); n = e.z(nl)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), a[i] <= a[j]), patterns=[z3.MultiPattern(a[i], a[j])])); side.append((v, nl, d, a))
    (lv, ll, ld, la), (rv, rl, rd, ra) = side; ln, rn = e.z(ll), e.z(rl); ol = e.arg("n_old", 64, 0, 1 << 30); out = e.obj(st, "out", 24); od, oa = e.array(st, "output", Lin(1 << 33), I32, (0, MAXS)); vec(e, st, out, 0, od, ol * 4); CUT = z3.Int("ones"); e.cover(st, "pre")
    length = lambda s, v: e.exact_div((e.norm_ptr(s, e.get(s, v, 8, "ptr")).off - e.norm_ptr(s, e.get(s, v, 0, "ptr")).off), 4)
    def setarr(s, p, A): g = s.wr(p.r); g.fields[0] = (g.fields[0][0], A); e.arr_range[A.get_id()] = (A, 0, MAXS)
    def merge(e, s, args, I):
        ok = all(x.r == d.r for x, d in zip(args[:4], (ld, ld, rd, rd))); e.prove(s, z3.And(z3.BoolVal(ok), e.z(args[0].off) == 0, e.z(args[1].off) == 4 * ln, e.z(args[2].off) == 0, e.z(args[3].off) == 4 * rn), "both sides are merged whole", "call"); e.prove(s, e.z(length(s, args[4])) == 0, "into an empty list", "call")
        b = e.norm_ptr(s, e.get(s, args[4], 0, "ptr")); setarr(s, b, M); n = ln + rn; e.put(s, args[4], 8, "ptr", b + (ll + rl) * 4)
        s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), M[i] <= M[j]), patterns=[z3.MultiPattern(M[i], M[j])])); s.assume(z3.Implies(n > 0, z3.Or(z3.And(ln > 0, M[0] == la[0]), z3.And(rn > 0, M[0] == ra[0])))); s.assume(z3.And(z3.Implies(ln > 0, M[0] <= la[0]), z3.Implies(rn > 0, M[0] <= ra[0]))); return [(s, args[4])]
    def upper(e, s, args, I):
        f, l = (e.norm_ptr(s, x) for x in args[:2]); x = e.z(e.as_s(s, e.get(s, args[2], 0, "i32"), 32)); A = s.mem[f.r].fields[0][1]; c = e.fresh_int("upper", 64, 0, 1 << 33); cz = e.z(c); s.assume(CUT == cz); lo, hi = e.z(e.exact_div(f.off, 4)), e.z(e.exact_div(l.off, 4)); s.assume(z3.And(lo <= cz, cz <= hi)); s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < cz), A[i] <= x), patterns=[A[i]])); s.assume(z3.ForAll([i], z3.Implies(z3.And(cz <= i, i < hi), A[i] > x), patterns=[A[i]])); return [(s, Ptr(f.r, c * 4))]
    def grow(e, s, args, I):
        nm = I.x["callee"][1]; nm = e.dem.get(nm, nm); v = args[0]
        if "::reserve" in nm: return [(s, None)]
        b = e.norm_ptr(s, e.get(s, v, 0, "ptr")); n = length(s, v); A = s.mem[b.r].fields[0][1]
        if "::emplace_back" in nm or "::push_back" in nm: x = e.z(e.as_s(s, e.get(s, args[1], 0, "i32"), 32)); setarr(s, b, z3.Store(A, e.z(n), x)); e.put(s, v, 8, "ptr", b + (n + 1) * 4); return [(s, b + n * 4)]
        if "::erase" in nm and len(args) == 3:
            f, l = (e.norm_ptr(s, x) for x in args[1:3]); fz, lz = e.exact_div(f.off, 4), e.exact_div(l.off, 4); e.prove(s, z3.And(0 <= e.z(fz), e.z(fz) <= e.z(lz), e.z(lz) <= e.z(n)), "only elements of the list are removed", "call"); R = z3.Array(f"REST{len(A.sexpr())}", Z, Z); fz_, k_ = e.z(fz), e.z(lz) - e.z(fz)
            s.assume(z3.ForAll([i], z3.Implies(0 <= i, R[i] == z3.If(i < fz_, A[i], A[i + k_])), patterns=[R[i]])); setarr(s, b, R); e.put(s, v, 8, "ptr", b + (n - lz + fz) * 4); return [(s, f)]
        raise Unsupported("std::vector function " + nm[:60])
    for rx, nm, f in (("std::merge<", "std::merge", merge), ("std::upper_bound<", "std::upper_bound", upper), (VI, "std::vector", grow)): e.contract_rx.append((re.compile(rx), Contract(nm, f)))
    zero = z3.Or(z3.And(ln > 0, la[0] == 0), z3.And(rn > 0, ra[0] == 0)); k = z3.Int("k!c")
    for s, _ in e.check_outs(e.call_function(st, "vp_combine", [out, lv, rv])):
        b = e.norm_ptr(s, e.get(s, out, 0, "ptr")); n = e.z(length(s, out)); A = s.mem[b.r].fields[0][1]; t = s.copy(); t.assume(zero)
        if e.feasible(t): e.prove(t, z3.And(n == 1, A[0] == 0), "zero times anything is the single factor zero")
        s.assume(z3.Not(zero)); t = s.copy(); t.assume(ln + rn == 0)
        if e.feasible(t): e.prove(t, z3.And(n == 1, A[0] == 1), "no factors are the single factor one")
        s.assume(ln + rn > 0)
        if not e.feasible(s): continue
        t = s.copy(); t.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln + rn), M[i] == 1), patterns=[M[i]]))
        if e.feasible(t): e.prove(t, z3.And(n == 1, A[0] == 1), "ones are the single factor one")
        e.prove(s, n >= 1, "never empty"); t = s.copy(); t.assume(z3.And(M[ln + rn - 1] > 1, 0 <= k, k < n))
        if e.feasible(t): e.prove(t, z3.And(A[k] > 1, A[k] == M[ln + rn - n + k]), "exactly the factors other than one"); t.assume(ln + rn > n); e.prove(t, M[ln + rn - n - 1] == 1, "and all of them")
