"""C15: words of projectors in multi-party scenarios.  Assumed: std::stable_sort and std::unique (standard library) by contract."""
from words import *
TU = "locality"; FN = "Moment::Locality::LocalityContext::"; FP = "Moment::Locality::Party::"; Z = z3.IntSort(); TOP = 32766
u64 = lambda e, s, p, o: e.z(e.as_u(s, e.get(s, p, o, "i64"), 64)); s16 = lambda e, s, p, o: e.z(e.as_s(s, e.get(s, p, o, "i16"), 16))
def vec(e, st, p, off, d, nbytes):
    for k, v in enumerate((d, d + nbytes, d + nbytes)): e.put(st, p, off + 8 * k, "ptr", v)

@unit("C15", "mutual exclusion", tu=TU, fn=FP + "mutually_exclusive")
def _(e):
    """different operators of one measurement"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); p = e.obj(st, "party", e.const("vp_size_party")); g, n = e.arg("first", 16, 0, TOP), e.arg("count", 16, 0, TOP); a, b = e.arg("a", 16, 0, TOP), e.arg("b", 16, 0, TOP); gz, nz, az, bz = map(e.z, (g, n, a, b))
    d, m = e.array(st, "measurement_of", n, I16, (0, TOP)); vec(e, st, p, C("party_op2mmt"), d, n * 2); e.put(st, p, C("party_gop"), "i16", g); e.put(st, p, C("party_count"), "i16", n); st.assume(z3.And(gz <= az, az < gz + nz, gz <= bz, bz < gz + nz)); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_mutex", [p, a, b])): e.prove(s, e.b(v) == z3.And(az != bz, m[az - gz] == m[bz - gz]), "exclusive exactly if different outcomes of one measurement")

CMP = r"^bool __gnu_cxx::__ops::_Iter_comp_iter<.*>::operator\(\)<short\*, short\*>"; SORT = (r"std::stable_sort<", CMP, r"std::unique<", r"Party::mutually_exclusive")
@unit("C15", "simplification", tu=TU, noinline=SORT, fn=FN + "additional_simplification")
def _(e):
    """grouped by party in order, repeats merged; zero exactly if two outcomes of one measurement are then adjacent"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); w = e.obj(st, "word", e.const("vp_size_sv")); ctx = e.obj(st, "context", e.const("vp_size_ctx")); nl = e.arg("n", 64, 0, 1 << 40); n = e.z(nl); ol = e.arg("operators", 16, 0, TOP); on = e.z(ol); pl = e.arg("parties", 16, 0, TOP)
    d, a = e.array(st, "ops", nl, I16, (0, TOP)); e.put(st, w, C("sv_size"), "i64", nl); e.put(st, w, C("sv_data"), "ptr", d); e.put(st, w, C("sv_cap"), "i64", nl); sg = e.obj(st, "sign", 1); s0 = e.z(e.put(st, sg, 0, "i8", e.arg("sign", 8, 0, 3))); i, j = z3.Ints("si sj")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a[i] < on), patterns=[a[i]])); pd, P = e.array(st, "party_of", ol, I16, (0, TOP)); vec(e, st, ctx, C("ctx_op2party"), pd, ol * 2); e.put(st, ctx, C("ctx_count"), "i16", ol)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < on), P[i] < e.z(pl)), patterns=[P[i]])); psz = e.const("vp_size_party"); par = e.array_region(st, "parties_list", pl, psz, {}); pp = Ptr(par.id, Lin(0)); vec(e, st, ctx, C("ctx_parties"), pp, pl * psz)
    MM = z3.Function("MEASUREMENT", Z, Z); excl = lambda x, y: z3.And(P[x] == P[y], x != y, MM(x) == MM(y)); S = z3.Array("GROUPED", Z, Z); U = z3.Array("MERGED", Z, Z); c = z3.Int("merged"); RD = z3.Function("FROM", Z, Z); G = {}
    def sort(e, s, args, I):
        f, l = args[:2]; e.prove(s, z3.And(e.z(f.off) == 0, e.z(e.exact_div(l.off, 2)) == n), "the whole word is sorted", "call")
        nm = next((k for k in e.m.functions if not e.m.functions[k].is_decl and re.search(CMP, e.dem.get(k, k))), None)
        if nm is None: raise Unsupported("the order the word is sorted by is not a function")
        x, y = e.arg("x", 16, 0, TOP), e.arg("y", 16, 0, TOP); s1 = s.copy(); s1.assume(z3.And(e.z(x) < on, e.z(y) < on))
        xo, yo = e.obj(s1, "x", 2), e.obj(s1, "y", 2); e.put(s1, xo, 0, "i16", x); e.put(s1, yo, 0, "i16", y); cap = e.obj(s1, "captures", max(8, 8 * len(args[2:])))
        for k, v in enumerate(args[2:]): e.put(s1, cap, 8 * k, "ptr", v)
        al = [cap, xo, yo]
        for s2, v in e.check_outs(e.call_function(s1, nm, al)): e.prove(s2, e.b(v) == (P[e.z(x)] < P[e.z(y)]), "words are sorted by party")
        g = s.wr(f.r); g.fields[0] = (g.fields[0][0], S); e.arr_range[S.get_id()] = (S, 0, TOP); s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= S[i], S[i] < on)), patterns=[S[i]])); return [(s, None)]
    def uniq(e, s, args, I):
        f, l = args[:2]; e.prove(s, z3.And(e.z(f.off) == 0, e.z(e.exact_div(l.off, 2)) == n, z3.BoolVal(s.mem[f.r].fields[0][1].eq(S))), "repeats are merged in the whole sorted word", "call"); g = s.wr(f.r); g.fields[0] = (g.fields[0][0], U); e.arr_range[U.get_id()] = (U, 0, TOP)
        cl = e.fresh_int("merged", 64, 0, 1 << 40); s.assume(e.z(cl) == c); s.assume(z3.And(c <= n, (c == 0) == (n == 0), RD(0) == 0)); s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), z3.And(U[i] == S[RD(i)], 0 <= RD(i), RD(i) < n)), patterns=[U[i]])); G["u"] = True
        return [(s, f + cl * 2)]
    def mut(e, s, args, I):
        x, y = (e.z(e.as_s(s, v, 16)) for v in args[1:3]); p = e.norm_ptr(s, args[0]); e.prove(s, z3.And(z3.BoolVal(p.r == pp.r), e.z(p.off) == psz * P[x], P[x] == P[y]), "the party is that of both operators", "call"); return [(s, e.sb(z3.And(x != y, MM(x) == MM(y))))]
    for rx, nm, f in (("stable_sort<", "std::stable_sort", sort), ("std::unique<", "std::unique", uniq), ("mutually_exclusive", "mutually_exclusive", mut)): e.contract_rx.append((re.compile(rx), Contract(nm, f)))
    e.cover(st, "pre")
    def tpl(v):
        out = []; rs = [e.z(e.exact_div(x["term"].off, 2)) for x in v.vars if isinstance(x["ty"], PtrTy) and x["term"].r == d.r]
        for r in rs:
            for l in rs:
                if not r.eq(l): out += [("neighbours", r == l + 1)]
            out += [("at least the second", r >= 1), ("in the word", r <= c), ("no exclusive neighbours so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < r), z3.Not(excl(U[i], U[i + 1]))), patterns=[U[i]])), ("to the left", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.Not(excl(U[i], U[i + 1]))), patterns=[U[i]]))]
        return out
    e.loop_templates.append(tpl)
    for s, v in e.check_outs(e.call_function(st, "vp_simplify", [ctx, w, sg])):
        m = u64(e, s, w, C("sv_size")); e.prove(s, e.z(e.as_u(s, e.get(s, sg, 0, "i8"), 8)) == s0, "the sign stays", "frame"); b = e.arr_at(s, e.get(s, w, C("sv_data"), "ptr"))
        s0_ = s.copy(); s0_.assume(n == 0)
        if e.feasible(s0_): e.prove(s0_, z3.And(m == 0, z3.Not(e.b(v))), "the empty word stays")
        s.assume(n > 0)
        if not e.feasible(s): continue
        k = z3.Int("k!c"); z = s.copy(); z.assume(e.b(v))
        if e.feasible(z): e.prove(z, z3.And(m == 0, z3.Exists([i], z3.And(0 <= i, i + 1 < c, excl(U[i], U[i + 1])))), "a zero word is empty and had exclusive neighbours")
        s.assume(z3.Not(e.b(v)))
        if not e.feasible(s): continue
        e.prove(s, m == c, "the merged word is kept"); s.assume(z3.And(0 <= k, k < c)); e.prove(s, b[k] == U[k], "operator by operator"); e.prove(s, z3.Implies(k + 1 < c, z3.Not(excl(U[k], U[k + 1]))), "and has no exclusive neighbours")

def party(e, st, on, mn):
    """a party within the state: its measurements (each with a first operator and a number of outcomes) and its operator-to-measurement table"""
    C = lambda o: e.const("vp_off_" + o); p = e.obj(st, "party", e.const("vp_size_party")); msz = e.const("vp_size_mmt"); g = e.arg("first", 16, 0, 8191)
    d, m = e.array(st, "measurement_of", on, I16, (0, TOP)); vec(e, st, p, C("party_op2mmt"), d, on * 2); r = e.array_region(st, "measurements", mn, msz, {C("mmt_off"): (I16, None), C("mmt_outcomes"): (I16, None)}); [e.array_range(st, r.fields[C(k)][1], *x) for k, x in (("mmt_off", (0, 8191)), ("mmt_outcomes", (1, 8191)))]; q = Ptr(r.id, Lin(0)); vec(e, st, p, C("party_mmts"), q, mn * msz)
    o, O = e.array(st, "operators", on, I16, (0, TOP)); vec(e, st, p, C("party_inc"), o, on * 2); e.put(st, p, C("party_gop"), "i16", g); e.put(st, p, C("party_count"), "i16", on); ctx = e.obj(st, "context", e.const("vp_size_ctx")); e.put(st, p, C("party_ctx"), "ptr", ctx)
    return p, g, m, q, msz, {k: r.fields[C(k)][1] for k in ("mmt_off", "mmt_outcomes")}, O

@unit("C15", "outcome's operator", tu=TU, fn=FP + "measurement_outcome")
def _(e):
    """first operator of the party, plus that of the measurement, plus the outcome; throws exactly out of range"""
    st = e.state(); on, mn = e.arg("operators", 16, 0, TOP), e.arg("measurements", 16, 0, TOP); p, g, m, q, msz, F, O = party(e, st, on, mn); a, b = e.arg("m", 64, 0, 1 << 62), e.arg("o", 64, 0, 1 << 62); az, bz = e.z(a), e.z(b); e.cover(st, "pre"); good = z3.And(az < e.z(mn), bz < F["mmt_outcomes"][az] - 1)
    for s, v in e.check_outs(e.call_function(st, "vp_outcome", [p, a, b]), no_throw=False):
        if v == "throw": e.prove(s, z3.Not(good), "throws only out of range")
        else: e.prove(s, z3.And(good, e.z(e.as_s(s, v, 16)) == e.z(g) + F["mmt_off"][az] + bz), "offset by party and measurement")

@unit("C15", "operator's measurement", tu=TU, fn=FP + "measurement_of")
def _(e):
    """the recorded measurement; throws exactly for operators of no or other parties"""
    st = e.state(); on, mn = e.arg("operators", 16, 0, TOP), e.arg("measurements", 16, 0, TOP); p, g, m, q, msz, F, O = party(e, st, on, mn); a = e.arg("op", 16, -TOP, TOP); az = e.z(a); i = z3.Int("i"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e.z(on)), m[i] < e.z(mn)), patterns=[m[i]])); e.cover(st, "pre"); good = z3.And(az >= e.z(g), az - e.z(g) < e.z(on))
    for s, v in e.check_outs(e.call_function(st, "vp_mmtof", [p, a]), no_throw=False):
        if v == "throw": e.prove(s, z3.Not(good), "throws only for other parties' operators")
        else: v = e.norm_ptr(s, v); e.prove(s, z3.And(good, z3.BoolVal(v.r == q.r), e.z(v.off) == msz * m[az - e.z(g)]), "the recorded measurement")

@unit("C15", "party's operators", tu=TU, fn=FP + "operator[]")
def _(e):
    """the recorded operator; throws exactly out of range"""
    st = e.state(); on, mn = e.arg("operators", 16, 0, TOP), e.arg("measurements", 16, 0, TOP); p, g, m, q, msz, F, O = party(e, st, on, mn); a = e.arg("i", 64, 0, 1 << 62); az = e.z(a); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_op", [p, a]), no_throw=False):
        if v == "throw": e.prove(s, az >= e.z(on), "throws only out of range")
        else: e.prove(s, z3.And(az < e.z(on), e.z(e.as_s(s, v, 16)) == O[az]), "the recorded operator")

@unit("C15", "measurement's party", tu=TU, fn=FN + "global_index_to_PM")
def _(e):
    """a global measurement index splits into party and index within the party"""
    C = lambda o: e.const("vp_off_" + o); st = e.state(); ctx = e.obj(st, "context", e.const("vp_size_ctx")); out = e.obj(st, "pm", 24); psz = e.const("vp_size_party"); pl, ml = e.arg("parties", 16, 0, TOP), e.arg("measurements", 16, 0, TOP)
    r = e.array_region(st, "parties_list", pl, psz, {C("party_gmmt"): (I16, None)}); e.array_range(st, r.fields[C("party_gmmt")][1], 0, TOP); vec(e, st, ctx, C("ctx_parties"), Ptr(r.id, Lin(0)), pl * psz); F = r.fields[C("party_gmmt")][1]; d, m = e.array(st, "party_of", ml, I16, (0, TOP)); vec(e, st, ctx, C("ctx_mmt2party"), d, ml * 2)
    i = z3.Int("i"); st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e.z(ml)), z3.And(m[i] < e.z(pl), F[m[i]] <= i)), patterns=[m[i]])); g = e.arg("index", 64, 0, TOP); gz = e.z(g); st.assume(gz < e.z(ml)); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_pm", [out, ctx, g])): e.prove(s, u64(e, s, out, 0) == m[gz], "party"); e.prove(s, u64(e, s, out, 8) == gz - F[m[gz]], "index within the party"); e.prove(s, u64(e, s, out, 16) == gz, "global index")
