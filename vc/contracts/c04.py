"""C04: SmallVector against the sequence it stands for.
Representation invariant (class invariant, assumed before and proved after every operation):
  on the stack: heap null, data_start = the embedded array, capacity = N, size <= N
  on the heap:  heap = data_start = start of a live block of `capacity` elements, size <= capacity
Abstract value: data_start[0 .. size)."""
from unit import *
I16 = IntTy(16); TU = "smallvec"
FN = "Moment::SmallVector<oper_name_t, N>::"
MAXN = 1 << 40

def suggest_contract():
    def apply(e, st, args, I):
        n = e.z(e.as_u(st, args[0], 64)); e.prove(st, n <= 1 << 62, "required capacity fits", "pre")
        r = e.fresh_int("cap", 64, 1, 1 << 63); z = e.z(r)
        st.assume(z >= n); st.assume(z3.Or(z == 1, z < 2 * n)); return [(st, r)]
    return Contract("suggest_capacity", apply)

@unit("C04", "suggest_capacity", tu=TU, mode="bv", fn=FN + "suggest_capacity")
def _(e):
    st = e.state(); n = z3.BitVec("n", 64); st.assume(z3.ULE(n, z3.BitVecVal(1 << 62, 64))); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_suggest", [n])):
        e.prove(s, z3.And(z3.UGE(v, n), z3.UGE(v, 1), z3.ULE(v, z3.BitVecVal(1 << 63, 64)), z3.Or(v == 1, z3.ULT(z3.LShR(v, 1), n))), "smallest sufficient power of two")

class SV:
    """a SmallVector in the pre-state"""
    def __init__(self, e, st, name, where):
        self.e = e; self.N = e.const("vp_sv_N"); self.where = where; self.name = name
        self.p = e.obj(st, name, e.const("vp_size_sv"))
        so = e.const("vp_off_sv_stack")
        self.stack = e.array_region(st, name + "_stack", Lin(self.N), 2, {0: (I16, None)})
        r = st.wr(self.p.r); e.add_sub(st, r, so, self.stack)
        if e.mode == "int": e.array_range(st, self.stack.fields[0][1], 0, 65535)
        if where is None: return                                   # raw storage, to be constructed
        if where == "stack":
            self.n = e.arg(name + "_n", 64, 0, self.N); self.cap = Lin(self.N); self.data = Ptr(self.stack.id, Lin(0)); heap = NULL; self.a = self.stack.fields[0][1]
        else:
            self.n = e.arg(name + "_n", 64, 0, MAXN); self.cap = e.arg(name + "_cap", 64, 1, MAXN); st.assume(e.z(self.n) <= e.z(self.cap))
            self.data, self.a = e.array(st, name + "_heap", self.cap, I16); heap = self.data
        for o, ty, v in (("heap", "ptr", heap), ("size", "i64", self.n), ("cap", "i64", self.cap), ("data", "ptr", self.data)):
            e.put(st, self.p, e.const("vp_off_sv_" + o), ty, v)
        self.zn = e.z(self.n)

    def post(self, s, what="", owner_unique=None):
        """invariant of the object in state s; returns (array, size, on_heap)"""
        e = self.e; C = lambda o: e.const("vp_off_sv_" + o)
        heap = e.get(s, self.p, C("heap"), "ptr"); data = e.norm_ptr(s, e.get(s, self.p, C("data"), "ptr"))
        n = e.z(e.as_u(s, e.get(s, self.p, C("size"), "i64"), 64)); cap = e.z(e.as_u(s, e.get(s, self.p, C("cap"), "i64"), 64))
        e.prove(s, n <= cap, what + "size within capacity", "inv")
        if heap.r is None:
            e.prove(s, z3.BoolVal(data.r == self.stack.id) if data.r == self.stack.id else z3.BoolVal(False), what + "stack vector points to its own storage", "inv")
            e.prove(s, z3.And(e.z(data.off) == 0, cap == self.N), what + "stack capacity", "inv")
            on = False
            if data.r != self.stack.id: return None, n, on
        else:
            ok = data.r == heap.r and s.mem[heap.r].alive
            e.prove(s, z3.BoolVal(ok), what + "heap vector points to its live block", "inv")
            if not ok: return None, n, True
            e.prove(s, z3.And(e.z(data.off) == 0, e.z(heap.off) == 0, e.z(s.mem[heap.r].size) == 2 * cap), what + "block holds capacity elements", "inv")
            on = True
        r = s.mem[data.r]
        if r.kind != "array": r = e.to_array(s, r, 2)                # block written through constant positions only
        if 0 not in r.fields: e.new_field(s, r, 0, I16)
        a = r.fields[0][1]
        return a, n, on

def same_prefix(e, s, A, B, n, what, da=0, db=0):
    """A[da+i] == B[db+i] for 0 <= i < n"""
    i = z3.Int("i!c"); s2 = s.copy(); s2.assume(z3.And(0 <= i, i < n))
    e.prove(s2, A[i + da] == B[i + db], what)

def cases(*names):
    return names

def variants(name, fn, body, wheres, **kw):
    for w in wheres:
        def f(e, w=w):
            e.contract_rx.append((re.compile("suggest_capacity"), suggest_contract()))
            body(e, *(w if isinstance(w, tuple) else (w,)))
        unit("C04", f"{name} ({', '.join(map(str, w)) if isinstance(w, tuple) else w})", tu=TU, fn=FN + fn, noinline=("suggest_capacity",), **kw)(f)

def heap_ok(s, e):
    pass

# ---- construction
@unit("C04", "default construction", tu=TU, fn=FN + "SmallVector()")
def _(e):
    st = e.state(); o = SV(e, st, "o", None)
    for s, _ in e.check_outs(e.call_function(st, "vp_default", [o.p])):
        a, n, on = o.post(s); e.prove(s, n == 0, "empty")

def copy_like(fn, what):
    def body(e, w, target=None):
        st = e.state(); o = SV(e, st, "o", target); r = SV(e, st, "r", w); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, fn, [o.p, r.p])):
            a, n, on = o.post(s, "target: ")
            e.prove(s, n == r.zn, "same length")
            if a is not None: same_prefix(e, s, a, r.a, r.zn, "same elements")
            if fn in ("vp_copy", "vp_assign"):
                b, m, on2 = r.post(s, "source: "); e.prove(s, m == r.zn, "source length unchanged")
                if b is not None: same_prefix(e, s, b, r.a, r.zn, "source unchanged")
                hp = e.get(s, o.p, e.const("vp_off_sv_heap"), "ptr"); hr = e.get(s, r.p, e.const("vp_off_sv_heap"), "ptr")
                e.prove(s, z3.BoolVal(hp.r is None or hp.r != hr.r), "no shared storage")
            else:
                r.post(s, "moved-from: ")
                hp = e.get(s, o.p, e.const("vp_off_sv_heap"), "ptr"); hr = e.get(s, r.p, e.const("vp_off_sv_heap"), "ptr")
                e.prove(s, z3.BoolVal(hp.r is None or hp.r != hr.r), "no shared storage")
            if target == "heap":
                old = s.mem[o.data.r]
                hp = e.get(s, o.p, e.const("vp_off_sv_heap"), "ptr")
                e.prove(s, z3.BoolVal((not old.alive) or hp.r == o.data.r), "old block released")
    return body

W1 = ["stack", "heap"]; W2 = [(a, b) for a in W1 for b in W1]
variants("copy construction", "SmallVector(const SmallVector&)", copy_like("vp_copy", ""), W1)
variants("move construction", "SmallVector(SmallVector&&)", copy_like("vp_move", ""), W1)
variants("copy assignment: source, target", "operator=(const SmallVector&)", copy_like("vp_assign", ""), W2)
variants("move assignment: source, target", "operator=(SmallVector&&)", copy_like("vp_massign", ""), W2)

def repeat(e, _):
    st = e.state(); o = SV(e, st, "o", None); n = e.arg("n", 64, 0, MAXN); v = e.arg("v", 16); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_repeat", [o.p, n, v])):
        a, m, on = o.post(s); e.prove(s, m == e.z(n), "length")
        if a is not None:
            i = z3.Int("i!c"); s2 = s.copy(); s2.assume(z3.And(0 <= i, i < e.z(n))); e.prove(s2, a[i] == e.z(v), "every element is the value")
variants("construction from a repeated value", "SmallVector(size_t, value_t)", repeat, ["any length"])

def rng(e, _):
    st = e.state(); o = SV(e, st, "o", None); n = e.arg("n", 64, 0, MAXN); src, b = e.array(st, "src", n, I16); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_range", [o.p, src, src + n * 2])):
        a, m, on = o.post(s); e.prove(s, m == e.z(n), "length")
        if a is not None: same_prefix(e, s, a, b, e.z(n), "elements of the range, in order")
variants("construction from a range", "SmallVector(iterator, iterator)", rng, ["any length"])

# ---- modification
def push(fn):
    def body(e, w):
        st = e.state(); o = SV(e, st, "o", w); v = e.arg("v", 16); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, fn, [o.p, v])):
            a, n, on = o.post(s); e.prove(s, n == o.zn + 1, "one longer")
            if a is not None: same_prefix(e, s, a, o.a, o.zn, "earlier elements unchanged"); e.prove(s, a[o.zn] == e.z(v), "value appended")
    return body
variants("push_back", "push_back, reallocate", push("vp_push"), W1)
variants("emplace_back", "emplace_back, reallocate", push("vp_emplace"), W1)

def pop(e, w):
    st = e.state(); o = SV(e, st, "o", w); st.assume(o.zn > 0); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_pop", [o.p])):
        a, n, on = o.post(s); e.prove(s, n == o.zn - 1, "one shorter"); same_prefix(e, s, a, o.a, o.zn - 1, "other elements unchanged")
variants("pop_back", "pop_back", pop, W1)

def clear(e, w):
    st = e.state(); o = SV(e, st, "o", w)
    for s, _ in e.check_outs(e.call_function(st, "vp_clear", [o.p])):
        a, n, on = o.post(s); e.prove(s, n == 0, "empty")
variants("clear", "clear", clear, W1)

def reserve(e, w):
    st = e.state(); o = SV(e, st, "o", w); k = e.arg("k", 64, 0, MAXN); e.cover(st, "pre")
    for s, _ in e.check_outs(e.call_function(st, "vp_reserve", [o.p, k])):
        a, n, on = o.post(s); e.prove(s, n == o.zn, "same length"); same_prefix(e, s, a, o.a, o.zn, "same elements")
        e.prove(s, e.z(e.as_u(s, e.get(s, o.p, e.const("vp_off_sv_cap"), "i64"), 64)) >= e.z(k), "capacity reserved")
variants("reserve", "reserve, reallocate", reserve, W1)

def insert(e, w):
    st = e.state(); o = SV(e, st, "o", w); m = e.arg("m", 64, 0, MAXN); src, b = e.array(st, "src", m, I16)
    at = e.arg("at", 64, 0, MAXN); st.assume(e.z(at) <= o.zn); e.cover(st, "pre"); za = e.z(at); zm = e.z(m)
    for s, _ in e.check_outs(e.call_function(st, "vp_insert", [o.p, o.data + at * 2, src, src + m * 2])):
        a, n, on = o.post(s); e.prove(s, n == o.zn + zm, "longer by the insertion")
        if a is None: continue
        same_prefix(e, s, a, o.a, za, "elements before unchanged"); same_prefix(e, s, a, b, zm, "inserted elements", da=za)
        same_prefix(e, s, a, o.a, o.zn - za, "elements after moved up", da=za + zm, db=za)
variants("insert", "insert", insert, W1, budget=400)

def erase(e, w):
    st = e.state(); o = SV(e, st, "o", w); f = e.arg("from", 64, 0, MAXN); t = e.arg("to", 64, 0, MAXN); zf, zt = e.z(f), e.z(t); st.assume(z3.And(zf <= zt, zt <= o.zn)); e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, "vp_erase", [o.p, o.data + f * 2, o.data + t * 2])):
        a, n, on = o.post(s); e.prove(s, n == o.zn - (zt - zf), "shorter by the range")
        v = e.norm_ptr(s, v); e.prove(s, z3.And(z3.BoolVal(v.r == o.data.r), e.z(v.off) == 2 * zf), "returns the position of the cut")
        same_prefix(e, s, a, o.a, zf, "elements before unchanged"); same_prefix(e, s, a, o.a, o.zn - zt, "elements after moved down", da=zf, db=zt)
variants("erase", "erase", erase, W1)

def swap(fn):
    def body(e, wa, wb):
        st = e.state(); x = SV(e, st, "a", wa); y = SV(e, st, "b", wb); e.cover(st, "pre")
        for s, _ in e.check_outs(e.call_function(st, fn, [x.p, y.p])):
            a, n, on = x.post(s, "left: "); b, m, on2 = y.post(s, "right: ")
            e.prove(s, z3.And(n == y.zn, m == x.zn), "lengths exchanged")
            if a is not None: same_prefix(e, s, a, y.a, y.zn, "left has the right's elements")
            if b is not None: same_prefix(e, s, b, x.a, x.zn, "right has the left's elements")
    return body
variants("swap", "swap", swap("vp_swap"), W2)

# ---- observation
def frame(e, s, o):
    a, n, on = o.post(s); e.prove(s, n == o.zn, "length unchanged", "frame")
    if a is not None: same_prefix(e, s, a, o.a, o.zn, "elements unchanged")

def equality(fn, pos):
    def body(e, wa, wb):
        st = e.state(); x = SV(e, st, "a", wa); y = SV(e, st, "b", wb); e.cover(st, "pre"); i = z3.Int("qi")
        same = z3.And(x.zn == y.zn, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.zn), x.a[i] == y.a[i])))
        for s, v in e.check_outs(e.call_function(st, fn, [x.p, y.p])):
            v = e.b(v); v = v if pos else z3.Not(v)
            e.prove(s, z3.Implies(v, same), "reported equal are equal"); e.prove(s, z3.Implies(same, v), "equal are reported equal")
    return body
variants("operator==", "operator==", equality("vp_eq", True), W2); variants("operator!=", "operator!=", equality("vp_ne", False), W2)

def observe(e, w):
    st = e.state(); o = SV(e, st, "o", w); e.cover(st, "pre")
    val = lambda s, v: e.z(e.as_u(s, v, 64))
    for s, v in e.check_outs(e.call_function(st.copy(), "vp_size", [o.p])): e.prove(s, val(s, v) == o.zn, "size"); frame(e, s, o)
    for s, v in e.check_outs(e.call_function(st.copy(), "vp_empty", [o.p])): e.prove(s, e.b(v) == (o.zn == 0), "empty")
    for s, v in e.check_outs(e.call_function(st.copy(), "vp_capacity", [o.p])): e.prove(s, val(s, v) == e.z(o.cap), "capacity")
    for s, v in e.check_outs(e.call_function(st.copy(), "vp_on_heap", [o.p])): e.prove(s, e.b(v) == z3.BoolVal(w == "heap"), "on_heap")
    for fn, off in (("vp_begin", 0), ("vp_end", 2 * o.zn), ("vp_cbegin", 0), ("vp_cend", 2 * o.zn)):
        for s, v in e.check_outs(e.call_function(st.copy(), fn, [o.p])):
            v = e.norm_ptr(s, v); e.prove(s, z3.And(z3.BoolVal(v.r == o.data.r), e.z(v.off) == off), fn[3:])
    i = e.arg("i", 64, 0, MAXN); s1 = st.copy(); s1.assume(e.z(i) < o.zn)
    for fn, args, ix in (("vp_at", [o.p, i], e.z(i)), ("vp_front", [o.p], 0), ("vp_back", [o.p], o.zn - 1)):
        for s, v in e.check_outs(e.call_function(s1.copy(), fn, args)): e.prove(s, e.z(e.as_u(s, v, 16)) == o.a[ix], fn[3:] + " reads the element")
variants("size, empty, begin, end, [], front, back", "size, empty, capacity, on_heap, begin, end, cbegin, cend, operator[], front, back", observe, W1)

def destroy(e, w):
    st = e.state(); o = SV(e, st, "o", w)
    for s, _ in e.check_outs(e.call_function(st, "vp_destroy", [o.p])):
        if w == "heap": e.prove(s, z3.BoolVal(not s.mem[o.data.r].alive), "block released exactly once")
        else: e.prove(s, z3.BoolVal(True), "nothing to release")
variants("destruction", "~SmallVector", destroy, W1)
