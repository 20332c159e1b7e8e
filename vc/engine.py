"""Verification-condition generator: symbolic execution of LLVM IR, path by path, with loop invariants and contracts.

Every obligation is (path condition /\\ not goal) and is discharged by z3 or, failing that, cvc5.
Integer mode: machine integers are modelled exactly as two's complement.  A value of width w is a mathematical linear form
standing for its residue modulo 2^w; it is normalised (with a solver check, or an explicit 'mod') whenever the signed or
unsigned reading matters.  BV mode: machine integers are bit-vectors.  Doubles are mathematical reals (stated assumption).
"""
import itertools, os, re, shutil, subprocess, sys, tempfile, time
import z3
import ir
from ir import IntTy, PtrTy, FloatTy, ArrTy, StructTy, NamedTy, VecTy, VoidTy, MiscTy, BINOPS, CASTS

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


_fresh = itertools.count()


# ----------------------------------------------------------------------------------------------- linear forms

class Lin:
    """const + sum coeff*atom ; atoms are z3 Int (int mode) or BitVec64 (bv mode, pointer offsets only)"""
    __slots__ = ("c", "t", "_z")

    def __init__(self, c=0, t=None):
        self.c = c; self.t = t or {}; self._z = None

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t) if o.c else self
        t = dict(self.t)
        for k, (a, n) in o.t.items():
            if k in t:
                m = t[k][1] + n
                if m: t[k] = (a, m)
                else: del t[k]
            else: t[k] = (a, n)
        return Lin(self.c + o.c, t)
    __radd__ = __add__

    def __neg__(self): return self * -1

    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return (-self) + o

    def __mul__(self, n):
        assert isinstance(n, int)
        if n == 1: return self
        if n == 0: return Lin(0)
        return Lin(self.c * n, {k: (a, m * n) for k, (a, m) in self.t.items()})
    __rmul__ = __mul__

    def is_const(self): return not self.t

    def key(self): return (self.c, tuple(sorted((k, m) for k, (a, m) in self.t.items())))

    def same(self, o): return self.c == o.c and {k: m for k, (a, m) in self.t.items()} == {k: m for k, (a, m) in o.t.items()}

    def __repr__(self):
        return " + ".join([str(self.c)] + [f"{m}*{a}" for a, m in self.t.values()])


def atom(a, n=1):
    return Lin(0, {a.get_id(): (a, n)})


class Ptr:
    __slots__ = ("r", "off")
    def __init__(self, r, off): self.r = r; self.off = off
    def __repr__(self): return f"&R{self.r}[{self.off}]"
    def __add__(self, n): return Ptr(self.r, self.off + n)


NULL = Ptr(None, Lin(0))


class NPtr(Ptr):
    """pointer into region r, or null"""
    __slots__ = ("null",)
    def __init__(self, r, off, null): self.r = r; self.off = off; self.null = null
    def __repr__(self): return f"&?R{self.r}[{self.off}]"
    def __add__(self, n): return NPtr(self.r, self.off + n, self.null)


class FnPtr:
    def __init__(self, name): self.name = name


class PtrI:
    """integer obtained from a pointer"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p


class Region:
    __slots__ = ("id", "name", "size", "cells", "stride", "fields", "subs", "alive", "const", "kind", "ghost")

    def __init__(self, id, name, size, kind="struct"):
        self.id = id; self.name = name; self.size = size; self.cells = {}; self.stride = None; self.fields = {}
        self.subs = []; self.alive = True; self.const = False; self.kind = kind; self.ghost = None

    def copy(self):
        r = Region.__new__(Region)
        r.id = self.id; r.name = self.name; r.size = self.size; r.cells = dict(self.cells); r.stride = self.stride
        r.fields = dict(self.fields); r.subs = self.subs; r.alive = self.alive; r.const = self.const; r.kind = self.kind
        r.ghost = self.ghost
        return r


class Frame:
    __slots__ = ("fn", "env", "blk", "prev", "idx", "res", "invoke_to", "unwind")
    def __init__(self, fn): self.fn = fn; self.env = {}; self.blk = None; self.prev = None; self.idx = 0; self.res = None
    def copy(self):
        f = Frame.__new__(Frame); f.fn = self.fn; f.env = dict(self.env); f.blk = self.blk; f.prev = self.prev; f.idx = self.idx
        f.res = self.res
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "loops", "log", "ghost", "trace", "visits")

    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.loops = []; self.log = []; self.ghost = {}; self.trace = []; self.visits = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.loops = list(self.loops)
        s.log = list(self.log); s.ghost = dict(self.ghost); s.trace = list(self.trace); s.visits = dict(self.visits)
        return s

    def wr(self, rid):
        """region for writing (copy on write)"""
        r = self.mem[rid].copy(); self.mem[rid] = r
        return r

    def assume(self, b):
        if b is True: return
        if b is False: b = z3.BoolVal(False)
        if z3.is_true(b): return
        self.pc.append(b)


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0] is e: return cache[k][1]
    seen = set(); st = [e]; r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True; break
        st.extend(x.children())
    if len(cache) > 200000: cache.clear()
    cache[k] = (e, r)
    return r


def free_consts(e):
    """uninterpreted constants of a z3 expression, as dict id->expr"""
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        st.extend(x.children())
    return out


_subcache = {}


def subterms(e):
    """integer subterms of e outside quantifiers (cached)"""
    k = e.get_id()
    c = _subcache.get(k)
    if c is not None and c[0] is e: return c[1]
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_int(x): out.append(x)
        st.extend(x.children())
    if len(_subcache) > 50000: _subcache.clear()
    _subcache[k] = (e, out)
    return out


class Obl:
    __slots__ = ("name", "status", "backend", "t", "detail", "kind")
    def __init__(self, name, status, backend, t, detail="", kind="post"):
        self.name = name; self.status = status; self.backend = backend; self.t = t; self.detail = detail; self.kind = kind


class LoopView:
    """what a loop-invariant template of a contract sees: k, vars, arrays, st (header state), entry (state), facts (to assume)"""
    pass


class Contract:
    """callee contract: apply(eng, state, args, instr) -> list of (state, retval) or raises"""
    def __init__(self, name, apply): self.name = name; self.apply = apply


MASK = (1 << 64) - 1


class Engine:
    def __init__(self, module, mode="int", timeout=10000, name="", verbose=False):
        self.m = module; self.mode = mode; self.timeout = timeout; self.name = name; self.verbose = verbose
        self.ranges = {}; self.boolof = {}
        self.solver = z3.Solver(); self.solver.set("timeout", 2000); self.sstack = []
        self.contracts = {}          # function name -> Contract
        self.auto = True             # also try automatic invariants (history of branch conditions, closed forms of arrays)
        self.contract_rx = []        # (regex on demangled, Contract)
        self.obls = []; self.assumptions = set(); self.called = {}; self.contracts_used = set()
        self.loop_templates = []
        self.nq = 0; self.tq = 0.0
        self.dry = 0; self.max_steps = 400000; self.steps = 0; self.deadline = None
        self.rid = itertools.count(1)
        self.globreg = {}
        self.loopinfo = {}
        self.unroll = None; self.unroll_strict = False
        self.rem_cases = []          # bit-vector mode: (value, modulus, its remainder in the case considered)
        self.loop_report = []
        self.keep = []
        self.fail_fast = False
        self.dem = {}
        self.ignore_rx = re.compile(r"std::(basic_)?(ostream|stringstream|ostringstream|string|basic_string)|operator<<|__gnu_cxx::__verbose")
        self.arr_range = {}; self.pstack = []; self.havoc_only = 0; self.debug = False; self.inv_timeout = 1500; self.inv_second = False
        self.qcache = {}

    # ------------------------------------------------------------------------------------------- terms
    def fresh_int(self, name, w, lo=None, hi=None):
        n = f"{name}!{next(_fresh)}"
        if self.mode == "bv":
            return z3.BitVec(n, w)
        x = z3.Int(n)
        lo = 0 if lo is None else lo
        hi = (1 << w) - 1 if hi is None else hi
        self.ranges[x.get_id()] = (x, lo, hi)
        return atom(x)

    def rng_axiom(self, lin_or_term):
        pass

    def range_facts(self, e):
        """range axioms of the atoms occurring in e"""
        out = []
        for x in subterms(e):
            r = self.ranges.get(x.get_id())
            if r is not None:
                _, lo, hi = r
                if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MOD,) : continue
                if lo is not None: out.append(x >= lo)
                if hi is not None: out.append(x <= hi)
        return out

    def z(self, v, w=64):
        """z3 term (Int in int mode / BitVec in bv mode) of a value, un-normalised"""
        if isinstance(v, Lin):
            if v._z is None:
                if self.mode == "bv":
                    r = z3.BitVecVal(v.c, w)
                    for a, n in v.t.values():
                        r = r + (a if n == 1 else a * z3.BitVecVal(n, w))
                    v._z = z3.simplify(r) if v.t else r
                else:
                    parts = [a if n == 1 else n * a for a, n in v.t.values()]
                    if v.c or not parts: parts.append(z3.IntVal(v.c))
                    v._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
            return v._z
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v) if self.mode == "int" else z3.BitVecVal(v, w)
        return v

    def lin(self, t):
        """z3 Int term -> Lin"""
        if isinstance(t, Lin): return t
        if isinstance(t, int): return Lin(t)
        if z3.is_int_value(t): return Lin(t.as_long())
        if z3.is_bv_value(t): return Lin(t.as_long())
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = Lin(0)
                for c in t.children(): r = r + self.lin(c)
                return r
            if k == z3.Z3_OP_SUB:
                r = self.lin(t.children()[0])
                for c in t.children()[1:]: r = r - self.lin(c)
                return r
            if k == z3.Z3_OP_UMINUS: return -self.lin(t.children()[0])
            if k == z3.Z3_OP_MUL and len(t.children()) == 2:
                a, b = t.children()
                if z3.is_int_value(a): return self.lin(b) * a.as_long()
                if z3.is_int_value(b): return self.lin(a) * b.as_long()
        self.keep.append(t)
        return atom(t)

    def interval(self, l):
        lo = hi = l.c
        for a, n in l.t.values():
            r = self.ranges.get(a.get_id())
            if r is None: return (None, None)
            _, x, y = r
            if x is None or y is None: return (None, None)
            if n > 0: lo += n * x; hi += n * y
            else: lo += n * y; hi += n * x
        return (lo, hi)

    def set_range(self, t, lo, hi):
        self.keep.append(t)
        self.ranges[t.get_id()] = (t, lo, hi)

    # ------------------------------------------------------------------------------------------- solver
    def sync(self, st):
        pcs = []
        for e in st.pc:
            if not has_quant(e): pcs.append(e)
        n = 0
        while n < len(self.sstack) and n < len(pcs) and self.sstack[n] is pcs[n]: n += 1
        while len(self.sstack) > n:
            self.solver.pop(); self.sstack.pop()
        for e in pcs[n:]:
            self.solver.push(); self.solver.add(e)
            for f in self.range_facts(e): self.solver.add(f)
            self.sstack.append(e)

    def sat(self, st, extra=None):
        """'sat'|'unsat'|'unknown' of the quantifier-free part of the path condition and extra"""
        self.sync(st)
        self.nq += 1; t0 = time.time()
        if extra is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(extra)
            for f in self.range_facts(extra): self.solver.add(f)
            r = self.solver.check()
            self.solver.pop()
        self.tq += time.time() - t0
        if self.deadline and time.time() > self.deadline: raise Budget("time")
        return str(r)

    def entails(self, st, cond):
        if isinstance(cond, bool): return cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return self.sat(st) == "unsat"
        return self.sat(st, z3.Not(cond)) == "unsat"

    def feasible(self, st, cond=None):
        return self.sat(st, cond) != "unsat"

    def prove(self, st, goal, name, kind="post", timeout=None, record=True):
        """discharge one obligation; records it"""
        if self.dry and record: return True
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        timeout = timeout or self.timeout
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            status, be, det = "proved", "simplifier", ""
        else:
            status, be, det = self.check_valid(st.pc, goal, timeout)
        o = Obl(name, status, be, time.time() - t0, det, kind)
        if record:
            self.obls.append(o)
            if status != "proved":
                o.detail = det + "\nfunction trace: " + " > ".join(f.fn.name for f in st.frames) + "\n"
                if self.verbose: print("  OBL", status, name, det[:1500])
        return status == "proved"

    def skolem(self, pc, goal):
        """hypotheses and goal with the outer universal quantifiers and implications of the goal moved to the hypotheses"""
        pc = list(pc)
        for _ in range(20):
            if z3.is_quantifier(goal) and goal.is_forall():
                vs = [z3.Const(f"{goal.var_name(i)}!sk{next(_fresh)}", goal.var_sort(i)) for i in range(goal.num_vars())]
                goal = z3.substitute_vars(goal.body(), *reversed(vs))
            elif z3.is_implies(goal): pc.append(goal.arg(0)); goal = goal.arg(1)
            elif z3.is_or(goal) and any(has_quant(c) and z3.is_quantifier(c) for c in goal.children()) and goal.num_args() > 1:
                q = next(c for c in goal.children() if z3.is_quantifier(c)); pc += [z3.Not(c) for c in goal.children() if not c.eq(q)]; goal = q
            else: break
        return pc, goal

    def check_valid(self, pc, goal, timeout, second=True):
        if self.mode == "bv" and (has_quant(goal) or any(has_quant(c) for c in pc)):
            self.nq += 1; t0 = time.time()
            ok = self.ground_instances(pc, goal, timeout)
            self.tq += time.time() - t0
            if ok: return "proved", "z3 (instances)", ""
        pc, goal = self.skolem(pc, goal)
        cons = list(pc) + [z3.Not(goal)]
        facts = []
        for e in cons: facts.extend(self.range_facts(e))
        quant = any(has_quant(e) for e in cons)
        s = z3.Solver(); s.set("timeout", int(timeout))
        # drop duplicates of facts
        seen = set(); uf = []
        for f in facts:
            if f.get_id() not in seen: seen.add(f.get_id()); uf.append(f)
        for e in cons: s.add(e)
        for f in uf: s.add(f)
        self.nq += 1; t0 = time.time()
        if quant:
            # instances by triggers only: fast when it suffices
            s1 = z3.SimpleSolver(); s1.set("timeout", min(int(timeout), 1000)); s1.set("mbqi", False)
            for e in cons + uf: s1.add(e)
            if s1.check() == z3.unsat:
                self.tq += time.time() - t0; return "proved", "z3", ""
            if os.environ.get("VP_DUMP"): open(f"/tmp/q{self.nq}.smt2", "w").write(s1.to_smt2())
        r = s.check()
        self.tq += time.time() - t0
        if self.deadline and time.time() > self.deadline: raise Budget("time")
        if r == z3.unsat: return "proved", "z3", ""
        if r == z3.sat:
            m = s.model()
            txt = str(m)
            if not quant:
                return "failed", "z3", "counterexample: " + txt[:4000]
            det = "counterexample (with quantifiers): " + txt[:4000]
            return "failed", "z3", det
        why = s.reason_unknown()
        if not second: return "unknown", "z3", why
        # further back ends, side by side
        st2 = self.portfolio(s, timeout)
        if st2[0] == "unsat": return "proved", st2[1], ""
        if st2[0] == "sat": return "failed", st2[1], "cvc5: counterexample exists"
        return "unknown", "z3+cvc5", f"z3: unknown ({why}); others: {st2}"

    def portfolio(self, s, timeout):
        """the same query to cvc5 and to z3 in separate processes (other seeds and strategies); the first proof counts"""
        try: txt = s.to_smt2()
        except Exception: return "error", ""
        T = max(2, int(timeout / 1000)); procs = []; names = []
        def file(t):
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(t)
            names.append(f.name); return f.name
        try:
            fz = file(txt); fc = file("(set-logic ALL)\n" + txt)
            cmds = [("cvc5", ["cvc5", "--tlimit=%d" % int(timeout), fc])]
            if shutil.which("z3-new"):
                cmds += [("z3", ["z3-new", f"-T:{T}", *o, fz]) for o in (["smt.mbqi=false"], ["smt.mbqi=false", "smt.array.extensional=false"], ["smt.random_seed=7"])]
            procs = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cmds]
            end = time.time() + T + 3; res = ("unknown", "")
            live = list(procs)
            while live and time.time() < end:
                for q in list(live):
                    if q[1].poll() is None: continue
                    live.remove(q); out = [l for l in q[1].stdout.read().split("\n") if l in ("sat", "unsat", "unknown")]
                    if out and out[-1] == "unsat": return "unsat", q[0]
                    if out and out[-1] == "sat" and q[0] == "cvc5": return "sat", "cvc5"
                time.sleep(0.02)
            return res
        finally:
            for _, q in procs:
                if q.poll() is None: q.kill()
                q.communicate()
            for n in names: os.unlink(n)

    def ground_instances(self, pc, goal, timeout):
        """prove the goal from instances of the quantified hypotheses at the array indices that occur: quantifier-free"""
        def skolem(g):
            if z3.is_and(g): return z3.And([skolem(x) for x in g.children()])
            if z3.is_implies(g) and not has_quant(g.children()[0]): return z3.Implies(g.children()[0], skolem(g.children()[1]))
            if z3.is_quantifier(g) and g.is_forall():
                cs = [z3.FreshConst(g.var_sort(i), "sk") for i in range(g.num_vars())]
                return skolem(z3.substitute_vars(g.body(), *reversed(cs)))
            return g
        g = skolem(goal)
        if has_quant(g): return False
        gr = [z3.Not(g)]; qs = []
        for c in pc:
            if not has_quant(c): gr.append(c)
            elif z3.is_quantifier(c) and c.is_forall() and c.num_vars() == 1 and not has_quant(c.body()): qs.append(c)
        done = set(); terms = {}
        new = list(gr)
        for rnd in range(2):
            for c in new:
                stack = [c]; seen = set()
                while stack:
                    x = stack.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if z3.is_select(x) or z3.is_store(x):
                        i = z3.simplify(x.children()[1]); terms.setdefault(i.sexpr(), i)
                    stack.extend(x.children())
            new = []
            if len(terms) > 40: break
            for q in qs:
                for k, t in list(terms.items()):
                    if (q.get_id(), k) in done or t.sort() != q.var_sort(0): continue
                    done.add((q.get_id(), k))
                    new.append(z3.simplify(z3.substitute_vars(q.body(), t)))
            gr += new
        s = z3.SolverFor("QF_ABV") if False else z3.Solver(); s.set("timeout", int(timeout))
        for c in gr: s.add(c)
        for f in {f.get_id(): f for c in gr for f in self.range_facts(c)}.values(): s.add(f)
        return s.check() == z3.unsat

    # ------------------------------------------------------------------------------------------- integer normalisation
    def as_u(self, st, v, w):
        """Lin in [0,2^w)"""
        if isinstance(v, PtrI): raise Unsupported("arithmetic on address")
        M = 1 << w
        if v.is_const(): return Lin(v.c % M)
        lo, hi = self.interval(v)
        if lo is not None and lo >= 0 and hi < M: return v
        ck = ("u", v.key(), w)
        zt = self.z(v)
        if self.entails(st, zt >= 0):
            if self.entails(st, zt < M): return v
            if self.entails(st, zt < 2 * M) and self.entails(st, zt >= M): return v - M
        elif self.entails(st, z3.And(zt < 0, zt >= -M)): return v + M
        return self.modc(v, M)

    def as_s(self, st, v, w):
        """Lin in [-2^(w-1), 2^(w-1))"""
        if isinstance(v, PtrI): raise Unsupported("arithmetic on address")
        M = 1 << w; H = M >> 1
        if v.is_const():
            c = v.c % M
            return Lin(c - M if c >= H else c)
        lo, hi = self.interval(v)
        if lo is not None and lo >= -H and hi < H: return v
        zt = self.z(v)
        if self.entails(st, z3.And(zt >= -H, zt < H)): return v
        if self.entails(st, z3.And(zt >= H, zt < M + H)): return v - M
        if self.entails(st, z3.And(zt < -H, zt >= -M - H)): return v + M
        return self.modc(v + H, M) - H

    def split(self, v, c):
        """v = c*q + r with coefficients of r in [0,c)"""
        q = Lin(v.c // c); r = Lin(v.c % c); qt = {}; rt = {}
        for k, (a, n) in v.t.items():
            d, e = divmod(n, c)
            if d: qt[k] = (a, d)
            if e: rt[k] = (a, e)
        return Lin(v.c // c, qt), Lin(v.c % c, rt)

    def modc(self, v, c):
        q, r = self.split(v, c)
        if r.is_const(): return r
        lo, hi = self.interval(r)
        if lo is not None and lo >= 0 and hi < c: return r
        t = self.z(r) % c
        self.set_range(t, 0, c - 1)
        return atom(t)

    def divc(self, v, c):
        """floor division by positive constant"""
        q, r = self.split(v, c)
        if r.is_const(): return q
        lo, hi = self.interval(r)
        if lo is not None and lo >= 0 and hi < c: return q
        t = self.z(r) / c
        if lo is not None: self.set_range(t, lo // c, hi // c)
        else: self.keep.append(t)
        return q + atom(t)

    # ------------------------------------------------------------------------------------------- values
    def fresh(self, ty, name):
        ty = self.m.resolve(ty)
        if isinstance(ty, IntTy):
            if ty.w == 1: return z3.Bool(f"{name}!{next(_fresh)}")
            return self.fresh_int(name, ty.w)
        if isinstance(ty, FloatTy): return z3.Real(f"{name}!{next(_fresh)}")
        if isinstance(ty, PtrTy): return ("undefptr",)
        if isinstance(ty, StructTy): return [self.fresh(e, name) for e in ty.els]
        if isinstance(ty, (ArrTy, VecTy)): return [self.fresh(ty.el, name) for _ in range(ty.n)]
        raise Unsupported(f"fresh {ty}")

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if isinstance(ty, IntTy):
            if ty.w == 1: return False
            return Lin(0) if self.mode == "int" else z3.BitVecVal(0, ty.w)
        if isinstance(ty, FloatTy): return z3.RealVal(0)
        if isinstance(ty, PtrTy): return NULL
        if isinstance(ty, StructTy): return [self.zero(e) for e in ty.els]
        if isinstance(ty, (ArrTy, VecTy)): return [self.zero(ty.el) for _ in range(ty.n)]
        raise Unsupported(f"zero {ty}")

    def iconst(self, c, w):
        if w == 1: return bool(c & 1)
        if self.mode == "int":
            return Lin(c)
        return z3.BitVecVal(c, w)

    def val(self, st, ty, v):
        k = v[0]
        if k == "reg":
            try: return st.frames[-1].env[v[1]]
            except KeyError: raise Unsupported(f"register %{v[1]} undefined")
        if k == "int": return self.iconst(v[1], self.m.resolve(ty).w)
        if k == "fp": return z3.Q(*v[1].as_integer_ratio()) if v[1] == v[1] and abs(v[1]) != float("inf") else z3.Real("fp_special_%s" % v[1])
        if k == "null": return NULL
        if k == "undef": return self.fresh(ty, "undef")
        if k == "zero": return self.zero(ty)
        if k == "glob":
            return self.global_ptr(st, v[1])
        if k == "agg": return [self.val(st, t, x) for t, x in v[1]]
        if k == "gep":
            base = self.val(st, v[2][0], v[2][1])
            idx = [(t, self.val(st, t, x)) for t, x in v[3]]
            return self.gep(st, v[1], base, idx)
        if k == "cast": 
            return self.cast(st, v[1], self.val(st, *v[2]), v[2][0], v[3])
        if k == "bin":
            a = self.val(st, *v[2]); b = self.val(st, *v[3])
            return self.binop(st, v[1], v[2][0], a, b, set())
        raise Unsupported(f"value {v}")

    def global_ptr(self, st, nm):
        while nm in self.m.aliases: nm = self.m.aliases[nm]
        if nm in self.m.functions: return FnPtr(nm)
        if nm not in self.globreg:
            self.globreg[nm] = next(self.rid)
        rid = self.globreg[nm]
        if rid not in st.mem:
            ty, init, const = self.m.globals.get(nm, (None, None, False))
            r = Region(rid, "@" + nm, Lin(self.m.size(ty)) if ty is not None and not isinstance(ty, MiscTy) else None)
            r.const = const
            if init is not None and const:
                self.init_global(st, r, ty, init)
            st.mem[rid] = r
        return Ptr(rid, Lin(0))

    def init_global(self, st, r, ty, init):
        ty = self.m.resolve(ty)
        if isinstance(ty, ArrTy):
            el = self.m.resolve(ty.el)
            if isinstance(el, (IntTy, FloatTy)):
                sz = self.m.size(el); arr = None
                if init[0] == "str": vals = list(init[1])
                elif init[0] == "zero": vals = [0] * ty.n
                elif init[0] == "agg": vals = [x[1][1] if x[1][0] in ("int", "fp") else 0 for x in init[1]]
                else: return
                r.kind = "array"; r.stride = sz
                a = self.new_array("g", el)
                for i, x in enumerate(vals):
                    a = z3.Store(a, self.idx_const(i), self.elem_const(x, el))
                r.fields[0] = (el, a)
                return
        try:
            self.flatten_init(st, r, 0, ty, init)
        except Unsupported:
            pass

    def flatten_init(self, st, r, off, ty, init):
        ty = self.m.resolve(ty)
        if isinstance(ty, StructTy):
            offs, _ = self.m.layout(ty)
            for i, e in enumerate(ty.els):
                self.flatten_init(st, r, off + offs[i], e, init[1][i][1] if init[0] == "agg" else ("zero",))
        elif isinstance(ty, ArrTy):
            sz = self.m.size(ty.el)
            for i in range(ty.n):
                if init[0] == "agg": x = init[1][i][1]
                elif init[0] == "str": x = ("int", init[1][i])
                else: x = ("zero",)
                self.flatten_init(st, r, off + i * sz, ty.el, x)
        else:
            r.cells[off] = (ty, self.val(st, ty, init) if init[0] != "zero" else self.zero(ty))

    def idx_const(self, i): return z3.IntVal(i) if self.mode == "int" else z3.BitVecVal(i, 64)

    def elem_const(self, x, el):
        if isinstance(el, FloatTy): return z3.RealVal(x)
        if self.mode == "int": return z3.IntVal(x % (1 << el.w))
        return z3.BitVecVal(x, el.w)

    def new_array(self, name, el):
        idx = z3.IntSort() if self.mode == "int" else z3.BitVecSort(64)
        if isinstance(el, FloatTy): rs = z3.RealSort()
        elif isinstance(el, IntTy): rs = z3.IntSort() if self.mode == "int" else z3.BitVecSort(max(el.w, 8))
        else: raise Unsupported(f"array of {el}")
        return z3.Array(f"{name}!{next(_fresh)}", idx, rs)

    # ------------------------------------------------------------------------------------------- memory
    def new_region(self, st, name, size, kind="struct"):
        if isinstance(size, int): size = Lin(size)
        r = Region(next(self.rid), name, size, kind)
        st.mem[r.id] = r
        return r

    def array_region(self, st, name, n, stride, fields):
        """array region of n (Lin|term|int) elements; fields: {offset: (IntTy|FloatTy, array term or None)}"""
        n = self.lin(n) if not isinstance(n, Lin) else n
        r = self.new_region(st, name, n * stride, "array")
        r.stride = stride
        for o, (ty, a) in fields.items():
            r.fields[o] = (ty, a if a is not None else self.new_array(name, ty))
        return r

    def norm_ptr(self, st, p):
        """redirect a constant-offset pointer into an embedded array to its sub-region"""
        if isinstance(p, NPtr):
            self.prove(st, z3.Not(p.null), "pointer not null", "bounds"); st.assume(z3.Not(p.null)); p = Ptr(p.r, p.off)
        if isinstance(p, Ptr) and p.r is not None and p.off.is_const():
            r = st.mem.get(p.r)
            if r is not None and r.subs:
                for lo, hi, sub in r.subs:
                    if lo <= p.off.c < hi: return Ptr(sub, p.off - lo)
        return p

    def add_sub(self, st, r, lo, sub):
        """declare bytes [lo, lo+size) of region r to be the array region sub"""
        hi = lo + sub.size.c
        r.subs = r.subs + [(lo, hi, sub.id)]

    def bounds(self, st, p, size, what):
        r = st.mem[p.r]
        if not r.alive:
            self.prove(st, z3.BoolVal(False), f"{what}: access to freed object {r.name}", "bounds"); return
        if r.size is None: return
        off = p.off
        if off.is_const() and r.size.is_const():
            if 0 <= off.c and off.c + size <= r.size.c: return
        d = r.size - off - size
        if self.mode == "int":
            lo = self.interval(off); hi = self.interval(d)
            if lo[0] is not None and lo[0] >= 0 and hi[0] is not None and hi[0] >= 0: return
            g = z3.And(self.z(off) >= 0, self.z(d) >= 0)
        else:
            # element units, no wrap: off/stride < size/stride
            o = self.z(off); s = self.z(r.size)
            g = z3.And(z3.ULE(o, s), z3.UGE(s - o, size))
            stq = r.stride
            if stq and stq > 1:
                try:
                    oi = self.z(self.exact_div(off, stq, allow_rem=True)); ss = self.z(self.exact_div(r.size, stq))
                    g = z3.ULT(oi, ss)
                except Unsupported: pass
        self.prove(st, g, f"{what}: access within {r.name}", "bounds")
        st.assume(g)

    def exact_div(self, off, s, allow_rem=False):
        if self.mode == "bv":
            # coefficients are residues: use signed representatives
            t = {}
            for k, (a, n) in off.t.items():
                n = n % (1 << 64)
                if n >= 1 << 63: n -= 1 << 64
                if n % s: raise Unsupported("offset not a multiple of the element size")
                t[k] = (a, n // s)
            c = off.c
            if not allow_rem and c % s: raise Unsupported("offset not a multiple of the element size")
            return Lin(c // s, t)
        for k, (a, n) in off.t.items():
            if n % s: raise Unsupported("offset not a multiple of the element size")
        return Lin(off.c // s, {k: (a, n // s) for k, (a, n) in off.t.items()})

    def new_field(self, st, r, f, ty):
        a = self.new_array(r.name, ty); r.fields[f] = (ty, a)
        if isinstance(r.ghost, tuple) and r.ghost[0] == "zero":     # zero-filled before its element type was known
            cnt = self.exact_div(r.ghost[1], r.stride)
            j = z3.Const(f"j!{next(_fresh)}", self.isort())
            zv = z3.RealVal(0) if isinstance(ty, FloatTy) else self.elem_const(0, ty)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(self.ile(self.izero(), j), self.ilt(j, self.z(cnt))), a[j] == zv), patterns=[a[j]]))

    def to_array(self, st, r, stride, fields_hint=None):
        """turn an undetermined region into an array with the given stride"""
        r = st.wr(r.id)
        r.kind = "array"; r.stride = stride
        for off, (ty, v) in sorted(r.cells.items()):
            f = off % stride
            if f not in r.fields: self.new_field(st, r, f, ty)
            t, a = r.fields[f]
            r.fields[f] = (t, z3.Store(a, self.idx_const(off // stride), self.to_elem(v, ty, st)))
        r.cells = {}
        return r

    def to_elem(self, v, ty, st):
        ty = self.m.resolve(ty)
        if isinstance(ty, FloatTy): return v
        if isinstance(ty, IntTy):
            if self.mode == "int":
                if ty.w == 1: return z3.If(self.b(v), 1, 0)
                if isinstance(v, PtrI): raise Unsupported("address stored in array")
                return self.z(self.as_u(st, v, ty.w))
            if ty.w == 1: return z3.If(self.b(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return v
        raise Unsupported(f"array element of type {ty}")

    def from_elem(self, t, ty):
        if isinstance(ty, FloatTy): return t
        if self.mode == "int":
            t = z3.simplify(t) if z3.is_select(t) else t
            if z3.is_int_value(t): return Lin(t.as_long())
            if z3.is_select(t) and t.children()[0].get_id() in self.arr_range:
                _, lo, hi = self.arr_range[t.children()[0].get_id()]
                if t.get_id() not in self.ranges: self.set_range(t, lo, hi)
                return self.lin(t)
            if t.get_id() not in self.ranges: self.set_range(t, 0, (1 << ty.w) - 1)
            return self.lin(t)
        return z3.simplify(t)

    def b(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        return v

    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        if isinstance(ty, StructTy):
            offs, _ = self.m.layout(ty)
            return [self.load(st, p + o, e) for o, e in zip(offs, ty.els)]
        if isinstance(ty, (ArrTy, VecTy)):
            sz = self.m.size(ty.el)
            return [self.load(st, p + i * sz, ty.el) for i in range(ty.n)]
        if not isinstance(p, Ptr): raise Unsupported(f"load through {p}")
        if p.r is None:
            self.prove(st, z3.BoolVal(False), "load through null pointer", "bounds"); return self.fresh(ty, "nullload")
        p = self.norm_ptr(st, p)
        sz = self.m.size(ty)
        self.bounds(st, p, sz, "load")
        r = st.mem[p.r]
        if r.kind != "array" and not p.off.is_const():
            stride = self.guess_stride(p.off, sz)
            r = self.to_array(st, r, stride)
        if r.kind == "array":
            f = p.off.c % r.stride
            if any(n % r.stride for a, n in p.off.t.values()): return self.load_sym(st, r, p, ty)
            idx = self.exact_div(p.off - f, r.stride)
            if f not in r.fields:
                if isinstance(ty, PtrTy): raise Unsupported("pointer array")
                r = st.wr(r.id); self.new_field(st, r, f, ty)
            fty, a = r.fields[f]
            if self.m.size(fty) != sz: raise Unsupported(f"type punning in {r.name}: {fty} vs {ty}")
            e = self.from_elem(z3.Select(a, self.z(idx)), fty)
            return self.repun(st, e, fty, ty)
        c = p.off.c
        if c in r.cells:
            cty, v = r.cells[c]
            if self.m.size(cty) == sz: return self.repun(st, v, cty, ty)
            if isinstance(cty, IntTy) and isinstance(ty, IntTy) and self.m.size(cty) > sz:
                return self.cast(st, "trunc", v, cty, ty)
        # composed of smaller cells, or uninitialised
        if isinstance(ty, IntTy) and sz <= 8:
            parts = [(o, cv) for o, cv in r.cells.items() if c <= o < c + sz]
            if parts and all(isinstance(cv[0], IntTy) for o, cv in parts) and self.mode == "int":
                tot = Lin(0); pos = c
                for o, (cty, v) in sorted(parts):
                    if o != pos: break
                    tot = tot + self.as_u(st, v, cty.w) * (1 << (8 * (o - c))); pos = o + self.m.size(cty)
                if pos == c + sz: return tot
        if any(o < c + sz and c < o + self.m.size(cv[0]) for o, cv in r.cells.items()):
            raise Unsupported(f"overlapping load at {r.name}+{c}")
        v = self.fresh(ty, f"{r.name}_{c}")
        if isinstance(ty, PtrTy): raise Unsupported(f"load of unknown pointer from {r.name}+{c}")
        r = st.wr(r.id); r.cells[c] = (ty, v)
        return v

    def load_sym(self, st, r, p, ty):
        raise Unsupported(f"access to {r.name} not aligned with its elements: {p.off}")

    def repun(self, st, v, fty, ty):
        fty = self.m.resolve(fty); ty = self.m.resolve(ty)
        if type(fty) is type(ty):
            if isinstance(ty, IntTy) and fty.w != ty.w:
                return self.cast(st, "trunc" if ty.w < fty.w else "zext", v, fty, ty)
            return v
        if isinstance(ty, IntTy) and isinstance(fty, PtrTy): return PtrI(v)
        if isinstance(ty, PtrTy) and isinstance(v, PtrI): return v.p
        if isinstance(ty, PtrTy) and isinstance(v, Lin) and v.is_const() and v.c == 0: return NULL
        if isinstance(ty, PtrTy) and isinstance(v, Ptr): return v
        if isinstance(ty, IntTy) and isinstance(v, Ptr): return PtrI(v)
        raise Unsupported(f"type punning {fty} as {ty}")

    def guess_stride(self, off, sz):
        from math import gcd
        g = 0
        for a, n in off.t.values(): g = gcd(g, abs(n))
        return g if g else sz

    def store(self, st, p, ty, v):
        ty = self.m.resolve(ty)
        if isinstance(ty, StructTy):
            offs, _ = self.m.layout(ty)
            for o, e, x in zip(offs, ty.els, v): self.store(st, p + o, e, x)
            return
        if isinstance(ty, (ArrTy, VecTy)):
            sz = self.m.size(ty.el)
            for i in range(ty.n): self.store(st, p + i * sz, ty.el, v[i])
            return
        if not isinstance(p, Ptr): raise Unsupported(f"store through {p}")
        if p.r is None:
            self.prove(st, z3.BoolVal(False), "store through null pointer", "bounds"); return
        p = self.norm_ptr(st, p)
        sz = self.m.size(ty)
        self.bounds(st, p, sz, "store")
        r = st.wr(p.r)
        if r.const: self.prove(st, z3.BoolVal(False), f"store to constant {r.name}", "frame")
        if r.kind != "array" and not p.off.is_const():
            r = self.to_array(st, r, self.guess_stride(p.off, sz)); r = st.wr(p.r)
        if r.kind == "array":
            f = p.off.c % r.stride
            if any(n % r.stride for a, n in p.off.t.values()): return self.load_sym(st, r, p, ty)
            idx = self.exact_div(p.off - f, r.stride)
            if f not in r.fields: self.new_field(st, r, f, ty)
            fty, a = r.fields[f]
            if self.m.size(fty) != sz: raise Unsupported(f"type punning store in {r.name}: {fty} vs {ty}")
            v = self.repun(st, v, ty, fty)
            e = self.to_elem(v, fty, st)
            r.fields[f] = (fty, z3.Store(a, self.z(idx), e))
            st.log.append((r.id, "elem", f, idx, e))
            return
        c = p.off.c
        for o in [o for o, cv in r.cells.items() if o != c and o < c + sz and c < o + self.m.size(cv[0])]:
            cty, cv = r.cells[o]
            if c <= o and o + self.m.size(cty) <= c + sz: del r.cells[o]
            else:
                # partially overwritten: forget
                del r.cells[o]
        r.cells[c] = (ty, v)
        st.log.append((r.id, "cell", c, ty, v))

    def copy_mem(self, st, d, s, n, st_name="memcpy"):
        """memcpy/memmove of n bytes (Lin or python int)"""
        if isinstance(n, int): n = Lin(n)
        if n.is_const() and n.c == 0: return
        d = self.norm_ptr(st, d); s = self.norm_ptr(st, s)
        if d.r is None or s.r is None:
            # only legal when n == 0
            self.prove(st, self.z(n) == 0, "memcpy on null with non-zero length", "bounds"); return
        rs, rd = st.mem[s.r], st.mem[d.r]
        if n.is_const() and rs.kind != "array" and rd.kind != "array" and s.off.is_const() and d.off.is_const():
            # struct copy; includes embedded arrays
            so, do, k = s.off.c, d.off.c, n.c
            if rs.size is not None and rs.size.is_const() and so + k > rs.size.c: self.prove(st, z3.BoolVal(False), "memcpy source bounds", "bounds")
            if rd.size is not None and rd.size.is_const() and do + k > rd.size.c: self.prove(st, z3.BoolVal(False), "memcpy destination bounds", "bounds")
            cells = {o: cv for o, cv in rs.cells.items() if so <= o and o + self.m.size(cv[0]) <= so + k}
            r = st.wr(rd.id)
            for o in [o for o, cv in r.cells.items() if o < do + k and do < o + self.m.size(cv[0])]: del r.cells[o]
            for o, (ty, v) in cells.items():
                r.cells[o - so + do] = (ty, v); st.log.append((r.id, "cell", o - so + do, ty, v))
            for lo, hi, sub in rs.subs:
                if so <= lo and hi <= so + k:
                    for lo2, hi2, sub2 in rd.subs:
                        if lo2 - do == lo - so:
                            self.copy_mem(st, Ptr(sub2, Lin(0)), Ptr(sub, Lin(0)), Lin(hi - lo))
                            break
                    else: raise Unsupported("struct copy with embedded array into plain region")
            return
        # array copy
        if rs.kind != "array" and rd.kind != "array":
            if n.is_const() and not rs.cells: return
            raise Unsupported("memcpy between undetermined regions")
        if rs.kind != "array": rs = self.to_array(st, rs, rd.stride)
        if rd.kind != "array":
            rd = self.to_array(st, rd, rs.stride)
        if rs.stride != rd.stride: raise Unsupported("memcpy between arrays of different element size")
        S = rs.stride
        if (not n.is_const() or n.c % S) and any(m % S for a, m in n.t.values()): raise Unsupported("memcpy length not a multiple of element size")
        if n.is_const() and n.c < S and (s.off.c % S or d.off.c % S or n.c < S):
            # copy of part of one element (some fields)
            for f, (ty, a) in list(rs.fields.items()):
                so = s.off.c % S
                if so <= f and f + self.m.size(ty) <= so + n.c:
                    v = self.load(st, Ptr(s.r, s.off + (f - so)), ty)
                    self.store(st, Ptr(d.r, d.off + (f - so)), ty, v)
            return
        cnt = self.exact_div(n, S); si = self.exact_div(s.off, S); di = self.exact_div(d.off, S)
        # bounds
        if not self.dry:
            for r, i, w in ((rs, si, "source"), (rd, di, "destination")):
                if r.size is None: continue
                tot = self.exact_div(r.size, S)
                if self.mode == "int":
                    g = z3.Or(self.z(cnt) == 0, z3.And(self.z(i) >= 0, self.z(tot - i - cnt) >= 0, self.z(cnt) >= 0))
                else:
                    g = z3.Or(self.z(cnt) == 0, z3.And(z3.ULE(self.z(i), self.z(tot)), z3.ULE(self.z(cnt), self.z(tot) - self.z(i))))
                self.prove(st, g, f"{st_name}: {w} range within {r.name}", "bounds")
                st.assume(g)
        r = st.wr(rd.id)
        for f, (ty, a) in rs.fields.items():
            dty, da = r.fields.get(f, (ty, None))
            if da is None: self.new_field(st, r, f, ty); da = r.fields[f][1]
            if cnt.is_const() and cnt.c <= 4:
                na = da
                vals = [z3.Select(a, self.z(si + i)) for i in range(cnt.c)]
                for i in range(cnt.c): na = z3.Store(na, self.z(di + i), vals[i])
            else:
                na = self.new_array(r.name, dty)
                j = z3.Const(f"j!{next(_fresh)}", z3.IntSort() if self.mode == "int" else z3.BitVecSort(64))
                zd, zs, zc = self.z(di), self.z(si), self.z(cnt)
                if self.mode == "int": inr = z3.And(j >= zd, j < zd + zc)
                else: inr = z3.And(z3.UGE(j, zd), z3.ULT(j - zd, zc))
                st.assume(z3.ForAll([j], na[j] == z3.If(inr, a[j - zd + zs], da[j]), patterns=[na[j]]))
            r.fields[f] = (dty, na)
            st.log.append((r.id, "elem", f, None, None))

    def set_mem(self, st, d, byte, n):
        d = self.norm_ptr(st, d)
        if not (isinstance(byte, Lin) and byte.is_const()) and not z3.is_bv_value(byte): raise Unsupported("memset value")
        bv = byte.c if isinstance(byte, Lin) else byte.as_long()
        r = st.mem[d.r]
        if r.kind != "array":
            if n.is_const() and d.off.is_const():
                self.bounds(st, d, n.c, "memset")
                r = st.wr(d.r); c = d.off.c
                for o in [o for o, cv in r.cells.items() if o < c + n.c and c < o + self.m.size(cv[0])]:
                    cty, _ = r.cells[o]
                    if bv == 0: r.cells[o] = (cty, self.zero(cty))
                    else: del r.cells[o]
                # remember as 8-byte zero cells where nothing is known
                if bv == 0:
                    o = c
                    while o < c + n.c:
                        if not any(oo <= o < oo + self.m.size(cv[0]) for oo, cv in r.cells.items()):
                            step = 8 if o % 8 == 0 and o + 8 <= c + n.c else (4 if o % 4 == 0 and o + 4 <= c + n.c else 1)
                            if not any(o < oo + self.m.size(cv[0]) and oo < o + step for oo, cv in r.cells.items()):
                                r.cells[o] = (IntTy(8 * step), self.iconst(0, 8 * step))
                                o += step; continue
                        o += 1
                for o, cv in r.cells.items():
                    if c <= o < c + n.c: st.log.append((r.id, "cell", o, cv[0], cv[1]))
                for lo, hi, sub in r.subs:
                    if c <= lo and hi <= c + n.c: self.set_mem(st, Ptr(sub, Lin(0)), byte, Lin(hi - lo))
                return
            if bv == 0 and not r.cells and not r.subs and r.kind == "heap" and d.off.is_const() and d.off.c == 0:
                if not self.dry and r.size is not None:
                    self.prove(st, self.z(r.size - n) >= 0 if self.mode == "int" else z3.ULE(self.z(n), self.z(r.size)), f"memset within {r.name}", "bounds")
                r = st.wr(d.r); r.ghost = ("zero", n); return
            raise Unsupported("symbolic memset of undetermined region")
        S = r.stride
        cnt = self.exact_div(n, S); di = self.exact_div(d.off, S)
        if not self.dry and r.size is not None:
            tot = self.exact_div(r.size, S)
            g = z3.And(self.z(di) >= 0, self.z(tot - di - cnt) >= 0, self.z(cnt) >= 0) if self.mode == "int" else \
                z3.And(z3.ULE(self.z(di), self.z(tot)), z3.ULE(self.z(cnt), self.z(tot) - self.z(di)))
            self.prove(st, g, f"memset within {r.name}", "bounds")
        r = st.wr(d.r)
        for f, (ty, a) in list(r.fields.items()):
            if isinstance(ty, FloatTy):
                if bv: raise Unsupported("memset of double")
                ev = z3.RealVal(0)
            else:
                e = int.from_bytes(bytes([bv & 255]) * (ty.w // 8), "little")
                ev = self.elem_const(e, ty)
            na = self.new_array(r.name, ty)
            j = z3.Const(f"j!{next(_fresh)}", z3.IntSort() if self.mode == "int" else z3.BitVecSort(64))
            zd, zc = self.z(di), self.z(cnt)
            inr = z3.And(j >= zd, j < zd + zc) if self.mode == "int" else z3.And(z3.UGE(j, zd), z3.ULT(j - zd, zc))
            st.assume(z3.ForAll([j], na[j] == z3.If(inr, ev, a[j]), patterns=[na[j]]))
            r.fields[f] = (ty, na)
            st.log.append((r.id, "elem", f, None, None))

    # ------------------------------------------------------------------------------------------- operations
    def sext_lin(self, st, v, ty):
        """signed index as Lin"""
        ty = self.m.resolve(ty)
        if self.mode == "int":
            if isinstance(v, PtrI): raise Unsupported("address as index")
            if v.is_const(): return self.as_s(st, v, ty.w)
            if ty.w == 64: return self.as_s(st, v, 64) if not self.maybe_small(v) else v
            return self.as_s(st, v, ty.w)
        if z3.is_bv_value(v):
            c = v.as_signed_long(); return Lin(c)
        if ty.w < 64: v = z3.simplify(z3.SignExt(64 - ty.w, v))
        return self.bvlin(v)

    def maybe_small(self, v):
        lo, hi = self.interval(v)
        return lo is not None and lo >= -(1 << 63) and hi < (1 << 63)

    def bvlin(self, v):
        """decompose a 64 bit term into a linear form"""
        if z3.is_bv_value(v): return Lin(v.as_signed_long())
        if z3.is_app(v):
            k = v.decl().kind()
            if k == z3.Z3_OP_BADD:
                r = Lin(0)
                for c in v.children(): r = r + self.bvlin(c)
                return r
            if k == z3.Z3_OP_BMUL and len(v.children()) == 2 and z3.is_bv_value(v.children()[0]):
                return self.bvlin(v.children()[1]) * v.children()[0].as_signed_long()
            if k == z3.Z3_OP_BSUB:
                r = self.bvlin(v.children()[0])
                for c in v.children()[1:]: r = r - self.bvlin(c)
                return r
        self.keep.append(v)
        return atom(v)

    def gep(self, st, bt, base, idx):
        if isinstance(base, tuple): raise Unsupported("gep on undefined pointer")
        if isinstance(base, FnPtr): raise Unsupported("gep on function")
        if isinstance(base, NPtr):
            q = self.gep(st, bt, Ptr(base.r, base.off), idx); return NPtr(q.r, q.off, base.null)
        base = self.norm_ptr(st, base)
        off = base.off; t = bt
        first = True
        const_base = base
        for ity, iv in idx:
            il = self.sext_lin(st, iv, ity)
            if first:
                off = off + il * self.m.size(t); first = False
            else:
                t = self.m.resolve(t)
                if isinstance(t, StructTy):
                    offs, _ = self.m.layout(t); off = off + offs[il.c]; t = t.els[il.c]
                elif isinstance(t, (ArrTy, VecTy)):
                    # redirect into embedded array before applying a symbolic index
                    q = self.norm_ptr(st, Ptr(base.r, off)) if off.is_const() and base.r is not None else Ptr(base.r, off)
                    base = q; off = q.off
                    t = t.el; off = off + il * self.m.size(t)
                else: raise Unsupported("gep into scalar")
        p = Ptr(base.r, off)
        if off.is_const() and base.r is not None and base.off.is_const(): p = self.norm_ptr(st, p)
        return p

    def binop(self, st, op, ty, a, b, flags):
        ty = self.m.resolve(ty)
        if isinstance(ty, VecTy): return [self.binop(st, op, ty.el, x, y, flags) for x, y in zip(a, b)]
        if isinstance(ty, FloatTy):
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if op == "fdiv": return a / b
            raise Unsupported(op)
        w = ty.w
        if w == 1:
            a, b = self.b(a), self.b(b)
            r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor, "add": z3.Xor, "sub": z3.Xor, "mul": z3.And}[op](a, b)
            return self.sb(r)
        if isinstance(a, PtrI) or isinstance(b, PtrI): return self.ptrint(st, op, w, a, b)
        if self.mode == "bv": return self.bvop(op, w, a, b, st)
        M = 1 << w
        if op == "add": return a + b
        if op == "sub": return a - b
        if op == "mul":
            if b.is_const(): return a * b.c
            if a.is_const(): return b * a.c
            au, bu = self.mulnorm(st, a, w), self.mulnorm(st, b, w)
            x, y = self.z(au), self.z(bu)
            if x.get_id() > y.get_id(): x, y = y, x
            t = x * y
            la, ha = self.interval(au); lb, hb = self.interval(bu)
            if la is not None and lb is not None:
                ps = [la * lb, la * hb, ha * lb, ha * hb]; self.set_range(t, min(ps), max(ps))
            else: self.keep.append(t)
            return atom(t)
        if op == "shl":
            if b.is_const(): return a * (1 << (b.c % M))
            raise Unsupported("variable shift in int mode")
        if op == "lshr":
            if b.is_const(): return self.divc(self.as_u(st, a, w), 1 << b.c)
            raise Unsupported("variable shift in int mode")
        if op == "ashr":
            if b.is_const(): return self.divc(self.as_s(st, a, w), 1 << b.c)
            raise Unsupported("variable shift in int mode")
        if op in ("udiv", "urem"):
            x = self.as_u(st, a, w)
            if b.is_const():
                c = b.c % M
                if c == 0: self.prove(st, z3.BoolVal(False), "division by zero", "arith"); return self.fresh(ty, "div0")
                return self.divc(x, c) if op == "udiv" else self.modc(x, c)
            y = self.as_u(st, b, w); zx, zy = self.z(x), self.z(y)
            self.prove(st, zy != 0, "division by zero", "arith"); st.assume(zy != 0)
            t = zx / zy if op == "udiv" else zx % zy
            lo, hi = self.interval(x)
            self.set_range(t, 0, hi if hi is not None else M - 1)
            q, r = zx / zy, zx % zy
            st.assume(z3.And(zx == q * zy + r, r >= 0, r < zy))
            return atom(t)
        if op in ("sdiv", "srem"):
            x = self.as_s(st, a, w)
            if not b.is_const():
                y = self.as_s(st, b, w)
                if self.entails(st, z3.And(self.z(x) >= 0, self.z(y) > 0)):
                    return self.binop(st, "udiv" if op == "sdiv" else "urem", ty, x, y, flags)
                raise Unsupported("symbolic signed division")
            c = self.as_s(st, b, w).c
            if c == 0: self.prove(st, z3.BoolVal(False), "division by zero", "arith"); return self.fresh(ty, "div0")
            q, r = self.split(x, abs(c))
            if r.is_const() and r.c == 0:
                return (q if c > 0 else -q) if op == "sdiv" else Lin(0)
            zx = self.z(x); ac = abs(c)
            if self.entails(st, zx >= 0):
                return (self.divc(x, ac) * (1 if c > 0 else -1)) if op == "sdiv" else self.modc(x, ac)
            qa = z3.If(zx >= 0, zx / ac, -((-zx) / ac)) * (1 if c > 0 else -1)
            if op == "sdiv":
                self.set_range(qa, -(M >> 1), M >> 1); return atom(qa)
            ra = z3.If(zx >= 0, zx % ac, -((-zx) % ac)); self.set_range(ra, -ac, ac); return atom(ra)
        if op == "and":
            if a.is_const(): a, b = b, a
            if b.is_const():
                c = b.c % M
                if c == 0: return Lin(0)
                if c & (c + 1) == 0: return self.modc(a, c + 1)
                # high mask: c = ~(2^k-1)
                nc = (~c) % M
                if nc & (nc + 1) == 0:
                    u = self.as_u(st, a, w); return u - self.modc(u, nc + 1)
                if c & (c - 1) == 0:   # single bit
                    u = self.as_u(st, a, w); return self.modc(self.divc(u, c), 2) * c
        if op == "xor" and (b.is_const() or a.is_const()):
            if a.is_const(): a, b = b, a
            if b.c % M == M - 1: return -a - 1
            if b.c % M == 1:
                u = self.as_u(st, a, w); return u + 1 - self.modc(u, 2) * 2
        if op == "or":
            if "disjoint" in flags: return a + b
            if a.is_const() and a.c == 0: return b
            if b.is_const() and b.c == 0: return a
        if op in ("and", "or", "xor"):
            au, bu = self.as_u(st, a, w), self.as_u(st, b, w)
            if op in ("or", "xor"):
                # packed fields: one side is a multiple of 2^k (modulo 2^w), the other below 2^k
                for x, y in ((a, bu), (b, au)):
                    g = 0
                    for n in [x.c] + [n for _, n in x.t.values()]: g |= n
                    k = g & -g; lo, hi = self.interval(y)
                    if k > 1 and lo is not None and lo >= 0 and hi < k: return x + y
            if au.is_const() and bu.is_const():
                return Lin({"and": au.c & bu.c, "or": au.c | bu.c, "xor": au.c ^ bu.c}[op])
            # both in {0,1}?
            for q in (au, bu):
                if not self.entails(st, z3.And(self.z(q) >= 0, self.z(q) <= 1)): break
            else:
                x, y = self.z(au) == 1, self.z(bu) == 1
                r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y)
                t = z3.If(r, z3.IntVal(1), z3.IntVal(0)); self.set_range(t, 0, 1); self.boolof[t.get_id()] = r; return atom(t)
            f = z3.Function(f"bit_{op}{w}", z3.IntSort(), z3.IntSort(), z3.IntSort())
            t = f(self.z(au), self.z(bu)); self.set_range(t, 0, M - 1); return atom(t)
        raise Unsupported(f"{op} on i{w}")

    def mulnorm(self, st, v, w):
        # prefer the representation already in range; products are taken modulo 2^w anyway
        return v

    def sb(self, b):
        b = z3.simplify(b) if not isinstance(b, bool) else b
        if isinstance(b, bool): return b
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        return b

    def bvop(self, op, w, a, b, st=None):
        if op == "urem":
            for x, n, r in self.rem_cases:
                if a.eq(x) and z3.is_bv_value(b) and b.as_long() == n: return r
        if op in ("shl", "lshr", "ashr"):
            # a shift by the width or more is poison: any value
            sh = z3.simplify(z3.ULT(b, w))
            if st is not None and not z3.is_true(sh) and not z3.is_false(sh) and self.check_valid(st.pc, sh, 1000)[0] == "proved": sh = z3.BoolVal(True)
            r = {"shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]()
            return z3.simplify(r if z3.is_true(sh) else z3.If(sh, r, z3.BitVec(f"poison!{next(_fresh)}", w)))
        r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
             "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
             "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
        return z3.simplify(r)

    def ptrint(self, st, op, w, a, b):
        if op == "sub" and isinstance(a, PtrI) and isinstance(b, PtrI):
            if a.p.r == b.p.r:
                d = a.p.off - b.p.off
                return d if self.mode == "int" else self.z(d)
            raise Unsupported("difference of unrelated pointers")
        if op == "add":
            if isinstance(b, PtrI): a, b = b, a
            if isinstance(b, PtrI): raise Unsupported("sum of pointers")
            return PtrI(Ptr(a.p.r, a.p.off + self.sext_lin(st, b, IntTy(w))))
        if op == "sub" and isinstance(a, PtrI):
            return PtrI(Ptr(a.p.r, a.p.off - self.sext_lin(st, b, IntTy(w))))
        raise Unsupported(f"{op} on address")

    def cast(self, st, op, v, fty, ty):
        fty = self.m.resolve(fty); ty = self.m.resolve(ty)
        if op in ("trunc", "zext", "sext"):
            if isinstance(v, PtrI): raise Unsupported("cast of address")
            if fty.w == 1:
                bb = self.b(v)
                if isinstance(v, bool): 
                    one = 1 if op == "zext" else -1
                    return self.iconst(one if v else 0, ty.w)
                one = 1 if op == "zext" else -1
                if self.mode == "int":
                    t = z3.If(bb, z3.IntVal(one), z3.IntVal(0)); self.set_range(t, min(0, one), max(0, one)); self.boolof[t.get_id()] = bb
                    return atom(t)
                return z3.If(bb, z3.BitVecVal(one, ty.w), z3.BitVecVal(0, ty.w))
            if ty.w == 1:
                if self.mode == "int":
                    if v.is_const(): return bool(v.c & 1)
                    if v.c == 0 and len(v.t) == 1:
                        a, n = next(iter(v.t.values()))
                        if n == 1 and a.get_id() in self.boolof: return self.boolof[a.get_id()]
                    u = self.modc(v, 2)
                    return self.sb(self.z(u) == 1)
                return self.sb(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
            if self.mode == "int":
                if op == "trunc": return v
                return self.as_u(st, v, fty.w) if op == "zext" else self.as_s(st, v, fty.w)
            if op == "trunc": return z3.simplify(z3.Extract(ty.w - 1, 0, v))
            return z3.simplify(z3.ZeroExt(ty.w - fty.w, v) if op == "zext" else z3.SignExt(ty.w - fty.w, v))
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.r is None and v.off.is_const(): return self.iconst(v.off.c, ty.w)
            return PtrI(v)
        if op == "inttoptr":
            if isinstance(v, PtrI): return v.p
            if isinstance(v, Lin) and v.is_const() and v.c == 0: return NULL
            raise Unsupported("inttoptr")
        if op == "bitcast":
            return self.repun(st, v, fty, ty)
        if op in ("sitofp", "uitofp"):
            if self.mode == "int":
                if fty.w == 1: return z3.If(self.b(v), z3.RealVal(1 if op == "uitofp" else -1), z3.RealVal(0))
                x = self.as_s(st, v, fty.w) if op == "sitofp" else self.as_u(st, v, fty.w)
                if x.is_const(): return z3.RealVal(x.c)
                return z3.ToReal(self.z(x))
            raise Unsupported("int to fp in bv mode")
        if op in ("fpext", "fptrunc"): return v
        raise Unsupported(op)

    def icmp(self, st, pred, ty, a, b):
        ty = self.m.resolve(ty)
        if isinstance(a, PtrI) and isinstance(b, PtrI): return self.icmp(st, pred, ir.PTR, a.p, b.p)
        if isinstance(a, PtrI) or isinstance(b, PtrI):
            o = b if isinstance(a, PtrI) else a
            p = a if isinstance(a, PtrI) else b
            if isinstance(o, Lin) and o.is_const() and o.c == 0 and pred in ("eq", "ne"):
                return self.icmp(st, pred, ir.PTR, p.p, NULL)
            raise Unsupported("comparison of address with integer")
        if isinstance(ty, PtrTy):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return same if pred == "eq" else not same
            if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported("comparison of undefined pointer")
            if isinstance(a, NPtr) or isinstance(b, NPtr):
                if pred not in ("eq", "ne"): raise Unsupported("ordering of possibly null pointers")
                na, nb = (x.null if isinstance(x, NPtr) else z3.BoolVal(x.r is None) for x in (a, b))
                strip = lambda x: Ptr(x.r, x.off)
                same = self.b(self.icmp(st, "eq", ty, strip(a), strip(b))) if a.r is not None and b.r is not None else z3.BoolVal(False)
                r = z3.simplify(z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), same)))
                return self.sb(r if pred == "eq" else z3.Not(r))
            a = self.norm_ptr(st, a); b = self.norm_ptr(st, b)
            if a.r != b.r:
                if pred in ("eq", "ne"): return pred == "ne"
                raise Unsupported("ordering of unrelated pointers")
            d = a.off - b.off
            if d.is_const():
                c = d.c
                return {"eq": c == 0, "ne": c != 0, "ult": c < 0, "ule": c <= 0, "ugt": c > 0, "uge": c >= 0}[pred]
            if self.mode == "int":
                z = self.z(d)
                return self.sb({"eq": z == 0, "ne": z != 0, "ult": z < 0, "ule": z <= 0, "ugt": z > 0, "uge": z >= 0}[pred])
            x, y = self.z(a.off), self.z(b.off)
            if pred in ("eq", "ne"):
                # use the element index where possible, avoiding wrap-around artefacts
                from math import gcd
                g = 0
                for _, n in d.t.values():
                    n %= 1 << 64
                    if n >= 1 << 63: n -= 1 << 64
                    g = gcd(g, abs(n))
                if g > 1 and d.c % g == 0:
                    e = self.z(self.exact_div(d, g)); r = e == 0
                else: r = x == y
                return self.sb(r if pred == "eq" else z3.Not(r))
            return self.sb({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[pred](x, y))
        w = ty.w
        if w == 1:
            a, b = self.b(a), self.b(b)
            if pred == "eq": return self.sb(a == b)
            if pred == "ne": return self.sb(z3.Xor(a, b))
            if pred in ("ult", "sgt"): return self.sb(z3.And(z3.Not(a), b))
            if pred in ("ugt", "slt"): return self.sb(z3.And(a, z3.Not(b)))
            raise Unsupported("icmp i1 " + pred)
        if self.mode == "bv":
            f = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                 "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
                 "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]
            return self.sb(f())
        M = 1 << w
        if pred in ("eq", "ne"):
            d = a - b
            if d.is_const(): r = d.c % M == 0; return r if pred == "eq" else not r
            lo, hi = self.interval(d)
            z = self.z(d)
            if not (lo is not None and lo > -M and hi < M) and not self.entails(st, z3.And(z > -M, z < M)):
                z = self.z(self.as_u(st, a, w) - self.as_u(st, b, w))
            return self.sb(z == 0 if pred == "eq" else z != 0)
        f = self.as_u if pred[0] == "u" else self.as_s
        x, y = f(st, a, w), f(st, b, w)
        d = self.z(x - y) if not (x - y).is_const() else None
        if d is None:
            c = (x - y).c
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[pred[1:]]
        return self.sb({"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pred[1:]])

    def fcmp(self, pred, a, b):
        if pred in ("uno",): return False
        if pred == "ord": return True
        if pred == "true": return True
        if pred == "false": return False
        p = pred[1:]
        return self.sb({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])

    # ------------------------------------------------------------------------------------------- control flow graphs
    def cfg(self, fn):
        if fn._cfg is not None: return fn._cfg
        self.m.parser.body(fn)
        succ = {}; pred = {b: [] for b in fn.blocks}
        for n, blk in fn.blocks.items():
            t = blk.ins[-1]
            if t.op == "br": s = list(dict.fromkeys(t.x["to"]))
            elif t.op == "switch": s = list(dict.fromkeys([t.x["default"]] + [c[1] for c in t.x["cases"]]))
            elif t.op == "invoke": s = [t.x["to"][0], t.x["unwind"]]
            else: s = []
            succ[n] = s
            for x in s: pred[x].append(n)
        entry = fn.order[0]
        # dominators (iterative)
        order = []; seen = set()
        def dfs(b):
            stack = [(b, iter(succ[b]))]; seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); stack.append((y, iter(succ[y]))); break
                else:
                    order.append(x); stack.pop()
        dfs(entry)
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == entry: continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in num and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in pred[x] if p in num)
        # blocks from which every normal path ends in unreachable / noreturn
        doomed = set()
        ch = True
        def blk_doom(n):
            blk = fn.blocks[n]
            for I in blk.ins:
                if I.op in ("call", "invoke") and I.x["callee"][0] == "glob":
                    nm = I.x["callee"][1]
                    if nm == "__cxa_throw" or nm == "__cxa_rethrow": return "throw"
                    f = self.m.functions.get(nm)
                    if f is not None and f.noreturn and not nm.startswith("__clang_call_terminate"): 
                        return "throw" if nm not in ("abort", "_ZSt9terminatev", "__assert_fail") else "abort"
            return None
        kind = {}
        for n in rpo:
            k = blk_doom(n)
            if k: doomed.add(n); kind[n] = k
            elif fn.blocks[n].ins[-1].op == "unreachable": pass
        while ch:
            ch = False
            for n in rpo:
                if n in doomed: continue
                t = fn.blocks[n].ins[-1]
                s = [t.x["to"][0]] if t.op == "invoke" else succ[n]
                if s and all(x in doomed for x in s):
                    doomed.add(n); kind[n] = kind[s[0]]; ch = True
        fn._cfg = dict(succ=succ, pred=pred, loops=loops, doomed=kind, rpo=rpo)
        return fn._cfg

    # ------------------------------------------------------------------------------------------- execution
    def call_function(self, st, name, args):
        """run function `name`; yields (state, outcome, retval), outcome 'ret' or 'throw'"""
        fn = self.m.functions[name]
        st = st.copy()
        self.push_frame(st, fn, args, None)
        return self.run([st], len(st.frames))

    def push_frame(self, st, fn, args, res):
        self.m.parser.body(fn)
        f = Frame(fn); f.res = res
        for (ty, reg, at), v in zip(fn.params, args):
            if "byval" in at and isinstance(v, Ptr):
                pass
            f.env[reg] = v
        st.frames.append(f)
        self.called[fn.name] = self.called.get(fn.name, 0) + 1
        f.blk = fn.order[0]; f.prev = None; f.idx = 0
        if f.blk in self.cfg(fn)["doomed"]:
            f.idx = -1

    def run(self, work, base_depth, until=None):
        """process states until their frame stack drops below base_depth (or loop `until` is left / re-entered)"""
        out = []; self.pstack.append(out)
        try:
            while work:
                st = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps: raise Budget("steps")
                    f = st.frames[-1]
                    if f.idx == -1:
                        r = self.raise_(st, base_depth, "throw", until)
                        if r is not None: out.append(r)
                        break
                    self._work = work
                    blk = f.fn.blocks[f.blk]
                    I = blk.ins[f.idx]
                    nxt = self.step(st, f, I, work, base_depth, until)
                    if nxt is None: continue
                    if isinstance(nxt, tuple): out.append(nxt)
                    break
        finally:
            self.pstack.pop()
        return out

    def raise_(self, st, base_depth, what, until):
        if until is not None: return (st, "exit", None)
        # no catch handling: the exception leaves the function under contract
        st.frames = st.frames[:base_depth - 1]
        return (st, what, None)

    def goto(self, st, f, target, work, base_depth, until):
        """enter block target from f.blk; returns None to continue with st, or terminal"""
        cfg = self.cfg(f.fn)
        depth = len(st.frames)
        if target in cfg["doomed"]:
            k = cfg["doomed"][target]
            if k == "abort":
                self.prove(st, z3.BoolVal(False), f"abort/assert reachable in {f.fn.name}", "assert"); return "drop"
            r = self.raise_(st, base_depth, "throw", until)
            return r if r is not None else "drop"
        if f.fn.blocks[target].ins[0].op == "unreachable":
            self.prove(st, z3.BoolVal(False), f"unreachable code reached in {f.fn.name}", "ub"); return "drop"
        # loop bookkeeping
        while st.loops and st.loops[-1][0] >= depth:
            d, L, lid = st.loops[-1]
            if d > depth: st.loops.pop(); continue
            if target == L["header"]:
                t = self.peek_exit(st, f, target, L)
                if t is not None: return self.goto(st, f, t, work, base_depth, until)
                if until == lid:
                    self.phis(st, f, target)
                    return (st, "backedge", None)
                return "drop"                    # back edge of an already cut loop: invariant was proved
            if target not in L["blocks"]:
                st.loops.pop()
                if until == lid: return (st, "exit", None)
                continue
            break
        if target in cfg["loops"]:
            if self.unroll is not None:
                key = (depth, f.fn.name, target)
                if f.blk in cfg["loops"][target]:
                    st.visits[key] = st.visits.get(key, 0) + 1
                    if st.visits[key] > self.unroll:
                        if self.unroll_strict: raise Unsupported("loop longer than the case allows")
                        return "drop"
                else: st.visits[key] = 0
                self.phis(st, f, target)
                return None
            outs = self.cut_loop(st, f, target)
            for s in outs[1:]: work.append(s)
            if not outs: return "drop"
            s0 = outs[0]
            work.append(s0)
            return "drop"
        self.phis(st, f, target)
        return None

    PURE = ("icmp", "trunc", "zext", "sext", "and", "or", "xor", "freeze")

    def peek_exit(self, st, f, target, L):
        """a jump back to the loop header whose test is then a constant that leaves the loop (a loop controlled by a flag) is an exit, not
        another iteration: executes the header and returns the block after the loop, or None with st unchanged"""
        blk = f.fn.blocks[target]
        body = [I for I in blk.ins if I.op != "phi"]
        if len(blk.ins) == len(body) or body[-1].op != "br" or len(body[-1].x["to"]) != 2 or any(I.op not in self.PURE for I in body[:-1]): return None
        env, prev, b, idx = dict(f.env), f.prev, f.blk, f.idx
        npc = len(st.pc)
        try:
            self.phis(st, f, target)
            for I in body[:-1]: self.simple(st, f, I)
            c = self.val(st, IntTy(1), body[-1].a[0][1])
            if z3.is_expr(c): c = True if z3.is_true(z3.simplify(c)) else False if z3.is_false(z3.simplify(c)) else c
            if isinstance(c, bool):
                t = body[-1].x["to"][0 if c else 1]
                if t not in L["blocks"]: return t
        except Unsupported: pass
        f.env.clear(); f.env.update(env); f.prev, f.blk, f.idx = prev, b, idx
        del st.pc[npc:]
        return None

    def phis(self, st, f, target):
        blk = f.fn.blocks[target]; vals = []
        i = 0
        while i < len(blk.ins) and blk.ins[i].op == "phi":
            I = blk.ins[i]
            for v, b in I.x["in"]:
                if b == f.blk: vals.append((I.res, self.val(st, I.ty, v))); break
            else: raise Unsupported("phi without matching predecessor")
            i += 1
        for r, v in vals: f.env[r] = v
        f.prev = f.blk; f.blk = target; f.idx = i

    def branch(self, st, cond):
        """(state_true or None, state_false or None)"""
        if isinstance(cond, bool): return (st, None) if cond else (None, st)
        ft = self.feasible(st, cond); ff = self.feasible(st, z3.Not(cond))
        if ft and ff:
            s2 = st.copy(); st.assume(cond); s2.assume(z3.Not(cond)); return st, s2
        if ft:
            st.assume(cond); return st, None
        if ff:
            st.assume(z3.Not(cond)); return None, st
        return None, None

    def step(self, st, f, I, work, base_depth, until):
        op = I.op; env = f.env
        if op == "br":
            if len(I.x["to"]) == 1: return self.goto(st, f, I.x["to"][0], work, base_depth, until)
            c = self.val(st, IntTy(1), I.a[0][1])
            t, e = self.branch(st, c)
            if t is not None and e is not None:
                # process false branch later
                fe = e.frames[-1]
                r = self.goto(e, fe, I.x["to"][1], work, base_depth, until)
                if r is None: work.append(e)
                elif isinstance(r, tuple): self.pending_add(work, r)
                return self.goto(t, t.frames[-1], I.x["to"][0], work, base_depth, until)
            if t is not None: return self.goto(t, f, I.x["to"][0], work, base_depth, until)
            if e is not None: return self.goto(e, f, I.x["to"][1], work, base_depth, until)
            return "drop"
        if op == "switch":
            ty = I.a[0][0]; v = self.val(st, ty, I.a[0][1])
            targets = {}
            for c, b in I.x["cases"]: targets.setdefault(b, []).append(c)
            outs = []
            neg = []
            for b, cs in targets.items():
                conds = [self.icmp(st, "eq", ty, v, self.iconst(c, ty.w)) for c in cs]
                cond = conds[0] if len(conds) == 1 else self.sb(z3.Or([self.b(x) for x in conds]))
                neg.append(cond)
                if cond is False: continue
                if cond is True or self.feasible(st, cond): outs.append((cond, b))
            dflt = self.sb(z3.Not(z3.Or([self.b(x) for x in neg]))) if neg else True
            if dflt is True or (dflt is not False and self.feasible(st, dflt)): outs.append((dflt, I.x["default"]))
            res = None
            for cond, b in outs:
                s = st.copy()
                if cond is not True: s.assume(cond)
                r = self.goto(s, s.frames[-1], b, work, base_depth, until)
                if r is None: work.append(s)
                elif isinstance(r, tuple): self.pending_add(work, r)
            return "drop"
        if op == "ret":
            v = self.val(st, I.a[0][0], I.a[0][1]) if I.a else None
            return self.ret(st, f, v, base_depth, until)
        if op in ("call", "invoke"):
            return self.do_call(st, f, I, work, base_depth, until)
        if op == "unreachable":
            self.prove(st, z3.BoolVal(False), f"unreachable code reached in {f.fn.name}", "ub"); return "drop"
        if op == "select":
            c = self.val(st, IntTy(1), I.a[0][1]); a = self.val(st, *I.a[1]); b = self.val(st, *I.a[2])
            if isinstance(c, bool): env[I.res] = a if c else b
            else:
                m = self.merge(st, c, a, b, I.ty)
                if m is None:
                    t, e = self.branch(st, c)
                    if e is not None and t is not None:
                        e.frames[-1].env[I.res] = b; e.frames[-1].idx += 1; work.append(e)
                        t.frames[-1].env[I.res] = a
                    elif t is not None: env[I.res] = a
                    elif e is not None: env[I.res] = b
                    else: return "drop"
                else: env[I.res] = m
            f.idx += 1
            return None
        self.simple(st, f, I)
        f.idx += 1
        return None

    def pending_add(self, work, r):
        # terminal outcome discovered while another branch continues: queue through a pseudo state
        self.pstack[-1].append(r)

    def merge(self, st, c, a, b, ty):
        ty = self.m.resolve(ty)
        if isinstance(ty, IntTy):
            if ty.w == 1: return self.sb(z3.If(c, self.b(a), self.b(b)))
            if isinstance(a, PtrI) or isinstance(b, PtrI): return None
            if self.mode == "bv": return z3.simplify(z3.If(c, a, b))
            if a.same(b): return a
            return None if st is not None and not self.dry and self.fork_select else self.ite(c, a, b)
        if isinstance(ty, FloatTy): return z3.If(c, a, b)
        if isinstance(ty, PtrTy):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.off.same(b.off):
                if not isinstance(a, NPtr) and not isinstance(b, NPtr): return a
                na, nb = (x.null if isinstance(x, NPtr) else z3.BoolVal(False) for x in (a, b)); return NPtr(a.r, a.off, z3.simplify(z3.If(c, na, nb)))
            return None
        return None
    fork_select = True

    def ite(self, c, a, b):
        t = z3.If(c, self.z(a), self.z(b))
        la, ha = self.interval(a); lb, hb = self.interval(b)
        if la is not None and lb is not None: self.set_range(t, min(la, lb), max(ha, hb))
        else: self.keep.append(t)
        return atom(t)

    def ret(self, st, f, v, base_depth, until):
        st.frames.pop()
        depth = len(st.frames)
        while st.loops and st.loops[-1][0] > depth:
            d, L, lid = st.loops.pop()
            if until == lid: return (st, "exit", None)
        if depth < base_depth: return (st, "ret", v)
        g = st.frames[-1]
        if f.res is not None: g.env[f.res] = v
        # continue after the call
        C = g.fn.blocks[g.blk].ins[g.idx]
        if C.op == "invoke":
            return self.goto(st, g, C.x["to"][0], self._work, base_depth, until)
        g.idx += 1
        return None

    def simple(self, st, f, I):
        op = I.op; env = f.env
        if op in BINOPS:
            env[I.res] = self.binop(st, op, I.ty, self.val(st, *I.a[0]), self.val(st, *I.a[1]), I.x["flags"])
        elif op == "fneg": env[I.res] = -self.val(st, *I.a[0])
        elif op in CASTS: env[I.res] = self.cast(st, op, self.val(st, *I.a[0]), I.a[0][0], I.ty)
        elif op == "icmp": env[I.res] = self.icmp(st, I.x["pred"], I.a[0][0], self.val(st, *I.a[0]), self.val(st, *I.a[1]))
        elif op == "fcmp": env[I.res] = self.fcmp(I.x["pred"], self.val(st, *I.a[0]), self.val(st, *I.a[1]))
        elif op == "alloca":
            n = 1
            if I.x["n"] is not None:
                nv = self.val(st, *I.x["n"])
                if not (isinstance(nv, Lin) and nv.is_const()) and not z3.is_bv_value(nv): raise Unsupported("variable alloca")
                n = nv.c if isinstance(nv, Lin) else nv.as_long()
            r = self.new_region(st, f"local_{f.fn.name[:30]}_{I.res}", self.m.size(I.x["ety"]) * n)
            self.embed_arrays(st, r, I.x["ety"], 0)
            env[I.res] = Ptr(r.id, Lin(0))
        elif op == "load": env[I.res] = self.load(st, self.val(st, *I.a[0]), I.ty)
        elif op == "store": self.store(st, self.val(st, *I.a[1]), I.a[0][0], self.val(st, *I.a[0]))
        elif op == "getelementptr":
            base = self.val(st, *I.a[0])
            env[I.res] = self.gep(st, I.x["bt"], base, [(t, self.val(st, t, v)) for t, v in I.a[1:]])
        elif op == "extractvalue":
            v = self.val(st, *I.a[0])
            for i in I.x["idx"]: v = v[i]
            env[I.res] = v
        elif op == "insertvalue":
            v = self.val(st, *I.a[0]); e = self.val(st, *I.a[1])
            env[I.res] = self.insertv(v, I.x["idx"], e)
        elif op == "freeze": env[I.res] = self.val(st, *I.a[0])
        elif op == "extractelement":
            v = self.val(st, *I.a[0]); i = self.val(st, *I.a[1])
            env[I.res] = v[i.c if isinstance(i, Lin) else i.as_long()]
        elif op == "insertelement":
            v = list(self.val(st, *I.a[0])); i = self.val(st, *I.a[2]); v[i.c if isinstance(i, Lin) else i.as_long()] = self.val(st, *I.a[1])
            env[I.res] = v
        elif op == "fence": pass
        else: raise Unsupported(f"instruction {I.text[:100]}")

    def insertv(self, v, idx, e):
        v = list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = self.insertv(v[idx[0]], idx[1:], e)
        return v

    def embed_arrays(self, st, r, ty, off):
        """give arrays embedded in a local object their own sub-region (so they can be indexed symbolically)"""
        ty = self.m.resolve(ty)
        if isinstance(ty, StructTy):
            offs, _ = self.m.layout(ty)
            for o, e in zip(offs, ty.els): self.embed_arrays(st, r, e, off + o)
        elif isinstance(ty, ArrTy) and ty.n > 1:
            el = self.m.resolve(ty.el); sz = self.m.size(el)
            if isinstance(el, IntTy) and el.w == 8: return
            if isinstance(el, (IntTy, FloatTy)):
                if off == 0 and r.size.is_const() and r.size.c == sz * ty.n:
                    r.kind = "array"; r.stride = sz; r.fields[0] = (el, self.new_array(r.name, el)); return
                sub = self.array_region(st, r.name + f"+{off}", Lin(ty.n), sz, {0: (el, None)})
                self.add_sub(st, r, off, sub)

    # ------------------------------------------------------------------------------------------- loops
    # A loop is cut at its header: the variables it modifies (found by symbolic dry runs of the body, to a fixpoint) are havocked,
    # candidate invariants are generated (induction variables in closed form, iteration history, closed forms of element-wise
    # stores, plus the contract's templates), candidates that do not hold initially or are not preserved by every path through
    # the body are discarded (Houdini), and execution goes on from the header under the survivors.

    def ilt(self, a, b): return a < b if self.mode == "int" else z3.ULT(a, b)
    def ile(self, a, b): return a <= b if self.mode == "int" else z3.ULE(a, b)
    def izero(self): return z3.IntVal(0) if self.mode == "int" else z3.BitVecVal(0, 64)
    def ione(self): return z3.IntVal(1) if self.mode == "int" else z3.BitVecVal(1, 64)
    def isort(self): return z3.IntSort() if self.mode == "int" else z3.BitVecSort(64)

    def sx(self, n):
        if self.mode == "int": return n
        n %= 1 << 64
        return n - (1 << 64) if n >= 1 << 63 else n

    def tolin(self, t): return self.lin(t) if self.mode == "int" else self.bvlin(t)

    def val_delta(self, h, b, ty):
        """b - h as Lin or None"""
        ty = self.m.resolve(ty)
        if isinstance(ty, PtrTy):
            if isinstance(h, Ptr) and isinstance(b, Ptr) and h.r == b.r: return b.off - h.off
            return None
        if isinstance(ty, IntTy) and ty.w > 1:
            if self.mode == "int":
                if isinstance(h, Lin) and isinstance(b, Lin): return b - h
                return None
            d = z3.simplify(b - h)
            if z3.is_bv_value(d): return Lin(d.as_signed_long())
            return None
        return None

    def same_val(self, a, b):
        if a is b: return True
        if isinstance(a, Lin) and isinstance(b, Lin): return a.same(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r == b.r and (a.off.same(b.off)) and isinstance(a, NPtr) == isinstance(b, NPtr) and (not isinstance(a, NPtr) or a.null.eq(b.null))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if isinstance(a, bool) or isinstance(b, bool): return isinstance(a, bool) and isinstance(b, bool) and a == b
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        return False

    def lin_val(self, entry, step, k, ty):
        """entry + step*k"""
        ty = self.m.resolve(ty)
        def mul(s):
            if s.is_const(): return atom(k, s.c) if self.mode == "int" or isinstance(ty, PtrTy) else s.c
            t = self.z(s) * k; self.keep.append(t); return atom(t)
        if isinstance(ty, PtrTy): return Ptr(entry.r, entry.off + mul(step))
        if self.mode == "int": return entry + mul(step)
        kk = k if ty.w == 64 else z3.Extract(ty.w - 1, 0, k)
        return z3.simplify(entry + kk * z3.BitVecVal(step.c, ty.w))

    def cut_loop(self, st, f, header):
        fn = f.fn; cfg = self.cfg(fn)
        L = {"header": header, "blocks": cfg["loops"][header]}
        depth = len(st.frames); lid = ("L", next(_fresh))
        E = st; self.phis(E, E.frames[-1], header)
        blk = fn.blocks[header]
        phis = [(I.res, I.ty) for I in blk.ins if I.op == "phi"]
        lname = f"{self.dem.get(fn.name, fn.name)[:60]} loop {list(cfg['loops']).index(header)}"
        logbase = len(E.log)
        cells = {}      # (rid, off) -> ty
        elems = {}      # (rid, field) -> ty
        plan = {}       # ('p',reg) / ('c',rid,off) -> ('fresh',) | ('lin',step) | ('inv',)
        for r, ty in phis: plan[("p", r)] = ("fresh",)
        tys = {("p", r): ty for r, ty in phis}

        def entry_val(key):
            if key[0] == "p": return E.frames[-1].env[key[1]]
            r = E.mem[key[1]]
            if key[2] in r.cells and self.m.size(r.cells[key[2]][0]) == self.m.size(tys[key]): return self.repun(E, r.cells[key[2]][1], r.cells[key[2]][0], tys[key])
            return None

        def cur_val(S, key):
            if key[0] == "p": return S.frames[-1].env[key[1]]
            r = S.mem[key[1]]
            if key[2] in r.cells:
                ty, v = r.cells[key[2]]
                if self.m.size(ty) == self.m.size(tys[key]): return self.repun(S, v, ty, tys[key])
            return None

        def make():
            """header state with the modified variables havocked"""
            H = E.copy(); H.loops.append((depth, L, lid)); del H.log[:]; H.log.extend(E.log)
            k = z3.Const(f"k!{next(_fresh)}", self.isort())
            if self.mode == "int": self.ranges[k.get_id()] = (k, 0, None)
            hv = {}; arrs = {}
            for key, p in plan.items():
                ty = self.m.resolve(tys[key]); ev = entry_val(key)
                if p[0] == "inv": continue
                if p[0] == "lin": v = self.lin_val(ev, p[1], k, ty)
                elif p[0] == "null": v = NULL
                elif p[0] == "nptr":
                    D = z3.Const(f"D!{next(_fresh)}", self.isort()); v = NPtr(p[1], atom(D, p[2]), z3.Bool(f"null!{next(_fresh)}"))
                elif isinstance(ty, PtrTy):
                    if isinstance(ev, Ptr) and ev.r is None and p[0] == "fresh": plan[key] = ("null",); v = NULL; hv[key] = v; H.frames[-1].env.__setitem__(key[1], v) if key[0] == "p" else None; continue
                    if isinstance(ev, NPtr): plan[key] = ("nptr", ev.r, E.mem[ev.r].stride or 1); return make()
                    if ev is None and key[0] == "c": undef.add(key); del plan[key]; return make()
                    if not isinstance(ev, Ptr): raise Unsupported(f"loop-carried pointer without known target in {lname}")
                    if ev.r is None: raise Unsupported(f"loop-carried null pointer in {lname}")
                    g = E.mem[ev.r].stride or self.phi_stride(fn, L, key) or 1
                    if self.mode == "int": D = z3.Int(f"D!{next(_fresh)}")
                    else: D = z3.BitVec(f"D!{next(_fresh)}", 64)
                    v = Ptr(ev.r, ev.off + atom(D, g))
                else: v = self.fresh(ty, f"h_{key[-1]}")
                hv[key] = v
                if key[0] == "p": H.frames[-1].env[key[1]] = v
                else:
                    r = H.wr(key[1])
                    for o in [o for o, cv in r.cells.items() if o != key[2] and o < key[2] + self.m.size(ty) and key[2] < o + self.m.size(cv[0])]: del r.cells[o]
                    r.cells[key[2]] = (tys[key], v)
                    H.log.append((key[1], "cell", key[2], tys[key], v))
            for (rid, fo), ty in elems.items():
                r = H.wr(rid)
                if fo in r.fields:
                    a = self.new_array(r.name + "_h", r.fields[fo][0]); arrs[(rid, fo)] = a; r.fields[fo] = (r.fields[fo][0], a)
                    H.log.append((rid, "elem", fo, None, None))
            return H, k, hv, arrs

        def body(H):
            self.dry += 1
            try:
                outs = self.run([H.copy()], depth, lid)
            finally: self.dry -= 1
            # iterations that free an object existing before the loop (a vector that reallocates): not part of the invariant; once the
            # invariants are known it is checked that there are none
            def kept(s): return all(s.mem[r].alive for r, x in E.mem.items() if x.alive and r in s.mem)
            freed[0] = any(o == "backedge" and not kept(s) for s, o, v in outs)
            outs = [q for q in outs if q[1] != "backedge" or kept(q[0])]
            return [s for s, o, v in outs if o == "backedge"], outs
        freed = [False]; undef = set()

        # ---- write set and induction variables
        self.havoc_only += 1
        try:
            for it in range(40):
                H, k, hv, arrs = make()
                hbase = len(H.log)
                hpc = len(H.pc)
                backs, outs = body(H)
                changed = False
                for S, o, v in outs:
                    for ent in S.log[hbase:]:
                        rid = ent[0]
                        if rid not in E.mem: continue
                        if ent[1] == "cell":
                            if E.mem[rid].kind == "array": continue
                            key = ("c", rid, ent[2])
                            if key in undef: continue
                            if key not in plan:
                                plan[key] = ("fresh",); tys[key] = ent[3]; changed = True
                            elif self.m.size(self.m.resolve(ent[3])) > self.m.size(self.m.resolve(tys[key])): tys[key] = ent[3]; changed = True
                        else:
                            key = (rid, ent[2])
                            if key not in elems: elems[key] = True; changed = True
                    # regions whose shape was determined inside the body
                    for rid, r in S.mem.items():
                        e = E.mem.get(rid)
                        if e is None: continue
                        if r.kind == "array" and e.kind != "array":
                            self.to_array(E, e, r.stride); changed = True
                            for key in [q for q in plan if q[0] == "c" and q[1] == rid]: del plan[key]
                        elif r.kind == "array":
                            for fo in r.fields:
                                if fo not in e.fields:
                                    q = E.wr(rid); q.fields[fo] = (r.fields[fo][0], self.new_array(r.name, r.fields[fo][0])); changed = True
                        if e.alive and not r.alive and o == "backedge": raise Unsupported("object freed inside loop")
                if changed: continue
                # classify
                for key in list(plan):
                    p = plan[key]
                    ty = self.m.resolve(tys[key]); ev = entry_val(key)
                    if key[0] == "c" and ev is None:
                        # uninitialised before the loop: give it a definite (unknown) entry value
                        if isinstance(ty, PtrTy): 
                            plan.pop(key); undef.add(key); changed = True; continue      # still uninitialised at the header: reading it there is refused
                        r = E.wr(key[1]); r.cells[key[2]] = (tys[key], self.fresh(ty, "uninit")); ev = entry_val(key)
                    bv = [cur_val(S, key) for S in backs]
                    hvv = hv.get(key, ev)
                    if any(b is None for b in bv): raise Unsupported(f"cell changes type in loop ({lname})")
                    if p[0] == "inv":
                        if not all(self.same_val(b, hvv) for b in bv): plan[key] = ("fresh",); changed = True
                        continue
                    if not backs: continue
                    if p[0] == "nptr": continue
                    if isinstance(ty, PtrTy) and isinstance(ev, Ptr) and (ev.r is None or any(isinstance(b, Ptr) and (b.r is None or isinstance(b, NPtr)) for b in bv)) and not all(self.same_val(b, hvv) for b in bv):
                        rs = {b.r for b in bv + [ev] if isinstance(b, Ptr) and b.r is not None}
                        if len(rs) != 1 or next(iter(rs)) not in E.mem: raise Unsupported(f"loop-carried pointer to several objects in {lname}")
                        rr = next(iter(rs)); plan[key] = ("nptr", rr, E.mem[rr].stride or 1); changed = True; continue
                    if all(self.same_val(b, hvv) for b in bv) and p[0] != "inv":
                        plan[key] = ("inv",); changed = True; continue
                    ds = [self.val_delta(hvv, b, ty) for b in bv]
                    if p[0] == "lin":
                        if not all(d is not None and d.same(p[1]) for d in ds):
                            plan[key] = ("nolin",); changed = True
                        continue
                    if p[0] == "fresh" and all(d is not None for d in ds) and all(d.same(ds[0]) for d in ds):
                        d = ds[0]
                        if d.is_const() or self.mode == "int" and self.invariant_lin(d, hv, k):
                            plan[key] = ("lin", Lin(self.sx(d.c)) if d.is_const() else d); changed = True
                if not changed: break
            else: raise Unsupported(f"no fixpoint of the write set of {lname}")
        finally: self.havoc_only -= 1

        if not backs:
            E.loops.append((depth, L, lid)); return [E]
        if self.havoc_only:
            return [H]
        fresh_keys = [q for q, p in plan.items() if p[0] in ("fresh", "nolin", "nptr")]

        def symbols(H, k, hv, arrs):
            """[(symbol, entry value, function back-state -> value)]"""
            out = []
            for key in fresh_keys:
                ty = self.m.resolve(tys[key]); h = hv[key]; ev = entry_val(key)
                if isinstance(h, NPtr):
                    (a, g), = h.off.t.values()
                    nul = lambda x: x.null if isinstance(x, NPtr) else z3.BoolVal(x.r is None)
                    def pos(x, r=h.r, g=g):
                        if x.r is None: return self.izero()
                        if x.r != r: raise Unsupported("loop-carried pointer changes object")
                        return self.z(self.exact_div(x.off, g))
                    out.append((a, pos(ev), lambda S, key=key, pos=pos: pos(cur_val(S, key)))); out.append((h.null, nul(ev), lambda S, key=key, nul=nul: nul(cur_val(S, key))))
                elif isinstance(ty, PtrTy):
                    # symbol D with off = entry.off + D*g
                    d = h.off - ev.off; (a, g), = d.t.values()
                    out.append((a, self.izero(), (lambda S, key=key, ev=ev, g=g: self.ptr_D(S, cur_val(S, key), ev, g))))
                elif isinstance(ty, IntTy) and ty.w > 1:
                    if self.mode == "int":
                        (a, n), = h.t.values()
                        out.append((a, self.z(self.as_u(E, ev, ty.w)), lambda S, key=key, w=ty.w: self.z(self.as_u(S, cur_val(S, key), w))))
                    else: out.append((h, ev, lambda S, key=key: cur_val(S, key)))
                elif isinstance(ty, (IntTy, FloatTy)):
                    out.append((h, self.b(ev), lambda S, key=key: self.b(cur_val(S, key))))
                else: raise Unsupported("loop variable of aggregate type")
            for q, a in arrs.items():
                out.append((a, E.mem[q[0]].fields[q[1]][1], lambda S, q=q: S.mem[q[0]].fields[q[1]][1]))
            return out

        syms = symbols(H, k, hv, arrs)

        def at_entry(c): return z3.substitute(c, *([(k, self.izero())] + [(s, e) for s, e, _ in syms]))

        def at_back(c, S):
            return z3.substitute(c, *([(k, k + self.ione())] + [(s, fb(S)) for s, _, fb in syms]))

        tnames = set()
        surv = []            # (name, formula) over the symbols of H

        def houdini(cands, tmo):
            nonlocal surv
            good = []
            for nm, c in cands:
                try:
                    if self.check_valid(E.pc, at_entry(c), tmo, self.inv_second or nm in tnames)[0] == "proved": good.append((nm, c))
                    elif self.debug: print("   base fails:", nm)
                except z3.Z3Exception as ex:
                    if self.debug: print("   base error:", nm, ex)
            cur = good
            while cur:
                H2 = H.copy()
                for nm, c in surv + cur: H2.assume(c)
                backs, _ = body(H2)
                keep = []
                for nm, c in cur:
                    ok = True
                    for S in backs:
                        t9 = time.time(); r9 = self.check_valid(S.pc, at_back(c, S), tmo, self.inv_second or nm in tnames)
                        if r9[0] != "proved":
                            ok = False
                            if self.debug: print("     ", nm, r9[0], r9[2][:100], f"{time.time() - t9:.1f}s q{self.nq}")
                            break
                    if ok: keep.append((nm, c))
                    elif self.debug: print("   step fails:", nm)
                if len(keep) == len(cur): break
                cur = keep
            surv = surv + cur
            return cur

        # ---- phase 1: bounds of induction variables
        conds = [[c for c in S.pc[hpc:]] for S in backs]
        cands = self.bound_candidates(conds, k, hv, H)
        if cands: houdini(cands, self.inv_timeout)
        # ---- phase 2: history, closed forms, templates
        H2 = H.copy()
        for nm, c in surv: H2.assume(c)
        hpc2 = len(H2.pc)
        mark = next(_fresh)
        backs, outs = body(H2)
        bad = {s.get_id() for s, _, _ in syms}
        hist = self.history(H2, [S.pc[hpc2:] for S in backs], k, bad, mark) if self.auto else []
        for i, (c) in enumerate(hist): surv.append((f"history{i}", c))     # valid by construction
        c2 = self.map_candidates(E, H2, backs, hpc2, k, arrs, bad, mark) if self.auto else []
        view = LoopView(); view.eng = self; view.k = k; view.st = H2; view.entry = E; view.facts = []; view.name = lname; view.fn = fn
        view.vars = []
        for key in plan:
            if plan[key][0] == "inv": continue
            ty = self.m.resolve(tys[key]); h = hv[key]; ev = entry_val(key)
            view.vars.append(dict(key=key, ty=ty, term=h, entry=ev, lin=plan[key][0] == "lin", step=plan[key][1] if plan[key][0] == "lin" else None))
        view.arrays = [dict(region=E.mem[q[0]], field=q[1], term=a, entry=E.mem[q[0]].fields[q[1]][1]) for q, a in arrs.items()]
        for t in self.loop_templates:
            for nm, c in t(view) or []:
                c2.append((nm, c)); tnames.add(nm)
        for fct in view.facts:
            H.assume(fct); E.assume(fct)
        if c2: houdini(c2, self.inv_timeout)
        if freed[0]:
            H3 = H.copy()
            for nm, c in surv: H3.assume(c)
            body(H3)
            if freed[0]: raise Unsupported("object freed inside loop")
        if not self.dry:
            for nm, c in surv: self.obls.append(Obl(f"{lname}: invariant {nm}", "proved", "z3/cvc5 (base and step)", 0.0, "", "invariant"))
            self.loop_report.append((lname, [nm for nm, _ in surv], [self.keyname(q) for q in fresh_keys]))
            if self.debug: print("  LOOP", lname, "plan", {self.keyname(q): (p[0] if p[0] != "lin" else f"lin {p[1]}") for q, p in plan.items()}, "inv", [(nm, str(c)[:200]) for nm, c in surv])
        for nm, c in surv: H.assume(c)
        return [H]

    def keyname(self, q): return q[1] if q[0] == "p" else f"cell{q[1]}+{q[2]}"

    def ptr_D(self, S, p, ev, g):
        if not isinstance(p, Ptr) or p.r != ev.r: raise Unsupported("loop-carried pointer changes object")
        return self.z(self.exact_div(p.off - ev.off, g))

    def phi_stride(self, fn, L, key):
        """granularity of the pointer arithmetic on a loop-carried pointer (checked again where its steps are computed)"""
        from math import gcd
        if key[0] != "p":
            g = 0
            for b in L["blocks"]:
                for I in fn.blocks[b].ins:
                    if I.op == "getelementptr" and len(I.a) == 2 and not isinstance(self.m.resolve(I.x["bt"]), StructTy):
                        try: g = gcd(g, self.m.size(I.x["bt"]) * (abs(I.a[1][1][1]) or 1 if I.a[1][1][0] == "int" else 1))
                        except Exception: return None
            return g or None
        g = 0; regs = {key[1]}
        for _ in range(3):
            for b in L["blocks"]:
                for I in fn.blocks[b].ins:
                    if I.op == "getelementptr" and I.a[0][1] in [("reg", r) for r in regs]:
                        regs.add(I.res)
                        try:
                            if len(I.a) > 2: return None
                            ity, iv = I.a[1]
                            n = self.m.size(I.x["bt"]) * (iv[1] if iv[0] == "int" else 1)
                        except Exception: return None
                        g = gcd(g, abs(n))
        return g or None

    def invariant_lin(self, d, hv, k):
        bad = {k.get_id()}
        for v in hv.values():
            if isinstance(v, Lin): bad |= {a.get_id() for a, n in v.t.values()}
            elif isinstance(v, Ptr): bad |= {a.get_id() for a, n in v.off.t.values()}
            elif z3.is_expr(v): bad.add(v.get_id())
        mk = int(str(k).split("!")[1])
        for a, n in d.t.values():
            for i, x in free_consts(a).items():
                if i in bad: return False
                nm = str(x)
                if "!" in nm and nm.rsplit("!", 1)[1].isdigit() and int(nm.rsplit("!", 1)[1]) >= mk: return False
        return True

    def conjuncts(self, c):
        if z3.is_and(c):
            for x in c.children(): yield from self.conjuncts(x)
        elif z3.is_not(c) and z3.is_or(c.children()[0]):
            for x in c.children()[0].children(): yield from self.conjuncts(z3.Not(x))
        else: yield c

    def strip_mod(self, t):
        if self.mode != "int": return t
        subs = []
        seen = set(); stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(x.children()[1]) and x.children()[1].as_long() >= 2 ** 8:
                subs.append((x, x.children()[0]))
            stack.extend(x.children())
        return z3.substitute(t, *subs) if subs else t

    def kcoef(self, l, k):
        """(coefficient of k in Lin l, True if k occurs nowhere else)"""
        c = 0
        for i, (a, n) in l.t.items():
            if a.eq(k): c = n
            elif k.get_id() in free_consts(a): return None
        return self.sx(c)

    def bound_candidates(self, conds, k, hv, H):
        out = []; seen = set()
        Z = self.izero()
        for pcs in conds:
            for e in pcs:
                for c in self.conjuncts(e):
                    if has_quant(c) or k.get_id() not in free_consts(c): continue
                    c0 = c; c = self.strip_mod(c)
                    neg = False; x = c
                    while z3.is_not(x): neg = not neg; x = x.children()[0]
                    kd = x.decl().kind()
                    if kd == z3.Z3_OP_DISTINCT and len(x.children()) == 2: neg = not neg; kd = z3.Z3_OP_EQ
                    if kd == z3.Z3_OP_EQ and neg:
                        a, b = x.children()
                        if a.sort() != self.isort(): continue
                        if self.mode == "int":
                            d = self.tolin(a) - self.tolin(b); s = self.kcoef(d, k)
                            if not s: continue
                            cand = self.z(d) <= 0 if s > 0 else self.z(d) >= 0
                        else:
                            d = self.bvlin(a) - self.bvlin(b); s = self.kcoef(d, k)
                            if s not in (1, -1): continue
                            rest = d - Lin(0, {k.get_id(): (k, s)})
                            N = self.z(rest * (-s))
                            cand = z3.ULE(k, N)
                    elif self.mode == "int" and kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                        cand = z3.Or(k == 0, z3.substitute(c, (k, k - 1)))
                    elif self.mode == "bv" and kd in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                        a, b = x.children()
                        cand = z3.Or(k == 0, z3.substitute(c, (k, k - 1)))
                        if kd == z3.Z3_OP_ULEQ and neg and z3.is_const(b): a, b = b, a
                    else: continue
                    cand = z3.simplify(cand)
                    if z3.is_true(cand) or cand.sexpr() in seen: continue
                    seen.add(cand.sexpr()); out.append((f"bound {len(out)}", cand))
        return out

    def closed(self, e, bad, mark):
        for i, x in free_consts(e).items():
            if i in bad: return False
            nm = str(x)
            if "!" in nm:
                t = nm.rsplit("!", 1)[1]
                if t.isdigit() and int(t) > mark: return False
        return True

    def selects(self, e):
        out = []; seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x): continue
            seen.add(x.get_id())
            if z3.is_select(x): out.append(x)
            stack.extend(x.children())
        return out

    def quantify(self, body_of_k, k, upto):
        """forall j < upto: body(j), re-indexed by each array access it contains; list of formulas"""
        Z = self.izero()
        b = body_of_k
        idxs = []
        for s in self.selects(b):
            a, i = s.children()
            if k.get_id() in free_consts(a): continue
            l = self.tolin(i); c = self.kcoef(l, k)
            if c in (1, -1) or c and self.mode == "int":
                rest = l - Lin(0, {k.get_id(): (k, c)})
                key = (c, z3.simplify(self.z(rest)).sexpr(), a.get_id())
                if key not in [q[0] for q in idxs]: idxs.append((key, a, c, rest))
        out = []
        if not idxs: return out      # nothing but arithmetic: the instance at k-1 says as much
        for key, a, c, rest in idxs[:4]:
            i = z3.Const(f"i!{next(_fresh)}", self.isort())
            zr = self.z(rest)
            n = abs(c)
            jj = z3.simplify(((i - zr) if c > 0 else (zr - i)) if n == 1 else ((i - zr) / n if c > 0 else (zr - i) / n))
            bb = z3.substitute(b, (k, jj)); bb = self.simp_sel(bb)
            rng = z3.And(self.ile(Z, jj), self.ilt(jj, upto)) if self.mode == "int" else self.ilt(jj, upto)
            if n > 1:
                # i is one of the indices visited: i = rest + c * j exactly
                bsel = z3.substitute(b, *[(x, z3.Select(x.children()[0], i)) for x in self.selects(b) if x.children()[0].eq(a) and self.tolin(x.children()[1]).same(l)])
                if k.get_id() in free_consts(bsel): bsel = z3.substitute(bsel, (k, jj))
                bb = bsel; rng = z3.And(rng, (((i - zr) if c > 0 else (zr - i)) % n) == 0)
            pats = [s for s in self.selects(bb) if s.children()[1].eq(i) and s.children()[0].eq(a)]
            out.append(z3.ForAll([i], z3.Implies(rng, bb), patterns=[pats[0]]) if pats else z3.ForAll([i], z3.Implies(rng, bb)))
        return out

    def simp_sel(self, e):
        return z3.simplify(e, som=True, arith_lhs=False) if self.mode == "int" else z3.simplify(e)

    def history(self, H, conds, k, bad, mark):
        """what the path conditions say about iterations already completed"""
        alts = []
        for pcs in conds:
            cs = [c for e in pcs for c in self.conjuncts(e) if not has_quant(c) and self.closed(c, bad, mark)]
            if not any(k.get_id() in free_consts(c) for c in cs): 
                return []
            alts.append(z3.And(cs) if len(cs) > 1 else cs[0])
        if not alts: return [k == 0]
        # common conjuncts first
        g = z3.simplify(z3.Or(alts)) if len(alts) > 1 else alts[0]
        if z3.is_true(g): return []
        out = []
        parts = list(self.conjuncts(g))
        for p in parts:
            facts = self.range_facts(p)
            out.extend(self.quantify(p, k, k))
        out.append(z3.Or(k == self.izero(), z3.substitute(g, (k, k - self.ione()))))
        out.append(z3.Or(k == self.izero(), z3.substitute(g, (k, self.izero()))))
        return out

    def map_candidates(self, E, H, backs, hpc, k, arrs, bad, mark):
        out = []
        Z = self.izero()
        nlog = len(H.log)
        for q, A in arrs.items():
            rid, fo = q
            Ae = E.mem[rid].fields[fo][1]
            idxs = {}; ok = True
            for S in backs:
                for ent in S.log[nlog:]:
                    if ent[0] == rid and ent[1] == "elem" and ent[2] == fo:
                        if ent[3] is None: ok = False; continue
                        c = self.kcoef(ent[3], k)
                        if c not in (1, -1): 
                            ok = False; continue
                        rest = ent[3] - Lin(0, {k.get_id(): (k, c)})
                        if not self.closed(self.z(rest), bad, mark): ok = False; continue
                        idxs[(c, rest.key())] = (c, rest)
            if self.debug: print("   map", E.mem[rid].name, [(ent[3], self.kcoef(ent[3], k) if ent[3] is not None else None) for S in backs for ent in S.log[nlog:] if ent[0] == rid and ent[1] == "elem"], "arrays", [E.mem[x[0]].name for x in arrs], idxs)
            if not idxs: continue
            j = z3.Const(f"j!{next(_fresh)}", self.isort())
            touched = []
            for c, rest in idxs.values():
                zr = self.z(rest); kk = (j - zr) if c == 1 else (zr - j)
                touched.append(z3.And(self.ile(Z, kk), self.ilt(kk, k)) if self.mode == "int" else self.ilt(kk, k))
            if ok:
                out.append((f"frame of {E.mem[rid].name}", z3.ForAll([j], z3.Or(touched + [A[j] == Ae[j]]), patterns=[A[j]])))
            for c, rest in idxs.values():
                zi = self.z(rest + Lin(0, {k.get_id(): (k, c)}))
                upd = None
                alts = []
                for S in backs:
                    v = z3.simplify(z3.Select(S.mem[rid].fields[fo][1], zi))
                    cs = [x for e in S.pc[hpc:] for x in self.conjuncts(e) if not has_quant(x)]
                    alts.append((cs, v))
                # conditions that distinguish the alternatives
                common = set.intersection(*[{x.get_id() for x in cs} for cs, _ in alts])
                upd = alts[-1][1]
                for cs, v in alts[-2::-1]:
                    cc = [x for x in cs if x.get_id() not in common]
                    upd = z3.If(z3.And(cc), v, upd) if cc else v
                sub = [(A, Ae)] + [(a2, E.mem[q2[0]].fields[q2[1]][1]) for q2, a2 in arrs.items() if q2 != q]
                upd = z3.substitute(upd, *sub)
                if not self.closed(upd, bad, mark): continue
                zr = self.z(rest); kk = z3.simplify((j - zr) if c == 1 else (zr - j))
                u = self.simp_sel(z3.substitute(upd, (k, kk)))
                rng = z3.And(self.ile(Z, kk), self.ilt(kk, k)) if self.mode == "int" else self.ilt(kk, k)
                out.append((f"closed form of {E.mem[rid].name}", z3.ForAll([j], z3.Implies(rng, A[j] == u), patterns=[A[j]])))
        return out

    # ------------------------------------------------------------------------------------------- calls
    def do_call(self, st, f, I, work, base_depth, until):
        self._work = work
        callee = I.x["callee"]
        if callee[0] == "asm":
            if I.res is not None and I.res in ("",): pass
            if I.ty is not None and not isinstance(I.ty, VoidTy): raise Unsupported("inline asm result")
            return self.after_call(st, f, I, None, work, base_depth, until)
        if callee[0] == "reg":
            fp = self.val(st, ir.PTR, callee)
            if not isinstance(fp, FnPtr): raise Unsupported("indirect call")
            name = fp.name
        else:
            name = callee[1]
            while name in self.m.aliases: name = self.m.aliases[name]
        args = [self.val(st, t, v) if not (isinstance(t, MiscTy)) else None for t, v in I.a]
        # contracts
        con = self.contracts.get(name)
        if con is None and self.contract_rx:
            d = self.dem.get(name, name)
            for rx, c in self.contract_rx:
                if rx.search(d): con = c; break
        if con is not None:
            self.contracts_used.add(con.name)
            outs = con.apply(self, st, args, I)
            return self.fan_out(outs, I, work, base_depth, until)
        b = self.builtin(st, name, args, I)
        if b is not None:
            return self.fan_out(b, I, work, base_depth, until)
        fn = self.m.functions.get(name)
        if fn is not None and not fn.is_decl:
            depth = sum(1 for g in st.frames if g.fn.name == name)
            if depth >= (1 if self.unroll is None else 4): raise Unsupported(f"recursive call of {name}")
            self.push_frame(st, fn, args, I.res)
            return None
        if fn is not None and fn.noreturn:
            r = self.raise_(st, base_depth, "throw", until)
            return r if r is not None else "drop"
        d = self.dem.get(name, name)
        raise Unsupported(f"external function {d}")

    def fan_out(self, outs, I, work, base_depth, until):
        if not outs: return "drop"
        for (s, v) in outs[1:]:
            r = self.after_call(s, s.frames[-1], I, v, work, base_depth, until)
            if r is None: work.append(s)
            elif isinstance(r, tuple): self.pending_add(work, r)
        s, v = outs[0]
        r = self.after_call(s, s.frames[-1], I, v, work, base_depth, until)
        if r is None:
            work.append(s); return "drop"
        return r

    def after_call(self, st, f, I, v, work, base_depth, until):
        if isinstance(v, str) and v == "throw":
            r = self.raise_(st, base_depth, "throw", until)
            return r if r is not None else "drop"
        if I.res is not None: f.env[I.res] = v
        if I.op == "invoke": return self.goto(st, f, I.x["to"][0], work, base_depth, until)
        f.idx += 1
        return None

    def as_n(self, st, v):
        """size argument as Lin"""
        if self.mode == "int": return self.as_u(st, v, 64)
        return self.bvlin(v)

    def builtin(self, st, name, args, I):
        if name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.var.annotation", "llvm.prefetch")): return [(st, None)]
            if name.startswith("llvm.assume"):
                return [(st, None)]
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                self.copy_mem(st, args[0], args[1], self.as_n(st, args[2])); return [(st, None)]
            if name.startswith("llvm.memset"):
                self.set_mem(st, args[0], args[1], self.as_n(st, args[2])); return [(st, None)]
            if name.startswith("llvm.expect"): return [(st, args[0])]
            if name.startswith("llvm.is.constant"): return [(st, False)]
            if name.startswith("llvm.launder") or name.startswith("llvm.strip"): return [(st, args[0])]
            if name.startswith("llvm.fabs"): return [(st, z3.If(args[0] >= 0, args[0], -args[0]))]
            if name.startswith(("llvm.fmuladd", "llvm.fma")): return [(st, args[0] * args[1] + args[2])]
            mm = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", name)
            if mm:
                w = int(mm.group(2)); sg = mm.group(1)[0]; mn = mm.group(1)[1:] == "min"
                c = self.icmp(st, ("slt" if sg == "s" else "ult"), IntTy(w), args[0], args[1])
                a, b = (args[0], args[1]) if mn else (args[1], args[0])
                if isinstance(c, bool): return [(st, a if c else b)]
                if self.mode == "bv": return [(st, z3.simplify(z3.If(c, a, b)))]
                outs = []
                t, e = self.branch(st, c)
                if t is not None: outs.append((t, a))
                if e is not None: outs.append((e, b))
                return outs
            if name.startswith("llvm.abs.i"):
                w = int(name[len("llvm.abs.i"):].split(".")[0])
                if self.mode == "bv": return [(st, z3.simplify(z3.If(args[0] < 0, -args[0], args[0])))]
                x = self.as_s(st, args[0], w); t, e = self.branch(st, self.sb(self.z(x) < 0)); outs = []
                if t is not None: outs.append((t, -x))
                if e is not None: outs.append((e, x))
                return outs
            mm = re.match(r"llvm\.(ctpop|cttz|ctlz)\.i(\d+)", name)
            if mm:
                w = int(mm.group(2))
                return [(st, self.bitcount(st, mm.group(1), w, args[0]))]
            mm = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", name)
            if mm and self.mode == "int":
                w = int(mm.group(3)); f = self.as_u if mm.group(1) == "u" else self.as_s
                x, y = f(st, args[0], w), f(st, args[1], w)
                r = self.binop(st, mm.group(2), IntTy(w), x, y, set())
                z = self.z(r); lo, hi = (0, (1 << w) - 1) if mm.group(1) == "u" else (-(1 << (w-1)), (1 << (w-1)) - 1)
                ov = self.sb(z3.Or(z < lo, z > hi))
                return [(st, [r, ov])]
            if name.startswith("llvm.umul.with.overflow.i64") and self.mode == "bv":
                a, b = args
                return [(st, [a * b, self.sb(z3.Not(z3.BVMulNoOverflow(a, b, False)))])]
            mm = re.match(r"llvm\.(maxnum|minnum)", name)
            if mm: return [(st, z3.If((args[0] > args[1]) if mm.group(1) == "maxnum" else (args[0] < args[1]), args[0], args[1]))]
            raise Unsupported(f"intrinsic {name}")
        if name in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc"):
            n = self.as_n(st, args[0])
            r = self.new_region(st, f"heap_{next(_fresh)}", n, "heap")
            self.assumptions.add("operator new succeeds and returns fresh storage of the requested size")
            return [(st, Ptr(r.id, Lin(0)))]
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t"):
            p = args[0]
            if isinstance(p, Ptr) and p.r is not None:
                r = st.mem[p.r]
                if not r.alive: self.prove(st, z3.BoolVal(False), f"double free of {r.name}", "bounds")
                if not (p.off.is_const() and p.off.c == 0): self.prove(st, self.z(p.off) == 0, "free of interior pointer", "bounds")
                r = st.wr(p.r); r.alive = False
            return [(st, None)]
        if name in ("memcpy", "memmove"):
            self.copy_mem(st, args[0], args[1], self.as_n(st, args[2])); return [(st, args[0])]
        if name == "memset":
            self.set_mem(st, args[0], args[1], self.as_n(st, args[2])); return [(st, args[0])]
        if name in ("memcmp", "bcmp"):
            return [(st, self.mem_cmp(st, args[0], args[1], self.as_n(st, args[2])))]
        if name == "__muldc3":
            a, b, c, d = args; return [(st, [a * c - b * d, a * d + b * c])]
        if name == "__assert_fail":
            self.prove(st, z3.BoolVal(False), "assertion in source reachable", "assert"); return []
        if name in ("__cxa_guard_acquire", "__cxa_guard_release", "__cxa_begin_catch", "__cxa_end_catch"):
            raise Unsupported(name)
        return None

    def mem_cmp(self, st, a, b, n):
        """memcmp used as an equality test: zero iff all elements of the range agree (the sign is left open)"""
        a = self.norm_ptr(st, a); b = self.norm_ptr(st, b)
        res = self.fresh_int("memcmp", 32); zr = self.z(res, 32)
        zero = z3.IntVal(0) if self.mode == "int" else z3.BitVecVal(0, 32)
        if n.is_const() and n.c == 0: return self.iconst(0, 32)
        if a.r is None or b.r is None:
            self.prove(st, self.z(n) == self.izero(), "memcmp on null with non-zero length", "bounds"); return self.iconst(0, 32)
        ra, rb = st.mem[a.r], st.mem[b.r]
        if ra.kind != "array" and rb.kind == "array": ra = self.to_array(st, ra, rb.stride)
        if rb.kind != "array" and ra.kind == "array": rb = self.to_array(st, rb, ra.stride)
        if ra.kind != "array" or rb.kind != "array" or ra.stride != rb.stride or 0 not in ra.fields or 0 not in rb.fields: raise Unsupported("memcmp of these regions")
        S = ra.stride
        if self.m.size(ra.fields[0][0]) != S or isinstance(ra.fields[0][0], FloatTy) or isinstance(rb.fields[0][0], FloatTy): raise Unsupported("memcmp of these regions")
        cnt, ai, bi = self.exact_div(n, S), self.exact_div(a.off, S), self.exact_div(b.off, S)
        if not self.dry:
            for r, i in ((ra, ai), (rb, bi)):
                if r.size is None: continue
                tot = self.exact_div(r.size, S)
                g = z3.Or(self.z(cnt) == self.izero(), z3.And(self.z(i) >= 0, self.z(tot - i - cnt) >= 0, self.z(cnt) >= 0) if self.mode == "int" else z3.And(z3.ULE(self.z(i), self.z(tot)), z3.ULE(self.z(cnt), self.z(tot) - self.z(i))))
                self.prove(st, g, f"memcmp: range within {r.name}", "bounds"); st.assume(g)
        A, B = ra.fields[0][1], rb.fields[0][1]
        zc = self.z(cnt)
        j = z3.Const(f"j!{next(_fresh)}", self.isort()); w = z3.Const(f"w!{next(_fresh)}", self.isort())
        za, zb = self.z(ai), self.z(bi)
        i = z3.Const(f"i!{next(_fresh)}", self.isort())
        inr = z3.And(self.ile(self.izero(), j), self.ilt(j, zc))
        st.assume(z3.Implies(zr == zero, z3.ForAll([j], z3.Implies(inr, A[za + j] == B[zb + j]))))
        inw = z3.And(self.ile(self.izero(), w), self.ilt(w, zc))
        st.assume(z3.Implies(zr != zero, z3.And(inw, A[za + w] != B[zb + w])))
        return res

    def bitcount(self, st, op, w, v):
        if self.mode != "bv":
            if v.is_const():
                x = v.c % (1 << w)
                if op == "ctpop": return Lin(bin(x).count("1"))
                if op == "cttz": return Lin(w if x == 0 else (x & -x).bit_length() - 1)
                return Lin(w - x.bit_length())
            # an uninterpreted function of the operand; only its range and its zero are used
            f = z3.Function(f"{op.upper()}{w}", z3.IntSort(), z3.IntSort())
            x = self.z(self.as_u(st, v, w)); r = self.fresh_int(op, w, 0, w); t = self.z(r)
            st.assume(t == f(x)); st.assume((x == 0) == (t == (0 if op == "ctpop" else w)))
            return r
        if op == "ctpop":
            r = z3.BitVecVal(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return r
        r = z3.BitVecVal(w, w)
        rng = range(w - 1, -1, -1) if op == "cttz" else range(w)
        for i in rng:
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i if op == "cttz" else w - 1 - i, w), r)
        return r
