"""Verification units: one function (or lemma) of /repo under contract, checked by the engine."""
import hashlib, time, traceback, re, os
import z3
import ir, engine, build
from engine import Engine, Lin, Ptr, NULL, Region, State, Unsupported, Budget, atom, Contract, Obl, Frame
from ir import IntTy, FloatTy, PtrTy

REG = []          # all units


class Unit:
    def __init__(self, prop, name, f, tu, mode, noinline, timeout, budget, bounded, fn, inline, defines):
        self.prop = prop; self.name = name; self.f = f; self.tu = tu; self.mode = mode; self.noinline = noinline
        self.timeout = timeout; self.budget = budget; self.bounded = bounded; self.fn = fn; self.inline = inline; self.defines = defines


def unit(prop, name, tu=None, mode="int", noinline=(), timeout=15000, budget=240, bounded=None, fn="", inline=True, defines=()):
    """fn: the real function(s) of /repo this contract is about; bounded: stated bound if loops are unrolled (never counted as proved)"""
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            REG.append(Unit(p, name, f, tu, mode, tuple(noinline), timeout, budget, bounded, fn, inline, tuple(defines)))
        return f
    return deco


_mods = {}


def module(tu, noinline=(), inline=True, defines=()):
    k = (tu, noinline, inline, defines)
    if k not in _mods:
        m = ir.parse(build.compile_tu(tu, noinline, defines=defines, inline=inline))
        dem = build.demangle(list(m.functions))
        _mods[k] = (m, dem)
    return _mods[k]


class E(Engine):
    """engine with the vocabulary contracts are written in"""

    def __init__(self, u, verbose=False):
        self.u = u
        if u.tu: m, dem = module(u.tu, u.noinline, u.inline, u.defines)
        else: m, dem = ir.parse(""), {}
        super().__init__(m, mode=u.mode, timeout=u.timeout, name=u.name, verbose=verbose)
        self.dem = dem
        self.deadline = time.time() + u.budget
        self.covers = []

    # ---- state construction
    def state(self): return State()

    def const(self, sym):
        """value of an exported integer constant of the translation unit (offsets and sizes of the real classes)"""
        ty, init, c = self.m.globals[sym]
        if init[0] == "zero": return 0
        return init[1]

    def arg(self, name, w, lo=None, hi=None, signed=False):
        if self.mode == "bv": return z3.BitVec(name, w)
        if signed and lo is None: lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self.fresh_int(name, w, lo, hi)

    def real(self, name): return z3.Real(f"{name}!{next(engine._fresh)}")

    def array(self, st, name, n, ty, rng=None):
        """fresh array object of n elements of type ty; returns (ptr, z3 array)"""
        sz = self.m.size(ty)
        if self.mode == "bv" and not isinstance(n, Lin): n = self.bvlin(n) if not isinstance(n, int) else Lin(n)
        r = self.array_region(st, name, n, sz, {0: (ty, None)})
        a = r.fields[0][1]
        if rng is not None: self.array_range(st, a, rng[0], rng[1])
        elif self.mode == "int" and isinstance(ty, IntTy): self.array_range(st, a, 0, (1 << ty.w) - 1)
        return Ptr(r.id, Lin(0)), a

    def array_range(self, st, a, lo, hi):
        """lo <= a[i] <= hi for every i (machine range of the element type, or a precondition)"""
        self.arr_range[a.get_id()] = (a, lo, hi)
        i = z3.Int(f"i!{next(engine._fresh)}")
        st.assume(z3.ForAll([i], z3.And(a[i] >= lo, a[i] <= hi), patterns=[a[i]]))

    def obj(self, st, name, size):
        r = self.new_region(st, name, size); return Ptr(r.id, Lin(0))

    def put(self, st, p, off, ty, v):
        if isinstance(ty, str): ty = {"i64": IntTy(64), "i32": IntTy(32), "i16": IntTy(16), "i8": IntTy(8), "ptr": ir.PTR, "f64": FloatTy("double")}[ty]
        self.store(st, p + off, ty, v); return v

    def get(self, st, p, off, ty):
        if isinstance(ty, str): ty = {"i64": IntTy(64), "i32": IntTy(32), "i16": IntTy(16), "i8": IntTy(8), "ptr": ir.PTR, "f64": FloatTy("double")}[ty]
        return self.load(st, p + off, ty)

    def arr_at(self, st, p, field=0):
        """z3 array currently held by the array object p points to"""
        p = self.norm_ptr(st, p)
        r = st.mem[p.r]; return r.fields[field][1]

    # ---- obligations
    def cover(self, st, name):
        """reachability of the state (guards against vacuous contracts)"""
        s = z3.Solver(); s.set("timeout", 5000)
        for e in st.pc:
            s.add(e)
            for f in self.range_facts(e): s.add(f)
        r = str(s.check())
        self.covers.append((name, r))
        return r

    def lemma(self, name, hyps, goal, timeout=None):
        st = self.state()
        for h in hyps: st.assume(h)
        if hyps:
            s = z3.Solver(); s.set("timeout", 3000)
            for h in hyps: s.add(h)
            self.covers.append((name + " hypotheses", str(s.check())))
        return self.prove(st, goal, name, "lemma", timeout)

    def check_outs(self, outs, n_ret=None, no_throw=True):
        rets = []
        for s, o, v in outs:
            if o == "ret": rets.append((s, v))
            elif o == "throw" and no_throw:
                self.prove(s, z3.BoolVal(False), "no exception under the precondition", "throw")
        return rets


def digest(u):
    """digest of everything a unit's proof depends on: the IR generated from /repo's current source, the generator and the contracts"""
    here = os.path.dirname(os.path.abspath(__file__))
    h = hashlib.sha256()
    if u.tu:
        try: txt = build.compile_tu(u.tu, u.noinline, defines=u.defines, inline=u.inline)
        except Exception: return ""
        h.update("\n".join(l for l in txt.split("\n") if not l.startswith(("; ModuleID", "source_filename", "!"))).encode())
    for f in ["engine.py", "ir.py", "unit.py", "build.py"]: h.update(open(os.path.join(here, f), "rb").read())
    for f in sorted(set(["polys.py", "words.py", u.f.__module__ + ".py"])): h.update(open(os.path.join(here, "contracts", f), "rb").read())
    return h.hexdigest()[:24]


def run_unit(u, verbose=False, debug=False):
    """a unit that is not proved is tried again with more time for its loop invariants"""
    r = run_unit1(u, verbose, debug)
    if r["status"] in ("failed", "unknown") and r["loops"] and r["seconds"] < u.budget / 2:
        r2 = run_unit1(u, verbose, debug, 8000)
        if r2["status"] in ("proved", "bounded", "failed"): r = r2
    return r


def run_unit1(u, verbose=False, debug=False, inv=None):
    """returns dict for evidence"""
    t0 = time.time()
    res = dict(unit=u.name, functions=u.fn, mode={"int": "exact machine integers as mathematical integers modulo 2^w",
               "bv": "bit-vectors"}[u.mode], bounded=u.bounded, status=None, obligations=[], detail="", functions_executed=[], loops=[],
               contracts_used=[], assumptions=[], covers=[])
    e = None
    try:
        e = E(u, verbose)
        e.debug = debug
        if inv: e.inv_timeout = inv; e.inv_second = True
        u.f(e)
        bad = [o for o in e.obls if o.status != "proved"]
        n = len(e.obls)
        vac = [c for c in e.covers if c[1] == "unsat"]
        if n == 0: res["status"] = "undecided"; res["detail"] = "no obligation generated"
        elif vac: res["status"] = "undecided"; res["detail"] = f"vacuous: {vac}"
        elif not bad: res["status"] = "bounded" if u.bounded else "proved"
        elif any(o.status == "failed" for o in bad): res["status"] = "failed"
        else: res["status"] = "unknown"
    except (Unsupported, Budget, build.ExtractError) as ex:
        res["status"] = "undecided"; res["detail"] = f"{type(ex).__name__}: {ex}"
        if debug: traceback.print_exc()
    except Exception as ex:
        res["status"] = "undecided"; res["detail"] = f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:]
        if debug: traceback.print_exc()
    if e is not None:
        res["obligations"] = [dict(name=o.name, status=o.status, backend=o.backend, seconds=round(o.t, 3), kind=o.kind, detail=o.detail[:3000]) for o in e.obls]
        res["functions_executed"] = sorted({e.dem.get(f, f)[:160] for f in e.called})
        res["loops"] = [dict(loop=a, invariants=b, havocked=c) for a, b, c in e.loop_report]
        res["contracts_used"] = sorted(e.contracts_used)
        res["assumptions"] = sorted(e.assumptions)
        res["covers"] = e.covers
        res["queries"] = e.nq; res["solver_seconds"] = round(e.tq, 2)
    res["seconds"] = round(time.time() - t0, 2)
    return res
