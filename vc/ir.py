"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the real sources."""
import re
from dataclasses import dataclass, field

# ----------------------------------------------------------------------------------------------- types

class Ty:
    __slots__ = ()

class IntTy(Ty):
    __slots__ = ("w",)
    def __init__(self, w): self.w = w
    def __repr__(self): return f"i{self.w}"

class FloatTy(Ty):
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return self.name

class PtrTy(Ty):
    def __repr__(self): return "ptr"

class VoidTy(Ty):
    def __repr__(self): return "void"

class ArrTy(Ty):
    __slots__ = ("n", "el")
    def __init__(self, n, el): self.n = n; self.el = el
    def __repr__(self): return f"[{self.n} x {self.el}]"

class VecTy(Ty):
    __slots__ = ("n", "el")
    def __init__(self, n, el): self.n = n; self.el = el
    def __repr__(self): return f"<{self.n} x {self.el}>"

class StructTy(Ty):
    __slots__ = ("els", "packed", "_lay")
    def __init__(self, els, packed=False): self.els = els; self.packed = packed; self._lay = None
    def __repr__(self): return "{" + ", ".join(map(repr, self.els)) + "}"

class NamedTy(Ty):
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return "%" + self.name

class MiscTy(Ty):
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return self.name

PTR = PtrTy(); VOID = VoidTy()

# ----------------------------------------------------------------------------------------------- tokens

TOK = re.compile(r'''
   c"(?:[^"])*"
 | "(?:[^"])*"
 | [%@$]"(?:[^"])*"
 | [%@$][A-Za-z0-9_.$\-]+
 | \![A-Za-z0-9_.]*
 | \#\d+
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | \.\.\.
 | [A-Za-z_][A-Za-z0-9_.]*
 | [()\[\]{}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class Cur:
    """token cursor"""
    __slots__ = ("t", "i")
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): 
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def accept(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        v = self.next()
        if v != x:
            raise SyntaxError(f"expected {x} got {v} in {' '.join(self.t)}")
    def done(self): return self.i >= len(self.t)


def unq(tok):
    """strip sigil and quotes"""
    t = tok[1:]
    if t.startswith('"'): t = t[1:-1]
    return t

# values: ('reg',name) ('glob',name) ('int',v) ('fp',v) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)..])
#         ('str',bytes) ('gep',ty,(ty,val),[(ty,val)..]) ('cast',op,(ty,val),toty) ('bin',op,a,b)

@dataclass
class Instr:
    op: str
    res: str = None
    ty: Ty = None
    a: list = field(default_factory=list)       # operand (ty,val) pairs, or op specific
    x: dict = field(default_factory=dict)       # extra
    text: str = ""


@dataclass
class Block:
    name: str
    ins: list = field(default_factory=list)


class Function:
    def __init__(self, name, ret, params, is_decl=False):
        self.name = name; self.ret = ret; self.params = params  # params: [(ty, regname, attrs)]
        self.is_decl = is_decl
        self.blocks = {}; self.order = []
        self.noreturn = False
        self._cfg = None


class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.functions = {}; self.attrs = {}; self.aliases = {}

    # ---- layout
    def resolve(self, t):
        while isinstance(t, NamedTy):
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if isinstance(t, IntTy):
            b = (t.w + 7) // 8
            p = 1
            while p < b: p *= 2
            return min(p, 16)
        if isinstance(t, PtrTy): return 8
        if isinstance(t, FloatTy): return {"float": 4, "double": 8, "x86_fp80": 16, "half": 2, "fp128": 16}[t.name]
        if isinstance(t, ArrTy): return self.align(t.el)
        if isinstance(t, VecTy): return self.size(t)
        if isinstance(t, StructTy):
            if t.packed or not t.els: return 1
            return max(self.align(e) for e in t.els)
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        if isinstance(t, IntTy): return self._up((t.w + 7) // 8, self.align(t))
        if isinstance(t, PtrTy): return 8
        if isinstance(t, FloatTy): return {"float": 4, "double": 8, "x86_fp80": 16, "half": 2, "fp128": 16}[t.name]
        if isinstance(t, ArrTy): return t.n * self.size(t.el)
        if isinstance(t, VecTy): return t.n * self.size(t.el)
        if isinstance(t, StructTy): return self.layout(t)[1]
        raise ValueError(t)

    @staticmethod
    def _up(x, a): return (x + a - 1) // a * a

    def layout(self, t):
        t = self.resolve(t)
        if t._lay is None:
            off = 0; offs = []
            for e in t.els:
                if not t.packed: off = self._up(off, self.align(e))
                offs.append(off); off += self.size(e)
            if not t.packed and t.els: off = self._up(off, self.align(t))
            t._lay = (offs, off)
        return t._lay


KWVAL = {"null", "undef", "poison", "true", "false", "zeroinitializer", "none"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
         "reassoc", "afn", "volatile", "atomic", "tail", "musttail", "notail", "samesign", "nusw"}


class Parser:
    def __init__(self, text):
        self.m = Module(); self.text = text

    # -- types
    def ty(self, c):
        t = c.next()
        if re.fullmatch(r"i\d+", t): r = IntTy(int(t[1:]))
        elif t == "ptr": r = PTR
        elif t == "void": r = VOID
        elif t in ("float", "double", "half", "x86_fp80", "fp128"): r = FloatTy(t)
        elif t in ("label", "metadata", "token", "opaque"): r = MiscTy(t)
        elif t[0] == "%": r = NamedTy(unq(t))
        elif t == "[":
            n = int(c.next()); c.expect("x"); el = self.ty(c); c.expect("]"); r = ArrTy(n, el)
        elif t == "<":
            if c.peek() == "{":
                c.next(); els = self._tylist(c, "}"); c.expect(">"); r = StructTy(els, True)
            else:
                n = int(c.next()); c.expect("x"); el = self.ty(c); c.expect(">"); r = VecTy(n, el)
        elif t == "{":
            r = StructTy(self._tylist(c, "}"))
        else:
            raise SyntaxError(f"type? {t} in {' '.join(c.t)}")
        # function type?
        while c.peek() == "(":
            depth = 0
            while True:
                x = c.next()
                if x == "(": depth += 1
                elif x == ")":
                    depth -= 1
                    if depth == 0: break
            r = MiscTy("fn"); r = (r)
        if c.peek() == "addrspace":
            c.next(); c.expect("("); c.next(); c.expect(")")
        return r

    def _tylist(self, c, end):
        els = []
        if c.accept(end): return els
        while True:
            els.append(self.ty(c))
            if c.accept(end): return els
            c.expect(",")

    # -- values
    def val(self, c, ty=None):
        t = c.next()
        if t[0] == "%": return ("reg", unq(t))
        if t[0] == "@": return ("glob", unq(t))
        if re.fullmatch(r"-?\d+", t):
            if isinstance(ty, FloatTy): return ("fp", float(t))
            return ("int", int(t))
        if t.startswith("0x"):
            import struct
            if t[2] in "KMLHR": return ("fp", 0.0)
            return ("fp", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", t): return ("fp", float(t))
        if t == "null": return ("null",)
        if t in ("undef", "poison"): return ("undef",)
        if t == "true": return ("int", 1)
        if t == "false": return ("int", 0)
        if t in ("zeroinitializer", "none"): return ("zero",)
        if t.startswith('c"'): return ("str", self._cstr(t[2:-1]))
        if t in ("{", "[", "<"):
            end = {"{": "}", "[": "]", "<": ">"}[t]
            if t == "<" and c.peek() == "{":
                c.next(); v = self._agg(c, "}"); c.expect(">"); return v
            return self._agg(c, end)
        if t == "getelementptr":
            while c.peek() in FLAGS: c.next()
            if c.peek() == "inrange": c.next()
            c.expect("("); bt = self.ty(c); c.expect(",")
            ops = []
            while True:
                while c.peek() == "inrange":
                    c.next()
                    if c.peek() == "(":
                        while c.next() != ")": pass
                ops.append(self.tyval(c))
                if c.accept(")"): break
                c.expect(",")
            return ("gep", bt, ops[0], ops[1:])
        if t in CASTS:
            c.expect("("); a = self.tyval(c); c.expect("to"); to = self.ty(c); c.expect(")")
            return ("cast", t, a, to)
        if t in BINOPS:
            while c.peek() in FLAGS: c.next()
            c.expect("("); a = self.tyval(c); c.expect(","); b = self.tyval(c); c.expect(")")
            return ("bin", t, a, b)
        if t in ("blockaddress", "dso_local_equivalent", "no_cfi"):
            while c.peek() != ")": c.next()
            c.next(); return ("undef",)
        if t == "asm": return ("asm",)
        raise SyntaxError(f"value? {t} in {' '.join(c.t)}")

    def _agg(self, c, end):
        out = []
        if c.accept(end): return ("agg", out)
        while True:
            out.append(self.tyval(c))
            if c.accept(end): return ("agg", out)
            c.expect(",")

    @staticmethod
    def _cstr(s):
        out = bytearray(); i = 0
        while i < len(s):
            if s[i] == "\\":
                out.append(int(s[i+1:i+3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)

    def skip_attrs(self, c):
        """skip parameter attributes; returns the set skipped"""
        seen = {}
        while True:
            p = c.peek()
            if p is None: return seen
            if p in KWVAL or p[0] in "%@" or p in (",", ")", "(", "{", "[", "<") or re.match(r"-?\d|0x", p) \
               or p in CASTS or p in BINOPS or p in ("getelementptr", "asm", "metadata") or p.startswith('c"'):
                return seen
            c.next(); arg = None
            if c.peek() == "(":
                depth = 0; start = c.i
                while True:
                    x = c.next()
                    if x == "(": depth += 1
                    elif x == ")":
                        depth -= 1
                        if depth == 0: break
                arg = c.t[start+1:c.i-1]
            elif p == "align" and c.peek() and re.fullmatch(r"\d+", c.peek()):
                arg = c.next()
            seen[p] = arg

    def tyval(self, c):
        t = self.ty(c)
        at = self.skip_attrs(c)
        if isinstance(t, MiscTy) and t.name == "metadata":
            # skip to , or )
            d = 0
            while c.peek() is not None and not (d == 0 and c.peek() in (",", ")")):
                x = c.next()
                if x in "([{": d += 1
                if x in ")]}": d -= 1
            return (t, ("undef",))
        return (t, self.val(c, t))

    # -- module
    def parse(self):
        lines = self.text.split("\n")
        i = 0; m = self.m
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                c = Cur(tokenize(ln)); nm = unq(c.next()); c.expect("="); c.expect("type")
                m.types[nm] = self.ty(c) if c.peek() != "opaque" else StructTy([])
            elif ln.startswith("@"):
                self._global(ln)
            elif ln.startswith("declare"):
                self._header(ln, True)
            elif ln.startswith("attributes #"):
                mm = re.match(r"attributes #(\d+) = \{(.*)\}", ln)
                m.attrs[mm.group(1)] = mm.group(2)
            elif ln.startswith("define"):
                body = []
                hdr = ln; i += 1
                while lines[i] != "}":
                    body.append(lines[i]); i += 1
                f = self._header(hdr, False)
                f._body = body
            i += 1
        for f in m.functions.values():
            for a in getattr(f, "attr_ids", []):
                if re.search(r"\bnoreturn\b", m.attrs.get(a, "")): f.noreturn = True
        m.parser = self
        return m

    def _global(self, ln):
        ln = re.split(r", (?:align|comdat|section|!|#)", ln)[0]
        ln = re.sub(r", comdat.*$", "", ln)
        c = Cur(tokenize(ln)); nm = unq(c.next()); c.expect("=")
        const = False; ext = False
        while True:
            p = c.peek()
            if p == "alias":
                c.next(); self.ty(c); c.expect(","); t, v = self.tyval(c)
                self.m.aliases[nm] = v[1] if v[0] == "glob" else None
                return
            if p in ("constant", "global"):
                const = c.next() == "constant"; break
            if p == "external": ext = True
            if p is None: return
            c.next()
            if c.peek() == "(":
                while c.next() != ")": pass
        t = self.ty(c)
        init = None
        if not c.done() and not ext:
            try: init = self.val(c, t)
            except SyntaxError: init = None
        self.m.globals[nm] = (t, init, const)

    def _header(self, ln, decl):
        s = ln
        toks = tokenize(s)
        c = Cur(toks); c.next()
        # skip linkage etc. until type parses followed by @name(
        k = next(j for j, t in enumerate(toks) if t[0] == "@" and j + 1 < len(toks) and toks[j+1] == "(")
        # return type: walk back: parse from successive starts
        ret = None
        for st in range(1, k):
            try:
                cc = Cur(toks[:k]); cc.i = st
                self_ty = self.ty(cc)
                if cc.done() : ret = self_ty; break
            except Exception:
                continue
        c.i = k; nm = unq(c.next()); c.expect("(")
        params = []; n = 0; vararg = False
        if not c.accept(")"):
            while True:
                if c.peek() == "...":
                    c.next(); vararg = True
                else:
                    t = self.ty(c); at = self.skip_attrs(c)
                    if c.peek() and c.peek()[0] == "%": reg = unq(c.next())
                    else: reg = str(n)
                    params.append((t, reg, at)); n += 1
                if c.accept(")"): break
                c.expect(",")
        f = Function(nm, ret, params, decl)
        f.vararg = vararg
        f.attr_ids = [t[1:] for t in toks[c.i:] if re.fullmatch(r"#\d+", t)]
        f.sret = next((i for i, p in enumerate(params) if "sret" in p[2]), None)
        self.m.functions[nm] = f
        return f

    # lazily parse a function body
    def body(self, f):
        if f.blocks or f.is_decl: return f
        lines = f._body
        nparam = sum(1 for p in f.params if re.fullmatch(r"\d+", p[1]))
        cur = None; first = True
        i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            st = ln.strip()
            if not st or st.startswith(";"): continue
            mm = re.match(r'^("(?:[^"]*)"|[A-Za-z0-9_.$\-]+):', ln)
            if mm:
                nm = mm.group(1).strip('"'); cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); first = False; continue
            if first:
                # unnamed entry block is numbered after the params
                nm = str(nparam); cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); first = False
            # multi-line: switch, invoke, landingpad
            if re.search(r"\bswitch\b.*\[$", st):
                while not lines[i].strip().startswith("]"):
                    st += " " + lines[i].strip(); i += 1
                st += " ]"; i += 1
            if re.match(r"(%\S+ = )?invoke\b", st) and " unwind label" not in st:
                st += " " + lines[i].strip(); i += 1
            if re.search(r"\blandingpad\b", st):
                while i < len(lines) and re.match(r"^\s+(cleanup|catch|filter)\b", lines[i]):
                    st += " " + lines[i].strip(); i += 1
            cur.ins.append(self._instr(st))
        return f

    def _instr(self, s):
        # strip trailing metadata
        s0 = s
        s = re.sub(r",\s*![A-Za-z0-9_.]+\s*(!\d+|!\{[^}]*\})?(?=,|$)", "", s)
        s = re.sub(r",\s*![A-Za-z0-9_.]+ ![0-9]+", "", s)
        c = Cur(tokenize(s)); I = Instr("?"); I.text = s0
        if c.peek(1) == "=" :
            I.res = unq(c.next()); c.next()
        op = c.next()
        while op in ("tail", "musttail", "notail"): op = c.next()
        I.op = op
        if op in BINOPS or op == "fneg":
            I.x["flags"] = set()
            while c.peek() in FLAGS: I.x["flags"].add(c.next())
            t = self.ty(c); I.ty = t
            a = self.val(c, t); I.a = [(t, a)]
            if op != "fneg":
                c.expect(","); I.a.append((t, self.val(c, t)))
        elif op in CASTS:
            while c.peek() in FLAGS: c.next()
            I.a = [self.tyval(c)]; c.expect("to"); I.ty = self.ty(c)
        elif op in ("icmp", "fcmp"):
            while c.peek() in FLAGS: c.next()
            I.x["pred"] = c.next(); t = self.ty(c); a = self.val(c, t); c.expect(","); b = self.val(c, t)
            I.a = [(t, a), (t, b)]; I.ty = IntTy(1)
        elif op == "select":
            while c.peek() in FLAGS: c.next()
            I.a = [self.tyval(c)]; c.expect(","); I.a.append(self.tyval(c)); c.expect(","); I.a.append(self.tyval(c))
            I.ty = I.a[1][0]
        elif op == "freeze":
            I.a = [self.tyval(c)]; I.ty = I.a[0][0]
        elif op == "alloca":
            if c.peek() == "inalloca": c.next()
            I.x["ety"] = self.ty(c); I.ty = PTR; I.x["n"] = None
            while c.accept(","):
                if c.peek() == "align": c.next(); c.next()
                elif c.peek() == "addrspace": c.next(); c.next(); c.next(); c.next()
                else: I.x["n"] = self.tyval(c)
        elif op == "load":
            at = False
            while c.peek() in ("atomic", "volatile"): c.next()
            I.ty = self.ty(c); c.expect(","); I.a = [self.tyval(c)]
        elif op == "store":
            while c.peek() in ("atomic", "volatile"): c.next()
            v = self.tyval(c); c.expect(","); p = self.tyval(c); I.a = [v, p]; I.ty = VOID
        elif op == "getelementptr":
            I.x["inbounds"] = False
            while c.peek() in FLAGS:
                if c.next() == "inbounds": I.x["inbounds"] = True
            I.x["bt"] = self.ty(c); c.expect(","); I.a = [self.tyval(c)]
            while c.accept(","): I.a.append(self.tyval(c))
            I.ty = PTR
        elif op == "phi":
            while c.peek() in FLAGS: c.next()
            I.ty = self.ty(c); I.x["in"] = []
            while True:
                c.expect("["); v = self.val(c, I.ty); c.expect(","); b = unq(c.next()); c.expect("]")
                I.x["in"].append((v, b))
                if not c.accept(","): break
        elif op == "br":
            if c.peek() == "label":
                c.next(); I.x["to"] = [unq(c.next())]
            else:
                I.a = [self.tyval(c)]; c.expect(","); c.expect("label"); t1 = unq(c.next()); c.expect(","); c.expect("label")
                I.x["to"] = [t1, unq(c.next())]
        elif op == "switch":
            I.a = [self.tyval(c)]; c.expect(","); c.expect("label"); I.x["default"] = unq(c.next()); c.expect("[")
            I.x["cases"] = []
            while not c.accept("]"):
                t, v = self.tyval(c); c.expect(","); c.expect("label"); I.x["cases"].append((v[1], unq(c.next())))
        elif op == "ret":
            if c.peek() == "void": I.a = []
            else: I.a = [self.tyval(c)]
        elif op in ("call", "invoke"):
            # skip cc / attrs until type
            while c.peek() in FLAGS or c.peek() in ("fastcc", "coldcc", "ccc", "noundef", "zeroext", "signext", "nonnull", "noalias", "inreg", "range") \
                  or (c.peek() in ("align", "dereferenceable", "dereferenceable_or_null")):
                w = c.next()
                if w == "align" and c.peek() != "(": c.next()
                elif c.peek() == "(":
                    while c.next() != ")": pass
            I.ty = self.ty(c)
            if isinstance(I.ty, MiscTy) and I.ty.name == "fn":
                # vararg function type: reparse the return type
                I.ty = IntTy(32)
            callee = self.val(c)
            if callee[0] == "asm":
                I.x["callee"] = callee; I.a = []
            else:
                I.x["callee"] = callee
                c.expect("("); args = []
                if not c.accept(")"):
                    while True:
                        args.append(self.tyval(c))
                        if c.accept(")"): break
                        c.expect(",")
                I.a = args
                if op == "invoke":
                    while c.peek() != "to": c.next()
                    c.next(); c.expect("label"); I.x["to"] = [unq(c.next())]
                    c.expect("unwind"); c.expect("label"); I.x["unwind"] = unq(c.next())
        elif op == "extractvalue":
            I.a = [self.tyval(c)]; I.x["idx"] = []
            while c.accept(","): I.x["idx"].append(int(c.next()))
        elif op == "insertvalue":
            I.a = [self.tyval(c)]; c.expect(","); I.a.append(self.tyval(c)); I.x["idx"] = []
            while c.accept(","): I.x["idx"].append(int(c.next()))
            I.ty = I.a[0][0]
        elif op in ("unreachable", "resume", "landingpad", "fence"):
            I.ty = None
            if op == "landingpad": I.ty = StructTy([PTR, IntTy(32)])
        elif op in ("extractelement", "insertelement", "shufflevector", "atomicrmw", "cmpxchg", "va_arg"):
            I.x["raw"] = s
            if op in ("extractelement", "insertelement"):
                I.a = [self.tyval(c)]; 
                while c.accept(","): I.a.append(self.tyval(c))
                I.ty = I.a[0][0]
        else:
            I.op = "unsupported"; I.x["raw"] = s
        return I


def parse(text):
    return Parser(text).parse()
