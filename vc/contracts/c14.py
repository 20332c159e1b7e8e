"""C14: site codes of Pauli words on lattices.  Site q of a code is the pair of bits 2q, 2q + 1 (0 for the identity, then X, Y, Z), 32 sites to
a word.  Sizes are finite (32 sites per word): every size is a case of its own, with the code symbolic."""
import itertools, re
from unit import *
TU = "lattice"; FN = "Moment::Pauli::SiteHasherSized<%d>::"; B = lambda n: z3.BitVecVal(n, 64)

def code(name, n, words):
    """a code of n sites, as words: the bits beyond are clear"""
    out = []
    for w in range(words):
        k = min(32, n - 32 * w)
        if k <= 0: out.append(B(0)); continue
        v = z3.BitVec(f"{name}{w}", 2 * k); out.append(v if k == 32 else z3.ZeroExt(64 - 2 * k, v))
    return out
def site(ws, q): return z3.Extract(2 * (q % 32) + 1, 2 * (q % 32), ws[q // 32])
def build_code(n, words, f):
    """the code whose site q is f(q)"""
    out = []
    for w in range(words):
        k = min(32, n - 32 * w)
        if k <= 0: out.append(B(0)); continue
        v = f(32 * w) if k == 1 else z3.Concat(*[f(32 * w + i) for i in reversed(range(k))]); out.append(v if k == 32 else z3.ZeroExt(64 - 2 * k, v))
    return out

class Hasher:
    def __init__(self, e, words, h, w):
        self.e = e; self.words = words; self.h, self.w, self.n = h, w, h * w; e.unroll = 300; e.unroll_strict = True; e.max_steps = 10 ** 9; st = e.state()
        self.p = e.obj(st, "hasher", e.const(f"vp_size_h{words}")); outs = e.check_outs(e.call_function(st, f"vp_ctor{words}", [self.p, B(h), B(w)]))
        if len(outs) != 1: raise Unsupported("construction depends on more than the sizes")
        self.st = outs[0][0]; self.I = code("code", self.n, words)
    def run(self, fn, *args):
        """fn on the code; yields state and result code"""
        e = self.e; st = self.st.copy(); i = e.obj(st, "input", 8 * self.words); o = e.obj(st, "output", 8 * self.words)
        for k, v in enumerate(self.I): e.put(st, i, 8 * k, "i64", v)
        for s, _ in e.check_outs(e.call_function(st, f"vp_{fn}{self.words}", [o, self.p, i] + list(args))): yield s, [e.get(s, o, 8 * k, "i64") for k in range(self.words)]
    def offset(self, name, m):
        """all offsets, by remainder modulo m: yields (offset, remainder); the offset is remainder + m * some quotient"""
        for k in range(m):
            x, q = z3.BitVec(name, 64), z3.BitVec(name + "_quotient", 64); yield x, k, z3.And(x == B(k) + q * m, z3.ULE(q, ((1 << 64) - 1 - k) // m))
    def shift(self, fn, moduli, what, target):
        """fn with one offset per modulus moves the operator on site q to site target(q, remainders)"""
        e = self.e; names = [f"offset{j}" for j in range(len(moduli))]
        for cs in itertools.product(*[list(self.offset(n, m)) for n, m in zip(names, moduli)]):
            e.rem_cases = [(x, m, B(k)) for (x, k, _), m in zip(cs, moduli)]; ks = [k for _, k, _ in cs]; src = {target(q, *ks): q for q in range(self.n)}
            base = self.st; self.st = base.copy()
            for _, _, c in cs: self.st.assume(c)
            for s, out in self.run(fn, *[x for x, _, _ in cs]):
                if any(z3.is_false(z3.simplify(c)) for c in s.pc): continue
                want = build_code(self.n, self.words, lambda q: site(self.I, src[q])); e.prove(s, z3.And(*[a == b for a, b in zip(out, want)]), f"{what}: {self.h} x {self.w}, by {ks}")
            self.st = base

def chains(words): return range(32 * (words - 1) + 1, 32 * words + 1)
def lattices(words): return [(h, w) for h in range(1, 32 * words + 1) for w in range(1, 32 * words // h + 1) if h * w > 32 * (words - 1)]

for words in (1, 2, 3):
    for part in range(words):
        @unit("C14", f"rotation of a chain, {words} word{'s' * (words > 1)}, part {part + 1}", tu=TU, mode="bv", fn=FN % words + "cyclic_shift", budget=700)
        def _(e, words=words, part=part):
            for n in list(chains(words))[part::words]: Hasher(e, words, n, 1).shift("cyc", [n], "every operator moves along by the offset, around the chain", lambda q, k: (q + k) % n)

def U14(name, fn, parts, words):
    def deco(f):
        for part in range(parts):
            @unit("C14", name + f", {words} word{'s' * (words > 1)}" + (f", part {part + 1}" if parts > 1 else ""), tu=TU, mode="bv", fn=FN % words + fn, budget=700)
            def _(e, part=part): f(e, lattices(words)[part::parts], words)
    return deco
for words, parts in ((1, 1), (2, 2), (3, 4)):
    @U14("rotation within columns", "row_cyclic_shift", parts, words)
    def _(e, sizes, words):
        for h, w in sizes: Hasher(e, words, h, w).shift("row", [h], "every operator moves down its column by the offset, around the column", lambda q, k: q - q % h + (q % h + k) % h)
    @U14("rotation across columns", "col_shift", parts, words)
    def _(e, sizes, words):
        for h, w in sizes:
            H = Hasher(e, words, h, w); H.shift("col", [w], "every operator moves by the offset in columns, around the row, keeping its row", lambda q, k: (q + k * h) % (h * w))
    @U14("extraction of a column", "extract_column", 1, words)
    def _(e, sizes, words):
        """columns of up to 32 operators"""
        for h, w in sizes:
            if h > 32: continue
            H = Hasher(e, words, h, w); H.st.assume
            for c in range(w):
                st = H.st.copy(); i = e.obj(st, "input", 8 * words)
                for k, v in enumerate(H.I): e.put(st, i, 8 * k, "i64", v)
                for s, v in e.check_outs(e.call_function(st, f"vp_ext{words}", [H.p, i, B(c)])): e.prove(s, v == build_code(h, 1, lambda q: site(H.I, c * h + q))[0], f"exactly the sites of column {c} of {h} x {w}")
    @unit("C14", f"order of codes, {words} word{'s' * (words > 1)}", tu=TU, mode="bv", fn=FN % words + "less")
    def _(e, words=words):
        """codes compare as the numbers they are: a strict total order"""
        st = e.state(); e.unroll = 300; e.unroll_strict = True; P = []; W = []
        for nm in "ab":
            p = e.obj(st, nm, 8 * words); w = [z3.BitVec(f"{nm}{k}", 64) for k in range(words)]; P.append(p); W.append(z3.Concat(*reversed(w)) if words > 1 else w[0])
            for k, v in enumerate(w): e.put(st, p, 8 * k, "i64", v)
        for s, v in e.check_outs(e.call_function(st, f"vp_less{words}", P)): e.prove(s, e.b(v) == z3.ULT(*W), "less as numbers")
for words, parts in ((1, 2), (2, 6)):
    @U14("lattice translation", "lattice_shift", parts, words)
    def _(e, sizes, words):
        for h, w in sizes: Hasher(e, words, h, w).shift("lat", [h, w], "every operator moves by both offsets, around the lattice", lambda q, r, c: (q // h + c) % w * h + (q % h + r) % h)

DBG = None
B64 = z3.BitVecSort(64); sh = lambda x, q: z3.LShR(x, 2 * q)
@unit("C14", "encoding, 1 word", tu=TU, mode="bv", fn=FN % 1 + "hash")
def _(e):
    """the code is the sum of the operators' codes; with operators on different sites, ascending, site by site the word"""
    st = e.state(); h = e.obj(st, "hasher", e.const("vp_size_h1")); o = e.obj(st, "out", 8); n = e.arg("n", 64); st.assume(z3.ULE(n, B(1 << 20))); d, a = e.array(st, "ops", n, IntTy(16)); GH = z3.Function("CODE", B64, B64)
    op = lambda k: z3.ZeroExt(48, a[k]); val = lambda k: z3.URem(op(k), B(3)) + 1; qb = lambda k: z3.UDiv(op(k), B(3)); i = z3.BitVec("i", 64)
    st.assume(GH(B(0)) == 0); st.assume(z3.ForAll([i], z3.ULT(a[i], 96), patterns=[a[i]])); e.cover(st, "pre")
    def tpl(v):
        k = v.k if z3.is_bv(v.k) else e.z(v.k); v.facts += [GH(k + 1) == GH(k) + (val(k) << (2 * qb(k)))]
        return [("code so far", x["term"] == GH(k)) for x in v.vars if isinstance(x["ty"], IntTy) and x["ty"].w == 64]
    e.loop_templates.append(tpl)
    for s, _ in e.check_outs(e.call_function(st, "vp_hash1", [o, h, d, n])): e.prove(s, e.get(s, o, 0, "i64") == GH(n), "the code of the whole word")
    x, q, p, v = z3.BitVecs("x q p v", 64); Q = lambda y, p: sh(y, p) & 3; pre = [z3.ULT(q, B(32)), z3.ULT(p, B(32)), sh(x, q) == 0, z3.UGE(v, B(1)), z3.ULE(v, B(3))]; y = x + (v << (2 * q))
    e.lemma("adding an operator beyond all others sets its site", pre, Q(y, q) == v); e.lemma("and leaves every other site", pre + [p != q], Q(y, p) == Q(x, p)); e.lemma("and no site beyond it is occupied", pre, sh(y, q + 1) == 0)

@unit("C14", "decoding, 1 word", tu=TU, mode="bv", noinline=(r"emplace_back",), fn=FN % 1 + "unhash")
def _(e):
    """one operator per occupied site, in order: the k-th is the code on the k-th occupied site"""
    st = e.state(); h = e.obj(st, "hasher", e.const("vp_size_h1")); i = e.obj(st, "in", 8); I = z3.BitVec("code", 64); e.put(st, i, 0, "i64", I); o = e.obj(st, "out", e.const("vp_size_sv")); cnt = e.const("vp_off_sv_size")
    NEXT = z3.Function("NEXT", B64, B64); FROM = z3.Function("FROM", B64, B64)     # first occupied site from q on (32: none); where the search for the k-th starts
    def unfold(k):
        q = FROM(k); n = NEXT(q); rest = sh(I, q)
        return z3.And(FROM(B(0)) == 0, z3.Implies(z3.ULE(q, B(32)), z3.And(z3.ULE(q, n), z3.ULE(n, B(32)), (n == 32) == (rest == 0), z3.Implies(n != 32, z3.And((rest & ((B(1) << (2 * (n - q))) - 1)) == 0, (sh(I, n) & 3) != 0)))), FROM(k + 1) == n + 1)
    def push(e, s, args, X):
        x = e.get(s, args[1], 0, "i64"); k = e.get(s, args[0], cnt, "i64"); n = NEXT(FROM(k)); e.prove(s, z3.And(n != 32, x == 3 * n + (sh(I, n) & 3) - 1), "the operator on the next occupied site", "call"); e.put(s, args[0], cnt, "i64", k + 1); return [(s, None)]
    e.contract_rx.append((re.compile(r"emplace_back<"), Contract("SmallVector<oper_name_t>::emplace_back", push))); e.cover(st, "pre")
    def tpl(v):
        k = v.k if z3.is_bv(v.k) else e.z(v.k); v.facts += [unfold(k), unfold(k + 1)]; out = [("in range", z3.ULE(FROM(k), B(32)))]
        for x in v.vars:
            if isinstance(x["ty"], IntTy) and x["ty"].w == 64: out += [("from here", x["term"] == FROM(k)), ("what is left", x["term"] == sh(I, FROM(k))), ("count", x["term"] == k)]
        return out
    e.loop_templates.append(tpl)
    for s, _ in e.check_outs(e.call_function(st, "vp_unhash1", [o, h, i])):
        k = e.get(s, o, cnt, "i64"); s.assume(unfold(k)); e.prove(s, z3.And(z3.ULE(FROM(k), B(32)), sh(I, FROM(k)) == 0), "ends when no occupied site is left")

NOIC = (r"::hash\(std::span", r"::cyclic_shift\(", r"::row_cyclic_shift\(")
for part in range(2):
    @unit("C14", f"canonical code, 1 word, part {part + 1}", tu=TU, mode="bv", noinline=NOIC, fn="Moment::Pauli::SiteHasher<1>::canonical_hash, do_canonical_hash", budget=700)
    def _(e, part=part):
        """the least code among the translates that bring one of the word's operators to the origin, and the word's own code"""
        CY = z3.Function("CYCLIC", B64, B64, B64); RO = z3.Function("ROWS", B64, B64, B64); H = z3.BitVec("CODE", 64); M = {}
        def con(rx, nm, f): e.contract_rx.append((re.compile(rx), Contract(nm, f)))
        rem = lambda x, n: z3.simplify(z3.URem(x, B(n)))
        con(r"::hash\(std::span", "hash", lambda e, s, a, I: [(s, H)]); con(r"::cyclic_shift\(", "cyclic_shift", lambda e, s, a, I: [(s, CY(a[1], rem(a[2], M["h"] * M["w"])))]); con(r"::row_cyclic_shift\(", "row_cyclic_shift", lambda e, s, a, I: [(s, RO(a[1], rem(a[2], M["h"])))])
        for h, w in (DBG or lattices(1)[part::2]):
            M.update(h=h, w=w); hs = Hasher(e, 1, h, w); e.unroll = None; st = hs.st; o = e.obj(st, "out", 16); n = e.arg("n", 64); st.assume(z3.ULE(n, B(32))); d, a = e.array(st, "ops", n, IntTy(16)); i = z3.BitVec("i", 64)
            st.assume(z3.ForAll([i], z3.ULT(a[i], 3 * h * w), patterns=[a[i]])); G = z3.Function(f"LEAST{h}_{w}", B64, B64); e.loop_templates.clear()
            qb = lambda k: z3.UDiv(z3.ZeroExt(48, a[k]), B(3)); back = lambda x, m: rem(B(m) - x, m); row = lambda k: z3.URem(qb(k), B(h)); colm = lambda k: z3.UDiv(qb(k), B(h))
            cand = (lambda k: CY(H, back(qb(k), h))) if w == 1 else lambda k: RO(CY(H, back(colm(k), w) * h), back(row(k), h))
            def tpl(v):
                k = v.k if z3.is_bv(v.k) else e.z(v.k); v.facts += [G(k + 1) == z3.If(z3.Or(k == 0, z3.ULT(cand(k), G(k))), cand(k), G(k))]; out = []
                for x in v.vars:
                    t = x["term"]
                    if isinstance(x["ty"], IntTy) and x["ty"].w == 64: out += [("least so far", z3.Or(k == 0, t == G(k))), ("own code", t == H)]
                    elif isinstance(x["ty"], IntTy): out += [("any so far", t == z3.If(k != 0, z3.BitVecVal(1, t.size()), z3.BitVecVal(0, t.size())) if z3.is_bv(t) else t == (k != 0))]
                return out
            e.loop_templates.append(tpl)
            for s, _ in e.check_outs(e.call_function(st, "vp_canon1", [o, hs.p, d, n])):
                e.prove(s, z3.Implies(n == 0, z3.And(e.get(s, o, 0, "i64") == 0, e.get(s, o, 8, "i64") == 0)), f"{h} x {w}: the empty word is its own representative"); e.prove(s, z3.Implies(n != 0, z3.And(e.get(s, o, 0, "i64") == G(n), e.get(s, o, 8, "i64") == H)), f"{h} x {w}: least candidate and own code")

@unit("C14", "translations", fn="lemmas over the contracts of the translations")
def _(e):
    x, a, b, n, p, q, r, s = z3.Ints("x a b n p q r s"); pre = [n > 0, 0 <= p, p < n, 0 <= q, q < n, x + a == n * r + p, p + b == n * s + q]
    t, u = z3.Ints("t u"); e.lemma("translations compose: the coordinate after both is the one moved by the sum, around the lattice", pre + [0 <= t, t < n, x + a + b == n * u + t], t == q)
    e.lemma("so bringing an operator of a translate to the origin is bringing that operator of the word there: all translates have the same candidates, and the same least", [n > 0, 0 <= x, x < n, 0 <= a, a < n, 0 <= p, p < n, x + a == n * r + p, 0 <= t, t < n, x + a + (n - p) == n * u + t], t == 0)
