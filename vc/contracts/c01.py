"""C01: hashes of words."""
from words import *
M64 = 1 << 64

def fits(e, st, sp, n, off):
    """precondition 'the hash of the word fits in 64 bits', in the form used by the loop (equivalent form proved in the lemmas)"""
    k = z3.Int("kf")
    st.assume(off + sp.T(n) < M64)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(sp.T(k) >= 0, sp.T(k) <= sp.T(n))), patterns=[sp.T(k)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(sp.P(k) >= 1, sp.P(k) <= sp.T(n))), patterns=[sp.P(k)]))

def hash_template(sp, off):
    def t(v):
        k = v.k
        v.facts.append(sp.unfold(k)); 
        out = []
        for x in v.vars:
            if isinstance(x["ty"], IntTy) and x["ty"].w == 64 and not x["lin"]:
                z = v.eng.z(x["term"])
                out += [("hash==offset+T(k)", z == off + sp.T(k)), ("multiplier==P(k)", z3.Or(k >= sp.n, z == sp.P(k))), ("acc==T(k)", z == sp.T(k))]
        return out
    return t

@unit("C01", "hash(word) equals the shortlex specification", tu="hashed", fn="Moment::ShortlexHasher::hash(std::span<const oper_name_t>)")
def word_hash(e, fn="vp_hash"):
    st = e.state(); h, r, off = hasher_obj(e, st)
    n = e.arg("n", 64, 0, 1 << 40); dp, s = e.array(st, "word", n, I16, (0, MAXOP))
    sp = ShortlexSpec(e, st, s, e.z(n), r); fits(e, st, sp, e.z(n), off)
    e.loop_templates.append(hash_template(sp, off))
    e.cover(st, "pre")
    for s2, v in e.check_outs(e.call_function(st, fn, [h, dp, n])):
        e.prove(s2, e.z(e.as_u(s2, v, 64)) == off + sp.T(e.z(n)), "hash == offset + T(n)")

@unit("C01", "hasher call operator", tu="hashed", fn="Moment::ShortlexHasher::operator()")
def _(e): word_hash(e, "vp_hash_call")

@unit("C01", "hash(single operator)", tu="hashed", fn="Moment::ShortlexHasher::hash(oper_name_t)")
def _(e):
    st = e.state(); h, r, off = hasher_obj(e, st); a = e.arg("op", 16, 0, MAXOP)
    for s2, v in e.check_outs(e.call_function(st, "vp_hash1", [h, a])):
        e.prove(s2, e.z(e.as_u(s2, v, 64)) == off + e.z(a) + 1, "hash(op) == offset + T(1)")
