"""C02: signs are the fourth roots of unity i^n, n in {0,1,2,3}."""
from unit import *

def roots(e, a):
    """(re, im) of i^a for a 2-bit a"""
    re = z3.If(a == 0, z3.RealVal(1), z3.If(a == 2, z3.RealVal(-1), z3.RealVal(0)))
    im = z3.If(a == 1, z3.RealVal(1), z3.If(a == 3, z3.RealVal(-1), z3.RealVal(0)))
    return re, im

def sgn(e, st, n):
    a = z3.BitVec(n, 8); st.assume(z3.ULE(a, 3)); return a

def ceq(x, y): return z3.And(x[0] == y[0], x[1] == y[1])
def cmul(x, y): return (x[0]*y[0]-x[1]*y[1], x[0]*y[1]+x[1]*y[0])

def one(e, fn, goal, nargs=1):
    st = e.state(); args = [sgn(e, st, f"a{i}") for i in range(nargs)]
    e.cover(st, "pre")
    for s, v in e.check_outs(e.call_function(st, fn, args)):
        e.prove(s, goal(v, *[roots(e, a) for a in args]), fn)

def u8(v): return v

@unit("C02", "negate", tu="sign", mode="bv", fn="Moment::negate")
def _(e): one(e, "vp_neg", lambda v, a: z3.And(z3.ULE(v, 3), ceq(roots(e, v), (-a[0], -a[1]))))

@unit("C02", "conjugate", tu="sign", mode="bv", fn="Moment::conjugate(SequenceSignType)")
def _(e): one(e, "vp_conj", lambda v, a: z3.And(z3.ULE(v, 3), ceq(roots(e, v), (a[0], -a[1]))))

@unit("C02", "product", tu="sign", mode="bv", fn="Moment::operator*(SequenceSignType, SequenceSignType)")
def _(e): one(e, "vp_mul", lambda v, a, b: z3.And(z3.ULE(v, 3), ceq(roots(e, v), cmul(a, b))), 2)

@unit("C02", "difference", tu="sign", mode="bv", fn="Moment::difference")
def _(e): one(e, "vp_diff", lambda v, a, b: z3.And(z3.ULE(v, 3), ceq(cmul(a, roots(e, v)), b)), 2)

@unit("C02", "is_negative", tu="sign", mode="bv", fn="Moment::is_negative")
def _(e): one(e, "vp_is_neg", lambda v, a: e.b(v) == z3.Or(a[0] < 0, a[1] < 0))

@unit("C02", "is_imaginary", tu="sign", mode="bv", fn="Moment::is_imaginary")
def _(e): one(e, "vp_is_imag", lambda v, a: e.b(v) == (a[1] != 0))

@unit("C02", "are_negatives", tu="sign", mode="bv", fn="Moment::are_negatives")
def _(e): one(e, "vp_are_neg", lambda v, a, b: e.b(v) == ceq(a, (-b[0], -b[1])), 2)

@unit("C02", "to_scalar", tu="sign", mode="bv", fn="Moment::to_scalar")
def _(e):
    st = e.state(); a = sgn(e, st, "a"); p = e.obj(st, "out", 16)
    for s, v in e.check_outs(e.call_function(st, "vp_scalar", [a, p])):
        e.prove(s, ceq((e.get(s, p, 0, "f64"), e.get(s, p, 8, "f64")), roots(e, a)), "to_scalar")
