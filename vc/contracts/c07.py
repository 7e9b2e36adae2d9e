"""C07: the integer lift of a cocycle."""
from ..api import *

LIFT = "utils.CohomologyUtils.lift_to_integer_cocycle"


@unit(LIFT)
def c07_lift(I):
    K, c, p = I.int("K", 0), I.int("c", 1), I.int("p", 2)
    C = I.inp("C", (K, c), "i")
    X = lambda i, j: app("C", (i, j), "I")
    last = sub(c, 1)
    I.fact(forall(0, K, lambda k: and_(le(0, X(k, last)), lt(X(k, last), p))))
    out = I.run(LIFT, C, p)
    I.no_raise()
    I.dims("result", out, (K, c))
    (i, j), rng = I.idx((K, c))
    (k,), rk = I.idx((K,))
    I.ensure("vertices and row order are untouched", eq(I.read(out, (i, j)), X(i, j)), rng + [lt(j, last)])
    v, x = I.read(out, (k, last)), X(k, last)
    inr = [le(0, x), lt(x, p)]
    I.ensure("the lift is x when x <= (p-1)/2 and x - p otherwise", eq(v, ite(le(mul(2, x), sub(p, 1)), x, sub(x, p))), rk + inr)
    I.ensure("congruent to the original modulo p", eq(fmod(sub(v, x), p), 0), rk + inr)
    I.ensure("absolute value at most p/2", and_(le(mul(2, v), p), le(mul(-1, p), mul(2, v))), rk + inr)
    again = I.run(LIFT, out, p)
    I.dims("second result", again, (K, c))
    I.ensure("lifting again changes nothing", eq(I.read(again, (i, j)), ite(eq(j, last), ite(le(mul(2, X(i, last)), sub(p, 1)), X(i, last), sub(X(i, last), p)), X(i, j))),
             rng + [le(0, X(i, last)), lt(X(i, last), p)])
    I.cover("coefficients of both kinds", and_(lt(2, p), lt(0, K)))
