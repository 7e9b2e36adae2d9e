"""C04: the built-in bump functions."""
from ..api import *

AX = ("exp(x) <= -1/x for x < 0 and exp is positive and increasing (axioms of the exponential function)",)


def bump(name, two):
    def contract(I):
        n, m = I.int("n", 0), I.int("m", 0)
        r = I.real("r")
        I.fact(lt(0, r))
        shape = (n, m) if two else (n,)
        ds = I.inp("ds", shape)
        I.cover("some ball")
        out = I.run("utils.PartUnity." + name, ds, r)
        I.no_raise()
        I.dims("result", out, shape)
        p, rng = I.idx(shape)
        q, rng2 = I.idx(shape)
        d, e = app("ds", p), app("ds", q)
        inside = [le(0, d), lt(d, r)]
        v, w = I.read(out, p), I.read(out, q)
        I.ensure("depends on the distance and the radius only", eq(v, w), rng + rng2 + inside + [eq(d, e)])
        I.ensure("positive inside the ball", lt(0, v), rng + inside)
        I.ensure("non-increasing", le(w, v), rng + rng2 + inside + [le(d, e), lt(e, r)])
        I.ensure("fades to zero at the radius: at most K(r) (r - d)", or_(*moduli(v, d, r)), rng + inside)
        I.unchanged("ds", ds, lambda ix: app("ds", ix))
    return contract


def moduli(v, d, r):
    """explicit moduli v <= K (r - d) with K depending on r only"""
    e = sub(r, d)
    return [le(v, mul(16, k)) for k in (e, mul(r, e), div(e, r), div(e, mul(r, r)))]


for nm in ("linear", "quadratic", "exp"):
    unit("utils.PartUnity." + nm, nm)(bump(nm, True))
    unit("utils.PartUnity." + nm, nm + "_vector")(bump(nm, False))
