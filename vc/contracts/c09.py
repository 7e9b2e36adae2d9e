"""C09: the integer cocycle tests."""
from .cobound import *


def closed(n, k, thr, v):
    """the coboundary of the cochain v vanishes on every k-simplex below the threshold (as one formula)"""
    def go(vs):
        if len(vs) == k + 1:
            cob = add(*[mul(sg, v(facenum(tuple(vs[i] for i in f)))) for f, sg in FACES[k]])
            return implies(short(vs, thr), eq(cob, 0))
        return forall(add(vs[-1], 1) if vs else const(0), n, lambda x: go(vs + [x]))
    return go([])


def contract(path, k, dtype):
    def c(I):
        n, thr = I.int("n", 0), I.real("thr")
        D = dist(I, n)
        lut = table(I, n, I.int("dim", k))
        C = I.inp("c", (count(n, k),), dtype)
        v = lambda x: app("c", (x,), "I" if dtype == "i" else "R")
        r = I.run(path, C, D, thr, lut)
        I.no_raise()
        ok = r[0] if isinstance(r, tuple) else r
        spec = closed(n, k, thr, v)
        I.ensure("success when the coboundary vanishes", truth(ok), [spec])
        I.ensure("success only when the coboundary vanishes", spec, [truth(ok)])
        I.unchanged("cochain", C, lambda ix: v(ix[0]))
        I.unchanged("distance matrix", D, lambda ix: d(*ix))
        I.unchanged("lookup table", lut, lambda ix: app("binom", ix, "I"))
    return c


for dt in ("i", "f"):
    unit("toroidalcoords._is_one_cocycle", "one_cocycle_" + dt)(contract("toroidalcoords._is_one_cocycle", 2, dt))
    unit("complexprojectivecoords._is_two_cocycle", "two_cocycle_" + dt)(contract("complexprojectivecoords._is_two_cocycle", 3, dt))
