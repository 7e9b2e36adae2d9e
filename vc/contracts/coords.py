"""Symbolic coordinates objects and the contracts of the callees of get_coordinates (C02, C10, C11, C12, C14, C15, C25)."""
from .cobound import *

CLASSES = {"toroidal": ("toroidalcoords.ToroidalCoords", 1), "circular": ("circularcoords.CircularCoords", 1), "lens": ("lenscoords.LensCoords", 1),
           "projective": ("projectivecoords.ProjectiveCoords", 1), "cp": ("complexprojectivecoords.ComplexProjectiveCoords", 2)}


def dgm(c, e, dim): return app("dgm%d" % dim, (c, e), "R")


def coc(c, r, j, dim): return app("coc%d" % dim, (c, r, j), "I")


def rows(c, dim): return app("cocrows%d" % dim, (c,), "I")


def emobj(I, kind, verbose=False):
    """an object of the class as its constructor leaves it: every field symbolic"""
    path, dim = CLASSES[kind]
    o = Obj(I.get(path))
    n, N_, K, p = I.int("n", 1), I.int("N", 1), I.int("K", 1), I.int("p", 2)
    o.n, o.N, o.K, o.p, o.dim = n, N_, K, p, dim
    dg = I.inp("dgm%d" % dim, (K, 2))
    cells = {}

    def cocycle(t):
        t = const(t)
        a = cells.get(t.id)
        if a is None:
            a = I.arr((rows(t, dim), const(dim + 2)), lambda ix: coc(t, ix[0], ix[1], dim), "i", meta={"class": t})
            cells[t.id] = a
        I.store.setdefault(("c", a.cell), Content(lambda ix: coc(t, ix[0], ix[1], dim)))
        return a
    o.cells = cells
    F = {"_prime": p, "_n_landmarks": n, "verbose": verbose,
         "_dgms": I.mklist([None] * dim + [dg]), "_cocycles": I.mklist([None] * dim + [SymList(K, cocycle)]),
         "_dist_land_data": I.inp("dl", (n, N_)), "_dist_land_land": dist(I, n)}
    if kind in ("toroidal", "circular", "cp"): F["_cns_lookup_table"] = table(I, n, const(3 if kind == "cp" else 2))
    for k, v in F.items(): I.setattr(o, k, v)
    I.fact(forall(0, K, lambda t: le(0, rows(t, dim))))
    return o


class Stopped(Exception): pass


def stop_at(I, *names):
    """contracts that record their arguments and end the path"""
    rec = []

    def mkc(nm):
        def c(I, f, d):
            rec.append((nm, list(I.pc), d))
            I.do_raise(Exc("stop", (nm,)))
            raise Raised()
        return c
    for nm in names: I.contracts[nm] = mkc(nm)
    return rec


def lift_contract(I):
    """contract of CohomologyUtils.lift_to_integer_cocycle (proved in C07, the in-place update is idempotent): the lifted coefficients"""
    def c(I, f, d):
        a, p = d["cocycle"], num(d["prime"])
        if not isinstance(a, Arr) or len(a.shape) != 2: raise Unsupported("lift of something else than a cocycle array")
        rd = I.reader(a)
        last = sub(a.shape[1], 1)

        def fn(ix):
            x = rd(ix)
            return ite(eq(ix[1], last), ite(le(mul(2, x), sub(p, 1)), x, sub(x, p)), x)
        return I.arr(a.shape, fn, a.dtype, meta=dict(a.meta, lifted=True))
    I.contracts["utils.CohomologyUtils.lift_to_integer_cocycle"] = c
