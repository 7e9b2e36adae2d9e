"""C08: the coboundary matrices."""
import itertools
from .cobound import *

SPEC = {"make_delta0": (1, False), "make_delta1": (2, False), "make_delta1_compact": (2, True), "make_delta2_compact": (3, True)}


def build(I, name, n, thr, lut=None):
    k, compact = SPEC[name]
    D = dist(I, n)
    lut = lut or table(I, n, I.int("dim", k))
    M = I.run("utils.CohomologyUtils." + name, D, thr, lut)
    return k, compact, D, lut, M


def contract(name):
    def c(I):
        n, thr = I.int("n", 0), I.real("thr")
        k, compact, D, lut, M = build(I, name, n, thr)
        I.no_raise()
        if not isinstance(M, Sparse) or "bag" not in M.meta: raise Unsupported("the result is not built from appended entries")
        v = lambda c: app("v", (c,), "R")
        bag = M.meta["bag"]
        I.ensure("one column per face", eq(M.shape[1], count(n, k)))
        if not compact:
            I.ensure("one row per simplex number", eq(M.shape[0], count(n, k + 1)))
            u = lambda r: app("u", (r,), "R")
            I.ensure("the matrix is the coboundary at the threshold (as a bilinear form)",
                     eq(bag_sum(bag, lambda vs, r, cc, x: mul(u(r), v(cc), x)), spec_form(n, k, thr, lambda vs: u(facenum(tuple(vs))), v)))
        else:
            total = over_simplices(n, k, lambda vs: ite(short(vs, thr), const(1), const(0)))
            I.ensure("exactly one row per simplex below the threshold", eq(M.shape[0], total))
            for e, (vs, q, row, col, x) in enumerate(bag):
                rng = [y for b, lo, hi in vs for y in (le(lo, b), lt(b, hi))] + [q]
                I.ensure("entry %d: the row number is the rank of its simplex" % e, eq(row, rank(vs, q)), rng)
            w = lambda vs: app("w", tuple(vs), "R")
            perms = list(itertools.permutations(range(k + 1)))
            goals = [eq(bag_sum(bag, lambda vs, r, cc, x: mul(w([vs[p][0] for p in pm]), v(cc), x)), spec_form(n, k, thr, w, v)) for pm in perms]
            I.ensure_any("the matrix is the coboundary at the threshold (rows named by their simplices)", goals)
        for a, nm in ((D, "distance matrix"),):
            I.unchanged(nm, a, lambda ix: d(*ix))
        I.unchanged("lookup table", lut, lambda ix: app("binom", ix, "I"))
    return c


for nm in SPEC:
    unit("utils.CohomologyUtils." + nm, nm)(contract(nm))


def composition(outer, inner):
    def c(I):
        n, thr = I.int("n", 0), I.real("thr")
        lut = table(I, n, I.int("dim", 3))
        k, _, _, _, A = build(I, outer, n, thr, lut)
        _, _, _, _, B = build(I, inner, n, thr, lut)
        I.obl = []              # the obligations of the builders are those of their own units
        if any("bag" not in M.meta for M in (A, B)): raise Unsupported("the result is not built from appended entries")
        f = lambda c: app("f", (c,), "R")

        def inner_at(r): return bag_sum(B.meta["bag"], lambda vs, row, col, x: mul(ite(eq(row, r), const(1, "R"), const(0, "R")), x, f(col)))
        # row by row: the entries of one row of the outer matrix come from one iteration of its loops
        w = lambda vs: app("w", tuple(v for v, _, _ in vs), "R")
        I.ensure("%s @ %s = 0" % (outer, inner), eq(bag_sum(A.meta["bag"], lambda vs, row, col, x: mul(w(vs), x, inner_at(col))), 0))
    return c


unit("utils.CohomologyUtils.make_delta1", "delta1_delta0")(composition("make_delta1", "make_delta0"))
unit("utils.CohomologyUtils.make_delta2_compact", "delta2_delta1")(composition("make_delta2_compact", "make_delta1"))
