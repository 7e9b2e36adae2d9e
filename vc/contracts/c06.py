"""C06: dense cochain vectors carry the listed cocycle with the right orientation sign."""
import itertools
from ..api import *
from .cobound import *

U_ = "utils.CohomologyUtils."


def sign(p):
    return -1 if sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2 else 1


def order(p):
    """vertices listed in the order p of their sizes"""
    def contract(I):
        k = len(p)
        v = I.inp("v", (k,), "i")
        V = lambda j: app("v", (const(j),), "I")
        q = sorted(range(k), key=lambda j: p[j])          # q[0] = position of the smallest
        I.fact(*[lt(V(a), V(b)) for a, b in zip(q, q[1:])])
        r = I.run(U_ + "order_simplex", v)
        I.no_raise()
        I.unchanged("simplex", v, lambda ix: app("v", tuple(ix), "I"))
        s, g = r
        I.ensure("one vertex per vertex", eq(I.length(s), k))
        for j in range(k): I.ensure("vertex %d of the sorted simplex" % j, eq(I.subscript(s, (const(j),)), V(q[j])))
        I.ensure("the sign of the permutation", eq(num(g), sign(p)))
        I.cover("the order occurs")
    return contract


for k in (2, 3):
    for p in itertools.permutations(range(k)): unit(U_ + "order_simplex", "order_%s" % "".join(map(str, p)))(order(p))


def sorted_simplex(vs):
    """the sorted vertices and the sign of the sorting permutation (the order units say which), for distinct vertices"""
    return [app("sorted%d" % j, tuple(vs), "I") for j in range(len(vs))], app("sign", tuple(vs), "I")


def order_contract(I):
    def order_simplex(I, f, a):
        v = list(a.values())[0]
        if not isinstance(v, Arr) or len(v.shape) != 1 or not isc(v.shape[0]) or v.shape[0].val not in (2, 3): raise Unsupported("simplex of symbolic length")
        vs = [I.read(v, (const(j),)) for j in range(int(v.shape[0].val))]
        I.ensure("distinct vertices", and_(*[not_(eq(x, y)) for x, y in itertools.combinations(vs, 2)]))
        s, g = sorted_simplex(vs)
        return (tuple(s), g)
    I.contracts[U_ + "order_simplex"] = order_simplex


def dense(k, real):
    def contract(I):
        n, D, m = I.int("n", k), I.int("D", k - 1), I.int("m", 0)
        lut = table(I, n, D)
        S = lambda r, j: app("S", (r, j) if isinstance(j, Term) else (r, const(j)), "I")
        order_contract(I)
        sp = I.inp("S", (m, k + 1), "i")
        I.fact(forall(0, m, lambda r: and_(*[and_(le(0, S(r, j)), lt(S(r, j), n)) for j in range(k)] + [not_(eq(S(r, a), S(r, b))) for a, b in itertools.combinations(range(k), 2)])))
        srt = lambda r: sorted_simplex([S(r, j) for j in range(k)])
        num_ = lambda r: add(*[app("binom", (x, const(j + 1)), "I") for j, x in enumerate(srt(r)[0])])
        r0 = fresh("r")
        inside = lambda s: and_(le(0, s[0]), *([lt(a, b) for a, b in zip(s, s[1:])] + [lt(s[-1], n)]))
        I.fact(forall(0, m, lambda r: inside(srt(r)[0])))      # distinct vertices below n, sorted
        # each simplex is listed once (so its number is: C05)
        once = lambda r: forall(0, m, lambda t: implies(not_(eq(t, r)), not_(eq(num_(t), num_(r)))))
        v = I.run(U_ + "sparse_cocycle_to_vector", sp, lut, n, "float" if real else "int")
        I.no_raise()
        I.unchanged("cocycle", sp, lambda ix: S(*ix))
        I.dims("dense vector", v, (app("binom", (n, const(k)), "I"),))
        rng = [le(0, r0), lt(r0, m)]
        I.ensure("the coefficient with the sign of the listing, at the number of the simplex", eq(I.read(v, (num_(r0),)), mul(srt(r0)[1], S(r0, k))), rng + [once(r0)])
        e = fresh("e")
        I.ensure("zero at the simplices that are not listed", eq(I.read(v, (e,)), 0), [le(0, e), lt(e, app("binom", (n, const(k)), "I")), forall(0, m, lambda t: not_(eq(num_(t), e)))])
    return contract


for k in (2, 3):
    for real in (False, True): unit(U_ + "sparse_cocycle_to_vector", "dense_%d_%s" % (k - 1, "float" if real else "int"))(dense(k, real))
