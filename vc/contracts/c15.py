"""C15: the class map of complex projective coordinates."""
from .coords import *
from .c11 import cover_contracts

M = "complexprojectivecoords."
USES = {"c06": ("",), "c07": ("",), "c08": ("make_delta1",), "c03": ("",)}


def alt1(thr, i, j, f, short_=True):
    """alternating extension of a function of edge numbers (zero on edges not below the threshold)"""
    x = ite(lt(i, j), f(N(i, j)), ite(lt(j, i), mul(-1, f(N(j, i))), 0))
    return ite(and_(not_(eq(i, j)), lt(d(i, j), thr)), x, 0)


def alt2(thr, i, j, k, f):
    """alternating extension of a function of triangle numbers (zero on triangles not below the threshold)"""
    x = const(0, "R")
    for a, b, c, sg in ((i, j, k, 1), (i, k, j, -1), (j, i, k, -1), (k, j, i, -1), (k, i, j, 1), (j, k, i, 1)):
        x = ite(and_(lt(a, b), lt(b, c)), mul(sg, f(N(a, b, c))), x)
    return ite(and_(lt(d(i, j), thr), lt(d(i, k), thr), lt(d(j, k), thr)), x, 0)


def phase(n, thr, nu, h, phi, i, j, x):
    return add(alt1(thr, i, j, nu), sum_(0, n, lambda t: mul(phi(t, x), alt2(thr, i, j, t, h))))


@unit(M + "_sparse_integrate")
def integrate(I):
    n, N_, thr = I.int("n", 1), I.int("N", 0), I.real("thr")
    h = I.inp("h", (count(n, 3),))
    t = I.inp("t", (count(n, 2),))
    W = I.inp("phi", (n, N_))
    ball = I.inp("ball", (N_,), "i")
    b = lambda x: app("ball", (x,), "I")
    I.fact(forall(0, N_, lambda x: and_(le(0, b(x)), lt(b(x), n))))
    r = I.run(M + "_sparse_integrate", h, t, W, ball, dist(I, n), thr, table(I, n, const(3)))
    I.no_raise()
    I.dims("class map", r, (N_, n))
    (x, i), rng = I.idx((N_, n))
    F = lambda s: lambda e: app(s, (e,), "R")
    phi = lambda l, x: app("phi", (l, x), "R")
    I.eqs("entry", I.read(r, (x, i)), polar(sqrt(phi(i, x)), phase(n, thr, F("t"), F("h"), phi, i, b(x), x)), rng)
    for nm, a, f in (("representative", h, "h"), ("primitive", t, "t"), ("weights", W, "phi")):
        I.unchanged(nm, a, lambda ix, f=f: app(f, ix, "R"))
    I.unchanged("cover sets", ball, lambda ix: app("ball", ix, "I"))


def delta1_contract(I, o, thr):
    """contract of make_delta1 (C08): at the rows of triangles below the threshold, the signed faces"""
    n = o.n

    def c(I, f, dd):
        D_, t_, lut = list(dd.values())[:3]
        I.oblige("the coboundary is taken at the chosen threshold", eq(num(t_), thr), "pre")
        rd = I.reader(D_)
        (a, b), rng = I.idx((n, n))
        I.oblige("the landmark distances are used", eq(rd((a, b)), d(a, b)), "pre", I.hyps() + rng)
        return I.sparse("B", (count(n, 3), count(n, 2)))
    I.contracts["utils.CohomologyUtils.make_delta1"] = c
    row = lambda x, i, j, k: eq(sum_(0, count(n, 2), lambda q: mul(app("B", (N(i, j, k), q), "R"), x(q))),
                                add(x(N(i, j)), x(N(j, k)), mul(-1, x(N(i, k)))))
    return row


@unit(M + "ComplexProjectiveCoords.get_coordinates")
def class_map(I):
    o = emobj(I, "cp")
    n, N_ = o.n, o.N
    r, phi, ball, covered = cover_contracts(I, o)
    thr = mul(2, r)
    lift_contract(I)
    delta1_contract(I, o, thr)
    I.contracts["utils.CohomologyUtils.sparse_cocycle_to_vector"] = lambda I, f, dd: I.inp("vec", (count(n, 3),), "i")
    c0 = I.int("c", 0)
    I.fact(lt(c0, o.K))
    seen = []

    def integ(I, f, dd):
        h, t, W, b, D_, t_, lut = list(dd.values())
        (x, i), rng = I.idx((N_, n))
        (a, b2), rng2 = I.idx((n, n))
        (e,), rng3 = I.idx((count(n, 3),))
        I.ensure("the weights are those of the cover", eq(I.read(W, (i, x)), phi(i, x)), rng)
        I.ensure("the cover sets are those of the cover", eq(I.read(b, (x,)), ball(x)), rng)
        I.ensure("the landmark distances are used", eq(I.read(D_, (a, b2)), d(a, b2)), rng2)
        I.ensure("the chosen threshold is used", eq(num(t_), thr))
        rt = I.reader(t)
        I.ensure("the representative is the cocycle minus the coboundary of the primitive",
                 eq(I.read(h, (e,)), sub(app("vec", (e,), "I"), sum_(0, count(n, 2), lambda q: mul(app("B", (e, q), "R"), rt((q,)))))), rng3)
        seen.append((h, t))
        return I.arr((N_, n), lambda ix: Cx(app("re", ix, "R"), app("im", ix, "R")), "c")
    I.contracts[M + "_sparse_integrate"] = integ
    rec = stop_at(I, "utils.EquivariantPCA.ppca")
    try:
        I.run(Bound(I.get(CLASSES["cp"][0] + ".get_coordinates"), o), cocycle_idx=c0, check_cocycle_condition=FALSE)
        I.ensure("the class map is handed to the dimensionality reduction on every path", FALSE)
    except Raised: pass
    if len(rec) != 1: raise Unsupported("one call of ppca expected")
    if len(seen) != 1: raise Unsupported("one call of _sparse_integrate expected")
    I.pc = rec[0][1]
    A = list(rec[0][2].values())[0]
    I.dims("class map", A, (N_, n))
    (x, i), rng = I.idx((N_, n))
    I.eqs("the integrated class map is what is reduced", I.read(A, (x, i)), Cx(app("re", (x, i), "R"), app("im", (x, i), "R")), rng)


@unit(M + "ComplexProjectiveCoords.get_coordinates")
def alternating(I):
    """lemma: with the rows of make_delta1, h = c - delta nu holds for the alternating extensions on every ordered triple below the threshold"""
    n, thr = I.int("n", 1), I.real("thr")
    c = lambda e: app("vec", (e,), "I")
    h = lambda e: app("h", (e,), "R")
    nu = lambda e: app("nu", (e,), "R")
    ijk = [I.int(v, 0) for v in "ijk"]
    for v in ijk: I.fact(lt(v, n))
    # the representative on the sorted triangle (unit class_map with the rows of make_delta1, C08)
    import itertools
    for a, b, e in itertools.permutations(ijk):
        I.fact(implies(and_(lt(a, b), lt(b, e)), eq(h(N(a, b, e)), sub(c(N(a, b, e)), add(nu(N(a, b)), nu(N(b, e)), mul(-1, nu(N(a, e))))))))
    i, j, t = ijk
    close = [lt(d(i, j), thr), lt(d(i, t), thr), lt(d(j, t), thr)]
    A1 = lambda a, b: alt1(thr, a, b, nu)
    I.ensure("alternating extension of the representative", eq(alt2(thr, i, j, t, h), sub(alt2(thr, i, j, t, c), add(A1(i, j), A1(j, t), mul(-1, A1(i, t))))), close)


@unit(M + "ComplexProjectiveCoords.get_coordinates")
def change_of_ball(I):
    """lemma over the contracts: the phases at two cover sets differ by an integer plus a term that does not depend on the landmark"""
    n, r = I.int("n", 1), I.real("r")
    j, k, i = I.int("j", 0), I.int("k", 0), I.int("i", 0)
    I.fact(lt(j, n), lt(k, n), lt(i, n))
    thr = mul(2, r)
    D = lambda a, b: app("D", (a, b), "R")
    dl = lambda a: app("dl", (a,), "R")
    phi = lambda t: app("phi", (t,), "R")
    nu = lambda a, b: app("nu", (a, b), "R")           # alternating on edges below the threshold
    c = lambda a, b, e: app("c", (a, b, e), "I")
    h = lambda a, b, e: app("h", (a, b, e), "R")
    ALL = lambda g: forall(0, n, g)
    I.fact(lt(dl(j), r), lt(dl(k), r), lt(dl(i), r))
    I.fact(ALL(lambda a: ALL(lambda b: le(D(a, b), add(dl(a), dl(b))))))
    I.fact(ALL(lambda t: and_(le(0, phi(t)), implies(le(r, dl(t)), eq(phi(t), 0)))), eq(sum_(0, n, phi), 1))
    near = lambda *vs: and_(*[lt(D(a, b), thr) for q, a in enumerate(vs) for b in vs[q + 1:]])
    # unit alternating; the integer cocycle condition (C10), all at simplices with vertices whose balls contain the point
    I.fact(ALL(lambda t: implies(lt(dl(t), r), and_(eq(h(i, j, t), sub(c(i, j, t), add(nu(i, j), nu(j, t), mul(-1, nu(i, t))))),
                                                    eq(h(i, k, t), sub(c(i, k, t), add(nu(i, k), nu(k, t), mul(-1, nu(i, t)))))))))
    I.fact(ALL(lambda t: implies(near(i, j, k, t), eq(add(c(j, k, t), mul(-1, c(i, k, t)), c(i, j, t), mul(-1, c(i, j, k))), 0))))
    I.ensure("the simplices spanned by the centres of balls containing the point are below the threshold",
             ALL(lambda t: implies(lt(0, phi(t)), near(i, j, k, t))))
    ph = lambda b: add(nu(i, b), sum_(0, n, lambda t: mul(phi(t), h(i, b, t))))
    common = sum_(0, n, lambda t: mul(phi(t), add(c(j, k, t), nu(j, t), mul(-1, nu(k, t)))))
    I.ensure("the phase changes by a common term minus an integer number of turns", eq(ph(k), sub(add(ph(j), common), c(i, j, k))))
    I.cover("a covered point")
