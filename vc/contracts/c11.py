"""C11: circular coordinates on the cover."""
from .coords import *

USES = {"c03": ("c03_cover",)}

T = "toroidalcoords."


@unit(T + "_integrate_harmonic_representative")
def harmonic(I):
    n, m = I.int("n", 0), I.int("m", 0)
    c = I.inp("c", (m,), "i")
    W = I.sparse("W", (m, m))
    B = I.sparse("B", (m, n))
    h, t = I.run(T + "_integrate_harmonic_representative", c, B, W)
    I.no_raise()
    I.dims("representative", h, (m,))
    I.dims("primitive", t, (n,))
    (e,), rng = I.idx((m,))
    I.ensure("the representative is the cocycle minus the coboundary of the primitive",
             eq(I.read(h, (e,)), sub(app("c", (e,), "I"), sum_(0, n, lambda k: mul(app("B", (e, k), "R"), I.read(t, (k,)))))), rng)
    I.unchanged("cocycle", c, lambda ix: app("c", ix, "I"))


@unit(T + "_sparse_integrate")
def integrate(I):
    n, N_, thr = I.int("n", 1), I.int("N", 0), I.real("thr")
    h = I.inp("h", (count(n, 2),))
    t = I.inp("t", (n,))
    phi = I.inp("phi", (n, N_))
    ball = I.inp("ball", (N_,), "i")
    b = lambda x: app("ball", (x,), "I")
    I.fact(forall(0, N_, lambda x: and_(le(0, b(x)), lt(b(x), n))))
    D = dist(I, n)
    lut = table(I, n, const(2))
    r = I.run(T + "_sparse_integrate", h, t, phi, ball, D, thr, lut)
    I.no_raise()
    I.dims("circle map", r, (N_,))
    (x,), rng = I.idx((N_,))
    val = add(app("t", (b(x),), "R"), sum_(0, n, lambda j: mul(ite(and_(lt(b(x), j), lt(d(b(x), j), thr)), app("h", (N(b(x), j),), "R"), 0), app("phi", (j, x), "R"))))
    I.ensure("value at a point", eq(I.read(r, (x,)), fmod(mul(2, PI, val), mul(2, PI))), rng)
    for nm, a, f in (("representative", h, "h"), ("primitive", t, "t"), ("weights", phi, "phi")):
        I.unchanged(nm, a, lambda ix, f=f: app(f, ix, "R"))
    I.unchanged("cover sets", ball, lambda ix: app("ball", ix, "I"))


def cover_contracts(I, o):
    """contracts of get_cover_radius (C02) and get_covering_partition (C03) for covered points"""
    n, N_ = o.n, o.N
    r = I.real("r")
    phi = lambda l, x: app("phi", (l, x), "R")
    ball = lambda x: app("ball", (x,), "I")
    dl = lambda l, x: app("dl", (l, x), "R")
    I.contracts["emcoords.EMCoords.get_cover_radius"] = lambda I, f, d: (r, mul(2, r))
    I.contracts["emcoords.EMCoords.get_covering_partition"] = lambda I, f, d: (
        I.arr((n, N_), lambda ix: phi(*ix), "f"), I.arr((N_,), lambda ix: ball(ix[0]), "i"))
    I.fact(forall(0, N_, lambda x: and_(le(0, ball(x)), lt(ball(x), n))))
    # facts about one covered point
    def covered(x):
        return [forall(0, n, lambda l: and_(le(0, phi(l, x)), implies(le(r, dl(l, x)), eq(phi(l, x), 0)))), eq(sum_(0, n, lambda l: phi(l, x)), 1),
                lt(dl(ball(x), x), r), forall(0, n, lambda l: implies(lt(l, ball(x)), le(r, dl(l, x)))),
                forall(0, n, lambda a: forall(0, n, lambda b: implies(lt(a, b), le(app("D", (a, b), "R"), add(dl(a, x), dl(b, x))))))]
    return r, phi, ball, covered


def harm_contract(I):
    """contract of _integrate_harmonic_representative (unit harmonic): the representative is the cocycle minus the coboundary of some primitive"""
    def c(I, f, d):
        B = list(d.values())[1]
        if not isinstance(B, Sparse): raise Unsupported("the boundary matrix is not a sparse matrix")
        lv = tuple(I.loopvars) or (const(0),)
        t = I.arr((B.shape[1],), lambda ix: app("tau", lv + tuple(ix), "R"), "f")
        from ..npmodel import matmul, binop
        import ast
        cv = I.arr((B.shape[0],), lambda ix: app("cint", lv + tuple(ix), "I"), "i")
        return (binop(I, ast.Sub(), cv, matmul(I, B, t)), t)
    I.contracts[T + "_integrate_harmonic_representative"] = c


def coordinate(kind):
    def c(I):
        o = emobj(I, kind)
        n, N_ = o.n, o.N
        r, phi, ball, covered = cover_contracts(I, o)
        lift_contract(I)
        harm_contract(I)
        E_ = count(n, 2)
        I.contracts["utils.CohomologyUtils.sparse_cocycle_to_vector"] = lambda I, f, d: I.inp("vec", (E_,), "i")
        I.contracts[T + "_make_inner_product"] = lambda I, f, d: (I.sparse("Wi", (E_, E_)),) * 2
        kw = {"check_cocycle_condition": FALSE}
        if kind == "circular":
            c0 = I.int("c", 0)
            I.fact(lt(c0, o.K))
            res = I.run(Bound(I.get(CLASSES[kind][0] + ".get_coordinates"), o), cocycle_idx=c0, **kw)
            k, rows_ = const(0), [res]
            get = lambda x: I.read(res, (x,))
            I.dims("coordinates", res, (N_,))
        else:
            m = I.int("m", 2)
            at = lambda t: app("idx", (t,), "I")
            I.fact(forall(0, m, lambda t: and_(le(0, at(t)), lt(at(t), o.K))))
            rec = stop_at(I, T + "_reduce_circular_coordinates")
            try:
                I.run(Bound(I.get(CLASSES[kind][0] + ".get_coordinates"), o), cocycle_idxs=SymList(m, at), **kw)
                I.ensure("several maps are decorrelated on every path", FALSE)
            except Raised: pass
            if len(rec) != 1: raise Unsupported("one call of _reduce_circular_coordinates expected")
            lst = list(rec[0][2].values())[0]
            k = I.int("k", 0)
            I.fact(lt(k, m))
            I.pc = rec[0][1]
            I.ensure("as many maps as classes", eq(I.length(lst), m))
            a = I.subscript(lst, (k,))
            I.dims("coordinates", a, (N_,))
            get = lambda x: I.read(a, (x,))
        (x,), rng = I.idx((N_,))
        b = ball(x)
        cc = lambda i, j: ite(lt(i, j), app("cint", (k, N(i, j)), "I"), ite(lt(j, i), mul(-1, app("cint", (k, N(j, i)), "I")), 0))
        tau = lambda j: app("tau", (k, j), "R")
        val = sum_(0, n, lambda j: mul(phi(j, x), add(cc(b, j), tau(j))))
        I.ensure("value at a covered point", eq(get(x), fmod(mul(2, PI, val), mul(2, PI))), rng + covered(x))
        I.ensure("in [0, 2 pi)", and_(le(0, get(x)), lt(get(x), mul(2, PI))), rng)
        I.cover("a covered point", and_(*(rng + covered(x))))
    return c


for kind in ("circular", "toroidal"):
    unit(CLASSES[kind][0] + ".get_coordinates", "coordinate_" + kind)(coordinate(kind))


@unit(T + "ToroidalCoords.get_coordinates")
def change_of_ball(I):
    """lemma over the contract of get_coordinates (units coordinate_*): the value before reduction is sum_j phi_j (c(b, j) + tau_j)"""
    n, r = I.int("n", 1), I.real("r")
    b, k = I.int("b", 0), I.int("k", 0)
    I.fact(lt(b, n), lt(k, n))
    cc = lambda i, j: app("cc", (i, j), "I")
    D = lambda i, j: app("D", (i, j), "R")
    dl = lambda i: app("dl", (i,), "R")
    phi = lambda j: app("phi", (j,), "R")
    thr = mul(2, r)
    # two balls containing the point, the triangle inequality, the weights of a covered point (C03)
    I.fact(lt(dl(b), r), lt(dl(k), r))
    I.fact(forall(0, n, lambda i: forall(0, n, lambda j: le(D(i, j), add(dl(i), dl(j))))))
    I.fact(forall(0, n, lambda j: and_(le(0, phi(j)), implies(le(r, dl(j)), eq(phi(j), 0)))), eq(sum_(0, n, phi), 1))
    # the integer cocycle condition on the complex (C10)
    I.fact(forall(0, n, lambda i: forall(0, n, lambda j: forall(0, n, lambda l: implies(and_(lt(D(i, j), thr), lt(D(j, l), thr), lt(D(i, l), thr)),
                                                                                     eq(add(cc(i, j), cc(j, l)), cc(i, l)))))))
    tau = lambda j: app("tau", (j,), "R")
    v = lambda a: sum_(0, n, lambda j: mul(phi(j), add(cc(a, j), tau(j))))
    I.ensure("the two centres and every landmark with positive weight are pairwise closer than the threshold",
             forall(0, n, lambda j: implies(lt(0, phi(j)), and_(lt(D(k, b), thr), lt(D(b, j), thr), lt(D(k, j), thr)))))
    I.ensure("the value changes by an integer number of turns", eq(v(k), add(v(b), cc(k, b))))
    I.cover("a covered point")
