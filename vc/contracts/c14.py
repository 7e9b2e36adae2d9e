"""C14: the class maps of lens and real projective coordinates."""
from .coords import *

USES = {"c03": ("c03_cover",)}


def setup(I, kind, tag=""):
    """runs get_coordinates up to the reduction; returns (object, class map, r, ball function)"""
    o = emobj(I, kind)
    n, N_, p = o.n, o.N, o.p
    if kind == "projective": I.setattr(o, "_prime", 2); o.p = p = const(2)
    c0 = I.int("c", 0)
    I.fact(lt(c0, o.K))
    q = lambda j: (lambda r: coc(c0, r, j, 1))
    R = rows(c0, 1)
    u, v, a = q(0), q(1), q(2)
    # C01 and ripser: rows are distinct edges between landmarks with coefficients in {1..p-1}
    I.fact(forall(0, R, lambda r: and_(le(0, u(r)), lt(u(r), n), le(0, v(r)), lt(v(r), n), not_(eq(u(r), v(r))), le(0, a(r)), lt(a(r), p))))
    # eta(i,j): the alternating cochain listed by the cocycle
    eta = lambda i, j: app("eta", (i, j), "I")
    I.fact(forall(0, R, lambda r: and_(eq(eta(u(r), v(r)), a(r)), eq(eta(v(r), u(r)), mul(-1, a(r))))))
    I.fact(forall(0, n, lambda i: forall(0, n, lambda j: or_(eq(eta(i, j), 0),
           exists(0, R, lambda r: or_(and_(eq(u(r), i), eq(v(r), j)), and_(eq(u(r), j), eq(v(r), i))))))))
    return o, c0, eta


def go(I, o, kind, c0, phi, ball):
    def cover(I, f, d):
        return (I.arr((o.n, o.N), lambda ix: phi(*ix), "f"), I.arr((o.N,), lambda ix: ball(ix[0]), "i"))
    I.contracts["emcoords.EMCoords.get_covering_partition"] = cover
    I.contracts["emcoords.EMCoords.get_cover_radius"] = lambda I, f, d: (var("rcov", "R"), mul(2, var("rcov", "R")))
    rec = stop_at(I, "utils.EquivariantPCA.ppca")
    pc0 = list(I.pc)
    try:
        I.run(Bound(I.get(CLASSES[kind][0] + ".get_coordinates"), o), cocycle_idx=c0)
        I.ensure("the class map is handed to the dimensionality reduction on every path", FALSE)
    except Raised:
        pass
    I.pc = pc0
    if len(rec) != 1: raise Unsupported("one call of ppca expected")
    return list(rec[0][2].values())[0]


def value(kind):
    def c(I):
        o, c0, eta = setup(I, kind)
        phi = lambda l, x: app("phi", (l, x), "R")
        ball = lambda x: app("ball", (x,), "I")
        I.fact(forall(0, o.N, lambda x: and_(le(0, ball(x)), lt(ball(x), o.n))))
        M = go(I, o, kind, c0, phi, ball)
        I.dims("class map", M, (o.N, o.n))
        (x, l), rng = I.idx((o.N, o.n))
        cov = [le(0, phi(l, x))]
        w = I.read(M, (x, l))
        turn = div(eta(ball(x), l), o.p)
        spec = polar(sqrt(phi(l, x)), turn) if kind == "lens" else mul(sqrt(phi(l, x)), ite(eq(fmod(eta(ball(x), l), 2), 0), 1, -1))
        I.eqs("class map entry", w, spec, rng + cov)
        I.cover("a covered point", and_(*(rng + cov)))
        # unit vector
        m2 = lambda k: n_abs2(I.read(M, (x, k)))
        every = [forall(0, o.n, lambda k: le(0, phi(k, x))), eq(sum_(0, o.n, lambda k: phi(k, x)), 1)]
        I.ensure("squared modulus of an entry is the landmark's weight", eq(m2(l), phi(l, x)), rng + cov)
        I.ensure("the squared norm is the sum of the weights, 1", eq(sum_(0, o.n, m2), sum_(0, o.n, lambda k: phi(k, x))), rng[:2] + every)
    return c


def change(kind):
    """lemma over the contract of get_coordinates (class_map_*: entry = sqrt(weight) * root ** eta(ball, landmark), for any ball)"""
    def c(I):
        n, p = I.int("n", 1), (I.int("p", 2) if kind == "lens" else const(2))
        r, j, k, l = I.real("r"), I.int("j", 0), I.int("k", 0), I.int("l", 0)
        for v in (j, k, l): I.fact(lt(v, n))
        eta = lambda a, b: app("eta", (a, b), "I")
        D = lambda a, b: app("D", (a, b), "R")
        dl = lambda a: app("dl", (a,), "R")      # distance from a landmark to the point
        phi = app("phi", (l,), "R")
        I.fact(le(0, phi), lt(dl(j), r), lt(dl(k), r), implies(lt(0, phi), lt(dl(l), r)))
        for a, b in ((j, k), (j, l), (k, l)): I.fact(le(D(a, b), add(dl(a), dl(b))))
        live = [lt(0, phi)]
        I.ensure("the centres of balls containing the point span a simplex below the threshold 2r",
                 and_(lt(D(j, k), mul(2, r)), lt(D(j, l), mul(2, r)), lt(D(k, l), mul(2, r))), live)
        # hence the mod-p cocycle condition (ripser) applies to (k, j, l)
        coc_ = eq(eta(k, l), add(eta(k, j), eta(j, l), mul(p, I.int("turns"))))
        if kind == "lens":
            ent = lambda b: polar(sqrt(phi), div(eta(b, l), p))
            g = polar(1, div(eta(k, j), p))
        else:
            sg = lambda e: ite(eq(fmod(e, 2), 0), const(1), const(-1))
            ent = lambda b: mul(sqrt(phi), sg(eta(b, l)))
            g = sg(eta(k, j))
        I.eqs("another ball multiplies the vector by a p-th root of unity", ent(k), n_mul(g, ent(j)), live + [coc_])
        I.eqs("where the weight vanishes both entries are 0", ent(k), n_mul(g, ent(j)), [eq(phi, 0)])
    return c


for kind in ("lens", "projective"):
    unit(CLASSES[kind][0] + ".get_coordinates", "class_map_" + kind)(value(kind))
    unit(CLASSES[kind][0] + ".get_coordinates", "change_of_ball_" + kind)(change(kind))
