"""C18: rotations and stereographic charts."""
from ..api import *

P_ = "utils.ProjectiveMapUtils."
A_ = lambda j: app("a", (j,), "R")
B_ = lambda j: app("b", (j,), "R")
EPS = Fraction(1e-15)


def dot(d, f, g): return sum_(0, d, lambda j: mul(f(j), g(j)))


def shape(lam, beta, b, c):
    """I - (1 - lam) (c c^T + b b^T) + beta (b c^T - c b^T)"""
    return lambda i, j: add(ite(eq(i, j), 1, 0), mul(sub(lam, 1), add(mul(c(i), c(j)), mul(b(i), b(j)))), mul(beta, sub(mul(b(i), c(j)), mul(c(i), b(j)))))


def rotation(target):
    def contract(I):
        d = I.int("d", 2)
        a, b = I.inp("a", (d,)), I.inp("b", (d,)) if target else None
        na, nb = dot(d, A_, A_), dot(d, B_, B_)
        I.fact(lt(0, na))
        if target: I.fact(lt(0, nb))
        I.abstract_unit = True
        r = I.run(P_ + "rotmat", a, b) if target else I.run(P_ + "rotmat", a)
        I.no_raise()
        I.dims("rotation", r, (d, d))
        W = getattr(I, "unit_vectors", [])
        if len(W) < 3: raise Unsupported("the rotation is not built from normalised vectors")
        w = [(lambda j, nm=W[k][0]: app(nm, (j,), "R")) for k in range(len(W))]
        u0, u1, c = w[0], w[1], w[-1]
        I.unchanged("a", a, lambda ix: A_(*ix))
        if target: I.unchanged("b", b, lambda ix: B_(*ix))
        (i, j), rng = I.idx((d, d))
        I.ensure("the first direction is that of a", eq(W[0][1](i), A_(i)), rng)
        I.ensure("the second direction is that of the target", eq(W[1][1](i), B_(i) if target else ite(eq(i, sub(d, 1)), 1, 0)), rng)
        one = []
        for k, nm in ((0, "a"), (1, "b")):
            S = W[k][2]
            I.claim(nm + " is not zero", lt(0, S), [lt(0, na) if k == 0 else lt(0, nb)] if k == 0 or target else [le(2, d)])
            one.append(eq(dot(d, w[k], w[k]), 1))
            I.claim(nm + " is normalised", one[k], [lt(0, S), normalised(w[k], W[k])])
        lam, beta = dot(d, u1, u0), dot(d, c, u0)
        e0 = lambda j: sub(u0(j), mul(lam, u1(j)))
        S0 = dot(d, e0, e0)
        near = lt(sqrt(S0), EPS)
        v = I.read(r, (i, j))
        R = shape(lam, beta, u1, c)
        I.ensure("the entries", eq(v, ite(and_(near, lt(0, lam)), ite(eq(i, j), 1, 0), R(i, j))), rng)
        I.claim("the part of a orthogonal to b", eq(S0, sub(1, mul(lam, lam))), one)
        # orthonormality of b and c
        for case in (True, False):
            here = "antiparallel" if case else "general"
            vals, Ss = [None] * len(W), [None] * len(W)
            orth = []
            for k in range(2, len(W)):
                nm, val, S, n = W[k]
                K = "%s, c%d: " % (here, k - 1)
                q = fresh("q")
                at = assume(val(q), near, case)
                val = lambda j: subst(at, {q: const(j)})
                S = dot(d, val, val)
                I.claim(K + "the length of the branch", eq(assume(W[k][2], near, case), S))
                I.claim(K + "its direction is orthogonal to b", eq(dot(d, u1, val), 0), one + orth)
                if k == 2 and case:
                    # the coordinate vector of the smallest entry of b, made orthogonal to b: its length is 1 - b_m^2
                    m = binder("argmin", 0, d, lambda j: absv(u1(j)))
                    h, g, l = fresh("h", "R"), fresh("g"), fresh("l")
                    mm = mul(u1(m), u1(m))
                    I.claim(K + "the squared length", eq(generalise(S, m, g), sub(1, mul(u1(g), u1(g)))), one + [le(0, g), lt(g, d)])
                    I.claim(K + "the index exists", and_(le(0, m), lt(m, d)), [le(2, d)])
                    I.claim(K + "the smallest entry", le(mm, mul(u1(l), u1(l))), [le(2, d), le(0, l), lt(l, d)])
                    sq = lambda j: app("sq", (j,), "R")
                    over = sum_(0, d, lambda j: sub(sq(j), h))
                    I.claim(K + "the excess over the smallest of the squares", le(0, over), [forall(0, d, lambda j: le(h, sq(j)))])
                    I.claim(K + "the excess over the smallest of squares adding up to 1", eq(over, sub(1, mul(d, h))), [le(2, d), eq(sum_(0, d, sq), 1)])
                    I.claim(K + "the smallest of two or more squares adding up to 1 is at most 1/2", le(mul(2, h), 1), [le(2, d), le(0, h), le(0, sub(1, mul(d, h)))])
                    I.claim(K + "it is not zero", lt(0, S), [eq(S, sub(1, h)), le(mul(2, h), 1)])
                elif k == 2:
                    I.claim(K + "it is not zero", lt(0, S), [not_(near)])
                else:
                    I.claim(K + "it is not zero", lt(0, S), one + orth)
                I.claim(K + "it is normalised", eq(dot(d, w[k], w[k]), 1), [lt(0, S), normalised(w[k], (nm, val, S))])
                x = subst_apps(dot(d, u1, w[k]), {nm: lambda q: div(val(q), sqrt(S))})
                X, Y, Z = fresh("X", "R"), fresh("Y", "R"), fresh("Z", "R")
                I.claim(K + "the normalised direction", eq(x, div(dot(d, u1, val), sqrt(S))))
                I.claim(K + "it is orthogonal to b", eq(X, 0), [eq(X, div(Y, Z)), eq(Y, 0), lt(0, Z)])
                I.claim(K + "its length is not zero", lt(0, sqrt(S)), [lt(0, S)])
                orth = orth + [eq(dot(d, w[k], w[k]), 1), eq(dot(d, u1, w[k]), 0)]
            # the rotation coefficients: lam = b.a, beta = c.a
            if not case:
                p = fresh("p")
                for k in range(2, len(W)):
                    nm, val, S, n = W[k]
                    at = assume(val(p), near, False)
                    if k == 2:
                        I.claim(here + ": the first direction is the part of a orthogonal to b", eq(at, e0(p)))
                    else:
                        I.claim(here + ": c%d is c%d (length)" % (k - 1, k - 2), eq(assume(S, near, False), 1), one + [eq(dot(d, u1, w[k - 1]), 0), eq(dot(d, w[k - 1], w[k - 1]), 1)])
                        I.claim(here + ": c%d is c%d (direction)" % (k - 1, k - 2), eq(at, w[k - 1](p)), [eq(dot(d, u1, w[k - 1]), 0)])
                        I.claim(here + ": c%d is c%d" % (k - 1, k - 2), eq(w[k](p), w[k - 1](p)), [eq(mul(sqrt(S), w[k](p)), w[k - 1](p)), eq(S, 1)])
                root = sqrt(S0)
                x = subst_apps(beta, {W[-1][0]: lambda q: div(e0(q), root)})
                I.claim(here + ": beta", eq(x, div(dot(d, e0, u0), root)))
                I.claim(here + ": the part of a orthogonal to b against a", eq(dot(d, e0, u0), sub(1, mul(lam, lam))), one)
                s, l, be = fresh("s", "R"), fresh("l", "R"), fresh("be", "R")
                I.claim(here + ": lam and beta are a cosine and a sine", and_(eq(be, s), eq(add(mul(l, l), mul(be, be)), 1)), [lt(0, s), eq(mul(s, s), sub(1, mul(l, l))), eq(be, div(sub(1, mul(l, l)), s))])
            else:
                # a exactly opposite to b
                opp = lambda t: subst_apps(t, {W[0][0]: lambda q: mul(-1, u1(q))})
                I.claim(here + ": lam is -1 for a = -b", eq(opp(lam), -1), one)
                I.claim(here + ": beta is 0 for a = -b", eq(opp(beta), 0), orth)
                # a within 1e-15 of -b: the defect of orthogonality is at most 1e-30
                rest = lambda j: sub(e0(j), mul(beta, c(j)))
                I.claim(here + ": defect", eq(dot(d, rest, rest), sub(S0, mul(beta, beta))), orth)
                I.claim(here + ": defect is not negative", le(0, dot(d, rest, rest)))
                s, l, be = fresh("s", "R"), fresh("l", "R"), fresh("be", "R")
                I.claim(here + ": lam^2 + beta^2 is 1 up to 1e-30", and_(le(add(mul(l, l), mul(be, be)), 1), lt(sub(1, mul(EPS, EPS)), add(mul(l, l), mul(be, be)))),
                        [eq(s, sub(1, mul(l, l))), le(0, sub(s, mul(be, be))), lt(s, mul(EPS, EPS))])
        # a within 1e-15 of b: the identity moves a to within 1.5e-15 of b
        diff = lambda j: sub(u0(j), u1(j))
        I.claim("aligned: distance of a and b", eq(dot(d, diff, diff), sub(2, mul(2, lam))), one)
        l = fresh("l", "R")
        I.claim("aligned: a and b differ by less than 1.5e-15", lt(sub(2, mul(2, l)), mul(2, EPS, EPS)), [lt(0, l), lt(sub(1, mul(l, l)), mul(EPS, EPS))])
    return contract


# the matrix of the shape established above, with b, c orthonormal and lam^2 + beta^2 = 1: R R^T = 1, det R = 1 and R (lam b + beta c) = b
LEAN = ["Rotation.lean"]


def normalised(u, W):
    nm, val, S = W[:3]
    return implies(lt(0, S), eq(sum_(0, var("d"), lambda j: mul(u(j), u(j))), 1))


unit(P_ + "rotmat", "rotmat")(rotation(True))
unit(P_ + "rotmat", "rotmat_north")(rotation(False))


R_ = lambda i, j: app("Rm", (i, j), "R")


def rotmat_contract(I, d, first=None):
    """a matrix preserving lengths (R R^T = 1), for a direction that is not zero"""
    seen = []

    def rotmat(I, f, a):
        v = list(a.values())[0]
        if not isinstance(v, Arr) or len(v.shape) != 1: raise Unsupported("rotmat argument")
        I.ensure("the length of the direction rotated to the last axis", eq(v.shape[0], d))
        rd = I.reader(v)
        seen.append(rd)
        if first: I.ensure("the direction rotated to the last axis", eq(rd((first[1],)), first[0](first[1])), [le(0, first[1]), lt(first[1], d)])
        if len(a) > 1 and list(a.values())[1].shape[0] is not const(0): raise Unsupported("rotmat target")
        return I.arr((d, d), lambda ix: R_(*ix), "f")
    I.contracts[P_ + "rotmat"] = rotmat
    return seen


def projective(given):
    def contract(I):
        d, N = I.int("d", 2), I.int("N", 1)
        x = lambda n, j: app("x", (n, j), "R")
        flip = lambda n: app("flip", (n,), "B")
        I.inp("x", (N, d))
        u = I.inp("u", (d,)) if given else None
        q = fresh("q")
        seen = rotmat_contract(I, d, (lambda j: app("u", (j,), "R"), q) if given else None)
        a = I.arr((N, d), lambda ix: x(*ix), "f")
        b = I.arr((N, d), lambda ix: ite(flip(ix[0]), mul(-1, x(*ix)), x(*ix)), "f")
        args = [u] if given else []
        r = I.run(P_ + "get_stereo_proj_codim1", a, *args)
        s = I.run(P_ + "get_stereo_proj_codim1", b, *args)
        I.no_raise() if given else None
        I.dims("chart", r, (N, sub(d, 1)))
        I.unchanged("points", a, lambda ix: x(*ix))
        if len(seen) != 2: raise Unsupported("the chart does not rotate its pole with rotmat")
        I.ensure("the pole does not depend on the representatives", eq(seen[0]((q,)), seen[1]((q,))), [le(0, q), lt(q, d)])
        (n, i), rng = I.idx((N, sub(d, 1)))
        y = lambda k: sum_(0, d, lambda j: mul(R_(k, j), x(n, j)))
        top = y(sub(d, 1))
        v, w = I.read(r, (n, i)), I.read(s, (n, i))
        den = add(1, absv(top))
        one = ite(lt(top, 0), -1, 1)
        I.ensure("the stereographic image of the representative in the upper hemisphere", eq(v, div(mul(one, y(i)), den)), rng)
        I.ensure("the same point for x and -x off the equator", eq(v, w), rng + [not_(eq(top, 0))])
        # the closed unit ball
        S = sum_(0, sub(d, 1), lambda k: mul(y(k), y(k)))
        I.ensure("squared length", eq(sum_(0, sub(d, 1), lambda k: mul(I.read(r, (n, k)), I.read(r, (n, k)))), div(S, mul(den, den))), rng[:2])
        yy = lambda k: app("yy", (k,), "R")
        I.claim("squared length without the last coordinate", eq(sum_(0, sub(d, 1), lambda k: mul(yy(k), yy(k))), sub(1, mul(yy(sub(d, 1)), yy(sub(d, 1))))),
                [le(2, d), eq(sum_(0, d, lambda k: mul(yy(k), yy(k))), 1)])       # |R x| = |x| = 1: lean/Rotation.lean
        t, z = fresh("t", "R"), fresh("z", "R")
        I.claim("closed unit ball", le(div(sub(1, mul(t, t)), mul(add(1, absv(t)), add(1, absv(t)))), 1))
    return contract


unit(P_ + "get_stereo_proj_codim1", "chart_given_pole")(projective(True))
unit(P_ + "get_stereo_proj_codim1", "chart_principal_pole")(projective(False))


def hemispheres(given):
    def contract(I):
        d, N = I.int("d", 2), I.int("N", 0)
        x = lambda n, j: app("x", (n, j), "R")
        X = I.inp("x", (N, d))
        u = I.inp("u", (d,)) if given else None
        q = fresh("q")
        seen = rotmat_contract(I, d, ((lambda j: app("u", (j,), "R")) if given else (lambda j: ite(eq(j, sub(d, 1)), 1, 0)), q))
        r = I.run(P_ + "stereographic_projection_hemispheres", X, *([u] if given else []))
        I.no_raise()
        I.dims("disks", r, (N, sub(d, 1)))
        I.unchanged("points", X, lambda ix: x(*ix))
        if given: I.unchanged("centre", u, lambda ix: app("u", tuple(ix), "R"))
        if len(seen) != 1: raise Unsupported("the centre is not rotated with rotmat")
        (n, i), rng = I.idx((N, sub(d, 1)))
        y = lambda k: sum_(0, d, lambda j: mul(R_(k, j), x(n, j)))
        top = y(sub(d, 1))
        img = lambda i: div(y(i), add(1, absv(top)))
        I.ensure("the stereographic image of its hemisphere, the upper one shifted by 2.5 along the first axis",
                 eq(I.read(r, (n, i)), add(img(i), ite(and_(le(0, top), eq(i, 0)), Fraction(5, 2), 0))), rng)
        I.ensure("the lower hemisphere is projected from the north pole", eq(img(i), div(y(i), sub(1, top))), rng + [lt(top, 0)])
        I.ensure("the upper hemisphere is projected from the south pole", eq(img(i), div(y(i), add(1, top))), rng + [le(0, top)])
        S = sum_(0, sub(d, 1), lambda k: mul(y(k), y(k)))
        I.ensure("squared length", eq(sum_(0, sub(d, 1), lambda k: mul(img(k), img(k))), div(S, mul(add(1, absv(top)), add(1, absv(top))))), rng[:2])
        # S = 1 - top^2 and the closed disk: as for the projective chart
    return contract


unit(P_ + "stereographic_projection_hemispheres", "hemispheres_given_centre")(hemispheres(True))
unit(P_ + "stereographic_projection_hemispheres", "hemispheres_default_centre")(hemispheres(False))


@unit(P_ + "circle_to_3dnorthpole")
def lift_to_hemisphere(I):
    x = I.inp("x", (2,))
    X = lambda j: app("x", (const(j),), "R")
    m = add(mul(X(0), X(0)), mul(X(1), X(1)))
    r = I.run(P_ + "circle_to_3dnorthpole", x)
    I.no_raise()
    p, u = I.subscript(r, (const(0),)) if not isinstance(r, tuple) else r[0], I.subscript(r, (const(1),)) if not isinstance(r, tuple) else r[1]
    I.dims("direction", u, (3,))
    U = [I.read(u, (const(k),)) for k in range(3)]
    I.unchanged("point", x, lambda ix: app("x", tuple(ix), "R"))
    I.ensure("upper hemisphere", le(0, U[2]))
    I.ensure("above the point inside the disk", and_(eq(U[0], X(0)), eq(U[1], X(1))), [le(m, 1)])
    I.ensure("the nearest point of the circle outside the disk", and_(eq(U[0], div(X(0), sqrt(m))), eq(U[1], div(X(1), sqrt(m))), eq(U[2], 0)), [lt(1, m)])
    I.ensure("the selected point is the first two coordinates", and_(eq(I.read(p, (const(0),)), U[0]), eq(I.read(p, (const(1),)), U[1])))
    I.ensure("unit length inside", eq(add(*[mul(v, v) for v in U]), 1), [le(m, 1)])
    I.ensure("unit length outside", eq(add(mul(U[0], U[0]), mul(U[1], U[1])), 1), [lt(1, m)])
