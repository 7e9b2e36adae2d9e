"""C19: the Hopf map."""
from ..api import *

F = "utils.ProjectiveMapUtils.hopf_map"


def point(base, i):
    """coordinates of the i-th point, and its norm"""
    z, w = Cx(app(base + "re", (i, 0)), app(base + "im", (i, 0))), Cx(app(base + "re", (i, 1)), app(base + "im", (i, 1)))
    return z, w


def norm2(z, w): return add(mul(z.re, z.re), mul(z.im, z.im), mul(w.re, w.re), mul(w.im, w.im))


def arr(I, n, base):
    return I.arr((n, const(2)), lambda ix: Cx(app(base + "re", ix), app(base + "im", ix)), "c")


@unit(F)
def hopf(I):
    n = I.int("n", 1)
    X = arr(I, n, "x")
    r = I.run(F, X)
    I.no_raise()
    I.dims("image", r, (n, const(3)))
    (i,), rng = I.idx((n,))
    z, w = point("x", i)
    h = [I.read(r, (i, const(k))) for k in range(3)]
    c = n_mul(z, n_conj(w))
    I.ensure("first coordinate", eq(h[0], mul(2, c.re)), rng)
    I.ensure("second coordinate", eq(h[1], mul(2, c.im)), rng)
    I.ensure("third coordinate", eq(h[2], sub(add(mul(z.re, z.re), mul(z.im, z.im)), add(mul(w.re, w.re), mul(w.im, w.im)))), rng)
    s2 = add(*[mul(t, t) for t in h])
    I.ensure("|h|^2 is |v|^4", eq(s2, mul(norm2(z, w), norm2(z, w))), rng)
    S, M = fresh("S", "R"), fresh("M", "R")
    I.ensure("unit vectors go to unit vectors", eq(S, 1), [eq(S, mul(M, M)), eq(M, 1)])
    I.unchanged("input", X, lambda ix: Cx(app("xre", ix), app("xim", ix)))
    # the fibres: another argument, read through the same contract
    Y = I.arr((n, const(2)), lambda ix: n_mul(Cx(app("ure", (ix[0],)), app("uim", (ix[0],))), Cx(app("xre", ix), app("xim", ix))), "c")
    r2 = I.run(F, Y)
    u2 = add(mul(app("ure", (i,)), app("ure", (i,))), mul(app("uim", (i,)), app("uim", (i,))))
    for k in range(3):
        I.ensure("coordinate %d scales with |u|^2" % k, eq(I.read(r2, (i, const(k))), mul(u2, h[k])), rng)
        I.ensure("coordinate %d is the same for unit multiples" % k, eq(I.read(r2, (i, const(k))), h[k]), rng + [eq(u2, 1)])
    # different fibres have different images
    r3 = I.run(F, arr(I, n, "y"))
    (j,), rng2 = I.idx((n,))
    a, b = point("y", j)
    g = [I.read(r3, (j, const(k))) for k in range(3)]
    # for unit vectors |<v, v'>|^2 = (1 + <h, h'>) / 2: equal images force |<v, v'>| = 1, and then v' = <v', v> v
    ip = n_add(n_mul(a, n_conj(z)), n_mul(b, n_conj(w)))
    unit_ = [eq(norm2(z, w), 1), eq(norm2(a, b), 1)]
    dot = add(*[mul(s, t) for s, t in zip(g, h)])
    n1, n2 = norm2(z, w), norm2(a, b)
    I.ensure("inner product of the images", eq(add(mul(2, add(mul(ip.re, ip.re), mul(ip.im, ip.im))), mul(-1, n1, n2)), dot), rng + rng2)
    defect = norm2(n_sub(a, n_mul(ip, z)), n_sub(b, n_mul(ip, w)))
    ip2 = add(mul(ip.re, ip.re), mul(ip.im, ip.im))
    I.ensure("distance to the multiple <v',v> v", eq(defect, add(n2, mul(-2, ip2), mul(ip2, n1))), rng + rng2)
    p = fresh("p", "R"); d = fresh("d", "R"); q = fresh("q", "R")
    # 2 p - 1 = dot, dot = |h|^2 = 1, defect = 1 - 2 p + p
    I.ensure("points with the same image are unit multiples of each other", and_(eq(q, 0), eq(p, 1)), [eq(sub(mul(2, p), 1), d), eq(d, 1), eq(q, add(1, mul(-2, p), p))])
