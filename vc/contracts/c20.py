"""C20: the disk chart of the lens space."""
from ..api import *

F = "utils.LensMapUtils.lens_3D_to_disk_3D"
mag, turn = (lambda i, k: app("mag", (i, k))), (lambda i, k: app("turn", (i, k)))


def points(I, n, by=lambda k: 0):
    """arbitrary points (z, w), z = m0 e^(2 pi i t0) not zero, w = m1 e^(2 pi i t1), turned by the given amount"""
    return I.arr((n, const(2)), lambda ix: polar(mag(*ix), add(turn(*ix), by(ix[1]))), "c")


@unit(F)
def disk(I):
    n, q = I.int("n", 1), I.int("q", 2)
    sphere = lambda i: and_(lt(0, mag(i, 0)), le(0, mag(i, 1)), lt(mag(i, 1), 1), eq(mul(mag(i, 0), mag(i, 0)), sub(1, mul(mag(i, 1), mag(i, 1)))))
    I.fact(forall(0, n, sphere))
    X = points(I, n)
    r = I.run(F, X, q)
    I.no_raise()
    I.dims("image", r, (n, const(3)))
    (i,), rng = I.idx((n,))
    # arg z = t + 2 pi k / q (modulo full turns) with 0 <= t < 2 pi / q
    k = floor(mul(q, turn(i, 0)))
    t = sub(mul(2, PI, turn(i, 0)), div(mul(2, PI, k), q))
    m = mag(i, 1)
    rng = rng + [sphere(i)]
    h = [I.read(r, (i, const(j))) for j in range(3)]
    w = polar(m, sub(turn(i, 1), div(k, q)))
    c = sub(div(mul(q, t), PI), 1)
    I.ensure("t is the argument within its sector", and_(le(0, t), lt(mul(q, t), mul(2, PI))), rng)
    I.ensure("first horizontal coordinate: w turned by -2 pi k/q", eq(h[0], w.re), rng)
    I.ensure("second horizontal coordinate: w turned by -2 pi k/q", eq(h[1], w.im), rng)
    I.ensure("height (q t/pi - 1) sqrt(1 - |w|^2)", eq(h[2], mul(c, sqrt(sub(1, mul(m, m))))), rng)
    # closed unit ball: |w|^2 + c^2 (1 - |w|^2) <= 1 since -1 <= c < 1
    I.ensure("the horizontal part has the length of w", eq(add(mul(h[0], h[0]), mul(h[1], h[1])), mul(m, m)), rng)
    f = fresh("f", "R")
    I.ensure("the height factor", eq(c, sub(mul(2, sub(mul(q, turn(i, 0)), k)), 1)), rng)
    s, H, W = fresh("s", "R"), fresh("H", "R"), fresh("W", "R")
    I.ensure("the image is in the closed unit ball", le(add(W, mul(H, H)), 1), [le(0, f), lt(f, 1), le(0, W), lt(W, 1), eq(mul(s, s), sub(1, W)), eq(H, mul(sub(mul(2, f), 1), s))])
    I.unchanged("input", X, lambda ix: polar(mag(*ix), turn(*ix)))
    # multiplication by a q-th root of unity
    a = I.int("a")
    r2 = I.run(F, points(I, n, lambda k: div(a, q)), q)
    for j in range(3): I.ensure("coordinate %d is invariant under q-th roots of unity" % j, eq(I.read(r2, (i, const(j))), h[j]), rng)
