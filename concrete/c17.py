from concrete.common import *

TAU = 2 * np.pi


def rng_ok(v, msg):
    check(not np.isnan(v).any() and bool((v >= 0).all() and (v <= TAU).all()), msg + " outside [0, 2 pi)")


def offset(c, o):
    c0 = c.copy()
    v = np.asarray(CircleMapUtils.offset(c, o))
    check(np.array_equal(c, c0), "input modified")
    check(v.shape == c.shape, "shape")
    rng_ok(v, "offset")
    circ_close(v, c0 + o * TAU, "offset is not the rotation by %r turns" % o, 1e-6)


def center(c):
    c0 = c.copy()
    v = np.asarray(CircleMapUtils.center(c))
    check(np.array_equal(c, c0), "input modified")
    check(v.shape == c.shape, "shape")
    rng_ok(v, "center")
    vals, ticks = np.histogram(c0, bins=50)
    d = v - c0
    circ_close(d, np.full(d.shape, d.ravel()[0]), "not one common rotation", 1e-6)
    ok = [k for k in range(50) if vals[k] == vals.max()]
    e = [abs(((d.ravel()[0] - (np.pi - ticks[k])) + np.pi) % TAU - np.pi) for k in ok]
    check(min(e) < 1e-6, "the left edge of the most populated bin is not sent to pi")


def lincomb(maps, M, as_list):
    m0, M0 = maps.copy(), M.copy()
    a, b = (maps.tolist(), M.tolist()) if as_list else (maps, M)
    v = np.asarray(CircleMapUtils.linear_combination(a, b))
    check(np.array_equal(maps, m0) and np.array_equal(M, M0), "input modified")
    want = M0 @ m0
    check(v.shape == want.shape, "shape %s" % (v.shape,))
    rng_ok(v, "linear combination")
    circ_close(v, want, "not the integer combination", 1e-6)


def sinebow(c, k):
    c0 = c.copy()
    v = np.asarray(CircleMapUtils.to_sinebow(c))
    check(np.array_equal(c, c0), "input modified")
    check(v.shape == c.shape + (3,), "shape %s" % (v.shape,))
    check(bool((v >= 0).all() and (v <= 1).all()), "colour outside [0, 1]")
    close(np.asarray(CircleMapUtils.to_sinebow(c + TAU * k)), v, "depends on the representative of the angle", 1e-6)


def levels(c, n, smoothing, k):
    c0 = c.copy()
    v = np.asarray(CircleMapUtils.levelset_coloring(c, n_levelsets=n, smoothing=smoothing), dtype=float)
    check(np.array_equal(c, c0), "input modified")
    check(v.shape == c.shape, "shape %s" % (v.shape,))
    check(bool((v >= 0).all() and (v <= 1).all()), "membership outside [0, 1]")
    x = (c0 / TAU * 2 * n)
    safe = np.abs(x - np.round(x)) > 1e-6
    v2 = np.asarray(CircleMapUtils.levelset_coloring(c0 + TAU * k, n_levelsets=n, smoothing=smoothing), dtype=float)
    close(v2[safe], v[safe], "depends on the representative of the angle", 1e-5)
    if smoothing == 0:
        check(set(np.unique(v)) <= {0.0, 1.0}, "unsmoothed membership is not 0 or 1")
        arc = np.floor(x).astype(int) % (2 * n)
        cols = [set(v[safe & (arc == a)]) for a in range(2 * n)]
        check(all(len(s) <= 1 for s in cols), "an arc has two colours")
        for a in range(2 * n):
            s, s2 = cols[a], cols[(a + 1) % (2 * n)]
            if s and s2: check(s != s2, "consecutive arcs have the same colour")


@mon("C17", jit="nojit")
def gen(rng, tier, R):
    for t in range(4000 if tier == "quick" else 10 ** 5):
        n = int(rng.integers(1, 30))
        c = rng.random(n) * TAU
        if t % 7 == 0: c = np.round(c * 8 / TAU) * TAU / 8
        if t % 11 == 0: c = np.concatenate([c, np.full(20, float(rng.random() * TAU))])
        R.case(offset, c=c, o=float(rng.choice([0.0, 1.0, .5, rng.random(), -rng.random(), 3.7])))
        R.case(center, c=c if t % 5 else c.reshape(1, -1))
        k, l = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        maps = rng.random((k, n)) * TAU
        M = rng.integers(-5, 6, size=(l, k)) if t % 3 else rng.integers(-5, 6, size=k)
        R.case(lincomb, maps=maps, M=M, as_list=bool(t % 4 == 1))
        R.case(sinebow, c=c if t % 3 else c.reshape(-1, 1), k=int(rng.integers(-2, 3)))
        m = int(rng.integers(1, 9))
        grid = (np.arange(2 * m * 5) + .5) / (2 * m * 5) * TAU
        R.case(levels, c=grid if t % 2 else c, n=m, smoothing=float(rng.choice([0, 0, .25, .1, 1.0])), k=int(rng.integers(0, 3)))

from concrete.forms import register
register("C17", lambda rng: [(n, [rng.integers(0, 6, size=9)]) for n in ("offset", "center", "to_sinebow", "levelset_coloring")] + [("linear_combination", [rng.integers(0, 6, size=(2, 9)), rng.integers(-2, 3, size=(3, 2))])])
