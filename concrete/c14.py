from concrete.common import *


def cmap(kind, P, L, prime, dm, listed, perc, bump, mode):
    if dm == "rect": X, k = euclid(P[:L], P), {"distance_matrix": True}
    elif dm == "square": X, k = euclid(P, P), {"distance_matrix": True}
    else: X, k = P, {}
    if kind == "rp": o, prime = ProjectiveCoords(X, L, **k), 2
    else: o = LensCoords(X, L, prime=prime, **k)
    D = np.asarray(o._dist_land_land)
    n = len(D)
    dist = np.asarray(o._dist_land_data)
    d = float(np.median(D[np.triu_indices(n, 1)])) * 1.2
    c = np.array([r for r in listed if r[0] < n and r[1] < n and r[2] % prime], dtype=int).reshape(-1, 3)
    c[:, 2] %= prime
    set_class(o, [(0.0, d, c.copy())])
    log, rs = [], []
    with record_ppca(log):
        kw = dict(perc=perc, partunity_fn=record_bump(bump, rs), projective_dim_red_mode=mode)
        out = o.get_coordinates(proj_dim=2, **kw) if kind == "rp" else o.get_coordinates(complex_dim=2, **kw)
    N = dist.shape[1]
    check(np.shape(out) == (N, 3 if kind == "rp" else 2), "shape of the coordinates %s" % (np.shape(out),))
    if not log or not rs: raise Skip()
    check(np.iscomplexobj(out) == (kind == "lens"), "real coordinates are complex or complex ones real")
    w, ball, cov = cover(dist, rs[0], bump)
    f = cocycle_fn1(c, n)
    want = np.zeros((N, n), dtype=complex)
    for b in range(N):
        want[b] = np.sqrt(w[:, b]) * np.exp(2j * np.pi * f[ball[b]] / prime) if cov[b] else np.nan
    got = log[0]
    check(got.shape == want.shape, "class map shape %s" % (got.shape,))
    close(got[cov], want[cov], "class map", 1e-7)
    close(np.linalg.norm(got[cov], axis=1), np.ones(cov.sum()), "unit vectors", 1e-7)


@mon("C14", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 5):
        n = int(rng.integers(10, 26))
        P = rng.random((n, 2))
        L = int(rng.integers(5, n - 2))
        rows = []
        for i in range(L):
            for j in range(i + 1, L):
                if rng.random() < .5:
                    v = int(rng.integers(1, 1000))
                    rows.append([i, j, v] if rng.random() < .5 else [j, i, v])
        R.case(cmap, kind=["rp", "lens"][t % 2], P=P, L=L, prime=int([3, 5, 2, 7, 41][t // 2 % 5]), dm=["cloud", "rect", "square"][t % 3], listed=rows,
               perc=float([.9, .5, .1][t % 3]), bump=["linear", "quadratic", "const"][t % 3], mode=["exponential", "direct", "one-by-one"][t % 3])


def torsor(kind, n, prime):
    """with the real class of a projective / lens-like sample: other balls multiply the vector by one root of unity"""
    if kind == "rp":
        X, D = GeometryExamples.rp2_metric(n)
        o = ProjectiveCoords(D, 35, distance_matrix=True)
    else:
        D, _ = GeometryExamples.moore_space_distance_matrix(n, 3)
        o = LensCoords(D, 45, distance_matrix=True, prime=3)
    c = np.array(o.get_representative_cocycle(0, 1)[2])
    log, rs = [], []
    with record_ppca(log):
        try:
            o.get_coordinates(perc=.5, partunity_fn=record_bump("linear", rs), standard_range=False)
        except AssertionError:
            raise
    if not log or not rs: raise Skip()
    dist = np.asarray(o._dist_land_data)
    w, ball, cov = cover(dist, rs[0], "linear")
    f = cocycle_fn1(c, dist.shape[0])
    for b in np.flatnonzero(cov)[:200]:
        ins = np.flatnonzero(dist[:, b] < rs[0])
        for i in ins:
            if all(o._dist_land_land[i, j] < 2 * rs[0] for j in ins):
                v = np.sqrt(w[:, b]) * np.exp(2j * np.pi * f[i] / prime)
                s = np.vdot(v[ins], log[0][b][ins])
                check(abs(abs(s) - 1) < 1e-6 and abs(s ** prime - 1) < 1e-5, "point %d, ball %d: not a root-of-unity multiple" % (b, i))


@mon("C14", jit="jit")
def gen2(rng, tier, R):
    R.case(torsor, kind="rp", n=150, prime=2)
    R.case(torsor, kind="lens", n=250, prime=3)
