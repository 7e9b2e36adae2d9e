from concrete.common import *


def sphere_like(seed, N):
    rng = np.random.default_rng(seed)
    P = rng.normal(size=(N, 3))
    return P / np.linalg.norm(P, axis=1)[:, None]


_CACHE = {}


def cmap(seed, N, L, perc, bump, chk, standard=True, far=0):
    if (seed, N, L) not in _CACHE:
        _CACHE.clear()
        _CACHE[(seed, N, L)] = ComplexProjectiveCoords(sphere_like(seed, N), L)
    o = _CACHE[(seed, N, L)]
    if not len(o._dgms[2]): raise Skip()
    b, d, c = o.get_representative_cocycle(0, 2)
    if not (2 * b if standard else b) < d: raise Skip()
    D0 = o._dist_land_land
    if far:                     # a dissimilarity that breaks the triangle inequality: some close pairs are declared far
        rng = np.random.default_rng(far)
        D1 = np.array(D0)
        for _ in range(far):
            j = int(rng.integers(L))
            k = int(np.argsort(D1[j])[1 + int(rng.integers(3))])
            D1[j, k] = D1[k, j] = 10.0
        o._dist_land_land = D1
    try:
        cmap_run(o, N, L, perc, bump, chk, standard)
    finally:
        o._dist_land_land = D0


def cmap_run(o, N, L, perc, bump, chk, standard):
    log, rs, vec = [], [], []
    with record_ppca(vec), record_lsqr(CPC, log):
        try:
            out = o.get_coordinates(perc=perc, partunity_fn=record_bump(bump, rs), check_cocycle_condition=chk, standard_range=standard)
        except Exception as e:
            if "integral lift" in str(e): raise Skip()
            raise
    if len(log) != 1 or not rs or not vec: raise Skip()
    check(out.shape == (N, 2), "shape %s" % (out.shape,))
    A, coc, tau = log[0]
    D, dist = np.asarray(o._dist_land_land), np.asarray(o._dist_land_data)
    T = table(L, 3)
    thr = 2 * rs[0]
    d1 = np.zeros_like(coc)
    nu, eta = np.zeros((L, L)), np.zeros((L, L, L))
    for i, j in simplices(D, thr, 1):
        nu[i, j] = tau[num((i, j), T)]
        nu[j, i] = -nu[i, j]
    for i, j, k in simplices(D, thr, 2):
        q = num((i, j, k), T)
        h = coc[q] - (tau[num((i, j), T)] + tau[num((j, k), T)] - tau[num((i, k), T)])
        for a, s in (((i, j, k), 1), ((j, k, i), 1), ((k, i, j), 1), ((j, i, k), -1), ((i, k, j), -1), ((k, j, i), -1)):
            eta[a] = s * h
    w, ball, cov = cover(dist, rs[0], bump)
    ph = np.zeros((N, L))
    for x in np.flatnonzero(cov):
        j = ball[x]
        ph[x] = nu[:, j] + eta[:, j, :] @ w[:, x]
    want = np.exp(2j * np.pi * ph) * np.sqrt(w.T)
    got = vec[0]
    check(got.shape == want.shape, "class map shape %s" % (got.shape,))
    close(got[cov], want[cov], "class map", 1e-6)


@mon("C15", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 4):
        if t % 4 == 3:
            R.case(cmap, seed=t // 4, N=int(16 + t // 4 % 3), L=int(16 + t // 4 % 3), perc=.6, bump="linear", chk=True, standard=False)        # every point a landmark
        R.case(cmap, seed=t // 4 + int(rng.integers(10)) * 0, N=int(40 + t // 4 % 3 * 20), L=int(12 + t // 4 % 4), perc=float([.5, .1, .9, .99][t % 4]), bump=["linear", "quadratic"][t % 2], chk=bool(t % 3), standard=t % 4 < 2, far=t // 2 % 3 * 3)


@mon("C15", jit="jit")
def gen_jit(rng, tier, R):
    R.case(cmap, seed=1, N=60, L=16, perc=.5, bump="linear", chk=True, standard=False)
    R.case(cmap, seed=2, N=300, L=20, perc=.3, bump="linear", chk=True, standard=False)
    R.case(cmap, seed=3, N=4200, L=32, perc=.5, bump="linear", chk=True, standard=False)       # class map above 1 MB
    for t in range(0 if tier == "quick" else 12):
        R.case(cmap, seed=4 + t, N=[100, 1500, 4500][t % 3], L=[14, 25, 36][t % 3], perc=.4, bump="quadratic", chk=bool(t % 2), standard=False)
