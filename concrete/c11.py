from concrete.common import *
from concrete.c10 import loops, twist


def circ(P, L, dm, prime, tw, seed, perc, bump, uncovered):
    rng = np.random.default_rng(seed)
    if dm == "rect": o = CircularCoords(euclid(P[:max(L, 3)], P), L, distance_matrix=True, prime=prime)
    elif dm == "square": o = CircularCoords(euclid(P, P), L, distance_matrix=True, prime=prime)
    else: o = CircularCoords(P, L, prime=prime)
    D = o._dist_land_land
    if not len(o._dgms[1]): raise Skip()
    b, d, c = o.get_representative_cocycle(0, 1)
    b, d = float(b), float(d)
    if 2 * b >= d or not np.isfinite(d): raise Skip()
    if uncovered: d = max(2 * b * 1.0001, .5 * d)
    set_class(o, [(b, d, twist(rng, c, len(D), prime, D, d, 1, tw) if tw else np.array(c))])
    log, rs = [], []
    with record_lsqr(TC, log), short_milp(TC):
        try:
            th = np.asarray(o.get_coordinates(perc=perc, partunity_fn=record_bump(bump, rs)))
        except Exception as e:
            if "integral lift" in str(e): raise Skip()
            raise
    if len(log) != 1 or not rs: raise Skip()
    dist = np.asarray(o._dist_land_data)
    N = dist.shape[1]
    check(th.shape == (N,), "shape %s" % (th.shape,))
    w, ball, cov = cover(dist, rs[0], bump)
    _, coc, tau = log[0]
    thr = 2 * rs[0]
    T = table(len(D), 2)
    check(not np.isnan(th[cov]).any(), "undefined coordinate of a covered point")
    check(bool((th[cov] >= 0).all() and (th[cov] <= 2 * np.pi).all()), "coordinate outside [0, 2 pi)")

    def cc(i, j):
        if i == j or not D[i, j] < thr: return 0.0
        return coc[num((i, j), T)] if i < j else -coc[num((j, i), T)]
    for x in np.flatnonzero(cov):
        for i in np.flatnonzero(dist[:, x] < rs[0]):
            v = sum(w[j, x] * (cc(i, j) + tau[j]) for j in range(len(D)) if w[j, x] > 0)
            # sign convention of the primitive: the coboundary used is d0(tau)(i,j) = tau_i - tau_j
            circ_close(th[x], 2 * np.pi * v, "coordinate of point %d through cover set %d" % (x, i), 1e-5)


@mon("C11", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 5):
        m = 1 + t % 2
        n = int(rng.integers(12, 30))
        P = loops(rng, n, m, t % 4 == 3)
        P = P[rng.permutation(len(P))]
        L = int(rng.integers(max(8, len(P) // 3), len(P))) if t % 4 != 3 else len(P)
        R.case(circ, P=P, L=L, dm=["cloud", "rect", "square"][t % 3], prime=int([41, 3, 7, 2, 47][t % 5]), tw=[0, 1.0, .3][t % 3 if t % 2 else 0], seed=int(rng.integers(10 ** 6)),
               perc=float([.5, .1, .99, 0.0][t % 4]), bump=list(BUMPS)[t % 5] if t % 5 != 2 else "linear", uncovered=bool(t % 5 == 4))


@mon("C11", jit="jit")
def gen_jit(rng, tier, R):
    for t in range(3 if tier == "quick" else 30):
        P = loops(rng, 40, 1 + t % 2)
        R.case(circ, P=P, L=30, dm="cloud", prime=41, tw=[0, 1.0][t % 2], seed=t, perc=.5, bump="linear", uncovered=False)
