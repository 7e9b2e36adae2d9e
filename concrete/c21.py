from concrete.common import *


def greedy(D, M):
    perm, lam, ds = [0], [0.0], D[0].copy()
    for i in range(1, M):
        k = int(np.argmax(ds))
        perm.append(k); lam.append(ds[k])
        ds = np.minimum(ds, D[k])
    return perm, np.array(lam), ds


def judge(perm, lam, D, M, what):
    perm = np.asarray(perm)
    lam = np.asarray(lam, dtype=float)
    check(perm.shape == (M,) and lam.shape == (M,), what + ": shapes")
    check(int(perm[0]) == 0, what + ": does not start at the first point")
    ds = D[0].copy()
    for i in range(1, M):
        k = int(perm[i])
        check(ds[k] >= ds.max() * (1 - 1e-12), what + ": landmark %d is not furthest" % i)
        check(k == int(np.flatnonzero(ds == ds.max())[0]) or not np.any(ds[:k] > ds.max() * (1 - 1e-12) + 0) or not exact(D), what + ": tie not resolved to the first point")
        check(abs(lam[i] - ds[k]) <= 1e-9 * (1 + ds[k]), what + ": insertion radius %d" % i)
        ds = np.minimum(ds, D[k])
    check(bool((np.diff(lam[1:]) <= 1e-9).all()), what + ": insertion radii increase")
    check(M < 2 or bool((ds <= lam[-1] + 1e-9).all()), what + ": a point is further than the last insertion radius")


def exact(D):
    return bool(np.array_equal(D, np.round(D)))


def dm(D, M):
    D0 = D.copy()
    r = GeometryUtils.get_greedy_perm_dm(D, M)
    check(np.array_equal(D, D0), "distance matrix modified")
    judge(r["perm"], r["lambdas"], D0, M, "dm")
    close(r["DLandmarks"], D0[np.asarray(r["perm"]), :], "landmark rows", 1e-12)


def l1(X, Y):
    return np.abs(X[:, None, :] - Y[None, :, :]).sum(-1)


def pc(X, M, metric):
    X0 = X.copy()
    r = GeometryUtils.get_greedy_perm_pc(X, M) if metric == "euclid" else GeometryUtils.get_greedy_perm_pc(X, M, l1)
    check(np.array_equal(X, X0), "points modified")
    D = euclid(X0, X0) if metric == "euclid" else l1(X0, X0)
    judge(r["perm"], r["lambdas"], D, M, "pc")
    p = np.asarray(r["perm"])
    close(r["Y"], X0[p], "landmark points", 1e-12)
    close(r["D"], D[p], "landmark rows", 1e-6)


def large(n, M, seed, metric):
    """more points than the small integer types hold"""
    X = np.random.default_rng(seed).random((n, 2))
    X[-1] = [5., 5.]
    if metric == "dm": return dm(euclid(X, X), M)
    r = GeometryUtils.get_greedy_perm_pc(X, M) if metric == "euclid" else GeometryUtils.get_greedy_perm_pc(X, M, l1)
    p = [int(k) for k in r["perm"]]
    check(p[:2] == [0, n - 1], "the second landmark is not the furthest point: %s" % p[:2])
    d = (euclid if metric == "euclid" else l1)(X[[q % n for q in p]], X)
    close(r["Y"], X[[q % n for q in p]], "landmark points", 1e-12)
    close(r["D"], d, "landmark rows", 1e-6)
    ds = d[0].copy()
    for i in range(1, M):
        check(0 <= p[i] < n and ds[p[i]] >= ds.max() * (1 - 1e-9) and abs(float(r["lambdas"][i]) - ds.max()) < 1e-6, "landmark %d is not furthest" % i)
        ds = np.minimum(ds, d[i])


@mon("C21", jit="nojit")
def gen(rng, tier, R):
    for n, M, m in ((300, 12, "dm"), (300, 12, "euclid"), (70001, 3, "euclid"), (40000, 3, "l1")): R.case(large, n=n, M=M, seed=int(rng.integers(10 ** 6)), metric=m)
    for t in range(4000 if tier == "quick" else 10 ** 5):
        n = int(rng.integers(1, 14))
        M = int(rng.integers(1, n + 1))
        if t % 3 == 0: D = sym(rng, n)
        elif t % 3 == 1: D = sym(rng, n, [1., 2., 3.])
        else: D = rng.integers(0, 4, size=(n, n)).astype(float) * (1 - np.eye(n))
        R.case(dm, D=D, M=M)
        X = rng.random((n, 2)) if t % 2 else rng.integers(0, 4, size=(n, 2)).astype(float)
        if t % 2 == 0: X = np.c_[X[:, 0] * 1.0, np.zeros(n)]      # exact distances
        R.case(pc, X=X, M=M, metric=["euclid", "l1"][t // 2 % 2])

from concrete.forms import register


def _sym_int(rng, n):
    D = rng.integers(0, 9, size=(n, n)); D = D + D.T
    np.fill_diagonal(D, 0)
    return D


register("C21", lambda rng: [("greedy_pc", [rng.integers(0, 9, size=(9, 2))]), ("greedy_dm", [_sym_int(rng, 8)])])
