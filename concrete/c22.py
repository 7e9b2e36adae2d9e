from concrete.common import *
import heapq


def graph(X, k):
    n = len(X)
    D = euclid(X, X)
    W = np.full((n, n), np.inf)
    for i in range(n):
        for j in np.argsort(D[i], kind="stable")[:k]:
            if i != j:
                W[i, j] = min(W[i, j], D[i, j]); W[j, i] = min(W[j, i], D[i, j])
    return W


def dijkstra(W, s):
    n = len(W)
    d = np.full(n, np.inf); d[s] = 0
    h = [(0.0, s)]
    while h:
        x, u = heapq.heappop(h)
        if x > d[u]: continue
        for v in range(n):
            if np.isfinite(W[u, v]) and x + W[u, v] < d[v]:
                d[v] = x + W[u, v]; heapq.heappush(h, (d[v], v))
    return d


def geo(X, M, k):
    X0 = X.copy()
    D, perm = GeometryUtils.landmark_geodesic_distance(X, M, k)
    check(np.array_equal(X, X0), "points modified")
    n = len(X)
    D, perm = np.asarray(D), np.asarray(perm)
    check(D.shape == (M, n) and perm.shape == (n,), "shapes %s %s" % (D.shape, perm.shape))
    W = graph(X0, k)
    G = np.array([dijkstra(W, i) for i in range(n)])
    land = perm[:M]
    ds = G[0].copy()
    check(int(land[0]) == 0, "does not start at the first point")
    for i in range(1, M):
        m = ds.max()
        check(ds[land[i]] == m or abs(ds[land[i]] - m) < 1e-9, "landmark %d is not furthest" % i)
        ds = np.minimum(ds, G[land[i]])
    if len(set(land.tolist())) < M: raise Skip()      # landmarks repeat only when every point already coincides with one
    check(sorted(perm.tolist()) == list(range(n)), "not a permutation of all points")
    check(bool((np.diff(perm[M:]) > 0).all()), "remaining points are not in increasing order")
    want = G[land][:, perm]
    fin = np.isfinite(want)
    check(np.array_equal(fin, np.isfinite(D)), "connectivity differs")
    check(bool((np.abs(D[fin] - want[fin]) < 1e-8).all()), "entries are not the graph distances from landmark to the point at that position")


def large(n, M, seed):
    """more points than the small integer types hold; a line of points, so that distances are those along it"""
    rng = np.random.default_rng(seed)
    x = np.arange(n, dtype=float)
    perm0 = rng.permutation(n)
    D, perm = GeometryUtils.landmark_geodesic_distance(x[perm0][:, None], M, 4)
    perm = np.asarray(perm)
    check(perm.shape == (n,) and np.array_equal(np.sort(perm), np.arange(n)), "not a permutation of all points")
    check(int(perm[0]) == 0, "does not start at the first point")
    check(bool((np.diff(perm[M:]) > 0).all()), "remaining points are not in increasing order")
    y = x[perm0][perm]
    close(np.asarray(D), np.abs(y[:M, None] - y[None, :]), "entries are not the graph distances from landmark to the point at that position", 1e-9)
    ds = np.abs(x[perm0] - y[0])
    for i in range(1, M):
        check(ds[perm[i]] >= ds.max() - 1e-9, "landmark %d is not furthest" % i)
        ds = np.minimum(ds, np.abs(x[perm0] - y[i]))


@mon("C22", jit="nojit")
def gen(rng, tier, R):
    for n, M in ((300, 140), (40000, 3)): R.case(large, n=n, M=M, seed=int(rng.integers(10 ** 6)))
    for t in range(700 if tier == "quick" else 10 ** 4):
        n = int(rng.integers(3, 16))
        X = rng.random((n, int(rng.integers(1, 4))))
        if t % 3 == 0: X[: n // 2] += 10
        k = int(rng.integers(2, n + 1))
        R.case(geo, X=X, M=[1, n, int(rng.integers(1, n + 1))][t % 3 if t % 5 else 2], k=k)

from concrete.forms import register
register("C22", lambda rng: [("geodesic", [np.arange(9)[:, None] ** 2 + rng.integers(0, 2)])])
