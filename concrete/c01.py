from concrete.common import *
from ripser import ripser


def construct(X, n_landmarks, distance_matrix, prime, maxdim, cls):
    X0 = X.copy()
    if cls == "em":
        o = EMCoords(X, n_landmarks, distance_matrix, prime, maxdim, False)
    else:
        C = {"tor": ToroidalCoords, "circ": CircularCoords, "lens": LensCoords, "cp": ComplexProjectiveCoords, "rp": ProjectiveCoords}[cls]
        k = {} if cls == "rp" else {"prime": prime}
        o = C(X, n_landmarks, distance_matrix=distance_matrix, maxdim=maxdim, **k)
        prime = 2 if cls == "rp" else prime
    sub = X0[:, :X0.shape[0]] if distance_matrix and X0.shape[0] != X0.shape[1] else X0
    ref = ripser(sub.copy(), distance_matrix=distance_matrix, coeff=prime, maxdim=maxdim, n_perm=n_landmarks, do_cocycles=True)
    land = np.array(ref["idx_perm"])
    L = len(land)
    pos = {int(v): k for k, v in enumerate(land)}
    for dim in range(1, maxdim + 1):
        dg, cc = ref["dgms"][dim], ref["cocycles"][dim]
        k = len(dg)
        got = []
        for idx in range(k):
            b, d, c = o.get_representative_cocycle(idx, dim)
            got.append((float(b), float(d), np.array(c)))
        pers = [d - b for b, d, _ in got]
        check(all(x >= y for x, y in zip(pers, pers[1:])), "diagram %d not in non-increasing order of persistence" % dim)
        left = list(range(k))
        for b, d, c in got:
            hit = None
            for t in left:
                want = np.array(cc[t]).copy()
                if len(want):
                    want[:, :-1] = [[pos.get(int(v), -1) for v in row] for row in want[:, :-1]]
                if float(dg[t, 0]) == b and float(dg[t, 1]) == d and want.shape == c.shape and sorted(map(tuple, want.tolist())) == sorted(map(tuple, c.tolist())):
                    hit = t
                    break
            check(hit is not None, "class of dimension %d with lifetime (%r, %r) is not paired with its own representative cocycle in landmark numbering" % (dim, b, d))
            left.remove(hit)
    D = getattr(o, "_dist_land_data", None)
    if D is not None:
        if not distance_matrix:
            want = euclid(X0[land], X0)
        else:
            want = X0[land, :]
        check(D.shape == want.shape, "landmark-to-data distances have shape %s" % (D.shape,))
        check(np.abs(D - want).max() < 1e-4 * (1 + np.abs(want).max()), "landmark-to-data distances are not those of the landmarks in order")
        LL = getattr(o, "_dist_land_land", None)
        if LL is not None:
            check(np.array_equal(LL, D[:, land]), "landmark-to-landmark distances are not the columns at the landmarks")


def blocks(rng):
    """square loops far apart, several with the same persistence but different births"""
    k = int(rng.integers(2, 5))
    D = np.full((4 * k, 4 * k), 40.0)
    for b in range(k):
        e, s = float(rng.integers(1, 5)), float(rng.integers(1, 3)) / 2
        for i in range(4):
            for j in range(4): D[4 * b + i, 4 * b + j] = 0 if i == j else e if (i - j) % 2 else e + s
    q = rng.permutation(4 * k)
    return D[np.ix_(q, q)]


@mon("C01", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 6):
        kind = ["cloud", "square", "rect"][t % 3]
        if t % 4 == 1:
            B = blocks(rng)
            R.case(construct, X=B, n_landmarks=len(B), distance_matrix=True, prime=[2, 3, 5][t // 4 % 3], maxdim=1 + t // 4 % 5 // 4, cls=["em", "tor", "circ", "lens"][t // 4 % 4])
        cls = ["em", "tor", "rp", "lens", "em", "circ", "cp"][t % 7]
        n = int(rng.integers(12, 60))
        shape = t % 4
        if shape == 0:
            P = np.r_[circle(rng, n // 2), circle(rng, n - n // 2, c=(5, 0), r=1.7)]
        elif shape == 1:
            P = circle(rng, n, .4)
        elif shape == 2:
            P = rng.random((n, 2))
        else:
            P = np.round(rng.random((n, 2)) * 5)      # ties and repeated points
        P = P[rng.permutation(n)]
        L = int(rng.integers(3, n + 1))
        md = 2 if cls == "cp" or t % 5 == 0 else 1
        if md == 2: L = min(L, 20)
        p = int(rng.choice([2, 3, 5, 41]))
        if kind == "cloud":
            R.case(construct, X=P, n_landmarks=L, distance_matrix=False, prime=p, maxdim=md, cls=cls)
        elif kind == "square":
            R.case(construct, X=euclid(P, P), n_landmarks=L, distance_matrix=True, prime=p, maxdim=md, cls=cls)
        else:
            m = int(rng.integers(min(L, n - 1), n))
            R.case(construct, X=euclid(P[:m], P), n_landmarks=min(L, m), distance_matrix=True, prime=p, maxdim=md, cls=cls)


def reindex_large(L, N, seed):
    """landmark positions and data indices beyond the small integer types"""
    rng = np.random.default_rng(seed)
    land = rng.permutation(N)[:L]
    pos = rng.integers(0, L, size=(40, 2))
    pos[0] = [L - 1, 0]
    c = np.c_[land[pos], rng.integers(1, 40, size=40)]
    reindex([[], [c]], land, N)


def reindex(cocycles, idx_land, N):
    want = [[c.copy() for c in ck] for ck in cocycles]
    pos = {int(v): k for k, v in enumerate(idx_land)}
    for ck in want:
        for c in ck:
            for r in range(c.shape[0]):
                for q in range(c.shape[1] - 1):
                    c[r, q] = pos[int(c[r, q])]
    CohomologyUtils.reindex_cocycles(cocycles, idx_land, N)
    for a, b in zip(cocycles, want):
        for x, y in zip(a, b):
            check(np.array_equal(x, y), "cocycle not rewritten to landmark positions")


@mon("C01", jit="nojit")
def gen_reindex(rng, tier, R):
    for L, N in ((200, 300), (40000, 70000)): R.case(reindex_large, L=L, N=N, seed=int(rng.integers(10 ** 6)))
    for t in range(300):
        N = int(rng.integers(1, 12))
        L = int(rng.integers(1, N + 1))
        land = rng.permutation(N)[:L]
        cs = []
        for dim in range(0, 3):
            cs.append([np.c_[rng.choice(land, size=(k, dim + 1)).reshape(k, dim + 1), rng.integers(1, 41, size=k)] for k in rng.integers(0, 5, size=int(rng.integers(0, 4)))])
        R.case(reindex, cocycles=cs, idx_land=land, N=N)
