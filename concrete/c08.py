from concrete.common import *


def faces(s):
    """(face, coefficient) of the coboundary row, in the convention of the repository"""
    if len(s) == 2: return [((s[0],), 1), ((s[1],), -1)]
    if len(s) == 3: return [((s[0], s[1]), 1), ((s[1], s[2]), 1), ((s[0], s[2]), -1)]
    i, j, k, l = s
    return [((i, j, k), 1), ((i, j, l), -1), ((i, k, l), 1), ((j, k, l), -1)]


def oracle(D, thr, k, T):
    """rows of the degree-k coboundary, one per (k+1)-simplex below the threshold"""
    n = len(D)
    ncol = int(T[n, k + 1])
    rows = {}
    for s in simplices(D, thr, k + 1):
        r = np.zeros(ncol)
        for f, c in faces(s):
            r[f[0] if len(f) == 1 else num(f, T)] += c
        rows[s] = r
    return rows, ncol


def build(which, D, thr, tdim):
    D0 = D.copy()
    n = len(D)
    T = table(n, tdim)
    k = {"make_delta0": 0, "make_delta1": 1, "make_delta1_compact": 1, "make_delta2_compact": 2}[which]
    M = getattr(CohomologyUtils, which)(D, thr, T)
    check(np.array_equal(D, D0), "distance matrix modified")
    rows, ncol = oracle(D0, thr, k, T)
    A = np.asarray(M.todense() if hasattr(M, "todense") else M, dtype=float)
    if which.endswith("compact"):
        check(A.shape == (len(rows), ncol), "shape %s, expected %s" % (A.shape, (len(rows), ncol)))
        check(sorted(map(tuple, A.tolist())) == sorted(tuple(r.tolist()) for r in rows.values()), "rows are not the coboundary rows of the simplices below the threshold")
    else:
        nr = int(T[n, k + 2])
        check(A.shape == (nr, ncol), "shape %s, expected %s" % (A.shape, (nr, ncol)))
        want = np.zeros((nr, ncol))
        for s, r in rows.items():
            want[num(s, T)] = r
        check(np.array_equal(A, want), "matrix is not the coboundary at the threshold")


def compose(D, thr):
    n = len(D)
    T = table(n, 3)
    C = CohomologyUtils
    d0, d1 = C.make_delta0(D, thr, T), C.make_delta1(D, thr, T)
    e1, e2 = C.make_delta1_compact(D, thr, T), C.make_delta2_compact(D, thr, T)
    for a, b, m in ((d1, d0, "d1 d0"), (e1, d0, "compact d1 d0"), (e2, d1, "d2 d1")):
        z = a @ b
        check(abs(z).sum() == 0, m + " is not zero")


def gen_D(rng, n, t):
    D = sym(rng, n) if t % 3 else sym(rng, n, [.25, .5, .75, 1.0])
    off = D[np.triu_indices(n, 1)]
    opts = [0.5, 2.0, 0.0, .75]
    if len(off): opts += [float(off[int(rng.integers(len(off)))]), float(off.max()), float(off.min())]
    return D, float(rng.choice(opts))


@mon("C08", jit="nojit")
def gen(rng, tier, R):
    W = ["make_delta0", "make_delta1", "make_delta1_compact", "make_delta2_compact"]
    for t in range(10 ** 5):
        n = int(rng.integers(1, 10))
        D, thr = gen_D(rng, n, t)
        w = W[t % 4]
        R.case(build, which=w, D=D, thr=thr, tdim=3 if w.endswith("2_compact") else int(rng.integers(2, 4)))
        if t % 9 == 0 and n >= 3: R.case(compose, D=D, thr=thr)
        if t == 40:
            for n in (14, 20): R.case(build, which="make_delta1_compact", D=sym(rng, n), thr=.6, tdim=2)


def large(which, n, frac, seed):
    """sizes at which simplex numbers and vertex numbers exceed the small integer types"""
    from scipy import sparse
    rng = np.random.default_rng(seed)
    D = rng.random((n, n)); D = np.triu(D, 1); D = D + D.T
    T = table(n, 3)
    k = {"make_delta0": 0, "make_delta1": 1, "make_delta1_compact": 1, "make_delta2_compact": 2}[which]
    M = sparse.csr_matrix(getattr(CohomologyUtils, which)(D, frac, T))
    S = np.array([(i, j) for j in range(n) for i in range(j) if D[i, j] < frac]).reshape(-1, 2)
    ok = D < frac
    for d in range(k):       # add a larger vertex
        parts = []
        for v in range(d + 2, n):
            c = S[(S[:, -1] < v)]
            c = c[np.all(ok[c, v], axis=1)]
            parts.append(np.c_[c, np.full(len(c), v)])
        S = np.concatenate(parts) if parts else np.zeros((0, d + 3), dtype=int)
    c2 = lambda a, b: a + b * (b - 1) // 2
    c3 = lambda a, b, c: a + b * (b - 1) // 2 + c * (c - 1) * (c - 2) // 6
    if k == 0: cols, co, number = [S[:, 0], S[:, 1]], [1, -1], c2(*S.T)
    elif k == 1: cols, co, number = [c2(S[:, 0], S[:, 1]), c2(S[:, 1], S[:, 2]), c2(S[:, 0], S[:, 2])], [1, 1, -1], c3(*S.T)
    else:
        i, j, l, m = S.T
        cols, co, number = [c3(i, j, l), c3(i, j, m), c3(i, l, m), c3(j, l, m)], [1, -1, 1, -1], np.arange(len(S))
    ncol = [n, n * (n - 1) // 2, n * (n - 1) * (n - 2) // 6][k]
    compact = which.endswith("compact")
    nrow = len(S) if compact else [n * (n - 1) // 2, n * (n - 1) * (n - 2) // 6][k]
    check(M.shape == (nrow, ncol), "shape %s, expected %s" % (M.shape, (nrow, ncol)))
    W = sparse.csr_matrix((np.repeat(co, len(S)), (np.tile(np.arange(len(S)) if compact else number, k + 2), np.concatenate(cols))), shape=(nrow, ncol), dtype=float)
    M.sum_duplicates(); M.eliminate_zeros(); M.sort_indices(); W.sort_indices()
    if not compact:
        check(M.nnz == W.nnz and abs(M - W).sum() == 0, "matrix is not the coboundary at the threshold")
        return
    check(bool((np.diff(M.indptr) == k + 2).all()), "rows do not have %d entries" % (k + 2))
    rows = lambda A: (lambda R: R[np.lexsort(R.T)])(np.c_[A.indices.reshape(-1, k + 2), A.data.reshape(-1, k + 2)])
    check(np.array_equal(rows(M), rows(W)), "rows are not the coboundary rows of the simplices below the threshold")


@mon("C08", jit="jit")
def gen_large(rng, tier, R):
    for w, n, frac in (("make_delta0", 300, .5), ("make_delta1", 66, .9), ("make_delta1_compact", 66, .99), ("make_delta1_compact", 380, .15), ("make_delta2_compact", 62, .6), ("make_delta1", 270, .2)):
        R.case(large, which=w, n=n, frac=frac, seed=int(rng.integers(10 ** 6)))


@mon("C08", jit="jit")
def gen_jit(rng, tier, R):
    for t in range(4 if tier == "quick" else 40):
        D, thr = gen_D(rng, int(rng.integers(4, 12)), t + 1)
        R.case(build, which=["make_delta0", "make_delta1", "make_delta1_compact", "make_delta2_compact"][t % 4], D=D, thr=thr, tdim=3)

from concrete.forms import register


def _sym_int(rng, n):
    D = rng.integers(1, 6, size=(n, n)); D = np.triu(D, 1) + np.triu(D, 1).T
    return D


register("C08", lambda rng: [(n, [_sym_int(rng, 6)]) for n in ("delta0", "delta1", "delta1c", "delta2c")])
