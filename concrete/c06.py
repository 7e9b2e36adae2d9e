from concrete.common import *


def vec(cocycle, n, tdim, as_float):
    T = table(n, tdim)
    dim = cocycle.shape[1] - 2
    c0 = cocycle.copy()
    v = CohomologyUtils.sparse_cocycle_to_vector(cocycle, T, n, float if as_float else int)
    check(np.array_equal(c0, cocycle), "cocycle modified")
    want = np.zeros(int(T[n, dim + 1]))
    for row in c0:
        vs = [int(x) for x in row[:-1]]
        want[num(sorted(vs), T)] = perm_sign(vs) * row[-1]
    check(np.shape(v) == want.shape, "shape %s" % (np.shape(v),))
    close(np.asarray(v, dtype=float), want, "dense vector", 1e-12)


def par(perm):
    check(int(CohomologyUtils.parity(np.array(perm))) == perm_sign(perm), "parity of %s" % (perm,))


def large(n, k, dim, seed):
    """many vertices: labels and numbers beyond the small integer types"""
    rng = np.random.default_rng(seed)
    S = {tuple(sorted(rng.choice(n, dim + 1, replace=False).tolist())) for _ in range(k)} | {tuple(range(n - dim - 1, n))}
    vec(np.array([list(rng.permutation(s)) + [int(rng.integers(-20, 41)) or 1] for s in sorted(S)], dtype=int), n, dim, False)


@mon("C06")
def gen(rng, tier, R):
    for n, dim in ((300, 1), (140, 2)): R.case(large, n=n, k=30, dim=dim, seed=int(rng.integers(10 ** 6)))
    for k in range(1, 7):
        for p in itertools.permutations(range(k)):
            R.case(par, perm=list(p))
    for t in range(150 if tier == "quick" else 3000):
        dim = int(rng.choice([1, 1, 2, 2, 3, 4]))
        n = int(rng.integers(dim + 1, dim + 8))
        S = [s for s in itertools.combinations(range(n), dim + 1) if rng.random() < .6]
        S = [S[i] for i in rng.permutation(len(S))]
        rows = [list(rng.permutation(s)) + [int(rng.integers(-20, 41)) or 1] for s in S]
        R.case(vec, cocycle=np.array(rows, dtype=int).reshape(len(rows), dim + 2), n=n, tdim=dim + int(rng.integers(0, 2)), as_float=bool(t % 4 == 0))
