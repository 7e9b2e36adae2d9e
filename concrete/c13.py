from concrete.common import *


class _TO(Exception):
    pass


def _alarm(*a):
    raise _TO()


def gs(B):
    n = B.shape[1]
    Q = np.zeros_like(B, dtype=float)
    mu = np.zeros((n, n))
    for i in range(n):
        v = B[:, i].astype(float).copy()
        for _ in range(2):
            for j in range(i):
                v = v - (v @ Q[:, j]) / (Q[:, j] @ Q[:, j]) * Q[:, j]
        Q[:, i] = v
        for j in range(i):
            mu[i, j] = (B[:, i] @ Q[:, j]) / (Q[:, j] @ Q[:, j])
    return Q, mu


def lll(B, delta):
    f = getattr(TC, "_lll", None)
    if f is None: raise Skip()
    B0 = B.copy()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        out, ch = f(B) if delta is None else f(B, delta)
    except _TO:
        raise Skip()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    d = 0.75 if delta is None else delta
    check(np.array_equal(B, B0), "input basis modified")
    ch, out = np.asarray(ch, dtype=float), np.asarray(out, dtype=float)
    check(np.abs(ch - np.round(ch)).max() < 1e-9, "change is not an integer matrix")
    check(abs(abs(np.linalg.det(ch)) - 1) < 1e-5, "change is not unimodular")
    close(out, B0 @ ch, "output columns are not input columns times the change", 1e-6)
    Q, mu = gs(out)
    n = len(out)
    for i in range(n):
        for j in range(i):
            check(abs(mu[i, j]) <= .5 + 1e-6, "Gram-Schmidt coefficient (%d,%d) is %r" % (i, j, mu[i, j]))
    q = (Q ** 2).sum(0)
    for k in range(1, n):
        check(q[k] >= (d - mu[k, k - 1] ** 2) * q[k - 1] * (1 - 1e-6), "Lovasz condition fails at %d" % k)


def ortho(B):
    f = getattr(TC, "_gram_schmidt", None)
    if f is None: raise Skip()
    B0 = B.copy()
    A = np.asarray(f(B))
    check(np.array_equal(B, B0), "input modified")
    Q, mu = gs(B0)
    n = len(B0)
    for i in range(n):
        for j in range(i):
            check(abs(A[:, i] @ A[:, j]) <= 1e-6 * np.linalg.norm(A[:, i]) * np.linalg.norm(A[:, j]), "columns %d and %d are not orthogonal" % (j, i))
        # same flag: B_i - A_i lies in the span of earlier columns
        rest = B0[:, i] - A[:, i]
        if i:
            r = rest - B0[:, :i] @ np.linalg.lstsq(B0[:, :i], rest, rcond=None)[0]
        else:
            r = rest
        check(np.linalg.norm(r) < 1e-6 * (1 + np.linalg.norm(B0[:, i])), "flag %d is not kept" % i)
        check(np.linalg.norm(A[:, i]) > 0, "zero vector")


@mon("C13", jit="nojit")
def gen(rng, tier, R):
    for t in range(2500 if tier == "quick" else 10 ** 5):
        n = int(rng.integers(1, 7))
        kind = t % 5
        if kind == 0: B = rng.normal(size=(n, n))
        elif kind == 1: B = rng.integers(-9, 10, size=(n, n)).astype(float)
        elif kind == 2:
            G = rng.normal(size=(n, n + 3)); G = G @ G.T
            B = np.linalg.cholesky(G).T.copy()
        elif kind == 3:
            B = np.eye(n) * rng.choice([1., 2., 5.], size=n)
            for _ in range(5):
                i, j = rng.integers(n, size=2)
                if i != j: B[:, i] += rng.integers(-4, 5) * B[:, j]
        else:
            B = np.diag(10.0 ** rng.uniform(-2, 2, n)) + np.triu(rng.normal(size=(n, n)), 1)
        if np.linalg.cond(B) > 1e5: continue
        R.case(lll, B=B, delta=[None, .75, .99, .5, .3][t % 5 if t % 2 else 0])
        if t % 3 == 0: R.case(ortho, B=B)
