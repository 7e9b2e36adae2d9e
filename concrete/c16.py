from concrete.common import *


def align(a, b):
    """outputs may differ by one unit scalar per coordinate common to all points (phase choice of the eigenvectors)"""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    out = a.copy()
    for c in range(a.shape[1]):
        s = np.vdot(a[:, c], b[:, c])
        if abs(s) > 1e-12: out[:, c] = a[:, c] * s / abs(s)
    return out


def red(M, k, mode, phases, nan_at):
    N, n = M.shape
    M0 = M.copy()
    out = np.asarray(EquivariantPCA.ppca(M, k, mode)["X"])
    check(np.array_equal(M, M0), "class map modified")
    check(out.shape == (N, k + 1), "shape %s" % (out.shape,))
    check(not np.isnan(out).any(), "undefined output")
    close(np.linalg.norm(out, axis=1), np.ones(N), "unit vectors", 1e-7)
    check(np.iscomplexobj(out) == np.iscomplexobj(M), "field changed")
    ph = phases if np.iscomplexobj(M) else np.where(np.real(phases) >= 0, 1.0, -1.0)
    out2 = np.asarray(EquivariantPCA.ppca(M * ph[:, None], k, mode)["X"])
    want = out * ph[:, None]
    if np.abs(out2 - want).max() > 1e-6:
        close(align(out2, want), want, "multiplying points by unit scalars does not multiply their outputs", 1e-5)
    if nan_at:
        M2 = M0.copy()
        M2 = np.insert(M2, nan_at, np.nan, axis=0)
        out3 = np.asarray(EquivariantPCA.ppca(M2, k, mode)["X"])
        out3 = np.delete(out3, [p + i for i, p in enumerate(nan_at)], axis=0)
        check(not np.isnan(out3).any(), "an undefined point makes the others undefined")
        if np.abs(out3 - out).max() > 1e-6:
            close(align(out3, out), out, "an undefined point alters the others", 1e-5)


@mon("C16", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 5):
        n = int(rng.integers(2, 10))
        k = int(rng.integers(1, n))
        N = int(rng.integers(n + 3, 40))
        M = rng.normal(size=(N, n)) * (1 + np.arange(n)[None, :] * rng.random())
        if t % 2: M = M + 1j * rng.normal(size=(N, n)) * (1 + np.arange(n)[None, ::-1])
        M = M / np.linalg.norm(M, axis=1)[:, None]
        ph = np.exp(2j * np.pi * rng.random(N))
        nan_at = sorted(int(v) for v in rng.choice(N, 2, replace=False)) if t % 3 == 0 else []
        R.case(red, M=M, k=k, mode=["direct", "exponential", "one-by-one"][t // 2 % 3], phases=ph, nan_at=nan_at)

from concrete.forms import register
register("C16", lambda rng: [(n, [rng.integers(1, 6, size=(9, 4))]) for n in ("ppca_direct", "ppca_one")])
