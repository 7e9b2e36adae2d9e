from concrete.common import *

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101]


def chart(q, t, k, rz, aw):
    """v = (rz exp(i(t + 2 pi k / q)), sqrt(1-rz^2) exp(i aw)), 0 < t < 2 pi / q"""
    rw = np.sqrt(1 - rz ** 2)
    X = np.stack([rz * np.exp(1j * (t + 2 * np.pi * k / q)), rw * np.exp(1j * aw)], 1)
    X0 = X.copy()
    Y = np.asarray(LensMapUtils.lens_3D_to_disk_3D(X, q))
    check(np.array_equal(X, X0), "input modified")
    check(Y.shape == (len(t), 3), "shape")
    check(not np.isnan(Y).any(), "undefined")
    hor = rw * np.exp(1j * (aw - 2 * np.pi * k / q))
    want = np.c_[hor.real, hor.imag, (q * t / np.pi - 1) * rz]
    close(Y, want, "chart formula", 1e-5)
    check(bool((np.linalg.norm(Y, axis=1) <= 1 + 1e-9).all()), "outside the closed unit ball")
    for m in range(1, q, max(1, q // 7)):
        Z = np.asarray(LensMapUtils.lens_3D_to_disk_3D(X0 * np.exp(2j * np.pi * m / q), q))
        close(Z, Y, "not invariant under the %d-th power of the action" % m, 1e-5)


@mon("C20", jit="nojit")
def gen(rng, tier, R):
    for r in range(6 if tier == "quick" else 100):
        for q in PRIMES:
            n = 2 * q if r % 2 == 0 else 12
            k = np.arange(n) % q if r % 2 == 0 else rng.integers(0, q, size=n)
            u = rng.random(n)
            if r % 3 == 1: u = rng.choice([1e-4, .5, 1 - 1e-4, .25], size=n)
            u = np.clip(u, 1e-5, 1 - 1e-5)
            rz = np.clip(rng.random(n), 1e-3, 1)
            if r % 3 == 2: rz[:2] = [1.0, 1e-3]
            R.case(chart, q=q, t=u * 2 * np.pi / q, k=k, rz=rz, aw=2 * np.pi * rng.random(n))

from concrete.forms import register
register("C20", lambda rng: [("lens", [[[1, 0], [-1, 0]]])])
