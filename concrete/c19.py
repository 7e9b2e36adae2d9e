from concrete.common import *


def hopf(X, ph):
    X0 = X.copy()
    Y = np.asarray(ProjectiveMapUtils.hopf_map(X))
    check(np.array_equal(X, X0), "input modified")
    check(Y.shape == (len(X0), 3) and not np.iscomplexobj(Y), "shape or field")
    z, w = X0[:, 0], X0[:, 1]
    q = z * np.conj(w)
    close(Y, np.c_[2 * q.real, 2 * q.imag, np.abs(z) ** 2 - np.abs(w) ** 2], "formula", 1e-9)
    close(np.linalg.norm(Y, axis=1), np.ones(len(X0)), "unit vectors", 1e-9)
    close(np.asarray(ProjectiveMapUtils.hopf_map(X0 * ph[:, None])), Y, "unit multiples have another image", 1e-9)
    G = np.abs(X0 @ np.conj(X0).T)
    D = euclid(Y, Y)
    close(D ** 2, 4 * (1 - G ** 2), "distinct points of the projective line are not separated", 1e-6)


@mon("C19", jit="nojit")
def gen(rng, tier, R):
    for t in range(3000 if tier == "quick" else 10 ** 5):
        n = int(rng.integers(1, 9))
        X = rng.normal(size=(n, 2)) + 1j * rng.normal(size=(n, 2))
        if t % 4 == 0: X[0] = [[1, 0], [0, 1], [1, 1], [1, 1j]][t // 4 % 4]
        X /= np.linalg.norm(X, axis=1)[:, None]
        R.case(hopf, X=X, ph=np.exp(2j * np.pi * rng.random(n)))

from concrete.forms import register
register("C19", lambda rng: [("hopf_map", [[[1, 0], [0, 1], [-1, 0], [0, -1]]])])
