from concrete.common import *


def csm(X, Y):
    X0, Y0 = X.copy(), Y.copy()
    C = np.asarray(GeometryUtils.get_csm(X, Y))
    check(np.array_equal(X, X0) and np.array_equal(Y, Y0), "input modified")
    check(C.shape == (len(X), len(Y)), "shape")
    check(not np.isnan(C).any(), "undefined entry")
    s = 1 + np.abs(X0).max() + np.abs(Y0).max()
    check(np.abs(C - euclid(X0, Y0)).max() < 1e-6 * s, "not the Euclidean distances")


def ssm(X):
    X0 = X.copy()
    C = np.asarray(GeometryUtils.get_ssm(X))
    check(np.array_equal(X, X0), "input modified")
    check(C.shape == (len(X), len(X)) and not np.isnan(C).any(), "shape or undefined")
    s = 1 + np.abs(X0).max()
    check(np.abs(C - C.T).max() < 1e-6 * s, "not symmetric")
    check(np.abs(np.diag(C)).max() < 1e-6 * s, "diagonal not zero")
    check(np.abs(C - euclid(X0, X0)).max() < 1e-6 * s, "not the Euclidean distances")


def arc(X, Y, sx, sy):
    X0, Y0 = X.copy(), Y.copy()
    D = np.asarray(GeometryUtils.get_csm_projarc(X, Y))
    check(np.array_equal(X, X0) and np.array_equal(Y, Y0), "input modified")
    check(D.shape == (len(X), len(Y)) and not np.isnan(D).any(), "shape or undefined")
    close(D, np.arccos(np.clip(np.abs(X0 @ Y0.T), 0, 1)), "not arccos of the absolute inner product", 1e-6)
    check(bool((D >= 0).all() and (D <= np.pi / 2 + 1e-12).all()), "outside [0, pi/2]")
    close(np.asarray(GeometryUtils.get_csm_projarc(X0 * sx[:, None], Y0 * sy[:, None])), D, "changes when rows are negated", 1e-7)
    close(np.asarray(GeometryUtils.get_csm_projarc(Y0, X0)).T, D, "not symmetric in its arguments", 1e-6)


@mon("C23", jit="nojit")
def gen(rng, tier, R):
    for t in range(3000 if tier == "quick" else 10 ** 5):
        d = int(rng.integers(1, 5))
        m, n = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        X, Y = rng.normal(size=(m, d)), rng.normal(size=(n, d))
        if t % 3 == 0: Y[0] = X[0]; X = X + 5; Y = Y + 5
        if t % 5 == 0: Y = np.tile(X[:1], (n, 1))
        R.case(csm, X=X, Y=Y)
        R.case(ssm, X=X)
        U_, V = X / np.linalg.norm(X, axis=1)[:, None], Y / np.linalg.norm(Y, axis=1)[:, None]
        if t % 4 == 0: V[0] = -U_[0]
        R.case(arc, X=U_, Y=V, sx=rng.choice([-1., 1.], size=m), sy=rng.choice([-1., 1.], size=n))

from concrete.forms import register
register("C23", lambda rng: [("get_csm", [rng.integers(0, 9, size=(5, 3)), rng.integers(0, 9, size=(4, 3))]), ("get_ssm", [rng.integers(0, 9, size=(5, 3))]), ("get_csm_projarc", [np.eye(3, dtype=int), -np.eye(3, dtype=int)[:2]])])
