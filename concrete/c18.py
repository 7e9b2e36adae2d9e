from concrete.common import *

P = ProjectiveMapUtils


def rot(a, b):
    a0, b0 = a.copy(), None if b is None else b.copy()
    M = np.asarray(P.rotmat(a) if b is None else P.rotmat(a, b))
    check(np.array_equal(a, a0) and (b is None or np.array_equal(b, b0)), "vector modified")
    d = a.size
    t = np.eye(d)[-1] if b is None else b0.ravel() / np.linalg.norm(b0)
    s = a0.ravel() / np.linalg.norm(a0)
    check(M.shape == (d, d), "shape")
    close(M @ M.T, np.eye(d), "not orthogonal", 1e-6)
    check(abs(np.linalg.det(M) - 1) < 1e-6, "determinant %r" % np.linalg.det(M))
    close(M @ s, t, "does not take a to b", 1e-6)


def stereo(X, u, signs):
    X0 = X.copy()
    args = () if u is None else (u,)
    S = np.asarray(P.get_stereo_proj_codim1(X, *args))
    check(np.array_equal(X, X0), "input modified")
    N, d = X.shape
    check(S.shape == (N, d - 1), "shape %s" % (S.shape,))
    if u is None:
        w, U = np.linalg.eigh(X0.T @ X0)
        if d > 1 and w[1] - w[0] < 1e-3: raise Skip()
        u_ = U[:, 0]
    else:
        u_ = u
    h = X0 @ (u_ / np.linalg.norm(u_))
    check(bool((np.linalg.norm(S, axis=1) <= 1 + 1e-6).all()), "outside the closed unit ball")
    S2 = np.asarray(P.get_stereo_proj_codim1(X0 * signs[:, None], *args))
    off = np.abs(h) > 1e-6
    if u is None and np.abs(S2[off] - S[off]).max(initial=0) > 1e-5:
        raise Skip()      # the default pole may come out as u or -u
    close(S2[off], S[off], "x and -x have different images", 1e-6)
    n = np.linalg.norm(S, axis=1)
    close(n[off] ** 2, (1 - np.abs(h[off])) / (1 + np.abs(h[off])), "not a stereographic image", 1e-5)


def hemis(X, center):
    X0 = X.copy()
    S = np.asarray(P.stereographic_projection_hemispheres(X) if center is None else P.stereographic_projection_hemispheres(X, center))
    check(np.array_equal(X, X0), "input modified")
    check(S.shape == (X.shape[0], X.shape[1] - 1), "shape")
    d = X.shape[1]
    c = np.eye(d)[-1] if center is None else center
    Rm = P.rotmat(c)
    Y = X0 @ Rm.T
    for k in range(len(Y)):
        h = Y[k, -1]
        if abs(h) < 1e-9: continue
        v = Y[k, :-1] / (1 + abs(h))
        if h > 0: v = v + 2.5 * np.eye(d - 1)[0]
        close(S[k], v, "not the stereographic image of its hemisphere", 1e-6)
        check(np.linalg.norm(S[k] - (2.5 * np.eye(d - 1)[0] if h > 0 else 0)) <= 1 + 1e-6, "outside its disk")


def north(x):
    x0 = x.copy()
    y, u = P.circle_to_3dnorthpole(x)
    check(np.array_equal(x, x0), "point modified")
    check(abs(np.linalg.norm(u) - 1) < 1e-6 and u[2] >= 0 and len(u) == 3, "not a unit vector of the upper hemisphere")
    close(np.asarray(y), u[:2], "returned point is not the projection of the vector", 1e-9)
    w = x0 if np.linalg.norm(x0) <= 1 else x0 / np.linalg.norm(x0)
    close(np.asarray(y), w, "point is not clipped to the disk", 1e-9)


@mon("C18", jit="nojit")
def gen(rng, tier, R):
    for t in range(3000 if tier == "quick" else 10 ** 5):
        d = int(rng.integers(2, 7))
        a = rng.normal(size=d) * 10.0 ** rng.uniform(-3, 3)
        b = rng.normal(size=d)
        m = t % 10
        if m == 1: b = a * rng.random() + 1e-12
        if m == 2: b = -a * (rng.random() + .1)
        if m == 3: a = np.eye(d)[int(rng.integers(d))] * rng.choice([-1., 1.]); b = np.eye(d)[int(rng.integers(d))] * rng.choice([-1., 1.])
        if m == 4: b = -a + rng.normal(size=d) * 10.0 ** rng.uniform(-14, -3) * np.linalg.norm(a)
        if m == 5: b = a + rng.normal(size=d) * 10.0 ** rng.uniform(-14, -3) * np.linalg.norm(a)
        if m == 6: a = -np.eye(d)[-1]
        if np.linalg.norm(b) < 1e-6: continue
        R.case(rot, a=a if t % 13 else a.reshape(1, -1), b=None if m in (6, 7) else b)
        N = int(rng.integers(d + 2, 12))
        X = rng.normal(size=(N, d)); X /= np.linalg.norm(X, axis=1)[:, None]
        u = rng.normal(size=d); u /= np.linalg.norm(u)
        if t % 5 == 0: u = -np.eye(d)[-1]
        if t % 5 == 1: u = -X[0]
        R.case(stereo, X=X, u=None if t % 4 == 0 else u, signs=rng.choice([-1., 1.], size=N))
        if t % 3 == 0: X[:2] = np.eye(d)[-1] * np.array([[1], [-1]])
        R.case(hemis, X=X, center=None if t % 3 == 0 else u)
        R.case(north, x=rng.normal(size=2) * rng.choice([.1, .7, 1, 3]) if t % 6 else np.array([0.6, 0.8]) * rng.choice([0.0, 1.0, 2.0]))

from concrete.forms import register
register("C18", lambda rng: [("rotmat", [[1, 2, 2], [0, 0, 3]]), ("rotmat", [[1, 2, 2]]), ("rotmat", [[3, 0], [-3, 0]]), ("rotmat", [rng.integers(1, 5, size=4), rng.integers(1, 5, size=4)]),
                          ("get_stereo_proj_codim1", [[[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1]], [0, 0, 1]]), ("hemispheres", [[[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [-1, 0, 0]]])])
