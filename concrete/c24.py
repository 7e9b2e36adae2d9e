from concrete.common import *

G = GeometryExamples


def same(f, msg="same seed, other sample"):
    a = f()
    np.random.seed(12345)
    np.random.random(7)
    b = f()
    a, b = (a if isinstance(a, tuple) else (a,)), (b if isinstance(b, tuple) else (b,))
    for x, y in zip(a, b): check(np.array_equal(x, y), msg)
    return a if len(a) > 1 else a[0]


def line(dim, na, no, sigma):
    P = same(lambda: G.line_patches(dim, na, no, sigma))
    check(P.shape == (na * no, dim * dim), "line_patches shape %s" % (P.shape,))
    check(bool((P >= 0).all() and (P <= 1).all()), "patch values outside [0,1]")
    th = np.linspace(0, np.pi, na + 1)[:na]
    ps = np.linspace(-1, 1, no)
    x = np.linspace(-.5, .5, dim)
    for i in range(na):
        for j in range(no):
            X, Y = x[:, None], x[None, :]
            a = np.exp(-((X * np.cos(th[i]) + Y * np.sin(th[i]) + ps[j]) ** 2) / sigma ** 2)
            check(np.abs(P[i * no + j].reshape(dim, dim) - a).max() < 1e-7 or np.abs(P[i * no + j].reshape(dim, dim) - a.T).max() < 1e-7, "patch (%d,%d) is not the blurred line" % (i, j))


def dot(n, sigma, dim):
    P = same(lambda: G.moving_dot(n, sigma=sigma, dim=dim))
    check(P.shape == (n * n, dim * dim), "moving_dot shape %s" % (P.shape,))
    check(bool((P >= 0).all() and (P <= 1).all()), "patch values outside [0,1]")


def defaults():
    check(G.moving_dot(3).shape == (9, 100), "moving_dot default patches are 10 x 10")


def rp2(n, seed):
    X, D = same(lambda: G.rp2_metric(n, seed))
    check(X.shape == (n, 3) and D.shape == (n, n), "rp2 shapes")
    close((X ** 2).sum(1), np.ones(n), "points of the sphere", 1e-9)
    close(D, D.T, "symmetric", 1e-9)
    check(np.abs(np.diag(D)).max() < 1e-6, "zero diagonal")
    check(np.abs(np.cos(D) - np.abs(X @ X.T)).max() < 1e-9, "projective arc length")


def torus(n, R, r, seed):
    X = same(lambda: G.torus_3d(n, R, r, seed))
    check(X.shape == (n, 3), "torus shape")
    close((np.hypot(X[:, 0], X[:, 1]) - R) ** 2 + X[:, 2] ** 2, np.full(n, r * r), "torus equation", 1e-7)


def klein(n, R, r, seed):
    X = same(lambda: G.klein_bottle_4d(n, R, r, seed))
    check(X.shape == (n, 4), "klein shape")
    rho = np.hypot(X[:, 0], X[:, 1])
    close((rho - R) ** 2 + X[:, 2] ** 2 + X[:, 3] ** 2, np.full(n, r * r), "klein bottle equation", 1e-7)
    # (x3 + i x4)^2 has twice the half angle: it is r^2 sin^2(theta) exp(i phi)
    z = (X[:, 2] + 1j * X[:, 3]) ** 2
    close(z, (X[:, 2] ** 2 + X[:, 3] ** 2) * (X[:, 0] + 1j * X[:, 1]) / rho, "klein bottle twist", 1e-6)


def genus2():
    X = same(G.genus_two_surface)
    check(X.ndim == 2 and X.shape[1] == 3, "shape")
    a = np.abs((np.hypot(X[:, 0], X[:, 1]) - 5) ** 2 + X[:, 2] ** 2 - 4) < 1e-6
    b = np.abs((np.hypot(X[:, 0] - 9, X[:, 1]) - 5) ** 2 + X[:, 2] ** 2 - 4) < 1e-6
    check(bool(((a & (X[:, 0] <= 4.5 + 1e-9)) | (b & (X[:, 0] >= 4.5 - 1e-9))).all()), "point off the genus two surface")
    check(a.any() and b.any(), "one half missing")


def tref(n, w, noisy):
    X = same(lambda: G.trefoil(n, w, noisy))
    check(X.shape == (n, 3) and not np.isnan(X).any(), "trefoil shape %s" % (X.shape,))
    if not noisy:
        u = 4 * np.pi * np.arange(n) / n
        check(bool((np.abs(X[:, 2]) <= 4 + 1e-9).all()) and np.abs(X[:, 2] - 4 * np.cos(1.5 * u)).max() < 1e-6, "trefoil height")
        close(np.hypot(X[:, 0], X[:, 1]), np.abs(1 + w * (1.5 + np.sin(1.5 * u) / 2)), "trefoil radius", 1e-6)


def planar():
    X = same(G.bullseye)
    check(X.shape == (600, 2), "bullseye shape")
    rad = np.linalg.norm(X, axis=1)
    check(np.abs(rad - np.repeat([1, 2, 3], 200)).max() <= .05 * np.sqrt(2) + 1e-9, "bullseye radii")
    X = same(G.three_circles)
    check(X.ndim == 2 and X.shape[1] == 2, "three circles shape")
    e = .15 * np.sqrt(2) + 1e-9
    on = (np.abs(np.linalg.norm(X, axis=1) - 1) <= e) | (np.abs(np.linalg.norm(X - [4, 0], axis=1) - 2) <= e) | (np.abs(np.linalg.norm(X + [4, 0], axis=1) - 2.5) <= e)
    check(bool(on.all()), "point off the three circles")


def sphere(n):
    X = same(lambda: G.sphere(n))
    check(X.shape == (n, 3), "sphere shape")
    close((X ** 2).sum(1), np.ones(n), "sphere equation", 1e-9)


def ncircle(n, noise, seed):
    X = same(lambda: G.noisy_circle(n, noise, seed))
    check(X.shape == (n, 2), "noisy circle shape")
    check(np.abs(np.linalg.norm(X, axis=1) - 1).max() <= noise * np.sqrt(.5) + 1e-9, "noise bound")
    # every coordinate is within noise/2 of a point of the circle
    a = G.noisy_circle(n, 0.0, seed)
    close(np.linalg.norm(a, axis=1), np.ones(n), "without noise, unit vectors", 1e-9)
    check(np.abs(X - a).max() <= noise / 2 + 1e-9, "noise per coordinate above its bound")


def moore(n, prime):
    D, X = same(lambda: G.moore_space_distance_matrix(n, prime))
    check(D.shape == (len(X), len(X)) and X.shape[1] == 2, "moore shapes")
    check(bool((np.linalg.norm(X, axis=1) <= 1 + 1e-9).all()), "point outside of the disk")
    close(D, D.T, "symmetric", 1e-9)
    check(np.abs(np.diag(D)).max() < 1e-9, "zero diagonal")
    E = euclid(X, X)
    check(bool((D >= 0).all() and (D <= E + 1e-9).all()), "longer than the straight path")
    # going through the boundary: bounded below by the best identified boundary path
    rho = np.linalg.norm(X, axis=1)
    low = (1 - rho)[:, None] + (1 - rho)[None, :]
    check(bool((D >= np.minimum(E, low) - 1e-9).all()), "shorter than any path")
    B = X / rho[:, None]
    for i in range(0, len(X), max(1, len(X) // 25)):
        via = np.full(len(X), np.inf)
        for k in range(prime):
            a = 2 * np.pi * k / prime
            Rm = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            via = np.minimum(via, np.linalg.norm(X - Rm @ B[i], axis=1))
        check(bool((D[i] <= (1 - rho[i]) + via + 1e-7).all()), "longer than the path through the nearest boundary point")


@mon("C24", jit="both")
def gen(rng, tier, R):
    from concrete import fw
    if not fw.JIT:
        R.case(defaults); R.case(genus2); R.case(planar)
        for t in range(120 if tier == "quick" else 2000):
            s = None if t % 4 == 0 else int(rng.integers(1000))
            n = int(rng.choice([1, 2, 3, 17, 100]))
            R_, r_ = float(1 + rng.random() * 3), float(rng.random() + .1)
            R.case(line, dim=int(rng.integers(1, 8)), na=int(rng.integers(1, 5)), no=int(rng.integers(1, 5)), sigma=float(.1 + rng.random()))
            R.case(dot, n=int(rng.integers(1, 5)), sigma=float(.5 + 3 * rng.random()), dim=int(rng.integers(1, 14)))
            R.case(rp2, n=n, seed=s); R.case(torus, n=n, R=R_, r=min(r_, R_ / 2), seed=s); R.case(klein, n=n, R=R_, r=min(r_, R_ / 2), seed=s)
            R.case(tref, n=n, w=float(1 + 6 * rng.random()), noisy=bool(t % 2)); R.case(sphere, n=n); R.case(ncircle, n=n, noise=float(rng.random()), seed=s or 0)
        for p in (2, 3, 5): R.case(moore, n=60, prime=p)
    else:
        for p in (2, 3) if tier == "quick" else (2, 3, 5, 7): R.case(moore, n=200, prime=p)
