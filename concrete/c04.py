from concrete.common import *


def bump(name, ds, r):
    f = getattr(PartUnity, name)
    d0 = ds.copy()
    v = np.asarray(f(ds, r))
    check(np.array_equal(d0, ds), "distances modified")
    check(v.shape == ds.shape, "shape not kept")
    check(not np.isnan(v).any() and bool((v > 0).all()), "not strictly positive inside the ball")
    flat, vf = ds.ravel(), v.ravel()
    o = np.argsort(flat, kind="stable")
    check(bool((np.diff(vf[o]) <= 1e-12 * (1 + np.abs(vf[o][:-1]))).all()), "increasing in the distance")
    for k in range(min(len(flat), 6)):
        x = np.asarray(f(np.array([flat[k]]), r))
        close(x[0], vf[k], "not entrywise", 1e-9)


def limit(name, r):
    f = getattr(PartUnity, name)
    d = r * (1 - 10.0 ** -np.arange(1, 12))
    v = np.asarray(f(d, r))
    v0 = float(np.asarray(f(np.array([0.0]), r))[0])
    check(v0 > 0, "zero at the centre")
    check(bool((v[-4:] <= 1e-6 * v0).all()), "does not tend to zero at the radius: %r" % v[-4:])


@mon("C04", jit="nojit")
def gen(rng, tier, R):
    for t in range(3000):
        r = float(rng.choice([1.0, 0.25, 2.0, 10.0 ** rng.uniform(-4, 4)]))
        n = int(rng.integers(1, 12))
        ds = np.concatenate([[0.0, r * .9], r * .9 * rng.random(n)])
        if t % 3 == 0 and len(ds) % 2 == 0: ds = ds.reshape(2, -1)
        if t % 3 == 1: ds = np.sort(ds)
        name = ["linear", "quadratic", "exp"][t % 3 if t % 2 else (t // 2) % 3]
        R.case(bump, name=name, ds=ds, r=r)
        R.case(limit, name=name, r=r)

from concrete.forms import register
register("C04", lambda rng: [(n, [rng.integers(0, 4, size=(2, 5))]) for n in ("linear", "quadratic", "exp")])
