from concrete.common import *


def partition(dist, r, bump):
    o = em_from(dist)
    D0 = dist.copy()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        got = o.get_covering_partition(r, bump_repo(bump))
    varphi, ball = got
    w, b, cov = cover(D0, r, bump)
    check(varphi.shape == w.shape and np.shape(ball) == b.shape, "shapes %s %s" % (varphi.shape, np.shape(ball)))
    check(bool(np.isnan(varphi[:, ~cov]).all()), "weights of uncovered points are not NaN")
    check(not np.isnan(varphi[:, cov]).any(), "weights of a covered point are NaN")
    check(bool((varphi[:, cov] >= 0).all()), "negative weight")
    close(varphi[:, cov].sum(0), np.ones(cov.sum()), "weights sum to one", 1e-9)
    close(varphi[:, cov], w[:, cov], "weights", 1e-9)
    check(bool((varphi[:, cov][D0[:, cov] >= r] == 0).all()), "weight outside of the ball")
    check(np.array_equal(np.asarray(ball)[cov], b[cov]), "cover set is not the first ball containing the point")
    n = int((~cov).sum())
    msgs = [str(x.message) for x in ws if re.search(r"cover", str(x.message))]
    if n:
        check(any(re.search(r"(?<!\d)%d(?!\d)" % n, m) for m in msgs), "no warning stating that %d points are uncovered (%s)" % (n, msgs))
    else:
        check(not msgs, "warning although every point is covered: %s" % msgs)


@mon("C03", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 5):
        L = int(rng.integers(2, 7))
        N = L + int(rng.integers(1, 9))
        dist = metric_dist(rng, L, N)
        if t % 3 == 1: dist = np.round(dist * 4) / 4
        if t % 3 == 2: dist[:, -1] = 3.0
        r = float(rng.choice([0.25, .5, .75, 1.0, rng.random() + .05]))
        if t % 6 == 4:
            # distances given as integers
            dist = np.round(dist * 4).astype(int)
            r = float(rng.choice([1.5, 2.0, 2.5, 3.25]))
            bump = ["linear", "quadratic"][t % 2]
            R.case(partition, dist=dist, r=r, bump=bump)
            continue
        if t % 4 == 3: r = float(dist[int(rng.integers(L)), -1])
        bump = list(BUMPS)[t % len(BUMPS)]
        if bump == "exp":
            dist = np.where((dist < r) & (dist > .95 * r), .95 * r, dist)
        if r <= 0: continue
        R.case(partition, dist=dist, r=r, bump=bump)
