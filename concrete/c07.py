from concrete.common import *


def lift(cocycle, prime):
    c0 = cocycle.copy()
    got = np.array(CohomologyUtils.lift_to_integer_cocycle(cocycle, prime=prime))
    check(got.shape == c0.shape, "shape")
    check(np.array_equal(got[:, :-1], c0[:, :-1]), "vertices or row order changed")
    a, b = c0[:, -1].astype(int), got[:, -1].astype(int)
    check(np.array_equal(b, got[:, -1]), "not integers")
    check(bool(((a - b) % prime == 0).all()), "not congruent modulo %d: %s -> %s" % (prime, a, b))
    check(bool((2 * np.abs(b) <= prime).all()), "absolute value above p/2: %s" % b)
    m = a % prime
    check(bool(((b > 0) == ((2 * m <= prime - 1) & (m > 0))).all()), "wrong sign choice: %s -> %s" % (a, b))
    again = np.array(CohomologyUtils.lift_to_integer_cocycle(got.copy(), prime=prime))
    check(np.array_equal(again, got), "not idempotent")


@mon("C07", jit="nojit")
def gen(rng, tier, R):
    for t in range(3000):
        p = int([2, 3, 5, 7, 11, 41, 47, 997][t % 8])
        K, d = int(rng.integers(0, 12)), int(rng.integers(2, 5))
        vals = rng.integers(0, p, size=K)
        if t % 3 == 0 and K: vals[:] = rng.choice([0, 1, (p - 1) // 2, (p + 1) // 2, p - 1], size=K)
        # vertex numbers larger than (p-1)/2 must be left alone
        c = np.c_[rng.integers(0, 100, size=(K, d)), vals].astype(np.int64)
        R.case(lift, cocycle=c, prime=p)
