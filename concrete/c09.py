from concrete.common import *
from concrete.c08 import gen_D


def one(c, D, thr):
    f = getattr(TC, "_is_one_cocycle", None)
    if f is None: raise Skip()
    T = table(len(D), 2)
    got = f(c, D, thr, T)
    got = bool(got[0] if isinstance(got, tuple) else got)
    want = all(c[num((i, j), T)] + c[num((j, k), T)] - c[num((i, k), T)] == 0 for i, j, k in simplices(D, thr, 2))
    check(got == want, "1-cocycle test says %s, coboundary says %s" % (got, want))


def two(c, D, thr):
    f = getattr(CPC, "_is_two_cocycle", None)
    if f is None: raise Skip()
    T = table(len(D), 3)
    got = f(c, D, thr, T)
    got = bool(got[0] if isinstance(got, tuple) else got)
    want = all(c[num((i, j, k), T)] - c[num((i, j, l), T)] + c[num((i, k, l), T)] - c[num((j, k, l), T)] == 0 for i, j, k, l in simplices(D, thr, 3))
    check(got == want, "2-cocycle test says %s, coboundary says %s" % (got, want))


def cochain(rng, D, thr, k, mode):
    n = len(D)
    T = table(n, 3)
    S = list(itertools.combinations(range(n), k + 1))
    c = np.zeros(len(S), dtype=int)
    f = rng.integers(-20, 21, size=int(T[n, k]))
    for s in S:
        if k == 1: c[num(s, T)] = f[s[1]] - f[s[0]]
        else: c[num(s, T)] = f[num(s[1:], T)] - f[num((s[0], s[2]), T)] + f[num(s[:2], T)]
    if mode >= 1:      # garbage on simplices that are not below the threshold
        for s in S:
            if not all(D[a, b] < thr for a, b in itertools.combinations(s, 2)): c[num(s, T)] = rng.integers(-5, 6)
    if mode == 2 and len(S):      # one value perturbed
        c[int(rng.integers(len(S)))] += rng.choice([-1, 1, 41])
    if mode == 3:
        c = rng.integers(-1, 2, size=len(S))
    return c


@mon("C09")
def gen(rng, tier, R):
    for t in range(500 if tier == "quick" else 10 ** 4):
        n = int(rng.integers(3, 8))
        D, thr = gen_D(rng, n, t)
        if t % 2: R.case(one, c=cochain(rng, D, thr, 1, t // 2 % 4), D=D, thr=thr)
        else: R.case(two, c=cochain(rng, D, thr, 2, t // 2 % 4), D=D, thr=thr)
    for n, k, f in ((5, 1, one), (5, 2, two), (6, 2, two)):      # every single perturbation of a coboundary on the full simplex
        D = sym(rng, n)
        c = cochain(rng, D, 2.0, k, 0)
        for e in range(len(c)):
            c2 = c.copy(); c2[e] += 1
            R.case(f, c=c2, D=D, thr=2.0)
            R.case(f, c=c2, D=D, thr=float(np.median(D[np.triu_indices(n, 1)])))
