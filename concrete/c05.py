from concrete.common import *
from math import comb


def tab(n, dim):
    T = table(n, dim)
    check(T.shape[0] >= n + 1 and T.shape[1] >= dim + 2, "table shape %s" % (T.shape,))
    for i in range(n + 1):
        for l in range(dim + 2):
            if comb(i, l) < 2 ** 62:
                check(int(T[i, l]) == comb(i, l), "table[%d,%d] = %r" % (i, l, T[i, l]))
    for d in range(dim + 1):
        check(int(CNS.number_of_simplices_of_dimension(d, n, T)) == comb(n, d + 1), "number of %d-simplices on %d vertices" % (d, n))


def bijection(n, dim, extra):
    T = table(n, extra)
    seen = set()
    for s in itertools.combinations(range(n), dim + 1):
        k = int(CNS.combinatorial_number_system_forward(np.array(s, dtype=int), T))
        check(0 <= k < comb(n, dim + 1), "number %d of %s out of range" % (k, s))
        check(k not in seen, "number %d used twice" % k)
        seen.add(k)
        if dim == 1: check(int(CNS.combinatorial_number_system_d1_forward(s[0], s[1], T)) == k, "edge numbering of %s differs from the general one" % (s,))
        if dim == 2: check(int(CNS.combinatorial_number_system_d2_forward(s[0], s[1], s[2], T)) == k, "triangle numbering of %s differs from the general one" % (s,))
    check(len(seen) == comb(n, dim + 1), "not onto")


def big(n, dim, verts):
    """on many vertices: distinct numbers in range, special numberings agree"""
    T = table(n, dim)
    seen = {}
    for s in verts:
        s = tuple(int(v) for v in s)
        k = int(CNS.combinatorial_number_system_forward(np.array(s, dtype=int), T))
        check(0 <= k < comb(n, dim + 1), "number %d of %s out of range" % (k, s))
        check(seen.setdefault(k, s) == s, "simplices %s and %s share a number" % (s, seen[k]))
        if dim == 1: check(int(CNS.combinatorial_number_system_d1_forward(s[0], s[1], T)) == k, "edge numbering")
        if dim == 2: check(int(CNS.combinatorial_number_system_d2_forward(s[0], s[1], s[2], T)) == k, "triangle numbering")


def entries(n, dim):
    """entries of a large table are still exact"""
    T = table(n, dim)
    for i in (n, n - 1, n // 2 + 1):
        for l in range(dim + 2):
            if comb(i, l) < 2 ** 62: check(int(T[i, l]) == comb(i, l), "table[%d,%d] = %r, not %d" % (i, l, T[i, l], comb(i, l)))


@mon("C05")
def gen(rng, tier, R):
    for n, dim in ((400, 2), (2400, 1), (30001, 3)): R.case(entries, n=n, dim=dim)
    for n in list(range(1, 30)) + [40, 60]:
        for dim in (0, 1, 2, 3, 5):
            R.case(tab, n=n, dim=dim)
    for n in range(1, 10):
        for dim in range(0, 5):
            for extra in (dim, dim + 1, dim + 2):
                R.case(bijection, n=n, dim=dim, extra=extra)
    for t in range(40 if tier == "quick" else 1000):
        n = int(rng.integers(30, 400 if t % 10 else 1200))
        dim = int(rng.integers(0, 4))
        vs = [sorted(rng.choice(n, dim + 1, replace=False).tolist()) for _ in range(60)]
        vs += [list(range(n - dim - 1, n)), list(range(dim + 1))]
        R.case(big, n=n, dim=dim, verts=vs)
