from concrete.common import *


def class_mod(cocycle, S, T, p):
    v = np.zeros(int(T[-1, len(S[0])]) if S else 1, dtype=int)
    for row in np.asarray(cocycle):
        vs = [int(x) for x in row[:-1]]
        v[num(sorted(vs), T)] = perm_sign(vs) * int(row[-1])
    return v


def judge(b, lifted, D, thr, p, k, what):
    """b: the cochain coordinates are built from; lifted: the selected class as a dense vector of residues"""
    n = len(D)
    T = table(n, 3)
    S = simplices(D, thr, k)
    idx = [num(s, T) for s in S]
    v = b[idx]
    check(np.abs(v - np.round(v)).max(initial=0) < 1e-6, what + ": not an integer cochain")
    c = np.round(b).astype(int)
    for s in simplices(D, thr, k + 1):
        if k == 1:
            z = c[num(s[:2], T)] + c[num(s[1:], T)] - c[num((s[0], s[2]), T)]
        else:
            i, j, k3, l = s
            z = c[num((i, j, k3), T)] - c[num((i, j, l), T)] + c[num((i, k3, l), T)] - c[num((j, k3, l), T)]
        check(z == 0, what + ": cocycle condition fails on %s" % (s,))
    bad = [s for s, q in zip(S, idx) if (c[q] - lifted[q]) % p != 0]
    check(not bad, what + ": not congruent modulo %d to the chosen class on %s" % (p, bad[:3]))


def twist(rng, coc, L, p, D, thr, dim, amount):
    """add the coboundary of a random cochain mod p to a cocycle (same class, other representative)"""
    T = table(L, 3)
    full = {}
    for row in np.asarray(coc):
        vs = [int(x) for x in row[:-1]]
        s = tuple(sorted(vs))
        full[s] = (perm_sign(vs) * int(row[-1])) % p
    if dim == 1:
        f = rng.integers(0, p, size=L) * (rng.random(L) < amount)
        for s in itertools.combinations(range(L), 2):
            full[s] = (full.get(s, 0) + int(f[s[0]] - f[s[1]])) % p
    else:
        f = {s: int(rng.integers(0, p)) if rng.random() < amount else 0 for s in itertools.combinations(range(L), 2)}
        for s in itertools.combinations(range(L), 3):
            full[s] = (full.get(s, 0) + f[s[:2]] + f[s[1:]] - f[(s[0], s[2])]) % p
    rows = []
    for s, v in full.items():
        if v:
            q = rng.permutation(len(s))
            vs = [s[i] for i in q]
            rows.append(vs + [int(v) if perm_sign(vs) == 1 else int((-v) % p)])
    return np.array(rows, dtype=int).reshape(len(rows), dim + 2)


def toroidal(P, L, prime, twists, seed, perc):
    rng = np.random.default_rng(seed)
    cls = ToroidalCoords if len(twists) > 1 or seed % 2 else CircularCoords
    o = cls(P, L, prime=prime)
    D = o._dist_land_land
    if len(o._dgms[1]) < len(twists): raise Skip()
    real = [o.get_representative_cocycle(i, 1) for i in range(len(twists))]
    b, d = max(float(x[0]) for x in real), min(float(x[1]) for x in real)
    if 2 * b >= d or not np.isfinite(d): raise Skip()
    cs = [twist(rng, x[2], len(D), prime, D, d, 1, t) if t else np.array(x[2]) for x, t in zip(real, twists)]
    classes = [(b, d, c.copy()) for c in cs]
    set_class(o, classes)
    log, rs = [], []
    kw = dict(perc=perc, partunity_fn=record_bump("linear", rs))
    with record_lsqr(TC, log), short_milp(TC, shift=[0.0, -1e-8, 1e-8][seed % 3]):
        try:
            if cls is ToroidalCoords: o.get_coordinates(cocycle_idxs=list(range(len(twists))), **kw)
            else: o.get_coordinates(cocycle_idx=0, **kw)
        except Exception as e:
            if "integral lift" in str(e): raise Skip()      # an exception is an allowed outcome when the solver finds no lift
            raise
    if len(log) != len(twists) or not rs: raise Skip()
    thr = 2 * rs[0]
    T = table(len(D), 3)
    S = simplices(D, thr, 1)
    for k, (A, rhs, x) in enumerate(log):
        judge(rhs, class_mod(cs[k], [(0, 1)], T, prime), D, thr, prime, 1, "class %d" % k)


def loops(rng, n, m, twins=False):
    """m noisy circles; with twins, two more points close to far apart ones, so that the last two landmarks share no edge"""
    if twins:
        P = loops(rng, n, m)
        k = n // 2 if m == 1 else n
        return np.concatenate([P, P[:1] + [1e-3, 0], P[k:k + 1] + [1.1e-3, 0]])
    cs = [(0, 0, 1.0), (6, 0, 1.1), (0, 7, 1.2)][:m]
    return np.concatenate([circle(rng, n, .05, c[:2], c[2]) for c in cs])


@mon("C10", jit="nojit")
def gen(rng, tier, R):
    for t in range(1000):
        m = [1, 2, 2, 3, 2, 1][t % 6]
        n = int(rng.integers(12, 18))
        P = loops(rng, n, m, t % 5 == 3)
        amounts = [[1.0], [1.0, 1.0], [0.0, 1.0], [1.0, .5, 1.0], [1.0, 0.0], [0.3]][t % 6]
        R.case(toroidal, P=P, L=len(P), prime=int([3, 5, 41, 7][t % 4]), twists=amounts, seed=int(rng.integers(10 ** 6)), perc=float([.5, .1, .9, 0.0][t % 4]))


def complexp(seed, L, prime, amount, perc):
    rng = np.random.default_rng(seed)
    P = rng.normal(size=(60, 3))
    P /= np.linalg.norm(P, axis=1)[:, None]
    o = ComplexProjectiveCoords(P, L, prime=prime)
    if len(o._dgms[2]) == 0: raise Skip()
    D = o._dist_land_land
    b, d, c = o.get_representative_cocycle(0, 2)
    b, d = float(b), float(d)
    if b >= d: raise Skip()
    c = twist(rng, c, L, prime, D, d, 2, amount) if amount else np.array(c)
    set_class(o, [(b, d, c.copy())])
    log, rs = [], []
    with record_lsqr(CPC, log), short_milp(CPC, shift=[0.0, -1e-8, 1e-8][seed % 3]):
        try:
            o.get_coordinates(perc=perc, standard_range=2 * b < d, partunity_fn=record_bump("linear", rs))
        except Exception as e:
            if "integral lift" in str(e): raise Skip()
            raise
    if len(log) != 1 or not rs: raise Skip()
    T = table(L, 3)
    judge(log[0][1], class_mod(c, [(0, 1, 2)], T, prime), D, 2 * rs[0], prime, 2, "class")


@mon("C10", jit="nojit")
def gen2(rng, tier, R):
    for t in range(200):
        R.case(complexp, seed=int(rng.integers(10 ** 6)), L=int(rng.integers(10, 15)), prime=int([3, 41, 5][t % 3]), amount=[1.0, .2, 0.0][t % 3 if t > 3 else 0], perc=float([.5, .1, .9][t % 3]))


def torsion(n, prime):
    """a class with no integral lift must raise, not return coordinates"""
    X, D = GeometryExamples.rp2_metric(n)
    o = CircularCoords(D, n, distance_matrix=True, prime=prime)
    b, d, c = o.get_representative_cocycle(0, 1)
    if not 2 * b < d: raise Skip()
    log, rs = [], []
    c0 = np.array(c).copy()
    with record_lsqr(TC, log), short_milp(TC):
        try:
            o.get_coordinates(perc=.3, partunity_fn=record_bump("linear", rs))
        except Exception as e:
            check("lift" in str(e), "unexpected exception %r" % (e,))
            return
    if log: judge(log[0][1], class_mod(c0, [(0, 1)], table(len(D), 3), prime), o._dist_land_land, 2 * rs[0], prime, 1, "torsion class")


@mon("C10", jit="nojit")
def gen3(rng, tier, R):
    R.case(torsion, n=40, prime=2)
