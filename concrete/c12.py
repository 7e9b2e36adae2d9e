from concrete.common import *
from concrete.c10 import loops, twist


def combine(classes, M, L, p):
    fs = [cocycle_fn1(c, L) for c in classes]
    out = []
    for r in M:
        f = sum(int(k) * g for k, g in zip(r, fs)) % p
        rows = [[i, j, int(f[i, j])] for i in range(L) for j in range(i + 1, L) if f[i, j]]
        out.append(np.array(rows, dtype=int).reshape(len(rows), 3))
    return out


def tor(P, M, prime, perc, seed):
    o = ToroidalCoords(P, len(P), prime=prime)
    D = o._dist_land_land
    L = len(D)
    k = len(M[0])
    if len(o._dgms[1]) < k: raise Skip()
    real = [o.get_representative_cocycle(i, 1) for i in range(k)]
    b, d = max(float(x[0]) for x in real), min(float(x[1]) for x in real)
    if 2 * b >= d or not np.isfinite(d): raise Skip()
    cs = combine([np.array(x[2]) for x in real], M, L, prime)
    n = len(cs)
    rs, log = [], []
    set_class(o, [(b, d, c.copy()) for c in cs])
    with record_lsqr(TC, log), short_milp(TC):
        res = np.asarray(o.get_coordinates(perc=perc, cocycle_idxs=list(range(n)), partunity_fn=record_bump("linear", rs)))
    log_all = list(log)
    singles = []
    for i in range(n):
        set_class(o, [(b, d, cs[i].copy())])
        singles.append(np.asarray(o.get_coordinates(perc=perc, cocycle_idxs=[0]))[0])
    singles = np.array(singles)
    o.__dict__.pop("get_representative_cocycle")
    ch = np.asarray(o._change_basis)
    check(ch.shape == (n, n) and np.abs(ch - np.round(ch)).max() < 1e-9, "change of basis is not an integer matrix: %s" % ch)
    check(abs(abs(np.linalg.det(ch)) - 1) < 1e-6, "change of basis is not unimodular: %s" % ch)
    circ_close(res, ch @ singles, "maps are not the combinations by the change of basis", 1e-5)
    check(bool((res >= 0).all() and (res <= 2 * np.pi).all()), "outside [0, 2 pi)")
    if len(log_all) != n or not rs: raise Skip()
    thr = 2 * rs[0]
    T = table(L, 2)
    E = simplices(D, thr, 1)
    H = np.array([[c[num(e, T)] - (x[e[0]] - x[e[1]]) for e in E] for _, c, x in log_all])
    close(np.asarray(o._original_gram_matrix), H @ H.T, "original Gram matrix", 1e-5)
    close(np.asarray(o._gram_matrix), ch @ H @ H.T @ ch.T, "Gram matrix of the recombined representatives", 1e-5)


@mon("C12", jit="nojit")
def gen(rng, tier, R):
    MS = [[[1, 0], [0, 1]], [[1, 0], [3, 1]], [[1, 2], [1, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [2, 1, 0], [3, 2, 1]], [[2, 1], [5, 3]],
          [[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[1, 0, 0], [-3, 1, 0], [4, -2, 1]], [[3, 1], [1, 0]], [[-1, 0], [0, 1]], [[1, 4, 0], [0, 1, 3], [0, 0, 1]]]
    for t in range(10 ** 4):
        M = MS[t % len(MS)]
        k = len(M[0])
        P = loops(rng, int(rng.integers(10, 20)), k, t // len(MS) % 2 == 1)
        R.case(tor, P=P, M=M, prime=41, perc=float([.5, .9, .1][t % 3]), seed=0)
