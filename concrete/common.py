import itertools, re, warnings, contextlib
import numpy as np
from concrete.fw import *
from dreimac.emcoords import EMCoords
import dreimac.toroidalcoords as TC
import dreimac.complexprojectivecoords as CPC
import dreimac.utils as U
import dreimac.combinatorial as CNS
from dreimac import (CircularCoords, ToroidalCoords, ProjectiveCoords, LensCoords, ComplexProjectiveCoords, PartUnity,
                     CircleMapUtils, ProjectiveMapUtils, LensMapUtils, GeometryExamples, GeometryUtils)
from dreimac.utils import CohomologyUtils, EquivariantPCA

BUMPS = {"linear": lambda d, r: r - d, "quadratic": lambda d, r: (r - d) ** 2, "exp": lambda d, r: np.exp(r ** 2 / (d ** 2 - r ** 2)),
         "const": lambda d, r: np.ones_like(d), "cubic": lambda d, r: (r - d) ** 3}


def bump_repo(name):
    return {"linear": PartUnity.linear, "quadratic": PartUnity.quadratic, "exp": PartUnity.exp}.get(name) or BUMPS[name]


def sym(rng, n, vals=None):
    D = rng.random((n, n)) if vals is None else rng.choice(vals, size=(n, n)).astype(float)
    D = np.triu(D, 1)
    return D + D.T


def num(t, table):
    """number of a strictly increasing tuple, by the repository's general numbering"""
    return int(CNS.combinatorial_number_system_forward(np.array(t, dtype=int), table))


def table(n, dim):
    return CNS.combinatorial_number_system_table(n, dim)


def simplices(D, thr, k):
    n = len(D)
    return [s for s in itertools.combinations(range(n), k + 1) if all(D[a, b] < thr for a, b in itertools.combinations(s, 2))]


def cover(dist, r, bump):
    """oracle: weights (NaN columns where uncovered), first ball, covered mask"""
    L, N = dist.shape
    w = np.zeros((L, N))
    ball = np.zeros(N, dtype=int)
    cov = np.zeros(N, dtype=bool)
    for b in range(N):
        ins = [j for j in range(L) if dist[j, b] < r]
        for j in ins:
            w[j, b] = BUMPS[bump](np.array([dist[j, b]]), r)[0]
        s = w[:, b].sum()
        w[:, b] = w[:, b] / s if s != 0 else np.nan
        cov[b] = bool(ins)
        ball[b] = ins[0] if ins else 0
    return w, ball, cov


@contextlib.contextmanager
def patched(obj, name, val):
    had = name in vars(obj)
    old = vars(obj).get(name)
    setattr(obj, name, val)
    try:
        yield
    finally:
        if had:
            setattr(obj, name, old)
        else:
            delattr(obj, name)


@contextlib.contextmanager
def record_lsqr(mod, log):
    """record the least-squares problems solved by a coordinates module"""
    if not hasattr(mod, "lsqr"):
        yield
        return
    real = mod.lsqr

    def lsqr(A, b, *a, **k):
        r = real(A, b, *a, **k)
        log.append((A, np.array(b, dtype=float).copy(), np.array(r[0], dtype=float).copy()))
        return r
    with patched(mod, "lsqr", lsqr):
        yield


@contextlib.contextmanager
def short_milp(mod, seconds=6, shift=0.0):
    """bound the integer solver's time; running out of time is 'no lift found', an allowed exception.
    shift: move the solution by that much, within the solver's integrality tolerance"""
    if not hasattr(mod, "milp"):
        yield
        return
    real = mod.milp

    def milp(*a, **k):
        k["options"] = dict(k.get("options") or {}, time_limit=seconds)
        res = real(*a, **k)
        if shift and res["x"] is not None:
            res["x"] = np.asarray(res["x"]) + shift
        return res
    with patched(mod, "milp", milp):
        yield


@contextlib.contextmanager
def record_ppca(log):
    real = EquivariantPCA.ppca

    def ppca(class_map, *a, **k):
        log.append(np.array(class_map).copy())
        return real(class_map, *a, **k)
    with patched(EquivariantPCA, "ppca", staticmethod(ppca)):
        yield


def record_bump(name, log):
    f = bump_repo(name)

    def g(ds, r):
        log.append(float(r))
        return f(ds, r)
    return g


def set_class(obj, classes):
    """make the object return the given (birth, death, cocycle) triples for its classes"""
    def grc(cohomology_class, homological_dimension):
        b, d, c = classes[cohomology_class]
        return b, d, c
    obj.get_representative_cocycle = grc
    return obj


def circle(rng, n, noise=0.1, c=(0, 0), r=1.0):
    t = (np.arange(n) + .4 * rng.random(n)) * 2 * np.pi / n
    return np.c_[r * np.cos(t) + c[0], r * np.sin(t) + c[1]] + noise * (rng.random((n, 2)) - .5)


def euclid(X, Y):
    return np.sqrt(np.maximum(((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1), 0))


def rect(dist):
    """rectangular distance matrix input whose landmark list is 0..L-1 in order: L x N with N > L"""
    return dist


def em_from(dist, prime=41, cls=EMCoords, **k):
    L = dist.shape[0]
    if cls is EMCoords:
        return EMCoords(dist, L, True, prime, 1, False)
    return cls(dist, L, distance_matrix=True, **k)


def cocycle_fn1(cocycle, L):
    """alternating function on ordered pairs from a listed 1-cocycle"""
    c = np.zeros((L, L), dtype=int)
    for i, j, v in np.asarray(cocycle):
        c[i, j] = v
        c[j, i] = -v
    return c


def perm_sign(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


def metric_dist(rng, L, N, d=2, spread=1.0):
    """L x N distances of points in the plane, first L columns the landmarks; N > L"""
    P = rng.random((N, d)) * spread
    return euclid(P[:L], P)
