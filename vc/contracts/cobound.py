"""Shared specification of the coboundary matrices (C08, C09, C10, ...)."""
from ..api import *
def table(I, n, d, name="lut"):
    """the lookup table for n vertices and dimension d, as the contract of combinatorial_number_system_table describes it"""
    return I.arr((add(n, 1), add(d, 2)), lambda ix: app("binom", ix, "I"), "i")


def dist(I, n, name="D"):
    """a symmetric n x n distance matrix"""
    def fn(ix):
        a, b = ix
        q = I.decide(le(a, b)) if a is not b else True
        if q is None: return d(a, b, name)
        return app(name, (a, b) if q else (b, a), "R")
    fn.nomemo = True        # the answer may depend on the path condition
    return I.arr((n, n), fn, "f")


def d(a, b, name="D"):
    """entry (a, b): symmetric by construction"""
    a, b = const(a), const(b)
    if a is b: return app(name, (a, b), "R")
    return ite(le(a, b), app(name, (a, b), "R"), app(name, (b, a), "R"))


def N(*vs): return add(*[app("binom", (const(v), const(i + 1)), "I") for i, v in enumerate(vs)])


def count(n, k): return app("binom", (n, const(k)), "I")


def short(vs, thr, name="D"):
    """all edges of the simplex with increasing vertices vs are shorter than thr"""
    return and_(*[lt(app(name, (a, b), "R"), thr) for i, a in enumerate(vs) for b in vs[i + 1:]])


# faces (as index tuples) with their signs, in the conventions of the package
FACES = {1: [((0,), 1), ((1,), -1)],
         2: [((0, 1), 1), ((1, 2), 1), ((0, 2), -1)],
         3: [((0, 1, 2), 1), ((0, 1, 3), -1), ((0, 2, 3), 1), ((1, 2, 3), -1)]}


def facenum(t): return t[0] if len(t) == 1 else N(*t)


def over_simplices(n, k, f):
    """sum of f(v0..vk) over 0 <= v0 < ... < vk < n"""
    def go(vs):
        if len(vs) == k + 1: return f(vs)
        lo = add(vs[-1], 1) if vs else const(0)
        return sum_(lo, n, lambda v: go(vs + [v]))
    return go([])


def bag_sum(bag, f):
    t = const(0, "R")
    for vs, q, row, col, val in bag:
        x = ite(q, f(vs, row, col, val), const(0, "R"))
        for v, lo, hi in reversed(vs): x = binderv("sum", v, lo, hi, x)
        t = add(t, x)
    return t


def spec_form(n, k, thr, w, v):
    """sum over the k-simplices below the threshold of w(simplex) * (sum of signed v(face numbers))"""
    return over_simplices(n, k, lambda vs: mul(ite(short(vs, thr), const(1, "R"), const(0, "R")),
                                               w(vs), add(*[mul(sg, v(facenum(tuple(vs[i] for i in f)))) for f, sg in FACES[k]])))


def rank(binders, cond):
    """how many times the innermost block of the nest ran before the current iteration"""
    t = const(0)
    for lvl in range(len(binders)):
        vs = binders[:lvl]
        v, lo, hi = binders[lvl]
        m = {}
        u = fresh("r")
        m[v] = u
        inner = []
        for (b, l, h) in binders[lvl + 1:]:
            nb = fresh("r")
            inner.append((nb, subst(l, m), subst(h, m)))
            m[b] = nb
        x = ite(subst(cond, m), const(1), const(0))
        for nb, l, h in reversed(inner): x = binderv("sum", nb, l, h, x)
        t = add(t, binderv("sum", u, lo, v, x))
    return t
