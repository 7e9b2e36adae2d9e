"""C23: cross-similarity matrices."""
from ..api import *

G = "utils.GeometryUtils."


def clouds(I):
    M, N_, d = I.int("M", 1), I.int("N", 1), I.int("d", 1)
    return M, N_, d, I.inp("X", (M, d)), I.inp("Y", (N_, d))


def rounded(t):
    """the term with every sum replaced by an arbitrary number (as if rounding had any effect), not negative where the summands are not"""
    memo, facts = {}, []

    def go(t):
        if t.id in memo: return memo[t.id]
        if t.op == "sum":
            r = fresh("rnd", "R")
            v, lo, hi, body = t.args
            if prover.smt.quick_implies([], le(0, body), 1000): facts.append(le(0, r))
        elif not t.args or nbind(t): r = t
        else: r = ir._rebuild(t, tuple(go(a) for a in t.args))
        memo[t.id] = r
        return r
    return go(t), facts


def defined(I, name, v, rng):
    t, facts = rounded(v)
    for a in find_apps(t, "sqrt"):
        I.ensure(name + ": the square root is defined whatever the rounding of the sums", le(0, a.args[0]), rng + facts)
    for a in find_apps(t, "arccos"):
        I.ensure(name + ": the arc cosine is defined whatever the rounding of the sums", and_(le(-1, a.args[0]), le(a.args[0], 1)), rng + facts)


X_ = lambda i, b: app("X", (i, b), "R")
Y_ = lambda i, b: app("Y", (i, b), "R")


@unit(G + "get_csm")
def euclidean(I):
    M, N_, d, X, Y = clouds(I)
    r = I.run(G + "get_csm", X, Y)
    I.no_raise()
    I.dims("result", r, (M, N_))
    (i, j), rng = I.idx((M, N_))
    v = I.read(r, (i, j))
    d2 = sum_(0, d, lambda b: mul(sub(X_(i, b), Y_(j, b)), sub(X_(i, b), Y_(j, b))))
    I.ensure("a sum of squares is not negative", le(0, d2), rng)
    I.ensure("the Euclidean distance", eq(v, sqrt(d2)), rng + [le(0, d2)])
    defined(I, "entry", v, rng)
    I.unchanged("first argument", X, lambda ix: X_(*ix))
    I.unchanged("second argument", Y, lambda ix: Y_(*ix))


@unit(G + "get_ssm")
def selfsim(I):
    M, N_, d, X, Y = clouds(I)
    r = I.run(G + "get_ssm", X)
    I.no_raise()
    I.dims("result", r, (M, M))
    (i, j), rng = I.idx((M, M))
    d2 = sum_(0, d, lambda b: mul(sub(X_(i, b), X_(j, b)), sub(X_(i, b), X_(j, b))))
    I.ensure("the Euclidean distance", eq(I.read(r, (i, j)), sqrt(d2)), rng + [le(0, d2)])
    I.ensure("symmetric", eq(I.read(r, (i, j)), I.read(r, (j, i))), rng)
    I.ensure("zero diagonal", eq(I.read(r, (i, i)), 0), rng)
    I.unchanged("argument", X, lambda ix: X_(*ix))


@unit(G + "get_csm_projarc")
def arc(I):
    M, N_, d, X, Y = clouds(I)
    r = I.run(G + "get_csm_projarc", X, Y)
    I.no_raise()
    I.dims("result", r, (M, N_))
    (i, j), rng = I.idx((M, N_))
    v = I.read(r, (i, j))
    ip = sum_(0, d, lambda b: mul(X_(i, b), Y_(j, b)))
    a = ite(lt(ip, 0), mul(-1, ip), ip)
    c = ite(lt(1, a), 1, a)
    I.ensure("arccos of the absolute inner product, clipped", eq(v, app("arccos", (c,), "R")), rng)
    I.ensure("the argument is in [0, 1] where arccos is defined with values in [0, pi/2]", and_(le(0, c), le(c, 1)), rng)
    defined(I, "entry", v, rng)
    I.unchanged("first argument", X, lambda ix: X_(*ix))
    I.unchanged("second argument", Y, lambda ix: Y_(*ix))
    # symmetric in its arguments, and invariant under negation of rows
    t = I.run(G + "get_csm_projarc", Y, X)
    I.ensure("symmetric in its arguments", eq(v, I.read(t, (j, i))), rng)
    sg = lambda k: app("sg", (k,), "I")
    I.fact(forall(0, M, lambda k: or_(eq(sg(k), 1), eq(sg(k), -1))))
    t = I.run(G + "get_csm_projarc", I.arr((M, d), lambda ix: mul(sg(ix[0]), X_(*ix)), "f"), Y)
    I.ensure("unchanged by negated rows of the first argument", eq(v, I.read(t, (i, j))), rng + [or_(eq(sg(i), 1), eq(sg(i), -1))])
    t = I.run(G + "get_csm_projarc", X, I.arr((N_, d), lambda ix: mul(-1, Y_(*ix)), "f"))
    I.ensure("unchanged by negated rows of the second argument", eq(v, I.read(t, (i, j))), rng)
