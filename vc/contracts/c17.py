"""C17: circle-map utilities."""
from ..api import *

U = "utils.CircleMapUtils."
TURN = mul(2, PI)


def points(I, two=False):
    N_ = I.int("N", 1)
    a = I.inp("x", (N_,))
    return N_, a, lambda i: app("x", (i,), "R")


def unit_range(I, name, t, hyps):
    I.ensure(name + " is in [0, 2 pi)", and_(le(0, t), lt(t, TURN)), hyps)


@unit(U + "offset")
def offset(I):
    N_, a, x = points(I)
    s = I.real("s")
    r = I.run(U + "offset", a, s)
    I.no_raise()
    I.dims("result", r, (N_,))
    (i,), rng = I.idx((N_,))
    v = I.read(r, (i,))
    I.ensure("a rotation by the offset", eq(v, fmod(add(x(i), mul(s, TURN)), TURN)), rng)
    unit_range(I, "the result", v, rng)
    I.ensure("differs from the rotated point by full turns", eq(v, sub(add(x(i), mul(s, TURN)), mul(TURN, floor(div(sub(add(x(i), mul(s, TURN)), v), TURN))))), rng)
    I.unchanged("input", a, lambda ix: x(*ix))


@unit(U + "center")
def center(I):
    N_, a, x = points(I)
    r = I.run(U + "center", a)
    I.no_raise()
    H = getattr(I, "histograms", [])
    if len(H) != 1: raise Unsupported("one histogram expected")
    arr, bins, vals, ticks = H[0]
    I.dims("result", r, (N_,))
    (i,), rng = I.idx((N_,))
    I.ensure("the histogram is that of the input", eq(arr((i,)), x(i)), rng)
    I.ensure("with 50 bins", eq(num(bins), 50))
    v = I.read(r, (i,))
    k = binder("argmax", 0, 50, lambda j: vals((j,)))
    I.ensure("a common rotation taking the left edge of the most populated bin to pi", eq(v, fmod(add(x(i), sub(PI, ticks((k,)))), TURN)), rng)
    y = fresh("y", "R")
    unit_range(I, "a number modulo 2 pi", fmod(y, TURN), [])
    I.unchanged("input", a, lambda ix: x(*ix))


def combination(row):
    def c(I):
        k, l, n = I.int("k", 1), I.int("l", 1), I.int("n", 0)
        M = I.inp("theta", (k, n))
        A = I.inp("A", (k,) if row else (l, k), "i")
        r = I.run(U + "linear_combination", M, A)
        I.no_raise()
        (a, x), rng = I.idx((l, n))
        I.dims("result", r, (n,) if row else (l, n))
        coef = (lambda b: app("A", (b,), "I")) if row else (lambda b: app("A", (a, b), "I"))
        v = I.read(r, (x,) if row else (a, x))
        want = sum_(0, k, lambda b: mul(coef(b), app("theta", (b, x), "R")))
        I.ensure("the integer combination modulo 2 pi", eq(v, fmod(want, TURN)), rng)
        unit_range(I, "the result", v, rng)
        I.unchanged("maps", M, lambda ix: app("theta", ix, "R"))
        I.unchanged("matrix", A, lambda ix: app("A", ix, "I"))
    return c


unit(U + "linear_combination", "combination_matrix")(combination(False))
unit(U + "linear_combination", "combination_row")(combination(True))


def turned(I, x):
    """the same points with representatives shifted by full turns"""
    z = lambda i: app("z", (i,), "I")
    return lambda i: add(x(i), mul(TURN, z(i)))


@unit(U + "to_sinebow")
def sinebow(I):
    N_, a, x = points(I)
    r = I.run(U + "to_sinebow", a)
    b = I.arr((N_,), lambda ix: turned(I, x)(*ix), "f")
    r2 = I.run(U + "to_sinebow", b)
    I.no_raise()
    I.dims("colours", r, (N_, const(3)))
    (i,), rng = I.idx((N_,))
    for ch in range(3):
        v = I.read(r, (i, const(ch)))
        I.ensure("channel %d is in [0, 1]" % ch, and_(le(0, v), le(v, 1)), rng)
        I.ensure("channel %d depends on the point of the circle only" % ch, eq(v, I.read(r2, (i, const(ch)))), rng)
        f = sin(mul(PI, sub(Fraction(3 + 2 * ch, 6), fmod(add(div(x(i), TURN), Fraction(1, 2)), 1))))
        I.ensure("channel %d is the sinebow" % ch, eq(v, mul(f, f)), rng)
    I.unchanged("input", a, lambda ix: x(*ix))


def levels(smooth):
    def c(I):
        N_, a, x = points(I)
        n = I.int("n", 1)
        s = I.real("s") if smooth else const(0)
        if smooth: I.fact(lt(0, s))
        r = I.run(U + "levelset_coloring", a, n, s)
        b = I.arr((N_,), lambda ix: turned(I, x)(*ix), "f")
        r2 = I.run(U + "levelset_coloring", b, n, s)
        I.no_raise()
        I.dims("colours", r, (N_,))
        (i,), rng = I.idx((N_,))
        v = I.read(r, (i,))
        I.ensure("in [0, 1]", and_(le(0, v), le(v, 1)), rng)
        I.ensure("depends on the point of the circle only", eq(v, I.read(r2, (i,))), rng)
        if not smooth:
            # arc q of 2n equal arcs of the circle has the colour of the parity of q
            q, f = fresh("q"), fresh("f", "R")
            at = subst_apps(v, {"x": lambda j: div(mul(PI, add(q, f)), n) if j is i else ite(eq(j, i), div(mul(PI, add(q, f)), n), app("x", (j,), "R"))})      # x(i) = pi (q + f) / n
            I.ensure("the colour alternates over 2n equal arcs", eq(at, fmod(q, 2)), rng + [le(0, q), lt(q, mul(2, n)), le(0, f), lt(f, 1)])
        I.unchanged("input", a, lambda ix: x(*ix))
    return c


unit(U + "levelset_coloring", "levelsets_sharp")(levels(False))
unit(U + "levelset_coloring", "levelsets_smooth")(levels(True))
