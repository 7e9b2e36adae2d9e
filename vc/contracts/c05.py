"""C05: the combinatorial number system."""
from .cobound import *

# strictly increasing tuples are numbered one-to-one onto 0..count-1 by sum_l binom(v_l, l+1): number_lt, number_inj, number_surj
LEAN = ["Numbering.lean"]


@unit("combinatorial.combinatorial_number_system_table")
def c05_table(I):
    n, d = I.int("n", 0), I.int("d", 0)
    t = I.run("combinatorial.combinatorial_number_system_table", n, d)
    I.no_raise()
    I.dims("table", t, (add(n, 1), add(d, 2)))
    ix, rng = I.idx((add(n, 1), add(d, 2)))
    I.ensure("entry (i, l) is the binomial coefficient", eq(I.read(t, ix), app("binom", ix, "I")), rng)


@unit("combinatorial.number_of_simplices_of_dimension")
def c05_count(I):
    n, D, d, m = I.int("n", 0), I.int("D", 0), I.int("d", 0), I.int("m", 0)
    I.fact(le(d, D), le(m, n))
    lut = table(I, n, D)
    r = I.run("combinatorial.number_of_simplices_of_dimension", d, m, lut)
    I.no_raise()
    I.ensure("the number of d-simplices on m vertices is binom(m, d+1)", eq(r, app("binom", (m, add(d, 1)), "I")))
    I.unchanged("lookup table", lut, lambda ix: app("binom", ix, "I"))


@unit("combinatorial.combinatorial_number_system_forward")
def c05_forward(I):
    n, D, d = I.int("n", 1), I.int("D", 0), I.int("d", 0)
    I.fact(le(d, D))
    lut = table(I, n, D)
    s = I.inp("v", (add(d, 1),), "i")
    I.fact(forall(0, add(d, 1), lambda k: and_(le(0, app("v", (k,), "I")), lt(app("v", (k,), "I"), n))))
    r = I.run("combinatorial.combinatorial_number_system_forward", s, lut)
    I.no_raise()
    I.ensure("the number of a simplex is sum_l binom(v_l, l+1)", eq(r, sum_(0, add(d, 1), lambda l: app("binom", (app("v", (l,), "I"), add(l, 1)), "I"))))
    I.unchanged("simplex", s, lambda ix: app("v", ix, "I"))


def special(k):
    def contract(I):
        n, D = I.int("n", 1), I.int("D", k - 1)
        lut = table(I, n, D)
        vs = [I.int("v%d" % i, 0) for i in range(k)]
        for v in vs: I.fact(lt(v, n))
        f = "combinatorial.combinatorial_number_system_d%d_forward" % (k - 1)
        r = I.run(f, *vs, lut)
        I.no_raise()
        spec = add(*[app("binom", (v, const(i + 1)), "I") for i, v in enumerate(vs)])
        I.ensure("number of the simplex", eq(r, spec))
        s = I.arr((const(k),), lambda ix: ite(eq(ix[0], 0), vs[0], ite(eq(ix[0], 1), vs[1], vs[-1])), "i")
        g = I.run("combinatorial.combinatorial_number_system_forward", s, lut)
        I.ensure("agrees with the general numbering", eq(r, g))
    return contract


for k in (2, 3):
    unit("combinatorial.combinatorial_number_system_d%d_forward" % (k - 1), "c05_special%d" % k)(special(k))
