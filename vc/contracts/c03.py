"""C03: the partition of unity of the landmark cover."""
from .coords import *

COVER = "emcoords.EMCoords.get_covering_partition"


def bump_fn(I):
    """a bump function as in C04: entrywise, positive inside the ball"""
    def g(I, ds, r):
        if not isinstance(ds, Arr): raise Unsupported("bump function of a non-array")
        rd = I.reader(ds)
        r = num(r)
        return I.arr(ds.shape, lambda ix: app("bump", (rd(ix), r), "R"), "f")
    I.fact(binderv("forall", var("bd", "R"), None, None, binderv("forall", var("br", "R"), None, None,
           implies(and_(le(0, var("bd", "R")), lt(var("bd", "R"), var("br", "R"))), lt(0, app("bump", (var("bd", "R"), var("br", "R")), "R"))))))
    return Native(g, "bump")


def cover_unit(I, ints):
    o = emobj(I, "projective")
    n, N_ = o.n, o.N
    r = I.real("r")
    dl = lambda l, x: app("dl", (l, x), "I" if ints else "R")
    if ints: I.setattr(o, "_dist_land_data", I.inp("dl", (n, N_), "i"))
    I.fact(forall(0, n, lambda l: forall(0, N_, lambda x: le(0, dl(l, x)))))
    g = bump_fn(I)
    phi, ball = I.run(Bound(I.get(COVER), o), r, g)
    I.no_raise()
    I.dims("weights", phi, (n, N_))
    I.dims("cover sets", ball, (N_,))
    (x,), rng = I.idx((N_,))
    (l,), rl = I.idx((n,))
    cov = exists(0, n, lambda k: lt(dl(k, x), r))
    c = I.int("c", 0)
    covc = [lt(c, n), lt(dl(c, x), r)]        # c: a ball containing x
    w = I.read(phi, (l, x))
    raw = lambda k: ite(lt(dl(k, x), r), app("bump", (dl(k, x), r), "R"), const(0, "R"))
    tot = sum_(0, n, raw)
    I.ensure("weights are non-negative", le(0, w), rng + rl + covc)
    I.ensure("weights vanish outside the ball", eq(w, 0), rng + rl + covc + [le(r, dl(l, x))])
    I.ensure("weights are the normalised bump values", eq(mul(w, tot), raw(l)), rng + rl + covc)
    I.ensure("the normalising sum is positive", lt(0, tot), rng + covc)
    I.ensure("weights sum to 1", eq(sum_(0, n, lambda k: I.read(phi, (k, x))), 1), rng + covc)
    b = I.read(ball, (x,))
    I.ensure("the cover set is a ball containing the point", and_(le(0, b), lt(b, n), lt(dl(b, x), r)), rng + covc)
    I.ensure("it is the first such landmark", forall(0, b, lambda k: le(r, dl(k, x))), rng + covc)
    (y,), ry = I.idx((N_,))
    un = lambda z: forall(0, n, lambda k: le(r, dl(k, z)))
    wy = I.read(phi, (l, y))
    I.ensure("uncovered points get undefined weights", is_nan(wy), ry + rl + [un(y)])
    # the warning: issued exactly when a point is uncovered, and it shows how many there are
    unc = sum_(0, N_, lambda z: ite(exists(0, n, lambda k: lt(dl(k, z), r)), const(0), const(1)))
    some = exists(0, N_, un)
    if not I.warnings: I.ensure("uncovered points trigger a warning", FALSE, [some])
    else:
        toty = sum_(0, n, lambda k: ite(lt(dl(k, y), r), app("bump", (dl(k, y), r), "R"), const(0, "R")))
        I.ensure("an uncovered point has no weight", eq(toty, 0), ry + [un(y)])
        I.ensure("uncovered points trigger a warning", or_(*[and_(*pc) for pc, _, _ in I.warnings]), ry + [un(y), eq(toty, 0)])
    for pc, node, args in I.warnings:
        I.oblige("no warning when every point is covered", some, "post", I.facts + list(pc))
        shown_ = [num(y) for x in args for y in shown(x) if is_num(y)]
        if not shown_: I.ensure("the warning states the number of uncovered points", FALSE, list(pc))
        for v in shown_:
            I.oblige("the warning states the number of uncovered points", eq(v, unc), "post", I.facts + list(pc))


@unit(COVER)
def c03_cover(I): cover_unit(I, False)


@unit(COVER)
def c03_cover_integer_distances(I): cover_unit(I, True)


def is_nan(t):
    if t is NAN: return TRUE
    if t.op in ("*", "+", "/"): return or_(*[is_nan(a) for a in t.args])
    if t.op == "ite": return ite(t.args[0], is_nan(t.args[1]), is_nan(t.args[2]))
    return FALSE
