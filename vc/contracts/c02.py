"""C02: the covering radius."""
from .coords import *

RADIUS = "emcoords.EMCoords.get_cover_radius"


@unit(RADIUS)
def c02_radius(I):
    o = emobj(I, "projective")
    perc, a, b = I.real("perc"), I.real("birth"), I.real("death")
    std = var("std", "B")
    start = ite(std, mul(2, a), a)
    r = I.run(Bound(I.get(RADIUS), o), perc, a, b, std)
    rc, thr = r
    spec = add(mul(sub(1, perc), start), mul(perc, b))
    I.ensure("the filtration value is (1-perc)*start + perc*end", eq(thr, spec))
    I.ensure("the radius is half the filtration value", eq(mul(2, rc), thr))
    I.ensure("between start and end", and_(le(start, thr), le(thr, b)), [le(0, perc), le(perc, 1)])
    I.ensure("a value is returned only when start <= end", le(start, b))
    for k, (pc, exc, st) in enumerate(I.raises):
        I.oblige("an exception only when start > end", lt(b, start), "raises", list(pc))
    I.cover("some radius", le(0, perc))


@unit("emcoords.EMCoords.get_representative_cocycle")
def c02_representative(I):
    for kind in ("toroidal", "cp"):
        o = emobj(I, kind)
        c = I.int("c", 0)
        I.fact(lt(c, o.K))
        f = I.get("emcoords.EMCoords.get_representative_cocycle")
        a, b, co = I.run(Bound(f, o), c, o.dim)
        I.no_raise()
        I.ensure("birth of the class", eq(a, dgm(c, 0, o.dim)))
        I.ensure("death of the class", eq(b, dgm(c, 1, o.dim)))
        ix, rng = I.idx((rows(c, o.dim), const(o.dim + 2)))
        I.dims("cocycle", co, (rows(c, o.dim), o.dim + 2))
        I.ensure("cocycle of the class", eq(I.read(co, ix), coc(c, ix[0], ix[1], o.dim)), rng)


def caller(kind):
    def c(I):
        o = emobj(I, kind)
        perc = I.real("perc")
        std = var("std", "B")
        rec = stop_at(I, RADIUS)
        lift_contract(I)
        kw = dict(perc=perc, standard_range=std)
        m = const(1)
        if kind == "toroidal":
            m = I.int("m", 1)
            at = lambda t: app("idx", (t,), "I")
            kw["cocycle_idxs"] = SymList(m, at)
        else:
            c0 = I.int("c")
            at = lambda t: c0
            kw["cocycle_idx"] = c0
        I.fact(forall(0, m, lambda t: and_(le(0, at(t)), lt(at(t), o.K))))
        try:
            I.run(Bound(I.get(CLASSES[kind][0] + ".get_coordinates"), o), **kw)
            I.ensure("the covering radius is computed on every path", FALSE)
        except Raised:
            pass
        if not rec: raise Unsupported("get_cover_radius is not called")
        B = lambda t: dgm(at(t), 0, o.dim)
        E = lambda t: dgm(at(t), 1, o.dim)
        for nm, pc, d in rec:
            _, pa, a, b, sr = list(d.values())[:5]
            h = list(pc)
            I.ensure("perc is passed on", eq(pa, perc), h)
            I.ensure("standard_range is passed on", iff(truth(sr), std), h)
            I.ensure("start is the latest birth", and_(forall(0, m, lambda t: le(B(t), a)), exists(0, m, lambda t: eq(B(t), a))), h)
            I.ensure("end is the earliest death", and_(forall(0, m, lambda t: le(b, E(t))), exists(0, m, lambda t: eq(E(t), b))), h)
            if kind in ("toroidal",):
                I.ensure("several classes have a common lifetime", lt(a, b), h + [lt(1, m)])
        # the other exceptions: only for classes without a common lifetime
        for pc, exc, st in I.raises:
            if exc.name == "stop": continue
            x = I.int("ra")
            I.oblige("an exception only when no lifetime is common to the classes",
                     exists(0, m, lambda s: exists(0, m, lambda t: le(E(t), B(s)))), "raises", I.facts + list(pc))
    return c


for kind in CLASSES:
    unit(CLASSES[kind][0] + ".get_coordinates", "caller_" + kind)(caller(kind))
