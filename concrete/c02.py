from concrete.common import *


def radius(perc, birth, death, standard):
    o = EMCoords.__new__(EMCoords)
    start = 2 * birth if standard else birth
    try:
        r, t = o.get_cover_radius(perc, birth, death, standard)
    except Exception as e:
        if isinstance(e, (AttributeError, NameError, TypeError)): raise
        check(start > death, "exception although start %r <= end %r" % (start, death))
        return
    check(start <= death, "no exception although start %r > end %r" % (start, death))
    close(t, (1 - perc) * start + perc * death, "filtration value", 1e-12)
    close(r, t / 2, "covering radius is half the filtration value", 1e-12)
    check(start - 1e-12 * abs(start) <= t <= death + 1e-12 * abs(death), "filtration value outside [start, end]")


@mon("C02", jit="nojit")
def gen(rng, tier, R):
    for t in range(3000):
        b = float(rng.choice([0.0, rng.random(), rng.random() * 10, 1.0]))
        d = float(rng.choice([2 * b, b, b * rng.random(), b + rng.random(), 2 * b + rng.random(), np.nextafter(2 * b, 0)]))
        R.case(radius, perc=float(rng.choice([0.0, 1.0, 0.5, 0.9, rng.random()])), birth=b, death=d, standard=bool(rng.integers(2)))


_OBJ = {}


def _obj(kind):
    if kind not in _OBJ:
        rng = np.random.default_rng(5)
        if kind == "cp":
            P = GeometryExamples.sphere(60)
            _OBJ[kind] = ComplexProjectiveCoords(P, 14)
        else:
            P = np.r_[circle(rng, 25, 0), circle(rng, 25, 0, c=(5, 0), r=1.3), circle(rng, 25, 0, c=(0, 6), r=1.6)]
            C = {"tor": ToroidalCoords, "circ": CircularCoords, "rp": ProjectiveCoords, "lens": LensCoords}[kind]
            _OBJ[kind] = C(P, 45)
    return _OBJ[kind]


def end_to_end(kind, perc, lifetimes, standard):
    """the radius handed to the bump function is the one the classes' lifetimes call for"""
    o = _obj(kind)
    o.__dict__.pop("get_representative_cocycle", None)
    dim = 2 if kind == "cp" else 1
    real = [o.get_representative_cocycle(i, dim) for i in range(len(lifetimes))]
    classes = [(b, d, np.array(real[i][2])) for i, (b, d) in enumerate(lifetimes)]
    set_class(o, classes)
    log = []
    start, end = max(b for b, _ in lifetimes), min(d for _, d in lifetimes)
    s2 = 2 * start if standard else start
    # a class without lifetime has no range at all (several classes); a single class may have start == end
    bad = s2 > end or (kind == "tor" and start >= end)
    edge = kind == "circ" and start >= end
    kw = dict(perc=perc, partunity_fn=record_bump("linear", log), standard_range=standard)
    try:
        if kind == "tor":
            o.get_coordinates(cocycle_idxs=list(range(len(lifetimes))), check_cocycle_condition=False, **kw)
        elif kind in ("circ", "cp"):
            o.get_coordinates(cocycle_idx=0, check_cocycle_condition=False, **kw)
        else:
            o.get_coordinates(cocycle_idx=0, **kw)
    except (AttributeError, NameError, TypeError):
        raise
    except Exception as e:
        if not log:
            check(bad or edge, "coordinates refused (%s) although start %r <= end %r" % (e, s2, end))
            return
        # the radius was chosen; what happens afterwards (isolated landmarks...) is not this property
    finally:
        o.__dict__.pop("get_representative_cocycle", None)
    check(not bad, "no exception although the classes have no admissible filtration value (start %r, end %r)" % (s2, end))
    if not log: raise Skip()
    want = ((1 - perc) * s2 + perc * end) / 2
    for r in log:
        close(r, want, "covering radius used for the cover", 1e-9)


@mon("C02", jit="nojit")
def gen2(rng, tier, R):
    for t in range(400):
        kind = ["tor", "circ", "tor", "rp", "lens", "cp"][t % 6]
        k = int(rng.integers(1, 4)) if kind == "tor" else 1
        std = bool(rng.integers(2))
        m = 0.5 + rng.random()
        lt = [(float(m * rng.random() * (0.6 if std else 1)), float(m * (1 + rng.random()))) for _ in range(k)]
        if t % 7 == 0: lt[int(rng.integers(k))] = (m * 1.5, m * 1.6)
        if t % 11 == 0: lt = [(m * 1.0, m * 1.0)] * k
        if t % 13 == 0: lt = [(m * 0.6, m * 1.0)] * k
        R.case(end_to_end, kind=kind, perc=float(rng.choice([0.0, .3, .5, .9, 1.0])), lifetimes=lt, standard=std)
