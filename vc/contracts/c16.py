"""C16: equivariant dimensionality reduction: the code runs on a data set and on the same data set with every point multiplied
by a unit scalar; the loops carry the relation between the two as an invariant."""
from ..api import *
from ..npmodel import isnan

F = "utils.EquivariantPCA.ppca"


def bad(n): return app("bad", (n,), "B")


def phase(real, p): return ite(app("flip", (p,), "B"), const(-1, "R"), const(1, "R")) if real else polar(const(1), app("turn", (p,), "R"))


class Pair:
    """what the two runs share"""

    def __init__(s, real, N):
        s.real, s.N, s.second, s.seen, s.learned, s.count = real, N, False, {}, {}, 0

    def points(s):
        """the point axis: in the run without the undefined points the defined ones keep their names"""
        return MaskDim(lambda ix: not_(bad(ix[0])), [s.N]) if s.second == "absent" else s.N

    def value(s, name, args, p):
        v = app(name, args, "R") if s.real else Cx(app(name + "_re", args, "R"), app(name + "_im", args, "R"))
        if s.second == "absent": return v
        if s.second: v = n_mul(phase(s.real, p), v)
        nan = lambda t: ite(bad(p), NAN, t)
        return Cx(nan(v.re), nan(v.im)) if isinstance(v, Cx) else nan(v)

    def times(s, u, p): return u if s.second == "absent" else n_mul(phase(s.real, p), u)

    def spec(s, I, ctx):
        s.count += 1
        return Inv(I, s, "loop%d" % s.count)

    def start(s, second):
        s.second, s.count = second, 0


class Inv:
    """arrays with one column per point: the columns of undefined points are NaN, the others are unit vectors; in the second
    run every column is the first run's times the scalar of its point"""

    def __init__(s, I, pair, name):
        s.I, s.pair, s.nm = I, pair, name
        # the iterations of the two runs correspond: the counters are the same in both
        s.index, s.end = var(name + ".i"), var(name + ".end")
        s.know = pair.learned.setdefault(name, {})      # the same shapes in both runs

    def points(s, v): return isinstance(v, Arr) and len(v.shape) == 2 and same_axis(v.shape[1], s.pair.points())

    def state(s, i, mods):
        out = {}
        I = s.I
        for k, v in mods.items():
            nm = s.loop.name(k)
            if k[0] == "c" and isinstance(v, Content):
                d = I.celldtype.get(k[1])
                if d == "c": out[k] = Content(lambda ix, k=k: Cx(app("hv%d.re" % k[1], (i,) + tuple(ix), "R"), app("hv%d.im" % k[1], (i,) + tuple(ix), "R")), (), ())
                else: out[k] = Content(lambda ix, k=k, d=d: app("hv%d" % k[1], (i,) + tuple(ix), {"f": "R", "i": "I", "b": "B"}[d]), (), ())
            elif nm is None: continue
            elif s.points(v): out[k] = s.column(nm, i, v)
            elif v is None:
                at = s.know.get((nm, "from"))
                if at is None: out[k] = None
                else:
                    t, rows = at
                    out[k] = Union([(lt(t, i), I.mk(lambda ix: s.pair.value(s.nm + nm, tuple(ix), ix[1]), (rows, s.pair.points()), "f" if s.pair.real else "c", True)), (not_(lt(t, i)), None)])
                    s.unit(out[k].alts[0][1], lt(t, i))
            elif isinstance(v, Term) and v.sort == "I": out[k] = s.counter(nm, i)
        return out

    def rows(s, nm, i, v):
        g = app(s.nm + nm + ".rows", (i,), "I")
        dlt = s.know.get((nm, "step"))
        if dlt is not None: return add(v.shape[0], mul(dlt, sub(i, s.loop.lo if s.loop.lo is not None else 0)))
        return g

    def counter(s, nm, i):
        t = app(s.nm + nm, (i,), "I")

        for k, v in s.mods.items():
            if s.loop.name(k) and s.points(v) and s.pair.keep is not None: s.I.fact(le(add(t, s.pair.keep), s.rows(s.loop.name(k), i, v)))
        return t

    def column(s, nm, i, v):
        r = s.rows(nm, i, v)
        s.I.fact(lt(0, r))
        if s.pair.keep is not None: s.I.fact(le(s.pair.keep, r))
        a = s.I.mk(lambda ix: s.pair.value(s.nm + nm, (i,) + tuple(ix), ix[1]), (r, s.pair.points()), "f" if s.pair.real else "c", True)
        s.unit(a, TRUE)
        return a

    def unit(s, a, when):
        """the invariant assumed of the first run: unit columns"""
        if s.pair.second: return
        q = fresh("p")
        for m, c in ((a.shape[0], TRUE),) + (((s.pair.keep, eq(a.shape[0], s.pair.keep)),) if s.pair.keep is not None else ()):
            s.I.fact(forall(0, s.pair.N, lambda p: implies(and_(when, c, not_(bad(p))), eq(length2(s.I, a, p, m), 1))))

    def learn(s, i):
        """shapes found by running the body once"""
        found = False
        for k, v in s.mods.items():
            nm = s.loop.name(k)
            if nm is None: continue
            now = s.I.store.get(k)
            if s.points(v) and (nm, "step") not in s.know and s.points(now):
                d = poly.clean(lambda: poly.canon(sub(now.shape[0], app(s.nm + nm + ".rows", (i,), "I"))))
                if d is not None and isc(d):
                    s.know[(nm, "step")] = d
                    found = True
                else: s.know[(nm, "step")] = None
        if found: return True
        for k, v in s.mods.items():
            nm = s.loop.name(k)
            if nm is None: continue
            now = s.I.store.get(k)
            if v is None and (nm, "from") not in s.know and isinstance(now, Union):
                alts = [(c, x) for c, x in now.alts if s.points(x)]
                if len(alts) != 1: continue
                t = solve_eq(alts[0][0], i)
                if t is None: continue
                s.know[(nm, "from")] = (t, subst(alts[0][1].shape[0], {i: t}))
                found = True
        return found

    def check(s, i, first):
        I, P = s.I, s.pair
        for k, v in s.mods.items():
            nm = s.loop.name(k)
            if nm is None: continue
            now = I.store.get(k)
            K = "%s %s %s" % (s.nm, nm, "initially" if first else "after an iteration")
            if s.points(v):
                if not s.points(now): raise Unsupported("%s changes its kind" % nm)
                if s.know.get((nm, "step")) is not None or first: I.ensure(K + ": rows", eq(now.shape[0], s.rows(nm, i, v)) if not first else TRUE)
                I.ensure(K + ": at least one row", lt(0, now.shape[0]))
                if P.keep is not None: I.ensure(K + ": enough rows", le(P.keep, now.shape[0]))
                s.compare(K, k, now, i, first)
            elif v is None and not first:
                at = s.know.get((nm, "from"))
                if at is None:
                    if now is not None: raise Unsupported("%s is set in the loop" % nm)
                    continue
                t, rows = at
                if not isinstance(now, Union): raise Unsupported("%s changes its kind" % nm)
                for n, (c, x) in enumerate(now.alts):
                    if s.I.decide(c) is False: continue
                    if x is None: I.ensure(K + ": not set before", implies(c, not_(lt(t, i))))
                    else:
                        I.ensure(K + ": rows", implies(c, eq(x.shape[0], rows)))
                        I.ensure(K + ": set after", implies(c, lt(t, i)))
                        s.compare(K + " (%d)" % n, k + (n,), x, i, first, c)
            elif isinstance(v, Term) and v.sort == "I":
                for k2, v2 in s.mods.items():
                    if s.loop.name(k2) and s.points(v2) and P.keep is not None: I.ensure(K + ": enough rows", le(add(now, P.keep), I.store[k2].shape[0]))
                if not P.second: P.seen[(s.nm, nm, first)] = now
                else: I.ensure(K + ": the same in both runs", eq(P.seen[(s.nm, nm, first)], now))

    def compare(s, K, k, now, i, first, when=TRUE):
        I, P = s.I, s.pair
        p, j = fresh("p"), fresh("j")
        rng = [when, le(0, p), lt(p, P.N), le(0, j), lt(j, now.shape[0])]
        v = I.read(now, (j, p))
        if P.second != "absent": I.ensure(K + ": exactly the undefined points are undefined", iff(isnan(v), bad(p)), rng)
        else: I.ensure(K + ": no point is undefined", not_(isnan(v)), rng + [not_(bad(p))])
        if not P.second:
            s.pair.seen[(s.nm, k[2:], first)] = (p, j, v)
            I.ensure(K + ": unit columns", eq(at_defined(length2(I, now, p), p), 1), [when, le(0, p), lt(p, P.N), not_(bad(p))] + nonzero(at_defined(v, p), j))
        else:
            q = P.seen.get((s.nm, k[2:], first))
            if q is None: return
            p0, j0, u = q
            m = {p0: p, j0: j}
            u, v = at_defined(n_subst(u, m), p), at_defined(v, p)
            I.eqs(K + ": the first run's columns" + (" times the scalars" if P.second != "absent" else ""), v, P.times(u, p), rng + [not_(bad(p))])


def same_axis(a, b): return a is b or isinstance(a, MaskDim) and isinstance(b, MaskDim) and a.key == b.key


def branches(v, over):
    """the cases of the choices that are the same for all points and coordinates"""
    cs = []
    for t in ((v.re, v.im) if isinstance(v, Cx) else (v,)): conditions(t, over, cs)
    out = [("", [])]
    for c in cs[:3]: out = [(n + ", case %s" % q, x + [(c, q)]) for n, x in out for q in (True, False)]
    return out


def conditions(t, over, out):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen or x.op in BIND1 or x.op == "opq": continue
        seen.add(x.id)
        if x.op == "ite" and not any(v in fv(x.args[0]) for v in over) and x.args[0] not in out and not_(x.args[0]) not in out: out.append(x.args[0])
        st.extend(x.args)


def branch(t, cs):
    for c, q in cs: t = assume(t, c, q)
    return t


def solve_eq(c, i):
    """t with c equivalent to i = t"""
    if c.op == "==":
        for a, b in (c.args, c.args[::-1]):
            if a is i and i not in fv(b): return b
        d = poly.clean(lambda: poly.canon(sub(c.args[0], c.args[1])))
        if d is not None:
            for sg in (1, -1):
                t = poly.clean(lambda: poly.canon(sub(i, mul(sg, d))))
                if t is not None and i not in fv(t): return t
    return None


def at_defined(v, p): return n_map(num(v), lambda t: assume(t, bad(p), False))


def length2(I, a, p, m=None): return sum_(0, a.shape[0] if m is None else m, lambda j: real_(n_mul(I.read(a, (j, p)), n_conj(I.read(a, (j, p))))))


def nonzero(v, j):
    """the column that is normalised is not zero"""
    out = []
    for t in ((v.re, v.im) if isinstance(v, Cx) else (v,)):
        for a in find_apps(t, "sqrt"):
            if j not in fv(a): out.append(lt(0, a.args[0]))
    return out


def real_(v): return v.re if isinstance(v, Cx) else v


def mode(kind, real):
    def contract(I):
        N, n, k = I.int("N", 1), I.int("n", 2), I.int("k", 1)
        I.fact(lt(k, n))
        P = Pair(real, N)
        P.keep = add(k, 1) if kind == "exponential" else None
        P.var = None
        I.loop_inv[F] = P.spec
        first = None
        for second in (False, "scaled", "absent"):
            P.start(second)
            a = I.arr((P.points(), n), lambda ix: P.value("x", (ix[0], ix[1]), ix[0]), "f" if real else "c")
            if not second: I.fact(forall(0, N, lambda p: implies(not_(bad(p)), eq(at_defined(sum_(0, n, lambda j: real_(n_mul(P.value("x", (p, j), p), n_conj(P.value("x", (p, j), p))))), p), 1))))
            r = I.run(F, a, k, kind)
            I.no_raise()
            r = r["X"]
            if second == "absent": I.ensure("X: the defined points", TRUE if isinstance(r, Arr) and same_axis(r.shape[0], P.points()) else FALSE)
            else: I.dims("X", r, (N, add(k, 1)))
            p, j = fresh("p"), fresh("j")
            rng = [le(0, p), lt(p, N), le(0, j), lt(j, add(k, 1)), not_(bad(p))]
            v = at_defined(I.read(r, (p, j)), p)
            if not second:
                first = v, p, j
                S = at_defined(sum_(0, add(k, 1), lambda j: real_(n_mul(I.read(r, (p, j)), n_conj(I.read(r, (p, j)))))), p)
                for name, cs in branches(v, (p, j)):
                    at = lambda t: n_map(t, lambda t: branch(t, cs))
                    I.ensure("one unit vector per point" + name, eq(at(S), 1), rng[:2] + rng[4:] + [c if q else not_(c) for c, q in cs] + nonzero(at(v), j))
            else:
                u = n_subst(first[0], {first[1]: p, first[2]: j})
                I.eqs("multiplying a point by a unit scalar multiplies its image" if second != "absent" else "undefined points do not matter", v, P.times(u, p), rng)
    return contract


for kind in ("direct", "exponential", "one-by-one"):
    for real in (True, False): unit(F, "%s_%s" % (kind, "real" if real else "complex"))(mode(kind, real))
