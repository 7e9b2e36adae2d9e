"""C25: frame conditions.  (1) every function under contract in any module leaves the arrays it is given alone; (2) a request
for coordinates reads the fields of the constructor only, leaves them as they were, and its result is the same from every
state that requests can reach: callees are arbitrary functions of what they are given, the request is executed from two such
states and the results compared."""
from .coords import *
from .c01 import View
from .. import poly, ir

C = "utils.CohomologyUtils."
T = "toroidalcoords."
# every unit of every module: what was made for the call holds what it held, except for the two documented in-place helpers
FRAMES = {"CohomologyUtils.lift_to_integer_cocycle", "CohomologyUtils.reindex_cocycles"}
USES = {"c%02d" % k: ("",) for k in range(1, 25)}


# ---- callees as arbitrary functions of their arguments
def digest(I, v, bs, pre=()):
    """terms over the binders that determine the value"""
    if isinstance(v, Union): return [t for c, x in v.alts for t in [c] + digest(I, x, bs, pre)]
    if v is None or isinstance(v, (str, bool)): return [const(abs(hash_name(repr(v))))]
    if is_num(v):
        v = num(v)
        return [v.re, v.im] if isinstance(v, Cx) else [v]
    if isinstance(v, (tuple, list)): return [t for x in v for t in digest(I, x, bs, pre)]
    if isinstance(v, dict): return [t for k in sorted(v, key=str) for t in digest(I, v[k], bs, pre)]
    if isinstance(v, SymList) or isinstance(v, PyList):
        if isinstance(v, PyList):
            lc = I.store[("l", v.id)]
            if lc.base is None: return digest(I, tuple(lc.items), bs, pre)
            if lc.items or not isinstance(lc.base, SymList): raise Unsupported("list argument under construction")
            v = lc.base
        k = bs[len(pre)]
        g = and_(le(0, k), lt(k, v.length))
        return [v.length] + [ite(g, t, 0) if t.sort != "B" else and_(g, t) for t in digest(I, v.elem(k), bs, pre + (k,))]
    if isinstance(v, Arr):
        ks = bs[len(pre):len(pre) + len(v.shape)]
        if len(ks) < len(v.shape): raise Unsupported("argument of too many axes")
        dims = [dcount(d) for d in v.shape]
        g = and_(*[and_(le(0, k), lt(k, d)) for k, d in zip(ks, dims)])
        x = num(I.read(v, ks))
        xs = [settle(I, y) for y in ([x.re, x.im] if isinstance(x, Cx) else [x])]
        return dims + [ite(g, b2i(x), 0) for x in xs]
    if isinstance(v, Sparse):
        ks = bs[len(pre):len(pre) + 2]
        return list(v.shape) + [const(v.fn(*ks))]
    if isinstance(v, Opaque):
        if v.name in ("table", "Bounds", "dtype"): return [const(abs(hash_name(v.name)))]
        return digest(I, {k: x for k, x in v.attrs.items() if not callable(x) and not isinstance(x, Native)}, bs, pre)
    if isinstance(v, (Func, Bound, Native, Ext, Cls)): return [const(abs(hash_name(getattr(v, "name", None) or getattr(v, "qual", "f"))))]
    raise Unsupported("argument of kind %s" % type(v).__name__)


def settle(I, t):
    """what a completed loop over k left at the place of its k-th step: the quantifiers of that history have k as a witness"""
    memo, lasts = {}, {}

    def witness(x):
        j, lo, hi, body = x.args
        for k in ir.fv(body):
            if k.sort == "I" and k is not j and subst(body, {j: k}) is TRUE and I.decide(and_(le(lo, k), lt(k, hi))) is True: return k

    def at(a):
        """A(last j. A(j) == B) is B"""
        for x in (x for x in a.args if x.op == "last"):
            j, lo, hi, body = x.args
            if body.op != "==" or witness(x) is None: continue
            for u, v in (body.args, body.args[::-1]):
                if j not in ir.fv(v) and subst(u, {j: x}) is a: return v
        return a

    def go(t):
        if not t.args: return t
        if t.id not in memo:
            if t.op == "exists" and witness(t) is not None: r = TRUE
            else:
                r = at(t) if t.op == "app" else t
                if r is t: r = ir._rebuild(t, tuple(go(a) for a in t.args))
            memo[t.id] = r
        return memo[t.id]
    return go(t)


def hash_name(x):
    import zlib
    return zlib.crc32(x.encode())


class Pure:
    def __init__(s, I): s.I, s.seen = I, {}

    def fn(s, name, args, sort="R"):
        """index -> value, an arbitrary function of the arguments"""
        I = s.I
        bs = tuple(fresh("b") for _ in range(4))
        body = tuple(digest(I, args, bs))
        if sort == "B":
            f = s.fn(name, args, "I")
            return lambda *ix: lt(0, f(*ix))
        bs, body = s.seen.setdefault(poly.canon(opq(name, bs, body, (), sort)), (bs, body))
        return lambda *ix: opq(name, bs, body, tuple(ix), sort)

    def arr(s, name, args, shape, dtype="f"):
        f = s.fn(name, args, "I" if dtype == "i" else "R")
        return s.I.arr(shape, lambda ix: f(*ix), dtype)

    def sparse(s, name, args, shape):
        f = s.fn(name, args)
        return Sparse(lambda r, c: f(r, c), tuple(const(x) for x in shape))


def callees(I, o):
    n, N_, P = o.n, o.N, Pure(I)
    E_, T_ = count(n, 2), count(n, 3)
    put = lambda q, f: I.contracts.__setitem__(q, lambda I, fn, d: f(tuple(d.values())))
    put(C + "make_delta0", lambda a: P.sparse("delta0", a, (E_, n)))
    put(C + "make_delta1", lambda a: P.sparse("delta1", a, (T_, E_)))
    put(C + "make_delta1_compact", lambda a: P.sparse("delta1c", a, (P.fn("rows1", a, "I")(), E_)))
    put(C + "make_delta2_compact", lambda a: P.sparse("delta2c", a, (P.fn("rows2", a, "I")(), T_)))
    put(C + "sparse_cocycle_to_vector", lambda a: P.arr("vector", a, (T_ if o.dim == 2 else E_,), "i"))
    put(T + "_is_one_cocycle", lambda a: (P.fn("iscocycle", a, "B")(), P.fn("iscocycle1", a)()))
    put("complexprojectivecoords._is_two_cocycle", lambda a: P.fn("iscocycle", a, "B")())
    put(T + "_make_inner_product", lambda a: (P.sparse("inner", a, (E_, E_)), P.sparse("sqrtinner", a, (E_, E_))))
    put(T + "_integrate_harmonic_representative", lambda a: (P.arr("harm", a, (E_,)), P.arr("tau", a, (n,))))
    put(T + "_sparse_integrate", lambda a: P.arr("integrate", a, (N_,)))
    put(T + "_gram_matrix", lambda a: P.arr("gram", a, (I.length(a[0]), I.length(a[0]))))

    def reduce_(a):
        m = I.length(a[0])
        f = P.fn("reduced", a)
        return (SymList(m, lambda t: I.arr((N_,), lambda ix: f(t, ix[0]), "f")), P.arr("basis", a, (m, m)), P.arr("decorrelated", a, (m, m)))
    put(T + "_reduce_circular_coordinates", reduce_)
    cpx = lambda name, a, shape: (lambda f, g: I.arr(shape, lambda ix: Cx(f(*ix), g(*ix)), "c"))(P.fn(name + ".re", a), P.fn(name + ".im", a))
    put("complexprojectivecoords._sparse_integrate", lambda a: cpx("integrate", a, (N_, n)))
    put("utils.EquivariantPCA.ppca", lambda a: {"variance": P.arr("variance", a, (n,)), "X": cpx("ppca", a, (N_, n))})
    put("utils.CohomologyUtils.lift_to_integer_cocycle", lambda a: lift(I, o, a[0], num(a[1])))
    I.ext["scipy.sparse.linalg.lsqr"] = lambda s, A, b, *a, **k: (P.arr("lsqr", (A, b) + a, (A.shape[1],)),) + tuple(Opaque("lsqr-info") for _ in range(9))

    def milp(s, c, **k):
        con = k["constraints"]
        a = (c, k)
        r = Opaque("milp", {"success": P.fn("milp.ok", a, "B")(), "x": P.arr("milp.x", a, (con.attrs["A"].shape[1],))})
        r.attrs["getitem"] = lambda s, ix: r.attrs[ix[0]]
        return r
    I.ext["scipy.optimize.milp"] = milp
    I.assumed["scipy (lsqr, milp), numpy.linalg and the chosen bump function are deterministic functions of their arguments"] = True


def old(o, ix): return app("orig", (ix[0], ix[1], ix[2]), "I")


def lifted(o, ix):
    x = old(o, ix)
    return ite(and_(eq(ix[2], o.dim + 1), lt(sub(o.p, 1), mul(2, x))), sub(x, o.p), x)


def lift(I, o, a, p):
    """contract of lift_to_integer_cocycle (unit lift_twice): from either state of the class, its lift, in place"""
    if not (isinstance(a, Arr) and isinstance(a.view, View) and a.cell == o.big.cell and [x[0] for x in a.view.dims] == ["pt", "ax", "ax"]):
        return lift_copy(I, o, a, p)
    t = a.view.dims[0][1]
    I.ensure("lift with the prime of the object", eq(p, o.p))
    (r, j), rng = I.idx((rows(t, o.dim), const(o.dim + 2)))
    x = num(I.read(a, (r, j)))
    I.ensure("the class is as constructed or lifted", or_(eq(x, old(o, (t, r, j))), eq(x, lifted(o, (t, r, j)))), rng)
    from ..npmodel import store_sub
    val = I.arr((rows(t, o.dim), const(o.dim + 2)), lambda ix: lifted(o, (t,) + tuple(ix)), "i")
    store_sub(I, a, (Slice(None, None, None), Slice(None, None, None)), val)
    return a


def lift_copy(I, o, a, p):
    rd = I.reader(a)
    last = sub(a.shape[1], 1)

    def fn(ix):
        x = rd(ix)
        return ite(and_(eq(ix[1], last), lt(sub(p, 1), mul(2, x))), sub(x, p), x)
    return I.arr(a.shape, fn, a.dtype)


@unit(C + "lift_to_integer_cocycle")
def lift_twice(I):
    """lifting a lifted cocycle changes nothing"""
    p, R, w, k = I.int("p", 2), I.int("R", 0), I.int("w", 2), var("done", "B")
    o = Opaque("o", {})
    o.p, o.dim = p, sub(w, 2)
    x = lambda ix: app("orig", (const(0),) + tuple(ix), "I")
    last = lambda ix: eq(ix[1], sub(w, 1))
    up = lambda ix: ite(and_(last(ix), lt(sub(p, 1), mul(2, x(ix)))), sub(x(ix), p), x(ix))
    a = I.arr((R, w), lambda ix: ite(k, up(ix), x(ix)), "i")
    I.fact(forall(0, R, lambda r: and_(le(0, x((r, sub(w, 1)))), lt(x((r, sub(w, 1))), p))))
    r = I.run(C + "lift_to_integer_cocycle", a, p)
    I.no_raise()
    ix, rng = I.idx((R, w))
    I.ensure("the result is the lift of the original", eq(num(I.read(r, ix)), up(ix)), rng)
    I.ensure("in place: the given cocycle is the original or its lift", or_(eq(num(I.read(a, ix)), up(ix)), eq(num(I.read(a, ix)), ite(k, up(ix), x(ix)))), rng)


# ---- requests
def state(I, o, tag):
    """an arbitrary reachable state: some classes have been lifted in place"""
    done = lambda t: app(tag, (t,), "B") if o.lifts else FALSE
    base = lambda ix: ite(done(ix[0]), lifted(o, ix), old(o, ix))
    I.store[("c", o.big.cell)] = Content(base)
    for k, v in o.fields.items(): I.setattr(o, k, v)
    # what an earlier request (with other arguments) left on the object
    for k in [k for k in I.store if k[0] == "a" and k[1] == o.id and k[2] not in o.fields]:
        v, u = I.store[k], "left" + k[2]
        alts = [x for _, x in v.alts] if isinstance(v, Union) else [v]
        alts = [x for x in alts if x is not None and not (isinstance(x, Opaque) and x.name == "unset")]
        if alts and all(is_num(x) and not isinstance(num(x), Cx) for x in alts): I.setattr(o, k[2], var(u, num(alts[0]).sort))
        elif alts and all(isinstance(x, Arr) and x.ndim == alts[0].ndim for x in alts):
            I.setattr(o, k[2], I.inp(u, tuple(I.int("%s.%d" % (u, j), 0) for j in range(alts[0].ndim)), alts[0].dtype))
        else: raise Unsupported("attribute %s left by a request" % k[2])
    return base


def request(kind, check):
    def c(I):
        o = emobj(I, kind)
        n, N_, dim = o.n, o.N, o.dim
        if kind == "projective": o.p = const(2); I.setattr(o, "_prime", 2)
        o.lifts = kind in ("toroidal", "circular", "cp")
        o.big = I.arr((o.K, fresh("r"), const(dim + 2)), lambda ix: old(o, ix), "i")

        del I.given[("c", o.big.cell)]      # what may happen to the classes is stated below

        def one(t):
            t, shape = const(t), (rows(t, dim), const(dim + 2))
            return Arr(o.big.cell, shape, "i", View([("pt", t), ("ax", 0, const(0), 1, True), ("ax", 1, const(0), 1, True)], shape))
        I.setattr(o, "_cocycles", I.mklist([None] * dim + [SymList(o.K, one)]))
        o.fields = {k[2]: v for k, v in I.store.items() if k[0] == "a" and k[1] == o.id}
        o.lists = {k: I.store[("l", v.id)] for k, v in o.fields.items() if isinstance(v, PyList)}
        # C01: vertices are landmark positions, coefficients of the field
        I.fact(forall(0, o.K, lambda t: forall(0, rows(t, dim), lambda r: and_(le(0, old(o, (t, r, const(dim + 1)))), lt(old(o, (t, r, const(dim + 1))), o.p)))))
        for j in range(dim + 1):
            I.fact(forall(0, o.K, lambda t: forall(0, rows(t, dim), lambda r: and_(le(0, old(o, (t, r, const(j)))), lt(old(o, (t, r, const(j))), n)))))
        callees(I, o)
        bump = Native(lambda s, x, r: s.arr(x.shape, lambda ix: app("bump", (num(s.read(x, ix)), num(r)), "R"), "f"), "bump")
        perc = I.real("perc", 0, 1)
        kw = dict(perc=perc, partunity_fn=bump, standard_range=var("range", "B"))
        if kind in ("toroidal", "circular", "cp"): kw["check_cocycle_condition"] = check
        if kind == "toroidal":
            m = I.int("m", 1)
            at = lambda t: app("idx", (t,), "I")
            I.fact(forall(0, m, lambda t: and_(le(0, at(t)), lt(at(t), o.K))))
            kw["cocycle_idxs"] = SymList(m, at)
            asked = lambda t: exists(0, m, lambda k: eq(at(k), t))
        else:
            c0 = I.int("c", 0)
            I.fact(lt(c0, o.K))
            kw["cocycle_idx"] = c0
            asked = lambda t: eq(t, c0)
        f = Bound(I.get(CLASSES[kind][0] + ".get_coordinates"), o)
        res, pc0 = [], list(I.pc)
        for tag in ("before", "later"):
            base = state(I, o, tag)
            I.pc = list(pc0)
            na, nr = set(k[2] for k in I.store if k[0] == "a" and k[1] == o.id), len(I.raises)
            r = I.run(f, **kw)
            res.append((r, list(I.pc), I.raises[nr:]))
            I.pc = list(pc0)
            # the object afterwards: fields as they were, classes as constructed or lifted
            for k, v in o.fields.items():
                now = I.getattr(o, k)
                if now is v: pass
                elif is_num(v): I.eqs("field %s unchanged" % k, now, v)
                else: raise Unsupported("field %s rebound" % k)
                if isinstance(now, PyList) and I.store[("l", now.id)] is not o.lists[k]: raise Unsupported("list %s modified" % k)
            (t, r_, j), rng = I.idx((o.K, fresh("rr"), const(dim + 2)))
            rng = [g for g in rng] + [lt(r_, rows(t, dim))]
            x = num(I.store[("c", o.big.cell)].read((t, r_, j)))
            whole = eq(x, base((t, r_, j))) if not o.lifts else or_(and_(eq(x, base((t, r_, j)))), eq(x, lifted(o, (t, r_, j))))
            I.ensure("classes asked for are as before or lifted", whole, rng)
            I.ensure("other classes as before", eq(x, base((t, r_, j))), rng + [not_(asked(t))])
        # the two results
        (a, pa, ra), (b, pb, rb) = res
        I.ensure("refused from one state exactly if refused from the other", and_(*[iff(or_(*[and_(*p) for p, _, _ in ra]), or_(*[and_(*p) for p, _, _ in rb]))]) if ra or rb else eq(0, 0))
        I.pc = pa
        compare(I, a, b)
    return c


def contradictory(I, c, d):
    return I.decide(c) is False or I.decide(d) is False or poly.canon(c) is poly.canon(not_(d))


def compare(I, a, b, what="coordinates"):
    if isinstance(a, Union) or isinstance(b, Union):
        pc = I.pc
        for c, x in (a.alts if isinstance(a, Union) else [(TRUE, a)]):
            for d, y in (b.alts if isinstance(b, Union) else [(TRUE, b)]):
                I.pc = pc + [c, d]
                if I.decide(FALSE) is not True and not contradictory(I, c, d): compare(I, x, y, what)
        I.pc = pc
        return
    if isinstance(a, (SymList, PyList, tuple)):
        I.ensure("%s: as many" % what, eq(I.length(a), I.length(b)))
        k = fresh("k")
        I.pc = I.pc + [le(0, k), lt(k, I.length(a))]
        return compare(I, I.subscript(a, (k,)), I.subscript(b, (k,)), what)
    I.dims(what, a, b.shape)
    ix, rng = I.idx(a.shape)
    I.eqs("%s: the same values" % what, I.read(a, ix), I.read(b, ix), rng)


for kind in CLASSES:
    for check in (FALSE, TRUE) if kind in ("toroidal", "circular", "cp") else (None,):
        unit(CLASSES[kind][0] + ".get_coordinates", "request_" + kind + ("" if check is None else ", with the integrality test" if check is TRUE else ", without the integrality test"))(request(kind, check))
