"""C01: construction sorts diagrams and cocycles together, renames vertices to landmark positions, keeps the distances of the
landmarks in landmark order.  The cocycles of all degrees and classes live in one cell indexed by (degree, class, row, column);
the lists hold views of it."""
from ..api import *
from ..npmodel import View

U = "utils.CohomologyUtils."


def rows(d, e): return app("rows", (d, e), "I")
def coc(ix): return app("coc", ix, "I")
def classes(d): return app("K", (d,), "I")


def cocycles(I, top):
    """the lists of cocycles; entry (d, e) has rows(d, e) rows of d + 1 vertices and a coefficient"""
    I.fact(forall(0, top, lambda d: le(0, classes(d))))
    I.fact(forall(0, top, lambda d: forall(0, classes(d), lambda e: le(0, rows(d, e)))))
    big = I.arr((top, fresh("c"), fresh("r"), fresh("q")), coc, "i")
    return big, I.mklist((), SymList(top, lambda d: SymList(classes(d), lambda e: view(big, d, e))))


def view(big, d, e):
    shape = (rows(d, e), add(d, 2))
    return Arr(big.cell, shape, "i", View([("pt", const(d)), ("pt", const(e)), ("ax", 0, const(0), 1, True), ("ax", 1, const(0), 1, True)], shape))


@unit(U + "reindex_cocycles")
def reindex(I):
    N, L, top = I.int("N", 1), I.int("L", 1), I.int("top", 0)
    big, lists = cocycles(I, top)
    land = I.inp("land", (L,), "i")
    at = lambda k: app("land", (k,), "I")
    I.fact(forall(0, L, lambda k: and_(le(0, at(k)), lt(at(k), N))))
    d, e, r, q = ix = tuple(fresh(x) for x in "derq")
    rng = [le(0, d), lt(d, top), le(0, e), lt(e, classes(d)), le(0, r), lt(r, rows(d, e))]
    I.fact(forall(0, top, lambda d: forall(0, classes(d), lambda e: forall(0, rows(d, e), lambda r: forall(0, add(d, 1), lambda q:
        exists(0, L, lambda k: eq(coc((d, e, r, q)), at(k))))))))
    I.run(U + "reindex_cocycles", lists, land, N)
    I.no_raise()
    now = lambda *ix: num(I.store[("c", big.cell)].read(ix))
    v = now(d, e, r, q)
    I.ensure("every vertex is a landmark position", and_(le(0, v), lt(v, L)), rng + [le(0, q), lt(q, add(d, 1))])
    I.ensure("the position is that of the vertex", eq(at(v), coc(ix)), rng + [le(0, q), lt(q, add(d, 1))])
    I.ensure("coefficients unchanged", eq(now(d, e, r, add(d, 1)), coc((d, e, r, add(d, 1)))), rng)
    I.unchanged("landmarks", land, lambda ix: at(*ix))


# ---- construction
INIT = "emcoords.EMCoords.__init__"


def dgm(d, e, side): return app("dgm", (d, e, side), "R")
def life(d, e): return sub(dgm(d, e, const(1)), dgm(d, e, const(0)))
def at(k): return app("land", (k,), "I")
def pos(v): return app("pos", (v,), "I")
def perm(d, e): return app("perm", (d, e), "I")


class World:
    """what ripser returns: diagrams, cocycles (of the data), landmark indices, distances from landmarks to the points of its input"""

    def __init__(s, I, kind):
        s.I, s.kind = I, kind
        s.n, s.L, s.m = I.int("n", 1), I.int("L", 1), I.int("m", 1)
        s.prime, s.maxdim = I.int("prime", 2), I.int("maxdim", 1)
        I.fact(le(s.L, s.n))
        if kind == "rectangular": I.fact(lt(s.n, s.m))
        if kind == "square": s.m = s.n
        s.X = I.inp("X", (s.n, s.m))
        s.top = add(s.maxdim, 1)
        I.ext["ripser.ripser"] = s.ripser
        I.fact(forall(0, s.L, lambda k: and_(le(0, at(k)), lt(at(k), s.n))))

    def entry(s, i, j):
        """distance from landmark i to point j, both by data index"""
        return app("dist", (at(i), j), "R") if s.kind == "cloud" else app("X", (at(i), j), "R")

    def ripser(s, v, X, maxdim=1, thresh=None, coeff=2, distance_matrix=False, do_cocycles=False, metric="euclidean", n_perm=None, **k):
        I = s.I
        if k or thresh is not None or metric != "euclidean": raise Unsupported("options of the persistence computation")
        if n_perm is None: raise Unsupported("landmarks left out")
        I.ensure("persistence of the input as given", iff(truth(distance_matrix), TRUE if s.kind != "cloud" else FALSE))
        I.ensure("coefficients in the requested field", eq(num(coeff), s.prime))
        I.ensure("homology up to the requested degree", eq(num(maxdim), s.maxdim))
        I.ensure("the requested number of landmarks", eq(num(n_perm), s.L))
        I.ensure("cocycles asked for", truth(do_cocycles))
        w = s.n if s.kind != "cloud" else s.m
        I.dims("persistence input", X, (s.n, w))
        ix, rng = I.idx((s.n, w))
        I.ensure("the persistence input is the data", eq(num(I.read(X, ix)), app("X", ix, "R")), rng)
        I.assumed["ripser(X, n_perm=L): idx_perm holds L indices of points; cocycles are on landmarks, in data indices, one per bar, in the order of the diagram; dperm2all is the matrix of distances from the landmarks, in order, to the points"] = True
        s.big, coc_ = cocycles(I, s.top)
        I.fact(forall(0, s.top, lambda d: forall(0, classes(d), lambda e: forall(0, rows(d, e), lambda r: forall(0, add(d, 1), lambda q:
            and_(le(0, pos(coc((d, e, r, q)))), lt(pos(coc((d, e, r, q))), s.L), eq(at(pos(coc((d, e, r, q)))), coc((d, e, r, q)))))))))
        s.coc_list = coc_
        dg = I.mklist((), SymList(s.top, lambda d: I.arr((classes(d), 2), lambda ix: dgm(const(d), *ix), "f")))
        return {"dgms": dg, "cocycles": coc_, "num_edges": fresh("edges"), "idx_perm": I.arr((s.L,), lambda ix: at(*ix), "i"),
                "dperm2all": I.arr((s.L, s.n), lambda ix: s.entry(*ix), "f"), "r_cover": fresh("cover", "R")}

    def source(s, a, d, e):
        """the class of ripser's diagram that entry e of the array is"""
        t = num(s.I.read(a, (e, const(0))))
        if not (t.op == "app" and t.val == "dgm"): raise Unsupported("diagram entry of no single class: %s" % repr(t)[:80])
        return t

    def pair(s, dg, cc, d, e, hyps, what):
        """obligations: entries e of the diagram and of the cocycle list are the same class; -> that class"""
        I = s.I
        I.dims("%s: diagram" % what, dg, (classes(d), 2))
        I.ensure("%s: one cocycle per class" % what, eq(I.length(cc), classes(d)), hyps)
        t = s.source(dg, d, e)
        k = t.args[1]
        I.ensure("%s: degree" % what, eq(t.args[0], d), hyps)
        I.ensure("%s: birth" % what, eq(t, dgm(d, k, const(0))), hyps)
        I.ensure("%s: death" % what, eq(num(I.read(dg, (e, const(1)))), dgm(d, k, const(1))), hyps)
        c = I.subscript(cc, (e,))
        v = c.view.dims if isinstance(c, Arr) and isinstance(c.view, View) else ()
        if not (isinstance(c, Arr) and c.cell == s.big.cell and [x[0] for x in v] == ["pt", "pt", "ax", "ax"] and all(x[1] == q and isc(x[2]) and x[2].val == 0 and x[3] == 1 for q, x in enumerate(v[2:]))):
            raise Unsupported("cocycle list entry is not a cocycle")
        I.ensure("%s: the cocycle is of the same degree and class" % what, and_(eq(v[0][1], d), eq(v[1][1], k)), hyps)
        I.dims("%s: cocycle" % what, c, (rows(d, k), add(d, 2)))
        return k


class Sorted:
    """invariant of the sorting loop: degrees lo..i-1 are rearranged by perm, the others as ripser left them"""

    def __init__(s, I, w): s.I, s.w, s.off = I, w, const(0)

    def learn(s, i):
        """the degree sorted by iteration i is i + off"""
        at = [s.I.store[k].base.at for k in s.mods if s.role(k) and hasattr(s.I.store[k].base, "at")]
        off = {const(c) for c in (-1, 0, 1, 2) if at and all(s.I.same(t, add(i, c)) for t in at)}
        if len(off) != 1: raise Unsupported("sorting loop over unrelated degrees")
        again = s.off not in off
        s.off = off.pop()
        return again

    def role(s, k):
        if k[0] != "l": return None
        if k[1] == s.w.coc_list.id: return "cocycles"
        pre = s.mods[k]
        if pre.base is not None and not pre.items and isinstance(pre.base, SymList) and s.I.same(pre.base.length, s.w.top): return "diagrams"
        return None

    def sigma(s, i, d, e):
        return ite(and_(le(s.first(), d), lt(d, add(i, s.off))), perm(d, e), e)

    def first(s): return add(s.lo, s.off)

    def elem(s, role, i, d):
        I, d = s.I, const(d)
        if role == "diagrams": return I.mk(lambda ix: dgm(d, s.sigma(i, d, ix[0]), ix[1]), (classes(d), const(2)), "f", True)
        return SymList(classes(d), lambda e: view(s.w.big, d, s.sigma(i, d, const(e))))

    def state(s, i, mods):
        out = {}
        for k in mods:
            r = s.role(k)
            if r: out[k] = LC(SymList(s.w.top, (lambda r: lambda d: s.elem(r, i, d))(r)))
        if out:
            each = lambda f: s.I.fact(forall(s.first(), add(i, s.off), lambda d: forall(0, classes(d), lambda e: f(d, e))))
            each(lambda d, e: and_(le(0, perm(d, e)), lt(perm(d, e), classes(d))))
            each(lambda d, e: forall(0, classes(d), lambda f: implies(eq(perm(d, e), perm(d, f)), eq(e, f))))
            each(lambda d, e: forall(0, classes(d), lambda f: implies(le(e, f), le(life(d, perm(d, f)), life(d, perm(d, e))))))
        return out

    def one(s, v):
        """the only alternative possible under the path condition"""
        if not isinstance(v, Union): return v
        al = s.I.alts(v)
        if len(al) != 1: raise Unsupported("list entry of several kinds")
        return al[0][1]

    def check(s, i, first):
        I, w = s.I, s.w
        ks = {s.role(k): k for k in s.mods if s.role(k)}
        if set(ks) != {"diagrams", "cocycles"}: raise Unsupported("sorting loop over other lists")
        d, e, f = fresh("d"), fresh("e"), fresh("f")
        entry = lambda nm, d: s.one(I.store[ks[nm]].base.elem(d))
        rng = lambda d: [le(0, e), lt(e, classes(d)), le(0, f), lt(f, classes(d))]
        pc = I.pc
        p = add(sub(i, 1), s.off)
        I.pc = pc + rng(d) + [le(0, d), lt(d, w.top)] + ([] if first else [not_(eq(d, p))])
        k = w.pair(entry("diagrams", d), entry("cocycles", d), d, e, rng(d), "initially" if first else "other degrees")
        I.ensure("untouched" if not first else "in the order of the diagram", eq(k, s.sigma(i if first else sub(i, 1), d, e)), rng(d))
        I.pc = pc
        if first: return
        I.pc = pc + rng(p)
        dg, cc = entry("diagrams", p), entry("cocycles", p)
        k = w.pair(dg, cc, p, e, rng(p), "sorted degree")
        other = w.source(dg, p, f).args[1]
        I.ensure("sorted degree: classes of the diagram", and_(le(0, k), lt(k, classes(p))), rng(p))
        I.ensure("sorted degree: no class twice", eq(e, f), rng(p) + [eq(k, other)])
        I.ensure("sorted degree: most persistent first", le(life(p, other), life(p, k)), rng(p) + [le(e, f)])
        I.pc = pc


def reindex_contract(w):
    """effect of reindex_cocycles on the cocycle lists: vertices become landmark positions"""
    def c(I, f, args):
        lists, land, N = list(args.values())[:3]
        I.dims("landmark list of the renaming", land, (w.L,))
        (k,), rng = I.idx((w.L,))
        I.ensure("renaming by the landmark list", eq(num(I.read(land, (k,))), at(k)), rng)
        I.ensure("every landmark has a number below that of the renaming", lt(at(k), num(N)), rng)
        d, e, g = fresh("d"), fresh("e"), fresh("e")
        I.ensure("cocycles of every degree renamed", eq(I.length(lists), w.top))
        rng = [le(0, d), lt(d, w.top), le(0, e), lt(e, classes(d)), le(0, g), lt(g, classes(d))]
        pc = I.pc
        I.pc = pc + rng
        row = I.subscript(lists, (d,))
        src = []
        for x in (e, g):
            a = I.subscript(row, (x,))
            v = a.view.dims
            if a.cell != w.big.cell: raise Unsupported("other cocycles")
            I.ensure("renamed cocycles of the degree", eq(v[0][1], d))
            src.append(v[1][1])
        I.ensure("no cocycle renamed twice", eq(e, g), [eq(*src)])
        I.ensure("every cocycle listed", and_(le(0, src[0]), lt(src[0], classes(d))))
        I.pc = pc
        I.store[("c", w.big.cell)] = Content(lambda ix: ite(le(ix[3], ix[0]), pos(coc(ix)), coc(ix)))
        w.renamed = True
        return None
    return c


def build(I, path, kind, **fixed):
    w = World(I, kind)
    if "prime" in fixed: w.prime = const(fixed["prime"])
    I.contracts[U + "reindex_cocycles"] = reindex_contract(w)
    I.contracts["combinatorial.combinatorial_number_system_table"] = lambda I, f, a: Opaque("table")
    I.loop_inv[INIT] = lambda I, ctx: Sorted(I, w)
    o = Obj(I.get(path))
    kw = dict(distance_matrix=kind != "cloud", prime=w.prime, maxdim=w.maxdim, verbose=False)
    for k in fixed: kw.pop(k)
    I.run(path + ".__init__", o, w.X, w.L, **kw)
    I.no_raise()
    I.unchanged("the data", w.X, lambda ix: app("X", ix, "R"))
    I.ensure("number of landmarks", eq(num(I.getattr(o, "_n_landmarks")), w.L))
    I.ensure("field", eq(num(I.getattr(o, "_prime")), w.prime))
    # landmark distances
    D, LL = I.getattr(o, "_dist_land_data"), I.getattr(o, "_dist_land_land")
    width = w.n if kind == "cloud" else w.m
    I.dims("landmark-to-data distances", D, (w.L, width))
    (i, j), rng = I.idx((w.L, width))
    I.ensure("row i: distances of landmark i to every point", eq(num(I.read(D, (i, j))), w.entry(i, j)), rng)
    I.dims("landmark-to-landmark distances", LL, (w.L, w.L))
    (i, j), rng = I.idx((w.L, w.L))
    I.ensure("landmark-to-landmark distances are the columns at the landmarks", eq(num(I.read(LL, (i, j))), num(I.read(D, (i, at(j))))), rng)
    # diagrams and cocycles
    d, e, f, r, q = [fresh(x) for x in "defrq"]
    for attr in ("_dgms", "dgms_"):
        dgs, ccs = I.getattr(o, attr), I.getattr(o, "_cocycles")
        I.pc = I.pc + [le(1, d), le(d, w.maxdim), le(0, e), lt(e, classes(d)), le(0, f), lt(f, classes(d))]
        dg, cc = I.subscript(dgs, (d,)), I.subscript(ccs, (d,))
        c = w.pair(dg, cc, d, e, [], attr)
        g = w.source(dg, d, f).args[1]
        I.ensure("%s: non-increasing order of persistence" % attr, le(life(d, g), life(d, c)), [le(e, f)])
        I.ensure("%s: every bar once" % attr, eq(e, f), [eq(c, g)])
        I.ensure("%s: bars of the degree" % attr, and_(le(0, c), lt(c, classes(d))))
        a = I.subscript(cc, (e,))
        v = num(I.read(a, (r, q)))
        rng = [le(0, r), lt(r, rows(d, c))]
        I.ensure("%s: vertices are landmark positions" % attr, and_(le(0, v), lt(v, w.L), eq(at(v), coc((d, c, r, q)))), rng + [le(0, q), lt(q, add(d, 1))])
        I.ensure("%s: coefficients unchanged" % attr, eq(num(I.read(a, (r, add(d, 1)))), coc((d, c, r, add(d, 1)))), rng)


KINDS = ("cloud", "square", "rectangular")
CLASSES = {"toroidal": ("toroidalcoords.ToroidalCoords", {}), "circular": ("circularcoords.CircularCoords", {}), "lens": ("lenscoords.LensCoords", {}),
           "projective": ("projectivecoords.ProjectiveCoords", {"prime": 2}), "complex projective": ("complexprojectivecoords.ComplexProjectiveCoords", {})}
for kind in KINDS:
    (lambda kind: unit(INIT, "construction from a %s" % kind)(lambda I: build(I, "emcoords.EMCoords", kind)))(kind)
    for nm, (path, fixed) in CLASSES.items():
        (lambda kind, path, fixed: unit(path + ".__init__", "%s coordinates from a %s" % (nm, kind))(lambda I: build(I, path, kind, **fixed)))(kind, path, fixed)
