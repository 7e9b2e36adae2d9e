"""C12: toroidal decorrelation."""
from .coords import *
from .c11 import cover_contracts, harm_contract

T = "toroidalcoords."
USES = {"c13": ("",), "c11": ("coordinate_toroidal", "harmonic", "integrate")}


@unit(T + "_make_inner_product")
def inner_product(I):
    n, thr = I.int("n", 1), I.real("thr")
    W, S = I.run(T + "_make_inner_product", dist(I, n), thr, table(I, n, const(2)))
    I.no_raise()
    v, w = (lambda c: app("v", (c,), "R")), (lambda c: app("w", (c,), "R"))
    want = over_simplices(n, 1, lambda vs: mul(ite(short(vs, thr), const(1, "R"), const(0, "R")), v(N(*vs)), w(N(*vs))))
    for nm, X in (("inner product", W), ("square root", S)):
        if not isinstance(X, Sparse) or "bag" not in X.meta: raise Unsupported("%s is not a sparse matrix built from its entries" % nm)
        I.ensure("%s: one row and column per edge" % nm, and_(eq(X.shape[0], count(n, 2)), eq(X.shape[1], count(n, 2))))
        # as a bilinear form on arbitrary vectors; the diagonal 0/1 matrix is its own square root
        I.ensure("%s: sums over the edges below the threshold" % nm, eq(bag_sum(X.meta["bag"], lambda vs, row, col, val: mul(v(row), val, w(col))), want))


@unit(T + "_gram_matrix")
def gram(I):
    m, e = I.int("m", 1), I.int("e", 0)
    W = I.sparse("W", (e, e))
    G = I.run(T + "_gram_matrix", SymList(m, lambda k: I.arr((e,), lambda ix: app("h", (const(k),) + tuple(ix), "R"), "f")), W)
    I.no_raise()
    I.dims("Gram matrix", G, (m, m))
    (a, b), rng = I.idx((m, m))
    h = lambda k, x: app("h", (k, x), "R")
    I.ensure("pairwise inner products", eq(I.read(G, (a, b)), sum_(0, e, lambda x: sum_(0, e, lambda y: mul(h(a, x), app("W", (x, y), "R"), h(b, y))))), rng)


def lll_contract(I, seen):
    """contract of _lll (C13): (B U, U) with U an integer unimodular matrix"""
    def c(I, f, d):
        B = list(d.values())[0]
        n = B.shape[0]
        U = I.arr((n, n), lambda ix: app("U", ix, "I"), "f")
        from ..npmodel import matmul
        seen.append((B, U))
        return (matmul(I, B, U), U)
    I.contracts[T + "_lll"] = c


U = lambda a, b: app("U", (a, b), "I")


@unit(T + "_reduce_circular_coordinates")
def reduce_(I):
    m, N_ = I.int("m", 1), I.int("N", 0)
    seen = []
    lll_contract(I, seen)
    G = I.inp("G", (m, m))
    C = SymList(m, lambda k: I.arr((N_,), lambda ix: app("theta", (const(k),) + tuple(ix), "R"), "f"))
    new, ch, dec = I.run(T + "_reduce_circular_coordinates", C, G)
    I.no_raise()
    judge(I, m, N_, new, ch, dec, seen, lambda k, x: app("theta", (k, x), "R"))


def judge(I, m, N_, new, ch, dec, seen, theta):
    I.dims("maps", new, (m, N_))
    I.dims("change of basis", ch, (m, m))
    (a, x), rng = I.idx((m, N_))
    comb = sum_(0, m, lambda b: mul(I.read(ch, (a, b)), theta(b, x)))
    I.ensure("each map is the combination of the maps of the classes by a row of the change of basis", eq(I.read(new, (a, x)), fmod(comb, mul(2, PI))), rng)
    (a, b), rng = I.idx((m, m))
    I.ensure("the change of basis is an integer matrix", eq(I.read(ch, (a, b)), floor(I.read(ch, (a, b)))), rng)
    I.ensure("the change of basis is the transpose of the unimodular matrix of the lattice reduction (C13)", eq(I.read(ch, (a, b)), U(b, a)), rng)
    if len(seen) != 1: raise Unsupported("one call of _lll expected")
    B = I.reader(seen[0][0])
    G0 = lambda c, e: sum_(0, m, lambda q: mul(B((q, c)), B((q, e))))
    I.ensure("the reduced basis has the Gram matrix", eq(G0(a, b), app("G", (a, b), "R")), rng)
    D = I.reader(dec)
    I.ensure("the reduced vectors have the Gram matrix of the recombined representatives",
             eq(sum_(0, m, lambda q: mul(D((q, a)), D((q, b)))), sum_(0, m, lambda c: sum_(0, m, lambda e: mul(U(c, a), U(e, b), G0(c, e))))), rng)


@unit(T + "ToroidalCoords.get_coordinates")
def attributes(I):
    o = emobj(I, "toroidal")
    n, N_ = o.n, o.N
    r, phi, ball, covered = cover_contracts(I, o)
    lift_contract(I)
    E_ = count(n, 2)
    I.contracts["utils.CohomologyUtils.sparse_cocycle_to_vector"] = lambda I, f, d: I.inp("vec", (E_,), "i")

    def inner(I, f, d):
        D_, t_ = list(d.values())[:2]
        I.ensure("the inner product is taken at the chosen threshold", eq(num(t_), mul(2, r)))
        rd = I.reader(D_)
        (a, b), rng = I.idx((n, n))
        I.ensure("the inner product uses the landmark distances", eq(rd((a, b)), globals()["d"](a, b)), rng)
        return I.sparse("W", (E_, E_)), I.sparse("S", (E_, E_))
    I.contracts[T + "_make_inner_product"] = inner

    def harm(I, f, d):
        lv = tuple(I.loopvars) or (const(0),)
        return (I.arr((E_,), lambda ix: app("h", lv + tuple(ix), "R"), "f"), I.arr((n,), lambda ix: app("tau", lv + tuple(ix), "R"), "f"))
    I.contracts[T + "_integrate_harmonic_representative"] = harm

    def integ(I, f, d):
        h = list(d.values())[0]
        lv = tuple(I.loopvars) or (const(0),)
        (e,), rng = I.idx((E_,))
        I.ensure("each map is integrated from its own representative", eq(I.read(h, (e,)), app("h", lv + (e,), "R")), rng)
        return I.arr((N_,), lambda ix: app("theta", lv + tuple(ix), "R"), "f")
    I.contracts[T + "_sparse_integrate"] = integ
    m = I.int("m", 2)
    at = lambda t: app("idx", (t,), "I")
    I.fact(forall(0, m, lambda t: and_(le(0, at(t)), lt(at(t), o.K))))
    seen = []

    def red(I, f, d):
        cs, G = list(d.values())[:2]
        k = I.int("k", 0)
        I.fact(lt(k, m))
        I.ensure("one map per class is recombined", eq(I.length(cs), m))
        (x,), rng = I.idx((N_,))
        I.ensure("the maps of the classes are recombined", eq(I.read(I.subscript(cs, (k,)), (x,)), app("theta", (k, x), "R")), rng)
        (a, b), rng = I.idx((m, m))
        h = lambda k, x: app("h", (k, x), "R")
        I.ensure("by the Gram matrix of the harmonic representatives",
                 eq(I.read(G, (a, b)), sum_(0, E_, lambda x: sum_(0, E_, lambda y: mul(h(a, x), app("W", (x, y), "R"), h(b, y))))), rng)
        seen.append(G)
        return (I.inp("new", (m, N_)), I.inp("ch", (m, m)), I.inp("dec", (m, m)))
    I.contracts[T + "_reduce_circular_coordinates"] = red
    res = I.run(Bound(I.get(CLASSES["toroidal"][0] + ".get_coordinates"), o), cocycle_idxs=SymList(m, at), check_cocycle_condition=FALSE)
    if len(seen) != 1: raise Unsupported("one call of _reduce_circular_coordinates expected")
    (a, x), rng = I.idx((m, N_))
    I.ensure("the recombined maps are returned", eq(I.read(res, (a, x)), app("new", (a, x), "R")), rng)
    (a, b), rng = I.idx((m, m))
    F = lambda nm: I.read(I.getattr(o, nm), (a, b))
    I.ensure("the change of basis is reported", eq(F("_change_basis"), app("ch", (a, b), "R")), rng)
    I.ensure("the Gram matrix of the representatives is reported", eq(F("_original_gram_matrix"), I.read(seen[0], (a, b))), rng)
    I.ensure("the Gram matrix of the reduced vectors is reported",
             eq(F("_gram_matrix"), sum_(0, m, lambda q: mul(app("dec", (q, a), "R"), app("dec", (q, b), "R")))), rng)
