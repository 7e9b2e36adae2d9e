"""C21: furthest point sampling.  Ghost sequence: low(m, p) is the distance from p to the first m landmarks, g(m) the first
point maximising low(m, .); the loop invariant says that the arrays hold these."""
from ..api import *

G = "utils.GeometryUtils."
USES = {"c23": ("utils.GeometryUtils.get_csm",)}


def d(a, b): return app("d", (a, b), "R")
def low(m, p): return app("low", (m, p), "R")


class Ghost:
    def __init__(s, N): s.N = N

    def at(s, m): return ite(le(m, 0), 0, s.next(m))
    def next(s, m):
        p = fresh("p")
        return binderv("argmax", p, 0, s.N, low(m, p))

    def step(s, m, p):
        """low(m+1, p) unfolded"""
        e = d(s.at(m), p)
        return ite(lt(e, low(m, p)), e, low(m, p))


class Inv:
    def __init__(s, I, G, M): s.I, s.G, s.M = I, G, M

    def role(s, k, v):
        I = s.I
        if k[0] == "c" and I.cell_arity.get(k[1]) == 1:
            n = I.cell_len.get(k[1])
            if n is None: return None
            if I.same(n, s.G.N): return "ds"
            if I.same(n, s.M): return "perm" if I.celldtype[k[1]] == "i" else "lambdas"
        if k[0] == "c" and I.cell_arity.get(k[1]) == 2: return "rows"
        if isinstance(v, Arr) and len(v.shape) == 1 and I.same(dcount(v.shape[0]), s.G.N): return "ds"
        return None

    def value(s, role, i, pre, m=None):
        """the entries at the start of iteration i (m: the number of landmarks whose distances are unfolded)"""
        done = lambda k: and_(le(1, k), lt(k, i))
        if role == "ds": return lambda ix: low(i, ix[0])
        if role == "perm": return lambda ix: ite(done(ix[0]), s.G.at(ix[0]), b2i(pre(ix)))
        if role == "lambdas": return lambda ix: ite(done(ix[0]), low(ix[0], s.G.at(ix[0])), pre(ix))
        if role == "rows": return lambda ix: ite(done(ix[0]), d(s.G.at(ix[0]), ix[1]), pre(ix))

    def found(s, i):
        """the landmarks found before the iteration"""
        return add(sub(i, s.lo), 1)

    def state(s, i, mods):
        out, i = {}, s.found(i)
        for k, v in mods.items():
            r = s.role(k, v)
            if r is None: continue
            if k[0] == "c": out[k] = Content(s.value(r, i, v.read), (), ())
            else: out[k] = s.I.mk(s.value(r, i, None), v.shape, "f", True)
        return out

    def check(s, i, first):
        I, i = s.I, s.found(i)
        for k, v in s.mods.items():
            r = s.role(k, v)
            if r is None: continue
            now = I.store[k]
            read = now.read if k[0] == "c" else (lambda ix: I.read(now, ix))
            p, q = fresh("k"), fresh("p")
            ix = (p, q) if r == "rows" else (p,)
            rng = [le(0, p), lt(p, s.G.N if r == "ds" else s.M)] + ([le(0, q), lt(q, s.G.N)] if r == "rows" else [])
            if r == "ds": want = d(0, p) if first else s.G.step(sub(i, 1), p)
            else: want = s.value(r, i, v.read if k[0] == "c" else None)(ix)
            I.ensure("%s %s" % ({"ds": "distances to the landmarks", "perm": "permutation", "lambdas": "insertion radii", "rows": "distance rows"}[r], "initially" if first else "after a step"),
                     eq(num(read(ix)), want), rng)


def greedy(I, P, N, M, gh):
    """the points P(0), ..., P(M - 1) are in furthest point order, and low is the distance to them"""
    m, p, k, w = fresh("m"), fresh("p"), fresh("k"), fresh("w")
    rng = [le(1, m), lt(m, M), le(0, p), lt(p, N)]
    unfold = lambda m, p: eq(low(add(m, 1), p), gh.step(m, p))
    I.ensure("starts at the first point", eq(P(const(0)), 0))
    I.ensure("every landmark is a point", and_(le(0, P(m)), lt(P(m), N)), [le(0, m), lt(m, M)])
    I.ensure("every later landmark is furthest from the earlier ones", le(low(m, p), low(m, P(m))), rng)
    I.ensure("the first such point on ties", implies(lt(p, P(m)), lt(low(m, p), low(m, P(m)))), rng)
    # low is the distance to the nearest of the first m landmarks (induction on m)
    I.ensure("distance to one landmark", near(P, const(1), p), [le(0, p), lt(p, N), eq(low(1, p), d(0, p))])
    hyp = [forall(0, m, lambda k: le(low(m, p), d(P(k), p))), le(0, w), lt(w, m), eq(low(m, p), d(P(w), p)), unfold(m, p)]
    I.ensure("distance to one landmark more: lower bound", le(low(add(m, 1), p), d(P(k), p)), rng + [le(0, k), lt(k, add(m, 1)), implies(lt(k, m), le(low(m, p), d(P(k), p))), unfold(m, p)])
    I.ensure("distance to one landmark more: attained", or_(eq(low(add(m, 1), p), d(P(w), p)), eq(low(add(m, 1), p), d(P(m), p))), rng + hyp[1:])
    return unfold


def near(P, m, p): return and_(forall(0, m, lambda k: le(low(m, p), d(P(k), p))), exists(0, m, lambda k: eq(low(m, p), d(P(k), p))))


def result(I, r, N, M, gh):
    perm, lam = r["perm"], r["lambdas"]
    I.dims("perm", perm, (M,))
    I.dims("lambdas", lam, (M,))
    P = lambda m: num(I.read(perm, (m,)))
    m, p = fresh("m"), fresh("p")
    unfold = greedy(I, P, N, M, gh)
    I.ensure("the insertion radius is that distance", eq(num(I.read(lam, (m,))), low(m, P(m))), [le(1, m), lt(m, M)])
    I.ensure("insertion radii never increase", le(num(I.read(lam, (add(m, 1),))), num(I.read(lam, (m,)))),
             [le(1, m), lt(add(m, 1), M), le(low(m, P(add(m, 1))), low(m, P(m))), unfold(m, P(add(m, 1)))])
    last = sub(M, 1)
    I.ensure("every point is within the last insertion radius of a landmark", le(low(M, p), num(I.read(lam, (last,)))),
             [le(2, M), le(0, p), lt(p, N), le(low(last, p), low(last, P(last))), eq(low(M, p), gh.step(last, p))])


@unit(G + "get_greedy_perm_dm")
def matrix(I):
    N, M = I.int("N", 1), I.int("M", 1)
    D = I.arr((N, N), lambda ix: d(*ix), "f")
    gh = Ghost(N)
    I.loop_inv[G + "get_greedy_perm_dm"] = lambda I, ctx: Inv(I, gh, M)
    r = I.run(G + "get_greedy_perm_dm", D, M)
    I.no_raise()
    result(I, r, N, M, gh)
    I.dims("DLandmarks", r["DLandmarks"], (M, N))
    (m, p), rng = I.idx((M, N))
    I.ensure("distance rows of the landmarks, in order", eq(num(I.read(r["DLandmarks"], (m, p))), d(num(I.read(r["perm"], (m,))), p)), rng)
    I.unchanged("distance matrix", D, lambda ix: d(*ix))


def row(I, a, i):
    """the index of the point that is row i of the array"""
    c = fresh("c")
    t = num(I.read(a, (i, c)))
    if not (t.op == "app" and t.val == "X" and t.args[1] is c): raise Unsupported("distances of something other than the points")
    return t.args[0]


def csm(I, A, B):
    return I.arr((A.shape[0], B.shape[0]), lambda ix: d(row(I, A, ix[0]), row(I, B, ix[1])), "f")


def cloud(given):
    def contract(I):
        N, M, w = I.int("N", 1), I.int("M", 1), I.int("dim", 1)
        X = I.inp("X", (N, w))
        gh = Ghost(N)
        I.loop_inv[G + "get_greedy_perm_pc"] = lambda I, ctx: Inv(I, gh, M)
        I.contracts[G + "get_csm"] = lambda I, f, a: csm(I, *list(a.values())[:2])
        r = I.run(G + "get_greedy_perm_pc", X, M, Native(lambda s, A, B: csm(I, A, B), "csm_fn")) if given else I.run(G + "get_greedy_perm_pc", X, M)
        I.no_raise()
        result(I, r, N, M, gh)
        I.dims("D", r["D"], (M, N))
        (m, p), rng = I.idx((M, N))
        I.ensure("distance rows of the landmarks, in order", eq(num(I.read(r["D"], (m, p))), d(num(I.read(r["perm"], (m,))), p)), rng)
        I.dims("Y", r["Y"], (M, w))
        (m, c), rng = I.idx((M, w))
        I.ensure("the landmarks, in order", eq(num(I.read(r["Y"], (m, c))), app("X", (num(I.read(r["perm"], (m,))), c), "R")), rng)
        I.unchanged("points", X, lambda ix: app("X", ix, "R"))
    return contract


unit(G + "get_greedy_perm_pc", "get_greedy_perm_pc, default metric")(cloud(False))
unit(G + "get_greedy_perm_pc", "get_greedy_perm_pc, given metric")(cloud(True))
