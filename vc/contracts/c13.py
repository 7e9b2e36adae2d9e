"""C13: lattice reduction.  Ghost certificate of the orthogonalisation of the columns of X (Q, m, s):
  X(r, c) = sum over l of m(c, l) Q(r, l),   m(c, l) s(l) = sum over r of X(r, c) Q(r, l),
  m(c, c) = 1 and m(c, l) = 0 for l > c,      s(l) = sum over r of Q(r, l)^2 > 0;
the columns of Q are then orthogonal (lean/GramSchmidt.lean), and columns that are independent have such a certificate.
`_gram_schmidt` is proved to return the Q of any certificate of its argument; `_lll` carries certificates along."""
from ..api import *
from ..interp import Interp

T = "toroidalcoords."
LEAN = ["GramSchmidt.lean"]
half = div(const(1, "R"), const(2))


class Cert:
    """instances of the clauses for the columns X, with Q, m, s as readers"""
    def __init__(s, n, X, Q, m, sq): s.n, s.X, s.Q, s.m, s.s = n, X, Q, m, sq

    def inr(s, *ix): return and_(*[and_(le(0, i), lt(i, s.n)) for i in ix])
    def D(s, r, c): return implies(s.inr(r, c), eq(s.X(r, c), sum_(0, s.n, lambda l: mul(s.m(c, l), s.Q(r, l)))))
    def M(s, c, l): return implies(s.inr(c, l), eq(mul(s.m(c, l), s.s(l)), sum_(0, s.n, lambda r: mul(s.X(r, c), s.Q(r, l)))))
    def S(s, l): return implies(s.inr(l), and_(eq(s.sq(l), s.s(l)), lt(0, s.s(l))))
    def sq(s, l): return sum_(0, s.n, lambda r: mul(s.Q(r, l), s.Q(r, l)))
    def unit(s, c): return implies(s.inr(c), eq(s.m(c, c), 1))
    def tri(s, c): return forall(add(c, 1), s.n, lambda l: eq(s.m(c, l), 0))
    def T(s, c): return and_(s.unit(c), implies(s.inr(c), s.tri(c)))


def f2(name, sort="R"): return lambda a, b: app(name, (const(a), const(b)), sort)
def f1(name, sort="R"): return lambda a: app(name, (const(a),), sort)


# ---------------------------------------------------------------------------- the orthogonalisation
class Outer:
    """the first i columns are done"""
    def __init__(s, I, K): s.I, s.K = I, K

    def state(s, i, mods):
        s.i = i
        return {k: Content(lambda ix, v=v: ite(lt(ix[1], i), s.K.Q(*ix), num(v.read(ix))), (), ()) for k, v in mods.items() if k[0] == "c" and s.I.cell_arity.get(k[1]) == 2}

    def check(s, i, first):
        I, K = s.I, s.K
        r, c = fresh("r"), fresh("c")
        for k, v in s.mods.items():
            if k[0] != "c" or I.cell_arity.get(k[1]) != 2: continue
            t = num(I.store[k].read((r, c)))
            p = sub(i, 1)
            rng = [le(0, r), lt(r, K.n), le(0, p), lt(p, K.n)]
            if not first: I.ensure("earlier columns are kept", eq(t, K.Q(r, c)), rng + [le(0, c), lt(c, p)])
            f = lambda l: mul(K.m(p, l), K.Q(r, l))
            own = lambda l: mul(sub(K.m(p, l), ite(eq(l, p), 1, 0)), K.Q(r, l))
            tail = eq(sum_(p, K.n, f), K.Q(r, p))
            I.claim("the column itself and no later one", tail, rng + [eq(sum_(p, K.n, own), 0)])
            I.claim("own coefficients", eq(sum_(p, K.n, own), 0), rng + [K.unit(p), K.tri(p)])
            split = eq(sum_(0, K.n, f), add(sum_(0, p, f), sum_(p, K.n, f)))
            I.claim("sum of the projections, split", split, rng)
            I.ensure("the first column" if first else "one column more", eq(ir.subst(t, {c: p}), K.Q(r, p)), rng + [K.D(r, p), split, tail])


class Inner:
    """the projections onto the first j columns are subtracted"""
    def __init__(s, I, K, i): s.I, s.K, s.i = I, K, i

    def val(s, j, r): return sub(s.K.X(r, s.i), sum_(0, j, lambda l: mul(s.K.m(s.i, l), s.K.Q(r, l))))

    def held(s, k, v):
        if k[0] == "c": return s.I.cell_arity.get(k[1]) == 1
        return isinstance(v, Arr) and len(v.shape) == 1

    def state(s, j, mods):
        out = {}
        for k, v in mods.items():
            if not s.held(k, v): continue
            if k[0] == "c": out[k] = Content(lambda ix: s.val(j, ix[0]), (), ())
            else: out[k] = s.I.mk(lambda ix: s.val(j, ix[0]), v.shape, "f", True)
        return out

    def check(s, j, first):
        I, K, i = s.I, s.K, s.i
        r, x, l = fresh("r"), fresh("x"), fresh("l")
        p = sub(j, 1)
        if not first:
            zero = sum_(0, p, lambda l: mul(K.m(i, l), sum_(0, K.n, lambda x: mul(K.Q(x, l), K.Q(x, p)))))
            dot = sum_(0, K.n, lambda x: mul(s.val(p, x), K.Q(x, p)))
            rng = [le(0, p), lt(p, i), lt(i, K.n)]
            orth = forall(0, p, lambda l: eq(sum_(0, K.n, lambda x: mul(K.Q(x, l), K.Q(x, p))), 0))
            I.claim("earlier columns are orthogonal to the next", eq(zero, 0), rng + [orth])
            I.claim("the coefficient of the projection", eq(dot, mul(K.m(i, p), K.s(p))), rng + [K.M(i, p), eq(zero, 0)])
        for k, v in s.mods.items():
            if not s.held(k, v): continue
            now = I.store[k]
            t = num(now.read((r,)) if k[0] == "c" else I.read(now, (r,)))
            h = [le(0, r), lt(r, K.n)]
            if not first:
                t = assume(t, lt(p, i), True, deep=True)
                t = generalise(generalise(t, dot, mul(K.m(i, p), K.s(p))), K.sq(p), K.s(p))
                h += [K.S(p), K.M(i, p)]
            I.ensure("before the first projection" if first else "one projection more", eq(t, s.val(j, r)), h)


@unit(T + "_gram_schmidt")
def gram_schmidt(I):
    n = I.int("n", 1)
    B = I.inp("B", (n, n))
    K = Cert(n, f2("B"), f2("Q"), f2("m"), f1("s"))
    outer = []

    def inv(I, ctx):
        if I.in_loop == 0:
            outer.append(Outer(I, K))
            return outer[-1]
        return Inner(I, K, outer[-1].i)
    inv.nested = True
    I.loop_inv[T + "_gram_schmidt"] = inv
    A = I.run(T + "_gram_schmidt", B)
    I.no_raise()
    I.dims("orthogonalised basis", A, (n, n))
    (r, c), rng = I.idx((n, n))
    I.ensure("the orthogonal vectors of the certificate", eq(num(I.read(A, (r, c))), K.Q(r, c)), rng)
    I.unchanged("basis", B, lambda ix: f2("B")(*ix))


# ---------------------------------------------------------------------------- the reduction
class Step:
    """the state at the start of an arbitrary round: B = B0 U, U V = 1, certificate K of B, position k"""

    def __init__(s, I, n, B0, delta, tag, k=None):
        s.I, s.n, s.B0, s.delta = I, n, B0, delta
        nm = lambda x: x + "!" + tag
        s.B, s.Q, s.m, s.sq = f2(nm("B")), f2(nm("Q")), f2(nm("m")), f1(nm("s"))
        s.U, s.V = f2(nm("U"), "I"), f2(nm("V"), "I")
        s.bname = nm("B")
        s.k = fresh("k") if k is None else k
        s.K = Cert(n, s.B, s.Q, s.m, s.sq)
        s.column()

    def column(s):
        s.bk, s.uk, s.mk = (lambda r: s.B(r, s.k)), (lambda t: s.U(t, s.k)), (lambda l: s.m(s.k, l))
        s.C = Cert(s.n, lambda r, c: s.bk(r), s.Q, lambda c, l: s.mk(l), s.sq)

    def above(s, c, l): return implies(and_(le(0, c), lt(c, l), lt(l, s.n)), eq(s.m(c, l), 0))
    def inr(s, *ix): return s.K.inr(*ix)
    def BU(s, r, c): return implies(s.inr(r, c), eq(s.B(r, c), sum_(0, s.n, lambda t: mul(s.B0(r, t), s.U(t, c)))))
    def UV(s, a, b): return implies(s.inr(a, b), eq(sum_(0, s.n, lambda t: mul(s.U(a, t), s.V(t, b))), ite(eq(a, b), 1, 0)))
    def size(s, a, b): return implies(and_(le(0, b), lt(b, a), lt(a, s.k)), within(s.m(a, b)))
    def lovasz(s, a): return implies(and_(le(1, a), lt(a, s.k)), condition(s.delta, s.m, s.sq, a))


class Column(Step):
    """the same while column k is reduced: column k of B, U and row k of m have values of their own"""

    def __init__(s, I, o, j, tag):
        s.I, s.o, s.n, s.B0, s.delta, s.k, s.j = I, o, o.n, o.B0, o.delta, o.k, j
        nm = lambda x: x + "!" + tag
        s.bname, s.bkname, s.bk = o.bname, nm("b"), f1(nm("b"))
        s.uk, s.mk = f1(nm("u"), "I"), f1(nm("mk"))
        k = s.k
        s.B = lambda r, c: ite(eq(c, k), s.bk(r), o.B(r, c))
        s.U = lambda r, c: ite(eq(c, k), s.uk(r), o.U(r, c))
        s.m = lambda c, l: ite(eq(c, k), s.mk(l), o.m(c, l))
        s.V = f2(nm("V"), "I")
        s.Q, s.sq = o.Q, o.sq
        s.K = s
        s.C = Cert(o.n, lambda r, c: s.bk(r), o.Q, lambda c, l: s.mk(l), o.sq)      # the clauses of column k

    def inr(s, *ix): return s.o.inr(*ix)
    def own(s, c, f, g): return and_(implies(eq(c, s.k), f), implies(not_(eq(c, s.k)), g))
    def D(s, r, c): return s.own(c, s.C.D(r, s.k), s.o.K.D(r, c))
    def M(s, c, l): return s.own(c, s.C.M(s.k, l), s.o.K.M(c, l))
    def S(s, l): return s.o.K.S(l)
    def unit(s, c): return s.own(c, eq(s.mk(s.k), 1), s.o.K.unit(c))
    def above(s, c, l): return implies(and_(le(0, c), lt(c, l), lt(l, s.n)), s.own(c, eq(s.mk(l), 0), eq(s.o.m(c, l), 0)))
    def BU(s, r, c): return s.own(c, implies(s.inr(r), eq(s.bk(r), sum_(0, s.n, lambda t: mul(s.B0(r, t), s.uk(t))))), s.o.BU(r, c))
    def reduced(s, l): return implies(and_(lt(s.j, l), lt(l, s.k)), within(s.mk(l)))
    def size(s, a, b): return and_(s.o.size(a, b), implies(and_(eq(a, s.k), le(0, b), lt(b, a)), s.reduced(b)))
    def lovasz(s, a): return s.o.lovasz(a)


def within(t): return and_(le(neg(half), t), le(t, half))
def neg(t): return mul(-1, t)
def condition(delta, m, sq, a):
    p = sub(a, 1)
    return le(mul(sub(delta, mul(m(a, p), m(a, p))), sq(p)), sq(a))


class Ghosts:
    """cells of the certificate, so that it follows the control flow"""
    names = ("m", "s", "V", "Q", "x")

    def __init__(s, I, n):
        s.I = I
        s.arr = {k: Interp.mk(I, lambda ix: const(0), {"s": (n,), "x": (1,)}.get(k, (n, n)), "f") for k in s.names}

    def key(s, k): return ("c", s.arr[k].cell)

    def put(s, st):
        I = s.I
        for k, f in (("m", st.m), ("s", st.sq), ("V", st.V), ("Q", st.Q), ("x", lambda i: const(1 if isinstance(st, Swapped) else 0))):
            I.store[s.key(k)] = Content(lambda ix, f=f: num(f(*ix)), (), ())

    def get(s, k):
        c = s.I.store[s.key(k)]
        return lambda *ix: num(c.read(tuple(const(x) for x in ix)))


class Round:
    """the loop over positions"""

    def __init__(s, I, L): s.I, s.L, s.roles = I, L, {}

    def role(s, k, v):
        if k in s.roles: return s.roles[k]
        I, L, r = s.I, s.L, None
        for nm in L.g.names:
            if k == L.g.key(nm): return "ghost"
        x, y = fresh("r"), fresh("c")
        if k[0] == "c" and I.cell_arity.get(k[1]) == 2 or isinstance(v, Arr) and len(v.shape) == 2:
            t = num(v.read((x, y))) if k[0] == "c" else num(I.read(v, (x, y)))
            if I.same(t, L.B0(x, y)): r = "B"
            elif I.same(t, ite(eq(x, y), 1, 0)): r = "U"
            elif I.same(t, L.first.Q(x, y)) or L.at is not None and I.same(t, L.at.Q(x, y)): r = "Q"
        elif k[0] == "v" and is_num(v) and num(v).sort == "I" and I.same(num(v), const(1)): r = "k"
        s.roles[k] = r
        return r

    def now(s, k):
        v = s.I.store[k]
        return (lambda *ix: num(v.read(tuple(const(x) for x in ix)))) if k[0] == "c" else (lambda *ix: num(s.I.read(v, tuple(const(x) for x in ix))))

    def values(s, st, mods, i):
        I, out = s.I, {}
        for k, v in mods.items():
            r = s.role(k, v)
            if r == "k" and not isinstance(st, Column): out[k] = st.k
            elif r in ("B", "U", "Q"):
                f = getattr(st, r)
                if k[0] == "c": out[k] = Content(lambda ix, f=f: num(f(*ix)), (), ())
                else: out[k] = Interp.mk(I, lambda ix, f=f: num(f(*ix)), v.shape, "f", True)
        s.L.g.put(st)
        for nm in s.L.g.names: out[s.L.g.key(nm)] = I.store[s.L.g.key(nm)]
        return out

    def state(s, i, mods):
        s.L.count += 1
        s.L.col = s.L.swap = None
        st = s.L.at = Step(s.I, s.L.n, s.L.B0, s.L.delta, str(s.L.count))
        s.I.fact(le(1, st.k), le(st.k, s.L.n))
        return s.values(st, mods, i)

    def check(s, i, first):
        I, L = s.I, s.L
        if first: return s.holds("initially", L.first, lambda t: t, [], L.first)
        keys = {s.role(k, v) for k, v in s.mods.items()}
        if L.col is None or not {"B", "U", "k"} <= keys: raise Unsupported("another kind of lattice reduction")
        w = L.g.get("x")(const(0))
        x = eq(w, 1)

        def path(t, swapped):
            """on one side of the test that decides whether the columns are exchanged"""
            if w.op == "ite" and isc(w.args[1]) and isc(w.args[2]): return assume(t, w.args[0], bool(w.args[1].val) == swapped, deep=True)
            return t
        pc = I.pc
        for st, nm in ((L.col, "the position advances"), (L.swap, "columns are exchanged")):
            if st is None: continue
            swapped = st is L.swap
            simp = prover.Simp(pc + I.facts + [x if swapped else not_(x)])
            ps = [sub(L.at.k, 1), L.at.k]
            go = lambda t: L.known(simp.go(path(t, swapped)), ps)
            I.pc = [L.known(t, ps) for t in pc + [x if swapped else not_(x)]]
            s.holds("when " + nm, L.col, go, [L.col.S(sub(L.at.k, 1)), L.col.S(L.at.k), L.col.M(L.at.k, sub(L.at.k, 1))], st)
        I.pc = pc

    def holds(s, at, o, go, hyps, st):
        """the invariant at the end of a round; st: the state reached from o on this path"""
        I, L, n = s.I, s.L, s.L.n
        at = " " + at
        r, c, l, a, b = [fresh(x) for x in "rclab"]
        rng = [le(0, r), lt(r, n), le(0, c), lt(c, n), le(0, l), lt(l, n)]
        keys = {s.role(k, v): k for k, v in s.mods.items()}
        g = {nm: (lambda *ix, f=L.g.get(nm): go(f(*ix))) for nm in L.g.names}
        get = lambda nm: (lambda *ix, f=s.now(keys[nm]): go(f(*ix))) if nm in keys else getattr(L.first, nm)
        B, U, Q = get("B"), get("U"), get("Q")
        k = go(num(I.store[keys["k"]])) if "k" in keys else const(1)
        K = Cert(n, B, g["Q"], g["m"], g["s"])

        def ensure(nm, goal, h=()):
            """columns that moved apart from the others"""
            if not isinstance(st, Swapped): return I.ensure(nm + at, goal(c), rng + list(h(c) if h else ()))
            for v, w in ((o.k, " (last)"), (sub(o.k, 1), " (last but one)"), (c, " (others)")):
                hy = rng + ([not_(eq(c, o.k)), not_(eq(c, sub(o.k, 1)))] if v is c else [])
                sm = prover.Simp(I.hyps() + hy)
                I.ensure(nm + at + w, sm.go(goal(v)), hy + [sm.go(x) for x in (h(v) if h else ())])
        I.ensure("position" + at, and_(le(1, k), le(k, n)))
        if "Q" in keys: I.ensure("the orthogonal vectors held are those of the basis" + at, eq(Q(r, c), g["Q"](r, c)), rng)
        ensure("column = combination of orthogonal vectors", lambda c: K.D(r, c), lambda c: [st.K.D(r, c)])
        ensure("coefficients", lambda c: K.M(c, l), lambda c: [st.K.M(c, l)])
        I.ensure("squared lengths" + at, K.S(l), rng + [st.K.S(l)])
        I.ensure("own coefficient" + at, K.unit(c), rng + [st.K.unit(c)])
        I.ensure("no later coefficient" + at, eq(g["m"](c, l), 0), rng + [lt(c, l), above(st, c, l)])
        ensure("input times the change of basis", lambda c: eq(B(r, c), sum_(0, n, lambda t: mul(L.B0(r, t), U(t, c)))), lambda c: [st.BU(r, c)])
        ensure("the change of basis is an integer matrix", lambda c: eq(U(r, c), floor(U(r, c))))
        ensure("so is its inverse", lambda c: eq(g["V"](c, r), floor(g["V"](c, r))))
        whole = sum_(0, n, lambda t: mul(U(r, t), g["V"](t, c)))
        if isinstance(st, Swapped):
            # a sum does not depend on the order of its terms
            re = lambda f: sum_(0, n, lambda t: ite(eq(t, o.k), f(sub(o.k, 1)), ite(eq(t, sub(o.k, 1)), f(o.k), f(t))))
            g0 = lambda t: app("summand", (t,), "R")
            I.claim("two terms of a sum exchanged", eq(re(g0), sum_(0, n, g0)), [le(1, o.k), lt(o.k, n)])
            f = lambda t: mul(ite(eq(t, o.k), o.uk(r), o.o.U(r, t)), o.V(t, c))
            t = fresh("t")
            I.ensure("both factors are exchanged" + at, eq(sub(whole, re(f)), 0), rng)
            I.claim("inverse of the change of basis" + at, eq(whole, delta_(r, c)), rng + [o.UV(r, c), eq(sub(whole, re(f)), 0), eq(re(f), sum_(0, n, f))])
        else: I.ensure("inverse of the change of basis" + at, eq(whole, delta_(r, c)), rng + [st.UV(r, c)])
        rg, p = [le(0, b), lt(b, a), lt(a, k)], sub(a, 1)
        kept = lambda *x: [st.kept(*x)] if isinstance(st, Swapped) else []
        I.ensure("coefficients at most one half" + at, within(g["m"](a, b)), rg + [o.size(a, b)] + kept(a, b))
        lov = lambda a: condition(L.delta, g["m"], g["s"], a)
        if o is st and o is not L.first:
            I.ensure("Lovasz condition at the position" + at, lov(o.k), [lt(o.k, k)] + hyps)
            I.ensure("position plus one" + at, le(k, add(o.k, 1)))
            k = o.k
        I.ensure("Lovasz condition" + at, lov(a), [le(1, a), lt(a, k), lt(k, add(n, 1)), o.lovasz(a)] + kept(a, p) + kept(p, p))


class Reduce:
    """the loop over the earlier columns, from the last to the first"""

    def __init__(s, I, L, outer): s.I, s.L, s.outer, s.o = I, L, outer, L.at

    def state(s, i, mods):
        s.L.count += 1
        s.L.early = False
        st = s.L.col = Column(s.I, s.o, sub(s.o.k, add(sub(i, s.lo), 1)), str(s.L.count))
        return s.outer.values(st, mods, i)

    def check(s, i, first):
        I, L, o, n = s.I, s.L, s.o, s.o.n
        at = " before the first reduction" if first else " after a reduction"
        r, c, l, a, b = [fresh(x) for x in "rclab"]
        rng = [le(0, r), lt(r, n), le(0, c), lt(c, n), le(0, l), lt(l, n)]
        keys = {s.outer.role(k, v): k for k, v in s.mods.items()}
        st = o if first else L.col
        if not first and L.early: raise Unsupported("the basis orthogonalised is not the one being reduced")
        get = lambda nm: s.outer.now(keys[nm]) if nm in keys else getattr(st, nm)
        B, U, Q = get("B"), get("U"), get("Q")
        value, j = (const(0), const(0)) if first else L.change(B, st)
        L.column(at, st, B, U, value, j)
        if "Q" in keys: I.ensure("orthogonal vectors" + at, eq(Q(r, c), o.Q(r, c)), rng)
        I.ensure("the change of basis is an integer matrix" + at, eq(U(r, c), floor(U(r, c))), rng)
        I.ensure("the multiple is an integer" + at, eq(value, floor(value)))
        z, k = fresh("z", "I"), o.k
        uk = lambda t: add(st.uk(t), mul(z, o.U(t, j)))
        V = lambda a, b: sub(st.V(a, b), ite(eq(a, j), mul(z, st.V(k, b)), const(0)))
        jr = [le(0, j), lt(j, k)]
        I.ensure("inverse of the change of basis" + at, eq(sum_(0, n, lambda t: mul(ite(eq(t, k), uk(r), o.U(r, t)), V(t, c))), ite(eq(r, c), 1, 0)), rng + jr + [st.UV(r, c)])
        I.ensure("input times the change of basis" + at, eq(add(st.bk(r), mul(z, o.B(r, j))), sum_(0, n, lambda t: mul(L.B0(r, t), uk(t)))), rng + jr + [st.BU(r, k), o.BU(r, j)])
        if first: return
        p = st.j
        I.ensure("the column of the iteration is subtracted", or_(eq(j, p), eq(value, 0)))
        I.ensure("coefficients that were reduced stay", within(add(st.mk(l), mul(z, o.m(p, l)))), [lt(p, l), lt(l, k), st.reduced(l), o.above(p, l)])
        I.ensure("the coefficient of the iteration is reduced", within(add(st.mk(p), L.known(value, [p]))), [o.K.unit(p), o.K.S(p), st.C.M(k, p)])


def above(st, c, l): return st.above(c, l)


class Swapped(Step):
    """columns k - 1 and k exchanged: a new certificate, the old one before them (lean: Cert.permute)"""

    def __init__(s, I, o, tag):
        super().__init__(I, o.n, o.B0, o.delta, tag, o.k)
        s.o, k = o, o.k
        s.sigma = sg = lambda c: ite(eq(c, k), sub(k, 1), ite(eq(c, sub(k, 1)), k, c))
        s.B, s.U, s.V = (lambda r, c: o.B(r, sg(c))), (lambda t, c: o.U(t, sg(c))), (lambda a, b: o.V(sg(a), b))
        s.K = Cert(s.n, s.B, s.Q, s.m, s.sq)

    def BU(s, r, c): return s.o.BU(r, s.sigma(c))
    def UV(s, a, b): return s.o.UV(a, b)
    def kept(s, a, b): return implies(and_(le(0, a), lt(a, sub(s.k, 1))), and_(eq(s.m(a, b), s.o.m(a, b)), eq(s.sq(a), s.o.sq(a))))


class Reduction:
    def __init__(s, I, n, delta):
        s.I, s.n, s.delta, s.count = I, n, delta, 0
        s.B0 = f2("B0")
        s.g = Ghosts(I, n)
        s.first = s.at = s.col = s.swap = s.outer = None

    def loop(s, I, ctx):
        if I.in_loop == 0:
            s.outer = Round(I, s)
            return s.outer
        s.swap = None
        return Reduce(I, s, s.outer)

    def gs(s, I, f, d):
        """_gram_schmidt returns the orthogonal vectors of any certificate of its argument"""
        A = list(d.values())[0]
        X, n = I.reader(A), s.n
        I.dims("the basis orthogonalised", A, (n, n))
        r, c = fresh("r"), fresh("c")
        rng = [le(0, r), lt(r, n), le(0, c), lt(c, n)]
        B = lambda r, c: num(X((r, c)))
        if I.in_loop == 0:
            I.ensure("the input is orthogonalised", eq(B(r, c), s.B0(r, c)), rng)
            st = s.first = Step(I, n, s.B0, s.delta, "0", const(1))
            st.B, st.U, st.V = s.B0, delta_, delta_
            st.K = Cert(n, st.B, st.Q, st.m, st.sq)
            st.BU = st.UV = lambda *a: TRUE
            s.g.put(st)
        elif s.col is None: st = s.at       # the position is not yet known to change
        elif I.in_loop == 2:
            st = s.col
            if st.bkname and not find_apps(B(r, st.k), st.bkname): s.early = True       # the column is not yet known to change
            else: value, j = s.change(B, st)
            if not s.early: s.column(" for the orthogonalisation", st, B, None, value, j)
        else:
            st = s.col
            if not I.same(B(r, c), st.B(r, c)):
                s.count += 1
                st = s.swap = Swapped(I, st, str(s.count))
                I.ensure("two neighbouring columns are exchanged", eq(B(r, c), st.B(r, c)), rng)
                s.g.put(st)
        return I.arr((n, n), lambda ix: st.Q(*ix), "f")

    def column(s, at, st, B, U, value, j):
        """column k changed by value times column j: its certificate"""
        I, n, k, o = s.I, s.n, st.k, s.at
        r, c, l = fresh("r"), fresh("c"), fresh("l")
        rng = [le(0, r), lt(r, n), le(0, c), lt(c, n), le(0, l), lt(l, n)]
        if at[1] != "b": I.ensure("an earlier column is subtracted" + at, and_(le(0, j), lt(j, k)))
        changed = lambda new, old, c: ite(eq(c, k), new, old)
        I.ensure("only column k changes" + at, eq(B(r, c), changed(add(st.bk(r), mul(value, o.B(r, j))), o.B(r, c), c)), rng)
        if U is not None: I.ensure("and so it does in the change of basis" + at, eq(U(r, c), changed(add(st.uk(r), mul(value, o.U(r, j))), o.U(r, c), c)), rng)
        z, jr = fresh("z", "I"), [le(0, j), lt(j, k), lt(k, n)]
        mk = lambda l: add(st.mk(l), mul(z, o.m(j, l)))
        bk = lambda r: add(st.bk(r), mul(z, o.B(r, j)))
        I.claim("column = combination of orthogonal vectors" + at, eq(bk(r), sum_(0, n, lambda l: mul(mk(l), o.Q(r, l)))), rng + jr + [st.C.D(r, k), o.K.D(r, j)])
        I.claim("coefficients" + at, eq(mul(mk(l), o.sq(l)), sum_(0, n, lambda r: mul(bk(r), o.Q(r, l)))), rng + jr + [st.C.M(k, l), o.K.M(j, l)])
        I.claim("own coefficient" + at, eq(mk(k), 1), jr + [le(0, k), st.C.unit(k), o.above(j, k)])
        I.claim("no later coefficient" + at, eq(mk(l), 0), jr + [lt(k, l), lt(l, n), st.above(k, l), o.above(j, l)])

    def known(s, t, ps):
        """the coefficients computed by the code are those of the certificate"""
        st = s.col
        for p in ps:
            t = generalise(t, sum_(0, s.n, lambda r: mul(st.bk(r), st.Q(r, p))), mul(st.mk(p), st.sq(p)))
            t = generalise(t, sum_(0, s.n, lambda r: mul(st.Q(r, p), st.Q(r, p))), st.sq(p))
        return t

    def change(s, B, st):
        """(value, j): column k is the old one plus value times column j"""
        I, r = s.I, fresh("r")
        u = poly.canon(prover.Simp(I.hyps()).go(sub(B(r, st.k), st.bk(r))))
        cols = {a.args[1].id: a.args[1] for a in find_apps(u, st.bname) if a.args[0] is r}
        if len(cols) > 1: raise Unsupported("several columns are subtracted at once")
        if not cols: return const(0), const(0)
        j, y = list(cols.values())[0], fresh("y", "R")
        lin = put(u, app(st.bname, (r, j), "R"), y)
        value = sub(subst(lin, {y: const(1, "R")}), subst(lin, {y: const(0, "R")}))
        if r in fv(value): raise Unsupported("another way of reducing a column")
        return value, j


def delta_(a, b): return ite(eq(a, b), 1, 0)


def put(t, a, b):
    memo = {}

    def go(t):
        if t is a: return b
        if not t.args: return t
        if t.id not in memo: memo[t.id] = ir._rebuild(t, tuple(go(q) for q in t.args))
        return memo[t.id]
    return go(t)


@unit(T + "_lll")
def lll(I):
    n, delta = I.int("n", 1), I.real("delta")
    L = Reduction(I, n, delta)
    B0 = I.inp("B0", (n, n))
    I.contracts[T + "_gram_schmidt"] = L.gs
    loop = lambda I, ctx: L.loop(I, ctx)
    loop.nested = True
    I.loop_inv[T + "_lll"] = loop
    out, ch = I.run(T + "_lll", B0, delta)
    I.no_raise()
    I.unchanged("basis", B0, lambda ix: L.B0(*ix))
    I.dims("reduced basis", out, (n, n))
    I.dims("change of basis", ch, (n, n))
    st = L.at
    (r, c, l), rng = I.idx((n, n, n))
    B, U = (lambda r, c: num(I.read(out, (r, c)))), (lambda r, c: num(I.read(ch, (r, c))))
    K = Cert(n, B, st.Q, st.m, st.sq)
    I.ensure("the output is the input times the change of basis", eq(B(r, c), sum_(0, n, lambda t: mul(L.B0(r, t), U(t, c)))), rng + [st.BU(r, c)])
    I.ensure("the change of basis is an integer matrix", eq(U(r, c), floor(U(r, c))), rng)
    I.ensure("with an integer inverse: it is unimodular", eq(sum_(0, n, lambda t: mul(U(r, t), st.V(t, c))), delta_(r, c)), rng + [st.UV(r, c)])
    I.ensure("the output has an orthogonalisation: columns", K.D(r, c), rng + [st.K.D(r, c)])
    I.ensure("the output has an orthogonalisation: coefficients", K.M(c, l), rng + [st.K.M(c, l)])
    I.ensure("the output has an orthogonalisation: triangular", and_(eq(st.m(c, c), 1), implies(lt(c, l), eq(st.m(c, l), 0))), rng + [st.K.unit(c), st.above(c, l)])
    I.ensure("the output has an orthogonalisation: lengths", K.S(l), rng + [st.K.S(l)])
    I.ensure("every coefficient is at most one half", within(st.m(c, l)), rng + [lt(l, c), st.size(c, l)])
    I.ensure("Lovasz condition", condition(delta, st.m, st.sq, c), rng + [le(1, c), st.lovasz(c)])
