"""C24: example generators."""
from fractions import Fraction
from .. import smt
from ..api import *
from ..npmodel import Concat, positional

G = "utils.GeometryExamples."


def twice(I, f, *a, **k):
    """two calls, with other random numbers drawn in between"""
    r = I.run(G + f, *a, **k)
    I.no_raise()
    I.store[("g", "rng")] = fresh("rng")
    return r, I.run(G + f, *a, **k)


def parts(x): return list(x) if isinstance(x, tuple) else [x]


def seeds(I): return ("seed", I.int("seed", 0)), ("default seed", None)


def agree(I, name, r, t):
    """the sample depends on the seed and the arguments only"""
    for k, (x, y) in enumerate(zip(parts(r), parts(t))):
        if isinstance(x, Concat):
            for q, (a, b) in enumerate(zip(x.parts, y.parts)): agree(I, "%s, part %d" % (name, q), a, b)
            continue
        if not isinstance(x, Arr): raise Unsupported("not an array")
        I.ensure("%s: the same seed gives the same number of points" % name, and_(*[eq(dcount(a), dcount(b)) for a, b in zip(x.shape, y.shape)]))
        if not random(I, x): continue
        vs, rng = I.idx(x.shape)
        I.eqs("%s: the same seed gives the same sample" % name, I.read(y, vs), I.read(x, vs), rng)


def random(I, x):
    """whether the entries depend on random numbers at all"""
    vs, _ = I.idx(x.shape)
    t = I.read(x, vs)
    return any("rnd!" in name or name.startswith("rng") for u in ((t.re, t.im) if isinstance(t, Cx) else (t,)) for name in names(u))


def names(t):
    return {str(x.val) for x in find_ops(t, "app")} | {str(x.val) for x in find_ops(t, "var")}


def sq(x): return mul(x, x)


def doubled(t):
    """sin and cos of twice an angle that occurs as well, written with the angle"""
    args = {}
    for f in ("sin", "cos"):
        for a in find_apps(t, f): args[a.args[0].id] = a.args[0]
    m = {}
    for a in args.values():
        for b in args.values():
            if a is not b and poly.clean(lambda: poly.norm(sub(b, mul(2, a)))) == {}: m[b.id] = a

    def go(t, memo):
        if t.id in memo: return memo[t.id]
        if not t.args: r = t
        elif t.op == "app" and t.val in ("sin", "cos") and t.args[0].id in m:
            a = m[t.args[0].id]
            r = mul(2, sin(a), cos(a)) if t.val == "sin" else sub(1, mul(2, sin(a), sin(a)))
        else: r = ir._rebuild(t, tuple(go(x, memo) for x in t.args))
        memo[t.id] = r
        return r
    return go(t, {})


def find_ops(t, op):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == op: out.append(x)
        st.extend(x.args)
    return out


def generator(f, make, check, contracts={}):
    def contract(I):
        I.contracts.update(contracts)
        args, kw = make(I)
        r, t = twice(I, f, *args, **kw)
        agree(I, f, r, t)
        check(I, r, *args)
    return contract


def torus(I, X, n, R, r, seed=None):
    I.dims("sample", X, (n, 3))
    (i,), rng = I.idx((n,))
    x, y, z = (I.read(X, (i, k)) for k in range(3))
    on_torus(I, "torus", x, y, sq(z), R, r, rng)


def on_torus(I, name, x, y, zz, R, r, rng):
    """x^2 + y^2 = rho^2 with (rho - R)^2 + z^2 = r^2: 4 R^2 (x^2+y^2) = (x^2+y^2+z^2+R^2-r^2)^2"""
    q = add(sq(x), sq(y))
    I.ensure("every point satisfies the equation of the " + name, eq(mul(4, sq(R), q), sq(sub(add(q, zz, sq(R)), sq(r)))), rng)


for nm, seeded in (("seed", True), ("default seed", False)):
    def make(I, seeded=seeded):
        n = I.int("n", 1)
        return (n, I.real("R"), I.real("r")) + ((I.int("seed", 0),) if seeded else ()), {}
    unit(G + "torus_3d", "torus_3d, " + nm)(generator("torus_3d", make, torus))


def klein(I, X, n, R, r, seed=None):
    I.dims("sample", X, (n, 4))
    (i,), rng = I.idx((n,))
    x, y, z, w = (I.read(X, (i, k)) for k in range(4))
    on_torus(I, "Klein bottle (distance from the core)", x, y, add(sq(z), sq(w)), R, r, rng)
    # the half twist: (z + iw)^2 |x + iy| = |z + iw|^2 (x + iy) up to the sign of R + r cos(theta)
    I.ensure("the half twist of the Klein bottle", doubled(eq(mul(sub(sq(z), sq(w)), y), mul(2, z, w, x))), rng)


def sphere(I, X, n):
    I.dims("sample", X, (n, 3))
    (i,), rng = I.idx((n,))
    v = [I.read(X, (i, k)) for k in range(3)]
    I.ensure("every point is on the unit sphere", eq(add(*map(sq, v)), 1), rng + nonzero(I, v))


def nonzero(I, v):
    """no sampled vector is zero (so that it can be normalised)"""
    out = []
    for t in v:
        for a in find_apps(t, "sqrt"): out.append(lt(0, a.args[0]))
    if out: I.assumed["no sampled vector is zero, so that it can be normalised"] = True
    return out


def arcs(I, f, d):
    """contract of get_csm_projarc, discharged with C23"""
    a, b = list(d.values())[:2]
    ra, rb = I.reader(a), I.reader(b)
    w = a.shape[1]

    def entry(ix):
        at = lambda c: mul(ra((ix[0], c)), rb((ix[1], c)))
        ip = add(*[at(const(c)) for c in range(int(const(w).val))]) if isc(const(w)) else sum_(0, w, at)
        v = ite(lt(ip, 0), mul(-1, ip), ip)
        return app("arccos", (ite(lt(1, v), 1, v),), "R")
    return I.arr((a.shape[0], b.shape[0]), entry, "f")


def rp2(I, r, n, seed=None):
    X, D = r
    I.dims("sample", X, (n, 3))
    I.dims("distances", D, (n, n))
    (i, j), rng = I.idx((n, n))
    v = [I.read(X, (i, k)) for k in range(3)]
    w = [I.read(X, (j, k)) for k in range(3)]
    nz = nonzero(I, v)
    I.ensure("every point is on the unit sphere", eq(add(*map(sq, v)), 1), rng + nz)
    I.ensure("symmetric distances", eq(I.read(D, (i, j)), I.read(D, (j, i))), rng)
    ip = add(*[mul(a, b) for a, b in zip(v, w)])
    a = ite(lt(ip, 0), mul(-1, ip), ip)
    I.ensure("projective arc lengths", eq(I.read(D, (i, j)), app("arccos", (ite(lt(1, a), 1, a),), "R")), rng)
    I.ensure("zero diagonal", eq(I.read(D, (i, i)), app("arccos", (const(1, "R"),), "R")), rng + nz)


def ncircle(I, X, n, noise, seed):
    I.dims("sample", X, (n, 2))
    (i,), rng = I.idx((n,))
    a = I.run(G + "noisy_circle", n, const(0, "R"), seed)
    v = [I.read(X, (i, k)) for k in range(2)]
    u = [I.read(a, (i, k)) for k in range(2)]
    nz = nonzero(I, u)
    I.ensure("without noise every point is on the unit circle", eq(add(*map(sq, u)), 1), rng + nz)
    for k in range(2): I.ensure("coordinate %d within half the noise bound of the circle" % k, le(absv(sub(v[k], u[k])), div(noise, 2)), rng)


for nm, seeded in (("seed", True), ("default seed", False)):
    def make(I, seeded=seeded):
        n = I.int("n", 1)
        return (n, I.real("R"), I.real("r")) + ((I.int("seed", 0),) if seeded else ()), {}
    unit(G + "klein_bottle_4d", "klein_bottle_4d, " + nm)(generator("klein_bottle_4d", make, klein))

    def make(I, seeded=seeded): return (I.int("n", 1),) + ((I.int("seed", 0),) if seeded else ()), {}
    unit(G + "rp2_metric", "rp2_metric, " + nm)(generator("rp2_metric", make, rp2, {"utils.GeometryUtils.get_csm_projarc": arcs}))

unit(G + "sphere", "sphere")(generator("sphere", lambda I: ((I.int("n", 1),), {}), sphere))
unit(G + "noisy_circle", "noisy_circle")(generator("noisy_circle", lambda I: ((I.int("n", 1), I.real("noise", 0), I.int("seed", 0)), {}), ncircle))


def trefoil(I, X, n, w, noisy):
    I.dims("sample", X, (n, 3))
    (i,), rng = I.idx((n,))


for noisy in (True, False): unit(G + "trefoil", "trefoil, %s" % ("noisy" if noisy else "even"))(generator("trefoil", lambda I, noisy=noisy: ((I.int("n", 1), I.real("width"), TRUE if noisy else FALSE), {}), trefoil))


def rows(I, X, radius, centre=(0, 0), bound=None):
    pass


def bullseye(I, X):
    I.dims("sample", X, (600, 2))
    (i,), rng = I.idx((600,))
    rad = ite(lt(i, 200), 1, ite(lt(i, 400), 2, 3))
    near_circle(I, X, i, rng, [(lt(i, 200), 1, 0), (and_(le(200, i), lt(i, 400)), 2, 0), (le(400, i), 3, 0)], Fraction(1, 20), "three concentric circles")


def three(I, X):
    I.dims("sample", X, (1050, 2))
    (i,), rng = I.idx((1050,))
    near_circle(I, X, i, rng, [(lt(i, 50), 1, 0), (and_(le(50, i), lt(i, 550)), 2, 4), (le(550, i), Fraction(5, 2), -4)], Fraction(3, 20), "three circles")


def near_circle(I, X, i, rng, circles, noise, name):
    x, y = I.read(X, (i, 0)), I.read(X, (i, 1))
    zero = lambda t: subst_apps(t, {"rnd!random2": lambda *a: const(Fraction(1, 2), "R")})
    for k, (c, r, cx) in enumerate(circles):
        u, v = zero(x), zero(y)
        I.ensure("%s: circle %d without noise" % (name, k), eq(add(sq(sub(u, cx)), sq(v)), sq(const(r, "R"))), rng + [c])
        for a, b, q in ((x, u, "x"), (y, v, "y")): I.ensure("%s: circle %d noise in %s" % (name, k, q), le(absv(sub(a, b)), const(noise, "R")), rng + [c])


unit(G + "bullseye", "bullseye")(generator("bullseye", lambda I: ((), {}), bullseye))
unit(G + "three_circles", "three_circles")(generator("three_circles", lambda I: ((), {}), three))


def genus2(I, X):
    if not isinstance(X, Concat) or X.axis != 0: raise Unsupported("not a concatenation of selections")
    for k, p in enumerate(X.parts):
        d = p.shape[0]
        I.ensure("part %d: three coordinates" % k, eq(p.shape[1], 3))
        (i, j), rng = I.idx(p.shape) if isinstance(d, MaskDim) and d.arity == 1 else ((None, None), None)
        if i is None: raise Unsupported("not a selection")
        x, y, z = (I.read(p, (i, q)) for q in range(3))
        rng = [le(0, i), lt(i, d.dims[0]), d.fn((i,))]
        left = and_(on(x, y, z), le(x, Fraction(9, 2)))
        right = and_(on(sub(x, 9), y, z), le(Fraction(9, 2), x))
        # which half a part belongs to is the code's choice
        I.ensure("part %d: every point is on the outer side of one of the two tori" % k, right if tried(left, rng) is False else left, rng)


def tried(goal, rng):
    return smt.quick_implies([poly.canonH(h) for h in rng], poly.canonG(goal), 2000)


def on(x, y, z):
    q = add(sq(x), sq(y))
    return eq(mul(100, q), sq(add(q, sq(z), 21)))


unit(G + "genus_two_surface", "genus_two_surface")(generator("genus_two_surface", lambda I: ((), {}), genus2))


def lines(I, P, dim, na, no, sigma):
    I.dims("patches", P, (mul(na, no), mul(dim, dim)))


def dots(I, P, k, sigma, dim):
    I.dims("patches", P, (mul(k, k), mul(dim, dim)))


unit(G + "line_patches", "line_patches")(generator("line_patches", lambda I: ((I.int("dim", 1), I.int("na", 1), I.int("no", 1), I.real("sigma")), {}), lines))
unit(G + "moving_dot", "moving_dot")(generator("moving_dot", lambda I: ((I.int("k", 1), I.real("sigma"), I.int("dim", 1)), {}), dots))


@unit(G + "moving_dot", "moving_dot, default patches")
def defaults(I):
    k = I.int("k", 1)
    P = I.run(G + "moving_dot", k)
    I.no_raise()
    I.dims("patches", P, (mul(k, k), 100))


def moore(I, r, N, q):
    D, X = r
    d = X.shape[0]
    if not (isinstance(d, MaskDim) and d.arity == 1): raise Unsupported("points are not a selection")
    I.ensure("two coordinates", eq(X.shape[1], 2))
    p = fresh("p")
    I.ensure("every point is in the closed unit disk", le(add(sq(I.read(X, (p, 0))), sq(I.read(X, (p, 1)))), 1), [le(0, p), lt(p, d.dims[0]), d.fn((p,))])
    I.dims("distances", D, (dcount(d), dcount(d)))
    pos = positional(I, X)
    (i, j), rng = I.idx(pos.shape[:1] * 2)
    # the coordinates only matter as numbers
    co = lambda v: subst_apps(v, {"rnd!random2": lambda st, k, c: div(add(app("P", (k, c), "R"), 1), 2)})
    at = lambda k: [I.read(pos, (k, c)) for c in range(2)]
    x, y = at(i), at(j)
    norm = lambda v: sqrt(add(*map(sq, v)))
    minus = lambda a, b: [sub(s, t) for s, t in zip(a, b)]
    rim = lambda v: [div(t, norm(v)) for t in v]
    turn = lambda v, t: [sub(mul(cos(t), v[0]), mul(sin(t), v[1])), add(mul(sin(t), v[0]), mul(cos(t), v[1]))]
    def via(a, b): return add(norm(minus(a, rim(a))), binder("mino", 0, q, lambda k: norm(minus(turn(rim(a), mul(k, div(mul(2, PI), q))), b))))
    least = lambda a, b: ite(lt(b, a), b, a)
    D_ = lambda i, j: I.read(D, (i, j))
    spec = least(least(norm(minus(x, y)), via(x, y)), least(norm(minus(y, x)), via(y, x)))
    names, facts = {}, []
    at = lambda t: lengths(co(t), names, facts)
    a, b, c, e = at(D_(i, j)), at(D_(j, i)), at(spec), at(D_(i, i))
    I.ensure("symmetric distances", eq(a, b), rng + facts)
    I.ensure("the shortest of the straight path and the paths through the identified boundary near either point", eq(a, c), rng + facts)
    I.ensure("zero diagonal", eq(e, 0), rng + facts)


def lengths(t, names, facts):
    """the lengths in t (square roots, and minima of square roots) replaced by arbitrary non-negative numbers, the same for the same length"""
    memo = {}

    def go(t):
        if t.id in memo: return memo[t.id]
        if t.op == "app" and t.val == "sqrt" or t.op == "mino":
            k = poly.canon(t)
            if k.id not in names:
                r = k
                if not isc(k):
                    r = fresh("len", "R")
                    if t.op != "mino" or t.args[3].op == "app" and t.args[3].val == "sqrt": facts.append(le(0, r))
                names[k.id] = r
            r = names[k.id]
        elif not t.args or nbind(t): r = t
        else: r = ir._rebuild(t, tuple(go(x) for x in t.args))
        memo[t.id] = r
        return r
    return go(t)


unit(G + "moore_space_distance_matrix", "moore")(generator("moore_space_distance_matrix", lambda I: ((I.int("N", 1), I.int("q", 2)), {}), moore))

LEAN = ["Power.lean"]
USES = {"c23": ("utils.GeometryUtils.get_csm_projarc", "arc")}
