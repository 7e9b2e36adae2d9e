"""C10: the integer cochain that coordinates are computed from."""
from .c11 import *
from .c09 import closed

USES = {"c06": ("",), "c09": ("",), "c08": ("make_delta1_compact", "make_delta2_compact"), "c07": ("",)}


def tri(rho, k): return app("tri%d" % k, (rho,), "I")


def compact_contract(I, n, thr, k, name):
    """contract of make_delta{k-1}_compact (C08): one row per k-simplex below the threshold, holding the coefficients of its coboundary"""
    def c(I, f, d):
        D_, t_, lut = list(d.values())[:3]
        I.oblige("the coboundary is taken at the chosen threshold", eq(num(t_), thr), "pre")
        same_dist(I, D_, n)
        m = app("nrows", (), "I")
        I.facts.append(le(0, m))
        I.assumed["contract of %s (proved in C08): the rows are in bijection with the simplices below the threshold" % name] = True
        row = lambda rho: [(facenum(tuple(tri(rho, j) for j in f)), const(sg)) for f, sg in FACES[k]]
        I.facts.append(forall(0, m, lambda rho: and_(le(0, tri(rho, 0)), *[lt(tri(rho, j), tri(rho, j + 1)) for j in range(k)] +
                                                     [lt(tri(rho, k), n), short([tri(rho, j) for j in range(k + 1)], thr)])))
        return Sparse(lambda r, c_: add(*[ite(eq(c_, col), x, 0) for col, x in row(r)]), (m, count(n, k)), {"rows": row, "simplices": (k, thr)})
    return c


def same_dist(I, D_, n):
    rd = I.reader(D_)
    (a, b), rng = I.idx((n, n))
    I.oblige("the landmark distances are used", eq(rd((a, b)), d(a, b)), "pre", I.hyps() + rng)


def test_contract(I, n, thr, k, pair):
    """contract of the cocycle tests (C09)"""
    def c(I, f, d):
        C, D_, t_ = list(d.values())[:3]
        I.oblige("the condition is tested at the chosen threshold", eq(num(t_), thr), "pre")
        same_dist(I, D_, n)
        rd = I.reader(C)
        ok = closed(n, k, thr, lambda e: rd((e,)))
        return (ok, fresh("failure", "R")) if pair else ok
    return c


def milp_contract(I):
    def h(s, o):
        A, at = o.attrs["A"], o.attrs
        if not isinstance(A, Sparse) or "simplices" not in A.meta: raise Unsupported("constraint matrix")
        lo, hi = I.reader(at["lb"]), I.reader(at["ub"])
        x = at["x"]
        rx = I.arr(x.shape, lambda ix: rint(I.read(x, ix)), "i")
        from ..npmodel import matmul
        Ax = matmul(I, A, rx)
        integ = at["integrality"]
        if not isinstance(integ, Arr): raise Unsupported("integrality of the unknowns")
        q = fresh("q")
        I.ensure("all unknowns are required to be integers", not_(eq(I.read(integ, (q,)), 0)), [le(0, q), lt(q, x.shape[0])])
        k, thr = A.meta["simplices"]
        # the constraint of the row of the simplex vs (the rows are in bijection with the simplices, tri_j(row(vs)) = vs[j])
        vs = [fresh("v") for _ in range(k + 1)]
        rho = app("row", tuple(vs), "I")
        back = {"tri%d" % j: (lambda r, v=v: v if r is rho else app("tri%d" % vs.index(v), (r,), "I")) for j, v in enumerate(vs)}
        at_row = lambda t: ir.subst_apps(t, back)
        l, a, h_ = lo((rho,)), I.read(Ax, (rho,)), hi((rho,))
        g = at_row(eq(l, a) if l is h_ else and_(le(l, a), le(a, h_)))
        g = implies(and_(*[lt(a, b) for a, b in zip(vs, vs[1:])] + [short(vs, thr)]), g)
        for v in reversed(vs): g = binderv("forall", v, 0, I.o_n, g)
        I.facts.append(implies(at["success"], g))
        s.assumed["scipy.optimize.milp: on success the solution rounded to integers satisfies the constraints exactly"] = True
    I.on_milp = h


def judge(I, o, read, key, k, thr, vec):
    """the cochain read(e) is an integer cocycle lifting vec(key, .)"""
    n, p = o.n, o.p
    I.ensure("an integer cocycle on the complex", closed(n, k, thr, read))
    vs = tuple(fresh("e") for _ in range(k))
    rng = [le(0, vs[0])] + [lt(a, b) for a, b in zip(vs, vs[1:])] + [lt(vs[-1], n)]
    e = facenum(vs)
    I.ensure("congruent modulo the prime to the selected class", eq(fmod(sub(read(e), vec(key, e)), p), 0), rng)


def make(kind):
    def c(I):
        o = emobj(I, kind)
        n, p, k = o.n, o.p, o.dim + 1
        I.o_n = n
        thr = mul(2, I.real("r"))
        cover_contracts(I, o)
        lift_contract(I)
        milp_contract(I)
        vec = lambda key, e: app("vec", (key, e), "I")
        m = I.int("m", 1) if kind == "toroidal" else const(1)
        c0 = I.int("c", 0)
        at = (lambda t: app("idx", (t,), "I")) if kind == "toroidal" else (lambda t: c0)
        I.fact(forall(0, m, lambda t: and_(le(0, at(t)), lt(at(t), o.K))))
        key = lambda: (tuple(I.loopvars) or (const(0),))[0]

        def vector(I, f, d):
            a, lut, nv = list(d.values())[:3]
            if not isinstance(a, Arr) or len(a.shape) != 2: raise Unsupported("cocycle array")
            (r, j), rng = I.idx(a.shape)
            x = coc(at(key()), r, j, o.dim)
            last = eq(j, o.dim + 1)
            I.ensure("the vector is that of the lifted class", and_(eq(a.shape[0], rows(at(key()), o.dim)), eq(a.shape[1], o.dim + 2),
                     eq(I.read(a, (r, j)), ite(and_(last, lt(sub(p, 1), mul(2, x))), sub(x, p), x))), rng)
            I.ensure("on all landmarks", eq(num(nv), n))
            kk = key()
            return I.arr((count(n, k),), lambda ix: vec(kk, ix[0]), "i")
        I.contracts["utils.CohomologyUtils.sparse_cocycle_to_vector"] = vector
        # the selected class is a cocycle modulo p on the complex (ripser)
        def modp(t):
            vs = [fresh("v") for _ in range(k + 1)]
            cob = add(*[mul(sg, vec(t, facenum(tuple(vs[i] for i in f)))) for f, sg in FACES[k]])
            g = implies(and_(*[lt(a, b) for a, b in zip(vs, vs[1:])] + [short(vs, thr)]), eq(cob, mul(p, fdiv(cob, p))))
            for v in reversed(vs): g = binderv("forall", v, 0, n, g)
            return g
        I.fact(forall(0, m, modp))
        seen = []
        if kind == "cp":
            I.contracts["complexprojectivecoords._is_two_cocycle"] = test_contract(I, n, thr, k, False)
            I.contracts["utils.CohomologyUtils.make_delta2_compact"] = compact_contract(I, n, thr, k, "make_delta2_compact")
            I.contracts["utils.CohomologyUtils.make_delta1"] = lambda I, f, d: I.sparse("B", (count(n, 3), count(n, 2)))
            rec = stop_at(I, "complexprojectivecoords._sparse_integrate")
        else:
            I.contracts[T + "_is_one_cocycle"] = test_contract(I, n, thr, k, True)
            I.contracts["utils.CohomologyUtils.make_delta1_compact"] = compact_contract(I, n, thr, k, "make_delta1_compact")
            I.contracts["utils.CohomologyUtils.make_delta0"] = lambda I, f, d: I.sparse("B", (count(n, 2), n))
            I.contracts[T + "_make_inner_product"] = lambda I, f, d: (I.sparse("Wi", (count(n, 2), count(n, 2))),) * 2

            def integ(I, f, d):
                a, B = list(d.values())[:2]
                judge(I, o, lambda e: I.read(a, (e,)), key(), k, thr, vec)
                seen.append(1)
                lv = tuple(I.loopvars)
                t = I.arr((n,), lambda ix: app("tau", lv + tuple(ix), "R"), "f")
                return (I.arr((count(n, 2),), lambda ix: app("harm", lv + tuple(ix), "R"), "f"), t)
            I.contracts[T + "_integrate_harmonic_representative"] = integ
            rec = stop_at(I, T + "_sparse_integrate")
        f = Bound(I.get(CLASSES[kind][0] + ".get_coordinates"), o)
        try:
            if kind == "toroidal": I.run(f, cocycle_idxs=SymList(m, at), check_cocycle_condition=TRUE)
            else: I.run(f, cocycle_idx=c0, check_cocycle_condition=TRUE)
            I.ensure("the maps are integrated on every path", FALSE)
        except Raised: pass
        if kind == "cp":
            L = getattr(I, "lsqr_calls", [])
            if len(L) != 1 or len(rec) != 1: raise Unsupported("one least squares problem expected")
            nm, A, b, x = L[0]
            rd = x.meta["lsqr"][2]
            I.pc = rec[0][1]
            judge(I, o, lambda e: rd((e,)), const(0), k, thr, vec)
            h, t = list(rec[0][2].values())[:2]
            (e,), rng = I.idx((count(n, 3),))
            I.ensure("the representative is the cocycle minus the coboundary of the primitive",
                     eq(I.read(h, (e,)), sub(rd((e,)), sum_(0, count(n, 2), lambda q: mul(app("B", (e, q), "R"), I.read(t, (q,)))))), rng)
        elif len(seen) < 1: raise Unsupported("_integrate_harmonic_representative is not called")
    return c


for kind in ("toroidal", "circular", "cp"):
    unit(CLASSES[kind][0] + ".get_coordinates", "lift_" + kind)(make(kind))
