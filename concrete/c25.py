from concrete.common import *
from concrete.c10 import loops

P = ProjectiveMapUtils


def frozen(call, args, kw=None):
    before = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    r = call(*args, **(kw or {}))
    for k, (a, b) in enumerate(zip(args, before)):
        if isinstance(a, np.ndarray): check(a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"), "argument %d of %s modified" % (k, getattr(call, "__name__", call)))
    return r


def utils(seed):
    rng = np.random.default_rng(seed)
    n, d = int(rng.integers(4, 9)), int(rng.integers(2, 5))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(n + 1, d))
    S = X / np.linalg.norm(X, axis=1)[:, None]
    D = euclid(X, X)
    C = S + 1j * rng.normal(size=(n, d)); C /= np.linalg.norm(C, axis=1)[:, None]
    th = rng.random(n) * 2 * np.pi
    T = table(n, 3)
    GU, C_, CU = GeometryUtils, CohomologyUtils, CircleMapUtils
    frozen(GU.get_csm, (X, Y)); frozen(GU.get_csm, (X * 3, X * 3 + 0.0)); frozen(GU.get_ssm, (X,)); frozen(GU.get_csm_projarc, (X, Y)); frozen(GU.get_csm_projarc, (S, S))
    frozen(GU.get_greedy_perm_pc, (X, 3)); frozen(GU.get_greedy_perm_dm, (D, 3)); frozen(GU.landmark_geodesic_distance, (X, 3, 3))
    for f in (C_.make_delta0, C_.make_delta1, C_.make_delta1_compact, C_.make_delta2_compact): frozen(f, (D, .8, T))
    coc = np.array([[1, 0, 3], [2, 1, 40], [0, 3, 7]])
    frozen(C_.sparse_cocycle_to_vector, (coc, T, n, int)); frozen(C_.order_simplex, (np.array([2, 0, 1]),)); frozen(C_.parity, (np.array([2, 0, 1]),))
    for f in (PartUnity.linear, PartUnity.quadratic, PartUnity.exp): frozen(f, (th, 9.0))
    for mode in ("direct", "exponential", "one-by-one"):
        frozen(EquivariantPCA.ppca, (S, 1, mode)); frozen(EquivariantPCA.ppca, (C, 1, mode))
        M = S.copy(); M[1] = np.nan
        frozen(EquivariantPCA.ppca, (M, 1, mode))
    frozen(CU.to_sinebow, (th,)); frozen(CU.center, (th,)); frozen(CU.offset, (th, .3)); frozen(CU.linear_combination, (np.array([th, th]), np.array([[1, 2]])))
    frozen(CU.linear_combination, (np.array([th, th]), np.array([1, -2]))); frozen(CU.levelset_coloring, (th,)); frozen(CU.levelset_coloring, (th,), {"smoothing": 0})
    frozen(P.get_stereo_proj_codim1, (S,)); frozen(P.get_stereo_proj_codim1, (S, S[0])); frozen(P.circle_to_3dnorthpole, (np.array([3.0, 4.0]),)); frozen(P.circle_to_3dnorthpole, (np.array([.3, .4]),))
    frozen(P.hopf_map, (C[:, :2],)); frozen(P.rotmat, (X[0], Y[0])); frozen(P.rotmat, (X[0],))
    S3 = rng.normal(size=(6, 3)); S3 /= np.linalg.norm(S3, axis=1)[:, None]
    frozen(P.stereographic_projection_hemispheres, (S3,)); frozen(P.stereographic_projection_hemispheres, (S3, S3[0]))
    Z = rng.normal(size=(5, 2)) + 1j * rng.normal(size=(5, 2)); Z /= np.linalg.norm(Z, axis=1)[:, None]
    frozen(LensMapUtils.lens_3D_to_disk_3D, (Z, 5))


@mon("C25", jit="nojit")
def gen_utils(rng, tier, R):
    for t in range(60 if tier == "quick" else 1000):
        R.case(utils, seed=int(rng.integers(10 ** 6)))


_O = {}


def history(kind, P, dm, prime, reqs):
    X = {"cloud": lambda: P.copy(), "square": lambda: euclid(P, P), "rect": lambda: euclid(P[:max(3, len(P) - 4)], P)}[dm]()
    X0 = X.copy()
    C = {"circ": CircularCoords, "tor": ToroidalCoords, "rp": ProjectiveCoords, "lens": LensCoords, "cp": ComplexProjectiveCoords}[kind]
    k = {} if kind == "rp" else {"prime": prime}
    L = min(len(P) - 4, 14) if kind == "cp" else len(P) - 4
    mk = lambda: C(X, L, distance_matrix=dm != "cloud", **k)

    def ask(o, req):
        r = dict(req)
        if kind == "circ": r["cocycle_idx"] = r.pop("idx")[0]
        elif kind == "tor": r["cocycle_idxs"] = list(r.pop("idx"))
        else: r["cocycle_idx"] = r.pop("idx")[0]; 
        if kind in ("rp", "lens"): r.pop("check_cocycle_condition", None)
        if "bump" in r: r["partunity_fn"] = getattr(PartUnity, r.pop("bump"))
        try:
            mod = CPC if kind == "cp" else TC
            with short_milp(mod):
                return np.asarray(o.get_coordinates(**r))
        except (AttributeError, NameError, TypeError, ValueError):
            raise
        except Exception as e:
            return "exception"
    o = mk()
    first = {}
    for q in reqs + reqs:
        key = json.dumps(enc(q), sort_keys=True)
        a = ask(o, q)
        check(np.array_equal(X, X0), "caller's data modified")
        if key not in first:
            f = ask(mk(), q)
            first[key] = f
        f = first[key]
        if isinstance(f, str) or isinstance(a, str):
            check(isinstance(f, str) and isinstance(a, str), "request answered on one object and refused on another: %s" % q)
            continue
        check(np.array_equal(a, f, equal_nan=True) or (a.shape == f.shape and np.nanmax(np.abs(a - f)) < 1e-9), "the same request gives other coordinates after other requests: %s" % q)


@mon("C25", jit="nojit")
def gen(rng, tier, R):
    for t in range(10 ** 4):
        kind = ["tor", "circ", "rp", "lens", "cp"][t % 5]
        n = int(rng.integers(12, 16))
        m = 2 if kind in ("tor",) else 1 + t % 2
        Pt = loops(rng, n, m)
        if kind == "cp":
            Pt = rng.normal(size=(18, 3)); Pt /= np.linalg.norm(Pt, axis=1)[:, None]
        reqs = []
        for _ in range(2):
            q = {"idx": [0], "perc": float(rng.choice([.3, .5, .9])), "standard_range": bool(rng.integers(2))}
            if kind == "tor": q["idx"] = [[0, 1], [0], [1, 0]][int(rng.integers(3))]
            elif kind == "circ" and m == 2: q["idx"] = [int(rng.integers(2))]
            q["check_cocycle_condition"] = bool(rng.random() < .8)
            reqs.append(q)
        # the first request with another value of one argument
        q = dict(reqs[0])
        names = ["bump", "standard_range", "perc"] + (["proj_dim", "projective_dim_red_mode"] if kind in ("rp", "cp") else ["complex_dim", "projective_dim_red_mode"] if kind == "lens" else ["check_cocycle_condition"])
        w = names[t // 5 % len(names)] if t % 3 else "bump"
        if w in ("proj_dim", "complex_dim"): reqs[0][w] = 2
        q[w] = {"bump": ["exp", "quadratic"][t % 2], "standard_range": not q["standard_range"], "perc": .7, "proj_dim": 1, "complex_dim": 3, "projective_dim_red_mode": ["direct", "one-by-one"][t % 2],
                "check_cocycle_condition": not q["check_cocycle_condition"]}[w]
        reqs.append(q)
        R.case(history, kind=kind, P=Pt, dm=["cloud", "square", "rect"][t // 5 % 3], prime=int([41, 3, 7][t % 3]) if kind != "lens" else 3, reqs=reqs)
