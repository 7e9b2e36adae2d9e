"""The same numbers in another form (integer type, single precision, memory order, strides, read-only) give the same result."""
from concrete.common import *

FORMS = {
    "int64": lambda x: x.astype(np.int64), "int32": lambda x: x.astype(np.int32), "float32": lambda x: x.astype(np.float32),
    "fortran": lambda x: np.asfortranarray(x.astype(float)), "strided": lambda x: np.repeat(x.astype(float), 2, axis=-1)[..., ::2],
    "reversed": lambda x: x.astype(float)[::-1].copy()[::-1], "readonly": lambda x: (lambda y: (y.setflags(write=False), y)[1])(x.astype(float)),
    "plain": lambda x: x.astype(float)}


def flat(z):
    if isinstance(z, dict): return [flat(z[k]) for k in sorted(z)]
    if isinstance(z, (tuple, list)): return [flat(k) for k in z]
    return np.asarray(z.toarray() if hasattr(z, "toarray") else z)


def same(x, y, what):
    if isinstance(x, list):
        check(isinstance(y, list) and len(x) == len(y), what)
        for a, b in zip(x, y): same(a, b, what)
        return
    if x.dtype.kind in "USO": return
    close(np.asarray(y, dtype=x.dtype if x.dtype.kind == "c" else float), np.asarray(x, dtype=x.dtype if x.dtype.kind == "c" else float), what, 1e-4)


CALLS = {
    "offset": lambda a: CircleMapUtils.offset(a[0], .3),
    "center": lambda a: CircleMapUtils.center(a[0]),
    "linear_combination": lambda a: CircleMapUtils.linear_combination(a[0], a[1]),
    "to_sinebow": lambda a: CircleMapUtils.to_sinebow(a[0]),
    "levelset_coloring": lambda a: CircleMapUtils.levelset_coloring(a[0]),
    "rotmat": lambda a: ProjectiveMapUtils.rotmat(*a),
    "get_stereo_proj_codim1": lambda a: ProjectiveMapUtils.get_stereo_proj_codim1(*a),
    "hemispheres": lambda a: ProjectiveMapUtils.stereographic_projection_hemispheres(a[0]),
    "hopf_map": lambda a: ProjectiveMapUtils.hopf_map(a[0]),
    "lens": lambda a: LensMapUtils.lens_3D_to_disk_3D(a[0], 3),
    "get_csm": lambda a: GeometryUtils.get_csm(*a),
    "get_ssm": lambda a: GeometryUtils.get_ssm(a[0]),
    "get_csm_projarc": lambda a: GeometryUtils.get_csm_projarc(*a),
    "greedy_pc": lambda a: GeometryUtils.get_greedy_perm_pc(a[0], 4),
    "greedy_dm": lambda a: GeometryUtils.get_greedy_perm_dm(a[0], 4),
    "geodesic": lambda a: GeometryUtils.landmark_geodesic_distance(a[0], 3, 3),
    "linear": lambda a: PartUnity.linear(a[0], 4), "quadratic": lambda a: PartUnity.quadratic(a[0], 4), "exp": lambda a: PartUnity.exp(a[0], 4),
    "ppca_direct": lambda a: np.abs(EquivariantPCA.ppca(a[0], 1, "direct", False)["X"]),
    "ppca_one": lambda a: np.abs(EquivariantPCA.ppca(a[0], 1, "one-by-one", False)["X"]),
    "delta0": lambda a: CohomologyUtils.make_delta0(a[0], 3, table(len(a[0]), 3)), "delta1": lambda a: CohomologyUtils.make_delta1(a[0], 3, table(len(a[0]), 3)),
    "delta1c": lambda a: CohomologyUtils.make_delta1_compact(a[0], 3, table(len(a[0]), 3)), "delta2c": lambda a: CohomologyUtils.make_delta2_compact(a[0], 3, table(len(a[0]), 3)),
}


def forms(name, args, form):
    """the result for the same numbers as contiguous double precision"""
    f = CALLS[name]
    try:
        r = f([FORMS["plain"](x) for x in args])
    except AttributeError:
        raise Skip()        # a name that is gone
    given = [FORMS[form](x) for x in args]
    before = [x.copy() for x in given]
    same(flat(r), flat(f(given)), "%s of %s values differs from that of the same double precision values" % (name, form))
    for x, y in zip(given, before): check(np.array_equal(x, y), "%s modified its argument" % name)


def register(prop, cases):
    """cases(rng) -> [(name, args)] with integer-valued args"""
    def gen(rng, tier, R):
        for _ in range(2 if tier == "quick" else 20):
            for name, args in cases(rng):
                for form in FORMS:
                    if form != "plain": R.case(forms, name=name, args=[np.asarray(x) for x in args], form=form)
    gen.__name__ = "gen_forms"
    mon(prop, jit="nojit")(gen)
