"""C22: geodesic landmark sampling.  d(i, p) is the length of the shortest path from i to p in the neighbour graph; the
sampling loop carries the invariant of C21 over this metric."""
from ..api import *
from ..npmodel import plain
from .c21 import Ghost, Inv, greedy, d, low

F = "utils.GeometryUtils.landmark_geodesic_distance"
LEAN = ["Landmarks.lean"]


def nearest(I, N, X, w, n_neighbors):
    """contracts of scipy: the tree on the points, its nearest neighbours, the sparse matrix of them, its shortest paths"""
    nnd, nni = (lambda i, j: app("nnd", (i, j), "R")), (lambda i, j: app("nni", (i, j), "I"))

    def points(s, a, what):
        if not isinstance(a, Arr): raise Unsupported("%s is not an array" % what)
        I.dims(what, a, (N, w))
        ix, rng = I.idx((N, w))
        I.ensure("%s are the points, in order" % what, eq(num(I.read(a, ix)), app("X", ix, "R")), rng)

    def tree(s, a, **k):
        points(s, a, "points of the tree")

        def query(s, b, k=1, **kw):
            if kw: raise Unsupported("options of the neighbour query")
            points(s, b, "queried points")
            k = num(k)
            I.ensure("as many neighbours as asked for", eq(k, n_neighbors))
            I.K = k
            I.assumed["scipy KDTree.query(X, k=K): row i holds the distances and indices of the K nearest points of point i"] = True
            f = lambda fn: s.arr((N, k), lambda ix: fn(*ix), "f" if fn is nnd else "i")
            I.fact(forall(0, N, lambda i: forall(0, k, lambda j: and_(le(0, nni(i, j)), lt(nni(i, j), N)))))
            return (f(nnd), f(nni))
        return Opaque("tree", {"query": Native(query, "query")})

    def csr(s, data, shape=None, **k):
        if not isinstance(data, tuple) or len(data) != 3 or shape is None: raise Unsupported("sparse matrix in another format")
        K = I.K
        val, col, ptr = data
        shape = s.items(shape)
        I.ensure("one row and one column per point", and_(*[eq(num(x), N) for x in shape]))
        for nm, a, fn in (("distances", val, nnd), ("neighbours", col, nni)):
            I.dims(nm, a, (mul(N, K),))
            ix, rng = I.idx((N, K))
            fl = a.meta.get("flat2")
            if fl is not None and I.same(fl[1], K): t = fl[2](ix)
            else: t = I.read(a, (add(mul(ix[0], K), ix[1]),))
            I.ensure("%s of every point, point by point" % nm, eq(num(t), fn(*ix)), rng)
        I.dims("row starts", ptr, (add(N, 1),))
        (i,), rng = I.idx((add(N, 1),))
        I.ensure("row i starts after i neighbourhoods", eq(num(I.read(ptr, (i,))), mul(i, K)), rng)
        I.assumed["scipy csr_matrix((data, indices, indptr)): row i has the entries indptr[i] to indptr[i + 1]"] = True
        return Opaque("neighbour graph", {"shape": (N, N)})

    def shortest(s, g, method="auto", directed=True, return_predecessors=False, unweighted=False, overwrite=False, indices=None, **k):
        if not (isinstance(g, Opaque) and g.name == "neighbour graph"): raise Unsupported("paths in another graph")
        if k or indices is None: raise Unsupported("options of the path search")
        I.ensure("paths in the undirected graph", not_(truth(directed)))
        I.ensure("edges are weighted by their lengths", not_(truth(unweighted)))
        if truth(return_predecessors) is not FALSE: raise Unsupported("predecessors")
        p = num(indices) if not isinstance(indices, Arr) or indices.shape == () else None
        if p is None: raise Unsupported("several sources")
        I.ensure("paths from a point", and_(le(0, p), lt(p, N)))
        I.assumed["scipy shortest_path: the lengths of the shortest paths of the undirected weighted graph, infinite between components; they are zero from a point to itself and positive otherwise (distinct points)"] = True
        return s.arr((N,), lambda ix: d(p, ix[0]), "f")
    for m in ("scipy.spatial.", "scipy.spatial._kdtree."): I.ext[m + "KDTree"] = I.ext[m + "cKDTree"] = tree
    for m in ("csr_matrix", "csr_array"): I.ext["scipy.sparse." + m] = csr
    I.ext["scipy.sparse.csgraph.shortest_path"] = shortest
    i, j = fresh("i"), fresh("j")
    I.metric = lambda i, j: and_(le(0, d(i, j)), implies(eq(i, j), eq(d(i, j), 0)), implies(not_(eq(i, j)), lt(0, d(i, j))))


@unit(F)
def geodesic(I):
    N, w, M, K = I.int("N", 1), I.int("dim", 1), I.int("M", 1), I.int("K", 1)
    I.fact(le(M, N), le(K, N))
    X = I.inp("X", (N, w))
    nearest(I, N, X, w, K)
    gh = Ghost(N)
    I.loop_inv[F] = lambda I, ctx: Inv(I, gh, M)
    D, perm = I.run(F, X, M, K)
    I.no_raise()
    I.unchanged("points", X, lambda ix: app("X", ix, "R"))
    perm, D = plain(I, perm), plain(I, D)
    P = lambda k: num(I.read(perm, (k,)))
    m, p, k, j, w_ = [fresh(x) for x in "mpkjw"]
    greedy(I, P, N, M, gh)
    # the landmarks are distinct: the first m are at distance zero of themselves, some other point is not
    I.ensure("an earlier landmark is at distance zero", le(low(m, P(k)), 0), [le(1, m), lt(m, M), le(0, k), lt(k, m), le(low(m, P(k)), d(P(k), P(k))), I.metric(P(k), P(k))])
    I.ensure("a point that is no landmark is at positive distance", lt(0, low(m, p)), [le(1, m), lt(m, M), le(0, p), lt(p, N), le(0, j), lt(j, m), eq(low(m, p), d(P(j), p)), not_(eq(P(j), p)), I.metric(P(j), p)])
    I.ensure("landmarks are distinct", not_(eq(P(k), P(m))), [le(1, m), lt(m, M), le(0, k), lt(k, m), le(0, p), lt(p, N), lt(0, low(m, p)), le(low(m, P(k)), 0), le(low(m, p), low(m, P(m)))])
    I.ensure("there is such a point", lt(m, N), [lt(m, M)])
    # the remaining points
    L = lambda k: assume(P(k), lt(k, M), True)
    rest = exists(0, M, lambda k: eq(L(k), p))
    count = sum_(0, N, lambda p: ite(exists(0, M, lambda k: eq(L(k), p)), 0, 1))
    I.ensure("every point is listed once", eq(perm.shape[0], N), [eq(add(count, M), N)])              # rest_count
    I.ensure("the remaining points are no landmarks", not_(exists(0, M, lambda k: eq(L(k), P(m)))), [le(M, m), lt(m, perm.shape[0])])
    I.ensure("the remaining points are in increasing order", lt(P(m), P(add(m, 1))), [le(M, m), lt(add(m, 1), perm.shape[0])])
    rank = [a for a in find_apps(P(m), None) if str(a.val).startswith("sel!")]
    if len(rank) != 1: raise Unsupported("another enumeration of the remaining points")
    at = add(M, app("rank!" + rank[0].val[4:], (p,), "I"))
    I.ensure("every point that is no landmark is listed", and_(le(M, at), lt(at, perm.shape[0]), eq(P(at), p)), [le(0, p), lt(p, N), not_(rest)])
    # the matrix
    I.dims("distances", D, (M, perm.shape[0]))
    I.ensure("row i, column c: the path from landmark i to the point at position c", eq(num(I.read(D, (k, j))), d(P(k), P(j))), [le(0, k), lt(k, M), le(0, j), lt(j, perm.shape[0])])
