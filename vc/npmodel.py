"""Semantics of the Python builtins, numpy and scipy operations that the code under contract uses.

Element-wise operations, reductions, slicing and stores are defined exactly (over the reals and the mathematical integers);
external algorithms (eigh, lsqr, milp, random numbers, ...) are opaque functions with the documented guarantees."""
import ast, itertools
from . import ir, poly, smt
from .ir import *
from .values import *
from .interp import BUILTINS, LC, Raised

ORDER = "bifc"
_uninit = itertools.count()


class View:
    """cell index as a function of the view index; dims: ('pt', t) or ('ax', k, start, step, full)"""

    def __init__(s, dims, shape): s.dims, s.shape = tuple(dims), tuple(shape)

    def __call__(s, idx):
        out = []
        for d in s.dims:
            if d[0] == "pt": out.append(d[1])
            else: out.append(add(d[2], mul(d[3], idx[d[1]])) if d[3] != 1 or not (isc(d[2]) and d[2].val == 0) else idx[d[1]])
        return tuple(out)


class Concat:
    """concatenation of arrays some of which have data-dependent length"""

    def __init__(s, parts, axis): s.parts, s.axis = parts, axis


def plain(s, c):
    """the concatenation as an array: selections by position"""
    if not isinstance(c, Concat): return c
    return np_concatenate(s, tuple(positional(s, p, (c.axis,)) for p in c.parts), const(c.axis))


def ident(a):
    """structured view of an array"""
    if isinstance(a.view, View): return list(a.view.dims)
    if a.view is not None: raise Unsupported("slice of an unstructured view")
    return [("ax", k, const(0), 1, True) for k in range(nidx(a.shape))]


def dtype_of(v):
    if isinstance(v, Arr): return v.dtype
    v = num(v)
    if isinstance(v, Cx): return "c"
    return {"B": "b", "I": "i", "R": "f"}[v.sort]


def isone(d): return not isinstance(d, MaskDim) and isc(const(d)) and const(d).val == 1


def ashape(s, v): return tuple(v.shape) if isinstance(v, Arr) else ()


def broadcast(s, shapes):
    n = max([len(x) for x in shapes] or [0])
    out = []
    for k in range(n):
        cur = None
        for sh in shapes:
            j = k - (n - len(sh))
            if j < 0: continue
            d = sh[j]
            if isone(d) and cur is None: continue
            if isone(d): continue
            if cur is None: cur = d
            elif not s.same(cur, d):
                if isinstance(cur, MaskDim) or isinstance(d, MaskDim): raise Unsupported("masked selections of different extent combined")
                if s.decide(eq(cur, d)) is False: raise Unsupported("operands could not be broadcast together")
                s.oblige("operand shapes agree", eq(cur, d), "shape")
        out.append(const(1) if cur is None else cur)
    return tuple(out)


def breader(s, v, shape):
    """reader of v broadcast to shape"""
    if not isinstance(v, Arr):
        v = num(v)
        return lambda idx: v
    rd = s.reader(v)
    off = len(shape) - len(v.shape)
    plan = []
    pos = 0
    starts = []
    for d in shape:
        starts.append(pos)
        pos += arity(d)
    for j, d in enumerate(v.shape):
        o = shape[off + j]
        if isone(d) and not isone(o): plan.append(None)
        else: plan.extend(range(starts[off + j], starts[off + j] + arity(o)))
    return lambda idx: rd(tuple(const(0) if p is None else idx[p] for p in plan))


def probe(s, f, shape):
    idx = tuple(fresh("p") for _ in range(nidx(shape)))
    return num(f(idx))


def ew(s, f, *args, dtype=None):
    args = [toarr(s, a) for a in args]
    for k, a in enumerate(args):
        if isinstance(a, Union):
            return s.umap(lambda x: ew(s, f, *(args[:k] + [x] + args[k + 1:]), dtype=dtype), a)
    if not any(isinstance(a, Arr) for a in args):
        return f(*[num(a) for a in args])
    shape = broadcast(s, [ashape(s, a) for a in args])
    rds = [breader(s, a, shape) for a in args]
    g = lambda idx: f(*[r(idx) for r in rds])
    if dtype is None:
        p = probe(s, g, shape)
        if isinstance(p, Cx): dtype = "c"
        elif p.sort == "B": dtype = "b"
        elif p.sort == "R" or any(dtype_of(a) in "fc" for a in args): dtype = "f"
        else: dtype = "i"
        if dtype == "i" and s.cellrange:
            rgs = [s.cellrange.get(a.cell) for a in args if isinstance(a, Arr)]
            if all(r is not None for r in rgs):      # numpy keeps the narrow type; Python integers do not widen it
                dtype = max(rgs, key=lambda r: r.range[1])
                oblige_idx(s, "values fit the narrow integer type", shape, lambda idx: fits(dtype, g(idx)), "overflow")
    if shape == (): return g(())
    return s.arr(shape, g, dtype)


def shared(a):
    """the result may or may not share memory with the argument: it can be read but not written"""
    return Arr(a.cell, a.shape, a.dtype, a.view, True, a.meta) if isinstance(a, Arr) else a


def toarr(s, v):
    if isinstance(v, (PyList, tuple, SymList)): return array(s, v)
    return v


def array(s, v, dtype=None, copy=True, **kw):
    """np.array"""
    dt = dtname(dtype)
    if isinstance(v, Union): return s.umap(lambda x: array(s, x, dtype), v)
    if isinstance(v, Arr):
        if (copy is False or copy is FALSE or copy is None) and (dt or v.dtype) == v.dtype: return v
        return convert(s, v, dt or v.dtype)
    if is_num(v):
        v = num(v)
        return v if dt is None else cast(v, dt)
    if isinstance(v, (PyList, SymList)) and s.concrete_iter(v) is None:
        sl = v if isinstance(v, SymList) else s.store[("l", v.id)].base
        if not isinstance(sl, SymList) or (isinstance(v, PyList) and s.store[("l", v.id)].items): raise Unsupported("np.array of a list under construction")
        t = fresh("t")
        e0 = toarr(s, sl.elem(t))
        if isinstance(e0, Concat): raise Unsupported("array of concatenations")
        sh = ashape(s, e0)
        if any(not isinstance(d, MaskDim) and t in fv(d) for d in sh): raise Unsupported("ragged array")

        def fn(idx):
            e = toarr(s, sl.elem(idx[0]))
            return s.reader(e)(tuple(idx[1:])) if isinstance(e, Arr) else num(e)
        if isinstance(e0, Arr):
            rd = s.reader(e0)
            fn0 = lambda idx: n_subst(rd(tuple(idx[1:])), {t: idx[0]})
        else:
            fn0 = lambda idx: n_subst(num(e0), {t: idx[0]})
        d = dt or dtype_of(e0)
        if isinstance(d, DT): oblige_idx(s, "values fit the narrow integer type", (sl.length,) + tuple(sh), lambda idx: fits(d, fn0(idx)), "overflow")
        return s.arr((sl.length,) + tuple(sh), lambda idx: cast(fn0(idx), d), d)
    items = [toarr(s, x) for x in s.items(v)]
    if not items:
        return s.arr((const(0),), lambda idx: const(0, "R"), dt or "f", meta={"empty": True})
    if any(isinstance(x, Union) for x in items): raise Unsupported("array of alternatives")
    shape = ashape(s, items[0])
    for x in items[1:]:
        if len(ashape(s, x)) != len(shape) or not all(s.same(p, q) for p, q in zip(ashape(s, x), shape)): raise Unsupported("ragged array")
    rds = [s.reader(x) if isinstance(x, Arr) else (lambda idx, x=num(x): x) for x in items]
    d = dt or max([dtype_of(x) for x in items], key=ORDER.index)

    if isinstance(d, DT):
        for rd in rds: oblige_idx(s, "values fit the narrow integer type", tuple(shape), lambda idx: fits(d, rd(idx)), "overflow")

    def fn(idx):
        i = idx[0]
        if isc(i) and 0 <= i.val < len(rds): return cast(rds[int(i.val)](idx[1:]), d)
        r = rds[-1](idx[1:])
        for k in range(len(rds) - 2, -1, -1): r = n_ite(eq(i, k), rds[k](idx[1:]), r)
        return cast(r, d)
    return s.arr((const(len(items)),) + tuple(shape), fn, d)


class DT(str):
    """an integer type that does not hold every integer that occurs in practice: its code and its range"""


def narrow(code, name):
    for u, lo in (("uint", 0), ("int", 1)):
        if name.startswith(u):
            bits = name[len(u):]
            if bits in ("8", "16") or u == "uint" and bits in ("32", "64", ""):
                n = int(bits or "64")
                r = DT(code)
                r.range = (0, 2 ** n - 1) if u == "uint" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
                return r
            return code
    if name in ("float32", "float16", "half", "single", "complex64"): raise Unsupported("arithmetic in %s" % name)
    return code


def dtname(d):
    if isinstance(d, DT): return d
    if d is None: return None
    if isinstance(d, str) and d not in ORDER: narrow("i", {"i1": "int8", "i2": "int16", "f4": "float32", "f2": "float16", "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64"}.get(d.lstrip("<>=|"), d))
    if isinstance(d, str) and d not in ORDER and d.lstrip("<>=|") in ("i1", "i2", "u1", "u2", "u4", "u8", "int8", "int16", "uint8", "uint16", "uint32", "uint64"):
        return narrow("i", {"i1": "int8", "i2": "int16", "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64"}.get(d.lstrip("<>=|"), d))
    if isinstance(d, str): return {"int": "i", "float": "f", "complex": "c", "bool": "b"}.get(d, d[0] if d[:1] in ORDER else None)
    if isinstance(d, Native): return {"int": "i", "float": "f", "complex": "c", "bool": "b"}.get(d.name)
    if isinstance(d, Ext):
        n = d.path.split(".")[-1]
        for k, v in (("int", "i"), ("uint", "i"), ("float", "f"), ("complex", "c"), ("bool", "b")):
            if n.startswith(k): return narrow(v, n)
    if isinstance(d, Ext) and d.path.split(".")[-1] in ("half", "single"): narrow("f", "half")
    if isinstance(d, Opaque) and d.name == "dtype": return d.attrs["code"]
    raise Unsupported("dtype %r" % (d,))


def cast(v, d):
    v = num(v)
    if d == "c": return cx(v) if not isinstance(v, Cx) else v
    if isinstance(v, Cx): raise Unsupported("complex value cast to %s" % d)
    if d == "f":
        v = b2i(v)
        return v if v.sort == "R" else toreal(v)
    if d == "i": return trunc(v)
    if d == "b": return truth(v)
    return v


def toreal(v):
    """integers are reals: keep the term (integrality is not lost)"""
    if isc(v): return const(v.val, "R")
    return v


def fits(d, x):
    x = trunc(b2i(num(x)))
    return and_(le(d.range[0], x), le(x, d.range[1]))


def convert(s, a, d):
    rd = s.reader(a)
    if isinstance(d, DT): oblige_idx(s, "values fit the narrow integer type", a.shape, lambda idx: fits(d, rd(idx)), "overflow")
    return s.arr(a.shape, (lambda idx: cast(rd(idx), d)) if d != a.dtype else rd, d, meta=dict(a.meta))


def oblige_idx(s, name, shape, fn, kind="safety"):
    """fn(idx) for every index of the shape"""
    vs = [fresh("q") for _ in range(nidx(shape))]
    g = truth(fn(tuple(vs)))
    if g is TRUE: return
    for grp, d in reversed(list(zip(split_idx(shape, vs), shape))):
        if isinstance(d, MaskDim): g = implies(d.fn(grp), g)
        for v, n in reversed(list(zip(grp, d.dims if isinstance(d, MaskDim) else (d,)))):
            g = binderv("forall", v, 0, n, g)
    s.oblige(name, g, kind)


# ---------------------------------------------------------------- operators
def n_pow(s, a, b):
    a, b = num(a), num(b)
    if isinstance(b, Cx): raise Unsupported("complex exponent")
    if isc(b):
        if b.val.denominator == 1:
            n = int(b.val)
            if isinstance(a, Cx):
                if a.pol: return polar(n_pow(s, a.pol[0], n), mul(n, a.pol[1]))
                if n < 0: raise Unsupported("negative power")
                r = const(1)
                for _ in range(n): r = n_mul(r, a)
                return r
            return power(a, n)
        if b.val == Fraction(1, 2): return sqrt(a)
        raise Unsupported("fractional power")
    if b.sort == "I":
        if isinstance(a, Cx) and a.pol:
            m = a.pol[0]
            if poly.clean(lambda: poly.norm(sub(m, 1))) != {}: raise Unsupported("power of a complex number")
            return polar(1, mul(b, a.pol[1]))
        if not isinstance(a, Cx) and isc(a) and a.val == -1:
            if a.sort == "I": pass
            return ite(eq(fmod(b, 2), 0), const(1, a.sort), const(-1, a.sort))
        if not isinstance(a, Cx) and isc(a) and a.val == 1: return a
    return app("pow", (a if not isinstance(a, Cx) else _no(), b), "R")


def _no(): raise Unsupported("power")


def binop(s, op, a, b):
    k = type(op).__name__
    for x, y, fl in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Union):
            return s.umap(lambda z: binop(s, op, z, y) if not fl else binop(s, op, y, z), x)
    if isinstance(a, str) or isinstance(b, str):
        if type(a) is str and type(b) is str and k == "Add": return a + b
        more = tuple(y for x in (b if isinstance(b, tuple) else (b,)) for y in shown(x))
        return Fmt(a if isinstance(a, str) else b, shown(a) + more)
    if k == "Add" and isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        return s.mklist(tuple(s.items(a)) + tuple(s.items(b)))
    if k == "Mult" and (isinstance(a, PyList) or isinstance(b, PyList)) and (is_num(a) or is_num(b)):
        l, n = (a, b) if isinstance(a, PyList) else (b, a)
        n = num(n)
        if isc(n): return s.mklist(tuple(s.items(l)) * int(n.val))
        it = s.items(l)
        if len(it) == 1: return s.mklist((), SymList(n, lambda t: it[0]))
        raise Unsupported("list repetition")
    if k == "MatMult": return matmul(s, a, b)
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        if k == "Mult" and is_num(b): return sparse_map(a, lambda x: n_mul(x, b))
        if k == "Mult" and is_num(a): return sparse_map(b, lambda x: n_mul(a, x))
        raise Unsupported("sparse operator %s" % k)
    if a is None or b is None: raise Unsupported("arithmetic on None")
    if k == "Add": return ew(s, n_add, a, b)
    if k == "Sub": return ew(s, n_sub, a, b)
    if k == "Mult": return ew(s, n_mul, a, b)
    if k == "Div":
        if getattr(s, "abstract_unit", False) and isinstance(a, Arr) and len(a.shape) == 1 and a.dtype != "c" and isinstance(b, Term):
            u = unit_vector(s, a, b)
            if u is not None: return u
        return ew(s, divr, a, b)
    if k == "Mod": return ew(s, lambda x, y: fmod(real(x), real(y)), a, b)
    if k == "FloorDiv": return ew(s, lambda x, y: fdiv(real(x), real(y)), a, b)
    if k == "Pow":
        if isinstance(b, Arr) and dtype_of(a) in "ib" and b.dtype == "i":
            rd = s.reader(b)
            oblige_idx(s, "integer powers have non-negative exponents", b.shape, lambda idx: le(0, rd(idx)))
        return ew(s, lambda x, y: n_pow(s, x, y), a, b)
    if k == "BitAnd": return ew(s, lambda x, y: and_(x, y), a, b)
    if k == "BitOr": return ew(s, lambda x, y: or_(x, y), a, b)
    if k == "BitXor": return ew(s, lambda x, y: not_(iff(x, y)), a, b)
    raise Unsupported("operator %s" % k)


def unit_vector(s, a, b):
    """a vector divided by its own Euclidean norm: an opaque vector with its defining facts (dropped: nothing)"""
    if not (b.op == "app" and b.val == "sqrt"): return None
    rd, n = s.reader(a), a.shape[0]
    S = b.args[0]
    if not poly.zero(sub(S, sum_(0, n, lambda j: mul(rd((j,)), rd((j,)))))): return None
    k = len(getattr(s, "unit_vectors", []))
    nm = "unit!%d" % k
    u = lambda j: app(nm, (j,), "R")
    old = lambda j: rd((j,))
    m, i = fresh("m"), fresh("i")
    val = rd((i,))
    s.unit_vectors = getattr(s, "unit_vectors", []) + [(nm, lambda j: subst(val, {i: const(j)}), S, n)]
    s.facts.append(implies(lt(0, S), and_(eq(sum_(0, n, lambda j: mul(u(j), u(j))), 1), forall(0, n, lambda j: eq(mul(sqrt(S), u(j)), subst(val, {i: const(j)}))))))
    return s.arr((n,), lambda ix: u(ix[0]), "f")


def divr(x, y):
    r = n_div(x, y)
    return r


def real(x):
    if isinstance(x, Cx): raise Unsupported("complex operand")
    return b2i(x)


def sparse_map(a, f):
    fn = a.fn
    m = {}
    if "bag" in a.meta: m["bag"] = [(vs, c, r, k, f(v)) for vs, c, r, k, v in a.meta["bag"]]
    return Sparse(lambda r, c: f(fn(r, c)), a.shape, m)


def compare(s, op, a, b):
    k = type(op).__name__
    if k in ("Is", "IsNot"):
        r = is_same(s, a, b)
        return r if k == "Is" else not_(r)
    if k in ("In", "NotIn"):
        r = or_(*[s.truth(compare(s, ast.Eq(), a, x)) for x in s.items(b)])
        return r if k == "In" else not_(r)
    for x, y, fl in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Union):
            return s.umap(lambda z: compare(s, op, z, y) if not fl else compare(s, op, y, z), x)
    if isinstance(a, str) or isinstance(b, str):
        r = TRUE if isinstance(a, str) and isinstance(b, str) and a == b else FALSE
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": r, "NotEq": not_(r)}[k]
        return {"Eq": FALSE, "NotEq": TRUE}[k]
    if a is None or b is None:
        r = TRUE if a is None and b is None else FALSE
        return {"Eq": r, "NotEq": not_(r)}[k]
    if isinstance(a, (tuple,)) and isinstance(b, (tuple,)) and k in ("Eq", "NotEq"):
        r = FALSE if len(a) != len(b) else and_(*[s.truth(compare(s, ast.Eq(), x, y)) for x, y in zip(a, b)])
        return r if k == "Eq" else not_(r)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name == "dtype":
        r = TRUE if a.attrs["code"] == b.attrs["code"] else FALSE
        return r if k == "Eq" else not_(r)
    f = {"Eq": n_eq, "NotEq": lambda x, y: not_(n_eq(x, y)), "Lt": lambda x, y: lt(real(x), real(y)), "LtE": lambda x, y: le(real(x), real(y)),
         "Gt": lambda x, y: lt(real(y), real(x)), "GtE": lambda x, y: le(real(y), real(x))}[k]
    return ew(s, f, a, b)


def is_same(s, a, b):
    if isinstance(a, Union): return or_(*[and_(c, is_same(s, v, b)) for c, v in a.alts])
    if isinstance(b, Union): return is_same(s, b, a)
    if a is None or b is None: return TRUE if a is b else FALSE
    a, b = [truth(x) if isinstance(x, bool) else x for x in (a, b)]
    if isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort == "B": return iff(a, b)
    if isinstance(a, Term) and isinstance(b, Term): return FALSE if "B" in (a.sort, b.sort) else eq(a, b)
    return TRUE if a is b else FALSE


# ---------------------------------------------------------------- sums and reductions
def fold(kind, v, d, body):
    return binderv(kind, v, 0, d, body)


def dims_vars(d): return [fresh("s") for _ in range(arity(d))]


def nsum(s, d, f):
    """sum over one dimension; f(group) -> number"""
    if not isinstance(d, MaskDim) and isc(const(d)) and const(d).val <= s.unroll:
        r = const(0)
        for k in range(int(const(d).val)): r = n_add(r, f((const(k),)))
        return r
    vs = dims_vars(d)
    body = num(f(tuple(vs)))

    def one(t):
        t = b2i(t)
        if isinstance(d, MaskDim):
            c = d.fn(tuple(vs))
            t = ite(c, poly.assume(t, c, True), const(0, t.sort))
        for v, n in reversed(list(zip(vs, d.dims if isinstance(d, MaskDim) else (d,)))): t = binderv("sum", v, 0, n, t)
        return t
    if isinstance(body, Cx): return Cx(one(body.re), one(body.im))
    return one(body)


def nquant(s, kind, d, f):
    if not isinstance(d, MaskDim) and isc(const(d)) and const(d).val <= s.unroll:
        ts = [truth(f((const(k),))) for k in range(int(const(d).val))]
        return and_(*ts) if kind == "forall" else or_(*ts)
    vs = dims_vars(d)
    t = truth(f(tuple(vs)))
    if isinstance(d, MaskDim): t = implies(d.fn(tuple(vs)), t) if kind == "forall" else and_(d.fn(tuple(vs)), t)
    for v, n in reversed(list(zip(vs, d.dims if isinstance(d, MaskDim) else (d,)))):
        if v not in fv(t) and s.decide(lt(0, n)): continue
        t = binderv(kind, v, 0, n, t)
    return t


def nextr(s, kind, d, f):
    """maxo/mino/argmax/argmin over one dimension"""
    if isinstance(d, MaskDim): raise Unsupported("extremum over a masked selection")
    d = const(d)
    if isc(d) and d.val <= s.unroll:
        n = int(d.val)
        if n == 0: raise Unsupported("extremum of an empty array")
        vals = [b2i(real(f((const(k),)))) for k in range(n)]
        best, bi = vals[0], const(0)
        for k in range(1, n):
            c = lt(best, vals[k]) if "max" in kind else lt(vals[k], best)
            best, bi = ite(c, vals[k], best), ite(c, const(k), bi)
        return bi if kind.startswith("arg") else best
    s.oblige("extremum over a non-empty range", lt(0, d))
    v = fresh("s")
    return binderv(kind, v, 0, d, b2i(real(f((v,)))))


def reduce(s, a, axis, f, dtype, keepdims=False):
    """f(dim, fn(group)) -> number; reduces one axis or all of them"""
    a = toarr(s, a)
    if not isinstance(a, Arr): a = s.arr((const(1),), lambda idx, a=num(a): a, dtype_of(a))
    rd = s.reader(a)
    n = len(a.shape)
    if isinstance(axis, tuple) and len(axis) == 1: axis = axis[0]
    if axis is None and n == 1: axis = const(0)
    if axis is None:
        def go(k, idx):
            if k == n: return rd(idx)
            return f(a.shape[k], lambda g: go(k + 1, idx + g))
        return go(0, ())
    ax = int(num(axis).val)
    if ax < 0: ax += n
    pos = sum(arity(d) for d in a.shape[:ax])
    shape = a.shape[:ax] + a.shape[ax + 1:]
    g = lambda idx: f(a.shape[ax], lambda grp: rd(tuple(idx[:pos]) + tuple(grp) + tuple(idx[pos:])))
    if not shape: return g(())
    dt = dtype or dtype_of(probe(s, g, shape))
    if dt == "i" and a.dtype == "f" and dtype is None: dt = "f"
    r = s.arr(shape, g, dt)
    if keepdims is TRUE or keepdims is True:
        return subscript(s, r, tuple([Slice(None, None, None)] * ax + [None]))
    return r


def matmul(s, a, b):
    for x, y, fl in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Union):
            return s.umap(lambda z: matmul(s, z, y) if not fl else matmul(s, y, z), x)
    if isinstance(a, (PyList, tuple)): a = array(s, a)
    if isinstance(b, (PyList, tuple)): b = array(s, b)
    if isinstance(a, Sparse) and isinstance(b, Sparse):
        fa, fb, d = a.fn, b.fn, a.shape[1]
        if not s.same(d, b.shape[0]): s.oblige("matrix shapes agree", eq(d, b.shape[0]), "shape")
        return Sparse(lambda r, c: nsum(s, d, lambda g: n_mul(fa(r, g[0]), fb(g[0], c))), (a.shape[0], b.shape[1]), {"prod": (a, b)})
    if isinstance(a, Sparse):
        if not s.same(a.shape[1], b.shape[0]): s.oblige("matrix shapes agree", eq(a.shape[1], b.shape[0]), "shape")
        if len(b.shape) != 1: raise Unsupported("sparse matrix times matrix")
        rd = s.reader(b)
        bag = a.meta.get("bag")
        if bag is not None:
            def fn(idx):
                r = const(0, "R")
                for vs, c, row, col, val in bag:
                    t = ite(and_(c, eq(row, idx[0])), n_mul(val, rd((col,))), const(0, "R"))
                    for v, lo, hi in reversed(vs): t = binderv("sum", v, lo, hi, t)
                    r = add(r, t)
                return r
        elif "rows" in a.meta:
            # each row is given by its entries
            row = a.meta["rows"]
            fn = lambda idx: add(*[n_mul(x, rd((c,))) for c, x in row(idx[0])])
        else:
            fa = a.fn
            fn = lambda idx: nsum(s, a.shape[1], lambda g: n_mul(fa(idx[0], g[0]), rd(g)))
        r = s.arr((a.shape[0],), fn, "f")
        r.meta["matvec"] = (a, b, rd)
        return r
    if isinstance(b, Sparse):
        bag = b.meta.get("bag")
        if len(a.shape) != 1: raise Unsupported("matrix times sparse matrix")
        if not s.same(a.shape[0], b.shape[0]): s.oblige("matrix shapes agree", eq(a.shape[0], b.shape[0]), "shape")
        rd = s.reader(a)
        if bag is not None:
            def fn(idx):
                r = const(0, "R")
                for vs, c, row, col, val in bag:
                    t = ite(and_(c, eq(col, idx[0])), n_mul(val, rd((row,))), const(0, "R"))
                    for v, lo, hi in reversed(vs): t = binderv("sum", v, lo, hi, t)
                    r = add(r, t)
                return r
        else:
            fb = b.fn
            fn = lambda idx: nsum(s, b.shape[0], lambda g: n_mul(rd(g), fb(g[0], idx[0])))
        r = s.arr((b.shape[1],), fn, "f")
        if bag is not None: r.meta["bagvec"] = (b, rd)
        return r
    if not isinstance(a, Arr) or not isinstance(b, Arr): return binop(s, ast.Mult(), a, b)
    m, n = len(a.shape), len(b.shape)
    if m not in (1, 2) or n not in (1, 2): raise Unsupported("product of higher dimensional arrays")
    da, db = a.shape[-1], b.shape[0]
    if not s.same(da, db):
        if isinstance(da, MaskDim) or isinstance(db, MaskDim): raise Unsupported("product over different masked selections")
        if s.decide(eq(da, db)) is False: raise Unsupported("matrix shapes differ")
        s.oblige("matrix shapes agree", eq(da, db), "shape")
    ra, rb = s.reader(a), s.reader(b)
    # sparse by content: vector . (W @ w)
    bv = a.meta.get("bagvec") if m == 1 else None
    if bv is not None and n == 1:
        W, rv = bv
        r = const(0, "R")
        for vs, c, row, col, val in W.meta["bag"]:
            t = ite(c, n_mul(n_mul(rv((row,)), val), rb((col,))), const(0, "R"))
            for v, lo, hi in reversed(vs): t = binderv("sum", v, lo, hi, t)
            r = add(r, t)
        return r
    na = arity(a.shape[0]) if m == 2 else 0
    g = lambda idx: nsum(s, da, lambda grp: n_mul(ra(tuple(idx[:na]) + tuple(grp)), rb(tuple(grp) + tuple(idx[na:]))))
    shape = a.shape[:1] * (m == 2) + b.shape[1:2] * (n == 2)
    if not shape: return g(())
    dt = max(a.dtype, b.dtype, key=ORDER.index)
    return s.arr(shape, g, "i" if dt == "b" else dt)


# ---------------------------------------------------------------- indexing
def norm_index(s, t, d, what="read"):
    """a non-negative index for t along dimension d, with a bounds obligation"""
    t = num(t)
    if isinstance(t, Cx): raise Unsupported("complex index")
    if t.sort == "R":
        t = trunc(t) if not isc(t) else const(int(t.val))
    t = b2i(t)
    if isinstance(d, MaskDim): raise Unsupported("position in a masked selection")
    d = const(d)
    if isc(t):
        if t.val < 0:
            r = add(d, t)
            if not (isc(d) and d.val >= -t.val) and s.decide(le(0, r)) is not True: s.oblige("index in bounds", le(0, r), "bounds")
            return r
        if isc(d):
            if t.val >= d.val: s.oblige("index in bounds", FALSE, "bounds")
        elif s.decide(lt(t, d)) is not True: s.oblige("index in bounds", lt(t, d), "bounds")
        else: s.nsafe = getattr(s, "nsafe", 0) + 1
        return t
    pos = s.decide(le(0, t))
    if pos is True: r = t
    elif pos is False: r = add(d, t)
    else:
        r = t
    if s.decide(and_(le(0, r), lt(r, d))) is not True: s.oblige("index in bounds", and_(le(0, r), lt(r, d)), "bounds")
    else: s.nsafe = getattr(s, "nsafe", 0) + 1
    return r


def slice_bounds(s, sl, d):
    """(start, step, length, full) along dimension d"""
    step = 1 if sl.step is None else int(num(sl.step).val)
    if sl.lo is None and sl.hi is None and step == 1: return const(0), 1, d, True
    if isinstance(d, MaskDim): raise Unsupported("slice of a masked selection")
    d = const(d)

    def nb(x, default):
        if x is None: return default
        x = num(x)
        x = b2i(x)
        if x.sort != "I": x = trunc(x)
        if isc(x) and x.val < 0: return add(d, x)
        if isc(x) and x.val == 0: return x
        p = s.strong(le(0, x))
        if p is True: return x
        if p is False: return imax(const(0), add(d, x))
        return ite(lt(x, 0), imax(const(0), add(d, x)), x)
    if step == 1:
        lo, hi = nb(sl.lo, const(0)), nb(sl.hi, d)
        if hi is not d:
            if s.strong(le(hi, d)) is not True: hi = imin(hi, d)
        ln = sub(hi, lo)
        if not (isc(lo) and lo.val == 0) or True:
            if isc(ln):
                if ln.val < 0: ln = const(0)
            elif s.strong(le(0, ln)) is not True: ln = imax(const(0), ln)
        return lo, 1, ln, False
    if step > 1:
        lo, hi = nb(sl.lo, const(0)), nb(sl.hi, d)
        ln = fdiv(add(sub(hi, lo), step - 1), const(step))
        return lo, step, ln, False
    if step == -1 and sl.lo is None and sl.hi is None:
        return sub(d, 1), -1, d, False
    raise Unsupported("slice")


def parse_index(s, a, ix):
    """list of per-item tuples covering the dimensions of a"""
    items = []
    for x in ix:
        if isinstance(x, Ext) and x.path == "numpy.newaxis": x = None
        if isinstance(x, Union): raise Unsupported("index with alternatives")
        if isinstance(x, (PyList, tuple)): x = array(s, x)
        items.append(x)
    used = sum(0 if x is None or x is Ellipsis else (len(x.shape) if isinstance(x, Arr) and x.dtype == "b" else 1) for x in items)
    if any(x is Ellipsis for x in items):
        k = items.index(Ellipsis)
        items[k:k + 1] = [Slice(None, None, None)] * (len(a.shape) - used)
    else:
        items += [Slice(None, None, None)] * (len(a.shape) - used)
    if used > len(a.shape): raise Unsupported("too many indices")
    return items


def flat_starts(shape):
    out, p = [], 0
    for d in shape:
        out.append(p)
        p += arity(d)
    return out


def basic(s, a, items):
    """view of a by integers, slices and new axes"""
    dims = ident(a)
    st = flat_starts(a.shape)
    shape, remap, pts, k = [], {}, {}, 0
    newpos = 0
    for x in items:
        if x is None:
            shape.append(const(1))
            newpos += 1
            continue
        d = a.shape[k]
        if isinstance(x, Slice):
            lo, step, ln, full = slice_bounds(s, x, d)
            for q in range(arity(d)): remap[st[k] + q] = (newpos + q, lo, step, full)
            shape.append(ln)
            newpos += arity(d)
        else:
            pts[st[k]] = norm_index(s, x, d)
        k += 1
    out = []
    for c in dims:
        if c[0] == "pt": out.append(c)
        else:
            _, j, start, step, full = c
            if j in pts:
                out.append(("pt", add(start, mul(step, pts[j])) if not (isc(start) and start.val == 0 and step == 1) else pts[j]))
            else:
                np_, lo, st2, f2 = remap[j]
                out.append(("ax", np_, add(start, mul(step, lo)), step * st2, full and f2))
    return Arr(a.cell, shape, a.dtype, View(out, shape), a.frozen, {k: v for k, v in a.meta.items() if k == "log"})


def rank_fns(d):
    """position <-> original index of a selection along one axis"""
    nm = "sel!" + d.key
    return (lambda k: app(nm, (k,), "I")), (lambda i: app("rank!" + d.key, (i,), "I"))


def positional(s, a, axes=(0,)):
    """the selected rows by position: origin(k) is the k-th selected index, in increasing order"""
    axes = [k for k in axes if isinstance(a.shape[k], MaskDim)]
    if not axes: return a
    rd = s.reader(a)
    st = flat_starts(a.shape)
    shape, org = list(a.shape), {}
    for k in axes:
        d = a.shape[k]
        if d.arity != 1: raise Unsupported("position in a selection over several axes")
        o, rank = rank_fns(d)
        n, m = d.dims[0], var("count!" + d.key, "I")
        shape[k], org[st[k]] = m, o
        if ("positional", d.key) in s.assumed_once: continue
        s.assumed_once.add(("positional", d.key))
        s.facts.append(eq(m, d.count()))
        s.facts += [le(0, m), le(m, n)]
        s.facts.append(forall(0, m, lambda k: and_(le(0, o(k)), lt(o(k), n), d.fn((o(k),)), eq(rank(o(k)), k))))
        s.facts.append(forall(0, m, lambda k: implies(lt(add(k, 1), m), lt(o(k), o(add(k, 1))))))
        s.facts.append(forall(0, n, lambda i: implies(d.fn((i,)), and_(le(0, rank(i)), lt(rank(i), m), eq(o(rank(i)), i)))))
    r = s.mk(lambda idx: rd(tuple(org[p](t) if p in org else t for p, t in enumerate(idx))), shape, a.dtype, True)
    return r


def subscript(s, v, ix):
    if isinstance(v, Concat): v = plain(s, v)
    ix = tuple(plain(s, x) if isinstance(x, Concat) else x for x in ix)
    if isinstance(v, Union): return s.umap(lambda z: subscript(s, z, ix), v)
    for k, x in enumerate(ix):
        if isinstance(x, Union): return s.umap(lambda z: subscript(s, v, ix[:k] + (z,) + ix[k + 1:]), x)
    if isinstance(v, dict):
        k = ix[0]
        if isinstance(k, Term) and isc(k): k = k.val
        for q, w in v.items():
            if q == k or (isinstance(q, Term) and isc(q) and q.val == k): return w
        raise Unsupported("missing key %r" % (k,))
    if isinstance(v, Opaque) and "getitem" in v.attrs: return v.attrs["getitem"](s, ix)
    if isinstance(v, (tuple, PyList, SymList)):
        x = ix[0]
        if isinstance(v, PyList):
            lc = s.store[("l", v.id)]
            if lc.base is not None:
                if not isinstance(lc.base, SymList) or lc.items: raise Unsupported("indexing a list under construction")
                v = lc.base
            else: v = lc.items
        if isinstance(x, Slice):
            if isinstance(v, SymList): raise Unsupported("slice of a symbolic list")
            g = lambda y: None if y is None else int(num(y).val)
            r = v[slice(g(x.lo), g(x.hi), g(x.step))]
            return tuple(r)
        x = b2i(num(x))
        if isinstance(v, SymList):
            j = norm_index(s, x, v.length)
            return v.elem(j)
        if isc(x):
            if not -len(v) <= x.val < len(v):
                s.oblige("index in bounds", FALSE, "bounds")
                raise Unsupported("list index out of range")
            return v[int(x.val)]
        if not v: raise Unsupported("symbolic index into an empty list")
        s.oblige("index in bounds", and_(le(-len(v), x), lt(x, len(v))), "bounds") if s.decide(and_(le(-len(v), x), lt(x, len(v)))) is not True else None
        r = v[-1]
        for k in range(len(v) - 2, -1, -1):
            r = s.merge_value(or_(eq(x, k), eq(x, k - len(v))), v[k], r, s.store, s.store)
        return r
    if isinstance(v, str): return "<str>"
    if isinstance(v, Term) or isinstance(v, Cx): raise Unsupported("indexing a scalar")
    if not isinstance(v, Arr): raise Unsupported("indexing %r" % (v,))
    items = parse_index(s, v, ix)
    if any(isinstance(d, MaskDim) for d in v.shape):
        axes, k = [], 0
        for x in items:
            if x is None: continue
            if isinstance(x, Arr) and x.dtype == "b":
                k += len(x.shape)
                continue
            if not isinstance(x, Slice) or not (x.lo is None and x.hi is None): axes.append(k)
            k += 1
        v = positional(s, v, axes)
    if not any(isinstance(x, Arr) for x in items):
        r = basic(s, v, items)
        return s.read(v, tuple(items_pt(s, v, items))) if not r.shape and False else (s.reader(r)(()) if not r.shape else r)
    return fancy(s, v, items)


def items_pt(s, v, items): return [num(x) for x in items]


def fancy(s, a, items):
    """copy selected by masks and integer arrays"""
    # plan for every dimension of a
    rd = s.reader(a)
    shape, plan, k = [], [], 0     # plan: functions of the result index giving the flat index of a
    ints = [x for x in items if isinstance(x, Arr) and x.dtype != "b"]
    scal = [x for x in items if is_num(x)]
    bshape = broadcast(s, [x.shape for x in ints]) if ints else None
    ireaders = {id(x): breader(s, x, bshape) for x in ints}
    if ints:
        w = [k for k, x in enumerate(items) if (isinstance(x, Arr) and x.dtype != "b") or is_num(x)]
        if w[-1] - w[0] + 1 != len(w):
            raise Unsupported("separated index arrays")
    placed = False
    pos = 0
    ipos = None
    for x in items:
        if x is None:
            shape.append(const(1))
            pos += 1
            continue
        d = a.shape[k]
        if isinstance(x, Slice):
            lo, step, ln, full = slice_bounds(s, x, d)
            for q in range(arity(d)):
                plan.append((lambda idx, p=pos + q, lo=lo, step=step: add(lo, mul(step, idx[p])) if not (isc(lo) and lo.val == 0 and step == 1) else idx[p]))
            shape.append(ln)
            pos += arity(d)
            k += 1
        elif isinstance(x, Arr) and x.dtype == "b":
            if ints: raise Unsupported("mask mixed with index arrays")
            nd = len(x.shape)
            fn = s.reader(x)
            if nd == 1 and isinstance(d, MaskDim):      # a selection of a selection
                if not (isinstance(x.shape[0], MaskDim) and x.shape[0].key == d.key): raise Unsupported("mask of a masked selection")
                shape.append(MaskDim(lambda g, fn=fn, d=d: and_(d.fn(g), truth(fn(g))), d.dims))
                for q in range(d.arity): plan.append(lambda idx, p=pos + q: idx[p])
                pos += d.arity
                k += 1
                continue
            for j in range(nd):
                if not s.same(x.shape[j], a.shape[k + j]): s.oblige("mask has the shape of the array", eq(x.shape[j], a.shape[k + j]), "shape")
                if isinstance(a.shape[k + j], MaskDim): raise Unsupported("mask of a masked selection")
            md = MaskDim(lambda g, fn=fn: truth(fn(g)), [a.shape[k + j] for j in range(nd)])
            for q in range(nd): plan.append(lambda idx, p=pos + q: idx[p])
            shape.append(md)
            pos += nd
            k += nd
        elif isinstance(x, Arr):
            if not placed:
                ipos = pos
                shape.extend(bshape)
                pos += nidx(bshape)
                placed = True
            r = ireaders[id(x)]
            check_fancy(s, r, bshape, d)
            nb = nidx(bshape)
            plan.append(lambda idx, r=r, ip=ipos, nb=nb, d=d: wrapneg(s, r(tuple(idx[ip:ip + nb])), d))
            k += 1
        else:
            t = norm_index(s, x, d)
            plan.append(lambda idx, t=t: t)
            k += 1
    return s.arr(shape, lambda idx: rd(tuple(p(idx) for p in plan)), a.dtype)


def wrapneg(s, t, d):
    t = b2i(t)
    if isc(t): return t if t.val >= 0 else add(d, t)
    return t


def check_fancy(s, r, bshape, d):
    """integer index arrays must be in bounds (negative constants wrap)"""
    if isinstance(d, MaskDim): raise Unsupported("index array into a masked selection")
    oblige_idx(s, "index array in bounds", bshape, lambda idx: _inb(r(idx), d), "bounds")


def _inb(t, d):
    t = b2i(t)
    if isc(t) and t.val < 0: return le(0, add(d, t))
    return and_(le(0, t), lt(t, d))


def put(s, a, pts, cond, val, point=False):
    """append a write to the cell of a"""
    if a.frozen: raise Unsupported("store into a shared temporary")
    if a.cell in s.input_cells: s.written.append((a.cell, list(s.pc)))
    c = s.store[("c", a.cell)]
    w = Write(pts, cond, val)
    rg = s.cellrange.get(a.cell)
    if rg is not None:
        n = s.cell_arity[a.cell]
        at = tuple(pts[k] if k in pts else fresh("q") for k in range(n))
        inb = and_(le(0, at[0]), lt(at[0], s.cell_len[a.cell])) if n == 1 and a.cell in s.cell_len else TRUE
        s.oblige("values fit the narrow integer type", implies(and_(inb, truth(cond(at))), fits(rg, val(at))), "overflow")
    log = None
    if point and c.log is not None and s.cell_arity[a.cell] == 1:
        log = c.log + (("w", pts[0], num(val((pts[0],)))),)
    s.store[("c", a.cell)] = Content(c.base, c.writes + (w,), log)


def store_view(s, v, val):
    """v[...] = val for a structured view"""
    dims = ident(v)
    val = toarr(s, val)
    if isinstance(val, Union): return store_union(s, lambda x: store_view(s, v, x), val)
    vs = ashape(s, val)
    while len(vs) > len(v.shape) and isone(vs[0]):
        val = basic(s, val, [const(0)] + [Slice(None, None, None)] * (len(vs) - 1))
        vs = val.shape
    if len(vs) > len(v.shape): raise Unsupported("store of a larger array")
    sh = broadcast(s, [v.shape, vs])
    for d, e in zip(sh, v.shape):
        if isone(e) and not isone(d): raise Unsupported("store of a larger array")
    rd = breader(s, val, v.shape)
    if any(isinstance(d, MaskDim) for d in v.shape) and v.view is not None and False: raise Unsupported("store into a masked view")
    dt = s.celldtype[v.cell]
    pts, conds, src = {}, [], {}
    for k, c in enumerate(dims):
        if c[0] == "pt": pts[k] = c[1]
        else:
            _, j, start, step, full = c
            src[j] = (k, start, step)
            if not full:
                ln = flat_len(v.shape, j)
                conds.append((k, start, step, ln))
    nv = nidx(v.shape)

    def back(idx):
        out = []
        for j in range(nv):
            if j not in src: out.append(const(0))
            else:
                k, start, step = src[j]
                t = sub(idx[k], start) if not (isc(start) and start.val == 0) else idx[k]
                out.append(t if step == 1 else mul(-1, t) if step == -1 else fdiv(t, const(step)))
        return tuple(out)

    def cond(idx):
        cs = []
        for k, start, step, ln in conds:
            t = sub(idx[k], start) if not (isc(start) and start.val == 0) else idx[k]
            if step == -1: t = mul(-1, t)
            if abs(step) > 1:
                cs.append(eq(fmod(t, const(step)), 0))
                t = fdiv(t, const(step))
            cs += [le(0, t), lt(t, ln)]
        return and_(*cs)
    put(s, v, pts, cond, lambda idx: cast(rd(back(idx)), dt), point=not v.shape)


def flat_len(shape, j):
    p = 0
    for d in shape:
        if j < p + arity(d): return d.dims[j - p] if isinstance(d, MaskDim) else const(d)
        p += arity(d)


def store_union(s, f, u):
    alts = s.alts(u)
    if len(alts) == 1: return f(alts[0][1])
    pc0, st0 = s.pc, s.store
    res = []
    for c, v in alts:
        s.pc, s.store = pc0 + [c], dict(st0)
        f(v)
        res.append((c, s.store))
    s.store = res[-1][1]
    for c, st in res[-2::-1]: s.merge_store(c, st, s.store)
    s.pc = pc0


def store_all(s, a, val): store_view(s, a, val)


def store_sub(s, v, ix, val):
    if isinstance(v, Union):
        al = s.alts(v)
        if len(al) == 1: return store_sub(s, al[0][1], ix, val)
        raise Unsupported("store into one of several arrays")
    if isinstance(v, dict):
        k = ix[0]
        v[k.val if isinstance(k, Term) and isc(k) else k] = val
        return
    if isinstance(v, PyList):
        lc = s.store[("l", v.id)]
        x = b2i(num(ix[0]))
        if lc.base is not None and isinstance(lc.base, SymList) and not lc.items:
            j = norm_index(s, x, lc.base.length)
            b, st = lc.base, s.store

            def elem(t):
                c = eq(t, j)
                e = b.elem(t)
                if c is TRUE: return val
                if c is FALSE: return e
                return s.merge_value(c, val, e, s.store, s.store)
            new = SymList(b.length, elem)
            new.at = j
            s.store[("l", v.id)] = LC(new, ())
            return
        if lc.base is not None: raise Unsupported("store into a list under construction")
        items = list(lc.items)
        if isc(x):
            if not -len(items) <= x.val < len(items): raise Unsupported("list index out of range")
            items[int(x.val)] = val
        else:
            if s.decide(and_(le(0, x), lt(x, len(items)))) is not True: s.oblige("index in bounds", and_(le(0, x), lt(x, len(items))), "bounds")
            items = [s.merge_value(eq(x, k), val, y, s.store, s.store) for k, y in enumerate(items)]
        s.store[("l", v.id)] = LC(None, items)
        return
    if not isinstance(v, Arr): raise Unsupported("store into %r" % (v,))
    items = parse_index(s, v, ix)
    if not any(isinstance(x, Arr) for x in items):
        return store_view(s, basic(s, v, items), val)
    val = toarr(s, val)
    if isinstance(val, Union): return store_union(s, lambda x: store_sub(s, v, ix, x), val)
    # masks / integer arrays
    dims = ident(v)
    st = flat_starts(v.shape)
    inv = {}
    pts0 = {}
    conds = []
    for k, c in enumerate(dims):
        if c[0] == "pt": pts0[k] = c[1]
        else:
            inv[c[1]] = (k, c[2], c[3])
            if not c[4]: conds.append((k, c[2], c[3], flat_len(v.shape, c[1])))

    def vidx(idx, j):
        k, start, step = inv[j]
        t = sub(idx[k], start) if not (isc(start) and start.val == 0) else idx[k]
        if step == 1: return t
        if step == -1: return mul(-1, t)
        raise Unsupported("strided store")
    shape, parts, k = [], [], 0
    ints = [x for x in items if isinstance(x, Arr) and x.dtype != "b"]
    bshape = broadcast(s, [x.shape for x in ints]) if ints else None
    placed = False
    for x in items:
        if x is None: raise Unsupported("new axis in a store")
        d = v.shape[k]
        if isinstance(x, Slice):
            lo, step, ln, full = slice_bounds(s, x, d)
            if step not in (1, -1): raise Unsupported("strided store")
            for q in range(arity(d)): parts.append(("sl", st[k] + q, lo, step, None if full else ln))
            shape.append(ln)
            k += 1
        elif isinstance(x, Arr) and x.dtype == "b":
            nd = len(x.shape)
            for j in range(nd):
                if not s.same(x.shape[j], v.shape[k + j]): s.oblige("mask has the shape of the array", eq(x.shape[j], v.shape[k + j]), "shape")
            fn = s.reader(x)
            md = MaskDim(lambda g, fn=fn: truth(fn(g)), [v.shape[k + j] for j in range(nd)])
            parts.append(("mask", [st[k + j] for j in range(nd)], fn))
            shape.append(md)
            k += nd
        elif isinstance(x, Arr):
            r = breader(s, x, bshape)
            check_fancy(s, r, bshape, d)
            parts.append(("int", st[k], r, d, not placed))
            if not placed: shape.extend(bshape)
            placed = True
            k += 1
        else:
            parts.append(("pt", st[k], norm_index(s, x, d)))
            k += 1
    shape = tuple(shape)
    vs = ashape(s, val)
    if len(vs) > len(shape): raise Unsupported("store of a larger array")
    for d, e in zip(vs[::-1], shape[::-1]):
        if not isone(d) and not s.same(d, e):
            if isinstance(d, MaskDim) or isinstance(e, MaskDim): raise Unsupported("masked store of a different selection")
            s.oblige("stored array has the shape of its target", eq(d, e), "shape")
    rd = breader(s, val, shape)
    dt = s.celldtype[v.cell]
    ivars = [fresh("w") for _ in range(nidx(bshape))] if ints else []

    def match(idx):
        """(condition without integer arrays, equations of the integer arrays, value index)"""
        cs, eqs, vi = [], [], []
        for p in parts:
            if p[0] == "sl":
                _, j, lo, step, ln = p
                t = sub(vidx(idx, j), lo) if not (isc(lo) and lo.val == 0) else vidx(idx, j)
                if step == -1: t = mul(-1, t)
                if ln is not None: cs += [le(0, t), lt(t, ln)]
                vi.append(t)
            elif p[0] == "mask":
                g = tuple(vidx(idx, j) for j in p[1])
                cs.append(truth(p[2](g)))
                vi += list(g)
            elif p[0] == "int":
                eqs.append(eq(vidx(idx, p[1]), wrapneg(s, p[2](tuple(ivars)), p[3])))
                if p[4]: vi += ivars
            else: cs.append(eq(vidx(idx, p[1]), p[2]))
        for k, start, step, ln in conds:
            t = sub(idx[k], start)
            if step == -1: t = mul(-1, t)
            cs += [le(0, t), lt(t, ln)]
        return and_(*cs), and_(*eqs), tuple(vi)
    if not ints:
        put(s, v, pts0, lambda idx: match(idx)[0], lambda idx: cast(rd(match(idx)[2]), dt))
        return
    if len(ivars) != 1: raise Unsupported("store through a multi-dimensional index array")
    n = bshape[0]
    if isinstance(n, MaskDim): raise Unsupported("store through a masked index array")
    t = ivars[0]
    if isc(n) and n.val <= 4:       # one store per index, all values read before
        for q in range(int(n.val)):
            q = const(q)
            at = lambda x, q=q: n_subst(x, {t: q})
            put(s, v, pts0, lambda idx, q=q: subst(and_(match(idx)[0], match(idx)[1]), {t: q}), lambda idx, at=at: at(cast(rd(match(idx)[2]), dt)))
        return

    def cond(idx):
        c, e, _ = match(idx)
        return and_(c, binderv("exists", t, 0, n, e))

    def value(idx):
        c, e, vi = match(idx)
        x = cast(rd(vi), dt)
        fvs = fv(x.re) | fv(x.im) if isinstance(x, Cx) else fv(x)
        if t not in fvs: return x
        return n_subst(x, {t: binderv("last", t, 0, n, e)})
    put(s, v, pts0, cond, value)


# ---------------------------------------------------------------- attributes and methods
def attribute(s, v, n):
    if isinstance(v, (PyList,)):
        if n == "append": return Native(lambda s, x: s.list_append(v, x), "append")
        if n == "extend": return Native(lambda s, x: s.list_extend(v, x), "extend")
        if n == "copy": return Native(lambda s: s.mklist(s.items(v)), "copy")
        raise Unsupported("list method %s" % n)
    if isinstance(v, dict):
        if n == "items": return Native(lambda s: [tuple(x) for x in v.items()])
        if n in ("keys", "values"): return Native(lambda s: tuple(getattr(v, n)()))
        if n == "get": return Native(lambda s, k, d=None: v.get(k, d))
    if isinstance(v, str):
        return Native(lambda s, *a, **k: Fmt(v, shown(v) + tuple(y for x in list(a) + list(k.values()) for y in shown(x))), "strmethod")
    if isinstance(v, Sparse):
        if n == "shape": return tuple(v.shape)
        if n in ("copy", "tocsr", "tocsc"): return Native(lambda s: v, n)
        if n == "dot": return Native(lambda s, b: matmul(s, v, b), n)
        if n == "T": return Sparse((lambda f: lambda r, c: f(c, r))(v.fn), v.shape[::-1], {"bag": [(a, b, d, c, e) for a, b, c, d, e in v.meta["bag"]]} if "bag" in v.meta else {})
        if n in ("toarray", "todense"): return Native(lambda s: s.arr(v.shape, lambda idx: v.fn(*idx), "f"), n)
        raise Unsupported("sparse attribute %s" % n)
    if isinstance(v, Concat):
        if n == "shape":
            sh = list(v.parts[0].shape)
            sh[v.axis] = add(*[dcount(p.shape[v.axis]) for p in v.parts])
            return tuple(sh)
        raise Unsupported("attribute %s of a concatenation" % n)
    if is_num(v):
        v = num(v)
        if n == "real": return n_real(v)
        if n == "imag": return n_imag(v)
        if n == "T": return v
        if n == "shape": return ()
        if n == "ndim": return const(0)
        if n in ("conj", "conjugate"): return Native(lambda s: n_conj(v))
        if n == "item": return Native(lambda s: v)
        if n == "copy": return Native(lambda s: v)
        raise Unsupported("scalar attribute %s" % n)
    if not isinstance(v, Arr): raise Unsupported("attribute %s of %r" % (n, v))
    if n == "shape": return tuple(dcount(d) for d in v.shape)
    if n == "ndim": return const(len(v.shape))
    if n == "size":
        r = const(1)
        for d in v.shape: r = mul(r, dcount(d))
        return r
    if n == "dtype": return Opaque("dtype", {"code": v.dtype})
    if n == "T":
        k = len(v.shape)
        if k <= 1: return v
        return transpose(s, v)
    if n == "real": return v if v.dtype != "c" else ew(s, n_real, v)
    if n == "imag": return ew(s, n_imag, v)
    if n == "flat": return flatten(s, v)
    M = METHODS.get(n)
    if M is None: raise Unsupported("array attribute %s" % n)
    return Native(lambda s, *a, **k: M(s, v, *a, **k), n)


def transpose(s, v, *axes, **kw):
    v = toarr(s, v)
    if (axes and not (len(axes) == 1 and axes[0] is None)) or kw: raise Unsupported("transpose with axes")
    st = flat_starts(v.shape)
    shape = v.shape[::-1]
    nst = flat_starts(shape)
    k = len(v.shape)
    remap = {}
    for j in range(k):
        for q in range(arity(v.shape[j])): remap[st[j] + q] = nst[k - 1 - j] + q
    dims = [c if c[0] == "pt" else ("ax", remap[c[1]]) + c[2:] for c in ident(v)]
    return Arr(v.cell, shape, v.dtype, View(dims, shape), v.frozen, {})


def flatten(s, v, *a, **k):
    v = toarr(s, v)
    if not isinstance(v, Arr): return s.arr((const(1),), lambda idx: num(v), dtype_of(v))
    rd = s.reader(v)
    keep = [k for k, d in enumerate(v.shape) if not isone(d)]
    st = flat_starts(v.shape)
    n = nidx(v.shape)
    if len(keep) <= 1:
        d = v.shape[keep[0]] if keep else const(1)

        def fn(idx):
            full = [const(0)] * n
            if keep:
                for q in range(arity(d)): full[st[keep[0]] + q] = idx[q]
            return rd(tuple(full))
        return s.arr((d,), fn, v.dtype)
    if len(v.shape) == 2 and not any(isinstance(d, MaskDim) for d in v.shape):
        a, b = v.shape
        return s.arr((mul(a, b),), lambda idx: rd((fdiv(idx[0], b), fmod(idx[0], b))), v.dtype, meta={"flat2": (a, b, rd)})
    raise Unsupported("flatten")


def reshape(s, v, *shape, **kw):
    v = toarr(s, v)
    if len(shape) == 1 and isinstance(shape[0], (tuple, PyList)): shape = tuple(s.items(shape[0]))
    shape = [num(x) for x in shape]
    neg = [k for k, d in enumerate(shape) if isc(d) and d.val == -1]
    rd = s.reader(v)
    old = [k for k, d in enumerate(v.shape) if not isone(d)]
    new = [k for k, d in enumerate(shape) if not isone(d)]
    if neg:
        if len(old) <= 1 and len(new) <= 1: shape[neg[0]] = v.shape[old[0]] if old else const(1)
        else: raise Unsupported("reshape")
    if len(old) == len(new) and all(s.same(v.shape[a], shape[b]) for a, b in zip(old, new)):
        st, nst, n = flat_starts(v.shape), flat_starts([v.shape[old[new.index(k)]] if k in new else const(1) for k in range(len(shape))]), nidx(v.shape)
        sh = [v.shape[old[new.index(k)]] if k in new else const(1) for k in range(len(shape))]

        def fn(idx):
            full = [const(0)] * n
            for a, b in zip(old, new):
                for q in range(arity(v.shape[a])): full[st[a] + q] = idx[nst[b] + q]
            return rd(tuple(full))
        return s.arr(sh, fn, v.dtype)
    if len(old) == len(new) == 1:
        s.oblige("reshape keeps the number of elements", eq(dcount(v.shape[old[0]]), shape[new[0]]), "shape")
    raise Unsupported("reshape")


def astype(s, v, d, copy=True, **k):
    return v if (copy is False or copy is FALSE) and dtname(d) == v.dtype else convert(s, v, dtname(d))


def ravel(s, v, *a, **k):
    """flatten, sharing memory with the argument where numpy can"""
    if isinstance(v, Arr) and len(v.shape) == 1: return v
    return shared(flatten(s, v, *a, **k))


def reshaped(s, v, *shape, **k): return shared(reshape(s, v, *shape, **k))


def copy(s, v, *a, **k):
    if isinstance(v, Arr): return convert(s, v, v.dtype)
    if isinstance(v, Union): return s.umap(lambda x: copy(s, x), v)
    return v


def axisarg(axis): return axis


def m_sum(s, v, axis=None, keepdims=False, **k):
    if isinstance(v, Arr) and v.dtype == "b": return reduce(s, v, axis, lambda d, f: nsum(s, d, f), "i", keepdims)
    return reduce(s, v, axis, lambda d, f: nsum(s, d, f), None, keepdims)


def m_mean(s, v, axis=None, keepdims=False, **k):
    v = toarr(s, v)
    if axis is None and keepdims not in (False, FALSE): raise Unsupported("mean(keepdims=)")
    if axis is None:
        n = const(1)
        for d in v.shape: n = mul(n, dcount(d))
        t = m_sum(s, v)
        return n_div(t, n)
    d = dcount(v.shape[int(num(axis).val)])
    return ew(s, lambda x: n_div(x, d), m_sum(s, v, axis, keepdims))


def m_prod(s, v, axis=None, **k):
    def f(d, g):
        if isinstance(d, MaskDim) or not isc(const(d)): raise Unsupported("product over a symbolic range")
        r = const(1)
        for j in range(int(const(d).val)): r = n_mul(r, g((const(j),)))
        return r
    return reduce(s, v, axis, f, None)


def m_any(s, v, axis=None, **k): return reduce(s, v, axis, lambda d, f: nquant(s, "exists", d, f), "b")
def m_all(s, v, axis=None, **k): return reduce(s, v, axis, lambda d, f: nquant(s, "forall", d, f), "b")
def m_min(s, v, axis=None, keepdims=False, **k): return reduce(s, v, axis, lambda d, f: nextr(s, "mino", d, f), None, keepdims)
def m_max(s, v, axis=None, keepdims=False, **k): return reduce(s, v, axis, lambda d, f: nextr(s, "maxo", d, f), None, keepdims)


def m_arg(kind):
    def g(s, v, axis=None, **k):
        v = toarr(s, v)
        if axis is None and len(v.shape) > 1: raise Unsupported("argmax of a matrix")
        return reduce(s, v, axis, lambda d, f: nextr(s, kind, d, f), "i")
    return g


def m_argsort(s, v, axis=None, kind=None, **k):
    v = toarr(s, v)
    if len(v.shape) != 1: raise Unsupported("argsort of a matrix")
    d = v.shape[0]
    rd = s.reader(v)
    if isc(const(d)):
        n = int(d.val)
        return sort_split(s, [rd((const(j),)) for j in range(n)], v)
    # opaque: a permutation sorting v
    b = fresh("b")
    body = rd((b,))
    fn = lambda idx: opq("argsort", (b,), (poly_canon(body),), (d, idx[0]), "I")
    a = s.arr((d,), fn, "i", meta={"argsort": rd})
    i, j = fresh("q"), fresh("q")
    s.assume(forall(0, d, lambda i: and_(le(0, fn((i,))), lt(fn((i,)), d))), "np.argsort returns a permutation of the indices that sorts its argument")
    s.assume(forall(0, d, lambda i: forall(0, d, lambda j: implies(eq(fn((i,)), fn((j,))), eq(i, j)))))
    s.assume(forall(0, d, lambda i: implies(lt(add(i, 1), d), le(rd((fn((i,)),)), rd((fn((add(i, 1),)),))))))
    s.assume(forall(0, d, lambda i: forall(0, d, lambda j: implies(le(i, j), le(rd((fn((i,)),)), rd((fn((j,)),)))))))
    return a


def poly_canon(t): return t


def sort_split(s, vals, v):
    """argsort of a few values: alternatives, one per order type; values assumed distinct when the path condition says so"""
    n = len(vals)
    if n > 4: raise Unsupported("argsort of %d symbolic values" % n)
    alts = []
    for perm in itertools.permutations(range(n)):
        c = and_(*[(lt if perm[k] > perm[k + 1] else le)(vals[perm[k]], vals[perm[k + 1]]) for k in range(n - 1)])
        if s.decide(c) is False: continue
        alts.append((c, s.arr((const(n),), (lambda perm: lambda idx: const(perm[int(idx[0].val)]) if isc(idx[0]) else _perm(perm, idx[0]))(perm), "i", meta={"perm": perm})))
    if len(alts) == 1: return alts[0][1]
    return Union(alts)


def _perm(perm, i):
    r = const(perm[-1])
    for k in range(len(perm) - 2, -1, -1): r = ite(eq(i, k), const(perm[k]), r)
    return r


def m_tolist(s, v):
    n = v.shape[0]
    if isc(const(n)): return s.mklist([subscript(s, v, (const(k),)) for k in range(int(n.val))])
    a = copy(s, v)
    return s.mklist((), SymList(n, lambda t: subscript(s, a, (t,))))


def m_fill(s, v, x): store_all(s, v, x)


def m_dot(s, a, b): return matmul(s, a, b)


METHODS = {"sum": m_sum, "mean": m_mean, "prod": m_prod, "any": m_any, "all": m_all, "min": m_min, "max": m_max,
           "argmax": m_arg("argmax"), "argmin": m_arg("argmin"), "argsort": m_argsort, "copy": copy, "astype": astype, "flatten": flatten,
           "ravel": ravel, "reshape": reshaped, "transpose": transpose, "dot": m_dot, "conj": lambda s, v: ew(s, n_conj, v),
           "conjugate": lambda s, v: ew(s, n_conj, v), "tolist": m_tolist, "fill": m_fill, "squeeze": lambda s, v: shared(flatten(s, v)) if sum(not isone(d) for d in v.shape) == 1 else _unsup("squeeze"),
           "round": lambda s, v, decimals=None, **k: ew(s, rint, v) if decimals is None or isc(num(decimals)) and num(decimals).val == 0 else _unsup("round to digits"),
           "clip": lambda s, v, lo=None, hi=None, **k: np_clip(s, v, lo, hi), "sort": lambda s, v, axis=None, **k: store_all(s, v, np_sort(s, v)),
           "nonzero": lambda s, v: np_nonzero(s, v)}


def _unsup(t): raise Unsupported(t)


# keyword arguments that do not change what a function returns
HARMLESS = {"order", "kind", "assume_unique", "subok", "check_finite", "casting", "copy", "stable"}


def strict(name, h):
    """a numpy function called with keyword arguments its model does not read is outside the subset; out= stores the result"""
    import inspect
    try: ps = inspect.signature(h).parameters
    except (TypeError, ValueError): return h
    named = {p.name for p in ps.values() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    star = any(p.kind == p.VAR_POSITIONAL for p in ps.values())

    def f(s, *a, **k):
        out = k.pop("out", None)
        for n, v in k.items():
            if n in named or v is None and n not in ("axis", "copy"): continue
            if n not in HARMLESS and n != "keepdims" or n == "keepdims" and v is not False and v is not FALSE: raise Unsupported("%s(%s=)" % (name, n))
            if n == "order" and not (isinstance(v, str) and v in "CKA"): raise Unsupported("%s(order=)" % name)
        if isinstance(out, tuple): out = out[0] if len(out) == 1 else _unsup("several outputs")
        k = {n: v for n, v in k.items() if n in named or n not in HARMLESS and v is not None}
        r = h(s, *a, **k)
        if out is None: return r
        if not isinstance(out, Arr): raise Unsupported("%s(out=)" % name)
        if ORDER.index(dtype_of(r)) > ORDER.index(out.dtype): raise Unsupported("%s(out=) of another type" % name)
        if isinstance(r, Arr): r = copy(s, r)
        store_all(s, out, r)
        return out
    return f


METHODS = {n: strict(n, f) for n, f in METHODS.items()}


# ---------------------------------------------------------------- construction
def shape_arg(s, sh):
    if isinstance(sh, (tuple, PyList)): return tuple(num(x) for x in s.items(sh))
    return (num(sh),)


def nonneg_shape(s, shape):
    for d in shape:
        if not isc(d) and s.decide(le(0, d)) is not True: s.oblige("array dimension is non-negative", le(0, d), "shape")


def full(val):
    def f(s, shape, dtype=None, *a, **k):
        shape = shape_arg(s, shape)
        nonneg_shape(s, shape)
        d = dtname(dtype) or "f"
        z = cast(const(val, "R"), d)
        return s.mk(lambda idx: z, shape, d, log=())
    return f


def np_full(s, shape, v, dtype=None, **k):
    shape = shape_arg(s, shape)
    d = dtname(dtype) or dtype_of(v)
    z = cast(num(v), d)
    return s.mk(lambda idx: z, shape, d, log=())


def np_empty(s, shape, dtype=None, **k):
    shape = shape_arg(s, shape)
    nonneg_shape(s, shape)
    d = dtname(dtype) or "f"
    nm = "uninit!%d" % next(_uninit)
    if d == "c": fn = lambda idx: Cx(app(nm + ".re", idx, "R"), app(nm + ".im", idx, "R"))
    else: fn = lambda idx: app(nm, idx, {"f": "R", "i": "I", "b": "B"}[d])
    return s.mk(fn, shape, d, log=())


def like(val):
    def f(s, a, dtype=None, **k):
        a = toarr(s, a)
        d = dtname(dtype) or a.dtype
        if val is None: return np_empty(s, a.shape, d)
        z = cast(const(val, "R"), d)
        return s.mk(lambda idx: z, a.shape, d, log=())
    return f


def np_eye(s, n, m=None, dtype=None, **k):
    n = num(n)
    m = n if m is None else num(m)
    nonneg_shape(s, (n, m))
    return s.arr((n, m), lambda idx: ite(eq(idx[0], idx[1]), const(1, "R"), const(0, "R")), dtname(dtype) or "f")


def exact_steps(s, d, st):
    """ceil(d / st) when st divides d or d - 1"""
    if isc(st) or s.decide(lt(0, st)) is not True: return None
    poly.reset_side()
    for r in (0, 1):
        q = poly.norm(div(sub(d, r), st))       # st is not zero
        if any(e < 0 for m in q for _, e in m[2]): continue
        t = poly.to_term(q)
        if t.sort == "I": return add(t, r)
    return None


def np_arange(s, a, b=None, step=None, dtype=None, **k):
    lo, hi = (const(0), num(a)) if b is None else (num(a), num(b))
    st = const(1) if step is None else num(step)
    if isc(st) and st.val == 1: n = sub(hi, lo)
    else:
        n = exact_steps(s, sub(hi, lo), st)
        if n is None: n = fdiv(add(sub(hi, lo), sub(st, 1)), st)
    if s.decide(le(0, n)) is not True and not isc(n): n = imax(const(0), n)
    return s.arr((n,), lambda idx: add(lo, mul(st, idx[0])), dtname(dtype) or ("f" if "R" in (lo.sort, st.sort) else "i"))


def np_linspace(s, a, b, num_=None, endpoint=True, **k):
    n = num(k.get("num", 50 if num_ is None else num_))
    a, b = num(a), num(b)
    e = s.truth(endpoint)
    den = sub(n, 1) if e is TRUE else n
    nonneg_shape(s, (n,))
    if e is TRUE and s.decide(lt(1, n)) is not True:
        f = lambda idx: ite(le(n, 1), a, add(a, mul(idx[0], div(sub(b, a), den))))
    else: f = lambda idx: add(a, mul(idx[0], div(sub(b, a), den)))
    return s.arr((n,), f, "f")


def np_meshgrid(s, *xs, indexing="xy", **k):
    xs = [toarr(s, x) for x in xs]
    if len(xs) != 2: raise Unsupported("meshgrid of %d arrays" % len(xs))
    x, y = xs
    rx, ry = s.reader(x), s.reader(y)
    if indexing == "ij":
        sh = (x.shape[0], y.shape[0])
        return s.mklist([s.arr(sh, lambda i: rx((i[0],)), x.dtype), s.arr(sh, lambda i: ry((i[1],)), y.dtype)])
    sh = (y.shape[0], x.shape[0])
    return s.mklist([s.arr(sh, lambda i: rx((i[1],)), x.dtype), s.arr(sh, lambda i: ry((i[0],)), y.dtype)])


def np_outer(s, a, b):
    a, b = flatten(s, a), flatten(s, b)
    ra, rb = s.reader(a), s.reader(b)
    n = arity(a.shape[0])
    return s.arr((a.shape[0], b.shape[0]), lambda i: n_mul(ra(tuple(i[:n])), rb(tuple(i[n:]))), max(a.dtype, b.dtype, key=ORDER.index))


def np_einsum(s, spec, *ops):
    if not isinstance(spec, str) or "->" not in spec or "." in spec: raise Unsupported("einsum without an explicit output")
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    ops = [toarr(s, x) for x in ops]
    if len(ins) != len(ops) or len(set(out)) != len(out): raise Unsupported("einsum operands")
    dim = {}
    for letters, a in zip(ins, ops):
        if len(letters) != len(a.shape): raise Unsupported("einsum operands")
        for l, d in zip(letters, a.shape):
            e = dim.setdefault(l, d)
            if e is d or s.same(e, d): continue
            if isinstance(d, MaskDim) or isinstance(e, MaskDim): raise Unsupported("product over different masked selections")
            # lengths one are broadcast; they are not followed here
            s.oblige("matrix shapes agree", eq(e, d), "shape")
    if any(l not in dim for l in out): raise Unsupported("einsum output")
    rds = [s.reader(a) for a in ops]
    summed = [l for l in dim if l not in out]

    def fn(idx):
        at, n = {}, 0
        for l in out:
            k = arity(dim[l])
            at[l], n = tuple(idx[n:n + k]), n + k

        def go(k, at):
            if k < len(summed): return nsum(s, dim[summed[k]], lambda g: go(k + 1, dict(at, **{summed[k]: tuple(g)})))
            r = None
            for letters, rd in zip(ins, rds):
                x = rd(tuple(q for l in letters for q in at[l]))
                r = x if r is None else n_mul(r, x)
            return r
        return go(0, at)
    if not out: return fn(())
    dt = max([a.dtype for a in ops], key=ORDER.index)
    return s.arr(tuple(dim[l] for l in out), fn, "i" if dt == "b" else dt)


def np_concatenate(s, xs, axis=None, **k):
    parts = [toarr(s, x) for x in s.items(xs)]
    ax = 0 if axis is None else int(num(axis).val)
    if any(isinstance(p, Concat) for p in parts): raise Unsupported("nested concatenation")
    nd = len(parts[0].shape)
    if ax < 0: ax += nd
    for p in parts[1:]:
        if len(p.shape) != nd: raise Unsupported("concatenation of different dimensions")
        for j in range(nd):
            if j != ax and not s.same(p.shape[j], parts[0].shape[j]): s.oblige("concatenated shapes agree", eq(dcount(p.shape[j]), dcount(parts[0].shape[j])), "shape")
    dt = max([p.dtype for p in parts], key=ORDER.index)
    if any(isinstance(p.shape[ax], MaskDim) for p in parts): return Concat(parts, ax)
    offs, tot = [], const(0)
    for p in parts:
        offs.append(tot)
        tot = add(tot, p.shape[ax])
    rds = [s.reader(p) for p in parts]
    pos = sum(arity(d) for d in parts[0].shape[:ax])

    def fn(idx):
        i = idx[pos]
        at = lambda k: rds[k](tuple(idx[:pos]) + (sub(i, offs[k]),) + tuple(idx[pos + 1:]))
        r = at(len(parts) - 1)
        for k in range(len(parts) - 2, -1, -1): r = n_ite(lt(i, offs[k + 1]), at(k), r)
        return cast(r, dt)
    sh = list(parts[0].shape)
    sh[ax] = tot
    a = s.arr(sh, fn, dt)
    a.meta["parts"] = (parts, ax)
    return a


def as2(s, x):
    x = toarr(s, x)
    return subscript(s, x, (None, Slice(None, None, None))) if len(x.shape) == 1 else x


def np_vstack(s, xs, **k): return np_concatenate(s, tuple(as2(s, x) for x in s.items(xs)), const(0))


def np_hstack(s, xs, **k):
    xs = [toarr(s, x) for x in s.items(xs)]
    return np_concatenate(s, tuple(xs), const(0 if len(xs[0].shape) == 1 else 1))


def np_stack(s, xs, axis=0, **k):
    xs = [toarr(s, x) for x in s.items(xs)]
    a = array(s, tuple(xs))
    n = len(xs[0].shape)
    ax = int(num(axis).val)
    if ax < 0: ax += n + 1
    if ax == 0: return a
    rd = s.reader(a)
    st = sum(arity(d) for d in xs[0].shape[:ax])
    sh = xs[0].shape[:ax] + (const(len(xs)),) + xs[0].shape[ax:]
    return s.arr(sh, lambda idx: rd((idx[st],) + tuple(idx[:st]) + tuple(idx[st + 1:])), a.dtype)


def np_flip(ax):
    def f(s, m, axis=None, **k):
        m = toarr(s, m)
        a = ax if axis is None else int(num(axis).val)
        if a is None:
            if len(m.shape) != 1: raise Unsupported("flip of all axes")
            a = 0
        if a < 0: a += len(m.shape)
        return subscript(s, m, tuple([Slice(None, None, None)] * a + [Slice(None, None, const(-1))]))
    return f


def np_nonzero(s, c):
    c = toarr(s, c)
    if len(c.shape) != 1 or isinstance(c.shape[0], MaskDim): raise Unsupported("positions of true entries of a matrix")
    rd = s.reader(c)
    return (s.arr((MaskDim(lambda g: truth(rd(g)), [c.shape[0]]),), lambda ix: ix[0], "i"),)


def np_where(s, c, a=None, b=None):
    if a is None: return np_nonzero(s, c)
    return ew(s, lambda c, x, y: n_ite(truth(c), x, y), c, a, b)


def un(f, dtype=None): return lambda s, x, **k: ew(s, f, x, dtype=dtype)


def r1(g): return lambda x: g(real(x))


def n_cos(x): return cos(real(x))


def n_exp(x):
    x = num(x)
    if isinstance(x, Cx):
        mag = const(1, "R") if poly.clean(lambda: poly.norm(x.re)) == {} else exp(x.re)
        return polar(mag, _twopi(x.im))
    return exp(b2i(x))


def _strip_pi(t):
    """t / pi, syntactically"""
    if t is PI: return const(1, "R")
    if isc(t) and t.val == 0: return t
    if t.op == "*" and PI in t.args:
        k = t.args.index(PI)
        return mul(*(t.args[:k] + t.args[k + 1:]))
    if t.op == "*":
        for k, a in enumerate(t.args):
            if a.op in ("ite", "+"):
                r = _strip_pi(a)
                if r is not None: return mul(*(t.args[:k] + (r,) + t.args[k + 1:]))
    if t.op == "+":
        rs = [_strip_pi(a) for a in t.args]
        return add(*rs) if all(r is not None for r in rs) else None
    if t.op == "ite":
        a, b = _strip_pi(t.args[1]), _strip_pi(t.args[2])
        return ite(t.args[0], a, b) if a is not None and b is not None else None
    return None


def _twopi(t):
    """t / (2 pi) when pi is a factor of t"""
    r = _strip_pi(t)
    if r is not None: return mul(Fraction(1, 2), r)
    p = poly.norm(t)
    q = poly.pmul(p, poly.norm(div(1, mul(2, PI))))
    r = poly.to_term(q, "R")
    return r


def n_angle(z):
    z = num(z)
    if isinstance(z, Cx):
        if z.pol is not None:
            t = z.pol[1]
            # principal value in (-pi, pi]; for modulus zero numpy gives 0
            pv = mul(2, PI, sub(t, mul(-1, floor(sub(const(Fraction(1, 2)), t)))))
            t = add(t, const(Fraction(1, 2)))
            nv = mul(2, PI, sub(t, mul(-1, floor(sub(const(Fraction(1, 2)), t)))))
            return ite(eq(z.pol[0], 0), const(0, "R"), ite(lt(z.pol[0], 0), nv, pv))
        return app("angle", (z.re, z.im), "R")
    return ite(lt(b2i(z), 0), PI, const(0, "R"))


def n_arccos(x): return app("arccos", (real(x),), "R")


def np_clip(s, x, lo=None, hi=None, a_min=None, a_max=None, **k):
    lo, hi = a_min if lo is None else lo, a_max if hi is None else hi
    if lo is not None: x = ew(s, lambda x, a: imax(real(x), real(a)), x, lo)
    return x if hi is None else ew(s, lambda x, b: imin(real(x), real(b)), x, hi)


def np_sort(s, v, axis=None, **k):
    v = toarr(s, v)
    if len(v.shape) != 1: raise Unsupported("sort of a matrix")
    p = m_argsort(s, v)
    return s.umap(lambda q: subscript(s, v, (q,)), p) if isinstance(p, Union) else subscript(s, v, (p,))


def np_append(s, a, b, axis=None, **k):
    a, b = toarr(s, a), toarr(s, b)
    if axis is None: a, b = [flatten(s, x) for x in (a, b)]
    return np_concatenate(s, (a, b), axis)


def np_column_stack(s, xs, **k):
    cols = [toarr(s, x) for x in s.items(xs)]
    return np_concatenate(s, tuple(subscript(s, x, (Slice(None, None, None), None)) if len(x.shape) == 1 else x for x in cols), const(1))


def np_take(s, a, ix, axis=None, **k):
    a = toarr(s, a)
    if axis is None:
        if len(a.shape) != 1: raise Unsupported("take from a flattened matrix")
        axis = const(0)
    ax = int(num(axis).val)
    if ax < 0: ax += len(a.shape)
    return subscript(s, a, tuple([Slice(None, None, None)] * ax + [ix]))


def np_repeat(s, a, n, axis=None, **k):
    a, n = toarr(s, a), num(n)
    if not isinstance(a, Arr): return s.arr((n,), lambda idx: num(a), dtype_of(a))
    if axis is None:
        a = flatten(s, a); ax = 0
    else: ax = int(num(axis).val) % len(a.shape)
    if any(isinstance(d, MaskDim) for d in a.shape): raise Unsupported("repeat of a selection")
    rd = s.reader(a)
    return s.arr(a.shape[:ax] + (mul(a.shape[ax], n),) + a.shape[ax + 1:], lambda idx: rd(tuple(idx[:ax]) + (fdiv(idx[ax], n),) + tuple(idx[ax + 1:])), a.dtype)


def np_tile(s, a, reps, **k):
    a = toarr(s, a)
    reps = [num(x) for x in s.items(reps)] if isinstance(reps, (tuple, PyList)) else [num(reps)]
    if not isinstance(a, Arr): a = s.arr((const(1),), lambda idx, a=a: num(a), dtype_of(a))
    if any(isinstance(d, MaskDim) for d in a.shape) or len(reps) < len(a.shape): raise Unsupported("tile")
    k = len(reps) - len(a.shape)
    rd = s.reader(a)
    sh = (const(1),) * k + tuple(a.shape)
    at = lambda i, d, r: i if isc(r) and r.val == 1 else const(0) if isone(d) else fmod(i, const(d))
    return s.arr(tuple(mul(d, r) for d, r in zip(sh, reps)), lambda idx: rd(tuple(at(idx[j], sh[j], reps[j]) for j in range(k, len(sh)))), a.dtype)


def np_minimum(s, a, b, **k): return ew(s, lambda x, y: imin(real(x), real(y)), a, b)
def np_maximum(s, a, b, **k): return ew(s, lambda x, y: imax(real(x), real(y)), a, b)


def np_norm(s, x, ord=None, axis=None, keepdims=False, **k):
    if ord is not None and not (is_num(ord) and isc(num(ord)) and num(ord).val == 2): raise Unsupported("norm of order")
    sq = ew(s, n_abs2, x)
    if not isinstance(sq, Arr): return sqrt(sq)
    return ew(s, lambda t: sqrt(t), m_sum(s, sq, axis, keepdims))


def isnan(t):
    """NaN is a value of its own"""
    t = num(t)
    if isinstance(t, Cx): return or_(isnan(t.re), isnan(t.im))
    if t is NAN: return TRUE
    if t.op == "ite": return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    if isc(t) or t.sort != "R": return FALSE
    if t.op in ("+", "*", "/"): return or_(*[isnan(x) for x in t.args])
    if t.op == "app":
        if t.val in ("sqrt", "exp", "cos", "sin", "arccos"): return isnan(t.args[0])
        return FALSE
    if t.op == "sum":
        b = isnan(t.args[3])
        return FALSE if b is FALSE else binderv("exists", t.args[0], t.args[1], t.args[2], b)
    return FALSE


def np_isnan(s, x, **k): return ew(s, isnan, x, dtype="b")


def matrix_digest(s, a):
    """(binders, bodies) of a square matrix"""
    n = a.shape[0]
    x, y = fresh("x"), fresh("y")
    v = s.read(a, (x, y))
    bodies = (v.re, v.im) if isinstance(v, Cx) else (b2i(v),)
    return (x, y), bodies


EIGH = itertools.count()


def np_eigh(s, a, *r, **k):
    """eigenvectors of a Hermitian matrix: an opaque function of its entries; may fail to converge"""
    n = a.shape[0]
    bs, bodies = matrix_digest(s, a)
    cplx = len(bodies) == 2
    s.assumed["np.linalg.eigh depends only on the entries of its argument (and may raise)"] = True
    fails = opq("eigh_fails", bs, bodies, (n,), "B")
    pc0 = s.pc
    s.pc = pc0 + [fails]
    s.raises.append((list(s.pc), "LinAlgError", dict(s.store)))
    s.pc = pc0 + [not_(fails)]
    if cplx: fn = lambda idx: Cx(opq("eigh_re", bs, bodies, (n,) + tuple(idx)), opq("eigh_im", bs, bodies, (n,) + tuple(idx)))
    else: fn = lambda idx: opq("eigh", bs, bodies, (n,) + tuple(idx))
    U = s.arr((n, n), fn, "c" if cplx else "f")
    w = s.arr((n,), lambda idx: opq("eigval", bs, bodies, (n,) + tuple(idx)), "f")
    return (w, U)


def np_cholesky(s, a):
    n = a.shape[0]
    bs, bodies = matrix_digest(s, a)
    if len(bodies) != 1: raise Unsupported("complex cholesky")
    fn = lambda idx: ite(lt(idx[0], idx[1]), const(0, "R"), opq("chol", bs, bodies, (n,) + tuple(idx)))
    rd = s.reader(a)
    i, j = fresh("q"), fresh("q")
    s.assume(forall(0, n, lambda i: forall(0, n, lambda j: eq(sum_(0, n, lambda k: mul(fn((i, k)), fn((j, k)))), rd((i, j))))),
             "np.linalg.cholesky returns the lower triangular L with L L^T equal to its argument")
    r = s.arr((n, n), fn, "f", meta={"chol": rd})
    return r


def np_matrix_power(s, a, n):
    n = num(n)
    if isc(n) and n.val >= 0:
        r = np_eye(s, a.shape[0])
        for _ in range(int(n.val)): r = matmul(s, r, a)
        return r
    if s.decide(le(0, n)) is not True: raise Unsupported("matrix power with an unknown sign")
    rd = s.reader(a)
    if s.same(a.shape[0], 2):
        c = rd((const(0), const(0)))
        if isinstance(c, Term) and c.op == "app" and c.val == "cos":
            t = c.args[0]
            want = {(0, 1): mul(-1, sin(t)), (1, 0): sin(t), (1, 1): cos(t)}
            if all(s.same(rd((const(x), const(y))), w) for (x, y), w in want.items()):
                # lean/Power.lean: the n-th power of the plane rotation by t is the rotation by n*t
                u = mul(n, t)
                return s.arr((2, 2), lambda ix: ite(eq(ix[0], ix[1]), cos(u), ite(lt(ix[0], ix[1]), mul(-1, sin(u)), sin(u))), "f")
    bs, bodies = matrix_digest(s, a)
    if len(bodies) == 2: raise Unsupported("symbolic power of a complex matrix")
    return s.arr(a.shape, lambda ix: opq("mpow", bs, bodies, (a.shape[0], n) + tuple(ix)), "f")


RNG = ("g", "rng")


def rng_state(s): return s.store.get(RNG, var("rng_global"))


def random_seed(s, x=None, **k):
    """the global generator: its state is a function of the seed, the draws are functions of the state"""
    if s.in_loop: raise Unsupported("random numbers drawn in a symbolic loop")
    x = k.get("seed", x)
    state = lambda x: fresh("rng") if x is None else app("rng_seed", (num(x),), "I")
    s.assumed["numpy.random: the numbers drawn are a function of the seed and of the shapes drawn since"] = True
    if isinstance(x, Union):
        r = state(x.alts[-1][1])
        for c, y in reversed(x.alts[:-1]): r = ite(c, state(y), r)
    else: r = state(x)
    s.store[RNG] = r
    return None


def random_array(kind):
    def f(s, *shape, **k):
        if kind in ("random",) and shape and isinstance(shape[0], (tuple, PyList)): shape = tuple(s.items(shape[0]))
        if "size" in k: shape = shape_arg(s, k["size"])
        shape = tuple(num(x) for x in shape if x is not None)
        if s.in_loop: raise Unsupported("random numbers drawn in a symbolic loop")
        if any(isinstance(d, MaskDim) for d in shape): raise Unsupported("random numbers for a masked selection")
        nonneg_shape(s, shape)
        st = rng_state(s)
        nm = "rnd!%s%d" % (kind, len(shape))
        s.store[RNG] = app("rng_next!%s%d" % (kind, len(shape)), (st,) + shape, "I")
        if kind == "random":
            vs = [fresh("q") for _ in shape]
            t = app(nm, (st,) + tuple(vs), "R")
            g = and_(le(0, t), lt(t, 1))
            for v, d in reversed(list(zip(vs, shape))): g = binderv("forall", v, 0, d, g)
            s.assume(g, "numpy.random uniform samples lie in [0,1)")
        if not shape: return app(nm, (st,), "R")
        return s.arr(shape, lambda idx: app(nm, (st,) + tuple(idx), "R"), "f", meta={"random": nm})
    return f


def np_histogram(s, x, bins=10, **k):
    x = toarr(s, x)
    if k: raise Unsupported("histogram options")
    n = x.shape[0]
    rd = s.reader(x)
    b = num(bins)
    s.oblige("histogram of a non-empty array", lt(0, dcount(n)))
    s.histograms = getattr(s, "histograms", [])
    nm = "hist%d" % len(s.histograms)
    cnt, edge = (lambda idx: app(nm + "!count", (idx[0],), "I")), (lambda idx: app(nm + "!edge", (idx[0],), "R"))
    s.assumed["np.histogram returns the counts and edges of equal bins from the minimum to the maximum"] = True
    s.histograms = s.histograms + [(rd, b, cnt, edge)]
    return (s.arr((b,), cnt, "i"), s.arr((add(b, 1),), edge, "f"))


def np_isin(s, a, b, assume_unique=False, invert=False, **k):
    b = toarr(s, b)
    if len(b.shape) != 1: raise Unsupported("membership in a matrix")
    rb, n = s.reader(b), b.shape[0]
    if isinstance(n, MaskDim): raise Unsupported("membership in a selection")
    inv = truth(invert) is TRUE

    def one(x):
        r = exists(0, n, lambda t: eq(num(rb((t,))), num(x)))
        return not_(r) if inv else r
    return ew(s, one, a, dtype="b")


def np_setdiff1d(s, a, b, assume_unique=False):
    """values of a that are not in b; with unique input the order of a is kept (a = arange here)"""
    ra, rb = s.reader(a), s.reader(b)
    m = b.shape[0]

    def fn(g):
        t = fresh("t")
        return not_(binderv("exists", t, 0, m, eq(rb((t,)), ra(g))))
    md = MaskDim(fn, [a.shape[0]])
    if s.truth(assume_unique) is not TRUE: s.assumed["np.setdiff1d sorts its result (its first argument is increasing here)"] = True
    return s.arr((md,), lambda idx: ra(idx), a.dtype)


def csr(s, data, shape=None, **k):
    """sparse matrix from (values, (rows, columns)) written by append loops"""
    if isinstance(data, Sparse): return data
    if not isinstance(data, tuple): raise Unsupported("sparse matrix from a dense one")
    if len(data) == 3: return Opaque("csr", {"parts": data, "shape": shape})
    vals, rc = data
    rows, cols = s.items(rc)
    sh = None if shape is None else tuple(num(x) for x in s.items(shape))
    if sh is None:
        # the smallest shape that holds the entries: nothing more is known about it
        sh = (fresh("nrow"), fresh("ncol"))
        for x in sh: s.facts.append(le(0, x))
    return bag_from_logs(s, rows, cols, vals, sh)


def log_of(s, a):
    if not isinstance(a, Arr) or len(a.shape) != 1: raise Unsupported("sparse entries are not a vector")
    v = ident(a)[0]
    if not (v[0] == "ax" and isc(v[2]) and v[2].val == 0 and v[3] == 1): raise Unsupported("sparse entries do not start at the beginning of a buffer")
    c = s.store[("c", a.cell)]
    if c.log is None: raise Unsupported("sparse entries are not written by appending")
    return c.log


def bag_from_logs(s, rows, cols, vals, sh):
    L = [log_of(s, x) for x in (rows, cols, vals)]
    n = rows.shape[0]
    for x in (cols, vals):
        if not s.same(x.shape[0], n): s.oblige("rows, columns and values have the same length", eq(x.shape[0], n), "shape")
    bag, disc = [], []

    def walk(logs, binders, cond, count, rws):
        """-> number of entries appended by these blocks, given count before them"""
        lens = {len(l) for l in logs}
        if len(lens) != 1: raise Unsupported("rows, columns and values are appended differently")
        tot = const(0)
        for es in zip(*logs):
            kinds = {e[0] for e in es}
            if len(kinds) != 1: raise Unsupported("rows, columns and values are appended differently")
            k = es[0][0]

            def rw(t):
                for f in reversed(rws): t = n_map(num(t), f)
                return t
            if k == "w":
                r, c, v = [rw(e[2]) for e in es]
                here = add(count, tot)
                for nm, e in zip(("rows", "columns", "values"), es):
                    disc.append((nm, binders, cond, rw(e[1]), here))
                bag.append((list(binders), cond, r, c, v))
                tot = add(tot, 1)
            elif k == "if":
                q = rw(es[0][1])
                for e in es[1:]:
                    if rw(e[1]) is not q and poly.canonB(rw(e[1])) is not poly.canonB(q): raise Unsupported("rows, columns and values are appended under different conditions")
                sub_ = walk([e[2] for e in es], binders, and_(cond, q), add(count, tot), rws)
                tot = add(tot, ite(q, sub_, const(0)))
            else:
                _, i, lo, hi, _, f = es[0]
                # the three logs come from the same loop
                for e in es[1:]:
                    if e[1] is not i: raise Unsupported("rows, columns and values are appended in different loops")
                lo, hi = rw(lo), rw(hi)
                cell = {}
                # count of one iteration does not depend on the count before it
                base = add(count, tot)
                probe_ = walk_count(es[0][4], rws + [f])
                i2 = fresh("i", "I")
                before = add(base, binderv("sum", i2, lo, i, subst(probe_, {i: i2})))
                walk([e[4] for e in es], binders + [(i, lo, hi)], cond, before, rws + [f])
                i3 = fresh("i", "I")
                tot = add(tot, binderv("sum", i3, lo, hi, subst(probe_, {i: i3})))
        return tot

    def walk_count(log, rws):
        tot = const(0)

        def rw(t):
            for f in reversed(rws): t = n_map(num(t), f)
            return t
        for e in log:
            if e[0] == "w": tot = add(tot, 1)
            elif e[0] == "if": tot = add(tot, ite(rw(e[1]), walk_count(e[2], rws), const(0)))
            else:
                _, i, lo, hi, blocks, f = e
                i3 = fresh("i", "I")
                tot = add(tot, binderv("sum", i3, rw(lo), rw(hi), subst(walk_count(blocks, rws + [f]), {i: i3})))
        return tot
    total = walk(L, [], TRUE, const(0), [])
    hy = list(s.hyps())

    def over(binders, cond, g):
        return hy + [x for v, lo, hi in binders for x in (le(lo, v), lt(v, hi))] + [cond], g
    for nm, binders, cond, pos, here in disc:
        h, g = over(binders, cond, eq(pos, here))
        s.oblige("%s are written at consecutive positions" % nm, g, "append", h)
    s.oblige("the number of entries is the number of writes", eq(n, total), "append")
    for nm, a in (("rows", rows), ("columns", cols), ("values", vals)):
        cap = s.cell_len[a.cell] if hasattr(s, "cell_len") and a.cell in s.cell_len else None
        if cap is not None: s.oblige("the %s buffer is large enough" % nm, le(total, cap), "capacity")
    for binders, cond, r, c, v in bag:
        h, g = over(binders, cond, and_(le(0, r), lt(r, sh[0])))
        s.oblige("row numbers are in range", g, "bounds", h)
        h, g = over(binders, cond, and_(le(0, c), lt(c, sh[1])))
        s.oblige("column numbers are in range", g, "bounds", h)

    def fn(r, c):
        t = const(0, "R")
        for vs, q, row, col, val in bag:
            x = ite(and_(q, eq(row, r), eq(col, c)), val, const(0, "R"))
            for v, lo, hi in reversed(vs): x = binderv("sum", v, lo, hi, x)
            t = add(t, x)
        return t
    return Sparse(fn, sh, {"bag": bag, "total": total})


def sp_identity(s, n, **k):
    n = num(n)
    v = fresh("i")
    return Sparse(lambda r, c: ite(eq(r, c), const(1), const(0)), (n, n), {"bag": [([(v, const(0), n)], TRUE, v, v, const(1, "R"))]})


_ls = itertools.count()


def sp_lsqr(s, A, b, *a, **k):
    """least squares solution: an opaque vector, a function of the arguments"""
    m = A.shape[1]
    nm = "lsqr!%d" % next(_ls)
    s.assumed["scipy.sparse.linalg.lsqr returns some real vector with one entry per column"] = True
    lv = tuple(s.loopvars)
    x = s.arr((m,), lambda idx: app(nm, lv + tuple(idx), "R"), "f", meta={"lsqr": (A, b, s.reader(b) if isinstance(b, Arr) else None)})
    s.lsqr_calls = getattr(s, "lsqr_calls", []) + [(nm, A, b, x)]
    return (x,) + tuple(Opaque("lsqr-info") for _ in range(9))


def sp_milp(s, c, **k):
    """feasibility problem over the integers: on success x is (up to rounding) an integer solution"""
    con = k.get("constraints")
    if isinstance(con, (PyList, tuple)): con = s.items(con)[0]
    A, lb, ub = con.attrs["A"], con.attrs["lb"], con.attrs["ub"]
    nm = "milp!%d" % next(_ls)
    integ = k.get("integrality")
    m = A.shape[1]
    lv = tuple(s.loopvars)
    ok = app(nm + ".ok", lv, "B")
    x = s.arr((m,), lambda idx: app(nm, lv + tuple(idx), "R"), "f")
    att = {"success": ok, "x": x, "A": A, "name": nm, "lb": lb, "ub": ub, "integrality": integ}
    att["getitem"] = lambda s, ix: att[ix[0]]
    o = Opaque("milp", att)
    s.milp_calls = getattr(s, "milp_calls", []) + [o]
    h = getattr(s, "on_milp", None)
    if h: h(s, o)
    return o


def np_unique(s, *a, **k): raise Unsupported("np.unique")


def shape_of(s, x): return attribute(s, toarr(s, x), "shape")


EXT = {}


def reg(names, f):
    for n in names.split(): EXT[n] = f


def npreg(names, f):
    for n in names.split(): EXT["numpy." + n] = strict(n, f) if n not in ("linalg.eigh",) else f


npreg("array", array)
npreg("asarray asanyarray", lambda s, v, dtype=None, **k: array(s, v, dtype, copy=False))
npreg("ascontiguousarray asfarray", lambda s, v, dtype=None, **k: shared(array(s, v, dtype, copy=False)))
npreg("zeros", full(0)); npreg("ones", full(1)); npreg("full", np_full); npreg("empty", np_empty)
npreg("zeros_like", like(0)); npreg("ones_like", like(1)); npreg("empty_like", like(None))
npreg("full_like", lambda s, a, v, dtype=None, **k: np_full(s, toarr(s, a).shape, v, dtype or Opaque("dtype", {"code": toarr(s, a).dtype})))
npreg("eye identity", np_eye); npreg("arange", np_arange); npreg("linspace", np_linspace); npreg("meshgrid", np_meshgrid); npreg("outer", np_outer); npreg("einsum", np_einsum)
npreg("sort", lambda s, v, axis=None, **k: np_sort(s, v)); npreg("append", np_append); npreg("column_stack", np_column_stack); npreg("take", np_take); npreg("repeat", np_repeat); npreg("tile", np_tile)
npreg("concatenate", np_concatenate); npreg("vstack", np_vstack); npreg("hstack", np_hstack); npreg("stack", np_stack)
npreg("fliplr", np_flip(1)); npreg("flipud", np_flip(0)); npreg("flip", np_flip(None)); npreg("where", np_where)
npreg("copy", copy); npreg("transpose", transpose); npreg("ravel", ravel); npreg("reshape", lambda s, a, sh, **k: reshaped(s, a, sh))
npreg("sum", m_sum); npreg("mean", m_mean); npreg("prod", m_prod); npreg("any", m_any); npreg("all", m_all); npreg("max amax", m_max); npreg("min amin", m_min)
npreg("argmax", m_arg("argmax")); npreg("argmin", m_arg("argmin")); npreg("argsort", m_argsort)
npreg("dot matmul", matmul); npreg("isnan", np_isnan); npreg("clip", np_clip); npreg("minimum fmin", np_minimum); npreg("maximum fmax", np_maximum)
npreg("abs absolute fabs", un(n_abs)); npreg("sqrt", un(r1(sqrt))); npreg("exp", un(n_exp)); npreg("cos", un(n_cos)); npreg("sin", un(r1(sin)))
npreg("real", un(n_real)); npreg("imag", un(n_imag)); npreg("conj conjugate", un(n_conj)); npreg("angle", un(n_angle)); npreg("arccos", un(n_arccos))
npreg("square", un(lambda x: n_mul(x, x))); npreg("negative", un(n_neg)); npreg("floor", lambda s, x, **k: ew(s, n_floor, x))
npreg("ceil", lambda s, x, **k: ew(s, lambda t: mul(-1, floor(mul(-1, real(t)))), x))
npreg("rint", lambda s, x, **k: ew(s, rint, x)); npreg("round around", lambda s, x, decimals=None, **k: METHODS["round"](s, toarr(s, x), decimals) if isinstance(toarr(s, x), Arr) else b_round(s, x, decimals)); npreg("trunc fix", lambda s, x, **k: ew(s, trunc, x))
npreg("mod remainder", lambda s, a, b, **k: binop(s, ast.Mod(), a, b)); npreg("power", lambda s, a, b, **k: binop(s, ast.Pow(), a, b))
npreg("add", lambda s, a, b, **k: binop(s, ast.Add(), a, b)); npreg("subtract", lambda s, a, b, **k: binop(s, ast.Sub(), a, b))
npreg("multiply", lambda s, a, b, **k: binop(s, ast.Mult(), a, b)); npreg("divide true_divide", lambda s, a, b, **k: binop(s, ast.Div(), a, b))
npreg("floor_divide", lambda s, a, b, **k: binop(s, ast.FloorDiv(), a, b))
npreg("logical_not", un(lambda x: not_(truth(x)), "b")); npreg("logical_and", lambda s, a, b, **k: ew(s, lambda x, y: and_(truth(x), truth(y)), a, b, dtype="b"))
npreg("logical_or", lambda s, a, b, **k: ew(s, lambda x, y: or_(truth(x), truth(y)), a, b, dtype="b"))
npreg("less", lambda s, a, b, **k: compare(s, ast.Lt(), a, b)); npreg("less_equal", lambda s, a, b, **k: compare(s, ast.LtE(), a, b))
npreg("greater", lambda s, a, b, **k: compare(s, ast.Gt(), a, b)); npreg("greater_equal", lambda s, a, b, **k: compare(s, ast.GtE(), a, b))
npreg("nonzero", np_nonzero); npreg("isin", np_isin); npreg("in1d", np_isin); npreg("flatnonzero", lambda s, c: np_nonzero(s, c)[0]); npreg("histogram", np_histogram); npreg("setdiff1d", np_setdiff1d); npreg("shape", shape_of)
npreg("size", lambda s, a, **k: attribute(s, toarr(s, a), "size")); npreg("isscalar", lambda s, a: TRUE if is_num(a) else FALSE)
npreg("linalg.norm", np_norm); npreg("linalg.eigh", np_eigh); npreg("linalg.cholesky", np_cholesky); npreg("linalg.matrix_power", np_matrix_power)
npreg("random.seed", random_seed)
npreg("random.random random.random_sample random.rand", random_array("random")); npreg("random.randn", random_array("normal"))
npreg("count_nonzero", lambda s, a, axis=None, **k: m_sum(s, ew(s, lambda x: truth(x), a, dtype="b"), axis))
npreg("vdot", lambda s, a, b: matmul(s, ew(s, n_conj, a), b)); npreg("inner", matmul)
reg("scipy.sparse.csr_array scipy.sparse.csr_matrix scipy.sparse.coo_array scipy.sparse.coo_matrix scipy.sparse.csc_array", csr)
reg("scipy.sparse.identity scipy.sparse.eye", sp_identity)
reg("scipy.sparse.linalg.lsqr", sp_lsqr)
reg("scipy.optimize.milp", sp_milp)
reg("scipy.optimize.LinearConstraint", lambda s, A, lb=None, ub=None, **k: Opaque("LinearConstraint", {"A": A, "lb": lb, "ub": ub}))
reg("scipy.optimize.Bounds", lambda s, *a, **k: Opaque("Bounds", {"args": a}))
reg("scipy.special.comb", lambda s, n, k, exact=False, **kw: app("binom", (num(n), num(k)), "I"))
reg("math.comb", lambda s, n, k: app("binom", (num(n), num(k)), "I"))
reg("time.time", lambda s: fresh("time", "R"))
reg("math.sqrt", un(r1(sqrt))); reg("math.floor", lambda s, x: floor(real(num(x))))
reg("copy.deepcopy copy.copy", copy)
reg("numba.prange", lambda s, *a: BUILTINS["range"].f(s, *a))


def attr_ext(path):
    """external constants"""
    return {"numpy.pi": PI, "math.pi": PI, "numpy.inf": INF, "numpy.nan": NAN, "numpy.e": app("e", (), "R")}.get(path)


# ---------------------------------------------------------------- builtins
def b_range(s, *a):
    a = [b2i(num(x)) for x in a]
    lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], const(1)) if len(a) == 2 else a
    return Native((lo, hi, st), "range")


def b_minmax(kind):
    def f(s, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Arr) and not (isc(const(dcount(x.shape[0])))): return m_max(s, x) if kind == "max" else m_min(s, x)
            con = s.concrete_iter(x)
            if con is None:
                lo, hi, at = s.sym_iter(x)
                v = fresh("s")
                s.oblige("extremum over a non-empty range", lt(lo, hi))
                return binderv("maxo" if kind == "max" else "mino", v, lo, hi, b2i(real(at(v))))
            a = con
        r = b2i(real(num(a[0])))
        for x in a[1:]: r = (imax if kind == "max" else imin)(r, b2i(real(num(x))))
        return r
    return f


def b_sum(s, x, start=None):
    if isinstance(x, Arr): return m_sum(s, x, const(0))
    con = s.concrete_iter(x)
    if con is None:
        lo, hi, at = s.sym_iter(x)
        v = fresh("s")
        t = num(at(v))
        if start is not None and not (isc(num(start)) and num(start).val == 0): raise Unsupported("sum with a start")
        return Cx(binderv("sum", v, lo, hi, t.re), binderv("sum", v, lo, hi, t.im)) if isinstance(t, Cx) else binderv("sum", v, lo, hi, b2i(t))
    r = const(0) if start is None else start
    for y in con: r = binop(s, ast.Add(), r, y)
    return r


def b_isinstance(s, v, c):
    if isinstance(v, Union): return or_(*[and_(q, b_isinstance(s, x, c)) for q, x in v.alts])
    cs = s.items(c) if isinstance(c, (tuple, PyList)) else [c]
    r = False
    for k in cs:
        n = k.name if isinstance(k, Native) else k.path.split(".")[-1] if isinstance(k, Ext) else getattr(k, "name", "?")
        if n == "int": r = r or (isinstance(v, Term) and v.sort == "I") or isinstance(v, int)
        elif n in ("integer",): r = r or False
        elif n == "float": r = r or (isinstance(v, Term) and v.sort == "R")
        elif n == "ndarray": r = r or isinstance(v, Arr)
        elif n == "list": r = r or isinstance(v, (PyList, SymList))
        elif n == "tuple": r = r or isinstance(v, tuple)
        elif n == "str": r = r or isinstance(v, str)
        elif n == "dict": r = r or isinstance(v, dict)
        elif isinstance(k, Cls): r = r or (isinstance(v, Obj) and v.cls is k)
        else: raise Unsupported("isinstance of %s" % n)
    return TRUE if r else FALSE


def b_list(s, x=None):
    if x is None: return s.mklist()
    con = s.concrete_iter(x)
    if con is not None: return s.mklist(con)
    lo, hi, at = s.sym_iter(x)
    return s.mklist((), SymList(sub(hi, lo), lambda t: at(add(lo, t))))


def b_tuple(s, x=()):
    if isinstance(x, Arr) and not isc(const(dcount(x.shape[0]))): return SymList(x.shape[0], lambda t: subscript(s, x, (t,)))
    return tuple(s.items(x))


def b_any(s, x):
    con = s.concrete_iter(x)
    if con is not None: return or_(*[s.truth(v) for v in con])
    lo, hi, at = s.sym_iter(x)
    v = fresh("s")
    return binderv("exists", v, lo, hi, s.truth(at(v)))


def b_all(s, x):
    con = s.concrete_iter(x)
    if con is not None: return and_(*[s.truth(v) for v in con])
    lo, hi, at = s.sym_iter(x)
    v = fresh("s")
    return binderv("forall", v, lo, hi, s.truth(at(v)))


def unzip(s, v):
    lc = v if isinstance(v, SymList) else s.store[("l", v.id)].base
    if not isinstance(lc, SymList): raise Unsupported("zip(*list) of a list under construction")
    w = len(s.items(lc.elem(fresh("t"))))
    return tuple(SymList(lc.length, (lambda k: lambda t: s.items(lc.elem(t))[k])(k)) for k in range(w))


def b_int(s, x=None, *a):
    if isinstance(x, str): raise Unsupported("int of a string")
    if isinstance(x, Arr): x = s.read(x, tuple(const(0) for _ in x.shape))
    return trunc(x)


def b_float(s, x=None):
    if isinstance(x, str): return INF if x.lower() == "inf" else NAN if x.lower() == "nan" else _no()
    if isinstance(x, Arr): x = s.read(x, tuple(const(0) for _ in x.shape))
    x = real(num(x))
    return const(x.val, "R") if isc(x) else x


def b_round(s, x, nd=None):
    if nd is not None: raise Unsupported("round to digits")
    return ew(s, rint, x)


def b_reversed(s, x): return Native((x,), "reversed")


def B(name, f): BUILTINS[name] = Native(f, name)


def b_hasattr(s, o, n):
    if not isinstance(o, Obj): raise Unsupported("hasattr of %r" % (o,))
    v = s.store.get(("a", o.id, n))
    if v is None: return TRUE if o.cls is not None and o.cls.find(n) is not None else FALSE
    from .interp import UNSET
    return not_(or_(*[c for c, x in v.alts if x is UNSET])) if isinstance(v, Union) else TRUE


def b_getattr(s, o, n, *d):
    if d and isinstance(o, Obj):
        v = s.store.get(("a", o.id, n))
        if v is None: return d[0] if o.cls is None or o.cls.find(n) is None else s.getattr(o, n)
        return s.certain(v, "AttributeError", d)
    return s.getattr(o, n)


B("range", b_range); B("len", lambda s, v: s.umap(lambda x: s.length(x), v) if isinstance(v, Union) else s.length(v))
B("abs", lambda s, v: ew(s, n_abs, v)); B("min", b_minmax("min")); B("max", b_minmax("max")); B("sum", b_sum)
B("round", b_round); B("int", b_int); B("float", b_float); B("complex", lambda s, a, b=0: Cx(num(a), num(b)))
B("bool", lambda s, v=None: s.truth(v)); B("isinstance", b_isinstance); B("list", b_list); B("tuple", b_tuple)
B("str", lambda s, *a: Fmt("<str>", [y for x in a for y in shown(x)])); B("repr", lambda s, *a: Fmt("<str>", [y for x in a for y in shown(x)])); B("print", lambda s, *a, **k: None); B("any", b_any); B("all", b_all)
B("enumerate", lambda s, x, start=0: Native((x,) if isc(num(start)) and num(start).val == 0 else (x, b2i(num(start))), "enumerate")); B("zip", lambda s, *a: Native(tuple(a), "zip")); B("reversed", b_reversed)
B("pow", lambda s, a, b: binop(s, ast.Pow(), a, b)); B("divmod", lambda s, a, b: (binop(s, ast.FloorDiv(), a, b), binop(s, ast.Mod(), a, b)))
B("slice", lambda s, *a: Slice(*( (None,) + a + (None,) if len(a) == 1 else tuple(a) + (None,) * (3 - len(a)))))
B("dict", lambda s, **k: dict(k)); B("iter", lambda s, x: x)
B("hasattr", b_hasattr); B("getattr", b_getattr); B("type", lambda s, o: Opaque("type"))
for _e in ("Exception", "ValueError", "TypeError", "RuntimeError", "AssertionError", "IndexError", "KeyError", "NotImplementedError", "UserWarning", "DeprecationWarning", "RuntimeWarning"):
    BUILTINS[_e] = Native((lambda n: lambda s, *a, **k: Exc(n, a))(_e), _e)
BUILTINS.update({"object": Native(lambda s: Opaque("object"), "object"), "staticmethod": Native(lambda s, f: f, "staticmethod"), "Ellipsis": Ellipsis,
                 "__name__": "module", "property": Native(lambda s, f: f, "property")})
