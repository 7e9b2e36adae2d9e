"""Symbolic values: numbers are Terms (or Cx pairs), arrays are views of heap cells."""
import itertools
from . import ir
from .ir import *


class Unsupported(Exception):
    """the construct is outside the verified subset"""


_cells = itertools.count()


# ---------------------------------------------------------------- complex numbers
class Cx:
    """complex number re + i*im; pol = (mag, turn): mag * exp(2*pi*i*turn) when known"""
    __slots__ = ("re", "im", "pol")

    def __init__(s, re, im, pol=None):
        s.re, s.im, s.pol = const(re), const(im), pol

    def __repr__(s):
        return "Cx(%s, %s%s)" % (pp(s.re), pp(s.im), "" if s.pol is None else ", pol=%s" % (s.pol,))


def polar(mag, turn):
    a = mul(2, PI, turn)
    return Cx(mul(mag, cos(a)), mul(mag, sin(a)), (const(mag), const(turn)))


def is_num(x):
    return isinstance(x, (int, float, Term, Cx, complex)) and not isinstance(x, str)


def num(x):
    if isinstance(x, complex):
        if x.imag == 0: return const(x.real)
        return Cx(const(x.real), const(x.imag))
    if isinstance(x, Cx): return x
    return const(x)


def cx(x):
    x = num(x)
    if isinstance(x, Cx): return x
    return Cx(b2i(x), const(0), None)


def _pol(x):
    """polar form of a value if known (non-negative reals count: turn 0)"""
    if isinstance(x, Cx): return x.pol
    return None


def n_add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    return add(a, b)


def n_neg(a):
    a = num(a)
    if isinstance(a, Cx): return Cx(mul(-1, a.re), mul(-1, a.im), None if a.pol is None else (a.pol[0], add(a.pol[1], const(Fraction(1, 2)))))
    return mul(-1, a)


def n_sub(a, b):
    return n_add(a, n_neg(b))


def n_mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        pa, pb = _pol(a), _pol(b)
        pol = None
        if pa and pb: pol = (mul(pa[0], pb[0]), add(pa[1], pb[1]))
        elif pa and not isinstance(b, Cx): pol = (mul(pa[0], b), pa[1])
        elif pb and not isinstance(a, Cx): pol = (mul(pb[0], a), pb[1])
        if pol: return polar(*pol)
        a, b = cx(a), cx(b)
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)), pol)
    return mul(a, b)


def n_conj(a):
    a = num(a)
    if isinstance(a, Cx): return Cx(a.re, mul(-1, a.im), None if a.pol is None else (a.pol[0], mul(-1, a.pol[1])))
    return a


def n_abs2(a):
    a = num(a)
    if isinstance(a, Cx):
        return add(mul(a.re, a.re), mul(a.im, a.im))
    return mul(a, a)


def n_abs(a):
    a = num(a)
    if isinstance(a, Cx):
        if a.pol is not None: return absv(a.pol[0])
        return sqrt(n_abs2(a))
    return absv(a)


def n_div(a, b):
    a, b = num(a), num(b)
    if isinstance(b, Cx):
        pa, pb = _pol(a), _pol(b)
        if pb and (pa or not isinstance(a, Cx)):
            m, t = pa if pa else (a, const(0))
            return polar(div(m, pb[0]), sub(t, pb[1]))
        d = n_abs2(b)
        x = n_mul(a, n_conj(b))
        return Cx(div(x.re, d), div(x.im, d))
    if isinstance(a, Cx):
        return Cx(div(a.re, b), div(a.im, b), None if a.pol is None else (div(a.pol[0], b), a.pol[1]))
    return div(a, b)


def n_real(a):
    a = num(a)
    return a.re if isinstance(a, Cx) else a


def n_imag(a):
    a = num(a)
    return a.im if isinstance(a, Cx) else const(0)


def n_eq(a, b):
    a, b = num(a), num(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return and_(eq(a.re, b.re), eq(a.im, b.im))
    return eq(a, b)


def n_ite(c, a, b):
    c = truth(c)
    if c is TRUE: return num(a)
    if c is FALSE: return num(b)
    a, b = num(a), num(b)
    if a is b: return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        pa, pb = _pol(a), _pol(b)
        if pa is None and not isinstance(a, Cx): pa = (a, const(0))
        if pb is None and not isinstance(b, Cx): pb = (b, const(0))
        pol = (ite(c, pa[0], pb[0]), ite(c, pa[1], pb[1])) if pa and pb else None
        if pol: return polar(*pol)
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im), pol)
    return ite(c, a, b)


def n_subst(a, m):
    if isinstance(a, Cx):
        return Cx(subst(a.re, m), subst(a.im, m), None if a.pol is None else (subst(a.pol[0], m), subst(a.pol[1], m)))
    return subst(num(a), m)


def n_map(a, f):
    """apply a term transformer"""
    if isinstance(a, Cx):
        return Cx(f(a.re), f(a.im), None if a.pol is None else (f(a.pol[0]), f(a.pol[1])))
    return f(num(a))


def n_floor(a):
    return floor(num(a))


def rint(a):
    a = num(a)
    if a.sort == "I": return a
    if isc(a): return const(round(a.val))
    return mk("app", (a,), "I", "rint")


def trunc(a):
    a = num(a)
    if isinstance(a, Cx): raise Unsupported("complex to integer")
    if a.sort in "IB": return b2i(a)
    if isc(a): return const(int(a.val))
    if a.op == "ite": return ite(a.args[0], trunc(a.args[1]), trunc(a.args[2]))
    if a.op == "app" and a.val == "toreal": return a.args[0]
    return mk("app", (a,), "I", "trunc")


# ---------------------------------------------------------------- dimensions
class MaskDim:
    """the dimension of a boolean-mask selection; entries keep the original multi-index"""

    def __init__(s, fn, dims):
        s.fn, s.dims = fn, tuple(dims)
        vs = [var("@m%d" % k) for k in range(len(dims))]
        from . import poly
        s.key = dg(poly.canonB(and_(fn(tuple(vs)), *[and_(le(0, v), lt(v, d)) for v, d in zip(vs, dims)])))

    @property
    def arity(s): return len(s.dims)

    def count(s):
        vs = [fresh("m") for _ in s.dims]
        t = ite(s.fn(tuple(vs)), const(1), const(0))
        for v, d in reversed(list(zip(vs, s.dims))):
            t = binderv("sum", v, 0, d, t)
        return t

    def __repr__(s): return "MaskDim(%s)" % s.key[:6]


def arity(d):
    return d.arity if isinstance(d, MaskDim) else 1


def nidx(shape):
    return sum(arity(d) for d in shape)


def dcount(d):
    return d.count() if isinstance(d, MaskDim) else const(d)


def split_idx(shape, idx):
    out, k = [], 0
    for d in shape:
        out.append(tuple(idx[k:k + arity(d)]))
        k += arity(d)
    return out


# ---------------------------------------------------------------- heap content
class Write:
    """cell[idx] := val(idx) for every idx with idx[k] == pts[k] and cond(idx)"""
    __slots__ = ("pts", "cond", "val", "seq")

    def __init__(s, pts, cond, val):
        s.pts, s.cond, s.val = dict(pts), cond, val

    def when(s, idx):
        return and_(*([eq(idx[k], t) for k, t in s.pts.items()] + [s.cond(idx)]))

    def guarded(s, g):
        c = s.cond
        return Write(s.pts, lambda idx: and_(g, c(idx)), s.val)

    def subst(s, m):
        c, v = s.cond, s.val
        # the substituted variables never occur in idx
        return Write({k: subst(t, m) for k, t in s.pts.items()}, lambda idx: subst(c(idx), m), lambda idx: n_subst(v(idx), m))


class Content:
    __slots__ = ("base", "writes", "memo", "log")

    def __init__(s, base, writes=(), log=None):
        s.base, s.writes, s.memo, s.log = base, tuple(writes), {}, log

    def read(s, idx):
        k = tuple(i.id for i in idx)
        r = s.memo.get(k)
        if r is None and not s.writes and getattr(s.base, "nomemo", False):
            return num(s.base(idx))
        if r is None:
            ws = []
            r = None
            for w in reversed(s.writes):
                c = w.when(idx)
                if c is FALSE: continue
                if c is TRUE:
                    r = num(w.val(idx))
                    break
                ws.append((c, w))
            if r is None:
                r = num(s.base(idx))
            for c, w in reversed(ws):
                r = n_ite(c, w.val(idx), r)
            if not getattr(s.base, "nomemo", False): s.memo[k] = r
        return r

    def plus(s, w):
        return Content(s.base, s.writes + (w,))


class Arr:
    """a view: element at idx is cell[view(idx)]"""
    __slots__ = ("cell", "shape", "view", "dtype", "frozen", "meta")

    def __init__(s, cell, shape, dtype, view=None, frozen=False, meta=None):
        s.cell, s.shape, s.dtype, s.view, s.frozen, s.meta = cell, tuple(shape), dtype, view, frozen, meta or {}

    @property
    def ndim(s): return len(s.shape)

    def __repr__(s): return "Arr#%d%s%s" % (s.cell, s.dtype, s.shape)


class Sparse:
    """sparse matrix as a bag: entry (r,c) = value(r,c) Term function; shape of Terms"""

    def __init__(s, fn, shape, meta=None):
        s.fn, s.shape, s.meta = fn, tuple(shape), meta or {}


class SymList:
    """list of symbolic length; elem(t) gives the value at index t"""

    def __init__(s, length, elem, kind="list"):
        s.length, s.elem, s.kind = const(length), elem, kind


class PyList:
    """a Python list or dict, on the heap: store[('list', id)] holds the tuple of items"""
    __slots__ = ("id",)

    def __init__(s):
        s.id = next(_cells)


class Obj:
    def __init__(s, cls, name="obj"):
        s.id, s.cls, s.name = next(_cells), cls, name


class Func:
    def __init__(s, node, env, module, qual, cls=None, jit=False, static=False):
        s.node, s.env, s.module, s.qual, s.cls, s.jit, s.static = node, env, module, qual, cls, jit, static
        s.frozen_env = None
        s.defaults = None


class Bound:
    def __init__(s, fn, self_): s.fn, s.self = fn, self_


class Cls:
    def __init__(s, node, module, name, bases, members): s.node, s.module, s.name, s.bases, s.members = node, module, name, bases, members

    def find(s, n):
        if n in s.members: return s.members[n]
        for b in s.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None: return r
        return None


class Ext:
    """an external name such as numpy.linalg.norm"""

    def __init__(s, path): s.path = path

    def __repr__(s): return "<%s>" % s.path


class Native:
    """a callable implemented by the engine"""

    def __init__(s, f, name="native"): s.f, s.name = f, name


class Union:
    """one of several values: [(cond, value)], conditions exhaustive and exclusive"""

    def __init__(s, alts): s.alts = alts


class Slice:
    def __init__(s, lo, hi, step): s.lo, s.hi, s.step = lo, hi, step


class Exc:
    def __init__(s, name, args): s.name, s.args = name, args


class Opaque:
    """an external object whose attributes are given by a dict (results of dependencies)"""

    def __init__(s, name, attrs=None): s.name, s.attrs = name, attrs or {}


class LC:
    """contents of a Python list: base (None | SymList | marker) followed by items"""

    def __init__(s, base=None, items=()):
        s.base, s.items = base, tuple(items)


class Fmt(str):
    """a formatted string: the values shown in it"""

    def __new__(cls, text, parts=()):
        o = str.__new__(cls, text)
        o.parts = tuple(parts)
        return o


def shown(x):
    return x.parts if isinstance(x, Fmt) else (() if isinstance(x, str) else (x,))
