"""Terms of the verification-condition language (hash-consed).

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans).
Binder operators:
  sum/argmax/argmin/maxo/mino/first/last  args = (v, lo, hi, body)      v ranges over lo <= v < hi
  forall/exists                           args = (v, lo, hi, body)      lo/hi may be None (unbounded)
  opq   val=(name, nbind, nbody)          args = binders + bodies + rest   opaque functional of whole arrays
"""
from fractions import Fraction
import hashlib, itertools

_tab = {}
_ids = itertools.count()


class Term:
    __slots__ = ("op", "args", "sort", "val", "id", "_fv", "_dg")

    def __init__(s, op, args, sort, val):
        s.op, s.args, s.sort, s.val = op, args, sort, val
        s.id = next(_ids)
        s._fv = None
        s._dg = None

    def __repr__(s):
        return pp(s)

    # arithmetic sugar (numbers allowed)
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return mul(-1, s)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __bool__(s):
        raise TypeError("symbolic boolean used as a Python truth value: %s" % pp(s))


def mk(op, args=(), sort="I", val=None):
    k = (op, sort, val, tuple(a.id for a in args))
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = Term(op, tuple(args), sort, val)
    return t


class Bnone:
    pass


NONE = mk("none", (), "I")
BIND1 = ("sum", "argmax", "argmin", "maxo", "mino", "first", "last", "forall", "exists")


def const(x, sort=None):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk("const", (), sort or "I", Fraction(x))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else mul(-1, INF)
        return mk("const", (), sort or "R", Fraction(repr(x)) if "e" not in repr(x) else Fraction(x))
    if isinstance(x, Fraction):
        return mk("const", (), sort or ("I" if x.denominator == 1 else "R"), x)
    # numpy scalars are not expected here
    raise TypeError("not a term: %r" % (x,))


TRUE = mk("const", (), "B", True)
FALSE = mk("const", (), "B", False)


def var(name, sort="I"):
    return mk("var", (), sort, name)


NAN = var("NaN", "R")
INF = var("Inf", "R")
PI = var("pi", "R")
_fresh = itertools.count()


def fresh(pref="v", sort="I"):
    return var("%s!%d" % (pref, next(_fresh)), sort)


def isc(t):
    return t.op == "const"


def app(name, args, sort="R"):
    return mk("app", tuple(const(a) for a in args), sort, name)


def _arith_sort(ts):
    return "R" if any(t.sort == "R" for t in ts) else "I"


def b2i(t):
    """booleans used as numbers"""
    return ite(t, const(1), const(0)) if t.sort == "B" else t


def add(*ts):
    ts = [b2i(const(t)) for t in ts]
    s = _arith_sort(ts)
    out, c = [], Fraction(0)
    for t in ts:
        if t.op == "+":
            for u in t.args:
                if isc(u): c += u.val
                else: out.append(u)
        elif isc(t):
            c += t.val
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(mk("const", (), s, c))
    if len(out) == 1:
        return out[0] if out[0].sort == s or not isc(out[0]) else mk("const", (), s, out[0].val)
    return mk("+", tuple(out), s)


def mul(*ts):
    ts = [b2i(const(t)) for t in ts]
    s = _arith_sort(ts)
    out, c = [], Fraction(1)
    for t in ts:
        if t.op == "*":
            for u in t.args:
                if isc(u): c *= u.val
                else: out.append(u)
        elif isc(t):
            c *= t.val
        else:
            out.append(t)
    if c == 0:
        return mk("const", (), s, Fraction(0))
    for k, t in enumerate(out):         # sqrt(x)^2 = x when x is a sum of squares
        if t.op == "app" and t.val == "sqrt" and any(u is t for u in out[:k]) and squares(t.args[0]):
            out.pop(k)
            out.remove(t)
            return mul(c, t.args[0], *out)
    if c != 1 or not out:
        out.insert(0, mk("const", (), s, c))
    if len(out) == 1:
        return out[0]
    return mk("*", tuple(out), s)


def squares(t):
    if isc(t): return t.val >= 0
    if t.op in ("+", "sum"): return all(squares(a) for a in (t.args if t.op == "+" else t.args[3:]))
    if t.op == "*":
        left = [a for a in t.args if not (isc(a) and a.val >= 0)]
        while left:
            a = left.pop()
            if any(b is a for b in left): left.remove(a)
            elif not squares(a): return False
        return True
    return t.op == "app" and t.val in ("sqrt", "exp")


def sub(a, b):
    return add(a, mul(-1, b))


def div(a, b):
    a, b = b2i(const(a)), b2i(const(b))
    if isc(b) and b.val != 0:
        if isc(a):
            return mk("const", (), "R", a.val / b.val)
        return mul(mk("const", (), "R", 1 / b.val), a)
    return mk("/", (a, b), "R")


def power(a, n):
    a = const(a)
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return div(1, power(a, -n))
    return mul(*([a] * n))


def floor(a):
    a = const(a)
    if a.sort == "I":
        return a
    if isc(a):
        return const(a.val.numerator // a.val.denominator)
    return mk("app", (a,), "I", "floor")


def fmod(a, b):
    a, b = const(a), const(b)
    if isc(a) and isc(b) and b.val != 0:
        q = a.val / b.val
        return const(a.val - b.val * (q.numerator // q.denominator), _arith_sort([a, b]))
    if a.sort == "I" and b.sort == "I":
        return mk("app", (a, b), "I", "imod")
    return sub(a, mul(b, floor(div(a, b))))


def fdiv(a, b):
    a, b = const(a), const(b)
    if a.sort == "I" and b.sort == "I":
        if isc(a) and isc(b) and b.val != 0:
            q = a.val / b.val
            return const(q.numerator // q.denominator)
        if isc(b) and b.val == 1:
            return a
        return mk("app", (a, b), "I", "idiv")
    return floor(div(a, b))


def lt(a, b):
    a, b = b2i(const(a)), b2i(const(b))
    if a is b: return FALSE
    if isc(a) and isc(b): return const(bool(a.val < b.val))
    r = extreme(a, lambda x: lt(x, b), False)
    if r is None: r = extreme(b, lambda x: lt(a, x), True)
    return mk("<", (a, b), "B") if r is None else r


def le(a, b):
    a, b = b2i(const(a)), b2i(const(b))
    if a is b: return TRUE
    if isc(a) and isc(b): return const(bool(a.val <= b.val))
    r = extreme(a, lambda x: le(x, b), False)
    if r is None: r = extreme(b, lambda x: le(a, x), True)
    return mk("<=", (a, b), "B") if r is None else r


def extreme(t, f, right):
    """min(p, q) < t and the like, as a condition on p and q"""
    if t.op != "ite": return None
    for big in (False, True):
        ls = leaves(t, big)
        if len(ls) > 1: return (or_ if big == right else and_)(*[f(x) for x in ls])
    return None


def leaves(t, big):
    """the terms that t is the largest (smallest) of, as imax (imin) writes it"""
    if t.op != "ite": return [t]
    c, p, q = t.args
    cs = c.args if c.op == "and" else (c,)
    if any(x.op != "<=" or x.args[1 if big else 0] is not p for x in cs): return [t]
    ls = leaves(q, big)
    return [p] + ls if {x.args[0 if big else 1] for x in cs} == set(ls) else [t]


def extremum(a, b, big):
    ls = []
    for x in leaves(a, big) + leaves(b, big):
        if not any(x is y for y in ls): ls.append(x)
    r = ls[-1]
    for k in range(len(ls) - 2, -1, -1): r = ite(and_(*[le(x, ls[k]) if big else le(ls[k], x) for x in ls[k + 1:]]), ls[k], r)
    return r


def eq(a, b):
    a, b = const(a), const(b)
    if a is b: return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
    else:
        a, b = b2i(a), b2i(b)
    if isc(a) and isc(b): return const(bool(a.val == b.val))
    if a.id > b.id:
        a, b = b, a
    return mk("==", (a, b), "B")


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    a = truth(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return mk("not", (a,), "B")


def truth(a):
    a = const(a)
    return a if a.sort == "B" else not_(eq(a, 0))


def and_(*ts):
    out, seen = [], set()
    for t in ts:
        t = truth(t)
        if t is FALSE: return FALSE
        for u in (t.args if t.op == "and" else (t,)):
            if u is TRUE or u.id in seen: continue
            seen.add(u.id)
            out.append(u)
    for u in out:
        if not_(u).id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), "B")


def or_(*ts):
    out, seen = [], set()
    for t in ts:
        t = truth(t)
        if t is TRUE: return TRUE
        for u in (t.args if t.op == "or" else (t,)):
            if u is FALSE or u.id in seen: continue
            seen.add(u.id)
            out.append(u)
    for u in out:
        if not_(u).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(truth(a), truth(b))


def ite(c, a, b):
    c, a, b = truth(c), const(a), const(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.sort == "B" and b.sort == "B":
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is FALSE: return and_(c, a)
        if b is TRUE: return or_(not_(c), a)
        return or_(and_(c, a), and_(not_(c), b))
    a, b = b2i(a), b2i(b)
    return mk("ite", (c, a, b), _arith_sort([a, b]))


def imin(a, b):
    a, b = const(a), const(b)
    if isc(a) and isc(b): return a if a.val <= b.val else b
    return a if a is b else extremum(a, b, False)


def imax(a, b):
    a, b = const(a), const(b)
    if isc(a) and isc(b): return a if a.val >= b.val else b
    return a if a is b else extremum(a, b, True)


def binder(kind, lo, hi, fn, pref="b", sort="I"):
    v = fresh(pref, sort)
    return binderv(kind, v, lo, hi, fn(v))


def binderv(kind, v, lo, hi, body):
    lo = NONE if lo is None else const(lo)
    hi = NONE if hi is None else const(hi)
    body = const(body)
    if kind in ("forall", "exists", "first", "last"):
        body = truth(body)
    if kind == "forall" and body is TRUE: return TRUE
    if kind == "exists" and body is FALSE: return FALSE
    if kind in ("forall", "exists") and v not in fv(body):
        if lo is NONE or hi is NONE: return body
        return implies(lt(lo, hi), body) if kind == "forall" else and_(lt(lo, hi), body)
    if kind in ("sum",) and body is const(0, body.sort): return body
    if kind in ("forall", "exists", "sum", "maxo", "mino") and isc(lo) and isc(hi) and lo is not NONE and hi.val - lo.val <= 1:
        if hi.val <= lo.val:
            if kind == "forall": return TRUE
            if kind == "exists": return FALSE
            if kind == "sum": return const(0, body.sort)
        else:
            return subst(body, {v: lo})
    sort = {"forall": "B", "exists": "B", "argmax": "I", "argmin": "I", "first": "I", "last": "I"}.get(kind, body.sort)
    if kind == "sum":
        body = b2i(body); sort = body.sort
    return mk(kind, (v, lo, hi, body), sort)


def sum_(lo, hi, fn): return binder("sum", lo, hi, fn)
def forall(lo, hi, fn): return binder("forall", lo, hi, fn)
def exists(lo, hi, fn): return binder("exists", lo, hi, fn)


def opq(name, binders, bodies, rest, sort="R"):
    return mk("opq", tuple(binders) + tuple(bodies) + tuple(const(r) for r in rest), sort, (name, len(binders), len(bodies)))


def sqrt(a): return _f1("sqrt", a)
def exp(a): return _f1("exp", a)
def cos(a): return _f1("cos", a)
def sin(a): return _f1("sin", a)


def _f1(name, a):
    a = const(a)
    if isc(a):
        if name == "sqrt" and a.val in (0, 1): return const(a.val, "R")
        if name == "exp" and a.val == 0: return const(1, "R")
        if name == "cos" and a.val == 0: return const(1, "R")
        if name == "sin" and a.val == 0: return const(0, "R")
    return mk("app", (a,), "R", name)


def absv(a):
    a = const(a)
    return ite(lt(a, 0), mul(-1, a), a)


_EMPTY = frozenset()


def nbind(t):
    if t.op in BIND1: return 1
    if t.op in ("opq", "isum"): return t.val[1]
    return 0


def fv(t):
    if t._fv is not None:
        return t._fv
    # iterative over deep terms is unnecessary: terms are shallow enough
    if t.op == "var":
        r = frozenset((t,))
    elif not t.args:
        r = _EMPTY
    else:
        r = frozenset().union(*[fv(a) for a in t.args])
        nb = nbind(t)
        if nb:
            bs = frozenset(t.args[:nb])
            if t.op in BIND1:
                inner = fv(t.args[3]) - bs
                r = inner | fv(t.args[1]) | fv(t.args[2])
            elif t.op == "opq":
                k = t.val[2]
                inner = frozenset().union(*[fv(a) for a in t.args[nb:nb + k]]) - bs if k else _EMPTY
                rest = t.args[nb + k:]
                r = inner.union(*[fv(a) for a in rest]) if rest else inner
            else:
                r = r - bs
    t._fv = r
    return r


_opq_memo = {}


def _rebuild(t, args):
    op = t.op
    if op == "+": return add(*args)
    if op == "*": return mul(*args)
    if op == "/": return div(*args)
    if op == "<": return lt(*args)
    if op == "<=": return le(*args)
    if op == "==": return eq(*args)
    if op == "and": return and_(*args)
    if op == "or": return or_(*args)
    if op == "not": return not_(*args)
    if op == "ite": return ite(*args)
    if op == "app":
        if t.val == "floor": return floor(args[0])
        if t.val == "imod": return fmod(*args)
        if t.val == "idiv": return fdiv(*args)
        if t.val in ("sqrt", "exp", "cos", "sin"): return _f1(t.val, args[0])
        return mk("app", args, t.sort, t.val)
    if op in BIND1:
        return binderv(op, args[0], None if args[1] is NONE else args[1], None if args[2] is NONE else args[2], args[3])
    return mk(op, args, t.sort, t.val)


def subst(t, m):
    """capture-avoiding substitution of variables"""
    if not m:
        return t
    keys = frozenset(m)
    rng = frozenset().union(*[fv(x) for x in m.values()]) if m else _EMPTY
    memo = {}

    def go(t):
        if not (fv(t) & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "var":
            r = m.get(t, t)
        else:
            nb = nbind(t)
            if nb:
                bs = t.args[:nb]
                if any(b in rng or b in keys for b in bs):
                    ren = {b: fresh("b", b.sort) for b in bs}
                    t2 = open_binders(t, ren)
                    r = subst(t2, m)
                else:
                    r = _rebuild(t, tuple(go(a) for a in t.args))
            else:
                r = _rebuild(t, tuple(go(a) for a in t.args))
        memo[t.id] = r
        return r
    return go(t)


def open_binders(t, ren):
    """rename the binders of t"""
    nb = nbind(t)
    bs = t.args[:nb]
    new = tuple(ren[b] for b in bs)
    if t.op in BIND1:
        return mk(t.op, (new[0], t.args[1], t.args[2], subst(t.args[3], {bs[0]: new[0]})), t.sort, t.val)
    if t.op == "opq":
        k = t.val[2]
        m = dict(zip(bs, new))
        return mk("opq", new + tuple(subst(a, m) for a in t.args[nb:nb + k]) + t.args[nb + k:], t.sort, t.val)
    m = dict(zip(bs, new))
    return mk(t.op, new + tuple(subst(a, m) for a in t.args[nb:]), t.sort, t.val)


def subst_apps(t, m):
    """replace applications f(args) by m[f](*args) (args already rewritten)"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if not t.args:
            r = m[t.val]() if (t.op == "app" and t.val in m) else t
        else:
            args = tuple(go(a) for a in t.args)
            if t.op == "app" and t.val in m:
                r = const(m[t.val](*args))
            elif args == t.args:
                r = t
            else:
                r = _rebuild(t, args)
        memo[t.id] = r
        return r
    return go(t)


def app_names(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "app": acc.add(x.val)
        st.extend(x.args)
    return acc


def find_apps(t, name):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "app" and (name is None or x.val == name): out.append(x)
        st.extend(x.args)
    return out


def dg(t):
    """structural digest (deterministic across runs for canonical terms)"""
    if t._dg is None:
        h = hashlib.blake2b(digest_size=12)
        h.update(("%s|%s|%s" % (t.op, t.sort, t.val)).encode())
        for a in t.args:
            h.update(dg(a).encode())
        t._dg = h.hexdigest()
    return t._dg


def pp(t, depth=12):
    if depth == 0: return "…"
    d = depth - 1
    op = t.op
    if op == "const": return str(t.val)
    if op == "none": return "_"
    if op == "var": return t.val
    if op == "app": return "%s(%s)" % (t.val, ", ".join(pp(a, d) for a in t.args))
    if op in ("+", "*"): return "(" + (" %s " % op).join(pp(a, d) for a in t.args) + ")"
    if op in ("/", "<", "<=", "=="): return "(%s %s %s)" % (pp(t.args[0], d), op, pp(t.args[1], d))
    if op in ("and", "or"): return "(" + (" %s " % op).join(pp(a, d) for a in t.args) + ")"
    if op == "not": return "!" + pp(t.args[0], d)
    if op == "ite": return "(if %s then %s else %s)" % tuple(pp(a, d) for a in t.args)
    if op in BIND1: return "%s[%s in %s..%s](%s)" % (op, t.args[0].val, pp(t.args[1], d), pp(t.args[2], d), pp(t.args[3], d))
    if op == "opq":
        n, nb, k = t.val
        return "%s{%s. %s}(%s)" % (n, ",".join(b.val for b in t.args[:nb]), "; ".join(pp(a, d) for a in t.args[nb:nb + k]), ", ".join(pp(a, d) for a in t.args[nb + k:]))
    return "%s(%s)" % (op, ", ".join(pp(a, d) for a in t.args))


def ev(t, env):
    """numeric evaluation: env maps variable names to numbers and function names to callables"""
    import math
    memo = {}

    def go(t, loc):
        if t.op == "const": return t.val if t.sort != "R" else float(t.val)
        if t.op == "var":
            if t in loc: return loc[t]
            if t.val == "pi": return math.pi
            if t.val == "NaN": return float("nan")
            if t.val == "Inf": return float("inf")
            return env[t.val]
        if t.op == "none": return None
        a = t.args
        if t.op == "+": return sum(go(x, loc) for x in a)
        if t.op == "*":
            r = 1
            for x in a: r = r * go(x, loc)
            return r
        if t.op == "/":
            n, d2 = go(a[0], loc), go(a[1], loc)
            return float(n) / float(d2) if d2 != 0 else float("nan")
        if t.op == "<": return go(a[0], loc) < go(a[1], loc)
        if t.op == "<=": return go(a[0], loc) <= go(a[1], loc)
        if t.op == "==": return go(a[0], loc) == go(a[1], loc)
        if t.op == "and": return all(go(x, loc) for x in a)
        if t.op == "or": return any(go(x, loc) for x in a)
        if t.op == "not": return not go(a[0], loc)
        if t.op == "ite": return go(a[1], loc) if go(a[0], loc) else go(a[2], loc)
        if t.op == "app":
            xs = [go(x, loc) for x in a]
            if t.val == "floor": return math.floor(xs[0])
            if t.val == "sqrt": return math.sqrt(xs[0]) if xs[0] >= 0 else float("nan")
            if t.val in ("exp", "cos", "sin"): return getattr(math, t.val)(xs[0])
            if t.val == "imod": return xs[0] % xs[1]
            if t.val == "idiv": return xs[0] // xs[1]
            return env[t.val](*[int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in xs])
        if t.op in BIND1:
            v, lo, hi, body = a
            lo, hi = int(go(lo, loc)), int(go(hi, loc))
            rng = range(lo, hi)
            l2 = dict(loc)

            def at(i):
                l2[v] = i
                return go(body, l2)
            if t.op == "sum": return sum(at(i) for i in rng)
            if t.op == "forall": return all(at(i) for i in rng)
            if t.op == "exists": return any(at(i) for i in rng)
            if t.op == "maxo": return max(at(i) for i in rng)
            if t.op == "mino": return min(at(i) for i in rng)
            if t.op == "argmax": return max(rng, key=lambda i: (at(i), -i))
            if t.op == "argmin": return min(rng, key=lambda i: (at(i), i))
            if t.op == "first": return next((i for i in rng if at(i)), hi)
            if t.op == "last": return next((i for i in reversed(rng) if at(i)), lo - 1)
        raise NotImplementedError(t.op)
    return go(t, {})
