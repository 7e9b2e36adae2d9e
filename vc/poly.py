"""Normal forms: polynomials over canonical atoms with prenexed finite sums (binders + domain constraints).

A monomial is (binders, dom, factors): Sum over integer binders satisfying every constraint in dom of the product of
atom**exp.  Cancellation x**1 * x**-1 -> 1, sqrt(p)**2 -> p record a side condition (x != 0, p >= 0) in `side`.
"""
from fractions import Fraction
from itertools import permutations
from math import gcd
from . import ir
from .ir import *

_norm_memo, _canon_memo = {}, {}
side = {}            # digest -> Term: side conditions used by the normaliser since last reset
NONZERO = {}         # atoms known nonzero (by term id)
NONZERO[PI.id] = True
CONSTRUCTORS = {}    # injective index constructors: name -> arity


def reset_side():
    side.clear()


def bh(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = 0
        if t.op == "var" and t.val[0] == "$":
            r = int(t.val[1:])
        for a in t.args:
            r = max(r, bh(a))
        memo[t.id] = r
    return r


def rh(t, memo={}):
    """nesting height of the binders: names of bound variables during normalisation (the same for the same text)"""
    r = memo.get(t.id)
    if r is None:
        r = 0
        for a in t.args: r = max(r, rh(a))
        if ir.nbind(t): r += 1
        memo[t.id] = r
    return r


ONE = ((), (), ())


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + k * c
        if x == 0:
            r.pop(m, None)
        else:
            r[m] = x
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pconst(k):
    return {ONE: Fraction(k)} if k else {}


def patom(a, e=1):
    return {((), (), ((a, e),)): Fraction(1)}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_of(p):
    return p.get(ONE, Fraction(0))


def _mergefactors(fs):
    """combine exponents and apply atom rewrite rules; returns list of (coef, factors list) alternatives as a Poly-like list"""
    d, order = {}, {}
    for a, e in fs:
        d[a.id] = d.get(a.id, 0) + e
        order[a.id] = a
    pos = {}
    neg = {}
    for a, e in fs:
        (pos if e > 0 else neg)[a.id] = True
    out, extra = [], []
    for i, e in d.items():
        a = order[i]
        if a.op == "iv":
            out.append((a, 1))
            continue
        if i in pos and i in neg and i not in NONZERO:
            c = ne(a, 0)
            side[dg(c)] = c
        if e == 0:
            continue
        if a.op == "app" and a.val == "sqrt" and abs(e) >= 2:
            q = norm(a.args[0])
            k = abs(e) // 2
            c = le(0, a.args[0])
            side[dg(c)] = c
            extra.append((q, k if e > 0 else -k))
            e = e - 2 * k if e > 0 else e + 2 * k
            if e == 0:
                continue
        if a.op == "app" and a.val == "sin" and e >= 2:
            k = e // 2
            q = padd(pconst(1), patom(mk("app", a.args, "R", "cos"), 2), -1)
            extra.append((q, k))
            e -= 2 * k
            if e == 0:
                continue
        out.append((a, e))
    return out, extra


def _unlink(m):
    """open binders of a monomial with fresh names"""
    b, dom, fs = m
    if not b:
        return m
    ren = {v: fresh("s", v.sort) for v in b}
    return (tuple(ren.values()), tuple(subst(d, ren) for d in dom), tuple((subst(a, ren), e) for a, e in fs))


def _resubst(m, sub_):
    """apply a substitution to an opened monomial, renormalising atoms -> Poly"""
    b, dom, fs = m
    r = pconst(1)
    for a, e in fs:
        q = norm(subst(a, sub_))
        r = pmul(r, q if e > 0 else pinv(q), abs(e))
    dd = [canonB(subst(d, sub_)) for d in dom]
    return _bind(b, dd, r)


def _bind(bs, dom, p):
    """Sum over bs with constraints dom of polynomial p (p may itself have binders)"""
    out = {}
    if any(d is FALSE for d in dom):
        return out
    dom = [d for d in dom if d is not TRUE]
    for m, c in p.items():
        m = _unlink(m)
        q = _mkmono(tuple(bs) + m[0], list(dom) + list(m[1]), list(m[2]))
        out = padd(out, q, c)
    return out


def _flat(d):
    return list(d.args) if d.op == "and" else [d]


def _lin(p, v):
    """p = k*v + rest with v not in rest and k constant: return (k, rest) else None"""
    k, rest = Fraction(0), {}
    for m, c in p.items():
        b, dom, fs = m
        if not b and fs == ((v, 1),):
            k = c
        else:
            if any(v in fv(a) for a, _ in fs) or any(v in fv(d) for d in dom):
                return None
            rest[m] = c
    return (k, rest) if k else None


def _allint(t):
    return t.sort == "I"


def _mkmono(bs, dom, fs):
    """canonical polynomial for one (opened) monomial"""
    fs, extra = _mergefactors(fs)
    if extra:
        r = _mkmono(bs, dom, fs) if not bs else None
        p = {((), (), ()): Fraction(1)}
        base = _mkmono((), [], fs)
        for q, k in extra:
            base = pmul(base, q if k > 0 else pinv(q), abs(k))
        return _bind(bs, dom, base)
    bs = list(bs)
    # Iverson factors whose condition mentions a binder and is an integer constraint become domain constraints
    changed = True
    while changed:
        changed = False
        nf = []
        dset = {d.id: d for d in dom}
        for a, e in fs:
            if bs and a.op == "iv" and a.args[0].op in ("gt0", "eq0") and _allint(a.args[0].args[0]) and any(v in fv(a) for v in bs):
                dset[a.args[0].id] = a.args[0]
            else:
                nf.append((a, e))
        fs = nf
        dom = list(dset.values())
        if any(d is FALSE for d in dom):
            return {}
        # equality constraint solvable for a binder: substitute (Kronecker collapse)
        for d in dom:
            if d.op == "eq0":
                p = norm(d.args[0])
                for v in bs:
                    lk = _lin(p, v)
                    if lk and abs(lk[0]) == 1:
                        e = to_term(pscale(lk[1], -lk[0]), "I")
                        bs2 = [b for b in bs if b is not v]
                        dom2 = [x for x in dom if x is not d]
                        r = pconst(1)
                        for a, ex in fs:
                            q = norm(subst(a, {v: e}))
                            r = pmul(r, q if ex > 0 else pinv(q), abs(ex))
                        dd = []
                        for x in dom2:
                            dd += _flat(canonB(subst(x, {v: e})))
                        if any(x is FALSE for x in dd):
                            return {}
                        return _bind_free(bs2, dd, r)
    # constraints not mentioning binders become Iverson factors
    keep = []
    for d in dom:
        if any(v in fv(d) for v in bs):
            keep.append(d)
        elif d is not TRUE:
            fs.append((mk("iv", (d,), "I"), 1))
    dom = keep
    if bs and len(bs) >= 2:
        dom = _irredundant(dom)
    uniq = {}
    for a, e in fs:
        uniq[a.id] = (a, e) if a.op == "iv" else (a, uniq.get(a.id, (a, 0))[1] + e)
    fs = [x for x in uniq.values() if x[1] != 0]
    if not bs:
        return {((), (), tuple(sorted(fs, key=lambda x: dg(x[0])))): Fraction(1)}
    return {_number(bs, dom, fs): Fraction(1)}


def _number(bs, dom, fs):
    """canonical names of the bound variables; independent groups are numbered one after the other"""
    bset = set(bs)
    inside = [(a, e) for a, e in fs if fv(a) & bset]
    parts = _independent(bs, dom, inside) if len(bs) > 1 else []
    base = max([bh(a) for a, _ in fs] + [bh(d) for d in dom] + [0])
    if len(parts) > 1:
        ms = sorted((_number(list(b), list(d), list(f)) for b, d, f in parts), key=_mkey)
        names, d2, f2 = [], [], [(canon(a), e) for a, e in fs if not (fv(a) & bset)]
        for mb, md, mf in ms:
            ren = {v: var("$%d" % (base + 1 + len(names) + k)) for k, v in enumerate(mb)}
            names += list(ren.values())
            for d in md: d2 += _flat(canonB(subst(d, ren)))
            f2 += [(canon(subst(a, ren)), e) for a, e in mf]
        return (tuple(names), tuple(sorted({x.id: x for x in d2}.values(), key=dg)), tuple(sorted(f2, key=lambda x: dg(x[0]))))
    base = max([bh(a) for a, _ in fs] + [bh(d) for d in dom] + [0])
    best = None
    names = [var("$%d" % (base + 1 + k)) for k in range(len(bs))]
    perms = permutations(names) if len(bs) <= 4 else [tuple(names)]
    for pm in perms:
        ren = dict(zip(bs, pm))
        d2, ok = [], True
        for d in dom:
            d2 += _flat(canonB(subst(d, ren)))
        d2 = tuple(sorted({x.id: x for x in d2}.values(), key=dg))
        f2 = []
        for a, e in fs:
            f2.append((canon(subst(a, ren)), e))
        f2 = tuple(sorted(f2, key=lambda x: dg(x[0])))
        key = (tuple(dg(x) for x in d2), tuple((dg(a), e) for a, e in f2))
        if best is None or key < best[0]:
            best = (key, d2, f2)
    return (tuple(names), best[1], best[2])


def _bind_free(bs, dd, p):
    """like _bind, but constraints may not mention the binders"""
    out = {}
    for m, c in p.items():
        m = _unlink(m)
        out = padd(out, _mkmono(tuple(bs) + m[0], list(dd) + list(m[1]), list(m[2])), c)
    return out


def _needed(d, rest):
    """some variable bounds d from one side and every other constraint from the other side only: d is not implied"""
    for v in fv(d):
        if v.sort != "I": continue
        a = _sign(d, v)
        if not a: continue
        if all(v not in fv(r) or r.op == "gt0" and _sign(r, v) == -a for r in rest): return True
    return False


_sign_memo = {}


def _sign(d, v):
    k = (d.id, v.id)
    if k not in _sign_memo:
        l = _lin(norm(d.args[0]), v)
        _sign_memo[k] = 0 if not l else (1 if l[0] > 0 else -1)
    return _sign_memo[k]


_irr_memo = {}


def _irredundant(dom):
    key = tuple(sorted(d.id for d in dom))
    if key in _irr_memo:
        return _irr_memo[key]
    from . import smt
    ds = sorted(dom, key=dg)
    i = 0
    while i < len(ds):
        rest = ds[:i] + ds[i + 1:]
        if ds[i].op == "gt0" and not _needed(ds[i], rest) and smt.quick_implies(rest, ds[i]):
            ds = rest
        else:
            i += 1
    _irr_memo[key] = ds
    return ds


def pmul(p, q, n=1):
    for _ in range(n):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                if m1 is ONE or m1 == ONE:
                    k = {m2: Fraction(1)}
                elif m2 == ONE:
                    k = {m1: Fraction(1)}
                elif not m1[0] and not m2[0]:
                    k = _mkmono((), [], list(m1[2]) + list(m2[2]))
                else:
                    a, b = _unlink(m1), _unlink(m2)
                    k = _mkmono(a[0] + b[0], list(a[1]) + list(b[1]), list(a[2]) + list(b[2]))
                r = padd(r, k, c1 * c2)
        p = r
    return p


def pinv(q):
    if len(q) == 1:
        (m, c), = q.items()
        if not m[0] and not any(a.op == "iv" for a, _ in m[2]):
            return {((), (), tuple((a, -e) for a, e in m[2])): 1 / c}
    if not q:
        return patom(mk("const", (), "R", Fraction(0)), -1)
    # make primitive: leading coefficient 1
    lead = min(q, key=_mkey)
    c = q[lead]
    a = to_term(pscale(q, 1 / c), "R")
    return {((), (), ((a, -1),)): 1 / c}


def _mkey(m):
    return (len(m[0]), tuple(dg(d) for d in m[1]), tuple((dg(a), e) for a, e in m[2]))


def _independent(b, dom, fs):
    """partition of the bound variables, domains and factors into independent groups"""
    groups = [({v}, [], []) for v in b]

    def join(vs):
        hit = [g for g in groups if g[0] & vs]
        for g in hit[1:]:
            hit[0][0].update(g[0]); hit[0][1].extend(g[1]); hit[0][2].extend(g[2])
            groups.remove(g)
        return hit[0]
    bset = set(b)
    for d in dom:
        vs = fv(d) & bset
        if not vs: return [(b, dom, fs)]
        join(vs)[1].append(d)
    for f in fs: join(fv(f[0]) & bset)[2].append(f)
    if len(groups) < 2: return [(b, dom, fs)]
    order = {v: k for k, v in enumerate(b)}
    return [(tuple(sorted(g[0], key=order.get)), tuple(g[1]), tuple(g[2])) for g in groups]


def _mkmono_plain(b, dom, fs):
    """the monomial with its bound variables renumbered from the start"""
    ren = {v: fresh("s", v.sort) for v in b}
    return _number(list(ren.values()), [subst(d, ren) for d in dom], [(subst(a, ren), e) for a, e in fs])


def mono_term(m, sort=None):
    b, dom, fs = m
    bset = set(b)
    inside = [(a, e) for a, e in fs if fv(a) & bset]
    outside = [(a, e) for a, e in fs if not (fv(a) & bset)]

    def prod(fl):
        n, d = [], []
        for a, e in fl:
            (n if e > 0 else d).extend([a] * abs(e))
        t = mk("*", tuple(n), "R" if any(x.sort == "R" for x in n) else "I") if len(n) > 1 else (n[0] if n else const(1))
        if d:
            dt = mk("*", tuple(d), "R") if len(d) > 1 else d[0]
            t = mk("/", (t, dt), "R")
        return t
    if not b:
        return prod(outside)
    parts = _independent(b, dom, inside)
    if len(parts) > 1:
        # a product of sums over independent indices
        ts = []
        for pb, pd, pf in parts: ts.append(mono_term(_mkmono_plain(pb, pd, pf)))
        ts.sort(key=dg)
        if outside:
            o = prod(outside)
            if o.op == "/": return mk("*", (o,) + tuple(ts), "R")
            ts = list(o.args if o.op == "*" else (o,)) + ts
        return mk("*", tuple(ts), "R" if any(x.sort == "R" for x in ts) else "I")
    body = prod(inside)
    s = mk("isum", tuple(b) + (mk("and", tuple(dom), "B") if len(dom) > 1 else (dom[0] if dom else TRUE), body), body.sort, ("isum", len(b)))
    if not outside:
        return s
    o = prod(outside)
    if o.op == "*":
        return mk("*", o.args + (s,), "R" if "R" in (o.sort, s.sort) else "I")
    return mk("*", (o, s), "R" if "R" in (o.sort, s.sort) else "I")


def to_term(p, sort=None):
    if not p:
        return const(0, sort)
    if is_const(p):
        return const(const_of(p), sort)
    ts = []
    for m in sorted(p, key=_mkey):
        c = p[m]
        if m == ONE:
            ts.append(const(c))
            continue
        t = mono_term(m)
        if c != 1:
            cc = const(c)
            t = mk("*", (cc,) + (t.args if t.op == "*" else (t,)), "R" if "R" in (cc.sort, t.sort) else "I")
        ts.append(t)
    if len(ts) == 1:
        return ts[0]
    s = "R" if any(t.sort == "R" for t in ts) else "I"
    return mk("+", tuple(ts), s)


def _scoped(memo, t, f):
    """memoised f(t); the side conditions it needs are recorded with the memo and re-recorded on every use"""
    r = memo.get(t.id)
    if r is None:
        saved = dict(side)
        side.clear()
        try:
            v = f(t)
            r = memo[t.id] = (v, dict(side))
        finally:
            side.clear()
            side.update(saved)
    if r[1]: side.update(r[1])
    return r[0]


def norm(t):
    return _scoped(_norm_memo, t, _norm)


def with_sides(t):
    """(canonical boolean, side conditions under which it is equivalent to t)"""
    saved = dict(side)
    side.clear()
    try:
        c = canonB(t)
        return c, list(side.values())
    finally:
        side.clear()
        side.update(saved)


def canonH(t):
    """canonical form of a hypothesis (a consequence of t)"""
    c, sd = with_sides(t)
    if not sd: return c
    return canonB_nosides(or_(*([not_(x) for x in sd] + [c])))


def canonG(t):
    """canonical form of a goal (implies t)"""
    c, sd = with_sides(t)
    if not sd: return c
    return canonB_nosides(and_(*([c] + sd)))


def canonB_nosides(t):
    """a canonical form without further cancellation: the side conditions are x != 0 or 0 <= x for canonical x"""
    saved = dict(side)
    side.clear()
    try:
        c = canonB(t)
        more = dict(side)
    finally:
        side.clear()
        side.update(saved)
    return t if more else c


def clean(f):
    """f() if it needs no side condition, else None"""
    saved = dict(side)
    side.clear()
    try:
        v = f()
        return None if side else v
    finally:
        side.clear()
        side.update(saved)


def _norm(t):
    op = t.op
    if t.sort == "B":
        return ivpoly(canonB(t))
    if op == "const":
        return pconst(t.val)
    if op == "var":
        return patom(t)
    if op == "+":
        r = {}
        for a in t.args:
            r = padd(r, norm(a))
        return _numbering(r)
    if op == "*":
        r = pconst(1)
        for a in t.args:
            r = pmul(r, norm(a))
        return r
    if op == "/":
        return pmul(norm(t.args[0]), pinv(norm(t.args[1])))
    if op == "ite":
        c, a, b = t.args
        pa, pb = norm(a), norm(b)
        if not pb:
            return pmul(ivpoly(canonB(c)), pa)
        if not pa:
            return pmul(ivpoly(canonB(not_(c))), pb)
        if pa == pb:
            return pa
        cc, nc = canonB(c), canonB(not_(c))
        if dg(nc) < dg(cc):
            cc, pa, pb = nc, pb, pa
        return padd(pb, pmul(ivpoly(cc), padd(pa, pb, -1)))
    if op == "iv":
        return ivpoly(canonB(t.args[0]))
    if op == "sum":
        v, lo, hi, body = t.args
        v2 = var("~%d" % rh(t))
        at = v2
        if isc(lo) and lo.val and not isc(hi):      # sums start at 0
            at, hi, lo = add(v2, lo), sub(hi, lo), const(0)
        body = subst(body, {v: at})
        dom = []
        for d in (le(lo, v2), lt(v2, hi)):
            dom += _flat(canonB(d))
        return _bind_free([v2], dom, norm(body))
    if op == "isum":
        n = t.val[1]
        ren = {b: var("~%d.%d" % (rh(t), k)) for k, b in enumerate(t.args[:n])}
        dom = _flat(canonB(subst(t.args[n], ren)))
        return _bind_free(list(ren.values()), dom, norm(subst(t.args[n + 1], ren)))
    if op == "app":
        return _normapp(t)
    if op in BIND1:
        v, lo, hi, body = t.args
        v2 = var("~%d" % rh(t), v.sort)
        body = subst(body, {v: v2})
        body = canonB(body) if body.sort == "B" else canon(body)
        lo, hi = (lo if lo is NONE else canon(lo)), (hi if hi is NONE else canon(hi))
        nv = var("$%d" % (bh(body) + 1), v.sort)
        body = subst(body, {v2: nv})
        body = canonB(body) if body.sort == "B" else canon(body)      # again: the order of terms depends on names
        return patom(mk(op, (nv, lo, hi, body), t.sort, t.val))
    if op == "opq":
        name, nb, k = t.val
        ren = {b: var("~%d.%d" % (rh(t), k), b.sort) for k, b in enumerate(t.args[:nb])}
        bodies = [canon(subst(x, ren)) for x in t.args[nb:nb + k]]
        base = max([bh(x) for x in bodies] + [0])
        ren2 = {f: var("$%d" % (base + 1 + i), f.sort) for i, f in enumerate(ren.values())}
        bodies = [canon(subst(x, ren2)) for x in bodies]
        rest = [canon(x) for x in t.args[nb + k:]]
        return patom(mk("opq", tuple(ren2.values()) + tuple(bodies) + tuple(rest), t.sort, t.val))
    if op == "none":
        return patom(t)
    raise NotImplementedError(op)


def _numbering(p):
    """B(a,1)+B(b,2)(+B(c,3)(+B(d,4))) -> injective numbering constructor N1/N2/N3"""
    bs = {}
    for m, c in p.items():
        if m[0] or len(m[2]) != 1 or m[2][0][1] != 1:
            continue
        a = m[2][0][0]
        if a.op == "app" and a.val == "binom" and isc(a.args[1]):
            bs.setdefault(int(a.args[1].val), []).append((m, c, a.args[0]))
    if 1 not in bs or 2 not in bs:
        return p
    if any(len(v) != 1 or v[0][1] != 1 for v in bs.values()):
        return p
    k = 0
    while k + 1 in bs:
        k += 1
    if k < 2 or set(bs) != set(range(1, k + 1)):
        return p
    r = dict(p)
    for i in range(1, k + 1):
        r.pop(bs[i][0][0])
    return padd(r, patom(mk("app", tuple(bs[i][0][2] for i in range(1, k + 1)), "I", "N%d" % (k - 1))))


def _normapp(t):
    args = tuple(canonB(a) if a.sort == "B" else canon(a) for a in t.args)
    n = t.val
    if n == "floor":
        p = norm(args[0])
        whole, rest = {}, {}
        for m, c in p.items():
            if c.denominator == 1 and (m == ONE or (all(a.sort == "I" and e > 0 for a, e in m[2]))):
                whole[m] = c
            elif m == ONE and c.denominator != 1:
                f = c.numerator // c.denominator
                if f: whole[m] = Fraction(f)
                rest[m] = c - f
            else:
                rest[m] = c
        if not rest:
            return whole
        if is_const(rest):
            return padd(whole, pconst(const_of(rest).numerator // const_of(rest).denominator))
        return padd(whole, patom(mk("app", (to_term(rest),), "I", "floor")))
    if n in ("rint", "trunc"):
        p = norm(args[0])
        if all(c.denominator == 1 and (m == ONE or all(a.sort == "I" and e > 0 for a, e in m[2]) and not any(True for _ in m[0])) for m, c in p.items()):
            return p
    if n in ("sqrt", "exp", "cos", "sin"):
        a = args[0]
        if isc(a):
            u = ir._f1(n, a)
            if isc(u):
                return pconst(u.val)
        p = norm(a)
        if n == "sqrt":
            # sqrt(c^2 * q) is left alone; sqrt(q*q) is |q| and not simplified
            return patom(mk("app", (a,), "R", n))
        if n in ("cos", "sin"):
            # whole turns
            q, sign = {}, 1
            for m, c in p.items():
                fs = [(x, e) for x, e in m[2] if x is not PI]
                if c.denominator == 1 and (PI, 1) in m[2] and all(e > 0 and (x.sort == "I" or x.op == "iv") for x, e in fs) and (not m[0] or all(x.sort == "I" or x.op == "iv" for x, e in fs)):
                    if c % 2 == 0: continue
                    if not fs and not m[0]:
                        sign = -sign
                        continue
                    # 2k pi + pi: keep one half turn per integer
                    c = Fraction(1)
                q[m] = c
            if q != p or sign < 0:
                return pscale(norm(mk("app", (to_term(q, "R"),), "R", n)), sign)
            lead = min(p, key=_mkey) if p else None
            if lead is not None and p[lead] < 0:
                q = patom(mk("app", (to_term(pscale(p, -1)),), "R", n))
                return q if n == "cos" else pscale(q, -1)
        return patom(mk("app", (a,), "R", n))
    if n == "binom" and isc(args[1]):
        k = int(args[1].val)
        if k == 0:
            return pconst(1)
        if k < 0:
            return {}
    if n == "idiv" and isc(args[1]) and args[1].val in (2, 6):
        # q(q-1)/2 and q(q-1)(q-2)/6 are binomial coefficients (their numerators are divisible)
        pp_ = norm(args[0])
        for m in list(pp_):
            if len(m[2]) == 1 and m[2][0][1] == (2 if args[1].val == 2 else 3) and not m[0] and pp_[m] == 1:
                q = m[2][0][0]
                for sh in (0, 1, -1, 2):
                    a = add(q, sh)
                    fs = [a, sub(a, 1)] + ([sub(a, 2)] if args[1].val == 6 else [])
                    if not padd(pp_, norm(mul(*fs)), -1):
                        return patom(mk("app", (canon(a), const(len(fs))), "I", "binom"))
    if n == "imod" or n == "idiv":
        r = ir._rebuild(t, args)
        if r.op == "const":
            return pconst(r.val)
    return patom(mk("app", args, t.sort, n))


def ivpoly(c):
    """Iverson bracket of a canonical boolean"""
    if c is TRUE: return pconst(1)
    if c is FALSE: return {}
    if c.op == "and":
        r = pconst(1)
        for a in c.args:
            r = pmul(r, ivpoly(a))
        return r
    if c.op == "or":
        r = pconst(1)
        for a in c.args:
            r = pmul(r, padd(pconst(1), ivpoly(a), -1))
        return padd(pconst(1), r, -1)
    if c.op == "not":
        return padd(pconst(1), ivpoly(c.args[0]), -1)
    return patom(mk("iv", (c,), "I"))


def canon(t):
    if t.sort == "B":
        return canonB(t)
    def go(t):
        r = to_term(norm(t), t.sort)
        if r.id != t.id: _canon_memo.setdefault(r.id, (r, {}))
        return r
    return _scoped(_canon_memo, t, go)


def _scale_int(p):
    d = 1
    for c in p.values():
        d = d * c.denominator // gcd(d, c.denominator)
    q = {m: c * d for m, c in p.items()}
    g = 0
    for m, c in q.items():
        if m != ONE:
            g = gcd(g, abs(int(c)))
    return q, g or 1


def _gt0(p, integer):
    if is_const(p):
        return const(bool(const_of(p) > 0))
    if integer:
        q, g = _scale_int(p)
        if g > 1:
            k = q.get(ONE, Fraction(0))
            # g*r + k > 0  <=>  r > -k/g  <=> r >= floor(-k/g)+1
            fl = (-k / g).numerator // (-k / g).denominator
            q = {m: c / g for m, c in q.items() if m != ONE}
            if -fl: q[ONE] = Fraction(-fl)
        return mk("gt0", (to_term(q, "I"),), "B")
    lead = min((m for m in p if m != ONE), key=_mkey)
    return mk("gt0", (to_term(pscale(p, 1 / abs(p[lead])), "R"),), "B")


def _ge0(p, integer):
    if is_const(p):
        return const(bool(const_of(p) >= 0))
    if integer:
        return _gt0(padd(_scale_int(p)[0], pconst(1)), True)
    lead = min((m for m in p if m != ONE), key=_mkey)
    return mk("ge0", (to_term(pscale(p, 1 / abs(p[lead])), "R"),), "B")


def _eq0(p, integer):
    if is_const(p):
        return const(const_of(p) == 0)
    if len(p) == 2 and not any(m[0] for m in p):
        ms = [m for m in p if len(m[2]) == 1 and m[2][0][1] == 1 and m[2][0][0].op == "app" and m[2][0][0].val in CONSTRUCTORS]
        if len(ms) == 2 and sum(p[m] for m in ms) == 0:
            a, b = ms[0][2][0][0], ms[1][2][0][0]
            if a.val == b.val:
                return canonB(and_(*[eq(x, y) for x, y in zip(a.args, b.args)]))
    if integer:
        q, g = _scale_int(p)
        k = q.get(ONE, Fraction(0))
        if k % g:
            return FALSE
        q = pscale(q, Fraction(1, g))
    else:
        q = p
    lead = min((m for m in q if m != ONE), key=_mkey)
    c = q[lead]
    q = pscale(q, (1 if c > 0 else -1) if integer else 1 / c)
    return mk("eq0", (to_term(q, "I" if integer else "R"),), "B")


def canonB(t):
    def go(t):
        r = _canonB(t)
        if r.id != t.id: _canon_memo.setdefault(r.id, (r, {}))
        return r
    return _scoped(_canon_memo, t, go)


def _canonB(t):
    op = t.op
    if t is TRUE or t is FALSE: return t
    if op in ("<", "<="):
        a, b = t.args
        integer = a.sort == "I" and b.sort == "I"
        p = padd(norm(b), norm(a), -1)
        return _gt0(p, integer) if op == "<" else _ge0(p, integer)
    if op == "==":
        a, b = t.args
        if a.sort == "B":
            x, y = canonB(a), canonB(b)
            if x is y: return TRUE
            if dg(y) < dg(x): x, y = y, x
            return mk("==", (x, y), "B")
        return _eq0(padd(norm(a), norm(b), -1), a.sort == "I" and b.sort == "I")
    if op in ("gt0", "ge0", "eq0"):
        p = norm(t.args[0])
        i = t.args[0].sort == "I"
        return {"gt0": _gt0, "ge0": _ge0, "eq0": _eq0}[op](p, i)
    if op == "not":
        a = canonB(t.args[0])
        if a.op == "gt0":
            p, i = norm(a.args[0]), a.args[0].sort == "I"
            return _ge0(pscale(p, -1), i)
        if a.op == "ge0":
            return _gt0(pscale(norm(a.args[0]), -1), a.args[0].sort == "I")
        if a.op == "and": return canonB(or_(*[not_(x) for x in a.args]))
        if a.op == "or": return canonB(and_(*[not_(x) for x in a.args]))
        if a.op in ("forall", "exists"):
            v, lo, hi, body = a.args
            k = "exists" if a.op == "forall" else "forall"
            return canonB(mk(k, (v, lo, hi, not_(body)), "B"))
        return not_(a)
    if op == "and":
        return _sortb(and_(*[canonB(a) for a in t.args]))
    if op == "or":
        return _sortb(or_(*[canonB(a) for a in t.args]))
    if op == "ite":
        c, a, b = t.args
        return canonB(or_(and_(c, a), and_(not_(c), b)))
    if op in ("forall", "exists"):
        v, lo, hi, body = t.args
        v2 = var("~%d" % rh(t), v.sort)
        b2 = canonB(subst(body, {v: v2}))
        if b2 is (TRUE if op == "forall" else FALSE): return b2
        nv = var("$%d" % (bh(b2) + 1), v.sort)
        b2 = canonB(subst(b2, {v2: nv}))        # again: the order of terms depends on names
        return mk(op, (nv, lo if lo is NONE else canon(lo), hi if hi is NONE else canon(hi), b2), "B")
    if op == "app":
        return mk("app", tuple(canon(a) for a in t.args), "B", t.val)
    if op == "var":
        return t
    if op == "opq":
        (m, c), = norm_opq(t).items()
        return m[2][0][0]
    raise NotImplementedError(op)


def norm_opq(t):
    return _norm_opq_patom(t)


def _norm_opq_patom(t):
    name, nb, k = t.val
    ren = {b: fresh("s", b.sort) for b in t.args[:nb]}
    bodies = [canon(subst(x, ren)) for x in t.args[nb:nb + k]]
    base = max([bh(x) for x in bodies] + [0])
    ren2 = {f: var("$%d" % (base + 1 + i), f.sort) for i, f in enumerate(ren.values())}
    bodies = [subst(x, ren2) for x in bodies]
    rest = [canon(x) for x in t.args[nb + k:]]
    return patom(mk("opq", tuple(ren2.values()) + tuple(bodies) + tuple(rest), t.sort, t.val))


def _sortb(t):
    if t.op in ("and", "or"):
        args = tuple(sorted(t.args, key=dg))
        return mk(t.op, args, "B")
    return t


def clear_denoms(p):
    """multiply by the binder-free denominators; returns Poly (side conditions recorded)"""
    for _ in range(20):
        need = {}
        for m in p:
            bs = set(m[0])
            for a, e in m[2]:
                if e < 0 and not (fv(a) & bs):
                    need[a.id] = (a, max(need.get(a.id, (a, 0))[1], -e))
        if not need:
            return p
        a, e = next(iter(need.values()))
        if a.id not in NONZERO:
            c = ne(a, 0)
            side[dg(c)] = c
        q = norm(a)
        r = {}
        for m, c in p.items():
            k = 0
            fs = []
            for x, ex in m[2]:
                if x is a and ex < 0:
                    k = -ex
                else:
                    fs.append((x, ex))
            b, dom, _ = m
            um = _unlink((b, dom, tuple(fs)))
            base = _mkmono(um[0], list(um[1]), list(um[2]))
            r = padd(r, pmul(base, q, e - k), c)
        p = r
    return p


def expand_compl(p):
    """rewrite Iverson atoms with the larger digest of a complementary pair as 1 - complement"""
    for _ in range(6):
        r, ch = {}, False
        for m, c in p.items():
            hit = None
            bs = set(m[0])
            for a, e in m[2]:
                if a.op == "iv":
                    n = canonB(not_(a.args[0]))
                    if n.op in ("gt0", "ge0", "eq0") and dg(n) < dg(a.args[0]):
                        hit = (a, n)
                        break
            if not hit:
                r = padd(r, {m: Fraction(1)}, c)
                continue
            ch = True
            um = _unlink((m[0], m[1], tuple((x, ex) for x, ex in m[2] if x is not hit[0])))
            ren = dict(zip(m[0], um[0]))
            base = _mkmono(um[0], list(um[1]), list(um[2]))
            with_ = _mkmono(um[0], list(um[1]), list(um[2]) + [(mk("iv", (canonB(subst(hit[1], ren)),), "I"), 1)])
            r = padd(r, base, c)
            r = padd(r, with_, -c)
        p = r
        if not ch:
            break
    return p


P61 = (1 << 61) - 1


def refuted(p):
    """the values at a random point show that p stays different from zero when complements are expanded"""
    def val(d): return int(d, 16) % P61 or 1
    rep, tot = {}, {}
    for m, c in p.items():
        bs = set(m[0])
        v, seen, rest = c.numerator * pow(c.denominator, P61 - 2, P61) % P61, set(), []
        for a, e in m[2]:
            if fv(a) & bs:
                if a.op == "iv": return False
                rest.append((a.id, e))
                continue
            if a.op == "iv":
                r = rep.get(a.id)
                if r is None:
                    n = canonB(not_(a.args[0]))
                    x, y = dg(a.args[0]), dg(n)
                    r = rep[a.id] = (x, val(x)) if x <= y or n.op not in ("gt0", "ge0", "eq0") else (y, (1 - val(y)) % P61)
                v = 0 if r[0] in seen else v * r[1] % P61        # a condition and its complement
                seen.add(r[0])
            else:
                x = val(dg(a))
                v = v * pow(x if e > 0 else pow(x, P61 - 2, P61), abs(e), P61) % P61
        k = (m[0], m[1], tuple(rest))
        tot[k] = (tot.get(k, 0) + v) % P61
    return any(tot.values())


def zero(t):
    """True if t normalises to 0; side conditions accumulate in `side`"""
    p = norm(t)
    if not p: return True
    p = clear_denoms(p)
    if not p: return True
    if len(p) > 8 and refuted(p): return False
    p = expand_compl(p)
    return not p


CONSTRUCTORS.update({"N1": 2, "N2": 3, "N3": 4})


def assume(t, cond, value, deep=False):
    """the term on the branch where the condition has the given value"""
    c, n = canonB(cond), canonB(not_(cond))
    memo = {}

    def go(t):
        if not t.args: return t
        if t.id in memo: return memo[t.id]
        if deep and t.sort == "B":
            k = canonB(t)
            r = (TRUE if value else FALSE) if k is c else (FALSE if value else TRUE) if k is n else ir._rebuild(t, tuple(go(a) for a in t.args))
        elif t.op == "ite":
            k = canonB(t.args[0])
            if k is c: r = go(t.args[1] if value else t.args[2])
            elif k is n: r = go(t.args[2] if value else t.args[1])
            else: r = ir._rebuild(t, tuple(go(a) for a in t.args))
        else: r = ir._rebuild(t, tuple(go(a) for a in t.args))
        memo[t.id] = r
        return r
    return go(t)
