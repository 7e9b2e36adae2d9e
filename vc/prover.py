"""Discharging obligations: skolemisation and splitting, simplification under the hypotheses, the normaliser, z3 then cvc5."""
import os, time
from . import ir, poly, smt
from .ir import *

STAT = {}
DEBUG = bool(os.environ.get("VC_DEBUG"))


class Ctx:
    def __init__(s, ms=6000, cvc5=True, deadline=None):
        s.ms, s.cvc5, s.deadline = ms, cvc5, deadline
        s.backends = set()
        s.detail = ""
        s.failed = None


def has_quant(t):
    from .interp import has_quant as h
    return h(t)


def qid(t, memo={}):
    """the same for the same statement up to the names of bound variables"""
    r = memo.get(t.id)
    if r is None:
        c = poly.clean(lambda: poly.canonB(t))
        r = memo[t.id] = (c if c is not None else t).id
        KEEP.append(t)
    return r


KEEP = []


def flat_hyps(hyps):
    out, seen = [], set()
    st = list(hyps)[::-1]
    # unit resolution with the quantified facts that are about to be opened
    raw = {}
    for h in hyps:
        if isinstance(h, Term) and h.op in ("forall", "exists", "not") and has_quant(h): raw[qid(not_(h))] = h
    while st:
        h = truth(st.pop())
        if raw and h.op == "or" and has_quant(h):
            if any(a.op == "not" and a.args[0].op == "and" for a in h.args):
                h = or_(*[x for a in h.args for x in ([not_(y) for y in a.args[0].args] if a.op == "not" and a.args[0].op == "and" else [a])])
            if h.op == "or": h = or_(*[a for a in h.args if not has_quant(a) or qid(a) not in raw])
        if h is TRUE or h.id in seen: continue
        seen.add(h.id)
        if h.op == "and":
            st.extend(reversed(h.args))
            continue
        if h.op == "exists":
            v, lo, hi, body = h.args
            n = fresh("k", v.sort)
            rng = ([le(lo, n)] if lo is not NONE else []) + ([lt(n, hi)] if hi is not NONE else [])
            st.extend(reversed(rng + [subst(body, {v: n})]))
            continue
        if h.op == "not" and h.args[0].op == "forall":
            v, lo, hi, body = h.args[0].args
            n = fresh("k", v.sort)
            rng = ([le(lo, n)] if lo is not NONE else []) + ([lt(n, hi)] if hi is not NONE else [])
            st.extend(reversed(rng + [not_(subst(body, {v: n}))]))
            continue
        if h.op == "not" and h.args[0].op == "or":
            st.extend(reversed([not_(a) for a in h.args[0].args]))
            continue
        if h.op == "not" and h.args[0].op == "exists":
            v, lo, hi, body = h.args[0].args
            h = mk("forall", (v, lo, hi, not_(body)), "B")
        if h is FALSE: return None
        out.append(h)
    return out


def apps_of(t, out, bound=frozenset(), seen=None):
    """applications with an argument free of the bound variables of t: (application, bound variables)"""
    seen = set() if seen is None else seen
    k = (t.id, bound)
    if k in seen: return
    seen.add(k)
    if t.op == "app" and t.args and any(not (fv(a) & bound) for a in t.args): out.append((t, bound & fv(t)))
    nb = ir.nbind(t)
    if nb: bound = bound | frozenset(t.args[:nb])
    for a in t.args: apps_of(a, out, bound, seen)


def patterns(body, v):
    """(function, arity, position of v, the other arguments) of the applications of v in the body"""
    ps, seen = [], set()
    bs = set()

    def go(t):
        if t.id in seen: return
        seen.add(t.id)
        nb = ir.nbind(t)
        if nb: bs.update(t.args[:nb])
        if t.op == "app" and v in t.args: ps.append(t)
        for a in t.args: go(a)
    go(body)
    out = []
    for t in ps:
        k = t.args.index(v)
        out.append((t.val, len(t.args), k, [None if (fv(a) & bs or a is v) else a for a in t.args]))
    return out


SKIP_PAT = ("cos", "sin", "sqrt", "exp", "floor", "imod", "idiv", "toreal")


def instances(foralls, terms, cap=60, only=None):
    """ground instances of the universal hypotheses at the applications that occur in the terms (containing the variable `only`)"""
    gs = []
    for t in terms: apps_of(t, gs)
    by = {}
    for g, bd in gs: by.setdefault((g.val, len(g.args)), {})[g.id] = (g, bd)
    out, seen = [], set()

    def inst(f, rng, depth):
        v, lo, hi, body = f.args
        cands = {}
        for fn, ar, k, rest in patterns(body, v):
            if fn in SKIP_PAT: continue
            for g, bd in by.get((fn, ar), {}).values():
                if not (fv(g.args[k]) & bd) and all(r is None or r is a for r, a in zip(rest, g.args)): cands[g.args[k].id] = g.args[k]
        for c in list(cands.values())[:12]:
            if len(out) >= cap: return
            if c.sort != v.sort: continue
            b = subst(body, {v: c})
            rg = rng + ([le(lo, c)] if lo is not NONE else []) + ([lt(c, hi)] if hi is not NONE else [])
            for x in (b.args if b.op == "and" else (b,)):
                fs = [y for y in x.args if y.op == "forall"] if x.op == "or" else []
                if x.op == "forall":
                    if depth < 4: inst(x, rg, depth + 1)
                elif len(fs) == 1:
                    if only is None and not rng and not False: out.append(implies(and_(*rg), x))
                    if depth < 4: inst(fs[0], rg + [not_(y) for y in x.args if y is not fs[0]], depth + 1)
                elif (only is None or only in fv(x) or any(only in fv(r) for r in rg)) and not (x.op == "exists"):
                    y = implies(and_(*rg), x)
                    if y is not TRUE and y.id not in seen:
                        seen.add(y.id)
                        out.append(y)
    for f in foralls: inst(f, [], 0)
    return out


class Simp:
    """rewrite conditionals whose test is decided by the quantifier-free hypotheses"""

    def __init__(s, hyps):
        s.raw = list(hyps)
        s.h = [poly.canonH(x) for x in hyps if not has_quant(x)]
        s.memo = {}

    def dec(s, c):
        cc, nc = poly.canonG(c), poly.canonG(not_(c))
        if cc is TRUE: return True
        if nc is TRUE: return False
        if smt.quick_implies(s.h, cc, 300): return True
        if smt.quick_implies(s.h, nc, 300): return False
        if s.raw is not None and relevant_sums([c]):
            if strong_implies(s.raw, c): return True
            if strong_implies(s.raw, not_(c)): return False
        return None

    def go(s, t):
        if not t.args or not has_choice(t): return t
        r = s.memo.get(t.id)
        if r is None:
            r = s._go(t)
            s.memo[t.id] = r
        return r

    def _go(s, t):
        if t.op == "ite":
            c = t.args[0]
            if has_quant(c): c = s.go(c)
            if c.op == "and":
                # drop the conjuncts that hold anyway
                keep, dead = [], False
                changed = False
                for a in c.args:
                    if has_choice(a) and not has_quant(a):
                        a0, a = a, Simp2(s, keep).go(a)
                        changed = changed or a is not a0
                    d = None if has_quant(a) else s.dec(a)
                    if d is False: dead = True
                    if d is not True: keep.append(a)
                if dead: return s.go(t.args[2])
                if changed or len(keep) < len(c.args):
                    c = and_(*keep)
                    if c is TRUE: return s.go(t.args[1])
            if not has_quant(c):
                d = s.dec(c)
                if d is True: return s.go(t.args[1])
                if d is False: return s.go(t.args[2])
            elif s.raw is not None and relevant_sums([c]):
                if strong_implies(s.raw, c): return s.go(t.args[1])
                if strong_implies(s.raw, not_(c)): return s.go(t.args[2])
            a = Simp2(s, [c]).go(t.args[1])
            b = Simp2(s, [not_(c)]).go(t.args[2])
            return ite(c, a, b)
        if t.op in BIND1:
            v, lo, hi, body = t.args
            n = fresh("b", v.sort)
            rng = ([le(lo, n)] if lo is not NONE else []) + ([lt(n, hi)] if hi is not NONE else [])
            lo2 = lo if lo is NONE else s.go(lo)
            hi2 = hi if hi is NONE else s.go(hi)
            b1 = subst(body, {v: n})
            fa = [x for x in s.raw if x.op == "forall"] if has_choice(b1) else []
            b2 = Simp2(s, rng + (instances(fa, [b1], 24, n) if fa else [])).go(b1)
            return binderv(t.op, n, None if lo2 is NONE else lo2, None if hi2 is NONE else hi2, b2)
        if t.op in ("opq", "isum"):
            return t
        a = tuple(s.go(x) for x in t.args)
        return t if a == t.args else ir._rebuild(t, a)


def Simp2(parent, more):
    r = Simp([])
    r.h = parent.h + [poly.canonH(x) for x in more if not has_quant(x)]
    r.raw = parent.raw + list(more)
    return r


def has_choice(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = t.op == "ite" or any(has_choice(a) for a in t.args)
        memo[t.id] = r
    return r


def first_ite(t, quant=False):
    """condition of an outermost ite outside binders"""
    if t.op == "ite" and (quant or not has_quant(t.args[0])): return t.args[0]
    if t.op in BIND1 or t.op in ("opq", "isum"): return None
    for a in t.args:
        r = first_ite(a, quant)
        if r is not None: return r
    return None


def elim(h, t):
    """t with atoms replaced through the equations among the hypotheses"""
    for x in h:
        if x.op not in ("==", "eq0"): continue
        if x.op == "==" and x.args[0].sort == "B": continue
        d = sub(*x.args) if x.op == "==" else x.args[0]
        if has_quant(d): continue
        p = poly.clean(lambda: poly.norm(d))
        if not p: continue
        names = fv(t)
        for m, c in p.items():
            if m[0] or len(m[2]) != 1 or m[2][0][1] != 1: continue
            a = m[2][0][0]
            if a.op not in ("app", "var") or (a.sort == "I" and abs(c) != 1): continue
            if a.op == "app" and a.val in ("cos", "sin", "sqrt", "exp", "floor", "imod", "idiv", "binom"): continue
            if a is PI or not occurs(a, t): continue
            rest = {k: v for k, v in p.items() if k != m}
            r = poly.to_term(poly.pscale(rest, -1 / c), a.sort)
            if occurs(a, r): continue
            t = replace(t, a, r)
            break
    return t


def occurs(a, t, memo=None):
    if t is a: return True
    if not (fv(a) <= fv(t)): return False
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = any(occurs(a, x, memo) for x in t.args)
    return r


def replace(t, a, b):
    """a (free) replaced by b; bound occurrences cannot mention the variables of a"""
    memo = {}

    def go(x):
        if x is a: return b
        if not x.args: return x
        r = memo.get(x.id)
        if r is None:
            if x.op in BIND1 and (x.args[0] in fv(b) or x.args[0] in fv(a)): r = x
            elif x.op in ("opq", "isum"): r = x
            else:
                ys = tuple(go(y) for y in x.args)
                r = x if all(p is q for p, q in zip(ys, x.args)) else ir._rebuild(x, ys)
            memo[x.id] = r
        return r
    return go(t)


def trans_apps(t, out, seen):
    if t.id in seen: return
    seen.add(t.id)
    if t.op == "app" and t.val in ("cos", "sin", "exp", "sqrt", "floor"): out.append(t)
    if t.op in BIND1 or t.op in ("opq", "isum"): return
    for a in t.args: trans_apps(a, out, seen)


def same_arg(a, b):
    """a sufficient condition for a == b: the difference without the factors common to all its monomials"""
    p = poly.clean(lambda: poly.norm(sub(a, b)))
    if not p: return eq(a, b)
    if len(p) == 1:
        (m, _), = p.items()
        fs = [x for x, e in m[2] if e > 0 and x is not PI] if not m[0] else []
        return eq(fs[0], 0) if len(fs) == 1 else eq(a, b)
    common = None
    for m in p:
        if m[0]: return eq(a, b)
        d = {x.id: (x, e) for x, e in m[2]}
        common = d if common is None else {k: (x, min(e, d[k][1]) if e > 0 else max(e, d[k][1])) for k, (x, e) in common.items() if k in d and (e > 0) == (d[k][1] > 0)}
    if not common: return eq(a, b)
    q = {}
    for m, c in p.items():
        fs = tuple((x, e - common[x.id][1] if x.id in common else e) for x, e in m[2])
        q[((), (), tuple((x, e) for x, e in fs if e))] = c
    den = 1
    for c in q.values(): den = den * c.denominator // __import__("math").gcd(den, c.denominator)
    q = poly.pscale(q, den)
    ints = all(x.sort == "I" and e > 0 for m in q for x, e in m[2])
    return eq(poly.to_term(q, "I" if ints else "R"), 0)


def unify_args(h, t, ctx, depth):
    """applications of cos/sin/exp/sqrt/floor whose arguments are equal under the hypotheses are identified"""
    for _ in range(6):
        xs = []
        trans_apps(poly.canon(t), xs, set())
        xs.sort(key=lambda x: len(str(x.args[0])))
        t = poly.canon(t)
        done = False
        for i, x in enumerate(xs):
            for y in [None] + xs[:i]:
                if y is None:
                    if x.val not in ("cos", "sin") or has_quant(x.args[0]): continue
                    b = const(0)
                elif y.val != x.val or y is x: continue
                else: b = y.args[0]
                for sg in (1, -1) if x.val in ("cos", "sin") and y is not None else (1,):
                    c = Ctx(min(ctx.ms, 1000), False)
                    if _prove(h, same_arg(x.args[0], mul(sg, b)), c, depth + 2) == "proved":
                        v = y if y is not None else (const(1, "R") if x.val == "cos" else const(0, "R"))
                        if sg < 0 and x.val == "sin": v = mul(-1, v)
                        t = replace(t, x, v)
                        ctx.backends |= c.backends
                        done = True
                        break
                if done: break
            if done: break
        if not done: return t
        if not poly.clean(lambda: poly.norm(t)) and poly.clean(lambda: poly.norm(t)) is not None: return t
    return t


def linear(t):
    """t as a list of (coefficient, sum or None), or None when a product of sums or a sum inside a condition is in the way"""
    if t.op == "sum": return [(const(1), t)]
    if not relevant_sums([t]): return [(t, None)]
    if t.op == "+":
        out = []
        for a in t.args:
            r = linear(a)
            if r is None: return None
            out += r
        return out
    if t.op == "*":
        ws = [a for a in t.args if relevant_sums([a])]
        if len(ws) != 1: return None
        r = linear(ws[0])
        rest = [a for a in t.args if a is not ws[0]]
        return None if r is None or len(rest) != len(t.args) - 1 else [(mul(c, *rest), x) for c, x in r]
    if t.op == "/" and not relevant_sums([t.args[1]]):
        r = linear(t.args[0])
        return None if r is None else [(div(c, t.args[1]), x) for c, x in r]
    if t.op == "app" and t.val == "toreal": return linear(t.args[0])
    return None


def merge_sums(h, d, ctx, depth):
    """d = 0 by showing that the summands cancel index by index; a hypothesis k = sum(...) turns the terms without a sum into a sum"""
    d = unisum(d)
    L = linear(d)
    if L is None: return False
    if any(x is not None and x.op != "sum" for _, x in L): return False
    sums = [(c, x) for c, x in L if x is not None]
    free = add(*[c for c, x in L if x is None]) if any(x is None for _, x in L) else const(0)
    if not sums: return False
    n = fresh("k", "I")

    def at(x):
        v, lo, hi, body = x.args
        return ite(and_(le(lo, n), lt(n, hi)), subst(body, {v: n}), const(0))
    ones = [None]
    if not poly.clean(lambda: poly.zero(free)):
        ones = []
        for x in h:
            if x.op != "==" or x.args[0].sort == "B": continue
            for a, b in (x.args, x.args[::-1]):
                if b.op == "sum" and isc(a) and a.val != 0: ones.append((a, b))
    for one in ones:
        u = add(*[mul(c, at(x)) for c, x in sums])
        if one is not None: u = add(u, mul(free, div(at(one[1]), one[0])))
        # the same range everywhere: under its guard
        rs = {(x.args[1].id, x.args[2].id) for _, x in sums} | ({(one[1].args[1].id, one[1].args[2].id)} if one else set())
        h2 = h
        if len(rs) == 1:
            x = sums[0][1]
            h2 = h + [le(x.args[1], n), lt(n, x.args[2])]
            u = Simp([le(x.args[1], n), lt(n, x.args[2])]).go(u)
        u = poly.clean(lambda: poly.canon(u))
        fa = [x for x in h if x.op == "forall"]
        h2 = flat_hyps(h2 + instances(fa, [u], 30, n))
        if h2 is None: return True
        if _prove(h2, eq(u, 0), ctx, depth + 1) == "proved": return True
    return False


def unisum(t, memo={}):
    """canonical sums written as nested sums again (so that the sum facts apply to them)"""
    r = memo.get(t.id)
    if r is not None: return r
    if t.op == "isum":
        k = t.val[1]
        bs, dom, body = list(t.args[:k]), t.args[k], unisum(t.args[k + 1])
        conds = list(dom.args) if dom.op == "and" else ([] if dom is TRUE else [dom])
        order, bounds, rest = [], {}, list(conds)
        todo = list(bs)
        while todo:
            for v in todo:
                lo = hi = None
                used = []
                for c in rest:
                    if c.op not in ("gt0", "ge0") or v not in fv(c): continue
                    p = poly.norm(c.args[0])
                    co = p.get(((), (), ((v, 1),)))
                    q = {m: x for m, x in p.items() if m != ((), (), ((v, 1),))}
                    qt = poly.to_term(q, "I")
                    if co not in (1, -1) or v in fv(qt) or any(x in fv(qt) for x in todo if x is not v): continue
                    if co == 1 and lo is None:
                        lo = add(mul(-1, qt), 1 if c.op == "gt0" else 0)
                        used.append(c)
                    elif co == -1 and hi is None:
                        hi = add(qt, 0 if c.op == "gt0" else 1)
                        used.append(c)
                if lo is not None and hi is not None:
                    bounds[v.id] = (lo, hi)
                    rest = [c for c in rest if c not in used]
                    order.append(v)
                    todo.remove(v)
                    break
            else:
                return t
        x = ite(and_(*[unisum(c) for c in rest]), body, const(0, body.sort))
        for v in reversed(order): x = mk("sum", (v,) + bounds[v.id] + (x,), x.sort)
        r = x
    elif t.op == "gt0": r = lt(0, unisum(t.args[0]))
    elif t.op == "ge0": r = le(0, unisum(t.args[0]))
    elif t.op == "eq0": r = eq(0, unisum(t.args[0]))
    elif t.op == "iv": r = ite(unisum(t.args[0]), const(1), const(0))
    elif not t.args or t.op in BIND1 or t.op == "opq": r = t
    else: r = ir._rebuild(t, tuple(unisum(a) for a in t.args))
    memo[t.id] = r
    return r


def zero_under(hyps, t, ctx):
    poly.reset_side()
    if not poly.zero(t):
        return False
    sides = list(poly.side.values())
    poly.reset_side()
    for c in sides:
        if not prove_goal(hyps, unisum(c), ctx.ms // 2, depth=1, sides=True)[0] == "proved":
            ctx.detail = "side condition not provable: %s" % pp(c, 6)
            return False
    return True


def prove_eq(hyps, a, b, ctx, depth):
    a, b = b2i(a), b2i(b)
    t = sub(a, b)
    if zero_under(hyps, t, ctx):
        ctx.backends.add("normaliser")
        return True
    s = Simp(hyps)
    t2 = s.go(t)
    if t2 is not t and zero_under(hyps, t2, ctx):
        ctx.backends.add("normaliser")
        return True
    return None


def size(t, cap=2000):
    n, seen, st = 0, set(), [t]
    while st and n < cap:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        n += 1
        st.extend(x.args)
    return n


def congruent(a, b):
    """equalities that suffice for a == b when both have the same form: [(range facts, x, y)], or None"""
    a, b = b2i(a), b2i(b)
    if a is b: return []
    if a.op == "app" and b.op == "app" and a.val == b.val and a.val in ("cos", "sin", "sqrt", "exp", "floor") and len(a.args) == 1:
        x, y = a.args[0], b.args[0]
        r = congruent(x, y)
        return r if r is not None else [([], x, y)]
    if a.op == "sum" and b.op == "sum" and a.args[1] is b.args[1] and a.args[2] is b.args[2]:
        n = fresh("k", "I")
        return [([le(a.args[1], n), lt(n, a.args[2])], subst(a.args[3], {a.args[0]: n}), subst(b.args[3], {b.args[0]: n}))]
    if a.op == b.op and a.op in ("*", "+"):
        xs, ys = list(a.args), list(b.args)
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        out, left = [], []
        for x in xs:
            if x.op in ("sum", "app"):
                for y in ys:
                    if y.op == x.op and (x.op == "sum" or x.val == y.val):
                        r = congruent(x, y)
                        if r is not None:
                            out += r
                            ys.remove(y)
                            break
                else: return None
            else: left.append(x)
        if len(left) != len(ys) or len(left) > 1: return None
        if left:
            r = congruent(left[0], ys[0])
            out += r if r is not None else [([], left[0], ys[0])]
        return out if out else []
    return None


def prove_goal(hyps, goal, ms=6000, depth=0, sides=False, cvc5=True, noalg=False):
    """-> (status, backends, detail)"""
    ctx = Ctx(ms, cvc5)
    h = flat_hyps(hyps)
    if h is None: return "proved", {"normaliser"}, "contradictory hypotheses"
    fa = [x for x in h if x.op == "forall"]
    if fa and depth == 0:
        more = instances(fa, [truth(goal)] + [x for x in h if x.op != "forall"])
        if more: h = flat_hyps(h + more)
        if h is None: return "proved", {"normaliser"}, "contradictory hypotheses"
    st = _prove(h, truth(goal), ctx, depth)
    return st, ctx.backends, ctx.detail


def _prove(h, g, ctx, depth):
    if not DEBUG: return _prove_(h, g, ctx, depth)
    t0 = time.time()
    r = _prove_(h, g, ctx, depth)
    print("  " * depth, r, "%.2f" % (time.time() - t0), pp(g, 9)[:300])
    return r


def _prove_(h, g, ctx, depth):
    if g is TRUE:
        ctx.backends.add("normaliser")
        return "proved"
    if any(x is g for x in h):
        ctx.backends.add("normaliser")
        return "proved"
    if g.op == "and":
        res = "proved"
        for a in g.args:
            r = _prove(h, a, ctx, depth)
            if r != "proved": return r
        return res
    if g.op == "forall":
        v, lo, hi, body = g.args
        n = fresh("k", v.sort)
        rng = ([le(lo, n)] if lo is not NONE else []) + ([lt(n, hi)] if hi is not NONE else [])
        return _prove(h + rng, subst(body, {v: n}), ctx, depth)
    if g.op == "not":
        a = g.args[0]
        if a.op == "exists":
            v, lo, hi, body = a.args
            return _prove(h, mk("forall", (v, lo, hi, not_(body)), "B"), ctx, depth)
        if a.op == "forall" and depth < 7:
            v, lo, hi, body = a.args
            return _prove(h, mk("exists", (v, lo, hi, not_(body)), "B"), ctx, depth)
        if a.op == "or": return _prove(h, and_(*[not_(x) for x in a.args]), ctx, depth)
        if a.op == "and": return _prove(h, or_(*[not_(x) for x in a.args]), ctx, depth)
        if a.op == "<": return _prove(h, le(a.args[1], a.args[0]), ctx, depth)
        if a.op == "<=": return _prove(h, lt(a.args[1], a.args[0]), ctx, depth)
    if g.op == "or":
        neg, rest = [], []
        for a in g.args:
            if a.op == "not": neg.append(a.args[0])
            elif a.op == "exists": rest.append(a)
            else: rest.append(a)
        foralls = [a for a in rest if a.op in ("forall", "and")]
        if neg or len(foralls) == 1 and len(rest) > 1:
            if len(rest) > 1:
                main = foralls[0] if len(foralls) == 1 else None
                if main is not None:
                    extra = [not_(a) for a in rest if a is not main]
                    h2 = flat_hyps(h + neg + extra)
                    if h2 is None:
                        ctx.backends.add("normaliser")
                        return "proved"
                    return _prove(h2, main, ctx, depth)
            h2 = flat_hyps(h + neg)
            if h2 is None:
                ctx.backends.add("normaliser")
                return "proved"
            return _prove(h2, or_(*rest) if rest else FALSE, ctx, depth)
    if g.op == "==" and g.args[0].sort == "B":
        a, b = g.args
        r = _prove(h, implies(a, b), ctx, depth)
        if r != "proved": return r
        return _prove(h, implies(b, a), ctx, depth)
    if g.op == "==":
        if depth < 6 and size(g) > 120:
            # large terms of the same form: part by part
            sub_ = congruent(g.args[0], g.args[1])
            if sub_ is not None and len(sub_) == 1 and not sub_[0][0]:
                g_ = Simp(h).go(eq(*sub_[0][1:]))
                sub_ = (congruent(*g_.args) if g_.op == "==" else None) or [([], g_, TRUE)]
            if not has_quant(g) and not relevant_sums([g]) and smt.quick_implies([poly.canonH(x) for x in h if not has_quant(x)], g, 1500):
                ctx.backends.add("z3")
                return "proved"
            if sub_ is not None and all(_prove(h + ex, eq(x, y), ctx, depth + 1) == "proved" for ex, x, y in sub_): return "proved"
        r = prove_eq(h, g.args[0], g.args[1], ctx, depth)
        if r: return "proved"
        a, b = g.args
        te = elim(h, sub(b2i(a), b2i(b)))
        if zero_under(h, te, ctx):
            ctx.backends.add("normaliser")
            return "proved"
        if a.op == "sum" and b.op == "sum" and a.args[1] is b.args[1] and a.args[2] is b.args[2] and depth < 5:
            # congruence: equal summands
            n = fresh("k", "I")
            r = _prove(h + [le(a.args[1], n), lt(n, a.args[2])], eq(subst(a.args[3], {a.args[0]: n}), subst(b.args[3], {b.args[0]: n})), ctx, depth + 1)
            if r == "proved": return r
        if depth < 6 and relevant_sums([g]) and merge_sums(h, sub(b2i(a), b2i(b)), ctx, depth):
            return "proved"
        if depth == 0 and relevant_sums([g]):
            c = poly.clean(lambda: poly.canonB(g))
            for x in h:
                if x.op == "==" and relevant_sums([x]) and poly.clean(lambda: poly.canonB(x)) is c is not None:
                    ctx.backends.add("normaliser")
                    return "proved"
        for x in (a, b):
            if x.op == "ite" and has_quant(x.args[0]) and depth < 7:
                y = b if x is a else a
                for c, v in ((x.args[0], x.args[1]), (not_(x.args[0]), x.args[2])):
                    h2 = flat_hyps(h + [c])
                    if h2 is None: continue
                    r = _prove(h2, eq(v, y), ctx, depth + 1)
                    if r != "proved": return r
                return "proved"
    # simplify, then SMT
    s = Simp(h)
    g2 = s.go(g) if g is not FALSE else g
    if g2 is TRUE or g2 is not g and g2.op in ("and", "or", "not", "forall") and depth < 4 and g2.op != g.op:
        return _prove(h, g2, ctx, depth + 1)
    if g2.op == "==" and g2.args[0].sort != "B" and depth < 7:
        d_ = sub(g2.args[0], g2.args[1])
        c = first_ite(d_)
        if c is None and depth < 5: c = first_ite(d_, True)
        if c is not None:
            for q in (c, not_(c)):
                h2 = flat_hyps(h + [q])
                if h2 is None: continue
                if smt.quick_unsat([poly.canonH(x) for x in h2 if not has_quant(x)], 300): continue
                r = _prove(h2, replace(g2, c, TRUE if q is c else FALSE), ctx, depth + 1)
                if r != "proved": return r
            ctx.backends.add("normaliser")
            return "proved"
        if depth < 6:
            xs = []
            trans_apps(d_, xs, set())
            if xs:
                t3 = unify_args(h, d_, ctx, depth)
                if zero_under(h, t3, ctx) or zero_under(h, elim(h, t3), ctx) or relevant_sums([t3]) and t3 is not d_ and merge_sums(h, t3, ctx, depth + 1):
                    ctx.backends.add("normaliser")
                    return "proved"
    fa = [x for x in h if x.op == "forall"]
    for g3 in ((g2, g) if depth == 0 and g2 is not g and has_quant(g) else (g2,)):
        gi = instances(fa, [g3], 150) if fa and depth < 6 else []
        gi = discharge_guards(h, gi) if gi else []
        if gi:
            h2 = flat_hyps([x for x in h if not has_quant(x)] + gi)
            if h2 is None:
                ctx.backends.add("normaliser")
                return "proved"
            r = _prove_ground(h2, g3, ctx)
            if r: return "proved"
    r = _smt(h, g2, ctx)
    if r != "proved" and g2.op == "exists" and depth < 3 and ctx.cvc5:
        # a positive sum has a non-zero term: try its index as the witness
        v, lo, hi, body = g2.args
        for S in relevant_sums([x for x in h if x.op != "forall"]):
            if S.op != "sum" or not strong_implies(h, not_(eq(S, 0))): continue
            sv, slo, shi, sb = S.args
            w = fresh("w", "I")
            h2 = flat_hyps(h + [le(slo, w), lt(w, shi), not_(eq(subst(sb, {sv: w}), 0))])
            if h2 is None: continue
            rng = ([le(lo, w)] if lo is not NONE else []) + ([lt(w, hi)] if hi is not NONE else [])
            if _prove(h2, and_(*(rng + [subst(body, {v: w})])), ctx, depth + 2) == "proved": return "proved"
    if r != "proved" and g2.op == "exists" and depth < 3:
        # a variable known to lie in the range as the witness
        v, lo, hi, body = g2.args
        ws = [x.args[0] for x in h if x.op == "<" and x.args[1] is hi and x.args[0].op == "var" and x.args[0].sort == v.sort] if hi is not NONE else []
        for w in list(dict.fromkeys(ws))[:4]:
            if _prove(h, and_(*(([le(lo, w)] if lo is not NONE else []) + [lt(w, hi), subst(body, {v: w})])), ctx, depth + 3) == "proved": return "proved"
    return r


def discharge_guards(h, gs):
    """the consequents of the implications whose guards follow from the ground hypotheses"""
    H = [poly.canonH(x) for x in h if not has_quant(x)]
    out = []
    for g in gs:
        if has_quant(g): continue
        args = list(g.args) if g.op == "or" else [g]
        # the literals refuted by the hypotheses disappear
        left = [a for a in args if not smt.quick_implies(H, poly.canonH(not_(a)), 200)]
        if len(left) == len(args) or len(left) > 2: continue
        x = or_(*left) if left else FALSE
        if x not in out: out.append(x)
    return out


def _prove_ground(h, g, ctx):
    if g.op == "==" and g.args[0].sort != "B":
        if zero_under(h, elim(h, sub(g.args[0], g.args[1])), ctx):
            ctx.backends.update(("normaliser", "z3"))
            return True
    if smt.quick_implies([poly.canonH(x) for x in h if not has_quant(x)], poly.canonG(g), 1500):
        ctx.backends.update(("normaliser", "z3"))
        return True
    return False


_strong = {}


def strong_implies(h, c, ms=1500):
    """with the facts about sums; memoised"""
    k = (tuple(x.id for x in h), c.id)
    r = _strong.get(k)
    if r is None:
        _strong[k] = False
        hh = flat_hyps(h)
        r = _strong[k] = hh is None or _smt(hh, c, Ctx(ms, False)) == "proved"
    return r


def relevant_sums(ts):
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ("isum",) or (x.op == "sum"):
            out.append(x)
            continue
        if x.op in BIND1 or x.op == "opq": continue
        st.extend(x.args)
    return out


def sum_facts(h, ts, full=False):
    """facts about the sums of the goal, each justified by the signs of the summands:
    S >= 0; a prefix sum plus its next term is at most the whole sum; S <= the same sum without its conditions"""
    out, seen = Guarded(), set()
    guards = {}          # sum about a witness -> the range of the witness
    h0 = h
    todo = [(S, 0) for S in relevant_sums(ts)]
    upper, cands = {}, []
    for x in h:
        if x.op == "<" and x.args[0].op in ("var", "app", "first", "argmax", "argmin") and x.args[0].sort == "I" and not isc(x.args[1]):
            if x.args[0] not in cands: cands.append(x.args[0])
    cands = cands[-8:]
    for x in h:
        if x.op == "<" and x.args[0].op == "var": upper.setdefault(x.args[0].id, []).append(x.args[1])
    while todo:
        S, depth = todo.pop()
        if S.op != "sum" or S.id in seen or len(seen) > 60: continue
        seen.add(S.id)
        out.guard = guards.get(S.id, ())
        h = h0 + list(out.guard)
        v, lo, hi, body = S.args
        # a sum with only zero terms is zero
        if not full: out.append(or_(eq(S, 0), binderv("exists", v, lo, hi, not_(eq(body, 0)))))
        else:
            w = fresh("w", "I")
            bw = subst(body, {v: w})
            out.append(or_(eq(S, 0), and_(le(lo, w), lt(w, hi), not_(eq(bw, 0)))))
        if full and depth < 1:
            for x in relevant_sums([bw]): guards.setdefault(x.id, [le(lo, w), lt(w, hi)])
            todo += [(x, depth + 2) for x in relevant_sums([bw])]
        if depth < 3: todo += [(x, depth + 1) for x in free_sums(body, v)]
        if not nonneg_sum(h, S): continue
        out.append(le(0, S))
        if full: out.append(binderv("forall", v, lo, hi, le(body, S)))
        # every single term is at most the sum
        if depth < 3:
            for w in cands:
                if w is hi: continue
                b = subst(body, {v: w})
                out.append(implies(and_(le(lo, w), lt(w, hi)), le(b, S)))
                todo += [(x, depth + 1) for x in relevant_sums([b])]
        if depth < 3:
            for H in upper.get(hi.id, ()):
                T = mk("sum", (v, lo, H, body), S.sort)
                nxt = subst(body, {v: hi})
                out.append(implies(le(lo, hi), le(add(S, nxt), T)))
                out.append(le(0, nxt))
                todo += [(T, depth + 1)] + [(x, depth + 1) for x in relevant_sums([nxt])]
        U = majorant(S)
        if U is not None and U is not S:
            out.append(le(S, U))
            out.append(le(0, U))
        c = chain_count(U if U is not None else S)
        if c is not None: out.append(c)
    # a sum over a longer range is the sum over the shorter range plus the terms between
    out.guard = ()
    tops = [x for x in relevant_sums(ts) if x.op == "sum" and poly.clean(lambda: poly.zero(x.args[1]))][:24]
    for S in tops:
        for T in tops:
            if S is T: continue
            n = poly.clean(lambda: poly.canon(sub(T.args[2], S.args[2])))
            if n is None or not isc(n) or not 0 < n.val <= 3: continue
            k = fresh("k", S.args[0].sort)
            if not poly.clean(lambda: poly.zero(sub(subst(S.args[3], {S.args[0]: k}), subst(T.args[3], {T.args[0]: k})))): continue
            ends = [subst(S.args[3], {S.args[0]: add(S.args[2], j)}) for j in range(int(n.val))]
            out.append(implies(le(S.args[1], S.args[2]), eq(T, add(S, *ends))))
    return out


class Guarded(list):
    guard = ()

    def append(s, x): list.append(s, implies(and_(*s.guard), x))


def free_sums(body, v):
    return [x for x in relevant_sums([body]) if v not in fv(x)]


def nonneg_sum(h, S):
    k = (tuple(x.id for x in h), S.id)
    r = _nn_memo.get(k)
    if r is None: r = _nn_memo[k] = nonneg(h, S)
    return r


_nn_memo = {}


def majorant(t):
    """t with the conditions of its constant summands dropped (None when t has another form)"""
    if isc(t): return t if t.val >= 0 else const(0)
    if t.op == "sum":
        v, lo, hi, body = t.args
        b = majorant(body)
        return None if b is None else mk("sum", (v, lo, hi, b), t.sort)
    if t.op == "ite":
        a, b = majorant(t.args[1]), majorant(t.args[2])
        if a is None or b is None: return None
        if isc(b) and b.val == 0: return a
        if isc(a) and a.val == 0: return b
        return None
    return None


def chain_count(t):
    """sum over lo <= x1 < ... < xk < hi of a constant is constant * binom(hi - lo, k), whichever of the x's is summed first"""
    chain, cur, lo0, hi0 = [], t, None, None
    while cur.op == "sum":
        v, lo, hi, body = cur.args
        if not chain:
            lo0, hi0 = lo, hi
            chain = [v]
        else:
            same = lambda a, b: poly.zero(sub(a, b))
            for k in range(len(chain) + 1):
                below, above = lo0 if k == 0 else add(chain[k - 1], 1), hi0 if k == len(chain) else chain[k]
                if same(lo, below) and same(hi, above): break
            else: return None
            chain.insert(k, v)
        if any(x in fv(hi0) | fv(lo0) for x in chain): return None
        cur = body
    if not chain or not isc(cur): return None
    n = sub(hi0, lo0)
    return implies(le(0, n), eq(t, mul(cur, app("binom", (n, const(len(chain))), "I"))))


def nonneg(h, t, d=0):
    if t.op == "sum":
        v, lo, hi, body = t.args
        n = fresh("k", v.sort)
        return nonneg(h + [le(lo, n), lt(n, hi)], subst(body, {v: n}), d + 1)
    if t.op in ("+", "*") and all(nonneg(h, a, d + 1) for a in t.args): return True
    if isc(t): return t.val >= 0
    if t.op == "ite": return nonneg(h + [t.args[0]], t.args[1], d + 1) and nonneg(h + [not_(t.args[0])], t.args[2], d + 1)
    hq = [poly.canonH(x) for x in h if not has_quant(x)]
    g = poly.canonG(le(0, t))
    if smt.quick_implies(hq, g, 400): return True
    r = smt.prove([poly.canonH(x) for x in h], g, 1500, False)
    return r[0] == "unsat"


def _smt(h, g, ctx):
    rel = [x for x in h if x.op != "forall"] + [g]
    if not relevant_sums(rel): return _smt1(h, g, ctx, [])
    r = _smt1(h, g, ctx, sum_facts(h, rel))
    if r != "proved" and ctx.cvc5: r = _smt1(h, g, ctx, sum_facts(h, rel, True))
    return r


def _smt1(h, g, ctx, facts):
    hc, seen = [], set()
    for x in h + facts:
        c = poly.canonH(x)
        if c is TRUE or c.id in seen: continue
        if c is FALSE:
            ctx.backends.add("normaliser")
            return "proved"
        seen.add(c.id)
        hc.append(c)
    gc = poly.canonG(g)
    if gc is TRUE or gc.id in seen:
        ctx.backends.add("normaliser")
        return "proved"
    r, be, model = smt.prove(hc, gc, ctx.ms, ctx.cvc5)
    if r == "unsat":
        ctx.backends.add(be)
        return "proved"
    ctx.failed = g
    ctx.detail = ("%s: cannot prove  %s\n  under %s%s" % (be, pp(g, 9), "; ".join(pp(x, 6) for x in h[-14:]), ("\n  model " + model) if model else ""))[:3500]
    return "failed" if r == "sat" else "unknown"


def run(obls, ms=6000, cvc5=True, budget=120):
    out, seen = [], {}
    t_end = time.time() + budget
    for o in obls:
        key = (tuple(x.id for x in o["hyps"]), o["goal"].id)
        if key in seen:
            r = seen[key]
            if all(x["name"] != o["name"] for x in out): out.append(dict(r, name=o["name"], function=o["function"], ms=0))
            continue
        t0 = time.time()
        if time.time() > t_end:
            out.append(dict(name=o["name"], function=o["function"], status="unknown", backend="none", ms=0, detail="time budget of the check exhausted"))
            continue
        try:
            st, be, det = prove_goal(o["hyps"], o["goal"], ms, cvc5=cvc5)
        except RecursionError:
            st, be, det = "unknown", set(), "recursion limit"
        out.append(dict(name=o["name"], function=o["function"], status=st, backend="+".join(sorted(be)) or "none",
                        ms=int(1000 * (time.time() - t0)), detail=det if st != "proved" else ""))
        seen[key] = out[-1]
    return out


def satisfiable(hyps, ms=3000):
    """False when the hypotheses are contradictory (vacuity guard); quantified ones are left out"""
    h = flat_hyps(hyps)
    if h is None: return False
    hq = [poly.canonH(x) for x in h if not has_quant(x)]
    if any(x is FALSE for x in hq): return False
    return not smt.quick_unsat(hq, ms)
