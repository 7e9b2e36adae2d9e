"""Back ends: z3 (python API) and cvc5 (SMT-LIB text produced by z3), and the axioms of the non-SMT operators."""
import time, subprocess, os, shutil
from fractions import Fraction
import z3
from . import ir
from .ir import *

STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0], "quick": [0, 0.0]}
FUNCS = {}
REAL_ARGS = {"bump", "arccos", "arctan2", "angle"}
UNARY_R = ("sqrt", "exp", "cos", "sin")


def zsort(s):
    return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]


class Enc:
    """one encoding session: translates terms, collecting axioms for the special operators met"""

    def __init__(s):
        s.memo = {}
        s.axioms = []
        s.keys = {}
        s.seen = set()
        s.queue = []
        s.unary = {k: {} for k in UNARY_R}
        s.abstract = s.rounds = s.opaque_rounding = False
        s.binoms, s.numberings = [], []

    def func(s, name, args, sort):
        key = (name, tuple(a.sort for a in args), sort)
        f = FUNCS.get(key)
        if f is None:
            nm = name if all(k[0] != name for k in FUNCS) else "%s__%d" % (name, len(FUNCS))
            f = FUNCS[key] = z3.Function(nm, *([zsort(a.sort) for a in args] + [zsort(sort)]))
        return f

    def z(s, t):
        r = s.memo.get(t.id)
        if r is None:
            r = s._z(t)
            s.memo[t.id] = r
        return r

    def num(s, t, real):
        x = s.z(t)
        if t.sort == "B":
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            return z3.ToReal(x) if real else x
        if real and t.sort == "I":
            if t.op == "const":
                return z3.RealVal(str(t.val))
            return z3.ToReal(x)
        return x

    def _z(s, t):
        op = t.op
        if op == "const":
            if t.sort == "B": return z3.BoolVal(bool(t.val))
            if t.sort == "I": return z3.IntVal(int(t.val))
            return z3.RealVal(str(t.val))
        if op == "var":
            if t is PI:
                s.ax("pi", lambda: [z3.Real("pi") > z3.RealVal("3.1415926535"), z3.Real("pi") < z3.RealVal("3.1415926536")])
                return z3.Real("pi")
            return z3.Const(t.val, zsort(t.sort))
        if op == "none":
            return z3.IntVal(0)
        if op in ("+", "*"):
            real = t.sort == "R"
            xs = [s.num(a, real) for a in t.args]
            if op == "+": return z3.Sum(xs)
            r = xs[0]
            for x in xs[1:]: r = r * x
            return r
        if op == "/":
            return s.num(t.args[0], True) / s.num(t.args[1], True)
        if op in ("<", "<=", "=="):
            a, b = t.args
            if op == "==" and a.sort == "B": return s.z(a) == s.z(b)
            real = a.sort == "R" or b.sort == "R"
            x, y = s.num(a, real), s.num(b, real)
            return x < y if op == "<" else x <= y if op == "<=" else x == y
        if op in ("gt0", "ge0", "eq0"):
            x = s.z(t.args[0])
            return x > 0 if op == "gt0" else x >= 0 if op == "ge0" else x == 0
        if op == "and": return z3.And(*[s.z(a) for a in t.args])
        if op == "or": return z3.Or(*[s.z(a) for a in t.args])
        if op == "not": return z3.Not(s.z(t.args[0]))
        if op == "iv": return z3.If(s.z(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "ite":
            real = t.sort == "R"
            return z3.If(s.z(t.args[0]), s.num(t.args[1], real), s.num(t.args[2], real))
        if op in ("forall", "exists"):
            v, lo, hi, body = t.args
            zv = s.z(v)
            b = s.z(body)
            rng = []
            if lo is not NONE: rng.append(s.num(lo, v.sort == "R") <= zv)
            if hi is not NONE: rng.append(zv < s.num(hi, v.sort == "R"))
            if op == "forall":
                return z3.ForAll([zv], z3.Implies(z3.And(*rng), b) if rng else b)
            return z3.Exists([zv], z3.And(*(rng + [b])))
        if op == "app":
            return s._app(t)
        if op in BIND1 or op in ("isum", "opq"):
            return s._binder(t)
        raise NotImplementedError(op)

    def _app(s, t):
        n = t.val
        if n == "floor":
            return z3.ToInt(s.num(t.args[0], True))
        if n in ("rint", "trunc"):
            s.rounds = True
            if s.opaque_rounding: return s.func(n, [mk("var", (), "R", "_")], "I")(s.num(t.args[0], True))
        if n == "rint":      # to nearest, halves to even
            a = s.num(t.args[0], True) + z3.RealVal("1/2")
            f = z3.ToInt(a)
            return z3.If(z3.And(z3.ToReal(f) == a, f % 2 == 1), f - 1, f)
        if n == "trunc":
            a = s.num(t.args[0], True)
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        if n in ("imod", "idiv"):
            # Python's floor division agrees with SMT-LIB's for positive divisors only
            a, b = s.z(t.args[0]), s.z(t.args[1])
            r = a % b if n == "imod" else a / b
            if isc(t.args[1]) and t.args[1].val > 0: return r
            return z3.If(b > 0, r, s.func(n + "_neg", t.args, "I")(a, b))
        if n in UNARY_R:
            a = s.num(t.args[0], True)
            f = s.func(n, [t.args[0] if t.args[0].sort == "R" else mk("var", (), "R", "_")], "R")
            r = f(a)
            if t.id not in s.unary[n]:
                s.unary[n][t.id] = (t, a, r)
            return r
        if n in REAL_ARGS:
            f = s.func(n, [mk("var", (), "R", "_")] * len(t.args), t.sort)
            return f(*[s.num(a, True) for a in t.args])
        f = s.func(n, t.args, t.sort)
        if not t.args:
            return f()
        r = f(*[s.num(a, a.sort == "R") if a.sort != "B" else s.z(a) for a in t.args])
        if n == "binom":
            s.ax(("binom", t.id), lambda: s._binom_ax(t, r))
            if not s._hasbound(t) and not any(x is t for x, _ in s.binoms): s.binoms.append((t, r))
        if n in ("N1", "N2", "N3") and not s._hasbound(t) and not any(x is t for x, _ in s.numberings): s.numberings.append((t, r))
        return r

    def _binom_ax(s, t, r):
        n, k = t.args
        out = [r >= 0] if not s._bound(t) else []
        if isc(k):
            zn = s.z(n)
            kk = int(k.val)
            if s._bound(t): return []
            if kk == 0: out.append(r == 1)
            if kk == 1: out.append(r == zn)
            if kk == 2: out.append(2 * r == zn * (zn - 1))
            if kk == 3: out.append(6 * r == zn * (zn - 1) * (zn - 2))
            if kk == 4: out.append(24 * r == zn * (zn - 1) * (zn - 2) * (zn - 3))
        return out

    def _bound(s, t):
        return any(v.val[0] == "$" for v in fv(t))

    def ax(s, key, mkax):
        if key in s.seen: return
        s.seen.add(key)
        s.axioms.extend(mkax())

    def _binder(s, t):
        """uninterpreted function of the free variables, named by the alpha-canonical digest"""
        free = sorted(fv(t), key=lambda v: (v.sort, v.val))
        free = [v for v in free if v is not PI and v is not NAN and v is not INF]
        ren = {v: var("@%d" % k, v.sort) for k, v in enumerate(free)}
        tc = _csort(_alpha(subst(t, ren)))
        # order of placeholders depends on variable names: canonicalise by first occurrence
        order = []
        _occ(tc, order, set())
        ren2 = {var("@%s" % v.val[1:], v.sort): var("#%d" % k, v.sort) for k, v in enumerate(order)}
        tc2 = subst(tc, ren2)
        actual = {ren[v].val: v for v in free}
        args = [actual[v.val] for v in order]
        key = "%s_%s" % (t.op if t.op != "opq" else t.val[0], dg(tc2)[:10])
        f = s.func(key, args, t.sort)
        zargs = [s.z(a) for a in args]
        r = f(*zargs) if args else f()
        if key not in s.keys:
            s.keys[key] = (tc2, [var("#%d" % k, v.sort) for k, v in enumerate(order)], t.sort)
            s.queue.append(key)
        return r

    def finish(s):
        """axioms for the operators met (may meet new ones); returns list of z3 axioms"""
        rounds = 0
        while s.queue and rounds < 60:
            rounds += 1
            key = s.queue.pop()
            t, ps, sort = s.keys[key]
            s.axioms.extend(s._op_axioms(key, t, ps, sort))
        out = list(s.axioms)
        for n, d in s.unary.items():
            items = [x for x in d.values()]
            ground = [x for x in items if not s._hasbound(x[0])]
            bound = [x for x in items if s._hasbound(x[0])]
            for t, a, r in ground:
                if n == "sqrt": out += [z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))]
                if n == "exp": out += [r > 0, r >= 1 + a, z3.Implies(a < 0, r * (-a) <= 1), z3.Implies(a <= 0, r <= 1)]
                if n in ("cos", "sin"): out += [r <= 1, r >= -1]
            if bound:
                x = z3.Real("ax!x")
                f = s.func(n, [mk("var", (), "R", "_")], "R")
                if n == "sqrt": out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(f(x) >= 0, f(x) * f(x) == x)), patterns=[f(x)]))
                if n == "exp": out.append(z3.ForAll([x], f(x) > 0, patterns=[f(x)]))
                if n in ("cos", "sin"): out.append(z3.ForAll([x], z3.And(f(x) <= 1, f(x) >= -1), patterns=[f(x)]))
            if n == "exp":
                for i in range(len(ground)):
                    for j in range(i):
                        (_, a, r), (_, b, q) = ground[i], ground[j]
                        out += [z3.Implies(a <= b, r <= q), z3.Implies(b <= a, q <= r)]
            if n == "sqrt":
                for i in range(len(ground)):
                    for j in range(i):
                        (_, a, r), (_, b, q) = ground[i], ground[j]
                        out += [z3.Implies(z3.And(0 <= a, a <= b), r <= q), z3.Implies(z3.And(0 <= b, b <= a), q <= r)]
        # numbering of strictly increasing tuples (lemma num_lt, proved in Lean): 0 <= N(v) < binom(n, k) when v_last < n
        for t, r in s.numberings:
            za = [s.z(a) for a in t.args]
            chain = [za[0] >= 0] + [x < y for x, y in zip(za, za[1:])]
            out.append(z3.Implies(z3.And(*chain), r >= 0))
            for b, rb in s.binoms:
                if isc(b.args[1]) and int(b.args[1].val) == len(za):
                    out.append(z3.Implies(z3.And(*(chain + [za[-1] < s.z(b.args[0])])), r < rb))
        cs = {str(a): (a, r) for _, a, r in s.unary["cos"].values()}
        for _, a, r in s.unary["sin"].values():
            if str(a) in cs:
                q = cs[str(a)][1]
                out.append(q * q + r * r == 1)
        return out

    def _hasbound(s, t):
        return any(v.val[0] in "$#" or v.val in s._binders for v in fv(t))

    _binders = frozenset()

    def _op_axioms(s, key, t, ps, sort):
        """defining axioms, universally quantified over the parameters"""
        zp = [s.z(p) for p in ps]
        f = [v for k, v in FUNCS.items() if k[0] == key]
        f = s.func(key, ps, sort)
        fx = f(*zp) if ps else f()

        def q(body):
            if not ps: return body
            return z3.ForAll(zp, body, patterns=[fx])
        op = t.op
        if op == "isum" and t.val[1] == 1:
            n = _count(t)
            if n is not None:
                z = s.z(n)
                return [q(fx == z3.If(z > 0, z, 0))]
        if op in ("argmax", "argmin", "maxo", "mino", "first", "last"):
            v, lo, hi, body = t.args
            zl, zh = s.z(lo), s.z(hi)
            zv = z3.Int("ax!t%d" % len(FUNCS))
            vv = fresh("axv")
            b = subst(body, {v: vv})

            def at(x):      # body at a z3 integer
                return z3.substitute(s.z(b), (s.z(vv), x))
            if op in ("argmax", "argmin"):
                cmp_ = (lambda x, y: x <= y) if op == "argmax" else (lambda x, y: x >= y)
                strict = (lambda x, y: x < y) if op == "argmax" else (lambda x, y: x > y)
                return [q(z3.Implies(zl < zh, z3.And(zl <= fx, fx < zh,
                        z3.ForAll([zv], z3.Implies(z3.And(zl <= zv, zv < zh), z3.And(cmp_(at(zv), at(fx)), z3.Implies(zv < fx, strict(at(zv), at(fx)))))))))]
            if op in ("maxo", "mino"):
                le_ = (lambda x, y: x <= y) if op == "maxo" else (lambda x, y: x >= y)
                return [q(z3.Implies(zl < zh, z3.And(z3.ForAll([zv], z3.Implies(z3.And(zl <= zv, zv < zh), le_(at(zv), fx))),
                        z3.Exists([zv], z3.And(zl <= zv, zv < zh, at(zv) == fx)))))]
            if op == "first":
                return [q(z3.And(z3.Implies(zl <= zh, z3.And(zl <= fx, fx <= zh)), z3.Implies(z3.And(zl <= fx, fx < zh), at(fx)),
                        z3.ForAll([zv], z3.Implies(z3.And(zl <= zv, zv < zh, zv < fx), z3.Not(at(zv))))))]
            if op == "last":
                return [q(z3.And(z3.Implies(zl <= zh, z3.And(zl - 1 <= fx, fx < zh)), z3.Implies(z3.And(zl <= fx, fx < zh), at(fx)),
                        z3.ForAll([zv], z3.Implies(z3.And(zl <= zv, zv < zh, zv > fx), z3.Not(at(zv))))))]
        return []


def _count(t):
    """length of the range of a sum of ones over one range lo <= v < hi"""
    from . import poly
    v, dom, body = t.args
    if not (isc(body) and body.val == 1): return None
    los, his = [], []
    for d in (dom.args if dom.op == "and" else (dom,)):
        if d.op != "gt0": return None
        lk = poly._lin(poly.norm(d.args[0]), v)
        if not lk or abs(lk[0]) != 1: return None
        r = poly.to_term(lk[1])
        if lk[0] == 1: los.append(sub(1, r))
        else: his.append(r)
    if len(los) != 1 or len(his) != 1: return None
    return sub(his[0], los[0])


def _alpha(t):
    """rename binders canonically (by depth) so that digests are alpha-invariant"""
    memo = {}

    def go(t, depth):
        if not t.args: return t
        k = (t.id, depth)
        if k in memo: return memo[k]
        nb = ir.nbind(t)
        if nb:
            if t.op in BIND1:
                nv = var("?%d" % depth, t.args[0].sort)
                body = subst(t.args[3], {t.args[0]: nv})
                r = mk(t.op, (nv, go(t.args[1], depth), go(t.args[2], depth), go(body, depth + 1)), t.sort, t.val)
            else:
                ren = {b: var("?%d" % (depth + i), b.sort) for i, b in enumerate(t.args[:nb])}
                if t.op == "opq":
                    kk = t.val[2]
                    r = mk("opq", tuple(ren.values()) + tuple(go(subst(a, ren), depth + nb) for a in t.args[nb:nb + kk]) + tuple(go(a, depth) for a in t.args[nb + kk:]), t.sort, t.val)
                else:
                    r = mk(t.op, tuple(ren.values()) + tuple(go(subst(a, ren), depth + nb) for a in t.args[nb:]), t.sort, t.val)
        else:
            r = mk(t.op, tuple(go(a, depth) for a in t.args), t.sort, t.val)
        memo[k] = r
        return r
    return go(t, 0)


def _csort(t, memo=None):
    """arguments of commutative operators in a fixed order"""
    memo = {} if memo is None else memo
    if not t.args: return t
    if t.id in memo: return memo[t.id]
    args = [_csort(a, memo) for a in t.args]
    if t.op in ("*", "+", "and", "or", "=="): args = sorted(args, key=dg)
    r = memo[t.id] = mk(t.op, tuple(args), t.sort, t.val)
    return r


def _occ(t, order, seen):
    if t.op == "var":
        if t.val[0] == "@" and t.val not in seen:
            seen.add(t.val)
            order.append(t)
        return
    for a in t.args:
        if fv(a): _occ(a, order, seen)


_quick_memo = {}


def quick_implies(hyps, goal, ms=400):
    key = (tuple(sorted(h.id for h in hyps)), goal.id)
    if key in _quick_memo:
        return _quick_memo[key]
    t0 = time.time()
    e = Enc()
    sv = z3.Solver()
    sv.set("timeout", ms)
    try:
        hz = [e.z(h) for h in hyps]
        gz = e.z(goal)
        for h in hz: sv.add(h)
        sv.add(z3.Not(gz))
        r = sv.check() == z3.unsat
    except z3.Z3Exception:
        r = False
    STATS["quick"][0] += 1
    STATS["quick"][1] += time.time() - t0
    _quick_memo[key] = r
    return r


def quick_unsat(hyps, ms=400):
    return quick_implies(hyps, FALSE, ms)


CVC5 = shutil.which("cvc5") or "/opt/veriftools/bin/cvc5"


def prove(hyps, goal, ms=8000, use_cvc5=True, extra=()):
    """-> ('unsat'|'sat'|'unknown', backend, model-or-None)"""
    r = _prove(hyps, goal, ms, use_cvc5, extra, True)       # rounding first as an arbitrary function
    if r[0] == "unsat" or not r[3]: return r[:3]
    return _prove(hyps, goal, ms, use_cvc5, extra, False)[:3]


def _prove(hyps, goal, ms, use_cvc5, extra, opaque_rounding):
    t0 = time.time()
    e = Enc()
    e.opaque_rounding = opaque_rounding
    sv = z3.Solver()
    sv.set("timeout", ms)
    hz = [e.z(h) for h in hyps] + list(extra)
    gz = e.z(goal)
    ax = e.finish()
    for h in hz: sv.add(h)
    for a in ax: sv.add(a)
    sv.add(z3.Not(gz))
    r = sv.check()
    STATS["z3"][0] += 1
    STATS["z3"][1] += time.time() - t0
    if r == z3.unsat:
        return "unsat", "z3", None, e.rounds
    if r == z3.sat:
        return "sat", "z3", str(sv.model())[:1500], e.rounds
    if use_cvc5 and os.path.exists(CVC5):
        t0 = time.time()
        txt = "(set-logic ALL)\n" + sv.to_smt2()
        try:
            p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % ms, "-q"], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout else ""
        except Exception:
            out = ""
        STATS["cvc5"][0] += 1
        STATS["cvc5"][1] += time.time() - t0
        if out == "unsat":
            return "unsat", "cvc5", None, e.rounds
    return "unknown", "z3+cvc5", None, e.rounds
