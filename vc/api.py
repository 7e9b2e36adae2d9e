"""What a contract module uses: units (one function under contract), symbolic inputs, obligations about results."""
import time, traceback, sys, threading, ctypes
from . import ir, poly, smt, prover
from .ir import *
from .values import *
from .interp import Interp, Raised, Exc

UNITS = []


def unit(function, name=None, tier="quick"):
    """register fn(I) as the contract of `function` ("module.Class.fn")"""
    def deco(fn):
        UNITS.append(dict(function=function, name=name or fn.__name__, fn=fn, tier=tier, module=mod))
        return fn
    mod = sys._getframe(1).f_globals["__name__"].rsplit(".", 1)[-1]
    return deco


class Ob(Interp):
    """interpreter of one unit, with helpers"""

    def __init__(s, function, name):
        super().__init__(function)
        s.function, s.unit_name = function, name
        s.covers = []        # conditions that must be satisfiable (vacuity guards)
        s.lib = []           # conclusions recorded by lemma name
        s.frames_of = None   # frame check: functions allowed to write in place, or None for no check
        s.given = {}         # cells and lists made for the call
        s.t_end = None
        s.splits = []        # undecided tests about given numbers (see run_unit)

    # ---- inputs
    def int(s, name, lo=None, hi=None):
        t = var(name, "I")
        if lo is not None: s.facts.append(le(lo, t))
        if hi is not None: s.facts.append(le(t, hi))
        return t

    def real(s, name, lo=None, hi=None):
        t = var(name, "R")
        if lo is not None: s.facts.append(le(lo, t))
        if hi is not None: s.facts.append(le(t, hi))
        return t

    def sparse(s, name, shape):
        """an arbitrary sparse matrix with entries name(r, c)"""
        return Sparse(lambda r, c: app(name, (r, c), "R"), tuple(const(x) for x in shape))

    def fact(s, *ts):
        for t in ts: s.facts.append(truth(t))

    def run(s, path, *args, **kw):
        """execute the body of the function (its contract is never assumed for itself)"""
        f = s.get(path) if isinstance(path, str) else path
        fn, a = (f.fn, [f.self] + list(args)) if isinstance(f, Bound) else (f, list(args))
        if s.frames_of is None or s.frames or fn.qual in s.frames_of: return s.call_body(fn, a, kw)
        before, nr = dict(s.store), len(s.raises)
        pc0, ok = list(s.pc), False
        try:
            r = s.call_body(fn, a, kw)
            ok = True
            return r
        finally:
            pc, s.pc = s.pc, pc0
            for st, path in [(s.store, pc if ok else pc0)] + [(x[2], x[0]) for x in s.raises[nr:]]: s.frame(fn.qual, before, st, path)
            s.pc = pc

    def mk(s, fn, shape, dtype="f", frozen=False, meta=None, log=None):
        a = super().mk(fn, shape, dtype, frozen, meta, log)
        if not s.frames: s.given[("c", a.cell)] = a
        return a

    def mklist(s, items=(), base=None):
        l = super().mklist(items, base)
        if not s.frames: s.given[("l", l.id)] = l
        return l

    def frame(s, qual, before, st, path):
        """frame condition of a call: what was made for it holds what it held"""
        for key, a in s.given.items():
            x, y = before.get(key), st.get(key)
            if x is None or y is x: continue
            if key[0] == "l":
                if y is None or y.base is not x.base or len(y.items) != len(x.items) or any(p is not q for p, q in zip(x.items, y.items)):
                    s.oblige("frame of %s: the caller's list holds what it held" % qual, FALSE, "frame", path)
                continue
            ix, rng = s.idx(a.shape)
            va, vb = num(y.read(ix)), num(x.read(ix))
            va, vb = (cx(va), cx(vb)) if isinstance(va, Cx) or isinstance(vb, Cx) else (va, vb)
            nm = "frame of %s: %s holds what it held" % (qual, s.input_cells.get(a.cell, "a given array"))
            for p, q in (((va.re, vb.re), (va.im, vb.im)) if isinstance(va, Cx) else ((va, vb),)):
                s.oblige(nm, eq(p, q), "frame", list(path) + s.facts + rng)
        s.oblige("frame of %s: everything given for the call holds what it held" % qual, TRUE, "frame", [])

    def ensure(s, name, goal, hyps=()):
        s.oblige(name, goal, "post", s.hyps() + [truth(h) for h in hyps])

    def claim(s, name, goal, using=()):
        """an obligation proved from the listed hypotheses alone"""
        s.oblige(name, goal, "post", [truth(h) for h in using])

    def eqs(s, name, a, b, hyps=()):
        """equality of numbers, complex allowed"""
        a, b = num(a), num(b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            s.ensure(name + " (re)", eq(a.re, b.re), hyps)
            s.ensure(name + " (im)", eq(a.im, b.im), hyps)
        else:
            s.ensure(name, eq(a, b), hyps)

    def ensure_any(s, name, goals):
        """the first of the goals that the normaliser settles (they are equivalent formulations)"""
        g = goals[0]
        if len(goals) > 1:
            for x in goals:
                poly.reset_side()
                if x is TRUE or x.op == "==" and poly.zero(sub(*[b2i(a) for a in x.args])):
                    g = x
                    break
        s.ensure(name, g)

    def no_raise(s, name="no exception", start=0):
        for k, (pc, exc, st) in enumerate(s.raises[start:]):
            s.oblige("%s: %s %s" % (name, exc.name, "".join(str(a) for a in exc.args)[:60]), not_(and_(*pc)) , "raises", s.facts)

    def unchanged(s, name, a, fn, shape=None):
        """frame condition: the caller's array holds what it held"""
        vs = tuple(fresh("u") for _ in range(len(a.shape)))
        c = s.store[("c", a.cell)]
        if not c.writes:
            s.ensure(name + " unchanged", eq(0, 0))
            return
        rng = [and_(le(0, v), lt(v, d)) for v, d in zip(vs, a.shape)]
        s.eqs(name + " unchanged", s.read(a, vs), fn(vs), rng)

    def idx(s, shape, base="q"):
        """generic index into the shape with its range facts"""
        vs, rng = [], []
        for d in shape:
            if isinstance(d, MaskDim):
                ks = tuple(fresh(base) for _ in d.dims)
                rng += [and_(le(0, k), lt(k, e)) for k, e in zip(ks, d.dims)] + [d.fn(ks)]
                vs += list(ks)
            else:
                k = fresh(base)
                rng.append(and_(le(0, k), lt(k, d)))
                vs.append(k)
        return tuple(vs), rng

    def cover(s, name, cond=TRUE):
        s.covers.append((name, list(s.hyps()) + [truth(cond)]))

    def dims(s, name, a, shape):
        if not isinstance(a, Arr): raise Unsupported("%s: result is not an array" % name)
        if len(a.shape) != len(shape):
            s.ensure("%s has %d axes" % (name, len(shape)), FALSE)
            return
        for k, (x, y) in enumerate(zip(a.shape, shape)):
            if isinstance(x, MaskDim): x = x.count()
            s.ensure("%s: length of axis %d" % (name, k), eq(x, y))


assume = poly.assume


def generalise(t, x, by):
    """every occurrence of the (closed) binder term x, up to normal form, replaced"""
    c = poly.canon(x)
    memo = {}

    def go(t):
        if not t.args: return t
        if t.id in memo: return memo[t.id]
        if t.op == x.op and poly.canon(t) is c: r = by
        else: r = ir._rebuild(t, tuple(go(a) for a in t.args))
        memo[t.id] = r
        return r
    return go(t)


class Late(BaseException): pass


def alarm(seconds):
    """Late is raised in this thread after the time, unless cancelled"""
    me = threading.get_ident()
    t = threading.Timer(seconds, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(Late)))
    t.daemon = True
    t.start()
    return t


def run_unit(u, ms, budget, case=()):
    """one unit; where the values of the two branches of a test about given numbers cannot be joined, the unit is split into the two cases"""
    t0 = time.time()
    res, new = run_case(u, ms, budget, case)
    if new is None or len(case) >= 3: return res
    parts = []
    for c in (new, not_(new)):
        t = None if case else alarm(45)
        try:
            parts.append(run_unit(u, ms, max(5, (budget - (time.time() - t0)) / 2), case + (c,)))
        except Late:
            return res
        finally:
            if t: t.cancel()
        if any(o["status"] == "unsupported" for o in parts[-1]["obligations"]): return res
    out = dict(parts[0])
    for k in ("obligations", "vacuity"): out[k] = parts[0][k] + parts[1][k]
    for k in ("inlined", "assumptions"): out[k] = sorted(set(parts[0][k]) | set(parts[1][k]))
    out["warnings"] = parts[0]["warnings"] + parts[1]["warnings"]
    out["ms"] = int(1000 * (time.time() - t0))
    return out


def run_case(u, ms, budget, case):
    t0 = time.time()
    I = Ob(u["function"], u["name"])
    I.facts.extend(case)
    done = lambda: (res, next((c for c in reversed(I.splits) if not any(c is d or c is not_(d) or not_(c) is d for d in case)), None) if gone else None)
    gone = False
    res = dict(unit=u["name"], function=u["function"], obligations=[], inlined=[], assumptions=[], vacuity=[], warnings=0)
    I.frames_of = u.get("frames")
    pre = u.get("via", "") + u["name"] + ": "
    try:
        try:
            u["fn"](I)
        except Raised:
            I.ensure("the function returns on no path", FALSE)
        obls = [dict(o, name=pre + o["name"]) for o in I.obl if not u.get("only_frames") or o["kind"] == "frame"]
        if u.get("only_frames"): I.covers = []
        res["obligations"] = prover.run(obls, ms, True, max(5, budget - (time.time() - t0)))
        if not res["obligations"] and not u.get("only_frames"):
            res["obligations"].append(dict(name=pre + "no obligation was generated", function=u["function"], status="unsupported", backend="none", ms=0, detail="vacuous unit"))
        for nm, hyps in I.covers:
            r = prover.satisfiable(hyps)
            res["vacuity"].append(dict(unit=u["name"], condition=nm, satisfiable=r))
            if r is False and not case:
                res["obligations"].append(dict(name=pre + "vacuous: " + nm, function=u["function"], status="unsupported", backend="none", ms=0, detail="the hypotheses of this unit are contradictory"))
    except Unsupported as e:
        gone = True
        tb = traceback.extract_tb(sys.exc_info()[2])
        res["obligations"] = res["obligations"] + [dict(name=pre + "outside the verified subset", function=u["function"], status="unsupported", backend="none",
                                   ms=int(1000 * (time.time() - t0)), detail="%s (%s)" % (e, " < ".join("%s:%d" % (f.name, f.lineno) for f in tb[-4:])))]
    except RecursionError:
        res["obligations"] = [dict(name=pre + "outside the verified subset", function=u["function"], status="unsupported", backend="none", ms=0, detail="recursion limit")]
    except Exception as e:
        gone = True
        tb = traceback.extract_tb(sys.exc_info()[2])
        res["obligations"] = [dict(name=pre + "outside the verified subset", function=u["function"], status="unsupported", backend="none", ms=0,
                                   detail="engine: %s: %s (%s)" % (type(e).__name__, e, " < ".join("%s:%d" % (f.filename.split("/")[-1] + ":" + f.name, f.lineno) for f in tb[-5:])))]
    res["inlined"] = sorted(I.inlined)
    res["assumptions"] = sorted(I.assumed)
    res["ms"] = int(1000 * (time.time() - t0))
    return done()
