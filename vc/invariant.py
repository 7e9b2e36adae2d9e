"""Loops by invariant: the contract supplies the state at the start of an arbitrary iteration and what must hold there.

I.loop_inv[qualified name] = f(I, loop) -> invariant object (or None: the loop is summarised exactly instead), with
  inv.state(i, mods)   values of the modified store keys at the start of iteration i ({key: value}; keys left out are
                       unusable until assigned again); may add facts (the invariant assumed there)
  inv.check(i, first)  obligations that the invariant holds at the start of iteration i (first: on entry)
The rule: check on entry; from an arbitrary state satisfying the invariant run the body once and check again; leave with
an arbitrary state satisfying the invariant and the negated test."""
import ast
from .ir import *
from .values import *


class Loop:
    def __init__(s, kind, st, env, lo=None, hi=None):
        s.kind, s.st, s.env, s.lo, s.hi = kind, st, env, lo, hi

    def name(s, key):
        """the variable of the enclosing function that the key stands for"""
        return key[2] if key[0] == "v" and key[1] == s.env.id else None


def run(s, inv, loop, lo, hi, body, test):
    """hi None: a while loop with the given test, lo counting its iterations from 0"""
    i = getattr(inv, "index", None)
    if i is None: i = fresh("i")
    pre, pc0 = dict(s.store), s.pc
    mods = {}
    nob, nra, nfa, nwa = len(s.obl), len(s.raises), len(s.facts), len(s.warnings)
    frame = s.frames[-1]
    nret = len(frame.returns)
    inv.loop, inv.mods, inv.lo = loop, mods, lo
    nob2, nra2, nfa2 = len(s.obl), len(s.raises), len(s.facts)
    s.in_loop += 1
    s.loopvars.append(i)
    s.inv_active.append(next((s.loop_inv[f.qual] for f in reversed(s.frames) if f.qual in s.loop_inv), None))
    try:
        for attempt in range(12):
            del s.obl[nob2:], s.raises[nra2:], s.facts[nfa2:], frame.returns[nret:], s.warnings[nwa:]
            s.store = dict(pre)
            s.pc = pc0 + ([le(lo, i), lt(i, hi)] if hi is not None else [le(lo, i)])
            havoc(s, inv, i, mods, pre)
            hv = dict(s.store)
            alive = True
            if test is not None:
                c = s.truth(test())
                s.pc = s.pc + [c]
            base = s.pc
            s.loops.append({"cont": [], "brk": []})
            try:
                alive = body(i)
            finally:
                L = s.loops.pop()
            alive = s.join(alive, L["cont"], base)
            if L["brk"]: raise Unsupported("break in a loop with an invariant")
            if frame.returns[nret:]: raise Unsupported("return in a loop with an invariant")
            post = s.store
            new = [k for k in pre if k not in mods and (k not in post or post[k] is not pre[k])]
            if not new:
                if not hasattr(inv, "learn") or not inv.learn(i): break
            for k in new: mods[k] = pre[k]
        else:
            raise Unsupported("loop does not stabilise")
        if alive: inv.check(add(i, 1), False)
        s.store, s.pc = dict(pre), pc0
        inv.check(lo, True)
    finally:
        s.in_loop -= 1
        s.inv_active.pop()
        s.loopvars.pop()
    s.store = dict(pre)
    e = hi
    if hi is None:
        e = getattr(inv, "end", None)
        if e is None: e = fresh("end")
    elif s.decide(le(lo, hi)) is not True: e = imax(lo, hi)
    s.pc = pc0 + ([le(lo, e)] if hi is None else [])
    havoc(s, inv, e, mods, pre)
    for k in list(post):        # locals first assigned in the body are undefined when it never ran
        if k not in pre and k[0] == "v": s.store.pop(k, None)
    if test is not None:        # what follows is reached only when the loop ends
        c = not_(s.truth(test()))
        s.facts.append(implies(and_(*pc0), and_(le(lo, e), c)))
        s.pc = s.pc + [c]
    return True


def havoc(s, inv, i, mods, pre):
    vals = inv.state(i, dict(mods)) or {}
    for k in mods:
        if k in vals: s.store[k] = vals[k]
        else: s.store.pop(k, None)


def for_loop(s, inv, st, env, lo, hi, body):
    return run(s, inv, Loop("for", st, env, lo, hi), const(lo), const(hi), body, None)


def while_loop(s, inv, st, env):
    return run(s, inv, Loop("while", st, env), const(0), None, lambda i: s.block(st.body, env), lambda: s.cond(st.test, env))
