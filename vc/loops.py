"""Exact summaries of loop bodies: solve the recurrences of one symbolic iteration."""
import ast, itertools
from . import ir, poly, smt
from .ir import *
from .values import *


def qf(ts):
    from .interp import has_quant
    return [poly.canonH(t) for t in ts if not has_quant(t)]


class Sol:
    """closed forms by history-function name"""

    def __init__(s): s.forms, s.memo = {}, {}

    def rw(s, t):
        if isinstance(t, Cx): return n_map(t, s.rw)
        for _ in range(30):
            names = app_names(t)
            m = {k: f for k, f in s.forms.items() if k in names}
            if not m: return t
            t = subst_apps(t, m)
        raise Unsupported("cyclic loop summary")


def structural_delta(E, H):
    if E is H: return const(0, E.sort)
    if E.op == "+" and sum(1 for a in E.args if a is H) == 1:
        rest = [a for a in E.args if a is not H]
        if not any(H.val in app_names(a) for a in rest): return add(*rest)
    if E.op == "ite" and H.val not in app_names(E.args[0]):
        a, b = structural_delta(E.args[1], H), structural_delta(E.args[2], H)
        if a is not None and b is not None: return ite(E.args[0], a, b)
    return None


def minmax_parts(E, H):
    """E = min(H, e...) or max(H, e...) possibly under guards: -> (kind, guarded e) or None"""
    nm = H.val

    def flat(t, kind): return ir.leaves(t, kind == "max")
    if E.op == "ite" and nm not in app_names(E.args[0]):
        c, a, b = E.args
        if b is H:
            r = minmax_parts(a, H)
            return r and (r[0], [(and_(c, g), e) for g, e in r[1]])
        if a is H:
            r = minmax_parts(b, H)
            return r and (r[0], [(and_(not_(c), g), e) for g, e in r[1]])
    for kind in ("min", "max"):
        ps = flat(E, kind)
        if len(ps) > 1 and sum(1 for p in ps if p is H) >= 1:
            rest = [p for p in ps if p is not H]
            if not any(nm in app_names(p) for p in rest):
                return kind, [(TRUE, p) for p in rest]
    return None


def leaves(E, H):
    """E as a tree of ites over H-free conditions with leaves H or H-free: [(cond, leaf)] of the H-free leaves, or None"""
    nm = H.val
    if E is H: return []
    if nm not in app_names(E): return [(TRUE, E)]
    if E.op == "ite" and nm not in app_names(E.args[0]):
        c, a, b = E.args
        x, y = leaves(a, H), leaves(b, H)
        if x is None or y is None: return None
        return [(and_(c, g), e) for g, e in x] + [(and_(not_(c), g), e) for g, e in y]
    return None


def closed_scalar(E, H, i, lo, init):
    """-> function t -> value before iteration t, or None"""
    nm = H.val
    if nm not in app_names(E):
        return lambda t: ite(lt(lo, t), subst(E, {i: sub(t, 1)}), init)
    if E.sort == "B":
        e1, e0 = subst_apps_term(E, H, TRUE), subst_apps_term(E, H, FALSE)
        if nm in app_names(e1) or nm in app_names(e0): return None
        c1, c0 = poly.canonB(e1), poly.canonB(e0)
        if c1 is TRUE:
            return lambda t: or_(init, binderv("exists", i, lo, t, e0))
        if c0 is FALSE:
            return lambda t: and_(init, binderv("forall", i, lo, t, e1))
        return None
    d = structural_delta(E, H)
    if d is None:
        p = poly.clean(lambda: poly.padd(poly.norm(E), poly.norm(H), -1))
        d0 = poly.to_term(p, E.sort) if p is not None else H
        if nm not in app_names(d0): d = d0
    if d is not None:
        if i not in fv(d):
            return lambda t: add(init, mul(sub(t, lo), d))
        return lambda t: add(init, binderv("sum", i, lo, t, d))
    lv = leaves(E, H)
    if lv is not None:
        c = or_(*[g for g, _ in lv])
        e = lv[-1][1]
        for g, x in lv[-2::-1]: e = ite(g, x, e)
        if i in fv(e):
            return lambda t: ite(binderv("exists", i, lo, t, c), subst(e, {i: binderv("last", i, lo, t, c)}), init)
        return lambda t: ite(binderv("exists", i, lo, t, c), e, init)
    mm = minmax_parts(E, H)
    if mm is not None:
        kind, ps = mm
        big = INF if kind == "min" else mul(-1, INF)
        f = imin if kind == "min" else imax
        e = None
        for g, x in ps:
            x = ite(g, x, big)
            e = x if e is None else f(e, x)
        op = "mino" if kind == "min" else "maxo"
        return lambda t: ite(lt(lo, t), f(init, binderv(op, i, lo, t, e)), init)
    return None


def subst_apps_term(t, H, v):
    """replace the exact application term H by v"""
    memo = {}

    def go(x):
        if x is H: return v
        r = memo.get(x.id)
        if r is None:
            if not x.args: r = x
            else:
                a = tuple(go(y) for y in x.args)
                r = x if a == x.args else ir._rebuild(x, a)
            memo[x.id] = r
        return r
    return go(t)


def replace_apps(t, nm, f):
    """replace applications nm(args) by f(args, app) where f returns a Term or None"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if not x.args: r = x
            else:
                a = tuple(go(y) for y in x.args)
                r = x if a == x.args else ir._rebuild(x, a)
            if r.op == "app" and r.val == nm:
                q = f(r.args, r)
                if q is not None: r = q
            memo[x.id] = r
        return r
    return go(t)


def teq(a, b):
    return a is b or poly.clean(lambda: poly.padd(poly.norm(a), poly.norm(b), -1)) == {}


def solve(s, i, lo, hi, pre, post, hv, mods, tag, pc0):
    sol = Sol()
    facts = []
    tf = imax(lo, hi)
    d = s.decide(le(lo, hi))
    if d is True: tf = hi
    elif d is False: tf = lo
    qfh = qf(pc0 + s.facts)
    scal, cells, lists, dropped, memos = {}, {}, {}, set(), {}
    for k in mods:
        h, p = hv[k], post.get(k)
        if isinstance(h, Term):
            if isinstance(p, (int, float, Term)) and not isinstance(p, bool):
                scal[k] = (h.val, (), const(p), const(pre[k]), None)
            elif isinstance(p, bool): scal[k] = (h.val, (), const(p), const(pre[k]), None)
            else: dropped.add(k)
        elif isinstance(h, Arr):
            if isinstance(p, Arr) and p.ndim == h.ndim and all(s.same(x, y) for x, y in zip(p.shape, h.shape)) and p.dtype != "c" and h.dtype != "c":
                ps = tuple(fresh("x") for _ in range(nidx(h.shape)))
                nm = post[("c", h.cell)].base.hname
                cp, vp = post[("c", p.cell)], p.view
                ci, vi = pre[("c", pre[k].cell)], pre[k].view
                E = cp.read(vp(ps) if vp else ps)
                init = ci.read(vi(ps) if vi else ps)
                scal[k] = (nm, ps, E, init, p)
            else: dropped.add(k)
        elif isinstance(h, Content):
            cells[k] = (h.base.hname, p, pre[k])
        elif isinstance(h, LC):
            lists[k] = p
        elif isinstance(h, Union):
            memos[k] = p
        else: dropped.add(k)
    allnames = {v[0]: k for k, v in scal.items()}
    allnames.update({v[0]: k for k, v in cells.items()})
    for nm in list(allnames):
        if s.cell_complex(allnames[nm][1], None) and allnames[nm] in cells:
            allnames[nm + ".re"] = allnames[nm + ".im"] = allnames[nm]
    todo = set(scal) | set(cells)
    progress = True

    def unsolved(t, me):
        return {n for n in names_of(t) if n in allnames and n not in sol.forms and not n.startswith(me)}

    def install_scalar(nm, ps, g):
        def form(t, *a):
            m = dict(zip(ps, a))
            r = g(t)
            return subst(r, m) if m else r
        sol.forms[nm] = form
    final_cells = {}
    for phase in ("closed", "recursive"):
        progress = True
        while todo and progress:
            progress = False
            for k in sorted(todo, key=str):
                if k in scal:
                    nm, ps, E, init, _ = scal[k]
                    E = sol.rw(E)
                    if isinstance(E, Cx): raise Unsupported("complex loop variable")
                    if unsolved(E, nm): continue
                    H = app(nm, (i,) + ps, E.sort) if not find_apps(E, nm) else None
                    own = [a for a in find_apps(E, nm)]
                    H = next((a for a in own if a.args == (i,) + ps), H)
                    g = None
                    if all(a.args == (i,) + ps for a in own) and (H is not None):
                        g = closed_scalar(E, H, i, lo, init)
                    if g is None and ps and own:
                        E2, eqs = extract_params_free(E, nm, i, ps, tag)
                        if eqs:
                            H = app(nm, (i,) + ps, E.sort)
                            own2 = find_apps(E2, nm)
                            if all(a.args == (i,) + ps for a in own2):
                                g = closed_scalar(E2, H, i, lo, init)
                                if g is not None:
                                    install_scalar(nm, ps, g)
                                    for gn, body in eqs:
                                        v = fresh("q")
                                        facts.append(binderv("forall", v, lo, hi, eq(app(gn, (v,), body.sort), subst(sol.rw(body), {i: v}))))
                                        s.rec_defs[gn] = (i, lo, hi, sol.rw(body))
                                        # use the name for the same subterm elsewhere
                                        sol.named = getattr(sol, "named", []) + [(body, app(gn, (i,), body.sort))]
                                    todo.discard(k)
                                    progress = True
                                    continue
                    if g is None and phase == "recursive":
                        recursion_facts(s, facts, nm, ps, E, init, i, lo, hi)
                        allnames.pop(nm, None)
                        todo.discard(k)
                        progress = True
                        break
                    if g is not None:
                        install_scalar(nm, ps, g)
                        todo.discard(k)
                        progress = True
                else:
                    nm, cont, prec = cells[k]
                    r = solve_cell(s, nm, cont, prec, i, lo, hi, tf, sol, unsolved, qfh, phase, facts, tag)
                    if r is not None:
                        final_cells[k] = r
                        todo.discard(k)
                        progress = True
                        if r == "recursive":
                            allnames.pop(nm, None)
                            break
    if todo: raise Unsupported("loop recurrences over %s could not be solved" % sorted(map(str, todo)))
    facts = [sol.rw(f) for f in facts]
    named = getattr(sol, "named", [])

    def rw(t):
        if isinstance(t, Cx): return n_map(t, rw)
        for body, g in named:
            t = subst_apps_term(t, body, g)
        t = sol.rw(t)
        for body, g in named:
            t = subst_apps_term(t, sol.rw(body), g)
        return t
    # final store
    out = dict(pre)
    s.store = out
    for k, v in post.items():
        if k not in pre and k[0] == "c": out[k] = v          # cells allocated by the body stay readable
    for k in dropped: out.pop(k, None)
    for k in scal:
        nm, ps, E, init, p = scal[k]
        if not ps:
            f = sol.forms.get(nm)
            out[k] = sol.rw(f(tf)) if f else app(nm, (tf,), sort_of(E, init))
        else:
            f = sol.forms.get(nm)
            srt = sort_of(E, init)
            if f: fn = (lambda f: lambda idx: rw(f(tf, *idx)))(f)
            else: fn = (lambda nm, srt: lambda idx: app(nm, (tf,) + tuple(idx), srt))(nm, srt)
            out[k] = s.mk(fn, p.shape, p.dtype)
    for k, r in final_cells.items():
        nm, cont, prec = cells[k]
        if r == "recursive":
            srt = s.cell_sort(k[1])
            out[k] = Content((lambda nm, srt: lambda idx: app(nm, (tf,) + tuple(idx), srt))(nm, srt), (), None)
        else:
            c = r(tf, rw)
            log = None
            if prec.log is not None and cont.log is not None:
                log = prec.log + ((("loop", i, lo, hi, cont.log, rw),) if cont.log else ())
            out[k] = Content(c.base, c.writes, log)
    for k, lc in lists.items():
        init = lc.base[2] if isinstance(lc, LC) and isinstance(lc.base, tuple) else None
        if not isinstance(lc, LC) or init is None or len(lc.items) != 1 or init.items or (init.base is not None):
            out.pop(k, None)
            continue
        out[k] = type(lc)(family(s, lc.items[0], i, lo, tf, rw, pre, post), ())
    for k, v in memos.items():
        V = s.memo_values[k]
        alts = v.alts if isinstance(v, Union) else [(TRUE, v)]
        for c, x in alts:
            if x is not None and x is not V and not same_object(s, x, V, post):
                raise Unsupported("memoised object differs between iterations")
        b = fresh("none", "B")
        out[k] = Union([(b, None), (not_(b), V)])
    s.store = out
    return {"rw": rw, "facts": facts, "final": out}


def names_of(t):
    if isinstance(t, Cx): return app_names(t.re) | app_names(t.im)
    return app_names(t)


def sort_of(E, init):
    return E.sort if not isc(E) or E.sort == "B" else ("R" if "R" in (E.sort, init.sort) else E.sort)


def same_object(s, x, V, store):
    if isinstance(x, Sparse) and isinstance(V, Sparse):
        r, c = fresh("r"), fresh("c")
        return teq(x.fn(r, c), V.fn(r, c))
    if isinstance(x, Arr) and isinstance(V, Arr) and x.ndim == V.ndim:
        idx = tuple(fresh("x") for _ in range(nidx(x.shape)))
        rd = lambda a: store[("c", a.cell)].read(a.view(idx) if a.view else idx) if ("c", a.cell) in store else s.read(a, idx)
        return teq(rd(x), rd(V))
    return False


def family(s, item, i, lo, tf, rw, pre, post):
    from .npmodel import View
    cache = {}

    def gen(v, m, t):
        if isinstance(v, (Term, Cx)) or (is_num(v) and not isinstance(v, bool)): return n_map(n_subst(num(v), m), rw)
        if v is None or isinstance(v, (str, bool)): return v
        if isinstance(v, tuple): return tuple(gen(x, m, t) for x in v)
        if isinstance(v, Arr):
            shape = [d if isinstance(d, MaskDim) else rw(subst(d, m)) for d in v.shape]
            if ("c", v.cell) in pre:
                vw = v.view
                if isinstance(vw, View):
                    g = lambda x: rw(subst(x, m)) if isinstance(x, Term) else x
                    view = View([tuple(g(x) for x in d) for d in vw.dims], shape)
                else: view = (lambda idx: tuple(rw(subst(x, m)) for x in vw(idx))) if vw else None
                return Arr(v.cell, shape, v.dtype, view, v.frozen, v.meta)
            c, vw = post[("c", v.cell)], v.view
            f = (lambda idx: n_map(n_subst(c.read(vw(idx)), m), rw)) if vw else (lambda idx: n_map(n_subst(c.read(idx), m), rw))
            return s.mk(f, shape, v.dtype, True, v.meta)
        if isinstance(v, Sparse):
            f = v.fn
            meta = {}
            if "bag" in v.meta:
                g = lambda x: n_map(n_subst(x, m), rw)
                meta["bag"] = [([(b, g(l), g(h)) for b, l, h in vs], g(q), g(r), g(c), g(x)) for vs, q, r, c, x in v.meta["bag"]]
            return Sparse(lambda r, c: n_map(n_subst(f(r, c), m), rw), [rw(subst(d, m)) for d in v.shape], meta)
        if isinstance(v, PyList):
            lc = post[("l", v.id)]
            if lc.base is None: return tuple(gen(x, m, t) for x in lc.items)
            if isinstance(lc.base, SymList) and not lc.items:
                el = lc.base.elem
                return SymList(rw(subst(lc.base.length, m)), lambda j: gen(el(j), m, t))
        raise Unsupported("a list of values of kind %s" % type(v).__name__)

    def elem(j):
        t = add(lo, const(j))
        k = (t.id, id(s.store))
        return gen(item, {i: t}, t)
    return SymList(sub(tf, lo), elem)


def extract_params_free(E, nm, i, ps, tag):
    """name the maximal subterms that use the history function away from the current point and do not depend on it"""
    eqs = []
    memo = {}
    P = set(ps)

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if nm not in app_names(x): r = x
        elif not (fv(x) & P) and x.sort in "IR" and not any(v.val.startswith(("b!", "m!", "s!")) and v not in allowed for v in fv(x)):
            g = "G!%d!%d" % (tag, len(eqs))
            eqs.append((g, x))
            r = app(g, (i,), x.sort)
        elif not x.args: r = x
        else:
            a = tuple(go(y) for y in x.args)
            r = x if a == x.args else ir._rebuild(x, a)
        memo[x.id] = r
        return r
    allowed = fv(E)
    return go(E), eqs


def recursion_facts(s, facts, nm, ps, E, init, i, lo, hi):
    srt = sort_of(E, init)
    base = eq(app(nm, (lo,) + ps, srt), init)
    step = eq(app(nm, (add(i, 1),) + ps, srt), E)
    v = fresh("q")
    st = subst(step, {i: v})
    for p in reversed(ps):
        base = binderv("forall", p, None, None, base)
        st = binderv("forall", p, None, None, st)
    facts.append(base)
    facts.append(binderv("forall", v, lo, hi, st))
    s.recurrences[nm] = (ps, E, init, i, lo, hi)


def solve_cell(s, nm, cont, prec, i, lo, hi, tf, sol, unsolved, qfh, phase, facts, tag):
    if not isinstance(cont, Content): raise Unsupported("cell content")
    ar = None
    ws = cont.writes
    if not hasattr(cont.base, "hname") or cont.base.hname != nm:
        # content merged from different bases
        return None
    n = getattr(cont.base, "arity", None)
    idx = tuple(fresh("x") for _ in range(s.cell_arity[int(nm.rsplit("!", 1)[1])]))
    cplx = s.cell_complex(int(nm.rsplit("!", 1)[1]), None)
    info = []
    selfuse = False
    # a write that a later unconditional one at the same point replaces
    ws = tuple(w for a, w in enumerate(ws) if not any(len(v.pts) == len(idx) and set(v.pts) == set(w.pts) and all(v.pts[k] is w.pts[k] for k in v.pts)
                                                      and v.cond(idx) is TRUE for v in ws[a + 1:]))
    ws = own_part(s, ws, nm, prec, i, idx, sol, cplx)
    for w in ws:
        pts = {k: sol.rw(t) for k, t in w.pts.items()}
        c, v = sol.rw(w.cond(idx)), sol.rw(num(w.val(idx)))
        for t in list(pts.values()) + [c, v]:
            if unsolved(t, nm): return None
        self_c = any(x.startswith(nm) for t in list(pts.values()) + [c] for x in names_of(t))
        self_v = any(x.startswith(nm) for x in names_of(v))
        if self_c: return recursive_cell(s, nm, cont, prec, i, lo, hi, sol, idx, phase, facts)
        selfuse = selfuse or self_v
        info.append((pts, self_v))
    if not selfuse:
        return scatter(s, nm, ws, prec, i, lo, sol, qfh, idx)
    # values that read the cell itself: rewrite reads of the written location
    suffix = (".re", ".im") if cplx else ("",)

    def fixed(w, pts):
        def val(ix):
            v = sol.rw(num(w.val(ix)))

            def f(args, a):
                if len(args) == len(ix) + 1 and args[0] is i and all(teq(x, y) or (k in pts and teq(x, pts[k])) for k, (x, y) in enumerate(zip(args[1:], ix))):
                    return app(a.val, (i,) + tuple(ix), a.sort)
            for sf in suffix:
                v = n_map(v, lambda t: replace_apps(t, nm + sf, f))
            return v
        return val
    ok = True
    vals = []
    for w, (pts, _) in zip(ws, info):
        fvn = fixed(w, pts)
        v = fvn(idx)
        for sf in suffix:
            for t in ([v.re, v.im] if isinstance(v, Cx) else [v]):
                if any(a.args != (i,) + idx for a in find_apps(t, nm + sf)): ok = False
        vals.append(fvn)
    if ok:
        init = lambda ix: num(prec.read(ix))

        def with_init(v, ix):
            x = init(ix)
            if cplx:
                x = cx(x)
                return n_map(n_map(v, lambda t: replace_apps(t, nm + ".re", lambda a, _: x.re)), lambda t: replace_apps(t, nm + ".im", lambda a, _: x.im))
            return n_map(v, lambda t: replace_apps(t, nm, lambda a, _: x))
        if len(ws) == 1 and sigma(info[0][0], i, idx) is not None:
            fvn = vals[0]
            w2 = Write(ws[0].pts, ws[0].cond, lambda ix: with_init(fvn(ix), ix))
            return scatter(s, nm, (w2,), prec, i, lo, sol, qfh, idx)
        # accumulation
        if not cplx:
            H = app(nm, (i,) + idx, s.cell_sort(int(nm.rsplit("!", 1)[1])))
            E = Content(lambda ix: app(nm, (i,) + tuple(ix), H.sort), tuple(Write(w.pts, w.cond, v) for w, v in zip(ws, vals))).read(idx)
            E = sol.rw(E)
            g = closed_scalar(E, H, i, lo, const(0))
            dlt = structural_delta(E, H)
            if dlt is None:
                pd = poly.clean(lambda: poly.padd(poly.norm(E), poly.norm(H), -1))
                d0 = poly.to_term(pd, E.sort) if pd is not None else H
                if nm not in app_names(d0): dlt = d0
            if dlt is not None:
                pts1 = {k: sol.rw(x) for k, x in ws[0].pts.items()} if len(ws) == 1 else {}

                def final(t, rw):
                    if len(pts1) == len(idx) and prec.writes is not None and not any(i in fv(x) for x in pts1.values()):
                        # one fixed entry accumulates: still a single write
                        at = tuple(rw(pts1[k]) for k in range(len(idx)))
                        dd = subst(dlt, dict(zip(idx, at)))
                        v = lambda ix: add(prec.read(at), binderv("sum", i, lo, t, rw(dd)))
                        return Content(prec.base, prec.writes + (Write(dict(enumerate(at)), lambda ix: TRUE, v),), None)

                    def base(ix):
                        if any(i in fv(x) for x in ix): return subst(base(idx), dict(zip(idx, ix)))
                        dd = subst(dlt, dict(zip(idx, ix)))
                        return add(prec.read(ix), binderv("sum", i, lo, t, rw(dd)))
                    return Content(base, (), None)
                sol.forms[nm] = lambda t, *a: final(t, sol.rw).base(tuple(a))
                return final
            lv = None
    if phase != "recursive": return None
    return recursive_cell(s, nm, cont, prec, i, lo, hi, sol, idx, phase, facts)


def own_part(s, ws, nm, prec, i, idx, sol, cplx):
    """when every write of an iteration goes to the iteration's own part of the array (row i, say), what the iteration
    reads there before writing is what was there before the loop"""
    if not ws: return ws
    ps = [{k: sol.rw(t) for k, t in w.pts.items()} for w in ws]
    sg = sigma(ps[0], i, idx)
    if sg is None: return ws
    k0 = sg[0]
    row = ps[0][k0]
    if any(n.startswith(nm) for n in names_of(row)) or not all(k0 in p and teq(p[k0], row) for p in ps): return ws

    def initial(part):
        def f(args, a):
            if args[0] is i and len(args) == len(idx) + 1 and teq(args[1 + k0], row): return part(num(prec.read(tuple(args[1:]))))
        return f
    subs = [(nm + ".re", initial(lambda x: cx(x).re)), (nm + ".im", initial(lambda x: cx(x).im))] if cplx else [(nm, initial(lambda x: x))]

    def rw(t):
        for n, f in subs: t = n_map(t, lambda x: replace_apps(x, n, f))
        if nm in sol.forms: return t
        t = sol.rw(t)
        for n, f in subs: t = n_map(t, lambda x: replace_apps(x, n, f))
        return t
    return tuple(Write({k: rw(t) for k, t in w.pts.items()}, (lambda w: lambda ix: rw(w.cond(ix)))(w), (lambda w: lambda ix: rw(num(w.val(ix))))(w)) for w in ws)


def recursive_cell(s, nm, cont, prec, i, lo, hi, sol, idx, phase, facts):
    if phase != "recursive": return None
    E = sol.rw(cont.read(idx))
    if isinstance(E, Cx): raise Unsupported("complex recurrence")
    recursion_facts(s, facts, nm, idx, E, prec.read(idx), i, lo, hi)
    return "recursive"


def sigma(pts, i, idx):
    """solve idx[k] == pts[k] for the loop variable"""
    for k, t in pts.items():
        if i in fv(t) and t.sort == "I":
            lk = poly._lin(poly.norm(t), i)
            if lk and abs(lk[0]) == 1:
                rest = poly.to_term(lk[1], "I")
                x = idx[k]
                return k, (lambda ix, k=k, rest=rest, c=lk[0]: sub(ix[k], rest) if c == 1 else sub(rest, ix[k]))
    return None


def scatter(s, nm, ws, prec, i, lo, sol, qfh, idx):
    def quantified(w, t, rw):
        q, f = quantified_(w, t, rw)
        # an index that mentions the loop variable (the cell's history read in the body): bind first, then instantiate
        apart = lambda fn: lambda ix: n_subst(num(fn(idx)), dict(zip(idx, ix))) if any(i in fv(x) for x in ix) else fn(ix)
        return Write(q.pts, apart(q.cond), apart(q.val)), apart(f)

    def quantified_(w, t, rw):
        pts = {k: rw(x) for k, x in w.pts.items()}
        cond = lambda ix: rw(w.cond(ix))
        val = lambda ix: n_map(num(w.val(ix)), rw)
        sg = sigma(pts, i, idx)
        if sg is not None:
            k0, f = sg
            keep = {k: x for k, x in pts.items() if i not in fv(x)}
            moved = {k: x for k, x in pts.items() if i in fv(x) and k != k0}

            def c2(ix):
                g = f(ix)
                return and_(le(lo, g), lt(g, t), *([eq(ix[k], subst(x, {i: g})) for k, x in moved.items()] + [subst(cond(ix), {i: g})]))
            return Write(keep, c2, lambda ix: n_subst(val(ix), {i: f(ix)})), f
        inv = all(i not in fv(x) for x in pts.values()) and i not in fv(cond(idx))
        if inv:
            g = sub(t, 1)
            return Write(pts, lambda ix: and_(lt(lo, t), cond(ix)), lambda ix: n_subst(val(ix), {i: g})), (lambda ix: g)
        keep = {k: x for k, x in pts.items() if i not in fv(x)}
        moved = {k: x for k, x in pts.items() if i in fv(x)}
        wi = lambda ix: and_(*([eq(ix[k], x) for k, x in moved.items()] + [cond(ix)]))
        last = lambda ix: binderv("last", i, lo, t, wi(ix))
        return Write(keep, lambda ix: binderv("exists", i, lo, t, wi(ix)), lambda ix: n_subst(val(ix), {i: last(ix)})), last

    def final(t, rw):
        qs = [quantified(w, t, rw) for w in ws]
        if len(qs) > 1:
            out = []
            for a, (qa, fa) in enumerate(qs):
                extra = []
                for b, (qb, fb) in enumerate(qs):
                    if a == b: continue
                    if smt.quick_unsat(qfh + [poly.canonB(qa.when(idx)), poly.canonB(qb.when(idx))] + [le(lo, t)], 300): continue
                    # a loses when b writes at a later iteration (or the same one, later in the body)
                    if b > a: extra.append(lambda ix, fa=fa, fb=fb, qb=qb: and_(qb.when(ix), le(fa(ix), fb(ix))))
                    else: extra.append(lambda ix, fa=fa, fb=fb, qb=qb: and_(qb.when(ix), lt(fa(ix), fb(ix))))
                if extra:
                    c0 = qa.cond
                    qa = Write(qa.pts, (lambda ix, c0=c0, extra=tuple(extra): and_(c0(ix), *[not_(e(ix)) for e in extra])), qa.val)
                out.append(qa)
            qs = [(q, None) for q in out]
        return Content(prec.base, prec.writes + tuple(q for q, _ in qs), None)
    # the closed form of the cell's history, for reads elsewhere in the body
    rd = lambda t, a: num(final(t, sol.rw).read(tuple(a)))
    if s.cell_complex(int(nm.rsplit("!", 1)[1]), None):
        sol.forms[nm + ".re"] = lambda t, *a: cx(rd(t, a)).re
        sol.forms[nm + ".im"] = lambda t, *a: cx(rd(t, a)).im
    else:
        sol.forms[nm] = lambda t, *a: rd(t, a)
    return final


def while_loop(s, st, env):
    """while loops that count are executed as for loops; others need an invariant from the contracts"""
    if st.orelse: raise Unsupported("while-else")
    spec = s.while_specs.get(s.frames[-1].qual if s.frames else "")
    if spec is not None:
        r = spec(s, st, env)
        if r is not None: return r
    c = counted(s, st, env)
    if c is None:
        inv = s.invariant_for(st, env)
        if inv is not None:
            from . import invariant
            return invariant.while_loop(s, inv, st, env)
        return small_while(s, st, env)
    name, kind, bound, step, body = c
    start = s.lookup(env, name)
    hi = bound()
    from .values import Native
    if kind == "<": it = Native((const(start), const(hi), const(step)), "range")
    else: it = Native((const(start), const(hi), const(-step)), "range")

    def run(v):
        s.bind(env, name, v)
        return s.block(body, env)
    alive = s.loop_over(it, run, (st, env))
    if alive:
        lo, hi2 = const(start), const(hi)
        if kind == "<":
            fin = imax(lo, hi2) if step == 1 else add(lo, mul(step, imax(const(0), fdiv(add(sub(hi2, lo), step - 1), step))))
            if s.decide(le(lo, hi2)) is True and step == 1: fin = hi2
        else:
            fin = imin(lo, hi2) if step == 1 else None
        if fin is not None: s.bind(env, name, fin)
        else: s.store.pop(("v", env.id, name), None)
    return alive


def counted(s, st, env):
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)): return None
    name = t.left.id
    op = type(t.ops[0]).__name__
    if op not in ("Lt", "LtE", "Gt", "GtE", "NotEq"): return None
    if ("v", env.id, name) not in s.store: return None
    last = st.body[-1]
    inc = None
    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == name and isinstance(last.value, ast.Constant) and isinstance(last.value.value, int):
        inc = last.value.value * (1 if isinstance(last.op, ast.Add) else -1 if isinstance(last.op, ast.Sub) else 0)
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == name and isinstance(last.value, ast.BinOp) \
            and isinstance(last.value.left, ast.Name) and last.value.left.id == name and isinstance(last.value.right, ast.Constant):
        inc = last.value.right.value * (1 if isinstance(last.value.op, ast.Add) else -1 if isinstance(last.value.op, ast.Sub) else 0)
    if not inc: return None
    body = st.body[:-1]
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store): return None
            if isinstance(n, (ast.Continue, ast.Break)) : return None
    # the bound must not change
    names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Store): return None
    if any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(t.comparators[0])) and not isinstance(t.comparators[0], ast.Subscript):
        pass
    if inc > 0 and op in ("Lt", "LtE"):
        return name, "<", (lambda: add(s.ev(t.comparators[0], env), 1 if op == "LtE" else 0)), inc, body
    if inc < 0 and op in ("Gt", "GtE"):
        return name, ">", (lambda: add(s.ev(t.comparators[0], env), -1 if op == "GtE" else 0)), -inc, body
    return None


def small_while(s, st, env):
    """loops whose test is decided on every iteration (concrete control)"""
    for _ in range(64):
        c = s.cond(st.test, env)
        d = s.decide(c)
        if d is False: return True
        if d is None: raise Unsupported("while loop without a counter or an invariant")
        s.loops.append({"cont": [], "brk": []})
        pc0 = s.pc
        try:
            alive = s.block(st.body, env)
        finally:
            L = s.loops.pop()
        if L["brk"] or L["cont"]: raise Unsupported("break in a while loop")
        if not alive: return False
    raise Unsupported("while loop does not terminate within the bound")
