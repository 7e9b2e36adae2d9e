"""Symbolic execution of the real source (parsed from /repo on every run) into values over Terms.

Loops over symbolic ranges are replaced by exact summaries of their body (closed forms of its recurrences); where no closed
form is found the recurrence itself is kept as a fact about a history function H(i, ...), so nothing is ever dropped.
"""
import ast, os, builtins, itertools, sys
from . import ir, poly, smt
from .ir import *
from .values import *

sys.setrecursionlimit(100000)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Env:
    _n = itertools.count()

    def __init__(s, parent=None, module=None):
        s.id, s.parent, s.module = next(Env._n), parent, module
        s.globals = set()


class Frame:
    def __init__(s, qual):
        s.qual, s.returns, s.nloop, s.func, s.env = qual, [], 0, None, None


class Raised(Exception):
    """all paths of the current call ended in an exception"""


UNSET = Opaque("unset")


def same_sparse(a, b):
    r, c = fresh("r"), fresh("c")
    return len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape)) and const(a.fn(r, c)) is const(b.fn(r, c)) and a.meta.get("simplices") == b.meta.get("simplices")


def contradictory(q):
    """a conjunction with a literal and its negation"""
    if q is FALSE: return True
    ids, st = set(), [q]
    while st:
        t = st.pop()
        if t.op == "and": st.extend(t.args)
        else: ids.add(t.id)
    return any(not_(x).id in ids for x in conjuncts_of(q))


def conjuncts_of(q):
    st, out = [q], []
    while st:
        t = st.pop()
        if t.op == "and": st.extend(t.args)
        else: out.append(t)
    return out


class Interp:
    def __init__(s, name="main"):
        s.name = name
        s.store = {}
        s.pc = []
        s.facts = []
        s.obl = []
        s.raises = []
        s.warnings = []
        s.modules = {}
        s.frames = []
        s.contracts = {}
        s.calls = []
        s.inlined = set()
        s.assumed = {}
        s.loops = []
        s.unroll = 8
        s.spin = itertools.count()
        s.in_loop = 0
        s.loopvars = []      # variables of the enclosing symbolic loops: opaque results may depend on them
        s.strings = {}
        s.celldtype, s.cell_arity, s.cell_len, s.cellrange = {}, {}, {}, {}
        s.rec_defs, s.recurrences, s.while_specs, s.loop_inv, s.inv_active = {}, {}, {}, {}, []
        s.ext = {}          # contracts of external functions given by the unit
        s.memo_values = {}
        s.assumed_once = set()
        s.written = []      # cells written (for frame conditions): (cell)
        s.input_cells = {}

    # ------------------------------------------------------------ state
    def snapshot(s): return dict(s.store)

    def new_cell(s, base, writes=(), log=(), dtype="f"):
        c = next(ir_cells)
        s.celldtype[c] = dtype
        s.store[("c", c)] = Content(base, writes, log)
        return c

    def content(s, a): return s.store[("c", a.cell)]

    def mk(s, fn, shape, dtype="f", frozen=False, meta=None, log=None):
        shape = [d if isinstance(d, MaskDim) else const(d) for d in shape]
        rg = dtype if hasattr(dtype, "range") else None
        dtype = str(dtype)
        c = s.new_cell(fn, dtype=dtype, log=log)
        if rg is not None: s.cellrange[c] = rg
        s.cell_arity[c] = nidx(shape)
        if len(shape) == 1 and not isinstance(shape[0], MaskDim): s.cell_len[c] = shape[0]
        return Arr(c, shape, dtype, None, frozen, meta)

    def arr(s, shape, fn, dtype="f", meta=None):
        return s.mk(fn, shape, dtype, False, meta)

    def read(s, a, idx):
        idx = tuple(const(i) for i in idx)
        c = s.store[("c", a.cell)]
        return c.read(a.view(idx) if a.view else idx)

    def reader(s, a):
        """a function reading the array as it is now"""
        c, v = s.store[("c", a.cell)], a.view
        if v is None: return lambda idx: c.read(tuple(idx))
        return lambda idx: c.read(v(tuple(idx)))

    def inp(s, name, shape, dtype="f", meta=None, sort=None):
        """a symbolic input array name(idx...)"""
        sort = sort or {"f": "R", "i": "I", "b": "B"}.get(dtype, "R")
        if dtype == "c":
            fn = lambda idx: Cx(app(name + ".re", idx, "R"), app(name + ".im", idx, "R"))
        else:
            fn = lambda idx: app(name, idx, sort)
        a = s.arr(shape, fn, dtype, meta)
        s.input_cells[a.cell] = name
        return a

    def hyps(s): return s.pc + s.facts

    def decide(s, c, ms=250):
        """True/False/None under the path condition and the quantifier-free facts"""
        c = truth(c)
        if c is TRUE: return True
        if c is FALSE: return False
        cc, nc = poly.canonG(c), poly.canonG(not_(c))
        if cc is TRUE: return True
        if nc is TRUE: return False
        h = [poly.canonH(x) for x in s.pc + s.facts if not has_quant(x)]
        ids = {x.id for x in h}
        for x in h:
            if x.op == "and": ids.update(y.id for y in x.args)
        if cc.id in ids: return True
        if nc.id in ids: return False
        if smt.quick_implies(h, cc, ms): return True
        if smt.quick_implies(h, nc, ms): return False
        return None

    def strong(s, c, ms=1500):
        """decide with the facts about sums as well (only True is searched for)"""
        r = s.decide(c)
        if r is not None: return r
        from . import prover
        if not prover.relevant_sums([truth(c)]): return None
        k = (tuple(x.id for x in s.pc), len(s.facts), c.id)
        m = s.__dict__.setdefault("_strong", {})
        if k not in m: m[k] = prover.prove_goal(s.hyps(), c, ms, cvc5=False)[0] == "proved" or None
        return m[k]

    def same(s, a, b):
        """dimension equality, decided"""
        if isinstance(a, MaskDim) or isinstance(b, MaskDim):
            return isinstance(a, MaskDim) and isinstance(b, MaskDim) and a.key == b.key
        a, b = const(a), const(b)
        if a is b: return True
        p = poly.clean(lambda: poly.padd(poly.norm(a), poly.norm(b), -1))
        if p is not None and poly.is_const(p): return not p
        return s.decide(eq(a, b)) is True

    def oblige(s, name, goal, kind="safety", hyps=None):
        s.obl.append({"name": name, "hyps": list(s.hyps() if hyps is None else hyps), "goal": truth(goal), "kind": kind,
                      "function": s.frames[-1].qual if s.frames else s.name})

    def assume(s, t, why=None):
        s.facts.append(truth(t))
        if why: s.assumed[why] = True

    # ------------------------------------------------------------ merging
    def merge_value(s, c, a, b, sa, sb):
        """value equal to a (in store sa) if c else b (in store sb); may allocate in s.store"""
        if a is b: return a
        if isinstance(a, (str, type(None))) and type(a) is type(b) and a == b: return a
        if is_num(a) and is_num(b):
            return n_ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(s.merge_value(c, x, y, sa, sb) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(s.same(x, y) for x, y in zip(a.shape, b.shape)):
            ca, cb = sa[("c", a.cell)], sb[("c", b.cell)]
            va, vb = a.view, b.view
            if a.cell == b.cell and va is vb:
                return a
            fa = (lambda idx: ca.read(va(idx))) if va else ca.read
            fb = (lambda idx: cb.read(vb(idx))) if vb else cb.read
            dt = a.dtype if a.dtype == b.dtype else max(a.dtype, b.dtype, key="bifc".index)
            meta = {k: v for k, v in a.meta.items() if b.meta.get(k) == v}
            return s.mk(lambda idx: n_ite(c, fa(idx), fb(idx)), a.shape, dt, True, meta)
        if isinstance(a, Content) and isinstance(b, Content):
            return s.merge_content(c, a, b)
        if isinstance(a, LC) and isinstance(b, LC) and a.base is b.base and len(a.items) == len(b.items):
            return LC(a.base, [s.merge_value(c, x, y, sa, sb) for x, y in zip(a.items, b.items)])
        if isinstance(a, Sparse) and isinstance(b, Sparse):
            if same_sparse(a, b): return a
            fa, fb = a.fn, b.fn
            return Sparse(lambda r, k: n_ite(c, fa(r, k), fb(r, k)), a.shape)
        al = [(and_(c, q), v) for q, v in (a.alts if isinstance(a, Union) else [(TRUE, a)])]
        bl = [(and_(not_(c), q), v) for q, v in (b.alts if isinstance(b, Union) else [(TRUE, b)])]
        out = []
        for q, v in al + bl:
            if contradictory(q): continue
            for k, (q2, v2) in enumerate(out):
                if v is v2 or (v is None and v2 is None) or (isinstance(v, Sparse) and isinstance(v2, Sparse) and same_sparse(v, v2)):
                    out[k] = (or_(q, q2), v2)
                    break
            else:
                out.append((q, v))
        return out[0][1] if len(out) == 1 else Union(out)

    def merge_content(s, c, a, b):
        if a is b: return a
        if a.base is not b.base:
            return Content(lambda idx: n_ite(c, a.read(idx), b.read(idx)), (), None)
        k = 0
        while k < min(len(a.writes), len(b.writes)) and a.writes[k] is b.writes[k]: k += 1
        ws = a.writes[:k] + tuple(w.guarded(c) for w in a.writes[k:]) + tuple(w.guarded(not_(c)) for w in b.writes[k:])
        log = None
        if a.log is not None and b.log is not None:
            j = 0
            while j < min(len(a.log), len(b.log)) and a.log[j] is b.log[j]: j += 1
            log = a.log[:j]
            if a.log[j:]: log += (("if", c, a.log[j:]),)
            if b.log[j:]: log += (("if", not_(c), b.log[j:]),)
        return Content(a.base, ws, log)

    def merge_store(s, c, sa, sb):
        out = {}
        s.store = out
        for k, a in sa.items():
            if k in sb:
                b = sb[k]
                if a is b: out[k] = a
            else:
                out[k] = s.half(k, c, a)
        for k, b in sb.items():
            if k not in sa: out[k] = s.half(k, not_(c), b)
        for k in list(sa):
            if k in sb and sa[k] is not sb[k]:
                out[k] = s.merge_value(c, sa[k], sb[k], sa, sb)
        s.store = out
        return out

    def half(s, k, c, v):
        """a variable or attribute assigned on one of two paths only"""
        if k[0] != "a" and not (k[0] == "v" and any(f.env is not None and f.env.id == k[1] for f in s.frames)): return v
        return Union([(and_(c, q), x) for q, x in (v.alts if isinstance(v, Union) else [(TRUE, v)])] + [(not_(c), UNSET)])

    def certain(s, v, exc, default=None):
        """the value of a variable or attribute that may be unset: its default, or an exception there"""
        if not isinstance(v, Union) or not any(x is UNSET for _, x in v.alts): return v
        bad = or_(*[c for c, x in v.alts if x is UNSET])
        alts = [(c, x) for c, x in v.alts if x is not UNSET]
        d = s.decide(bad)
        if d is not False:
            if default is not None: return s.merge_value(bad, default[0], alts[0][1] if len(alts) == 1 else Union(alts), s.store, s.store)
            s.raises.append((s.pc + [bad], Exc(exc, ()), dict(s.store)))
            s.pc = s.pc + [not_(bad)]
        return alts[0][1] if len(alts) == 1 else Union(alts)

    # ------------------------------------------------------------ modules
    def load(s, modname):
        """dreimac module by name -> environment"""
        if modname in s.modules: return s.modules[modname]
        path = os.path.join(REPO, "dreimac", modname + ".py")
        src = open(path).read()
        tree = ast.parse(src)
        env = Env(None, modname)
        s.modules[modname] = env
        for st in tree.body:
            if isinstance(st, ast.Expr): continue
            s.stmt_top(st, env, modname)
        return env

    def stmt_top(s, st, env, modname):
        try:
            s.stmt(st, env)
        except Unsupported:
            if isinstance(st, ast.Assign):
                return
            raise

    def get(s, path):
        """'utils.CohomologyUtils.make_delta0' -> callable value"""
        parts = path.split(".")
        env = s.load(parts[0])
        v = s.lookup(env, parts[1])
        for p in parts[2:]:
            v = s.getattr(v, p)
        return v

    def has(s, path):
        try:
            return s.get(path) is not None
        except (Unsupported, FileNotFoundError):
            return False

    def lookup(s, env, name):
        e = env
        while e is not None:
            k = ("v", e.id, name)
            if k in s.store: return s.certain(s.store[k], "UnboundLocalError")
            e = e.parent
        if name in BUILTINS: return BUILTINS[name]
        raise Unsupported("name %s is not defined on every path" % name)

    def bind(s, env, name, v):
        s.store[("v", env.id, name)] = v

    # ------------------------------------------------------------ calls
    def call(s, f, args, kwargs=None, at=None):
        kwargs = kwargs or {}
        if isinstance(f, Union):
            return s.umap(lambda g: s.call(g, args, kwargs, at), f)
        if isinstance(f, Bound):
            return s.call(f.fn, [f.self] + list(args), kwargs, at)
        if isinstance(f, Native):
            return f.f(s, *args, **kwargs)
        if isinstance(f, Ext):
            from . import npmodel
            h = s.ext.get(f.path) or npmodel.EXT.get(f.path)
            if h is None: raise Unsupported("external function %s" % f.path)
            return h(s, *args, **kwargs)
        if isinstance(f, Cls):
            o = Obj(f)
            init = f.find("__init__")
            if init is not None: s.call(Bound(init, o), args, kwargs, at)
            return o
        if isinstance(f, Func):
            q = f.module + "." + f.qual
            if q in s.contracts and not (s.frames and getattr(s.frames[-1], "no_contract", None) == q):
                return s.contracts[q](s, f, s.bind_args(f, args, kwargs))
            return s.call_body(f, args, kwargs)
        if callable(f) and not isinstance(f, (Term,)):
            return f(s, *args, **kwargs)
        raise Unsupported("call of %r" % (f,))

    def bind_args(s, f, args, kwargs):
        """-> dict of parameter values, defaults filled"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg: raise Unsupported("too many arguments for %s" % f.qual)
        d = dict(zip(names, args))
        if a.vararg: d[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k not in names + kwonly: raise Unsupported("unknown keyword %s for %s" % (k, f.qual))
            d[k] = v
        for k, x in zip(names[len(names) - len(a.defaults):], f.defaults or ()):
            d.setdefault(k, x)
        for k, x in zip(kwonly, f.kwdefaults or ()):
            if x is not None: d.setdefault(k, x)
        for k in names + kwonly:
            if k not in d: raise Unsupported("missing argument %s of %s" % (k, f.qual))
        return d

    def call_body(s, f, args, kwargs=None):
        """execute the body of f (inlining)"""
        d = s.bind_args(f, args, kwargs or {})
        if len(s.frames) > 30: raise Unsupported("recursion in %s" % f.qual)
        s.inlined.add(f.module + "." + f.qual)
        parent = f.env
        if f.jit and f.env.module is None:
            # numba compiles arrays of enclosing scopes into the kernel as constants
            if f.frozen_env is None:
                fe = Env(f.env.parent_module_env if hasattr(f.env, "parent_module_env") else s.modules[f.module])
                free = s.free_names(f.node)
                for nm in free:
                    try:
                        v = s.lookup_local(f.env, nm)
                    except KeyError:
                        continue
                    if isinstance(v, Arr):
                        rd = s.reader(v)
                        v = s.mk(rd, v.shape, v.dtype, True, v.meta)
                    s.bind(fe, nm, v)
                f.frozen_env = fe
            parent = f.frozen_env
        env = Env(parent, None)
        for k, v in d.items(): s.bind(env, k, v)
        fr = Frame(f.module + "." + f.qual)
        fr.func, fr.env = f, env
        s.frames.append(fr)
        pc0 = s.pc
        nr0 = len(s.raises)
        try:
            alive = s.block(f.node.body, env) if not isinstance(f.node, ast.Lambda) else s.ret(s.ev(f.node.body, env))
        finally:
            s.frames.pop()
        if alive:
            fr.returns.append((s.pc, None, s.store))
        if not fr.returns:
            s.pc = pc0
            raise Raised()
        s.pc = pc0
        n = len(pc0)
        conds = [and_(*pc[n:]) for pc, _, _ in fr.returns]
        pcs, val, st = fr.returns[-1]
        s.store = st
        for (pc, v, st2), c in list(zip(fr.returns, conds))[-2::-1]:
            cur = s.store
            m = s.merge_store(c, st2, cur)
            val = s.merge_value(c, v, val, st2, cur)
        if len(s.raises) > nr0:
            c = or_(*conds)
            if c is not TRUE: s.pc = pc0 + [c]
        # drop the locals of the frame unless a closure may need them
        return val

    def lookup_local(s, env, name):
        e = env
        while e is not None and e.module is None:
            k = ("v", e.id, name)
            if k in s.store: return s.store[k]
            e = e.parent
        raise KeyError(name)

    def free_names(s, node):
        loads = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        params = {a.arg for a in node.args.args}
        stores = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return sorted(loads - params - stores)

    def ret(s, v):
        s.frames[-1].returns.append((s.pc, v, s.store))
        return False

    def do_raise(s, exc):
        if isinstance(exc, str): exc = Exc(exc, ())
        s.raises.append((list(s.pc), exc, s.store))
        return False

    def umap(s, f, u):
        """apply f to every alternative of a union value"""
        alts = s.alts(u)
        if len(alts) == 1: return f(alts[0][1])
        res = []
        pc0, st0 = s.pc, s.store
        for c, v in alts:
            s.pc, s.store = pc0 + [c], dict(st0)
            res.append((c, f(v), s.store))
        c, val, st = res[-1]
        s.store = st
        for c, v, st2 in res[-2::-1]:
            cur = s.store
            s.merge_store(c, st2, cur)
            val = s.merge_value(c, v, val, st2, cur)
        s.pc = pc0
        return val

    def alts(s, u):
        if not isinstance(u, Union): return [(TRUE, u)]
        out = [(c, v) for c, v in u.alts if s.decide(c) is not False]
        for c, v in out:
            if s.decide(c) is True: return [(TRUE, v)]
        if not out: raise Unsupported("no alternative left")
        return out

    # ------------------------------------------------------------ statements
    def block(s, body, env):
        for st in body:
            if not s.stmt(st, env): return False
        return True

    def stmt(s, st, env):
        m = getattr(s, "st_" + type(st).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(st).__name__)
        try:
            r = m(st, env)
        except Raised:
            return False
        return True if r is None else r

    def st_Expr(s, st, env):
        if isinstance(st.value, ast.Constant): return True
        s.ev(st.value, env)

    def st_Pass(s, st, env): return True

    def st_Global(s, st, env): raise Unsupported("global statement")

    def st_Nonlocal(s, st, env): raise Unsupported("nonlocal statement")

    def st_Import(s, st, env):
        for a in st.names:
            if a.asname: s.bind(env, a.asname, Ext(a.name))
            else: s.bind(env, a.name.split(".")[0], Ext(a.name.split(".")[0]))

    def st_ImportFrom(s, st, env):
        for a in st.names:
            if st.level or (st.module or "").startswith("dreimac"):
                m = (st.module or "").split(".")[-1]
                me = s.load(m)
                s.bind(env, a.asname or a.name, s.lookup(me, a.name))
            else:
                s.bind(env, a.asname or a.name, Ext(st.module + "." + a.name))

    def deco(s, node, env):
        jit = static = False
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            nm = ast.unparse(t).split(".")[-1]
            if nm in ("jit", "njit"): jit = True
            elif nm == "staticmethod": static = True
            else: raise Unsupported("decorator %s" % nm)
        return jit, static

    def st_FunctionDef(s, st, env, cls=None, prefix=""):
        jit, static = s.deco(st, env)
        mod = s.modof(env)
        q = (prefix + "." if prefix else "") + st.name
        if s.frames and env.module is None: q = s.frames[-1].qual.split(".", 1)[1] + "." + st.name
        f = Func(st, env, mod, q, cls, jit, static)
        f.defaults = [s.ev(d, env) for d in st.args.defaults]
        f.kwdefaults = [s.ev(d, env) if d is not None else None for d in st.args.kw_defaults]
        if cls is None: s.bind(env, st.name, f)
        return True if cls is None else f

    def modof(s, env):
        e = env
        while e is not None:
            if e.module: return e.module
            e = e.parent
        return s.frames[-1].qual.split(".")[0]

    def st_ClassDef(s, st, env):
        bases = [s.ev(b, env) for b in st.bases]
        c = Cls(st, s.modof(env), st.name, bases, {})
        cenv = Env(env, None)
        cenv.module = None
        for b in st.body:
            if isinstance(b, ast.FunctionDef):
                jit, static = s.deco(b, env)
                f = Func(b, env, s.modof(env), st.name + "." + b.name, c, jit, static)
                f.defaults = [s.ev(d, cenv) for d in b.args.defaults]
                f.kwdefaults = [s.ev(d, cenv) if d is not None else None for d in b.args.kw_defaults]
                c.members[b.name] = f
                s.bind(cenv, b.name, f)
            elif isinstance(b, ast.Expr): continue
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                v = s.ev(b.value, cenv)
                c.members[b.targets[0].id] = v
                s.bind(cenv, b.targets[0].id, v)
            else: raise Unsupported("class body statement")
        s.bind(env, st.name, c)

    def st_Return(s, st, env):
        return s.ret(s.ev(st.value, env) if st.value is not None else None)

    def st_Raise(s, st, env):
        if st.exc is None: raise Unsupported("re-raise")
        return s.do_raise(ast.unparse(st.exc.func if isinstance(st.exc, ast.Call) else st.exc))

    def st_Assert(s, st, env):
        c = s.cond(st.test, env)
        d = s.decide(c)
        if d is True: return True
        if d is False: return s.do_raise("AssertionError")
        pc0 = s.pc
        s.pc = pc0 + [not_(c)]
        s.do_raise("AssertionError")
        s.pc = pc0 + [c]

    def st_Assign(s, st, env):
        v = s.ev(st.value, env)
        for t in st.targets: s.assign(t, v, env)

    def st_AnnAssign(s, st, env):
        if st.value is not None: s.assign(st.target, s.ev(st.value, env), env)

    def st_AugAssign(s, st, env):
        t = st.target
        from . import npmodel
        if isinstance(t, ast.Name):
            cur = s.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = s.ev(st.value, env)
            if isinstance(cur, Arr):
                r = npmodel.binop(s, st.op, cur, v)
                npmodel.store_all(s, cur, r)
            elif isinstance(cur, PyList) and isinstance(st.op, ast.Add):
                s.list_extend(cur, v)
            else:
                s.assign(t, npmodel.binop(s, st.op, cur, v), env)
            return
        if isinstance(t, ast.Subscript):
            base, ix = s.ev(t.value, env), s.index(t.slice, env)
            cur = s.subscript(base, ix)
            r = npmodel.binop(s, st.op, cur, s.ev(st.value, env))
            s.store_sub(base, ix, r)
            return
        if isinstance(t, ast.Attribute):
            o = s.ev(t.value, env)
            s.setattr(o, t.attr, npmodel.binop(s, st.op, s.getattr(o, t.attr), s.ev(st.value, env)))
            return
        raise Unsupported("augmented assignment")

    def assign(s, t, v, env):
        if isinstance(t, ast.Name): s.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                if not isinstance(v, tuple): raise Unsupported("starred unpacking")
                k, m = star[0], len(v) - len(t.elts) + 1
                if m < 0: raise Unsupported("unpacking %d values into %d" % (len(v), len(t.elts)))
                for x, y in zip(t.elts[:k] + t.elts[k + 1:], v[:k] + v[k + m:]): s.assign(x, y, env)
                s.assign(t.elts[k].value, s.mklist(list(v[k:k + m])), env)
                return
            vs = s.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs): s.assign(x, y, env)
        elif isinstance(t, ast.Subscript): s.store_sub(s.ev(t.value, env), s.index(t.slice, env), v)
        elif isinstance(t, ast.Attribute): s.setattr(s.ev(t.value, env), t.attr, v)
        else: raise Unsupported("assignment target")

    def unpack(s, v, n):
        if isinstance(v, tuple): vs = list(v)
        elif isinstance(v, PyList): vs = s.items(v)
        elif isinstance(v, Arr) and isc(const(dcount(v.shape[0]))): vs = [s.subscript(v, (const(k),)) for k in range(int(v.shape[0].val))]
        elif isinstance(v, Arr): vs = [s.subscript(v, (const(k),)) for k in range(n)]
        elif isinstance(v, Native) and v.name == "zipsym": vs = v.f(s)
        elif isinstance(v, Native) and s.concrete_iter(v) is not None: vs = list(s.concrete_iter(v))
        else: raise Unsupported("unpacking %r" % (v,))
        if len(vs) != n: raise Unsupported("unpacking %d values into %d" % (len(vs), n))
        return vs

    def st_Delete(s, st, env): return True

    def st_If(s, st, env):
        c = s.cond(st.test, env)
        return s.branch(c, lambda: s.block(st.body, env), lambda: s.block(st.orelse, env))

    def note_split(s, c):
        """undecided tests about the given sizes and numbers alone: candidates for splitting a unit into cases"""
        if all("!" not in v.val and v.sort in "IR" for v in fv(c)) and fv(c): s.splits.append(c)

    def branch(s, c, th, el):
        d = s.decide(c)
        if d is True: return th()
        if d is False: return el()
        s.note_split(c)
        pc0, st0 = s.pc, s.store
        s.pc, s.store = pc0 + [c], dict(st0)
        a1 = th()
        pc1, st1 = s.pc, s.store
        s.pc, s.store = pc0 + [not_(c)], dict(st0)
        a2 = el()
        pc2, st2 = s.pc, s.store
        if a1 and a2:
            s.merge_store(c, st1, st2)
            n = len(pc0)
            q1, q2 = and_(*pc1[n:]), and_(*pc2[n:])
            q = or_(q1, q2)
            s.pc = pc0 if q is TRUE or (q1 is c and q2 is not_(c)) else pc0 + [q]
            return True
        if a1:
            s.pc, s.store = pc1, st1
            return True
        if a2:
            s.pc, s.store = pc2, st2
            return True
        return False

    def st_Try(s, st, env):
        n0 = len(s.raises)
        pc0, st0 = s.pc, dict(s.store)
        alive = s.block(st.body, env)
        new = s.raises[n0:]
        if not new or not st.handlers:
            return alive and s.block(st.orelse, env)
        if len(st.handlers) != 1: raise Unsupported("several exception handlers")
        del s.raises[n0:]
        pcA, stA = s.pc, s.store
        n = len(pc0)
        conds = [and_(*pc[n:]) for pc, _, _ in new]
        store = new[-1][2]
        s.store = dict(store)
        for (pc, _, st2), c in list(zip(new, conds))[-2::-1]:
            s.merge_store(c, st2, s.store)
        s.pc = pc0 + [or_(*conds)]
        s.store = dict(s.store)
        aliveB = s.block(st.handlers[0].body, env)
        pcB, stB = s.pc, s.store
        c = or_(*conds)
        if alive and aliveB:
            s.merge_store(c, stB, stA)
            s.pc = pc0
            return True
        if alive: s.pc, s.store = pcA, stA
        elif aliveB: s.pc, s.store = pcB, stB
        return alive or aliveB

    def st_With(s, st, env): raise Unsupported("with statement")

    def st_Continue(s, st, env):
        s.loops[-1]["cont"].append((s.pc, s.store))
        return False

    def st_Break(s, st, env):
        s.loops[-1]["brk"].append((s.pc, s.store))
        return False

    def st_For(s, st, env):
        if st.orelse: raise Unsupported("for-else")
        it = s.ev(st.iter, env)

        def body(v):
            s.assign(st.target, v, env)
            return s.block(st.body, env)
        return s.loop_over(it, body, (st, env))

    def loop_over(s, it, body, ctx=None):
        """run body on every element; returns alive"""
        if isinstance(it, Union):
            al = s.alts(it)
            if len(al) == 1: it = al[0][1]
        con = s.concrete_iter(it)
        if con is not None:
            return s.unrolled(con, body, None if isinstance(it, (tuple, str, dict)) or isinstance(it, Native) and it.name == "range" else it)
        lo, hi, at = s.sym_iter(it)
        inv = s.invariant_for(*ctx) if ctx else None
        if inv is not None:
            from . import invariant
            return invariant.for_loop(s, inv, ctx[0], ctx[1], lo, hi, lambda i: body(at(i)))
        return s.sym_loop(lo, hi, lambda i: body(at(i)))

    def invariant_for(s, st, env):
        """the invariant the contract gives for a loop of the running function (or, for its first loop, of a function it
        was moved to)"""
        for n, f in enumerate(reversed(s.frames)):
            spec = s.loop_inv.get(f.qual)
            if spec is not None:
                return None if n and spec in s.inv_active and not getattr(spec, "nested", False) else spec(s, (st, env))

    def unrolled(s, vals, body, live=None):
        """live: the object iterated over, read again at every step (the body may change it)"""
        alive = True
        brk = []
        pc0 = s.pc
        for k, v in enumerate(vals):
            s.loops.append({"cont": [], "brk": []})
            try:
                if live is not None and k:
                    now = s.concrete_iter(live)
                    if now is None or len(now) != len(vals): raise Unsupported("the list iterated over changes its length")
                    v = now[k]
                v = v() if callable(v) and not isinstance(v, (Term, Func, Native, Cls, Bound)) and getattr(v, "lazy", False) else v
                alive = body(v)
            finally:
                L = s.loops.pop()
            alive = s.join(alive, L["cont"], pc0)
            brk += L["brk"]
            if not alive: break
        return s.join(alive, brk, pc0)

    def join(s, alive, flows, pc0):
        """merge recorded flows (pc, store) into the current one"""
        if not flows: return alive
        n = len(pc0)
        fl = list(flows)
        if not alive:
            pc, st = fl.pop()
            s.pc, s.store = pc, st
        for pc, st in fl:
            c = and_(*pc[n:])
            cur, cpc = s.store, s.pc
            s.merge_store(c, st, cur)
            q = or_(c, and_(*cpc[n:]))
            s.pc = pc0 + ([q] if q is not TRUE else [])
        return True

    def concrete_iter(s, it):
        if isinstance(it, tuple): return list(it)
        if isinstance(it, PyList):
            lc = s.store[("l", it.id)]
            if isinstance(lc, LC) and lc.base is None: return list(lc.items)
            return None
        if isinstance(it, str): return list(it)
        if isinstance(it, dict): return list(it)
        if isinstance(it, Native):
            if it.name == "range":
                lo, hi, st = it.f
                if isc(lo) and isc(hi) and isc(st):
                    r = range(int(lo.val), int(hi.val), int(st.val))
                    if len(r) <= s.unroll: return [const(k) for k in r]
                return None
            if it.name in ("enumerate", "zip", "reversed"):
                subs = [s.concrete_iter(x) for x in (it.f[:1] if it.name == "enumerate" else it.f)]
                if any(x is None for x in subs):
                    lens = [len(x) for x in subs if x is not None]
                    if it.name == "zip" and lens:
                        # zip of concrete and symbolic: lengths must agree, read the symbolic ones
                        n = min(lens)
                        out = []
                        for x, c in zip(it.f, subs):
                            if c is None:
                                lo, hi, at = s.sym_iter(x)
                                if not s.same(sub(hi, lo), n): raise Unsupported("zip of unequal lengths")
                                c = [at(add(lo, k)) for k in range(n)]
                            out.append(c)
                        return list(zip(*out))
                    return None
                if it.name == "enumerate": return [(add(k, it.f[1]) if len(it.f) > 1 else const(k), v) for k, v in enumerate(subs[0])]
                if it.name == "reversed": return subs[0][::-1]
                return list(zip(*subs))
        if isinstance(it, Arr):
            n = dcount(it.shape[0])
            if isc(n) and n.val <= s.unroll: return [s.subscript(it, (const(k),)) for k in range(int(n.val))]
        return None

    def sym_iter(s, it):
        """-> (lo, hi, at): elements at(i) for lo <= i < hi, in increasing order of i"""
        if isinstance(it, Native):
            if it.name == "range":
                lo, hi, st = it.f
                if isc(st) and st.val == 1: return lo, hi, lambda i: i
                if isc(st) and st.val == -1: return const(0), sub(lo, hi), lambda i: sub(lo, i)
                if isc(st) and st.val > 0:
                    cnt = fdiv(add(sub(hi, lo), st.val - 1), st)
                    return const(0), cnt, lambda i: add(lo, mul(st, i))
            if it.name == "enumerate":
                lo, hi, at = s.sym_iter(it.f[0])
                return lo, hi, lambda i: (add(sub(i, lo), it.f[1] if len(it.f) > 1 else 0), at(i))
            if it.name == "reversed":
                lo, hi, at = s.sym_iter(it.f[0])
                return lo, hi, lambda i: at(sub(add(lo, hi), add(i, 1)))
            if it.name == "zip":
                parts = [s.sym_iter(x) for x in it.f]
                lo, hi = parts[0][0], parts[0][1]
                for l2, h2, _ in parts[1:]:
                    if not s.same(sub(hi, lo), sub(h2, l2)): raise Unsupported("zip of unequal lengths")
                return lo, hi, lambda i: tuple(at(add(i, sub(l2, lo))) for l2, _, at in parts)
        if isinstance(it, Arr):
            if isinstance(it.shape[0], MaskDim):
                from .npmodel import positional
                it = positional(s, it)
            return const(0), it.shape[0], lambda i: s.subscript(it, (i,))
        if isinstance(it, PyList):
            lc = s.store[("l", it.id)]
            if isinstance(lc, LC) and lc.base is not None and not lc.items and isinstance(lc.base, SymList):
                return const(0), lc.base.length, lc.base.elem
        if isinstance(it, SymList):
            return const(0), it.length, it.elem
        raise Unsupported("iteration over %r" % (it,))

    # ------------------------------------------------------------ symbolic loops
    def sym_loop(s, lo, hi, body):
        lo, hi = const(lo), const(hi)
        i = fresh("i")
        pre, pc0 = s.store, s.pc
        mods, sorts = {}, {}
        nob, nra, nfa, nwa = len(s.obl), len(s.raises), len(s.facts), len(s.warnings)
        frame = s.frames[-1] if s.frames else Frame("main")
        nret = len(frame.returns)
        s.in_loop += 1
        s.loopvars.append(i)
        tag = next(s.spin)
        try:
            for attempt in range(12):
                del s.obl[nob:], s.raises[nra:], s.facts[nfa:], frame.returns[nret:], s.warnings[nwa:]
                s.store = dict(pre)
                s.pc = pc0 + [le(lo, i), lt(i, hi)]
                hv = {}
                for k in mods:
                    hv[k] = s.havoc(k, pre[k], i, tag, sorts)
                    s.store[k] = hv[k]
                pre_ids = set(s.store)
                s.loops.append({"cont": [], "brk": []})
                try:
                    alive = body(i)
                finally:
                    L = s.loops.pop()
                base_pc = pc0 + [le(lo, i), lt(i, hi)]
                alive = s.join(alive, L["cont"], base_pc)
                brk = L["brk"]
                if brk and not alive: raise Unsupported("a loop that always breaks")
                post = s.store
                new = [k for k in pre if k in post and post[k] is not (hv[k] if k in mods else pre[k]) and k not in mods]
                resort = False
                for k in mods:
                    a, b = hv[k], post[k]
                    if isinstance(a, Term) and isinstance(b, Term) and a.sort != b.sort and not isc(b) and sorts.get(k) is None:
                        sorts[k] = "R" if "R" in (a.sort, b.sort) else b.sort
                        resort = resort or sorts[k] != a.sort
                if not new and not resort: break
                for k in new:
                    if pre[k] is None:
                        v = s.memo_candidate(post[k], i, pre)
                        if v is None: raise Unsupported("a local that is None before the loop gets a value that changes with the iteration")
                        s.memo_values[k] = v
                    mods[k] = True
            else:
                raise Unsupported("loop does not stabilise")
        finally:
            s.in_loop -= 1
            s.loopvars.pop()
        n = len(pc0)
        body_pc = s.pc
        # flows leaving the loop from inside
        rets = frame.returns[nret:]
        del frame.returns[nret:]
        ras = s.raises[nra:]
        del s.raises[nra:]
        if not alive and not rets and not ras:
            raise Unsupported("loop body never completes")
        sol = s.solve_loop(i, lo, hi, pre, post, hv, mods, tag, pc0)
        rw = sol["rw"]
        # facts and obligations generated in the body hold for every iteration
        for o in s.obl[nob:]:
            o["goal"] = rw(o["goal"])
            o["hyps"] = [rw(h) for h in o["hyps"]] + sol["facts"]
        newf = s.facts[nfa:]
        del s.facts[nfa:]
        for f in newf:
            f = rw(f)
            s.facts.append(forall_rng(i, lo, hi, f) if i in fv(f) else f)
        s.facts += sol["facts"]
        # early exits
        post_pc = pc0
        exits, broke = [], []
        for pc, v, st in rets: exits.append((rw(and_(*pc[n + 2:])), "ret", v, st))
        for pc, v, st in ras: exits.append((rw(and_(*pc[n + 2:])), "raise", v, st))
        for pc, st in brk: exits.append((rw(and_(*pc[n + 2:])), "break", None, st))
        s.store = sol["final"]
        if exits:
            cond_any = or_(*[c for c, _, _, _ in exits])
            first = binderv("first", i, lo, hi, cond_any)
            some = binderv("exists", i, lo, hi, cond_any)
            for c, kind, v, st in exits:
                same_all = len(exits) == 1
                # the state and value at the first exiting iteration
                if kind == "ret":
                    v2 = s.subst_value(s.rw_value(v, rw), {i: first}, st)
                    if s.mentions_h(v2): raise Unsupported("value returned from inside a loop depends on its history")
                    here = some if same_all else and_(some, subst(c, {i: first}))
                    frame.returns.append((pc0 + [here], v2, s.exit_store(pre, st, mods)))
                elif kind == "break":
                    here = some if same_all else and_(some, subst(c, {i: first}))
                    broke.append((here, s.break_store(pre, st, hv, rw, i, first)))
                else:
                    here = some if same_all else and_(some, subst(c, {i: first}))
                    s.raises.append((pc0 + [here], v, dict(pre)))
            post_pc = pc0 + [not_(some)] if not broke else pc0 if len(broke) == len(exits) else pc0 + [or_(not_(some), *[h for h, _ in broke])]
            for here, bst in broke:
                for k in [k for k in s.store if k in pre and k not in bst]: s.store.pop(k)
                s.merge_store(here, bst, s.store)
        for w in range(nwa, len(s.warnings)):
            c, txt = s.warnings[w]
            s.warnings[w] = (binderv("exists", i, lo, hi, rw(and_(*c[n:]))), txt)
        s.pc = post_pc
        if exits and not alive:
            # no iteration completes: past the loop only without iterations
            if s.decide(lt(lo, hi)) is True: raise Raised()
            s.pc = s.pc + [le(hi, lo)]
        return True

    def break_store(s, pre, st, hv, rw, i, first):
        """store after the first breaking iteration: what it left, with the iterations before it complete"""
        out = {}

        def at(v): return n_subst(n_map(v, rw), {i: first})
        for k, v in st.items():
            if k not in pre:
                if k[0] == "c": out[k] = v
                continue
            if v is pre[k]: out[k] = v
            elif isinstance(v, (Term, Cx)) or is_num(v):
                v2 = at(num(v))
                if not s.mentions_h(v2): out[k] = v2
            elif isinstance(v, Content):
                out[k] = Content((lambda c: lambda idx: at(c.read(idx)))(v), (), None)
            elif v is None or isinstance(v, (str, bool)): out[k] = v
        return out

    def exit_store(s, pre, st, mods):
        """store at an early exit: only values not modified by the loop are kept"""
        out = dict(pre)
        for k in mods:
            out.pop(k, None)
        for k in st:
            if k not in pre and k[0] == "c": out[k] = st[k]
        return out

    def mentions_h(s, v):
        ts = []

        def walk(x):
            if isinstance(x, Term): ts.append(x)
            elif isinstance(x, Cx): ts.extend([x.re, x.im])
            elif isinstance(x, tuple): [walk(y) for y in x]
        walk(v)
        return any(nm.startswith("H!") for t in ts for nm in app_names(t))

    def havoc(s, key, init, i, tag, sorts):
        nm = "H!%d!%s" % (tag, "_".join(str(x) for x in key[1:]))
        if isinstance(init, bool) or (isinstance(init, Term) and init.sort == "B"):
            return app(nm, (i,), sorts.get(key) or "B")
        if isinstance(init, (int, float, Term)):
            t = const(init)
            return app(nm, (i,), sorts.get(key) or t.sort)
        if isinstance(init, Content):
            probe = init
            if s.cell_complex(key[1], init):
                base = lambda idx: Cx(app(nm + ".re", (i,) + tuple(idx), "R"), app(nm + ".im", (i,) + tuple(idx), "R"))
            else:
                srt = s.cell_sort(key[1])
                base = lambda idx: app(nm, (i,) + tuple(idx), srt)
            base.hname = nm
            return Content(base, (), ())
        if isinstance(init, Arr):
            if init.dtype == "c":
                base = lambda idx: Cx(app(nm + ".re", (i,) + tuple(idx), "R"), app(nm + ".im", (i,) + tuple(idx), "R"))
            else:
                srt = {"f": "R", "i": "I", "b": "B"}[init.dtype]
                base = lambda idx: app(nm, (i,) + tuple(idx), srt)
            base.hname = nm
            return s.mk(base, init.shape, init.dtype, True)
        if isinstance(init, LC):
            return LC(("H", key, init), ())
        if isinstance(init, tuple):
            return tuple(s.havoc(key + (k,), x, i, tag, sorts) for k, x in enumerate(init))
        if init is None and key in s.memo_values:
            b = app(nm, (i,), "B")
            return Union([(b, None), (not_(b), s.memo_values[key])])
        raise Unsupported("a loop changes a value of kind %s" % type(init).__name__)

    def cell_sort(s, cell):
        return {"f": "R", "i": "I", "b": "B"}.get(s.celldtype.get(cell, "f"), "R")

    def cell_complex(s, cell, content):
        return s.celldtype.get(cell) == "c"

    def solve_loop(s, i, lo, hi, pre, post, hv, mods, tag, pc0):
        from . import loops
        return loops.solve(s, i, lo, hi, pre, post, hv, mods, tag, pc0)

    def memo_candidate(s, v, i, pre):
        """the loop-invariant object a local is filled in with; hoisted into the store before the loop"""
        alts = [x for c, x in (v.alts if isinstance(v, Union) else [(TRUE, v)]) if x is not None]
        if len(alts) != 1: return None
        v = alts[0]
        if isinstance(v, Sparse):
            r, c = fresh("r"), fresh("c")
            t = v.fn(r, c)
            if any(i in fv(x) for x in (t,) + tuple(v.shape)): return None
            return v
        if isinstance(v, Arr):
            rd = s.reader(v)
            idx = tuple(fresh("x") for _ in range(nidx(v.shape)))
            t = rd(idx)
            if isinstance(t, Cx) or i in fv(t): return None
            a = s.mk(rd, v.shape, v.dtype, True, v.meta)
            pre[("c", a.cell)] = s.store[("c", a.cell)]
            return a
        return None

    def rw_value(s, v, rw):
        if isinstance(v, (Term, Cx)) or is_num(v): return n_map(num(v), rw)
        if isinstance(v, tuple): return tuple(s.rw_value(x, rw) for x in v)
        return v

    def subst_value(s, v, m, store=None):
        """the value with index variables replaced (arrays become read-only copies unless they are views of older cells)"""
        if isinstance(v, Term) or isinstance(v, Cx): return n_subst(v, m)
        if v is None or isinstance(v, (str, int, float, bool)): return v
        if isinstance(v, tuple): return tuple(s.subst_value(x, m, store) for x in v)
        if isinstance(v, Arr):
            c, vw = (store or s.store)[("c", v.cell)], v.view
            f = (lambda idx: n_subst(c.read(vw(idx)), m)) if vw else (lambda idx: n_subst(c.read(idx), m))
            return s.mk(f, [d if isinstance(d, MaskDim) else subst(d, m) for d in v.shape], v.dtype, True, v.meta)
        if isinstance(v, Sparse):
            f = v.fn
            return Sparse(lambda r, c: n_subst(f(r, c), m), [subst(d, m) for d in v.shape], v.meta)
        if isinstance(v, (Func, Cls, Ext, Native, Bound)): return v
        raise Unsupported("generalising a value of kind %s over a loop" % type(v).__name__)

    # ------------------------------------------------------------ while
    def st_While(s, st, env):
        from . import loops
        return loops.while_loop(s, st, env)

    # ------------------------------------------------------------ expressions
    def ev(s, e, env):
        m = getattr(s, "ex_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def ex_Constant(s, e, env):
        v = e.value
        if isinstance(v, bool): return TRUE if v else FALSE
        if isinstance(v, (int, float)): return const(v)
        if isinstance(v, complex): return num(v)
        return v

    def ex_Name(s, e, env): return s.lookup(env, e.id)

    def ex_Tuple(s, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += s.items(s.ev(x.value, env))
            else: out.append(s.ev(x, env))
        return tuple(out)

    def mklist(s, items=(), base=None):
        l = PyList()
        s.store[("l", l.id)] = LC(base, items)
        return l

    def items(s, l):
        if isinstance(l, tuple): return list(l)
        if isinstance(l, PyList):
            lc = s.store[("l", l.id)]
            if isinstance(lc, LC) and lc.base is None: return list(lc.items)
        c = s.concrete_iter(l)
        if c is not None: return c
        raise Unsupported("list of symbolic length where a concrete one is needed")

    def ex_List(s, e, env): return s.mklist(s.ex_Tuple(e, env))

    def ex_Dict(s, e, env):
        return {s.ev(k, env): s.ev(v, env) for k, v in zip(e.keys, e.values)}

    def ex_JoinedStr(s, e, env):
        return Fmt("<str>", [y for x in e.values if isinstance(x, ast.FormattedValue) for y in shown(s.ev(x.value, env))])

    def ex_Lambda(s, e, env):
        f = Func(e, env, s.modof(env), (s.frames[-1].qual.split(".", 1)[1] + "." if s.frames else "") + "<lambda>")
        f.defaults = [s.ev(d, env) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def ex_IfExp(s, e, env):
        c = s.cond(e.test, env)
        return s.cond_value(c, lambda: s.ev(e.body, env), lambda: s.ev(e.orelse, env))

    def cond_value(s, c, th, el):
        d = s.decide(c)
        if d is True: return th()
        if d is False: return el()
        s.note_split(c)
        pc0, st0 = s.pc, s.store
        s.pc, s.store = pc0 + [c], dict(st0)
        a = th()
        st1 = s.store
        s.pc, s.store = pc0 + [not_(c)], dict(st0)
        b = el()
        st2 = s.store
        s.pc = pc0
        s.merge_store(c, st1, st2)
        return s.merge_value(c, a, b, st1, st2)

    def truth(s, v):
        if isinstance(v, Union):
            return or_(*[and_(c, s.truth(x)) for c, x in v.alts])
        if isinstance(v, Cx): return not_(n_eq(v, const(0)))
        if isinstance(v, Term): return truth(v)
        if v is None: return FALSE
        if isinstance(v, (bool, int, float, str)): return TRUE if v else FALSE
        if isinstance(v, PyList): return not_(eq(s.length(v), 0))
        if isinstance(v, (tuple, dict)): return TRUE if v else FALSE
        if isinstance(v, Arr):
            if all(isc(dcount(d)) and dcount(d).val == 1 for d in v.shape): return truth(s.read(v, tuple(const(0) for _ in v.shape)))
            raise Unsupported("truth value of an array")
        if isinstance(v, Sparse): raise Unsupported("truth value of a sparse matrix")
        if isinstance(v, (Func, Obj, Cls, Ext)): return TRUE
        raise Unsupported("truth value of %r" % (v,))

    def cond(s, e, env):
        """the truth value of an expression in a test"""
        if isinstance(e, ast.BoolOp):
            vals = []
            pc0 = s.pc
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                c = s.cond(x, env)
                vals.append(c)
                if c is (FALSE if isand else TRUE): break
                s.pc = s.pc + [c if isand else not_(c)]
            s.pc = pc0
            return and_(*vals) if isand else or_(*vals)
        return s.truth(s.ev(e, env))

    def ex_BoolOp(s, e, env):
        """the value of the operand that decides"""
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = s.ev(e.values[k], env)
            if k == len(e.values) - 1: return v
            c = s.truth(v)
            if isinstance(v, (Term, bool)) and (isinstance(v, bool) or v.sort == "B"):
                if c is (FALSE if isand else TRUE): return v
                pc0 = s.pc
                s.pc = pc0 + [c if isand else not_(c)]
                w = go(k + 1)
                s.pc = pc0
                if isinstance(w, (Term, bool)) and truth(const(w)).sort == "B" and (isinstance(w, bool) or w.sort == "B"): return and_(c, truth(const(w))) if isand else or_(c, truth(const(w)))
            return s.cond_value(c, lambda: go(k + 1), lambda: v) if isand else s.cond_value(c, lambda: v, lambda: go(k + 1))
        return go(0)

    def ex_UnaryOp(s, e, env):
        v = s.ev(e.operand, env)
        from . import npmodel
        if isinstance(e.op, ast.Not): return not_(s.truth(v))
        if isinstance(e.op, ast.USub): return npmodel.ew(s, lambda a: n_neg(a), v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert): return npmodel.ew(s, lambda a: not_(a) if a.sort == "B" else sub(-1, a), v)
        raise Unsupported("unary operator")

    def ex_BinOp(s, e, env):
        from . import npmodel
        return npmodel.binop(s, e.op, s.ev(e.left, env), s.ev(e.right, env))

    def ex_Compare(s, e, env):
        from . import npmodel
        l = s.ev(e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = s.ev(r, env)
            out.append(npmodel.compare(s, op, l, r))
            l = r
        if len(out) == 1: return out[0]
        return and_(*[s.truth(x) for x in out])

    def ex_Attribute(s, e, env):
        v = e.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super": return s.super_attribute(v, e.attr, env)
        return s.getattr(s.ev(v, env), e.attr)

    def super_attribute(s, call, n, env):
        f = s.frames[-1].func
        if call.args and len(call.args) == 2: cls, me = s.ev(call.args[0], env), s.ev(call.args[1], env)
        else:
            if f is None or not f.node.args.args or "." not in f.qual: raise Unsupported("super() outside a method")
            cls, me = s.get(f.module + "." + f.qual.rsplit(".", 1)[0]), s.ev(ast.Name(f.node.args.args[0].arg, ast.Load()), env)
        for b in cls.bases:
            m = b.find(n) if isinstance(b, Cls) else None
            if isinstance(m, Func): return m if m.static else Bound(m, me)
        raise Unsupported("super().%s" % n)

    def getattr(s, v, n):
        from . import npmodel
        if isinstance(v, Ext):
            k = npmodel.attr_ext(v.path + "." + n)
            return k if k is not None else Ext(v.path + "." + n)
        if isinstance(v, Union): return s.umap(lambda x: s.getattr(x, n), v)
        if isinstance(v, Cls):
            if n == "__init__" or v.find(n) is not None: return v.find(n)
            raise Unsupported("class attribute %s.%s" % (v.name, n))
        if isinstance(v, Obj):
            k = ("a", v.id, n)
            if k in s.store: return s.certain(s.store[k], "AttributeError")
            m = v.cls.find(n) if v.cls else None
            if isinstance(m, Func): return m if m.static else Bound(m, v)
            if m is not None: return m
            raise Unsupported("attribute %s may be unset" % n)
        if isinstance(v, Opaque):
            if n in v.attrs: return v.attrs[n]
            raise Unsupported("attribute %s of %s" % (n, v.name))
        if isinstance(v, Func):
            if n == "__func__": return v
            if n == "py_func": return v
        return npmodel.attribute(s, v, n)

    def setattr(s, o, n, v):
        if isinstance(o, Union):
            al = s.alts(o)
            if len(al) == 1: o = al[0][1]
        if not isinstance(o, Obj): raise Unsupported("attribute assignment on %r" % (o,))
        s.store[("a", o.id, n)] = v

    def index(s, sl, env):
        """subscript -> tuple of index items"""
        if isinstance(sl, ast.Tuple): return tuple(s.index1(x, env) for x in sl.elts)
        v = s.index1(sl, env)
        return v if isinstance(v, tuple) else (v,)

    def index1(s, x, env):
        if isinstance(x, ast.Slice):
            g = lambda y: None if y is None else s.ev(y, env)
            return Slice(g(x.lower), g(x.upper), g(x.step))
        return s.ev(x, env)

    def ex_Subscript(s, e, env):
        return s.subscript(s.ev(e.value, env), s.index(e.slice, env))

    def subscript(s, v, ix):
        from . import npmodel
        return npmodel.subscript(s, v, ix)

    def store_sub(s, v, ix, val):
        from . import npmodel
        return npmodel.store_sub(s, v, ix, val)

    def ex_Call(s, e, env):
        from . import npmodel
        f = s.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = s.ev(a.value, env)
                if f is BUILTINS["zip"] and isinstance(v, (PyList, SymList)) and s.concrete_iter(v) is None:
                    return npmodel.unzip(s, v)
                args += s.items(v)
            else:
                args.append(s.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None: raise Unsupported("** arguments")
            kw[k.arg] = s.ev(k.value, env)
        if isinstance(f, Ext) and f.path in ("warnings.warn",):
            s.warnings.append((list(s.pc), e, args))
            return None
        return s.call(f, args, kw, e)

    def ex_ListComp(s, e, env): return s.comprehension(e, env)

    def ex_GeneratorExp(s, e, env): return s.comprehension(e, env)

    def comprehension(s, e, env):
        out = s.mklist()
        cenv = Env(env, None)
        if len(e.generators) > 1 and s.flat_comprehension(e, env, cenv, out): return out

        def go(k):
            if k == len(e.generators):
                s.list_append(out, s.ev(e.elt, cenv))
                return True
            g = e.generators[k]
            it = s.ev(g.iter, env if k == 0 else cenv)

            def body(v):
                s.assign(g.target, v, cenv)
                if g.ifs:
                    c = and_(*[s.cond(x, cenv) for x in g.ifs])
                    return s.branch(c, lambda: go(k + 1), lambda: True)
                return go(k + 1)
            return s.loop_over(it, body)
        go(0)
        return out

    def flat_comprehension(s, e, env, cenv, out):
        """nested generators over independent ranges of symbolic (or large) extent, as one loop"""
        gs = e.generators
        names = set()
        for k, g in enumerate(gs):
            if g.ifs or any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(g.iter)): return False
            names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        its = [s.ev(g.iter, env if k == 0 else cenv) for k, g in enumerate(gs)]
        if all(s.concrete_iter(x) is not None for x in its):
            n = 1
            for x in its: n *= len(s.concrete_iter(x))
            if n <= s.unroll: return False
        rng = [s.sym_iter(x) for x in its]
        size = const(1)
        strides = []
        for lo, hi, _ in reversed(rng):
            strides.insert(0, size)
            n = sub(hi, lo)
            if s.decide(le(0, n)) is not True: return False
            size = mul(size, n)

        def body(i):
            for g, (lo, hi, at), st in zip(gs, rng, strides):
                q = fdiv(i, st) if not (isc(st) and st.val == 1) else i
                s.assign(g.target, at(add(lo, fmod(q, sub(hi, lo)) if g is not gs[0] else q)), cenv)
            s.list_append(out, s.ev(e.elt, cenv))
            return True
        s.loop_over(Native((const(0), size, const(1)), "range"), body)
        return True

    def list_append(s, l, v):
        lc = s.store[("l", l.id)]
        s.store[("l", l.id)] = LC(lc.base, lc.items + (v,))

    def list_extend(s, l, v):
        for x in s.items(v): s.list_append(l, x)

    def length(s, v):
        if isinstance(v, (tuple, dict, str)): return const(len(v))
        if isinstance(v, PyList):
            lc = s.store[("l", v.id)]
            if lc.base is None: return const(len(lc.items))
            if isinstance(lc.base, SymList): return add(lc.base.length, len(lc.items))
            raise Unsupported("length of a list under construction")
        if isinstance(v, SymList): return v.length
        if isinstance(v, Arr):
            if not v.shape: raise Unsupported("len of a scalar")
            return dcount(v.shape[0])
        raise Unsupported("len of %r" % (v,))

    def ex_Starred(s, e, env): raise Unsupported("starred expression")

    def ex_NamedExpr(s, e, env):
        v = s.ev(e.value, env)
        s.assign(e.target, v, env)
        return v



def has_quant(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = t.op in BIND1 or t.op in ("opq", "isum") or any(has_quant(a) for a in t.args)
        memo[t.id] = r
    return r


def forall_rng(i, lo, hi, f):
    v = fresh("q", i.sort)
    return binderv("forall", v, lo, hi, subst(f, {i: v}))


ir_cells = itertools.count(1000000)
BUILTINS = {}
