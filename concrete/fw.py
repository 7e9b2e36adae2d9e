"""Concrete contract monitors: run the real code of /repo on generated inputs and test the property's postcondition.

This is the replay harness and the bounded cross-check of the deductive engine; it decides nothing on its own.
"""
import os, sys, json, time, hashlib, warnings, traceback, base64, signal
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")
import dreimac
assert os.path.abspath(dreimac.__file__).startswith(os.path.abspath(REPO) + os.sep), dreimac.__file__
JIT = os.environ.get("NUMBA_DISABLE_JIT", "0") != "1"

MON = {}


def mon(*props, jit="both"):
    """register a generator: f(rng, tier, R) which calls R.case(check_fn, **inputs)"""
    def deco(f):
        for p in props:
            MON.setdefault(p, []).append((f, jit))
        return f
    return deco


class Stop(Exception):
    pass


class Skip(Exception):
    """the case cannot be posed on this tree (a private name is gone, a solver gave up...)"""


def check(c, msg):
    if not c:
        raise AssertionError(msg)


def close(a, b, msg, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, "%s: shape %s != %s" % (msg, a.shape, b.shape))
    d = np.abs(a - b)
    same_nan = np.isnan(a) == np.isnan(b)
    check(bool(np.all(same_nan)), "%s: undefined entries differ" % msg)
    ok = (d <= tol * (1 + np.abs(b))) | np.isnan(a) | (a == b)
    check(bool(np.all(ok)), "%s: max difference %r" % (msg, float(np.nanmax(np.where(ok, 0, d))) if d.size else 0))


def circ_close(a, b, msg, tol=1e-6, period=2 * np.pi):
    d = np.asarray(a) - np.asarray(b)
    check(not np.isnan(d).any(), "%s: undefined" % msg)
    d = np.abs(d - period * np.round(d / period))
    check(bool(np.all(d <= tol)), "%s: max circular difference %r" % (msg, float(d.max()) if d.size else 0))


def enc(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "c":
            return {"__c__": [enc(x.real.copy()), enc(x.imag.copy())]}
        return {"__nd__": str(x.dtype), "shape": list(x.shape), "data": [v if isinstance(v, (int, bool)) else repr(v) for v in x.ravel().tolist()]}
    if isinstance(x, (list, tuple)):
        return {"__seq__": type(x).__name__, "v": [enc(v) for v in x]}
    if isinstance(x, dict):
        return {"__dict__": [[k, enc(v)] for k, v in x.items()]}
    if isinstance(x, complex):
        return {"__cx__": [repr(x.real), repr(x.imag)]}
    if isinstance(x, float):
        return {"__f__": repr(x)}
    if isinstance(x, np.generic):
        return enc(x.item())
    return x


def dec(x):
    if isinstance(x, dict):
        if "__c__" in x:
            return dec(x["__c__"][0]) + 1j * dec(x["__c__"][1])
        if "__nd__" in x:
            return np.array([float(v) if isinstance(v, str) else v for v in x["data"]]).astype(x["__nd__"]).reshape(x["shape"])
        if "__seq__" in x:
            v = [dec(y) for y in x["v"]]
            return tuple(v) if x["__seq__"] == "tuple" else v
        if "__dict__" in x:
            return {k: dec(v) for k, v in x["__dict__"]}
        if "__cx__" in x:
            return complex(float(x["__cx__"][0]), float(x["__cx__"][1]))
        if "__f__" in x:
            return float(x["__f__"])
    return x


class Runner:
    def __init__(s, prop, tier, seed, budget, t0=None):
        s.prop, s.tier, s.seed, s.budget = prop, tier, seed, budget
        s.t0 = time.time()
        s.n, s.skipped, s.keys, s.samples, s.by = 0, 0, set(), [], {}
        s.fail = None
        s.deadline = None

    def left(s):
        return s.deadline is None or time.time() < s.deadline

    def case(s, fn, **inp):
        if not s.left():
            raise Stop()
        payload = json.dumps(enc(inp), sort_keys=True, default=str)
        key = hashlib.sha1((fn.__name__ + payload).encode()).hexdigest()
        e = None
        cp = dec(json.loads(payload))
        try:
            fn(**cp)
        except Skip as ex:
            s.skipped += 1
            s.by[fn.__name__ + ":skipped"] = s.by.get(fn.__name__ + ":skipped", 0) + 1
            return
        except Stop:
            raise
        except AssertionError as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            e = "%s" % ex if str(ex) else "assertion at %s" % (tb[-1],)
        except Exception as ex:
            e = "unexpected %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-4))
        s.n += 1
        s.by[fn.__name__] = s.by.get(fn.__name__, 0) + 1
        if key not in s.keys:
            s.keys.add(key)
            if len(s.samples) < 2 and len(payload) < 1500:
                s.samples.append({"check": fn.__name__, "inputs": json.loads(payload)})
        if e is not None:
            s.fail = {"property": s.prop, "module": fn.__module__, "check": fn.__name__, "inputs": json.loads(payload), "message": e,
                      "jit": JIT, "repo": REPO}
            raise Stop()


def run(prop, tier, seed, budget):
    import importlib
    importlib.import_module("concrete." + prop.lower())
    ms = [m for m in MON.get(prop, []) if m[1] == "both" or m[1] == ("jit" if JIT else "nojit")]
    R = Runner(prop, tier, seed, budget)
    try:
        for k, (f, _) in enumerate(ms):
            R.deadline = time.time() + max(2.0, (R.t0 + budget - time.time()) / (len(ms) - k))
            rng = np.random.default_rng([seed, k, 1 if JIT else 0])
            try:
                f(rng, tier, R)
            except Stop:
                if R.fail:
                    raise
    except Stop:
        pass
    return {"evaluations": R.n, "distinct": len(R.keys), "skipped": R.skipped, "by_check": R.by, "samples": R.samples,
            "fail": R.fail, "wall_s": round(time.time() - R.t0, 2), "jit": JIT}


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import concrete.fw as F
    if sys.argv[1] == "replay":
        import importlib
        d = json.load(open(sys.argv[2]))
        d = d.get("counterexample") or d
        m = importlib.import_module(d["module"])
        try:
            getattr(m, d["check"])(**F.dec(d["inputs"]))
        except Exception as ex:
            print("reproduced: %s: %s" % (type(ex).__name__, ex))
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    prop, tier, seed, budget, out = sys.argv[1:6]
    r = F.run(prop, tier, int(seed), float(budget))
    json.dump(r, open(out, "w"))
