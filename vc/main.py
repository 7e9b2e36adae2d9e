"""python -m vc.main PROP TIER OUT.json : generate and discharge the obligations of one property."""
import sys, json, time, os, subprocess, importlib, threading, tempfile, shutil, signal

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def child(k, ms, budget, path):
    """one unit in its own process; the result goes to a file"""
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)

    def go():
        from . import api
        r = api.run_unit(api.UNITS[k], ms, budget)
        with open(path + ".tmp", "w") as f: json.dump(r, f, default=str)
        os.rename(path + ".tmp", path)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(0)


LEAN_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean")


def lean(f):
    """start the kernel check of a lemma file"""
    try:
        return subprocess.Popen(["lean", os.path.join(LEAN_DIR, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=LEAN_DIR)
    except OSError:
        return None


def lean_result(f, t1, p):
    r = dict(name="lemma file %s accepted by the Lean kernel" % f, function="lemma", backend="lean", status="unsupported", detail="lean did not run")
    if p is not None:
        try:
            o = p.communicate(timeout=400)[0]
            if p.returncode == 0 and "sorry" not in o and "error" not in o: r.update(status="proved", detail="")
            else: r.update(status="unsupported", detail=o[:1000])
        except subprocess.TimeoutExpired:
            p.kill()
    r["ms"] = int(1000 * (time.time() - t1))
    return r


def main():
    prop, tier, out = sys.argv[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    t0 = time.time()
    quick = tier == "quick"
    ms, budget = (8000, 240) if quick else (40000, 1100)
    res = dict(property=prop, tier=tier, obligations=[], functions=[], inlined=[], assumptions=[], by_backend={}, stats={}, vacuity=[], units=[])
    from . import api
    mod = importlib.import_module("vc.contracts." + prop.lower())
    # the contracts assumed of callees are discharged in the same check: USES = {module: unit name prefixes}
    uses = dict(getattr(mod, "USES", {}))
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts")
    for m in uses:
        if os.path.exists(os.path.join(here, m + ".py")): importlib.import_module("vc.contracts." + m)
    for u in api.UNITS:
        if u["module"] != prop.lower(): u["via"] = "callee contract (%s) " % u["module"].upper()
        if hasattr(mod, "FRAMES"):
            u["frames"], u["only_frames"] = mod.FRAMES, u["module"] != prop.lower()
            if u["only_frames"]: u["via"] = "frame (%s) " % u["module"].upper()
    units = [k for k, u in enumerate(api.UNITS) if (u["module"] == prop.lower() or any(u["name"].startswith(x) for x in uses.get(u["module"], ())))
             and (u["tier"] == "quick" or not quick) and (only is None or only in u["name"])]
    procs, done, t_kill = {}, {}, {}
    todo = list(units)
    lemmas = [f for m in [mod] + [sys.modules["vc.contracts." + m] for m in uses if "vc.contracts." + m in sys.modules] for f in getattr(m, "LEAN", ()) if m is mod or not hasattr(mod, "FRAMES")] if only is None else []
    leans = [(f, time.time(), lean(f)) for f in dict.fromkeys(lemmas)]
    ncpu = int(os.environ.get("VC_JOBS", "6"))
    tmp = tempfile.mkdtemp(prefix="vc_")
    while todo or procs:
        while todo and len(procs) < ncpu:
            k = todo.pop(0)
            pid = os.fork()
            if pid == 0: child(k, ms, budget, "%s/%d" % (tmp, k))
            procs[k], t_kill[k] = pid, time.time() + budget + 60
        time.sleep(0.02)
        for k, pid in list(procs.items()):
            if time.time() > t_kill[k]:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
            r, st = os.waitpid(pid, os.WNOHANG)
            if r == 0: continue
            procs.pop(k)
            f = "%s/%d" % (tmp, k)
            if os.path.exists(f):
                done[k] = json.load(open(f))
            else:
                u = api.UNITS[k]
                done[k] = dict(unit=u["name"], function=u["function"], inlined=[], assumptions=[], vacuity=[], ms=0,
                               obligations=[dict(name=u["name"] + ": outside the verified subset", function=u["function"], status="unsupported",
                                                 backend="none", ms=0, detail="the unit's process ended (status %s)" % st)])
    shutil.rmtree(tmp, ignore_errors=True)
    for f, t1, p in leans: res["obligations"].append(lean_result(f, t1, p))
    inl, ass = set(), set()
    for k in units:
        r = done[k]
        res["obligations"] += r["obligations"]
        inl.update(r["inlined"])
        ass.update(r["assumptions"])
        res["vacuity"] += r["vacuity"]
        res["functions"].append(r["function"])
        res["units"].append(dict(unit=r["unit"], function=r["function"], ms=r["ms"], obligations=len(r["obligations"])))
    res["functions"] = sorted(set(res["functions"]))
    res["inlined"], res["assumptions"] = sorted(inl), sorted(ass)
    for o in res["obligations"]:
        if o["status"] == "proved":
            res["by_backend"][o["backend"]] = res["by_backend"].get(o["backend"], 0) + 1
    res["stats"] = dict(wall_s=round(time.time() - t0, 2), solver_ms=sum(o["ms"] for o in res["obligations"]))
    json.dump(res, open(out, "w"), indent=1)
    if only is not None or os.environ.get("VC_SHOW"):
        for o in res["obligations"]:
            if o["status"] == "proved" and not os.environ.get("VC_ALL"): continue
            print("%-11s %6d ms %-20s %s" % (o["status"], o["ms"], o["backend"], o["name"]))
            if o["status"] != "proved": print("     ", o["detail"][:int(os.environ.get("VC_SHOW_LEN", "1500"))])
    print(prop, {s: sum(1 for o in res["obligations"] if o["status"] == s) for s in ("proved", "failed", "unknown", "unsupported")}, "%.1fs" % (time.time() - t0))


if __name__ == "__main__":
    main()
