#!/usr/bin/env python3
"""Decide one property on /repo's current tree: `check.py C07` (tier and seed from VERIF_TIER / VERIF_SEED).

1. vc.main parses /repo's sources, generates the obligations of the property's contracts and discharges them;
2. the concrete contract monitors run the real code (compiled and interpreted), as replay harness and cross-check;
3. an undischarged obligation that the monitors cannot turn into a failing input is reported as such.
"""
import os, sys, json, time, subprocess, hashlib, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY_REAL = "/opt/venv/bin/python"
PY_VC = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
EVID = os.path.join(HERE, "evidence")


def spawn(cmd, env, out):
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, limit):
    try:
        p.wait(timeout=max(1, limit))
        return p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None


GENERAL = [
    "floating-point arithmetic is treated as exact real arithmetic (NaN as a separate absorbing value), machine integers as mathematical integers",
    "the verification-condition generator, the models of numpy/scipy operations and the normaliser in /verif/vc, z3, cvc5 (and the Lean kernel where a lemma file is used)",
    "functions compiled by numba behave as their Python text (monitors run both)",
]


def load(f):
    try:
        return json.load(open(f))
    except Exception:
        return None


def monitors(prop, tier, seed, budget, tmp, tag):
    ps = []
    for nojit in ("1", "0"):
        env = dict(os.environ, PYTHONPATH=HERE, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2",
                   NUMBA_NUM_THREADS="2", MPLBACKEND="Agg")
        env.pop("NUMBA_DISABLE_JIT", None)
        if nojit == "1":
            env["NUMBA_DISABLE_JIT"] = "1"
        out = os.path.join(tmp, "mon_%s_%s.json" % (tag, nojit))
        ps.append((nojit, out, spawn([PY_REAL, "-m", "concrete.fw", prop, tier, str(seed), str(budget), out], env, out)))
    return ps


def collect(ps, limit):
    t0, res = time.time(), []
    for nojit, out, p in ps:
        rc = finish(p, limit - (time.time() - t0))
        r = load(out)
        if r is None:
            log = open(out + ".log").read()[-1500:]
            r = {"evaluations": 0, "distinct": 0, "skipped": 0, "by_check": {}, "samples": [], "fail": None, "wall_s": 0, "jit": nojit == "0",
                 "error": "timeout" if rc is None else "exit %s: %s" % (rc, log)}
        res.append(r)
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    tmp = os.path.join(EVID, "tmp_%s_%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        rc = decide(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def decide(prop, tier, seed, t0, tmp):
    quick = tier == "quick"
    budget = 25 if quick else 240
    pf_limit = 420 if quick else 1500
    pout = os.path.join(tmp, "proof.json")
    env = dict(os.environ, PYTHONPATH=HERE, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    pp = spawn([PY_VC, "-m", "vc.main", prop, tier, pout], env, pout)
    mons = collect(monitors(prop, tier, seed, budget, tmp, "a"), budget + 150)
    prc = finish(pp, pf_limit - (time.time() - t0))
    proof = load(pout)
    if proof is None:
        proof = {"obligations": [], "functions": [], "assumptions": [], "crash": "timeout" if prc is None else open(pout + ".log").read()[-3000:], "stats": {}}
    known = load(os.path.join(HERE, "known_findings.json")) or {"findings": []}
    kf = [k for k in known["findings"] if k.get("property") == prop and k.get("status") == "open"]
    obs = proof["obligations"]
    bad = [o for o in obs if o["status"] in ("failed", "unknown")]
    uns = [o for o in obs if o["status"] == "unsupported"]
    fails = [m["fail"] for m in mons if m.get("fail")]
    extra = []
    if (bad or not any(m["evaluations"] for m in mons)) and not fails:
        # an obligation no longer holds (or nothing could be run): look longer for a failing input
        extra = collect(monitors(prop, "thorough", seed + 1000, 60 if quick else 200, tmp, "b"), 260)
        fails = [m["fail"] for m in extra if m.get("fail")]
    real_fails = []
    for f in fails:
        sig = "%s: %s" % (f["check"], f["message"])
        k = next((k for k in kf if k.get("check") == f["check"] and k.get("match", "\0") in f["message"]), None)
        if k is None:
            real_fails.append(f)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    nproved = sum(1 for o in obs if o["status"] == "proved")
    level = "proof" if obs and nproved == len(obs) else "other"
    ev_n = sum(m["evaluations"] for m in mons + extra)
    cov = {
        "obligations": len(obs), "discharged": nproved,
        "checker_cmd": "PYTHONPATH=/verif python3-vt -m vc.main %s %s /dev/stdout" % (prop, tier),
        "trusted_base": GENERAL + proof.get("assumptions", []),
        "functions_under_contract": proof.get("functions", []),
        "functions_inlined": proof.get("inlined", []),
        "by_backend": proof.get("by_backend", {}), "solver": proof.get("stats", {}),
        "obligation_list": [{k: o.get(k) for k in ("name", "function", "status", "backend", "ms")} for o in obs],
        "undecided": [o["name"] for o in bad], "outside_the_subset": [{"name": o["name"], "why": o.get("detail", "")[:300]} for o in uns],
        "vacuity": proof.get("vacuity", []),
        "bounded_cross_check": {
            "evaluations": ev_n, "distinct_nontrivial": sum(m["distinct"] for m in mons + extra), "skipped": sum(m["skipped"] for m in mons + extra),
            "rule": "each case is one call of a contract monitor on generated inputs, counted once per distinct input; label: bounded, never counted as proved",
            "by_check": [m["by_check"] for m in mons + extra], "samples": [s for m in mons for s in m["samples"]][:2],
            "errors": [m["error"] for m in mons + extra if m.get("error")]},
    }
    if proof.get("crash"):
        cov["engine_crash"] = proof["crash"][-1500:]
    if level == "other":
        cov["explanation"] = ("%d of %d obligations discharged; the functions listed under outside_the_subset or undecided are covered on this run by the bounded "
                              "contract monitors only (%d evaluations)" % (nproved, len(obs), ev_n))
    violations, lines = 0, []

    def replay(kind, payload):
        h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(EVID, "replays", "%s_%s_%s.json" % (prop, kind, h))
        json.dump(payload, open(p, "w"), indent=1, default=str)
        return p
    if real_fails:
        f = real_fails[0]
        p = replay("input", {"property": prop, "counterexample": f, "failed_obligations": [{k: o.get(k) for k in ("name", "function", "status", "detail")} for o in bad],
                             "how_to_replay": "cd /verif && %sPYTHONPATH=/verif %s -m concrete.fw replay <this file>" % ("" if f["jit"] else "NUMBA_DISABLE_JIT=1 ", PY_REAL)})
        print("%s: contract check %s fails on the real code: %s" % (prop, f["check"], f["message"].split("\n")[0][:300]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        violations = 1
    elif bad:
        for o in bad[:6]:
            print("%s: obligation not discharged: %s [%s] %s" % (prop, o["name"], o["status"], (o.get("detail") or "")[:200].replace("\n", " ")))
        p = replay("obligation", {"property": prop, "failed_obligations": bad, "note": "no failing input found by the contract monitors within their budget"})
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        violations = 1
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": GENERAL + proof.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged, %d outside the subset, %d concrete evaluations, %.1fs" % (prop, nproved, len(obs), len(uns), ev_n, time.time() - t0))
    for l in lines:
        print(l)
    if violations:
        return 1
    if not ev_n and not nproved:
        print("%s: nothing could be decided: %s" % (prop, json.dumps(cov["bounded_cross_check"]["errors"])[:2000]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
