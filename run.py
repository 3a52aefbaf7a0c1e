#!/opt/venv/bin/python
"""Decides one property: python run.py D01 [--tier quick|thorough] [--only REGEX] [-v]"""
import argparse
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")   # z3
PY = "/opt/venv/bin/python"
PIPE_TIMEOUT = 300

from symx.case import CASES

TOTAL = {"quick": 780, "thorough": 3 * 3600}


def load_checks():
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("checks." + f[:-3])


def replay(jobs):
    try:
        p = subprocess.run([PY, os.path.join(ROOT, "symx", "conc.py"), "--pipe"], input=json.dumps(jobs), capture_output=True, text=True,
                           timeout=PIPE_TIMEOUT, cwd="/")
        return json.loads(p.stdout)
    except (subprocess.TimeoutExpired, ValueError) as e:
        err = getattr(p, "stderr", "") if "p" in dir() else ""
        return [dict(exception="replay driver: %r %s" % (e, err[-500:]), timeout=True, failed=[], observed=[], nchecks=0, assume=None) for _ in jobs]


def jobof(c, v):
    return dict(property=c.prop, case=c.name, module=c.module, fn=c.fn, params=c.params, vars={k: float(x) for k, x in v.vars.items()},
                uft={k: [[list(map(float, a)), float(x)] for a, x in t] for k, t in v.uft.items()})


def track():
    """names of /repo functions executed symbolically"""
    seen = set()
    m = sys.monitoring
    m.use_tool_id(m.PROFILER_ID, "vp")

    def start(code, off):
        f = code.co_filename
        i = f.find("/mfpml/")
        if i >= 0 and "<" not in code.co_name:
            seen.add(f[i + 1:] + ":" + code.co_qualname)
        return m.DISABLE
    m.register_callback(m.PROFILER_ID, m.events.PY_START, start)
    m.set_events(m.PROFILER_ID, m.events.PY_START)
    return seen


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a is None or b is None:
        return True
    if a != a and b != b:
        return True
    return a == b or abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))


def run_case(c, seed, conn):
    t0 = time.time()
    out = dict(name=c.name)
    try:
        import numpy as np
        np.seterr(all="ignore")
        import warnings
        warnings.simplefilter("ignore")
        from symx import engine, smt
        fns = track()
        mod = importlib.import_module(c.module)
        fn = getattr(mod, c.fn)
        lim = dict(c.limits)
        vp = lim.pop("validate", 3)
        ex = engine.Explorer(lambda ctx: fn(ctx, **c.params), engine.Limits(**lim), seed, c.name)
        ex.validate_paths = vp
        if c.known:
            ex.stop_on_cex = False

        def confirm(cex):
            jobs = [jobof(c, v) for v in cex["vals"]]
            for j, r in zip(jobs, replay(jobs)):
                cex.setdefault("replays", []).append((r["exception"], r["failed"][:3], r["assume"]))
                if r.get("timeout") or r["assume"]:
                    continue
                if r["exception"] or r["failed"]:
                    j["outcome"] = dict(label=cex["label"], exception=r["exception"], tb=r.get("tb"), failed=r["failed"][:5], symbolic=cex["why"])
                    cex["job"] = j
                    return True
            return False
        ex.confirm = confirm
        ex.explore()
        # translator validation: real code on witnesses of explored paths
        val = dict(runs=0, mismatches=[], ok=0)
        if ex.witnesses and not ex.cexs:
            jobs = [jobof(c, v) for v, _ in ex.witnesses]
            for (v, obs), r in zip(ex.witnesses, replay(jobs)):
                val["runs"] += 1
                why = None
                if r["exception"] or r["assume"]:
                    why = "replay: %s %s" % (r["exception"] or r["assume"], (r.get("tb") or "")[-300:])
                elif r["failed"]:
                    why = "check fails on the real code only: %s" % (r["failed"][:2],)
                elif [n for n, _ in obs] != [n for n, _ in r["observed"]]:
                    k = next((i for i, (p, q) in enumerate(zip(obs, r["observed"])) if p[0] != q[0]), min(len(obs), len(r["observed"])))
                    why = "observation sequences differ at %d: %r vs %r" % (k, obs[k:k + 1], r["observed"][k:k + 1])
                else:
                    for (n, a), (_, b) in zip(obs, r["observed"]):
                        if not close(a, b):
                            why = "observation %s: encoded %r, real %r" % (n, a, b)
                            break
                if why:
                    val["mismatches"].append(why)
                else:
                    val["ok"] += 1
        out.update(paths=ex.paths, ended=ex.ended, decisions=ex.decisions, obligations=ex.obligations, contracts=ex.contracts, defined=ex.defined,
                   functions=sorted(fns), cexs=[dict(label=x["label"], job=x.get("job"), why=x["why"], kind=x["kind"], tb=x.get("tb")) for x in ex.cexs],
                   unconfirmed=[dict(label=x["label"], why=x["why"], tb=x.get("tb"), replays=x.get("replays")) for x in ex.unconfirmed],
                   undischarged=ex.undischarged, inconclusive=ex.inconclusive, notes=ex.notes, reached=ex.reached, validation=val, stats=dict(smt.STATS),
                   sample=[dict(vars={k: round(float(x), 6) for k, x in list(v.vars.items())[:12]}) for v, _ in ex.witnesses[:1]])
    except BaseException as e:
        out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
    out["wall"] = time.time() - t0
    conn.send(out)
    conn.close()


GRACE = 20      # seconds the other cases get once a violation is established


def schedule(cases, seed, deadline, jobs, verbose, listed=lambda c, x: False):
    todo = list(enumerate(cases))
    live, res = [], {}
    over = "time limit"
    while todo or live:
        while todo and len(live) < jobs:
            i, c = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=run_case, args=(c, seed, b))
            p.start()
            b.close()
            live.append((i, c, p, a, time.time()))
        nl = []
        for i, c, p, a, t in live:
            cap = c.limits.get("seconds", 600) + 120
            if a.poll(0.02):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(name=c.name, error="worker died", wall=time.time() - t)
                p.join()
                if any(x.get("job") and not listed(c, x) for x in res[i].get("cexs", ())) and over == "time limit":
                    over = "not finished: a violation was found first"
                    deadline = min(deadline, time.time() + GRACE)
                if verbose:
                    print("   %-70s %6.1fs %s" % (c.name, res[i]["wall"], brief(res[i])), flush=True)
            elif not p.is_alive() and not a.poll(0.05):
                res[i] = dict(name=c.name, error="worker died (exit %s)" % p.exitcode, wall=time.time() - t)
            elif time.time() - t > cap or time.time() > deadline:
                p.kill()
                p.join()
                res[i] = dict(name=c.name, error=over, wall=time.time() - t)
            else:
                nl.append((i, c, p, a, t))
        live = nl
        if time.time() > deadline:
            for i, c in todo:
                res[i] = dict(name=c.name, error="not started: " + over, wall=0)
            todo = []
    return [res[i] for i in range(len(cases))]


def brief(r):
    if r.get("error"):
        return "ERROR " + r["error"][:1500]
    if r["cexs"]:
        return "CEX " + "; ".join(x["label"] for x in r["cexs"])
    s = "paths=%d obl=%d q=%d t=%.1f" % (r["ended"], sum(o["count"] for o in r["obligations"].values()), r["stats"]["queries"], r["stats"]["solver_s"])
    pr = problem(r)
    return s + (("  INCONCLUSIVE " + pr) if pr else "")


def problem(r):
    if r.get("error"):
        return r["error"]
    if r["inconclusive"]:
        return "; ".join(r["inconclusive"][:3])
    if r["undischarged"]:
        return "undischarged: " + "; ".join(r["undischarged"][:3])
    if r["unconfirmed"]:
        return "counterexample did not reproduce on the real code: " + "; ".join("%s (%s) %s %s" % (x["label"], x["why"], x["replays"], x.get("tb") or "") for x in r["unconfirmed"][:2])
    if not r["reached"]:
        return "no completed path was witnessed (vacuous)"
    if sum(o["count"] for o in r["obligations"].values()) == 0:
        return "no assertion was reached (vacuous)"
    v = r["validation"]
    if v["runs"] and not v["ok"]:
        return "the encoding disagrees with the real code: " + v["mismatches"][0]
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    load_checks()
    cases = [c for c in CASES if c.prop == a.prop and (c.tier == "quick" or a.tier == "thorough")]
    if a.only:
        cases = [c for c in cases if re.search(a.only, c.name)]
    if not cases:
        print("no harness for", a.prop)
        return 2
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == a.prop]

    def listed(c, x):
        return next((k for k in known if fnmatch.fnmatchcase(c.name, k["case"].replace("[", "[[]")) and re.fullmatch(k["label"], x["label"])), None)
    res = schedule(cases, seed, t0 + TOTAL.get(a.tier, 780), a.j, a.v, listed)
    bad, incon, viol, kf = [], [], [], {}
    for c, r in zip(cases, res):
        for x in r.get("cexs", ()):
            k = listed(c, x)
            if k is not None:
                kf[k["id"]] = k
                continue
            viol.append((c, x))
        p = problem(r)
        if p and not (r.get("cexs") and not r.get("error")):
            incon.append((c.name, p))
    for k in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    rd = os.path.join(ROOT, "replays")
    paths = []
    for c, x in viol:
        os.makedirs(rd, exist_ok=True)
        pth = os.path.join(rd, "%s-%s.json" % (a.prop, hashlib.sha1((c.name + x["label"]).encode()).hexdigest()[:10]))
        with open(pth, "w") as f:
            json.dump(x["job"], f, indent=1)
        paths.append(pth)
        o = (x["job"] or {}).get("outcome", {})
        print("  %s: %s -- real code: %s" % (c.name, x["label"], o.get("exception") or (o.get("failed") or [""])[0]))
        print("VIOLATION property=%s replay=%s" % (a.prop, pth))
    for n, p in incon:
        print("INCONCLUSIVE %s %s: %s" % (a.prop, n, p))
    write_evidence(a, seed, cases, res, viol, paths, incon, kf, time.time() - t0)
    ok = sum(1 for r in res if not problem(r) and not r.get("cexs"))
    print("%s: %d/%d harness cases discharged, %d paths, %.0f s" % (a.prop, ok, len(res), sum(r.get("ended", 0) for r in res), time.time() - t0))
    if viol:
        return 1
    return 2 if incon else 0


def write_evidence(a, seed, cases, res, viol, paths, incon, kf, wall):
    good = [r for r in res if "stats" in r]
    fns, contracts, defined = set(), {}, {}
    for r in good:
        fns |= set(r["functions"])
        for k, v in r["contracts"].items():
            contracts[k] = contracts.get(k, 0) + v
        for k, v in r["defined"].items():
            defined[k] = defined.get(k, 0) + v
    lab = {}
    for r in good:
        for k, o in r["obligations"].items():
            d = lab.setdefault(k, dict(count=0, unsat=0, trivial=0))
            for q in d:
                d[q] += o.get(q, 0)
    cov = dict(
        states=max(1, sum(r["ended"] for r in good)), transitions=max(1, sum(r["decisions"] for r in good)),
        traces_validated_against_impl=sum(r["validation"]["ok"] for r in good),
        samples=[dict(case=r["name"], witness=(r["sample"] or [{}])[0].get("vars", {})) for r in good if r["sample"]][:3] or [dict(case="none", witness={})],
        states_are="end states of completed symbolic paths (each stands for all inputs satisfying its path condition)",
        transitions_are="branch decisions taken with both outcomes considered",
        functions_encoded=sorted(fns),
        bounds=[c.name for c in cases],
        obligations=sum(o["count"] for o in lab.values()), discharged=sum(o["unsat"] for o in lab.values()),
        obligations_by_assertion=lab,
        obligations_note="count = assertions put to the solver over all paths; trivial = decided after normalisation to the constant query; the rest needed solver reasoning",
        queries=dict(total=sum(r["stats"]["queries"] for r in good), unsat=sum(r["stats"]["unsat"] for r in good), sat=sum(r["stats"]["sat"] for r in good),
                     unknown=sum(r["stats"]["unknown"] for r in good)),
        solver_seconds=round(sum(r["stats"]["solver_s"] for r in good), 2),
        validation=dict(runs=sum(r["validation"]["runs"] for r in good), agree=sum(r["validation"]["ok"] for r in good),
                        disagreements=[m for r in good for m in r["validation"]["mismatches"]][:10]),
        contracts_used=contracts, definedness_assumed=defined,
        known_findings=sorted(kf), inconclusive=[dict(case=n, why=p[:300]) for n, p in incon],
        cases=[dict(case=r["name"], paths=r.get("ended"), decisions=r.get("decisions"), queries=r.get("stats", {}).get("queries"), wall_s=round(r["wall"], 2)) for r in res],
    )
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2),
              assumptions=["floating-point arithmetic is read as exact real arithmetic (decimal literals exact)",
                           "random sources and numerical searches return arbitrary values within their documented contract",
                           "operations are assumed defined (no division by zero etc.) unless the harness checks it"],
              violations=len(viol))
    cov["violations_detail"] = [dict(case=c.name, label=x["label"], replay=p) for (c, x), p in zip(viol, paths)]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    mp.set_start_method("fork")
    sys.exit(main())
