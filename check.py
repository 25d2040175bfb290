"""Decide one property:  python3-vt check.py C01 [--tier quick|thorough]

1. proof: every contract of the property is verified against the current source in /repo
   (pyvc: symbolic execution to verification conditions, z3 / cvc5).
2. run-time contract harness on the real code (rt/<id>.py): finds the concrete failing input when
   an obligation fails, and is the bounded stand-in for functions outside the generator's subset.
Exit 0: held.  Exit 1 with 'VIOLATION property=<id> replay=<path> [no-failing-input-found]'."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ["PYVC_REPO"] = REPO
PY = "/opt/venv/bin/python"
MODULES = {}


def start_harness(pid, tier, seed, budget, shards, tmp):
    env = dict(os.environ, PYTHONPATH=f"{REPO}:{ROOT}", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_REPO=REPO)
    procs = []
    for k in range(shards):
        out = os.path.join(tmp, f"h{k}.json")
        log = open(os.path.join(tmp, f"h{k}.log"), "w")
        procs.append((subprocess.Popen(
            [PY, "-m", f"rt.{pid.lower()}", "--tier", tier, "--seed", str(seed), "--budget", str(budget),
             "--out", out, "--shard", f"{k}/{shards}"], cwd=tmp, env=env, stdout=log, stderr=log), out, log.name))
    return procs


def _work(job):
    modname, idx, case, avail, ms = job
    sys.setrecursionlimit(20000)
    from pyvc.loader import Program
    from pyvc.verify import verify
    global _PROG
    try:
        prog = _PROG
    except NameError:
        prog = _PROG = Program()
    allc = load_contracts_cached(modname)
    c = allc[idx]
    table = {k.qual: k for j, k in enumerate(allc) if j in avail and j != idx and k.usable()}
    rep = verify(prog, c, case, table, ms=ms)
    d = rep.as_dict()
    d["dropped"] = getattr(rep, "dropped", [])
    d["idx"] = idx
    return d


def load_contracts_cached(pid):
    if pid not in MODULES:
        import contracts
        MODULES[pid] = contracts.for_property(pid)
    return MODULES[pid]


def prove_all(pid, tier, limit):
    """fixpoint over the contract table: a contract that is not proved is not available to callers"""
    import pyvc  # noqa
    cs = load_contracts_cached(pid)
    if not cs:
        return [], []
    ms = None if tier == "quick" else 30000
    avail = {j for j, c in enumerate(cs)}
    reps = {}
    todo = [(j, case) for j, c in enumerate(cs) for case in c.cases if not getattr(c, "trusted", False)]
    ctx = mp.get_context("fork")
    t0 = time.time()
    with ctx.Pool(min(6, max(1, len(todo))), maxtasksperchild=4) as pool:
        while todo:
            fut = {k: pool.apply_async(_work, ((pid, k[0], k[1], frozenset(avail), ms),)) for k in todo}
            for k, f in fut.items():
                left = max(1.0, limit - (time.time() - t0))
                try:
                    reps[k] = f.get(timeout=left)
                except mp.TimeoutError:
                    reps[k] = dict(qual=cs[k[0]].qual, case=k[1], status="unsupported",
                                   reason=f"time limit of {limit}s", obls=[], assumptions=[], inlined=[],
                                   used=[], loops=[], paths=0, time=limit, solver_time=0, queries=0,
                                   idx=k[0], dropped=[], timeout=True)
            bad = {j for j in avail if not getattr(cs[j], "trusted", False) and any(reps[(j, cse)]["status"] != "ok" for cse in cs[j].cases)}
            if time.time() - t0 > limit:
                break
            avail -= bad
            badq = {cs[j].qual for j in bad}
            todo = [k for k, r in reps.items() if badq & set(r["used"])]
            todo = [k for k in todo if True]
        pool.terminate()
    out = []
    for j, c in enumerate(cs):
        if getattr(c, "trusted", False):
            continue
        for case in c.cases:
            r = reps[(j, case)]
            r["root"] = c.root
            out.append(r)
    return cs, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 420 if tier == "quick" else 3000
    plimit = 480 if tier == "quick" else 3000
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        has_rt = os.path.exists(os.path.join(ROOT, "rt", pid.lower() + ".py")) and not a.no_harness
        procs = start_harness(pid, tier, seed, budget, 4 if tier == "quick" else 6, tmp) if has_rt else []
        reps = []
        if not a.no_proof:
            _, reps = prove_all(pid, tier, plimit)
        hres, herr = [], []
        for p, out, log in procs:
            try:
                p.wait(timeout=max(5, budget + 200 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            try:
                with open(out) as f:
                    hres.append(json.load(f))
            except Exception:
                with open(log) as f:
                    herr.append(f"shard exit {p.returncode}: " + f.read()[-3000:])
        sys.exit(report(pid, tier, seed, reps, hres, herr, t0, a))
    finally:
        for p, _, _ in (procs if "procs" in dir() else []):
            if p.poll() is None:
                p.kill()
        subprocess.run(["rm", "-rf", tmp])


def report(pid, tier, seed, reps, hres, herr, t0, a):
    viol = [v for h in hres for v in h["violations"]]
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        known = json.load(f)
    fresh = []
    for v in viol:
        m = [k for k in known["findings"] if k["property"] == pid and k["group"] == v["group"] and
             (k.get("params") is None or k["params"] == v["params"]) and k["what"] in v["what"]]
        if m:
            print(f"KNOWN-FINDING: property={pid} {m[0]['describe']}")
        else:
            fresh.append(v)
    roots = [r for r in reps if r["root"]]
    failed = [r for r in reps if r["status"] in ("failed", "vacuous")]
    # a helper lemma that fails is harmless if every root was re-proved without it
    notok_roots = [r for r in roots if r["status"] != "ok"]
    failed_roots = [r for r in roots if r["status"] in ("failed", "vacuous")]
    failed_help = [r for r in failed if not r["root"]]
    alarms = failed_roots + (failed_help if notok_roots else [])
    obls = [o for r in reps for o in r["obls"]]
    ob_root = [o for r in roots for o in r["obls"]]
    disch = [o for o in obls if o["status"] == "proved"]
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, violation=v, failed_obligations=[
                dict(function=r["qual"], case=r["case"], obligation=o["name"], detail=o["detail"])
                for r in alarms for o in r["obls"] if o["status"] != "proved"],
                replay_cmd=f"cd /tmp && PYTHONPATH={REPO}:{ROOT} {PY} -m rt.{pid.lower()} --replay {path}"), f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"  failing input: group={v['group']} params={json.dumps(v['params'])[:300]}: {v['what'][:300]}")
    if alarms and not fresh:
        path = os.path.join(rdir, f"{pid}-obligations.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, note="obligation not discharged; no failing input found", functions=alarms), f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for r in alarms:
        for o in r["obls"]:
            if o["status"] != "proved":
                print(f"  failed obligation: {r['qual']} [{r['case']}]: {o['name']} ({o['status']})")
        if r["status"] == "vacuous":
            print(f"  vacuous: {r['qual']} [{r['case']}]: {r['reason']}")
    uns = [r for r in reps if r["status"] in ("unsupported", "absent")]
    for r in uns:
        print(f"  not verified (bounded stand-in only): {r['qual']} [{r['case']}]: {r['reason'][:160]}")
    backends = {}
    for o in disch:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    nroot, nrok = len(roots), sum(r["status"] == "ok" for r in roots)
    manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "proof")
    groups = {}
    for h in hres:
        for k, g in h["groups"].items():
            e = groups.setdefault(k, dict(inputs=0, checks=0))
            e["inputs"] += g["inputs"]
            e["checks"] += g["checks"]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=len(obls), discharged=len(disch),
            checker_cmd=f"python3-vt {ROOT}/check.py {pid} --tier {tier}",
            trusted_base=["pyvc verification-condition generator (/verif/pyvc): Python/NumPy semantics of the subset",
                          "z3 " + _z3v(), "cvc5 1.1.2 (fallback)",
                          "contracts assumed for NumPy/SciPy/sklearn operations: see assumptions"],
            functions_under_contract=[dict(function=r["qual"], case=r["case"], root=r["root"], status=r["status"],
                                           reason=r["reason"], obligations=len(r["obls"]),
                                           discharged=sum(o["status"] == "proved" for o in r["obls"]),
                                           inlined=r["inlined"], used_contracts=r["used"], paths=r["paths"],
                                           loops=[[ln, names] for ln, names in r["loops"]],
                                           time_s=r["time"], solver_s=r["solver_time"], queries=r["queries"])
                                      for r in reps],
            obligations_by_backend=backends,
            roots=nroot, roots_proved=nrok,
            bounded_standins=[dict(function=r["qual"], case=r["case"], why=r["reason"]) for r in uns],
            bounded_harness=dict(label="bounded", groups=groups, inputs=sum(h["inputs"] for h in hres),
                                 checks=sum(h["checks"] for h in hres),
                                 skipped=sum(len(h["skipped"]) for h in hres), errors=len(herr)),
            solver_time_s=round(sum(r["solver_time"] for r in reps), 1),
        ),
        assumptions=sorted({x for r in reps for x in r["assumptions"]}) + [
            "Python integers and NumPy index arithmetic are mathematical integers; floats are reals with a NaN flag "
            "whose arithmetic is uninterpreted except where a contract says otherwise"],
        wall_s=round(time.time() - t0, 1), violations=len(lines))
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: roots proved {nrok}/{nroot}, obligations {len(disch)}/{len(obls)}, "
          f"harness inputs {ev['coverage']['bounded_harness']['inputs']} checks "
          f"{ev['coverage']['bounded_harness']['checks']} skipped {ev['coverage']['bounded_harness']['skipped']}, "
          f"{ev['wall_s']} s")
    for e in herr:
        print("harness error:", e)
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if herr:
        return 2
    return 0


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    main()
