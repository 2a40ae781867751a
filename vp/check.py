"""Decides one property:  python3-vt -m vp.check ID [--tier quick|thorough]"""
import argparse
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

from vp import boot

VERIF = boot.VERIF
PROCS = int(os.environ.get("VP_PROCS", "8"))


# ------------------------------------------------------------------ one job (in a worker)
def run_job(job):
    from vp import env as envmod
    from vp import harness, instr, sym
    idx, prop, name, params, opts = job
    eng = sym.Engine(timeout_ms=opts["query_timeout_ms"])
    sym.set_engine(eng)
    instr.FUNCTIONS.clear()
    fn = harness.get(name)
    rng = random.Random(opts["seed"] * 1000003 + idx)
    res = {"idx": idx, "name": name, "params": params, "status": "ok", "samples": [], "reached": [], "ops": 0}
    reached = set()
    t0 = time.time()
    cur = {}

    def body():
        e = envmod.SymEnv()
        e.props = {prop}
        e.findings = set(opts["findings"])
        cur["env"] = e
        fn(e, **params)
        return e

    seen = [0]

    def on_path(e):
        seen[0] += 1
        reached.update(e.reached)
        k = opts["samples"]
        if len(res["samples"]) < k:
            slot = len(res["samples"])
            res["samples"].append(None)
        else:
            slot = rng.randrange(seen[0])
            if slot >= k:
                return
        m = eng.ensure_model()
        from vp.replay import jsonable
        tied = any(a == b for a, b in (eng.eval(list(p), m) for p in e.store.ties))
        res["samples"][slot] = (jsonable(eng.concretize(m)), jsonable(eng.eval(e.observed, m)), tied)

    from vp.replay import jsonable
    res["candidates"] = cand = []      # counterexamples to try on the real database

    def note(x):
        """Records a path that cannot be accepted; True to go on with the other paths of this job."""
        if isinstance(x, sym.Violation):
            if res["status"] != "violation":
                res.update(status="violation", labels=x.labels)
            cand.append((jsonable(x.assignment), x.labels, None))
        elif isinstance(x, sym.Unsupported):
            if res["status"] == "ok":
                res.update(status="unsupported", detail=str(x) + "\n" + traceback.format_exc()[-1500:])
            try:
                cand.append((jsonable(eng.concretize(eng.ensure_model())), [], None))
            except Exception:
                pass
        else:           # the code under test (or the harness) raised where no error is acceptable
            detail = traceback.format_exc()
            try:
                labels = [f"{prop}:unexpected {type(x).__name__}"]
                cand.append((jsonable(eng.concretize(eng.ensure_model())), labels, type(x).__name__))
                if res["status"] != "violation":
                    res.update(status="violation", labels=labels, detail=detail)
            except Exception:
                if res["status"] == "ok":
                    res.update(status="error", detail=detail + traceback.format_exc())
        return len(cand) < 6

    try:
        eng.explore(body, max_paths=opts["max_paths"], on_path=on_path, deadline=t0 + opts["job_seconds"], on_trouble=note)
    except sym.Inconclusive as x:
        if res["status"] == "ok":
            res.update(status="inconclusive", detail=str(x))
    except (Exception, sym.PathSteer):
        if not cand:
            res.update(status="error", detail=traceback.format_exc())
    res["reached"] = sorted(reached)
    res["stats"] = eng.stats.as_dict()
    res["truncated"] = eng.truncated
    res["functions"] = dict(instr.FUNCTIONS)
    res["wall"] = time.time() - t0
    return res


# ------------------------------------------------------------------ real database
class Real:
    def __init__(self, db):
        self.db = db
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF + ":" + os.environ.get("VP_REPO", "/repo"))
        self.p = subprocess.Popen(["/opt/venv/bin/python", "-W", "ignore", "-m", "vp.replay", db], cwd=VERIF, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.ready = False

    def ask(self, **req):
        if not self.ready:
            line = self.p.stdout.readline()
            if line.strip() != "ready":
                raise RuntimeError("the real-database server did not start")
            self.ready = True
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the real-database server ended")
        return json.loads(line)

    def close(self):
        try:
            if not self.ready:
                self.p.stdout.readline()
            self.p.stdin.close()
            self.p.wait(30)
        except Exception:
            self.p.kill()


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [f for f in json.load(fh)["findings"] if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="substring of the job description (debugging)")
    ap.add_argument("--limit", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.prop
    ltree = prop_db(prop) == "pg"
    boot.boot("sym", ltree=ltree)
    from vp import harness
    harness.load()
    meta = harness.META[prop]
    tier = a.tier
    real = Real(meta["db"])
    code = 2
    try:
        code = decide(a, prop, tier, seed, meta, real, harness, t0)
    finally:
        real.close()
    sys.stdout.flush()
    sys.exit(code)


def prop_db(prop):
    return "pg" if prop[0] == "L" or (prop[0] == "X" and prop != "X09") else "sqlite"


def report(prop, real, r, assignment, failed, rr):
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "replay", f"{prop}-{r['idx']}.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "db": real.db, "harness": r["name"], "params": r["params"], "props": [prop],
                   "findings": [f["id"] for f in known_findings(prop)],
                   "assignment": assignment, "labels": r.get("labels", []), "failed_on_real_db": failed,
                   "observed": rr["observed"], "error": rr.get("error"),
                   "how": "PYTHONPATH=/verif /opt/venv/bin/python -m vp.replay <this file>"}, fh, indent=1)
    print(f"violated: {', '.join(failed)}  [{r['name']} {json.dumps(r['params'])} {json.dumps(assignment)}]")
    print(f"VIOLATION property={prop} replay={path}")


def decide(a, prop, tier, seed, meta, real, harness, t0):
    jobs = harness.JOBS[prop](tier)
    if a.only:
        jobs = [j for j in jobs if a.only in str(j)]
    if a.limit:
        jobs = jobs[: a.limit]
    findings = known_findings(prop)
    budget = 780 if tier == "quick" else 3300
    opts = dict(seed=seed, query_timeout_ms=120000, max_paths=60000, job_seconds=budget,
                samples=2 if tier == "quick" else 4, findings=[f["id"] for f in findings])
    work = [(i, prop, n, p, opts) for i, (n, p) in enumerate(jobs)]
    ctx = mp.get_context("fork")
    results = []
    code, reported, tried = 0, 0, 0
    unconfirmed = []
    with ctx.Pool(PROCS, maxtasksperchild=200) as pool:
        for r in pool.imap_unordered(run_job, work, chunksize=1):
            results.append(r)
            if a.v and r["status"] != "ok":
                print(r["status"], r["name"], r["params"], r.get("labels"), r["candidates"][:1], r.get("detail"))
            # counterexamples are re-run on the real database before anything is reported
            confirmed = False
            for asg, labels, raised in r["candidates"]:
                tried += 1
                rr = real.ask(harness=r["name"], params=r["params"], assignment=asg, props=[prop], findings=opts["findings"])
                same = list(rr["failed"])
                if raised and rr.get("raised") == raised:
                    same += labels
                if same:
                    report(prop, real, r, asg, same, rr)
                    code, confirmed = 1, True
                    reported += 1
                    break
                if labels:
                    unconfirmed.append((r, asg, labels, rr))
            if (confirmed and not a.v) or (tried > 150 and not confirmed):
                pool.terminate()
                break
            if time.time() - t0 > budget:
                pool.terminate()
                results.append({"idx": -1, "status": "inconclusive", "detail": "overall time budget exceeded",
                                "candidates": [], "name": "-", "params": {}, "stats": {}, "functions": {}, "samples": [], "reached": [],
                                "truncated": 0, "wall": 0})
                break
    results.sort(key=lambda r: r["idx"])
    if unconfirmed and code == 0:
        code = 2
        for r, asg, labels, rr in unconfirmed[:3]:
            print(f"ERROR: counterexample does not reproduce on the real database: {r['name']} {json.dumps(r['params'])} "
                  f"{labels} {asg} -> {rr}")
    # ---- validated traces
    validated = 0
    mism = 0
    cap = 150 if tier == "quick" else 600
    pool_ = [(r, s) for r in results for s in r["samples"] if s]
    rng = random.Random(seed)
    rng.shuffle(pool_)
    samples = []
    tv = time.time()
    for r, (asg, obs, tied) in pool_[:cap]:
        if code == 1 or time.time() - tv > 90:
            break
        rr = real.ask(harness=r["name"], params=r["params"], assignment=asg, props=[prop], findings=opts["findings"])
        if rr["failed"]:
            report(prop, real, r, asg, rr["failed"], rr)
            code = 1
            reported += 1
            break
        if tied and not rr.get("error") and rr["observed"] != obs:
            continue                # rows with equal sort keys may come in any order; the real outcome satisfies the property
        if rr.get("error") or rr["observed"] != obs:
            mism += 1
            if mism <= 3:
                print(f"ERROR: model and real database disagree: {r['name']} {json.dumps(r['params'])} {json.dumps(asg)}\n"
                      f"  model {json.dumps(obs)}\n  real  {json.dumps(rr)[:3000]}")
            continue
        validated += 1
        if len(samples) < 4:
            samples.append({"harness": r["name"], "params": r["params"], "inputs": asg, "outcome": obs})
    if mism:
        code = code or 2
    bad = [r for r in results if r["status"] in ("unsupported", "inconclusive", "error")]
    for r in bad[:5]:
        print(f"ERROR: no answer ({r['status']}): {r['name']} {json.dumps(r['params'])}: {r['detail'][-1800:]}")
    if bad:
        code = code or 2
    # ---- vacuity
    reached = set().union(*[set(r["reached"]) for r in results]) if results else set()
    want = set(harness.META[prop].get("witnesses", ()))
    if code == 0 and not a.only and not a.limit:
        missing = sorted(want - reached)
        if missing:
            print("ERROR: situations the check must reach were not reached:", missing)
            code = 2
    # ---- known findings
    for f in findings:
        if f.get("status", "open") != "open":
            continue
        rr = real.ask(harness=f["harness"], params=f["params"], assignment=f["assignment"], props=[prop])
        if rr["failed"]:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    # ---- evidence
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_query_s" else tot.get(k, 0) + v
    funcs = {}
    for r in results:
        for k, v in r["functions"].items():
            if prop == "X14" or not k.startswith("treebeard.deprecation"):
                funcs[k] = funcs.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("paths", 0) + tot.get("infeasible", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"harness": r["name"], "params": r["params"]} for r in results[:3]],
            "what_states_are": "completed symbolic paths; each stands for every input satisfying its path condition, and all "
                               "requirements were discharged on it by z3",
            "jobs": len(results), "jobs_without_answer": len(bad),
            "queries_discharged": int(tot.get("queries", 0)), "requirement_queries": int(tot.get("final_queries", 0)),
            "branch_decisions": int(tot.get("branches", 0)), "branches_with_one_outcome": int(tot.get("forced", 0)),
            "solver_seconds": round(tot.get("solver_s", 0), 3), "slowest_query_seconds": round(tot.get("max_query_s", 0), 3),
            "values_concretised_with_a_cutoff": sum(r["truncated"] for r in results),
            "functions_encoded": sorted(k for k in funcs),
            "bounds": meta["bounds"],
            "witnesses_reached": sorted(reached & want) if want else sorted(reached)[:40],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop} {tier}: {len(results)} jobs, {int(tot.get('paths', 0))} paths, {int(tot.get('queries', 0))} queries, "
          f"{sum(r['truncated'] for r in results)} cut off, {tot.get('solver_s', 0):.1f}s solver, {validated} traces validated, {time.time() - t0:.1f}s wall, exit {code}")
    if a.v:
        slow = sorted(results, key=lambda r: -r["wall"])[:5]
        for r in slow:
            print("  slow", round(r["wall"], 1), r["stats"].get("paths"), r["name"], r["params"])
    return code


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
