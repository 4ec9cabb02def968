"""One check = contracts (proved) + bounded stand-ins / counterexample search on the rebuilt code."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.path.join(VERIF, "evidence")


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


# ------------------------------------------------------------------ proofs
def _task(args):
    pid, idx, src = args
    os.environ["VK_SRC"] = src
    if src not in sys.path:
        sys.path.insert(0, src)
    t0 = time.time()
    try:
        mod = load_prop(pid)
        name, fn = mod.proofs(src)[idx]
        rs = fn()
        if not isinstance(rs, list):
            rs = [rs]
        return [dict(r.to_json() if hasattr(r, "to_json") else r, task=name) for r in rs]
    except Exception as ex:        # the harness failed: not a verdict
        return [{"function": f"task {idx}", "proved": False,
                 "unsupported": f"generator error {type(ex).__name__}: {ex}",
                 "obligations": 0, "instances": 0, "discharged": 0, "failed": [], "labels": [], "paths": 0,
                 "ends": 0, "backends": {}, "dropped": [], "assumed": {}, "solver_s": 0,
                 "wall_s": time.time() - t0, "trace": traceback.format_exc()[-2500:], "task": str(idx)}]


def run_proofs(pid, src, jobs=7):
    if src not in sys.path:
        sys.path.insert(0, src)
    mod = load_prop(pid)
    tasks = mod.proofs(src) if hasattr(mod, "proofs") else []
    if not tasks:
        return []
    with mp.get_context("fork").Pool(min(jobs, len(tasks))) as pool:
        out = pool.map(_task, [(pid, i, src) for i in range(len(tasks))], chunksize=1)
    return [r for rs in out for r in rs]


# ------------------------------------------------------------------ bounded search
def run_search(pid, root, tier, seed, budget, jobs=4, only=None):
    """subprocesses so that a crash of native code is an observation, not our end"""
    from .build import env
    e = env()
    e["VK_SRC"] = os.path.join(root, "src")
    e["PYTHONPATH"] = os.path.join(root, "src") + ":" + VERIF
    e["MPLCONFIGDIR"] = os.path.join(root, "mpl")
    procs = []
    for w in range(jobs):
        out = os.path.join(root, f"search_{w}.json")
        cmd = ["/opt/venv/bin/python", "-m", "vk.search", pid, "--worker", str(w), "--jobs", str(jobs),
               "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out]
        if only:
            cmd += ["--only", only]
        procs.append((w, out, subprocess.Popen(cmd, env=e, cwd=root, stdout=subprocess.PIPE,
                                               stderr=subprocess.STDOUT, text=True)))
    res = {"cases": {}, "failures": [], "skipped": {}, "crashes": []}
    timed_out = set()
    for w, out, p in procs:
        try:
            so, _ = p.communicate(timeout=budget * 4 + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            res["skipped"][f"worker{w}"] = "timeout"
            timed_out.add(w)
        r = None
        if os.path.exists(out):
            with open(out) as f:
                try:
                    r = json.load(f)
                except ValueError:
                    r = None
        if r is None:
            res["skipped"][f"worker{w}"] = "no result: " + (so or "")[-800:]
            continue
        for k, v in r["cases"].items():
            res["cases"][k] = res["cases"].get(k, 0) + v
        res["failures"] += r["failures"]
        res["skipped"].update(r["skipped"])
        if r.get("current") and w not in timed_out:
            if p.returncode is not None and p.returncode < 0 and p.returncode != -9:
                res["failures"].append(dict(r["current"], detail=f"process died with signal {-p.returncode} "
                                                                 f"while executing this case"))
            elif p.returncode == 0:
                res["failures"].append(dict(r["current"], detail="the code under test ended the process (STOP) while executing "
                                                                 "this case: " + (so or "")[-300:]))
    return res


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    from . import build, baseline
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        pid = rp["property"]
        root = build.scratch_build()
        try:
            if "case" not in rp:
                print(json.dumps(rp, indent=1))
                return 1
            e = build.env()
            e["VK_SRC"] = os.path.join(root, "src")
            e["PYTHONPATH"] = os.path.join(root, "src") + ":" + VERIF
            return subprocess.call(["/opt/venv/bin/python", "-m", "vk.search", pid, "--one", rp["case"],
                                    "--index", str(rp["index"]), "--seed", str(rp["seed"])], env=e, cwd=root)
        finally:
            build.cleanup(root)
    pid = a.pid.upper()
    mod = load_prop(pid)
    os.makedirs(EV, exist_ok=True)
    root = None
    violations = []
    try:
        root = build.scratch_build()
        src = os.path.join(root, "src")
        proofs = [] if a.no_proof else run_proofs(pid, src)
        t_proof = time.time() - t0
        budget = getattr(mod, "BUDGET", {"quick": 25, "thorough": 240}).get(a.tier, 25)
        open_failed = [r for r in proofs if r["failed"] and not r["unsupported"]]
        undecided = []
        if open_failed and baseline.unchanged(src):
            # same code as the one the proofs were developed on: a timeout is not a violation
            undecided = [r for r in open_failed if all(f["status"] == "unknown" for f in r["failed"])]
            open_failed = [r for r in open_failed if r not in undecided]
            for r in undecided:
                print(f"UNDECIDED property={pid} {r['function']}: " + "; ".join(f["label"] for f in r["failed"][:4]))
        degraded = [r for r in proofs if r["unsupported"]]
        search = {"cases": {}, "failures": [], "skipped": {}}
        if not a.no_search and getattr(mod, "CASES", None):
            search = run_search(pid, root, a.tier, seed, budget, only=a.only)
            if (open_failed or degraded) and not search["failures"]:
                # contract-directed search for a failing input, longer budget
                s2 = run_search(pid, root, a.tier, seed + 7919, 3 * budget, jobs=7, only=a.only)
                for k, v in s2["cases"].items():
                    search["cases"][k] = search["cases"].get(k, 0) + v
                search["failures"] += s2["failures"]
        known = known_findings(pid)
        seen = set()
        for n, f in enumerate(search["failures"]):
            if any(k["match"] in f["detail"] and (not k.get("case") or k["case"] == f["case"]) for k in known):
                key = ("known", f["case"])
                if key not in seen:
                    seen.add(key)
                continue
            if f["case"] in seen:
                continue
            seen.add(f["case"])
            rp = os.path.join(EV, f"replay_{pid}_{f['case']}.json")
            with open(rp, "w") as h:
                json.dump({"property": pid, "case": f["case"], "index": f["index"], "seed": f["seed"],
                           "detail": f["detail"],
                           "failed_obligations": [{"function": r["function"], "failed": r["failed"]}
                                                  for r in open_failed],
                           "how": f"cd {VERIF} && ./check --replay {rp}"}, h, indent=1)
            violations.append((rp, "", f"{f['case']}: {f['detail']}"))
        if not violations and open_failed:
            rp = os.path.join(EV, f"replay_{pid}_obligation.json")
            with open(rp, "w") as h:
                json.dump({"property": pid,
                           "failed_obligations": [{"function": r["function"], "task": r["task"],
                                                   "failed": r["failed"], "paths": r["paths"]} for r in open_failed],
                           "note": "the verifier rejects these obligations generated from the current source; "
                                   "no failing input was found by the bounded search"}, h, indent=1)
            violations.append((rp, " no-failing-input-found",
                               "; ".join(f"{r['function']}: {r['failed'][0]['label']} ({r['failed'][0]['status']})"
                                         for r in open_failed)))
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        nob = sum(r["instances"] for r in proofs)
        bad = sum(len(r["failed"]) for r in proofs)
        be = {}
        for r in proofs:
            for b, c in r["backends"].items():
                be[b] = be.get(b, 0) + c
        proved = [r["function"] for r in proofs if r["proved"]]
        for r in proofs:
            if a.verbose or not r["proved"]:
                print(("PROVED   " if r["proved"] else "NOTPROVED") +
                      f" {r['function']} obligations={r['obligations']} instances={r['instances']} paths={r['paths']} "
                      f"wall={r['wall_s']:.1f}s solver={r['solver_s']:.1f}s"
                      + (f" DEGRADED-TO-BOUNDED: {r['unsupported']}" if r["unsupported"] else "")
                      + (" FAILED: " + "; ".join(f"{o['label']}[{o['status']}]" for o in r["failed"]) if r["failed"] else ""))
                if a.verbose and r["trace"]:
                    print(r["trace"])
                if a.verbose and r["dropped"]:
                    print("   dropped candidates:", len(r["dropped"]))
                if a.verbose and r["assumed"]:
                    print("   assumed:", r["assumed"])
        if search["skipped"]:
            print("bounded search: not run:", json.dumps(search["skipped"])[:600])
        assum = list(getattr(mod, "ASSUMPTIONS", []))
        assum += ["floating-point numbers are treated as real numbers and machine integers as mathematical integers",
                  "the CPython/Cython/Fortran compilers and the engine in /verif/vk implement the source semantics",
                  "partial correctness: termination is not proved"]
        for r in proofs:
            for k, v in r["assumed"].items():
                assum.append(f"{r['function']}: {k} obligations assumed, checked only in the bounded runs: {', '.join(v)}")
        nonvac = [r["function"] for r in proofs if r["obligations"] == 0 and not r["unsupported"]]
        lvl = getattr(mod, "LEVEL", "proof")
        cov = {"obligations": nob, "discharged": nob - bad, "checker_cmd": f"cd {VERIF} && ./check {pid} --tier {a.tier} -v",
               "trusted_base": ["z3 5.3.2", "cvc5 1.1.2", "VC generator /verif/vk", "CPython 3.12"]
               + list(getattr(mod, "TRUSTED", [])),
               "functions_under_contract": [r["function"] for r in proofs],
               "functions_proved": proved,
               "degraded_to_bounded": {r["function"]: r["unsupported"] for r in degraded},
               "undecided": [r["function"] for r in undecided],
               "backends": be, "solver_s": round(sum(r["solver_s"] for r in proofs), 2),
               "paths": sum(r["paths"] for r in proofs),
               "bounded_cases": search["cases"], "bounded_note": getattr(mod, "BOUNDED_NOTE", ""),
               "vacuity": {"functions_without_obligations": nonvac,
                           "every_function_reaches_its_end": all(r["ends"] > 0 for r in proofs if not r["unsupported"])},
               "details": [{k: r[k] for k in ("function", "task", "proved", "obligations", "instances", "paths",
                                              "solver_s", "wall_s", "labels")} for r in proofs]}
        if lvl == "exploration":
            n = sum(search["cases"].values())
            cov.update(evaluations=n, distinct_nontrivial=n,
                       rule="every case is drawn from its own seed (case, index); cases that reject their input are not counted. "
                            + getattr(mod, "BOUNDED_NOTE", ""),
                       samples=[{"case": k, "index": 0, "seed": seed, "replay": f"python -m vk.search {pid} --one {k} --index 0 --seed {seed}"}
                                for k in search["cases"]])
        if nonvac:
            cov["vacuous"] = nonvac
        with open(os.path.join(EV, f"{pid}.json"), "w") as f:
            json.dump({"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
                       "level": lvl, "coverage": cov, "wall_s": round(time.time() - t0, 2),
                       "assumptions": assum,
                       "violations": len(violations)}, f, indent=1)
        print(f"{pid}: {len(proved)}/{len(proofs)} functions proved, {nob} obligations, {nob - bad} discharged, "
              f"bounded cases {sum(search['cases'].values())}, proof {t_proof:.0f}s, total {time.time() - t0:.0f}s")
        if violations:
            for rp, suffix, what in violations:
                print(f"  {what[:600]}")
            for rp, suffix, what in violations[:1]:
                print(f"VIOLATION property={pid} replay={rp}{suffix}")
            return 1
        return 0
    finally:
        build.cleanup(root)


if __name__ == "__main__":
    sys.exit(main())
