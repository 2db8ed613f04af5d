#!/usr/bin/env python3
"""Decides the property of the Python facade: CrossHair executes /repo's minhash.py and simhash.py
symbolically on a model of the extension; counterexamples and witnesses are replayed on the real one.

  check_facade.py [--tier quick|thorough]        exit codes as in check.py
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, time
import check as base
from check import ROOT, B, log, die, T0
from plan import FACADE as P

PID = "C27"
RUN = B + "/run/" + PID
PKG = RUN + "/pkg"
REPO = "/repo"


def prepare():
    """The package as /repo has it now, with the extension built from /repo now."""
    shutil.rmtree(PKG, ignore_errors=True)
    shutil.copytree(REPO + "/py-gaoya/gaoya", PKG + "/gaoya", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    env = dict(base.ENV, PYO3_PYTHON="/usr/bin/python3")
    p = subprocess.run(["cargo", "build", "-p", "pygaoya", "--offline", "--target-dir", B + "/pyext"], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die("building the extension failed")
    shutil.copy(B + "/pyext/debug/libgaoya.so", PKG + "/gaoya/gaoya.abi3.so")


def symbolic(name, limit):
    try:
        p = subprocess.run(["python3-vt", ROOT + "/facade/run.py", "sym", name, str(limit), PKG], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit * 2 + 60)
    except subprocess.TimeoutExpired:
        return {"name": name, "error": "no result in time"}
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return {"name": name, "error": p.stdout[-1500:]}


def calls(messages):
    out = []
    for m in messages:
        k = re.search(r"when calling (.*?\))(?: \(which returns .*\))?$", m, re.S)
        if k:
            out.append(k.group(1))
    return out


def native(cs, fake):
    f = RUN + "/cases.json"
    json.dump(cs, open(f, "w"))
    p = subprocess.run(["/usr/bin/python3", ROOT + "/facade/run.py", "call", PKG, f] + (["fake"] if fake else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    res = [json.loads(l[7:]) for l in p.stdout.splitlines() if l.startswith("RESULT ")]
    return res + [["FAIL", "crash: " + p.stdout[-300:]]] * (len(cs) - len(res))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    os.makedirs(RUN, exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    ev = "%s/evidence/%s.json" % (ROOT, PID)
    if os.path.exists(ev):
        os.remove(ev)
    prepare()
    log("built the extension and copied the package from /repo")
    names = P["harnesses"]
    limit = 1500 if a.tier == "thorough" else 330
    results = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in concurrent.futures.as_completed([ex.submit(symbolic, n, limit) for n in names]):
            r = f.result()
            results[r["name"]] = r
            log("%-12s %s, paths %s, queries %s, solver %.1f s" % (r["name"], ", ".join(m["state"] for m in r.get("messages", [])) or "ERROR", r.get("stats", {}).get("num_paths"), r.get("queries"), r.get("solver_s", 0)))
    bad, broken, partial, witnesses = [], [], [], []
    for n in names:
        r = results[n]
        if "error" in r:
            broken.append("%s: %s" % (n, r["error"]))
            continue
        states = {m["state"] for m in r["messages"]}
        if states == {"CONFIRMED"}:
            for c, w in r["witnesses"].items():
                if not calls(w):
                    broken.append("%s: vacuous, the case '%s' is unreachable" % (n, c))
                witnesses += [(n, c, x) for x in calls(w)]
        elif states & {"POST_FAIL", "EXEC_ERR", "POST_ERR"}:
            ms = [m for m in r["messages"] if m["state"] in ("POST_FAIL", "EXEC_ERR", "POST_ERR")]
            ok = False
            for m in ms:
                for c in calls([m["message"]]):
                    res = native([c], False)[0]
                    where = "with the extension built from /repo"
                    if res[0] == "OK":
                        # What only the configuration of the native class shows is replayed on the recording model,
                        # but never what the real extension can do and the model cannot.
                        rm = native([c], True)[0]
                        if rm[0] == "FAIL" and rm[1].startswith("AssertionError"):
                            res, where = rm, "with the recording stand-in for the extension"
                    log("counterexample of %s: %s -> %s %s" % (n, m["message"][:200], res, where))
                    if res[0] == "FAIL":
                        bad.append((n, m["message"], c, res[1], where))
                        ok = True
                        break
                if ok:
                    break
            if not ok:
                broken.append("%s: a counterexample does not replay: %s" % (n, ms[0]["message"][:300]))
        else:
            partial.append("%s: %s" % (n, ", ".join(m["message"] for m in r["messages"])[:200]))
    validated = 0
    if witnesses:
        for (n, c, call), (what, res) in zip(witnesses, native([w[2] for w in witnesses], False)):
            if what == "OK" and res == c:
                validated += 1
            elif what == "FAIL":
                bad.append((n, "a path the symbolic run passes fails with the real extension", call, res, "with the extension built from /repo"))
            else:
                broken.append("%s: %s gives %s with the real extension, '%s' in the symbolic run" % (n, call, res, c))
    known = [d for d in base.findings() if d.get("property") == PID]
    fresh = []
    for b in bad:
        k = next((d for d in known if d.get("harness") == b[0] and d.get("what") in b[3]), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (PID, k.get("text", b[3])))
        else:
            fresh.append(b)
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    paths = sum(r.get("stats", {}).get("num_paths", 0) for r in results.values())
    json.dump({
        "property": PID, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": paths, "transitions": tot("queries"), "traces_validated_against_impl": validated,
            "samples": [{"harness": n, "case": c, "call": x} for n, c, x in witnesses[:10]],
            "rule": "states: feasible paths of the facade, each for all symbolic arguments that take it; transitions: solver queries that decided the branches and assertions on them; traces validated: solver inputs run with the real extension, reaching the same case without a failed assertion",
            "harnesses": {n: {"bounds": P["harness_bounds"][n], "status": [m["state"] for m in results[n].get("messages", [])], "paths": results[n].get("stats", {}).get("num_paths"), "queries": results[n].get("queries"), "sat": results[n].get("sat"), "unsat": results[n].get("unsat"), "solver_s": results[n].get("solver_s"), "slowest_query_s": results[n].get("max_query_s")} for n in names},
            "solver": "Z3 through CrossHair 0.0.112", "queries_discharged": tot("queries"), "solver_s": round(tot("solver_s"), 2),
            "functions_encoded": ["gaoya.minhash.MinHashStringIndex (all methods)", "gaoya.simhash.SimHashStringIndex (all methods)"],
            "exhaustive": not (bad or broken or partial), "stopped_early": partial, "no_answer": broken,
        },
        "assumptions": P["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": len(fresh),
    }, open(ev, "w"), indent=1)
    if fresh:
        for n, msg, call, res, where in fresh:
            path = "%s/evidence/%s-%s.replay.txt" % (ROOT, PID, n)
            with open(path, "w") as o:
                o.write("property   %s %s\nharness    %s\nfound      %s\nnative     %s, %s\nreplay     write [%s] to cases.json and run: python3 %s/facade/run.py call %s cases.json\n" % (PID, P["title"], n, msg, res, where, json.dumps(call), ROOT, PKG))
            print("  %s: %s -> %s" % (n, call, res))
            print("VIOLATION property=%s replay=%s" % (PID, path), flush=True)
        sys.exit(1)
    if len(partial) * 2 >= len(names):
        broken += partial
    for x in partial:
        print("PARTIAL " + x)
    if broken:
        for x in broken:
            print("NO ANSWER " + x)
        die("no answer for " + PID)
    log("%s holds within the bounds: %d harnesses, %d paths, %d queries, %.1f s solver, %d paths validated with the real extension" % (PID, len(names), paths, tot("queries"), tot("solver_s"), validated))


if __name__ == "__main__":
    main()
