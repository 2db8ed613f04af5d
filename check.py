#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code.

  check.py <property> [--tier quick|thorough]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken, replayed natively.
Exit 2: no answer (build failure, solver limit, counterexample that does not replay).
"""
import argparse, concurrent.futures, hashlib, json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(ROOT, ".build")
sys.path.insert(0, ROOT)
from plan import PROPS, HARNESS, ASSUMPTIONS

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
T0 = time.time()


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def log(msg):
    print("[%6.1fs] %s" % (time.time() - T0, msg), flush=True)


def cargo(where, *args):
    p = subprocess.run(["cargo", *args], cwd=os.path.join(ROOT, where), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return where, p.returncode, p.stdout


def build(crates):
    """Everything is rebuilt from /repo's working tree; cargo decides what is stale."""
    jobs = []
    ex = concurrent.futures.ThreadPoolExecutor(8)
    jobs.append(ex.submit(cargo, "symex", "build", "--release", "--offline", "--target-dir", B + "/symex"))
    for c in crates:
        jobs.append(ex.submit(cargo, c, "rustc", "--release", "--offline", "--target-dir", "%s/ir-%s" % (B, c), "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"))
        for r in CRATES[c]["replay"]:
            jobs.append(ex.submit(cargo, r, "build", "--release", "--offline", "--target-dir", "%s/%s" % (B, r)))
    for j in jobs:
        where, rc, out = j.result()
        if rc != 0:
            print(out[-6000:])
            die("building %s failed" % where)


# harness crate -> its native replays, most realistic first
CRATES = {
    "harness": {"ir": "harness", "replay": ["replay-real", "replay-model"]},
    "pyharness": {"ir": "pyharness", "replay": ["replay-py-real", "replay-py-model"]},
}


def ll(crate):
    return "%s/ir-%s/release/deps/%s.ll" % (B, crate, CRATES[crate]["ir"])


# A confirmed violation answers the question: what still runs is ended.
STOP, RUNNING = [], []


def symex(name, tier, outdir, limit):
    h = HARNESS[name]
    out = "%s/%s.json" % (outdir, name)
    if os.path.exists(out):
        os.remove(out)
    cmd = [B + "/symex/release/symex", ll(h.get("crate", "harness")), "--entry", h.get("entry", name), "--json", out,
           "--max-time", str(limit), "--max-mem", str(h.get("mem", 6000)), "--samples", str(h.get("samples", 12)),
           "--preempt", str(h.get("preempt", 3)), "--max-steps", str(h.get("steps", 20000000)), "--query-timeout", str(int(limit * 1000))]
    if STOP:
        return name, {"status": "not run"}
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    RUNNING.append(p)
    text, _ = p.communicate()
    if STOP:
        return name, {"status": "not run"}
    if not os.path.exists(out):
        return name, {"status": "error", "why": "symex ended with %d: %s" % (p.returncode, text[-500:])}
    return name, json.load(open(out))


def native(name, crate, cases, reps, outdir, tag, valgrind=False):
    """Runs the inputs natively; one (outcome, observes) per case."""
    h = HARNESS[name]
    f = "%s/%s.%s.case" % (outdir, name, tag)
    with open(f, "w") as o:
        for c in cases:
            o.write(" ".join("%d:%d" % (v, k) for v, k in c) + "\n")
    exe = "%s/%s/release/%s" % (B, crate, crate)
    cmd = [exe, h.get("entry", name), f, str(reps), str(h.get("preempt", 3))]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240 if valgrind else 100, errors="replace")
    except subprocess.TimeoutExpired:
        return [("TIMEOUT", [])] * len(cases), f
    res = []
    for line in p.stdout.splitlines():
        if "\t" not in line:
            continue
        a, b = line.rsplit("\t", 1)
        res.append((a, [int(x) for x in b.split(",") if x]))
    while len(res) < len(cases):
        res.append(("CRASH exit %s" % p.returncode, []))
    if valgrind and p.returncode == 99:
        res[-1] = ("MEMORY " + p.stderr[:300].replace("\n", " "), [])
    return res, f


def failed(outcome):
    return outcome.startswith(("CHECK", "PANIC", "CRASH", "MEMORY", "TIMEOUT"))


def replay(name, v, outdir, n):
    """Replays a counterexample natively. Returns (confirmed, outcome, crate, case file)."""
    h = HARNESS[name]
    crates = CRATES[h.get("crate", "harness")]["replay"]
    if h.get("model_only"):
        crates = crates[-1:]
    elif not h.get("model_ok"):
        crates = crates[:1]
    last = None
    for c in crates:
        reps = 1 if c.endswith("-model") else h.get("reps", 100)
        res, f = native(name, c, [v["inputs"]], reps, outdir, "cex%d" % n)
        last = (failed(res[0][0]), res[0][0], c, f)
        if last[0]:
            return last
        if v["kind"] not in ("check", "panic"):
            res, f = native(name, c, [v["inputs"]], 1, outdir, "cex%d" % n, valgrind=True)
            last = (failed(res[0][0]), res[0][0], c, f)
            if last[0]:
                return last
    return last


def findings():
    out = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        line = line.strip()
        if line.startswith("finding:"):
            d = {}
            for part in line[8:].split("|"):
                k, _, v = part.strip().partition("=")
                d[k] = v
            out.append(d)
    return out


def gaoya_functions(names):
    return sorted({f for f in names if "gaoya" in f or "py_gaoya" in f})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="run one harness")
    a = ap.parse_args()
    p = PROPS[a.property]
    names = list(p["quick"]) + (list(p.get("thorough", [])) if a.tier == "thorough" else [])
    if a.only:
        names = [a.only]
    limit = 1500 if a.tier == "thorough" else 620
    outdir = "%s/run/%s" % (B, a.property)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    ev = "%s/evidence/%s.json" % (ROOT, a.property)
    if os.path.exists(ev):
        os.remove(ev)
    crates = sorted({HARNESS[n].get("crate", "harness") for n in names})
    build(crates)
    log("built %s from /repo" % ", ".join(crates))

    names.sort(key=lambda n: -HARNESS[n].get("cost", 1))
    results = {}
    bad, broken, partial = [], [], []
    nviol = 0
    validated, mismatches = 0, []
    def judge(n, r):
        nonlocal validated
        h = HARNESS[n]
        if r["status"] == "not run":
            return
        if r["status"] == "error":
            broken.append("%s: %s" % (n, r["why"]))
            return
        if r["status"] == "violated":
            seen = set()
            for i, v in enumerate(r["violations"]):
                key = (v["kind"], v["msg"], v["at"])
                if key in seen or len(seen) > 8:
                    continue
                seen.add(key)
                ok, outcome, crate, case = replay(n, v, outdir, i)
                log("counterexample of %s: %s %s (at %s) -> native %s: %s" % (n, v["kind"], v["msg"], v["at"], crate, outcome))
                if ok:
                    bad.append((n, v, outcome, crate, case))
                    return
            broken.append("%s: a counterexample does not replay: %s" % (n, r["violations"][0]["msg"]))
            return
        if r["status"] != "verified":
            (partial if r["covers"] and r["paths"] > 0 else broken).append("%s: inconclusive: %s" % (n, "; ".join(r["inconclusive"])[:600]))
            return
        if "WITNESS" not in r["covers"]:
            broken.append("%s: vacuous, its end is unreachable" % n)
            return
        # paths of the encoding, run natively with the solver's inputs: same observations, no failure
        crates_n = CRATES[h.get("crate", "harness")]["replay"]
        c = crates_n[-1] if h.get("model_only") else crates_n[0]
        if r["samples"]:
            res, case = native(n, c, [s["inputs"] for s in r["samples"]], 1, outdir, "samples")
            for s, (outcome, obs) in zip(r["samples"], res):
                if failed(outcome):
                    v = {"kind": "validation", "msg": "a path the encoding passes fails natively", "at": "", "inputs": s["inputs"]}
                    res2, case2 = native(n, c, [s["inputs"]], 1, outdir, "val")
                    if failed(res2[0][0]):
                        bad.append((n, v, res2[0][0], c, case2))
                        break
                elif (outcome != "OK-PANIC") == s["panicked"] or (not s["panicked"] and obs != s["observes"]):
                    mismatches.append("%s: native %s %s, encoded %s %s" % (n, outcome, obs, "panic" if s["panicked"] else "", s["observes"]))
                else:
                    validated += 1

    def finding(b):
        return next((d for d in findings() if d.get("property") == a.property and d.get("harness") == b[0] and d.get("what") == b[1]["msg"]), None)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in concurrent.futures.as_completed([ex.submit(symex, n, a.tier, outdir, limit) for n in names]):
            n, r = f.result()
            results[n] = r
            if r["status"] != "not run":
                log("%-18s %-12s paths %s, checks %s, queries %s, solver %ss" % (n, r["status"], r.get("paths"), r.get("checks"), r.get("queries"), r.get("solver_s")))
            judge(n, r)
            if not STOP and any(not finding(b) for b in bad):
                STOP.append(n)
                for q in RUNNING:
                    if q.poll() is None:
                        q.kill()
    known = []
    fresh = []
    for b in bad:
        n, v, outcome, crate, case = b
        k = finding(b)
        (known if k else fresh).append((b, k))
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    funcs = gaoya_functions(f for r in results.values() for f in r.get("functions", []))
    wall = time.time() - T0
    samples = []
    for n in names[:6]:
        for s in results[n].get("samples", [])[:1]:
            samples.append({"harness": n, "inputs_of_one_path": [x for x, _ in s["inputs"]], "observed": s["observes"], "panicked_as_expected": s["panicked"]})
    json.dump({
        "property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": samples,
            "rule": "states: feasible paths of the real code explored to their end, each for all symbolic inputs that take it; transitions: LLVM IR instructions executed symbolically; traces validated: paths whose solver inputs, run natively on the real crate, gave the observations of the encoding",
            "harnesses": {n: {"bounds": HARNESS[n]["bounds"], "status": results[n]["status"], "paths": results[n].get("paths"), "assertions_decided": results[n].get("checks"), "queries": results[n].get("queries"), "unsat": results[n].get("unsat"), "sat": results[n].get("sat"), "solver_s": results[n].get("solver_s"), "slowest_query_s": results[n].get("max_query_s"), "checks": results[n].get("check_msgs")} for n in names},
            "solver": "Z3 4.8.12 (bit-vectors, floating point, uninterpreted functions)",
            "queries_discharged": tot("queries"), "solver_s": round(tot("solver_s"), 2), "assertions_decided": tot("checks"),
            "expected_panics_reached": tot("expected_panics"), "functions_encoded": len(funcs), "gaoya_functions_encoded": funcs,
            "exhaustive": not broken and not bad and not partial, "stopped_early": partial, "mismatches": mismatches, "no_answer": broken,
        },
        "assumptions": ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh),
    }, open(ev, "w"), indent=1)
    for (n, v, outcome, crate, case), k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k.get("text", v["msg"])), flush=True)
    if fresh:
        for i, ((n, v, outcome, crate, case), _) in enumerate(fresh):
            path = "%s/evidence/%s-%s.replay.txt" % (ROOT, a.property, n)
            h = HARNESS[n]
            with open(path, "w") as o:
                o.write("property   %s %s\nharness    %s (%s)\nassertion  %s: %s\nat         %s\nstack      %s\nnative     %s (%s)\ninputs     %s\nreplay     %s/%s/release/%s %s %s %d %d\n" % (
                    a.property, p["title"], n, h["bounds"], v["kind"], v["msg"], v["at"], " < ".join(v.get("stack", [])), outcome, crate,
                    " ".join("%d:%d" % (x, y) for x, y in v["inputs"]), B, crate, crate, h.get("entry", n), case, h.get("reps", 100), h.get("preempt", 3)))
            print("  %s: %s -> %s" % (n, v["msg"], outcome))
            print("VIOLATION property=%s replay=%s" % (a.property, path), flush=True)
        sys.exit(1)
    # A harness that ran into a limit explored only part of its bounds. What it explored held; the
    # answer stands if most of the property was decided in full.
    if len(partial) * 2 >= len(names):
        broken += partial
    for x in partial:
        print("PARTIAL " + x)
    for m in mismatches:
        print("MISMATCH " + m)
    if broken or mismatches:
        for x in broken:
            print("NO ANSWER " + x)
        die("no answer for %s" % a.property)
    log("%s holds within the bounds: %d harnesses, %d paths, %d assertions, %d queries, %.1f s solver, %d paths validated natively" % (a.property, len(names), tot("paths"), tot("checks"), tot("queries"), tot("solver_s"), validated))
    sys.exit(0)


if __name__ == "__main__":
    main()
