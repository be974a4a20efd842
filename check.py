#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough]

Exit 0: held on everything explored. Exit 1: VIOLATION (replayed against the native build of the same
code). Exit 2: no answer (build failure, executor error, a counterexample that does not replay, a
witness that was not reached, or - quick tier - a time limit)."""
import json
import os
import resource
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build  # noqa: E402
import registry  # noqa: E402

VERIF = build.VERIF
T0 = time.time()


def inconclusive(msg):
    print("INCONCLUSIVE:", msg)
    sys.exit(2)


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for w, v in inputs:
            f.write("%d %d\n" % (w, v))


def native(exe, harness, inputs_file, timeout=20, log=False):
    e = dict(os.environ, SX_INPUTS=inputs_file)
    if log:
        e["SX_LOG"] = "1"
    try:
        p = subprocess.run([exe, "h_" + harness], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace", preexec_fn=limited)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return "timeout", out if isinstance(out, str) else out.decode(errors="replace")


def limited():
    """What does not end must not fill the memory either."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def concrete(ll, harness, f):
    """Repeats the path in the executor with concrete values only."""
    values = os.path.join(os.path.dirname(ll), "values.%d" % os.getpid())
    with open(values, "w") as o:
        o.write(",".join(str(v) for _, v in f["inputs"]))
    cmd = [build.SX, "exec", ll, "h_" + harness, "--inputs", "@" + values]
    if "fuel" in registry.HARNESSES[harness]:
        cmd += ["--fuel", str(registry.HARNESSES[harness]["fuel"])]
    if f.get("sched"):
        cmd += ["--sched", ",".join(map(str, f["sched"]))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    os.unlink(values)
    return p.returncode, p.stdout


def replay(ll, exe, harness, f, path):
    """(reproduced?, what was seen)"""
    write_inputs(path + ".inputs", f["inputs"])
    msg = f["msg"]
    if f.get("sched"):
        rc, out = concrete(ll, harness, f)
        return rc == 1 and "SX_FAIL" in out, "executor, given values and schedule: " + out[:300]
    if msg.startswith("nontermination"):
        rc, out = native(exe, harness, path + ".inputs", timeout=15)
        # A process that grows without end runs into its memory limit instead.
        return rc in ("timeout", -6), "native: %s %s" % (rc, out[-300:])
    rc, out = native(exe, harness, path + ".inputs")
    if rc == 1 and "SX_FAIL" in out:
        return True, "native: " + out[-300:]
    if isinstance(rc, int) and rc not in (0, 1, 2, 77, 78):
        return True, "native: exit %s %s" % (rc, out[-300:])
    if msg.startswith(("memory error", "unreachable code")):
        # Undefined behaviour need not show natively.
        rc2, out2 = concrete(ll, harness, f)
        return rc2 == 1, "native: %s; executor with concrete values: %s" % (rc, out2[:300])
    return False, "native: exit %s %s" % (rc, out[-300:])


def known_findings(prop):
    """Entries `known: property=ID match=TEXT` of the known-findings file."""
    out = []
    for line in build.read(VERIF + "/known-findings.txt").splitlines():
        if line.startswith("known: property=%s " % prop) and " match=" in line:
            out.append(line.split(" match=", 1)[1].strip())
    return out


def dump_crosscheck(d):
    """Second solver on a sample of the queries."""
    agree = differ = unknown = 0
    for n in sorted(os.listdir(d))[:200]:
        if not n.endswith(".smt2"):
            continue
        if ".unknown." in n:
            continue
        want = "unsat" if ".unsat." in n else "sat"
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", os.path.join(d, n)], capture_output=True, text=True, timeout=20)
            got = (p.stdout.split() or ["?"])[0]
        except subprocess.TimeoutExpired:
            got = "?"
        if got == want:
            agree += 1
        elif got in ("sat", "unsat"):
            differ += 1
        else:
            unknown += 1
    return agree, differ, unknown


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = registry.PROPS[prop]
    names = P["quick"] + (P.get("thorough", []) if tier == "thorough" else [])
    known = known_findings(prop)
    try:
        built = {c: build.harness(c) for c in sorted({registry.HARNESSES[n]["crate"] for n in names})}
    except build.BuildError as e:
        inconclusive("the harness does not build against this tree\n%s" % e)
    deadline = T0 + (840 if tier == "quick" else 4 * 3600)
    table, samples, functions, lines = [], [], set(), {}
    validated = diverged = violations = 0
    problems, known_hit = [], set()
    scratch = tempfile.mkdtemp(prefix="verif-")
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    cross = [0, 0, 0]
    found = []
    for n in names:
        H = registry.HARNESSES[n]
        ll, exe = built[H["crate"]]
        out = os.path.join(scratch, n + ".json")
        left = deadline - time.time()
        if left < 20:
            problems.append("%s: no time left" % n)
            break
        limit = min(H.get("time", 400 if tier == "quick" else 1200), left - 10)
        cmd = [build.SX, "run", ll, "h_" + n, "--out", out, "--time", str(int(limit))]
        if "fuel" in H:
            cmd += ["--fuel", str(H["fuel"])]
        for k in known:
            cmd += ["--known", k]
        if tier == "thorough":
            dd = os.path.join(scratch, n + ".q")
            os.makedirs(dd)
            cmd += ["--dump-every", "97", "--dump-dir", dd]
        # Memory is short (something else uses it?): once more with fewer workers.
        for workers in (min(8, os.cpu_count() or 8), 2):
            if os.path.exists(out):
                os.remove(out)
            p = subprocess.run(cmd + ["--workers", str(workers)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
            r = None
            if p.returncode == 0 and os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
            if r is None or r["status"] not in ("memory", "crashed") or r["failures"]:
                break
        if r is None:
            problems.append("%s: executor failed: %s" % (n, p.stdout[-500:]))
            continue
        if tier == "thorough":
            for i, x in enumerate(dump_crosscheck(dd)):
                cross[i] += x
        functions.update(r["functions"])
        for k, v in r["lines"].items():
            m = lines.setdefault(k, set(v["missed"]))
            m &= set(v["missed"])
        table.append({k: r[k] for k in ("paths", "completed", "assume_killed", "forks", "steps", "queries", "sat", "unsat",
                                        "cache_hits", "solver_s", "wall_s", "status", "max_inputs", "covers")})
        table[-1].update(harness=n, bounds=H["bounds"], exhausted=r["status"] == "complete")
        stop = False
        for i, f in enumerate(r["failures"]):
            k = [x for x in known if x in f["msg"]]
            path = os.path.join(rdir, "%s-%s-%d" % (prop, n, i))
            ok, seen = replay(ll, exe, n, f, path)
            with open(path + ".json", "w") as w:
                json.dump(dict(property=prop, harness=n, failure=f, replay=seen, reproduced=ok,
                               native="SX_LOG=1 SX_INPUTS=%s.inputs %s h_%s" % (path, exe, n)), w, indent=1)
            if not ok:
                problems.append("%s: counterexample does not replay (%s): %s" % (n, f["msg"], seen))
                continue
            if k:
                if k[0] not in known_hit:
                    known_hit.add(k[0])
                    print("KNOWN-FINDING: property=%s %s (%s: %s)" % (prop, k[0], n, f["msg"]))
                continue
            violations += 1
            found.append(path + ".json")
            print("%s: %s" % (n, f["msg"]))
            for l in f["stack"][:6]:
                print("    " + l)
            stop = True
            break
        if stop:
            break
        if r["errors"]:
            problems.append("%s: executor: %s" % (n, r["errors"][:3]))
        elif r["status"] == "timeout":
            if tier == "quick":
                problems.append("%s: time limit of %d s" % (n, limit))
            else:
                print("NOTE: %s not exhausted within %d s" % (n, limit))
        elif r["status"] != "complete" and not r["failures"]:
            problems.append("%s: %s" % (n, r["status"]))
        if r["status"] == "complete":
            missing = [c for c in H["covers"] if str(c) not in r["covers"]]
            if missing:
                problems.append("%s: witnesses %s not reached" % (n, missing))
        if r["paths"] == 0 or r["completed"] == 0 and not r["failures"]:
            problems.append("%s: nothing explored" % n)
        # Agreement of the executor with the native code, on paths taken from this run.
        if not H.get("threads"):
            for i, s in enumerate(r["samples"][seed % 3::3][:4]):
                f = os.path.join(scratch, "sample")
                write_inputs(f, s)
                rc, o = native(exe, n, f, log=True)
                if rc == 0 and "SX_OK" in o:
                    if i == 0:
                        rc2, o2 = concrete(ll, n, {"inputs": s})
                        a = sorted({l for l in o.splitlines() if l.startswith("cover ")})
                        b = sorted({l for l in o2.splitlines() if l.startswith("cover ")})
                        if rc2 != 0 or a != b:
                            problems.append("%s: executor and native run disagree: %s / %s" % (n, a, b))
                            diverged += 1
                            continue
                    validated += 1
                else:
                    diverged += 1
                    problems.append("%s: passing path fails natively: %s %s" % (n, rc, o[-200:]))
        if r["samples"] and len(samples) < 6:
            samples.append({"harness": n, "inputs": [v for _, v in r["samples"][0]]})
    wall = time.time() - T0
    tot = lambda k: sum(t[k] for t in table)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the compiled (release, overflow-checked) LLVM IR of /repo's current "
                           "sources linked with the protocol models; states = path states forked, transitions = IR "
                           "instructions executed on symbolic states, every branch and assertion decided by Z3.",
            "states": tot("forks") + len(table),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "paths": tot("paths"),
            "solver_queries": tot("queries"),
            "solver_sat": tot("sat"),
            "solver_unsat": tot("unsat"),
            "decided_by_cached_model": tot("cache_hits"),
            "solver_s": round(tot("solver_s"), 3),
            "exhaustive": bool(table) and all(t["exhausted"] for t in table) and len(table) == len(names),
            "functions_encoded": sorted(functions),
            "lines_not_reached": {k: sorted(v) for k, v in sorted(lines.items())},
            "harnesses": table,
            "known_findings_seen": sorted(known_hit),
            "problems": problems,
        },
        "assumptions": P["assumptions"],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if tier == "thorough":
        ev["coverage"]["second_solver"] = dict(zip(("agree", "differ", "unknown"), cross))
        if cross[1]:
            problems.append("second solver disagrees on %d queries" % cross[1])
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", scratch])
    if found:
        print("VIOLATION property=%s replay=%s" % (prop, found[0]))
        sys.exit(1)
    if problems:
        inconclusive("\n  ".join(problems))
    print("OK %s: %d harnesses, %d paths, %d IR instructions, %d solver queries (%.1f s), %d replayed natively, %.1f s"
          % (prop, len(table), tot("paths"), tot("steps"), tot("queries"), tot("solver_s"), validated, wall))


if __name__ == "__main__":
    main()
