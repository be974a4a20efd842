#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/registry.py."""
import json
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import registry as R  # noqa: E402

with open(V + "/properties.jsonl", "w") as f:
    for i, p in R.PROPS.items():
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": R.OVER.get(i, ["inputs", "histories"]), "text": p["domain"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]],
                        "observe_at": ["bytes on the sockets"] if p["files"][0].startswith("proxy") else ["public API"], "hook_needed": None},
        }) + "\n")

checks, na = [], []
for i, p in R.PROPS.items():
    if not p["quick"]:
        na.append({"property": i, "reason": p["note"]})
        continue
    b = "; ".join("%s: %s" % (h, R.HARNESSES[h]["bounds"]) for h in p["quick"])
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the compiled LLVM IR of the real code, decided by Z3",
        "level": p["level"],
        "level_note": ("Holds for every value and interleaving within the bounds; nothing is claimed outside them. Bounds: %s. Trusted: the "
                       "executor (cross-checked against native runs), rustc/LLVM, Z3, the models of the crates that are not available. %s")
        % (b, p["note"]),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 lib/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the harness crates use the public API and include the sources of the binary crate by path",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md.",
}, open(V + "/MANIFEST.json", "w"), indent=1)

# DESIGN.md: the template with the tables filled in.
ORACLES = R.ORACLES
out = []
for i, p in R.PROPS.items():
    if not p["quick"]:
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* Code: %s.\n* Oracle: %s\n* Why tests cannot settle it: %s" % (", ".join(p["files"]), ORACLES.get(i, ""), p["why"]))
    for t in ("quick", "thorough"):
        if p[t]:
            out.append("* %s bounds:" % t.capitalize())
            out += ["  * `%s`: %s" % (h, R.HARNESSES[h]["bounds"]) for h in p[t]]
    out.append("")
na_text = ["* %s %s: %s" % (i, p["title"], p["note"]) for i, p in R.PROPS.items() if not p["quick"]]
res = {}
if os.path.exists(V + "/tools/results.txt"):
    for line in open(V + "/tools/results.txt"):
        w = line.split(None, 2)
        res[w[0]] = line
bugs = ["| change | property | needs | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    r = res.get(d, "")
    by = r.split("-")
    what = "not run" if not r else ("caught: `%s`" % r.split("replay=")[1].split("/")[-1].split("-")[1] if "VIOLATION" in r else "missed")
    bugs.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["needs"], what))
t = open(V + "/DESIGN.in.md").read()
for k, v in (("PROPS", out), ("BUGS", bugs), ("NOT", na_text + R.NOT)):
    t = t.replace("@@%s@@" % k, "\n".join(v))
open(V + "/DESIGN.md", "w").write(t)
