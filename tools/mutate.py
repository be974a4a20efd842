#!/usr/bin/env python3
"""Mutation testing of the checks (development only): mutate.py LANE LANES OUT [FILE...]

Works on a copy of /repo and of /verif in /tmp/mut-LANE. For each mutant of the given source files that
compiles, runs the quick harnesses of the crates the file belongs to until one fails."""
import json
import os
import re
import shutil
import subprocess
import sys

lane, lanes, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
files = sys.argv[4:]
BASE = "/tmp/mut-%d" % lane
REPO, V = BASE + "/repo", BASE + "/verif"
CRATES = {"src/stream.rs": ["hstream"], "tag-generator/src/lib.rs": ["htag"]}


def setup():
    if os.path.isdir(BASE):
        return
    os.makedirs(BASE)
    subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
    shutil.copytree(os.environ.get("FROM", "/verif"), V, ignore=shutil.ignore_patterns("seeded", ".git", "replay"), symlinks=True)
    for d, dirs, names in os.walk(V):
        dirs[:] = [x for x in dirs if x not in ("build", "target", "sx")]
        for n in names:
            p = os.path.join(d, n)
            if p.endswith((".rs", ".toml", ".py", ".lock")):
                s = open(p, errors="surrogateescape").read()
                t = re.sub(r'/repo(?=["/])', REPO, s)
                if t != s:
                    open(p, "w", errors="surrogateescape").write(t)


OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" > ", " < "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r"\+= ", "-= "), (r"-= ", "+= "),
    (r"\+= (?!1)", "= "), (r" \+ ", " - "), (r" - ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"!self\.", "self."),
    (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"ControlFlow::Abort", "ControlFlow::Continue"), (r"ControlFlow::Continue", "ControlFlow::Abort"),
    (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"\bsaturating_sub\b", "wrapping_sub"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"=> true", "=> false"), (r"=> false", "=> true"), (r"\bSome\((?=[a-z_.]+\))", "None.or(None::<()>).map(|_| "),
    (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\b(\d\d+)\b", r"(\1 / 2)"),
    (r"Some\([a-z_.:A-Z()]+\)", "None"), (r"\.take\(\)", ".clone()"), (r"Ok\(None\)", "Err(Interrupt::Io(Io::NeedMoreInput))"),
    (r"Ok\(Some\(event\)\)", "Ok(None)"), (r"StatusKind::No\b", "StatusKind::Ok"), (r"Sync\b", "NonSync"), (r"NonSync\b", "Sync"),
    (r"Status::bad", "Status::no"), (r"\bfetch_add\b", "fetch_or"), (r"\.clear\(\)", ".len()"), (r"literal_accept", "literal_reject"), (r"literal_reject", "literal_accept"),
    (r"NextExpectedMessage::Command\b", "NextExpectedMessage::IdleDone"), (r"NextExpectedMessage::IdleDone\b", "NextExpectedMessage::Command"),
    (r"NextExpectedMessage::AuthenticateData\b", "NextExpectedMessage::Command"), (r"NextExpectedMessage::IdleAccept\b", "NextExpectedMessage::IdleDone"),
    (r"finish_message\(\)", "discard_message()"), (r"discard_message\(\)", "discard_message()[..0].into()"),
]


def mutants(path):
    lines = open(os.path.join(REPO, path)).read().split("\n")
    skip = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "cfg(test)" in s:
            break
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "trace!", "error!", "warn!", "info!", "debug!", "assert!")):
            continue
        code = l.split("// ")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if "[0; " in code or code[:m.start()].count('"') % 2:
                    continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                yield "\n".join(lines[:i] + [new] + lines[i + 1:]), "%s:%d: %s -> %s" % (path, i + 1, s, new.strip())
        # Statements deleted
        if re.match(r"^\s*(self|\*?[a-z_.]+)(\.[a-z_]+)*(\(|\s*[-+]?=\s|\.).*;$", l) and not s.startswith(("let", "return", "pub", "mod")):
            yield "\n".join(lines[:i] + lines[i + 1:]), "%s:%d: deleted %s" % (path, i + 1, s)
        # Statements over two lines deleted
        if i + 1 < len(lines) and not s.endswith((";", "{", ",", "}", "(")) and lines[i + 1].strip().startswith(".") and lines[i + 1].strip().endswith(";") \
                and re.match(r"^(self|[a-z_]+)(\.[a-z_]+)*$", s):
            yield "\n".join(lines[:i] + lines[i + 2:]), "%s:%d: deleted %s %s" % (path, i + 1, s, lines[i + 1].strip())
        # Match arms' order and returns are left alone; early returns deleted
        if re.match(r"^\s*return .*;$", l):
            yield "\n".join(lines[:i] + lines[i + 1:]), "%s:%d: deleted %s" % (path, i + 1, s)


def main():
    setup()
    sys.path.insert(0, V + "/lib")
    import build
    import registry
    quick = {n for p in registry.PROPS.values() for n in p["quick"]}
    times = json.load(open("/tmp/mut-times.json")) if os.path.exists("/tmp/mut-times.json") else {}
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["mutant"] for l in open(out)}
    with open(out, "a") as o:
        for path in files:
            full = os.path.join(REPO, path)
            clean = open(full).read()
            for n, (text, name) in enumerate(list(mutants(path))):
                if n % lanes != lane or name in done:
                    continue
                crates = CRATES.get(path) or (["hproxy"] if path.startswith("proxy") else ["hcore"])
                open(full, "w").write(text)
                res = "SURVIVED"
                try:
                    for c in crates:
                        try:
                            ll, exe = build.harness(c)
                        except build.BuildError:
                            res = "nocompile"
                            break
                        hs = [h for h in quick if registry.HARNESSES[h]["crate"] == c]
                        hs.sort(key=lambda h: times.get(h, 5))
                        for h in hs:
                            H = registry.HARNESSES[h]
                            cmd = ["nice", "-n", "10", build.SX, "run", ll, "h_" + h, "--out", BASE + "/r.json", "--workers", "3",
                                   "--time", os.environ.get("CAP", "40")] + (["--fuel", str(H["fuel"])] if "fuel" in H else [])
                            p = subprocess.run(cmd, capture_output=True)
                            try:
                                r = json.load(open(BASE + "/r.json"))
                            except Exception:
                                res = "executor " + h
                                continue
                            if r["failures"]:
                                res = "killed %s: %s" % (h, r["failures"][0]["msg"][:100])
                                break
                            if r["status"] == "complete":
                                miss = [x for x in H["covers"] if str(x) not in r["covers"]]
                                if miss:
                                    res = "uncovered %s %s" % (h, miss)
                            elif r["errors"] or r["status"] != "timeout":
                                res = "error %s %s" % (h, r["errors"][:1])
                        if res.startswith("killed"):
                            break
                finally:
                    open(full, "w").write(clean)
                o.write(json.dumps(dict(mutant=name, result=res)) + "\n")
                o.flush()


main()
