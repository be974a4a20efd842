#!/usr/bin/env python3
"""mkdemo.py ID: completes seeded/ID/{patch.diff,meta.json,kind,demo/src/main.rs} and confirms the planted bug:
demo passes without the patch, fails with it, build and stable tests still pass."""
import json, os, shutil, subprocess, sys
V = "/verif"
KINDS = {"core": ["imap-codec", "imap-types", "bounded-static", "tracing"]}
KINDS["tag"] = ["tag-types", "rand"]
KINDS["proxy"] = ["imap-codec", "imap-types", "bounded-static", "tracing", "tokio", "tokio-rustls", "rustls", "argh", "attrs", "colored", "rustls-native-certs", "rustls-pemfile", "tracing-subscriber"]
KINDS["stream"] = KINDS["core"] + ["tokio", "tokio-rustls", "rustls"]

def make(id):
    dst = f"{V}/seeded/{id}"
    kind = open(dst + "/kind").read().strip()
    shutil.rmtree(dst + "/models", ignore_errors=True)
    os.makedirs(dst + "/demo/src", exist_ok=True)
    shutil.copy(f"{V}/tools/demo/demo.sh", dst)
    if kind == "proxy":
        shutil.copy(f"{V}/tools/demo/proxy_main.rs", dst + "/demo/src/main.rs")
        for f in ("vp_world.rs", "vp_peer.rs"): shutil.copy(f"{V}/harness/hproxy/src/{f}", dst + "/demo/src/")
    else: shutil.copy(f"{V}/tools/demo/prelude.rs", dst + "/demo/src/prelude.rs")
    extra = f"{V}/tools/demo/{kind}.rs"
    if kind == "tag": shutil.copy(extra, dst + "/demo/src/prelude.rs"); extra = ""
    if kind != "proxy" and os.path.exists(extra):
        t = open(dst + "/demo/src/prelude.rs").read()
        if kind != "core": t = t.replace("pub fn plain(", "pub fn plain_command(").replace("    plain(", "    plain_command(")
        open(dst + "/demo/src/prelude.rs", "w").write(t + open(extra).read())
    shutil.copy(f"{V}/tools/demo/{kind}.toml", dst + "/demo/Cargo.toml")
    for m in KINDS[kind]:
        shutil.copytree(f"{V}/models/{m}", f"{dst}/models/{m}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    shutil.copytree(f"{V}/models/nd", f"{dst}/models/nd", ignore=shutil.ignore_patterns("target", "Cargo.lock", "src"))
    os.makedirs(f"{dst}/models/nd/src"); shutil.copy(f"{V}/tools/demo/nd.rs", f"{dst}/models/nd/src/lib.rs")

def confirm(id):
    d = f"{V}/seeded/{id}"
    R = "/repo"
    def demo(): 
        p = subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True)
        return p.returncode, "\n".join(l for l in (p.stdout + p.stderr).split("\n") if l.strip())[-700:]
    a = demo()
    subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
    try:
        b = demo()
        build = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        test = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/t.json"], capture_output=True, text=True)
        res = open("/tmp/t.json").read() if os.path.exists("/tmp/t.json") else ""
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
    subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
    ok = a[0] == 0 and b[0] not in (0, 3) and build.returncode == 0 and '"failed": []' in res.replace("\n", "") or None
    print(id, "clean", a[0], "patched", b[0], [l for l in b[1].split("\n") if "FAIL" in l or l.startswith("assert") or "panicked" in l or "lost" in l][:3], "build", build.returncode, "tests", res[:200].replace("\n", " "))
    if a[0] != 0 or b[0] in (0, 3): print(a[1], b[1])

for i in sys.argv[1:]:
    make(i); confirm(i)
