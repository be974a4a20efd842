"""Builds the symbolic executor, the replay runtime and the harness crates; everything that depends on
/repo is rebuilt whenever a byte of its sources changed."""
import contextlib
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SX = os.path.join(BUILD, "sx", "release", "sx")
RT = os.path.join(BUILD, "sxrt.o")
FLAGS = [
    "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
    # Tables of addresses instead of tables of offsets.
    "-C", "relocation-model=static",
    "-C", "link-arg=" + RT, "-C", "link-arg=-lpthread",
]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    files = []
    for p in paths:
        if os.path.isfile(p):
            files.append(p)
        for d, dirs, names in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            files += [os.path.join(d, n) for n in names]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as r:
            h.update(hashlib.sha256(r.read()).digest())
    return h.hexdigest()


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


def tools():
    """The executor and the native side of its interface (independent of /repo)."""
    with lock("tools"):
        want = digest([VERIF + "/sx/src", VERIF + "/sx/Cargo.toml", VERIF + "/sx/Cargo.lock", VERIF + "/rt"])
        stamp = os.path.join(BUILD, "tools.stamp")
        if read(stamp) == want and os.path.exists(SX) and os.path.exists(RT):
            return
        run(["cargo", "build", "--release", "--target-dir", os.path.join(BUILD, "sx")], cwd=VERIF + "/sx")
        run(["gcc", "-O1", "-c", VERIF + "/rt/sxrt.c", "-o", RT])
        with open(stamp, "w") as f:
            f.write(want)


def sources():
    return [REPO + "/" + d for d in ("src", "proxy", "tag-generator", "Cargo.toml")]


_bin = None


def llvm_bin():
    global _bin
    if _bin is None:
        root = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
        _bin = root + "/lib/rustlib/x86_64-unknown-linux-gnu/bin"
    return _bin


def harness(crate):
    """Compiles the harness crate against /repo's working tree. Returns (IR file, native binary)."""
    tools()
    src = os.path.join(VERIF, "harness", crate)
    out = os.path.join(BUILD, crate)
    ll = os.path.join(out, crate + ".ll")
    target = os.path.join(out, "target")
    exe = os.path.join(out, crate)
    with lock(crate):
        os.makedirs(out, exist_ok=True)
        want = digest(sources() + [src, VERIF + "/models"], read(os.path.join(BUILD, "tools.stamp")) + " ".join(FLAGS))
        stamp = os.path.join(out, "stamp")
        if read(stamp) == want and os.path.exists(ll) and os.path.exists(exe):
            return ll, exe
        if os.path.exists(stamp):
            os.unlink(stamp)
        # Cargo compares modification times; a changed tree may carry old ones.
        for pat in ("imap-next", "imap_next", "tag-generator", "tag_generator", crate):
            for f in glob.glob("%s/release/.fingerprint/%s-*" % (target, pat)):
                shutil.rmtree(f, ignore_errors=True)
        for f in glob.glob("%s/release/deps/%s-*" % (target, crate)):
            os.unlink(f)
        run(["cargo", "rustc", "--release", "--locked", "--target-dir", target, "--"] + FLAGS, cwd=src)
        bc = glob.glob("%s/release/deps/%s-*-cgu.0.rcgu.bc" % (target, crate)) or \
            glob.glob("%s/release/deps/%s-*.rcgu.bc" % (target, crate))
        if len(bc) != 1:
            raise BuildError("expected one bitcode file, found %r" % bc)
        built = "%s/release/%s" % (target, crate)
        names = subprocess.run([built, "--list"], capture_output=True, text=True).stdout.split()
        run([llvm_bin() + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(names),
             "-S", bc[0], "-o", ll])
        shutil.copy2(built, exe)
        for f in glob.glob("%s/release/deps/%s-*.bc" % (target, crate)) + glob.glob("%s/release/deps/%s-*.o" % (target, crate)):
            os.unlink(f)
        with open(stamp, "w") as f:
            f.write(want)
        return ll, exe


if __name__ == "__main__":
    for c in sys.argv[1:]:
        print(harness(c))
