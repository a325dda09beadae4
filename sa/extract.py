"""Builds the compiler driver and extracts the program's MIR from /repo's working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("OB_REPO", "/repo")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", ".build")]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def nightly(what):
    c, o = sh(["rustc", "+nightly", "--print", what])
    if c:
        raise RuntimeError("nightly toolchain: " + o)
    return o.strip()


def driver():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    out = os.path.join(BUILD, "obdriver-" + digest([src]))
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        c, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-Cdebuginfo=0", "-o", tmp, src])
        if c:
            raise RuntimeError("building the compiler driver failed:\n" + o)
        os.rename(tmp, out)
    return out


WRAP = """#!/bin/bash
# Presents the nightly compiler as a stable one to dependencies' build scripts.
R=%s/bin/rustc
case " $* " in
  *" -vV "*|*" --version "*|*" -V "*) "$R" "$@" | sed 's/-nightly//' ;;
  *) exec "$R" "$@" ;;
esac
"""


def harness_for(repo):
    """the harness crate, pointing at the tree under analysis"""
    h = os.path.join(VERIF, "harness")
    if repo == "/repo":
        return h
    d = os.path.join(BUILD, "harness-" + hashlib.sha256(repo.encode()).hexdigest()[:12])
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(h, d)
    p = os.path.join(d, "Cargo.toml")
    s = open(p).read().replace("/repo/", repo.rstrip("/") + "/")
    open(p, "w").write(s)
    return d


def setup():
    os.makedirs(BUILD, exist_ok=True)
    sysroot = nightly("sysroot")
    w = os.path.join(BUILD, "rustc")
    text = WRAP % sysroot
    if not os.path.exists(w) or open(w).read() != text:
        open(w, "w").write(text)
        os.chmod(w, 0o755)
    return driver(), w, sysroot


def dump(repo=None):
    """path of the MIR dump of the current tree"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, wrap, sysroot = setup()
        src = os.path.join(repo, "programs", "openbook-v2", "src")
        if not os.path.isdir(src):
            raise RuntimeError("no program source at " + src)
        key = digest(tree(src, (".rs",)) + tree(os.path.join(VERIF, "harness"), (".rs", ".toml", ".lock")) + [drv])
        out = os.path.join(BUILD, "mir-%s.json" % key)
        if os.path.exists(out):
            return out
        h = harness_for(repo)
        target = os.path.join(BUILD, "target")
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("openbook-v2-"):
                    shutil.rmtree(os.path.join(fp, n))
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=target, RUSTC=wrap, OBDRIVER_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_INCREMENTAL="0")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        c, o = sh(["cargo", "+1.70.0", "check", "--offline", "--locked"], cwd=h, env=env)
        if c and os.path.exists(out):
            os.unlink(out)
        if not os.path.exists(out):
            raise RuntimeError("extracting the program failed:\n" + o[-6000:])
        # keep a few recent dumps only
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("mir-") and x.endswith(".json")), key=os.path.getmtime)
        for x in ds[:-12]:
            os.unlink(x)
        return out


if __name__ == "__main__":
    print(dump(sys.argv[1] if len(sys.argv) > 1 else None))
