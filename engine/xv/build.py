"""Builds the driver and extracts the facts (monomorphic MIR) of /repo's current working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("XV_REPO", "/repo")
B = os.path.join(VERIF, ".build")


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_INCREMENTAL", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, dn, fn in os.walk(p):
                dn[:] = sorted(x for x in dn if x not in ("target", ".git", "__pycache__"))
                fs += [os.path.join(d, f) for f in sorted(fn)]
        for f in fs:
            h.update(f.encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return _sysroot


def driver():
    os.makedirs(B, exist_ok=True)
    src = os.path.join(VERIF, "engine/driver/main.rs")
    out = os.path.join(B, "xv-driver-" + tree_hash([src])[:10])
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        if r.returncode:
            raise BuildError("driver: " + r.stdout[-2000:])
        os.rename(tmp, out)
    return out


def facts(var=""):
    """path of the facts of the current tree, for one variant of the program ("", "instr", "extra")"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    drv = driver()
    har = os.path.join(VERIF, "engine/harness")
    key = tree_hash([os.path.join(REPO, "xtra"), os.path.join(REPO, "macros"), os.path.join(REPO, "Cargo.toml"), har, drv])
    out = os.path.join(B, "facts-%s%s.json" % (key, "-" + var if var else ""))
    if os.path.exists(out):
        return out
    tgt = os.path.join(B, "target")
    h2 = har
    if REPO != "/repo":
        # development only: the same harness against another checkout
        h2 = os.path.join(B, "harness-alt")
        shutil.rmtree(h2, ignore_errors=True)
        shutil.copytree(har, h2)
        f = os.path.join(h2, "Cargo.toml")
        s = open(f).read().replace("../../../repo/", REPO + "/")
        open(f, "w").write(s)
        tgt = os.path.join(B, "target-alt")
    tmp = out + ".tmp%d" % os.getpid()
    env = dict(LD_LIBRARY_PATH=sysroot() + "/lib", XV_OUT=tmp, RUSTC_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
               CARGO_INCREMENTAL="0", RUSTFLAGS="--cfg rustix_use_libc -Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow")
    sh(["cargo", "+nightly", "clean", "--offline", "-p", "xtra", "-p", "xv_harness"], env=env, cwd=h2)
    r = sh(["cargo", "+nightly", "check", "--offline"] + (["--features", var] if var else []), env=env, cwd=h2)
    if not os.path.exists(tmp):
        raise BuildError("analysis build failed: " + r.stdout[-3000:])
    # keep only the newest facts
    for f in os.listdir(B):
        if f.startswith("facts-") and not f.startswith("facts-" + key):
            try:
                os.unlink(os.path.join(B, f))
            except OSError:
                pass
    os.rename(tmp, out)
    return out


if __name__ == "__main__":
    print(facts(sys.argv[1] if len(sys.argv) > 1 else ""))
