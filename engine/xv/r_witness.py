"""C24: programs that must compile and twins of them that must not (type-level witnesses, checked by rustc against the current source)."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build
from .core import Violation

DIR = os.path.join(build.VERIF, "engine/witness")


def load():
    sp = importlib.util.spec_from_file_location("witnesses", os.path.join(DIR, "witnesses.py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def lib():
    """compiles the current library; -> (paths of the crates to link, directory of their dependencies)"""
    tgt = os.path.join(build.B, "target-w" if build.REPO == "/repo" else "target-w-alt")
    d = DIR
    if build.REPO != "/repo":
        d = os.path.join(build.B, "witness-alt")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(DIR, d)
        f = os.path.join(d, "Cargo.toml")
        s = open(f).read().replace("../../../repo/", build.REPO + "/")
        open(f, "w").write(s)
    env = dict(CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", RUSTFLAGS="--cap-lints allow")
    r = build.sh(["cargo", "check", "--offline", "--message-format", "json"], env=env, cwd=d)
    ext = {}
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        if j.get("reason") == "compiler-artifact":
            n = j["target"]["name"].replace("-", "_")
            if n in ("xtra", "xtra_macros", "futures_util"):
                ext[n] = [x for x in j["filenames"] if x.endswith((".rmeta", ".so"))][0]
    if r.returncode or len(ext) != 3:
        raise build.BuildError("the library does not compile: " + r.stdout[-2000:])
    return ext, os.path.join(tgt, "debug", "deps")


def rustc(src, ext, deps, dirname):
    f = tempfile.NamedTemporaryFile("w", suffix=".rs", dir=dirname, delete=False)
    f.write(src)
    f.close()
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit", "metadata", "--error-format", "json",
           "-o", f.name + ".rmeta", "-L", "dependency=" + deps, f.name]
    for n, p in ext.items():
        cmd += ["--extern", "%s=%s" % (n, p)]
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    errs = []
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            j = json.loads(l)
            if j.get("level") == "error" and j.get("spans"):
                errs.append((j["message"], [s["line_start"] for s in j["spans"]], (j.get("code") or {}).get("code")))
    return r.returncode, errs, r.stdout


MARK = re.compile(r"\{\{(.*?)\|\|(.*?)\}\}", re.S)


def derived(pid, tier):
    M = load()
    return check(pid, M.DPRE, M.D)


def witnesses(pid, tier):
    M = load()
    return check(pid, M.PRE, M.W)


def check(pid, PRE, W):
    ext, deps = lib()
    viol, n, neg = [], 0, 0
    tmp = tempfile.mkdtemp(dir=build.B)
    jobs = []
    for name, code, why, pre in W:
        p = PRE if pre else ""
        jobs.append((name, why, False, p, MARK.sub(lambda m: m.group(1), code)))
        if MARK.search(code):
            jobs.append((name, why, True, p, MARK.sub(lambda m: m.group(2), code)))

    def one(j):
        name, why, bad, p, code = j
        rc, errs, out = rustc(p + "\n" + code + "\n", ext, deps, tmp)
        return j, rc, errs, out
    # the common part alone
    rc, errs, out = rustc(PRE, ext, deps, tmp)
    if rc:
        viol.append(Violation(pid, "compiles", "common", "ordinary uses of the library no longer compile: %s" % "; ".join(e[0] for e in errs)[:400], "witnesses.py"))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs)) if not rc else []
    shutil.rmtree(tmp, ignore_errors=True)
    good = {}
    for (name, why, bad, p, code), rc, errs, out in res:
        if not bad:
            good[name] = rc == 0
            n += 1
            if rc:
                viol.append(Violation(pid, "compiles", name, "a correct program does not compile%s: %s" % (
                    "" if MARK.search(next(w[1] for w in W if w[0] == name)) else " (%s)" % why, "; ".join(e[0] for e in errs)[:400]), code.strip()[:300]))
    for (name, why, bad, p, code), rc, errs, out in res:
        if not bad or not good.get(name):
            continue
        n += 1
        neg += 1
        first = p.count("\n") + 2
        if rc == 0:
            viol.append(Violation(pid, "rejected", name, "this compiles: " + why, code.strip()[:300]))
        elif not any(l >= first for e in errs for l in e[1]):
            viol.append(Violation(pid, "rejected", name + ":elsewhere", "rejected for an unrelated reason: %s" % "; ".join(e[0] for e in errs)[:300], code.strip()[:300]))
    info = dict(rule="every witness program compiles against the current source and its twin, which misuses the library in one place, is rejected there",
                obligations=n, discharged=n - len(viol), programs_that_must_compile=n - neg, programs_that_must_be_rejected=neg,
                witnesses=[dict(name=w[0], forbids=w[2] if MARK.search(w[1]) else None) for w in W])
    return viol, info
