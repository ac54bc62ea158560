"""Makes and verifies planted bugs.   seed.py SPEC.py [id ...]
SPEC.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], main=RUST[, features=[..]])]
Everything happens in a scratch copy of /repo; a seed is kept only when it builds, passes the stable tests, and its
demonstration passes without and fails with the change."""
import json, os, re, shutil, subprocess, sys

WT = "/tmp/w/wt"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$PWD/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xtra = { path = "$PWD/xtra", features = [%s] }
futures-util = "0.3"
smol = "1"
waker-fn = "1"
%s
[workspace]
END
export CARGO_TARGET_DIR="$d/target"
cargo build --quiet --offline --manifest-path "$d/Cargo.toml" >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
timeout -k 5 60 "$d/target/debug/demo"
'''


def sh(cmd, cwd=WT, ok=True, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    if ok and r.returncode:
        raise SystemExit("FAILED %s\n%s" % (cmd, r.stdout[-3000:]))
    return r


def fresh():
    if not os.path.isdir(WT):
        sh("cp -a /repo %s" % WT, cwd="/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def tests():
    """names of the stable tests that do not pass"""
    src = open("/opt/vp/test.sh").read().replace("/repo", WT).replace("/opt/vp/logs", "/tmp/w/logs")
    open("/tmp/w/test.sh", "w").write(src)
    b = open("/opt/vp/build.sh").read().replace("/repo", WT)
    open("/tmp/w/build.sh", "w").write(b)
    r = sh("bash /tmp/w/build.sh", ok=False)
    if r.returncode:
        return ["BUILD FAILED " + r.stdout[-2000:]]
    sh("bash /tmp/w/test.sh /tmp/w/out.json", ok=False)
    got = json.load(open("/tmp/w/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("tests") or base.get("passed") or base
    ok = set(got.get("passed") or got.get("pass") or [k for k, v in got.items() if v in ("pass", "passed", True)])
    return sorted(set(want) - ok)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        if os.path.exists(os.path.join(d, "patch.diff")) and not only:
            continue
        fresh()
        w = "/tmp/w/seed"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        open(w + "/main.rs", "w").write(s["main"])
        open(w + "/demo.sh", "w").write(DEMO % (", ".join('"%s"' % f for f in s.get("features", ["macros"])), s.get("deps", "")))
        os.chmod(w + "/demo.sh", 0o755)
        r = sh("%s/demo.sh" % w, ok=False)
        if r.returncode:
            print(s["id"], "DEMO FAILS WITHOUT THE CHANGE", r.returncode, r.stdout[-1500:])
            continue
        bad = False
        for f, a, b in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s["id"], "edit matches", t.count(a), "times:", a[:60])
                bad = True
                break
            open(p, "w").write(t.replace(a, b))
        if bad:
            continue
        patch = sh("git diff").stdout
        r = sh("%s/demo.sh" % w, ok=False)
        if r.returncode == 0 or r.returncode == 3 and not s.get("compile"):
            print(s["id"], "DEMO DOES NOT FAIL WITH THE CHANGE", r.returncode, r.stdout[-1500:])
            continue
        out = r.stdout[-200:].strip().replace("\n", " | ")
        miss = tests()
        if miss:
            print(s["id"], "TESTS", str(miss)[:1500])
            continue
        os.makedirs(d, exist_ok=True)
        open(w + "/patch.diff", "w").write(patch)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(w + "/meta.json", "w"), indent=1)
        for f in ("main.rs", "demo.sh", "patch.diff", "meta.json"):
            shutil.copy(w + "/" + f, d)
        print(s["id"], "KEPT (demo exit %d: %s)" % (r.returncode, out), flush=True)
    fresh()


main()
