"""rr.py MODULE CLASS[:kw=val] [entries...] [-p]: run one rule (development)"""
import sys, time, os, importlib, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from xv import core, build
P = "-p" in sys.argv
av = [a for a in sys.argv[1:] if a != "-p"]
mod = importlib.import_module("xv." + av[0])
cls, _, kw = av[1].partition(":")
A = core.Analysis(build.facts(os.environ.get("VAR", "")))
A.counters()
m = getattr(mod, cls)(A, **dict(x.split("=") for x in kw.split(",") if x))
m.tier = "quick"
def work(e):
    t = time.time()
    A.log = []; A.imprec = set()
    m.viol, m.instances, m.paths, m.skipped, m.obl = [], 0, 0, 0, set()
    err = ""
    try:
        m.run_entry(e)
    except Exception:
        import traceback
        err = traceback.format_exc(limit=-5)
    l = A.log[-1] if A.log else {}
    return e, m.viol, m.instances, m.skipped, sorted(m.obl), l.get("steps"), l.get("exhausted"), time.time() - t, err, m.data, sorted(A.imprec)
es = [e for e in (av[2:] or m.entries)]
for e in es:
    if m.missing(e): print("MISSING", e)
es = [e for e in es if not m.missing(e)]
with multiprocessing.Pool(8) as p:
    rs = []
    for r in p.imap_unordered(work, sorted(es, key=lambda e: -m.weight(e)), 1):
        e, viol, n, sk, obl, st, ex, t, err, data, imp = r
        rs.append(dict(entry=e, viol=viol, data=data))
        print(e, "inst", n, "skip", sk, "steps", st, "EXH" if ex else "", "%.1fs" % t, " ".join(str(o[1]) for o in obl), str(imp)[:200] if imp else "")
        if err: print(err[-1500:])
        for v in viol:
            print("  VIOL", v.key, v.msg[:200], v.where)
            if P:
                for x in v.path[-45:]: print("      ", x[:160])
m.viol = []
m.combine(rs)
for v in m.viol: print("  VIOL", v.key, v.msg[:300])
