"""Runs the rules of one property over the facts of the current tree, writes the evidence, reports."""
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

from . import build
from . import core
from . import interp
from . import props

VERIF = build.VERIF
_A = None
_M = None


def _limit(gb):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30 if gb else resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def _work(task):
    mi, entry = task
    m = _M[mi]
    t = time.time()
    A = m.A
    A.log, A.imprec, A.fns, A.sites = [], set(), set(), set()
    m.viol, m.instances, m.paths, m.skipped, m.obl = [], 0, 0, 0, set()
    err = None
    try:
        m.run_entry(entry)
    except Exception:
        err = traceback.format_exc(limit=-4)
    return dict(mi=mi, entry=entry, viol=m.viol, instances=m.instances, paths=m.paths, skipped=m.skipped,
                obl=sorted(map(str, m.obl)), log=A.log, imprec=sorted(A.imprec), fns=sorted(A.fns), sites=len(A.sites),
                err=err, wall=round(time.time() - t, 2), kinds=sorted(map(str, A.shutdown_kinds)), data=m.data)


def rules_of(pid, tier, A):
    out = []
    for mod, cls, kw in props.PROPS[pid]["rules"]:
        kw = dict(kw)
        only = kw.pop("tier", None)
        if only and only != tier:
            continue
        pre = kw.pop("entries", None)
        C = getattr(importlib.import_module("xv." + mod), cls)
        m = C(A, **kw)
        m.tier = tier
        m.prop = pid
        if pre:
            m.entries = tuple(e for e in m.entries if any(e.startswith(x) for x in pre))
        out.append(m)
    return out


def known():
    try:
        d = json.load(open(os.path.join(VERIF, "known-findings.json")))
        return d.get("findings", [])
    except FileNotFoundError:
        return []


def main(pid, tier):
    global _A, _M
    t0 = time.time()
    interp.DEADLINE = t0 + (800 if tier == "quick" else 7200)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    viol, results, notes = [], [], []
    statics = [x for x in P.get("static", ())]
    variants = P.get("variants", ("",))
    broken = None
    for var in variants:
        if not P["rules"]:
            break
        _limit(0)
        try:
            A = core.Analysis(build.facts(var))
        except build.BuildError as e:
            broken = e
            continue
        try:
            _limit(8)
            A.counters()
            _A, _M = A, rules_of(pid, tier, A)
        except Exception:
            notes.append("roles of the data: %s" % traceback.format_exc(limit=-4))
            continue
        tasks = []
        for i, m in enumerate(_M):
            for e in m.entries:
                if m.missing(e):
                    continue
                tasks.append((i, e))
        tasks.sort(key=lambda t: -_M[t[0]].weight(t[1]))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(8, max(1, len(tasks))), _limit, (4,)) as pool:
            for r in pool.imap_unordered(_work, tasks, 1):
                r["variant"] = var
                results.append(r)
                for v in r["viol"]:
                    v.entry = (var + " " if var else "") + v.entry
                    viol.append(v)
        # rules over the results of several entries
        for i, m in enumerate(_M):
            m.viol = []
            try:
                m.combine([r for r in results if r["mi"] == i and r["variant"] == var])
            except Exception:
                notes.append("%s: %s" % (m.rule, traceback.format_exc(limit=-4)))
            viol.extend(m.viol)
    extra = []
    _limit(0)
    for mod, fn in statics:
        try:
            f = getattr(importlib.import_module("xv." + mod), fn)
            vs, info = f(pid, tier)
            viol.extend(vs)
            extra.append(info)
        except build.BuildError as e:
            broken = e
            extra.append(dict(error=str(e)[-500:]))
        except Exception:
            notes.append("%s: %s" % (fn, traceback.format_exc(limit=-4)))
    uniq = {}
    for v in viol:
        uniq.setdefault(v.key, v)
    kf = {k["key"]: k for k in known() if k["property"] == pid}
    new = [v for k, v in sorted(uniq.items()) if k not in kf]
    old = [v for k, v in sorted(uniq.items()) if k in kf]
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rp = os.path.join(evd, pid + ".report.txt")
    with open(rp, "w") as f:
        for v in new + old:
            f.write("%s\n  %s\n  rule: %s   at: %s   entry: %s\n" % (v.key, v.msg, v.rule, v.where, v.entry))
            for line in v.path:
                f.write("      %s\n" % line)
            f.write("\n")
    ob = set()
    for r in results:
        for o in r["obl"]:
            ob.add((r["variant"], r["mi"], o))
    fns = sorted({x for r in results for x in r["fns"]})
    own = [x for x in fns if "xtra" in x]
    rules = {}
    for v in _M or ():
        rules[v.rule] = v.text
    exhausted = ["%s/%s" % (r["log"][-1]["rule"], r["entry"]) for r in results if r["log"] and r["log"][-1]["exhausted"]]
    errs = ["%s: %s" % (r["entry"], r["err"]) for r in results if r["err"]] + notes
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation="Static analysis (abstract interpretation of the monomorphic MIR extracted from /repo's current "
                        "source; nothing is executed).  Each rule is an automaton run along every abstract path from each "
                        "entry point, starting from unknown arguments; loops are explored to a fixpoint.  An obligation is "
                        "a (rule, entry, case) that was met on at least one path and held on all." if P["rules"] else
                        P.get("explanation", "static"),
            rules=rules,
            obligations=len(ob) + sum(x.get("obligations", 0) for x in extra),
            discharged=len(ob) + sum(x.get("discharged", 0) for x in extra) - len(new),
            rule_instances=sum(r["instances"] for r in results),
            entry_points=sorted({r["entry"] for r in results}),
            abstract_paths=sum(r["paths"] for r in results),
            abstract_steps=sum(l["steps"] for r in results for l in r["log"]),
            paths_merged_at_fixpoint=sum(l["pruned"] for r in results for l in r["log"]),
            functions_analysed=len(fns), functions_of_the_crate=own[:400],
            call_sites=sum(r["sites"] for r in results),
            paths_without_verdict=sum(r["skipped"] for r in results),
            imprecise=sorted({x for r in results for x in r["imprec"]})[:20],
            not_exhausted=sorted(exhausted), errors=errs,
            library_calls_treated_as_unknown=sorted({o for r in results for l in r["log"] for o in l["opaque"]})[:60],
            other=extra,
            per_entry=[dict(rule=_M[r["mi"]].rule, entry=r["entry"], variant=r["variant"], instances=r["instances"],
                            paths=r["paths"], wall_s=r["wall"]) for r in sorted(results, key=lambda r: (r["mi"], r["entry"]))],
            violations=[dict(key=v.key, message=v.msg, where=v.where, entry=v.entry) for v in new],
            known=[v.key for v in old],
        ),
        assumptions=P.get("assumptions", []) + (props.ASSUME if P["rules"] else []),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    print("%s (%s): %d rules, %d obligations over %d instances, %d abstract paths, %d functions, %.1f s" % (
        pid, tier, len(rules) + len(statics), ev["coverage"]["obligations"], ev["coverage"]["rule_instances"],
        ev["coverage"]["abstract_paths"], len(fns), ev["wall_s"]))
    for x in exhausted:
        print("NOTE: budget exhausted in", x)
    for x in errs:
        print("NOTE: no verdict for", x)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[v.key]["what"]))
    for v in new:
        print("  %s\n    %s\n    at %s (entry %s)" % (v.key, v.msg, v.where, v.entry))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken is not None:
        raise broken
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    except build.BuildError as e:
        print("ERROR: the program could not be analysed: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
