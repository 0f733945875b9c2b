#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [-v]  - decide one property by static analysis of /repo's sources"""
import argparse, json, os, sys, time, re
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa"))
import runner, build, props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = props.PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    tasks = P.tasks(tier)
    cfgs = sorted({t[1] for t in tasks if len(t) > 1 and t[1] in props.CONFIGS})
    results = []
    # compile the sources of each variant first, then build the abstract start states
    vs = sorted({c[0] for c in cfgs})
    results += runner.run([("facts", v) for v in vs], props.run_task, verbose=a.v)
    results += runner.run([("world", c) for c in cfgs], props.run_task, verbose=a.v)
    bad = [r for r in results if r.err and not r.err.startswith("AnalysisError")]
    if bad:
        for r in bad:
            print("ERROR %s: %s" % (" ".join(map(str, r.task)), r.err))
        return 2
    known = load_known(a.prop)
    if not any(r.viol or r.err for r in results):
        results += runner.run(tasks, props.run_task, timeout=780, verbose=a.v,
                              failed=lambda r: any(P.accept(r, k, m) and not known_match(known, r.task, k, m) for k, m, _ in r.viol))
    viols, knownhit, errs = [], set(), []
    obl = dis = paths = 0
    skipped = []
    for r in results:
        obl += r.obl; dis += r.dis; paths += r.paths
        if r.skip:
            skipped.append("%s: %s" % (" ".join(map(str, r.task)), r.skip))
        if r.err:
            if r.err.startswith("AnalysisError"):
                # the code under analysis left the class for which the obligation can be proved
                r.viol.append(("unproved", "[%s] %s: obligation not established: %s" % (r.task[1] if len(r.task) > 1 else "", " ".join(map(str, r.task[2:])), r.err[14:].strip()), r.loc or "?"))
            else:
                errs.append((r.task, r.err))
        for key, msg, loc in r.viol:
            if not P.accept(r, key, msg):
                continue
            k = known_match(known, r.task, key, msg)
            if k:
                knownhit.add(k)
            else:
                viols.append({"task": r.task, "rule": key, "construct": loc, "message": msg})
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    for k in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    cov = {"obligations": obl, "discharged": dis,
           "checker_cmd": "python3 check.py %s --tier %s" % (a.prop, tier),
           "trusted_base": P.trusted,
           "rule": P.rule,
           "tasks": len(tasks), "partitions_analysed": paths,
           "configurations": cfgs,
           "analysed": sorted({" ".join(map(str, r.task[2:])) for r in results if len(r.task) > 2 and not r.skip})[:400],
           "functions_interpreted": len(set().union(*[r.funcs for r in results])) if results else 0,
           "functions": sorted(set().union(*[r.funcs for r in results]))[:300] if results else [],
           "skipped": skipped[:50],
           "explanation": P.explain}
    json.dump({"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.level,
               "coverage": cov, "assumptions": P.assume, "wall_s": round(time.time() - t0, 2), "violations": len(viols)},
              open(os.path.join(ev, a.prop + ".json"), "w"), indent=1)
    if viols:
        rp = os.path.join(ev, a.prop + ".violations.json")
        json.dump(viols, open(rp, "w"), indent=1, default=str)
        for v in viols[:20]:
            print("  %s: %s [%s]" % (v["construct"], v["message"], v["rule"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if errs:
        for t, e in errs[:20]:
            print("ERROR %s: %s" % (" ".join(map(str, t)), e))
        return 2
    if not obl:
        print("ERROR no obligations were generated")
        return 2
    print("ok property=%s obligations=%d discharged=%d tasks=%d wall=%.1fs" % (a.prop, obl, dis, len(tasks), time.time() - t0))
    return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f.get("status") == "open"]


def known_match(known, task, key, msg):
    for f in known:
        if re.search(f["match"], "%s|%s|%s" % (" ".join(map(str, task)), key, msg)):
            return f["what"]
    return None


if __name__ == "__main__":
    sys.exit(main())
