"""Common driver for checks: evidence, known findings, verdict."""
import json, os, sys, time, traceback
from extract import VERIF, AnalysisBroken


def main(pid, analyse, technique_rule, min_counts=None, assumptions=()):
    """analyse(prog) -> dict(findings=[{key,msg,loc}], coverage={...}, samples=[...])"""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from ir import Program
    try:
        prog = Program()
        res = analyse(prog)
        cov = res["coverage"]
        for k, v in (min_counts or {}).items():
            if cov.get(k, 0) < v and not res["findings"]:
                raise AnalysisBroken("instance count %s=%s fell below the confirmed minimum %d" % (k, cov.get(k), v))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        sys.exit(3)
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("findings", []):
            if k["property"] == pid and k.get("status", "known") == "known":
                known[k["key"]] = k
    new, old = [], []
    seen = set()
    for f in res["findings"]:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        (old if f["key"] in known else new).append(f)
    ob = cov.get("obligations", 0)
    cov = dict(cov)
    cov["rule"] = technique_rule
    cov["samples"] = res.get("samples", [])[:12]
    cov["explanation"] = cov.get("explanation", technique_rule)
    cov["violations_reported"] = [f["msg"] for f in new][:50]
    cov["known_findings"] = [f["key"] for f in old]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    ed = os.environ.get("GC_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["msg"]))
    if new:
        rp = os.path.join(ed, pid + ".violations.txt")
        with open(rp, "w") as f:
            for x in new:
                f.write("%s: %s [%s]\n" % (x.get("loc", "?"), x["msg"], x["key"]))
        for x in new:
            print("  %s: %s [%s]" % (x.get("loc", "?"), x["msg"], x["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    sys.exit(0)
