"""C17: square roots, arc cosines and arc sines inside their domain."""
from ir import *
from ranges import *

RULE = ("at every call of sqrt, acos, asin on a real number the argument is shown to lie in the domain, by a flow-sensitive interval analysis of the enclosing function: clamps, max / min / abs, squares, sums and "
        "products of what is known, branch conditions, result ranges of library functions computed the same way, and, for functions with internal linkage, the ranges of the arguments at all their call sites")
MIN = {"domain calls": 55, "functions": 35}
ASSUMPTIONS = "edge lengths, areas, minimum distances given by the caller and results of the uniform generators are what their names say (non-negative, in range); overflow and NaN inputs are not considered"
# a NaN here only meets comparisons, which are false, and the caller then takes the other distance
EXEMPT = {"eikonalDistanceSubroutine": "the discriminant is negative when the two given distances differ by more than the edge length; every comparison with the result is then false and the edge distances are used"}


def analyse(P):
    A = Ranges(P)
    fs = [f for f in P.fns.values() if f.get("body") and f["f"].startswith(REPO + "/") and "/deps/" not in f["f"]]
    called, has = {}, {}
    for f in fs:
        for x in P.exprs(f):
            if x.get("k") in ("call", "ctor") and x.get("m"):
                called.setdefault(x["m"], set()).add(f["m"])
        has[f["m"]] = any(x.get("k") == "call" and x["cn"] in Range.DOMAIN and x.get("m") not in P.fns for x in walk_stmt(f["body"]))
    findings, n, nf, ex = {}, 0, 0, 0
    samples = []

    def open_(f):
        return f.get("hd") and f.get("acc") in (None, 0) and "(anonymous" not in f["q"] or f.get("virt")

    def judge(f, pin, depth):
        """undischarged obligations of f for parameters in the given ranges"""
        R = Range(A, f, pin=pin)
        R.go()
        return R

    def sites(f, pin_of):
        """parameter ranges over all call sites"""
        calls = {}
        for m in called.get(f["m"], ()):
            R = Range(A, P.fns[m], quiet=True, calls=calls, pin=pin_of(m))
            R.go()
        return calls.get(f["m"], {})

    def pins(m, depth=0):
        f = P.fns[m]
        if open_(f) or depth > 3 or not called.get(m):
            return {}
        return sites(f, lambda c: pins(c, depth + 1))

    for f in fs:
        if not has[f["m"]]:
            continue
        name = f["q"].split("::")[-1]
        if not open_(f) and not called.get(f["m"]) and f.get("kind") != "ctor" and f.get("acc") is None and not f.get("virt"):
            continue  # not reachable by a user
        nf += 1
        R = judge(f, {}, 0)
        bad = [(e, v) for e, ok, v in R.obs.values() if not ok]
        if bad and not open_(f):
            R = judge(f, pins(f["m"]), 0)
            bad = [(e, v) for e, ok, v in R.obs.values() if not ok]
        n += len(R.obs)
        if name in EXEMPT:
            ex += len(bad)
            continue
        for e, v in bad:
            key = "%s#%s" % (short(f["q"]), e["cn"])
            findings.setdefault(key, {"key": key, "msg": "%s takes the %s of a number that may lie outside its domain (as far as it is known: [%g, %g]); the result is NaN then" % (short(f["q"]), e["cn"], v[0], v[1]), "loc": P.loc(f, e["l"])})
        if len(samples) < 6 and R.obs:
            e, ok, v = next(iter(R.obs.values()))
            samples.append("%s %s: argument in [%g, %g]" % (P.loc(f, e["l"]), e["cn"], v[0], v[1]))
    return {"findings": list(findings.values()), "samples": samples, "coverage": {"functions": nf, "domain calls": n, "exempt": ex, "functions summarised": len(A.ret)}}
