"""C14: every value is given before it is used, every result is given on every path."""
from ir import *
from definite import *

RULE = ("definite assignment, path-sensitively, for every function and lambda body: no scalar, pointer or enum local, scalar field of a local record, or entry of an Eigen "
        "object created with a size only is read, updated in place or passed by value before it was assigned (reference parameters by a summary of the callee: what it assigns on which of its exits, "
        "what it reads first; returned records by the fields each exit leaves unset); every path of a function with a result returns one or throws; every switch over an enumeration of the "
        "library names all its enumerators or has a default, and no case runs into the next; every scalar data member a public operation reads first is set by every constructor")
MIN = {"functions": 2000, "tracked_variables": 350, "reads": 12000, "switches": 40, "classes_with_constructors": 60}
ASSUMPTIONS = ("a for, range-for or do loop runs at least once, and a search loop that leaves by break under an equality test finds what it looks for",
               "a minimum search that starts from an infinite value takes its first candidate",
               "objects in two phases are filled by their documented first call: Interval and SurfacePointWithIndex by the code that allocates them, GeodesicAlgorithmExact by propagate()",
               "entries of C arrays and containers addressed by a computed index are not told apart")
S = "geometrycentral::surface::"
# data members that the documented protocol of the class sets after construction
TWOPHASE = {S + "Interval": None, S + "SurfacePointWithIndex": {"m_index"}, S + "GeodesicAlgorithmExact": {"m_propagation_distance_stopped"}}


def mine(f):
    return f.get("body") and f["f"].startswith(REPO + "/") and "/deps/" not in f["f"]


def analyse(P):
    A = Assignments(P)
    F = {}
    switches = 0
    seen = set()
    for f in P.fns.values():
        if not mine(f):
            continue
        for nm, line, how in A.check(f):
            if how == "noreturn":
                key = "%s#end" % short(f["q"])
                msg = "%s can reach its end without returning a value" % short(f["q"])
            else:
                key = "%s#%s" % (short(f["q"]), nm)
                msg = "%s: %s has no value on some path where it is %s" % (short(f["q"]), nm, how)
            F.setdefault(key, {"key": key, "msg": msg, "loc": P.loc(f, line)})
        for s, t, full, hasdef, ft in A.switches(f):
            at = (f["f"], s.get("l"))
            if at not in seen:
                seen.add(at)
                switches += 1
            if t in P.enums and t.startswith("geometrycentral") and not full and not hasdef:
                key = "%s#switch" % short(f["q"])
                F.setdefault(key, {"key": key, "msg": "%s: the switch over %s does not handle every value and has no default" % (short(f["q"]), short(t)), "loc": P.loc(f, s.get("l"))})
            for c in ft:
                key = "%s#fall" % short(f["q"])
                F.setdefault(key, {"key": key, "msg": "%s: a case of the switch runs into the next one" % short(f["q"]), "loc": P.loc(f, c.get("l") or s.get("l"))})
        # a record handed out with fields nobody set
        if "(anonymous" not in f["q"]:
            for und, facts in A.returned(f["m"]) or ():
                if und and not any(isinstance(t, bool) and k[0] == "m" for k, t in facts):
                    key = "%s#result.%s" % (short(f["q"]), ".".join(sorted(und)[0]))
                    F.setdefault(key, {"key": key, "msg": "%s returns a record whose field %s was not set on some path" % (short(f["q"]), ".".join(sorted(und)[0])), "loc": P.loc(f)})
    # ---- data members
    called = {}
    for g in P.fns.values():
        if g.get("body"):
            for e in P.exprs(g):
                if e.get("k") in ("call", "ctor") and e.get("m"):
                    called.setdefault(e["m"], set()).add(g.get("cls") or "")
    nclasses = nfields = 0
    for q, r in P.recs.items():
        if not q.startswith("geometrycentral"):
            continue
        ctors = [f for f in P.bycls.get(q, []) if f.get("kind") == "ctor" and f.get("body")]
        ctors = [c for c in ctors if not (len(c["ps"]) == 1 and q in c["ps"][0]["t"])]
        if not ctors:
            continue
        nclasses += 1
        family = {q} | set(P.ancestors(q)) | set(P.descendants(q))
        methods = [f for c in [q] + list(P.descendants(q)) for f in P.bycls.get(c, []) if f.get("body") and f.get("kind") not in ("ctor", "dtor") and not f.get("static")]
        nfields += len(r["fields"])
        for c in ctors:
            for x in sorted({u[0] for u in A.unset(q, {"m": c["m"]})}):
                ex = TWOPHASE.get(q, ())
                if ex is None or x in ex:
                    continue
                if any(fd["n"] == x and array_elem(fd["t"]) for fd in r["fields"]):
                    continue
                for f in methods:
                    outside = any(k not in family for k in called.get(f["m"], ()))
                    api = f.get("acc") == 0 and "(anonymous" not in q
                    if not (outside or api):
                        continue
                    s = A.thissummary(f)
                    if s and x in s[0]:
                        key = "%s::%s#%s" % (short(q), x, f["n"])
                        F.setdefault("%s::%s" % (short(q), x), {"key": "%s::%s" % (short(q), x), "msg": "a constructor of %s (line %d) leaves %s without a value, and %s reads it" % (short(q), c["l"], x, f["n"]), "loc": P.loc(c)})
                        break
    cov = {"functions": A.functions, "tracked_variables": A.tracked, "reads": A.uses, "switches": switches, "classes_with_constructors": nclasses,
           "data_members": nfields, "reference_parameter_summaries": len(A._sum), "record_results_followed": sum(1 for v in A._ret.values() if v)}
    return {"findings": list(F.values()), "coverage": cov, "samples": ["%s: sets its reference parameters on every exit" % short(P.fns[m]["q"]) for m, s in list(A._sum.items()) if s.variants][:8]}
