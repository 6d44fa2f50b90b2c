"""C13: linear solvers report failed factorizations and bad input, and release what they allocate."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ir import short, walk
from validators import Validator
from handles import Handles, TooMany, ALLOC, FREE, STATUS

RULE = ("In every function that calls SuiteSparse, on every path: a handle that is allocated is released exactly once, returned, or stored in a field that a "
        "destructor releases; no handle is used after its release or overwritten while live; a constructor that throws leaves no handle behind; the outcome "
        "of every factorization is tested and a failure throws; solver constructors reject non-finite (and non-square, non-Hermitian) matrices and solve() "
        "rejects right-hand sides of the wrong length or with non-finite entries before the factorization is used.")
MIN = {"functions": 10, "handle routines": 20, "paths": 15}
ASSUMPTIONS = ["allocation itself does not run out of memory", "the analysed configuration is the one with SuiteSparse"]


def analyse(P):
    sys.setrecursionlimit(20000)
    findings, samples = [], []
    cov = {"functions": 0, "paths": 0, "handle routines": 0, "handle fields": 0, "factorizations whose failure is reported": 0, "inputs validated": 0,
           "validators that look at every entry": 0}
    names = set(ALLOC) | set(FREE) | set(STATUS)

    def direct(f):
        return any(e.get("k") == "call" and (e.get("cn") or "").split("<")[0] in names for e in P.exprs(f))
    base = {m for m, f in P.fns.items() if f.get("body") and direct(f)}
    files = {P.fns[m]["f"] for m in base}
    local = [f for f in P.fns.values() if f.get("body") and f["f"] in files]
    reach = set(base)
    while True:
        new = {f["m"] for f in local if f["m"] not in reach and any(e.get("k") in ("call", "ctor") and e.get("m") in reach for e in P.exprs(f))}
        if not new:
            break
        reach |= new
    fns = [P.fns[m] for m in sorted(reach)]
    inline = lambda fn: fn["f"] in files or fn["m"] in reach

    seen = set()

    def report(f, what, key, text, line):
        k = "%s:%s:%s" % (short(f["q"]).split("<")[0], what, key)
        if k not in seen:
            seen.add(k)
            findings.append({"key": k, "loc": P.loc(f, line or f["l"]), "msg": "%s: %s" % (short(f["q"]), text)})

    # fields that hold handles
    resfields = set()
    while True:
        n = len(resfields)
        for f in fns:
            H = Handles(P, resfields, inline)
            try:
                H.run(f, f.get("kind") == "ctor")
            except TooMany:
                continue
            resfields |= set(H.stored)
        if len(resfields) == n:
            break
    cov["handle fields"] = len(resfields)
    isroot = lambda f: f.get("kind") in ("ctor", "dtor") or f.get("cls")
    called = {e.get("m") for f in fns for e in P.exprs(f) if e.get("k") == "call"}
    released = {}                # field -> destructors
    holders = {}
    for f in fns:
        if f.get("kind") != "dtor":
            continue
        H = Handles(P, resfields, inline)
        exits = H.run(f, False)
        for q in resfields:
            l = ("F", q)
            if exits and all(s.env.get(l) is not None and (s.env[l] == ("null",) and s.res.get("held by " + short(q)) in ("freed", "none")
                                                          or s.res.get("held by " + short(q)) == "none") for s, v, _, k in exits if k == "ret"):
                released.setdefault(q, []).append(f)
        cov["functions"] += 1
        cov["paths"] += len(exits)
        cov["handle routines"] += H.calls
        for what, key, text, line in H.viol:
            report(f, what, key, text, line)
    for q in sorted(resfields):
        if q not in released:
            for f in fns:
                H = Handles(P, resfields, inline)
                try:
                    H.run(f, f.get("kind") == "ctor")
                except TooMany:
                    continue
                if q in H.stored:
                    report(f, "never-released", short(q), "%s holds a %s that no destructor releases" % (short(q), H.stored[q][0]), H.stored[q][2])
                    break
    need_ok = set()
    for f in fns:
        if f.get("kind") == "dtor":
            continue
        ctor = f.get("kind") == "ctor"
        H = Handles(P, resfields, inline)
        try:
            exits = H.run(f, ctor)
        except TooMany:
            continue
        cov["functions"] += 1
        cov["paths"] += len(exits)
        cov["handle routines"] += H.calls
        for what, key, text, line in H.viol:
            report(f, what, key, text, line)
        top = ctor or f.get("cls") or f["m"] not in called
        for s, v, line, k in exits:
            held = {x[1] for l, x in s.env.items() if l[0] == "F" and x[0] == "res"}
            if v[0] == "res":
                held.add(v[1])
            held |= {x[1] for l, x in s.env.items() if x[0] == "res" and l[0] in ("G", "OUT")}
            for i, stt in s.res.items():
                if k != "throw inside" and stt == "live" and i not in held and not i.startswith("held by") and 1 in s.poss.get(i, (1,)):
                    where = "is not released" if k == "ret" else "is not released when the exception at line %s is thrown" % line
                    report(f, "leak", i.split("@")[0], "the %s from %s at line %s %s" % (s.kind[i], i.split("@")[0], s.where[i], where), s.where[i])
            if ctor and k.startswith("throw"):
                for l, x in s.env.items():
                    if l[0] == "F" and x[0] == "res" and s.res.get(x[1]) == "live" and 1 in s.poss.get(x[1], (1,)):
                        rec = l[1].rsplit("::", 1)[0]
                        if not any(d.get("cls") == rec and rec != f.get("cls") for d in released.get(l[1], [])):
                            report(f, "leak-on-throw", short(l[1]), "the exception at line %s leaves the %s in %s unreleased" % (line, s.kind.get(x[1]), short(l[1])), line)
            if k == "ret" and top:
                for i, (ok, what, l0) in s.need.items():
                    if not s.poss.get(i, frozenset()) <= set(ok):
                        report(f, "unreported", what, "returns normally although %s (line %s) may have failed" % (what, l0), l0)
                    else:
                        need_ok.add((f["q"], i))
        # input validation
        cls = short(f.get("cls") or "").split("<")[0]
        if ctor and any(e.get("k") == "call" for e in P.exprs(f)) and [x for x in exits if x[3] == "ret"] and len(f["ps"]) == 1:
            for s, v, line, k in exits:
                if k != "ret" or not any(n for n in s.need) and not any(l[0] == "F" and x[0] == "res" for l, x in s.env.items()):
                    continue
                mat = f["ps"][0]["n"]
                want = [("finite", mat)]
                if any("cholmod_l_factorize" in i for i in s.need):
                    want += [("hermitian", mat), ("square", None)]
                if any("umfpack" in i for i in s.need):
                    want += [("square", None)]
                for w in want:
                    if w[0] == "square":
                        ok = any(x[0] == "same" and {y[1].split(".")[-1] for y in x[1] if y[0] == "dim"} in ({"nRows", "nCols"}, {"rows", "cols"}, {"nRows", "cols"}, {"rows", "nCols"}) for x in s.facts)
                    else:
                        ok = w in s.facts or (w[0] == "hermitian" and ("symmetric", mat) in s.facts)
                    if not ok:
                        report(f, "unvalidated", w[0], "the matrix is factored without being checked to be %s" % w[0], line)
                    else:
                        cov["inputs validated"] += 1
        if not ctor and f.get("cls") and f["n"] == "solve" and len(f["ps"]) == 2:
            rhs = f["ps"][1]["n"]
            for s, v, line, k in exits:
                if k != "ret":
                    continue
                ok = any(x[0] == "same" and {y for y in x[1]} == {("dim", rhs + ".rows"), ("dim", "nRows")} for x in s.facts)
                if not ok:
                    report(f, "unvalidated", "length", "a right-hand side of the wrong length is not rejected", line)
                elif ("finite", rhs) not in s.facts:
                    report(f, "unvalidated", "finite-rhs", "a right-hand side that is not finite is not rejected", line)
                else:
                    cov["inputs validated"] += 1
    vnames = ("checkFinite", "checkHermitian", "checkSymmetric")
    for f in P.fns.values():
        if f["n"] in vnames and f.get("body") and f["ps"] and "Eigen" in f["ps"][0]["t"]:
            v, why, line = Validator(P, f).verdict()
            if v:
                cov["validators that look at every entry"] += 1
            elif v is False:
                report(f, "validator", f["ps"][0]["t"].split("<")[0], "of a %s: %s" % (f["ps"][0]["t"], why), line)
    cov["factorizations whose failure is reported"] = len(need_ok)
    samples = ["%s released by %s" % (short(q), ", ".join(short(d["q"]) for d in ds)) for q, ds in sorted(released.items())][:12]
    return {"findings": findings, "coverage": cov, "samples": samples}
