"""C04: growth and compaction keep every per-element store in step."""
import itertools
from ir import *
from trace import *
import collections
from kinds import Kinds
from c04_store import Store

GC = "geometrycentral::"
SM = GC + "surface::SurfaceMesh::"
PC = GC + "pointcloud::PointCloud::"
RULE = ("every path of every growing method (helpers and lambdas interpreted in place, locals value-numbered) that assigns a capacity must resize all "
        "arrays addressed by that kind of element, and invoke all expansion callbacks of that kind, with the value assigned; the new capacity, a "
        "max of linear forms in the old one, must exceed it from every start, zero included. Every path of compress() must permute each array "
        "addressed by a kind with a map whose contents are of that kind, renumber each array holding a kind with a map addressed by it, invoke each "
        "permutation callback with a map of its own kind, reset fill and capacity, and set the flag")
MIN = {"capacity_writers": 4, "growth_paths": 6, "compress_paths": 2, "obligations": 80}

# array -> (addressed by, holds), None: not an index
ARR = {
    "heNextArr": ("H", "H", 0), "heVertexArr": ("H", "V", 0), "heFaceArr": ("H", "F", 0), "vHalfedgeArr": ("V", "H", 0), "fHalfedgeArr": ("F", "H", 0),
    "heSiblingArr": ("H", "H", 1), "heEdgeArr": ("H", "E", 1), "heOrientArr": ("H", None, 1), "eHalfedgeArr": ("E", "H", 1),
    "heVertInNextArr": ("H", "H", 1), "heVertInPrevArr": ("H", "H", 1), "vHeInStartArr": ("V", "H", 1),
    "heVertOutNextArr": ("H", "H", 1), "heVertOutPrevArr": ("H", "H", 1), "vHeOutStartArr": ("V", "H", 1),
}
CAP = {"V": "nVerticesCapacityCount", "H": "nHalfedgesCapacityCount", "E": "nEdgesCapacityCount", "F": "nFacesCapacityCount"}
FILL = {"V": "nVerticesFillCount", "H": "nHalfedgesFillCount", "E": "nEdgesFillCount", "F": "nFacesFillCount", "B": "nBoundaryLoopsFillCount"}
EXP = {"V": "vertexExpandCallbackList", "H": "halfedgeExpandCallbackList", "E": "edgeExpandCallbackList", "F": "faceExpandCallbackList"}
PERM = {"V": "vertexPermuteCallbackList", "H": "halfedgePermuteCallbackList", "E": "edgePermuteCallbackList", "F": "facePermuteCallbackList",
        "B": "boundaryLoopPermuteCallbackList"}
PLURAL = {"V": "vertices", "H": "halfedges", "E": "edges", "F": "faces", "B": "boundary loops", "P": "points"}
NAME = {"V": "vertex", "H": "halfedge", "E": "edge", "F": "face", "B": "boundary loop", "P": "point"}
SURF = dict(cls=SM, arr=ARR, cap=CAP, fill=FILL, exp=EXP, perm=PERM, comp="compressCallbackList", flag="isCompressedFlag")
POINT = dict(cls=PC, arr={"pointValid": ("P", None, 0)}, cap={"P": "nPointsCapacityCount"}, fill={"P": "nPointsFillCount"},
             exp={"P": "pointExpandCallbackList"}, perm={"P": "pointPermuteCallbackList"}, comp="compressCallbackList", flag="isCompressedFlag")


def linmax(t, cap):
    """term as a list of linear forms (a, b): max over a*cap+b; None if outside the class"""
    if t == cap:
        return [(1, 0)]
    if t[0] == "lit":
        try:
            return [(0, int(str(t[1]).rstrip("uUlL")))]
        except ValueError:
            return None
    if t[0] == "op" and len(t) == 4:
        a, b = linmax(t[2], cap), linmax(t[3], cap)
        if a is None or b is None:
            return None
        if t[1] == "max":
            return a + b
        if t[1] == "+":
            return [(x[0] + y[0], x[1] + y[1]) for x in a for y in b]
        if t[1] == "*":
            if len(b) != 1:
                a, b = b, a
            if len(b) == 1 and b[0][0] == 0 and b[0][1] >= 0:
                return [(x[0] * b[0][1], x[1] * b[0][1]) for x in a]
    return None


def bounds(st, cap):
    """interval of the old capacity implied by the path's comparisons with literals"""
    lo, hi = 0, None
    for k, v in st.env.items():
        if k[0] != "fact":
            continue
        _, op, a, b = k[1]
        if b == cap:
            a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if a != cap or b[0] != "lit":
            continue
        try:
            n = int(str(b[1]).rstrip("uUlL"))
        except ValueError:
            continue
        if not v:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op == "==":
            lo, hi = max(lo, n), n if hi is None else min(hi, n)
        elif op == "!=" and n == lo:
            lo = n + 1
        elif op in (">", ">="):
            lo = max(lo, n + (op == ">"))
        elif op in ("<", "<="):
            hi = n - (op == "<") if hi is None else min(hi, n - (op == "<"))
    return lo, hi


def grows_by(forms, even=False, rng=(0, None)):
    """exact minimum over all integers c >= 0 of max(a*c+b) - c (convex piecewise linear)"""
    lo, hi = rng
    pts = {lo, lo + 1} | ({hi} if hi is not None else set())
    for (a, b), (c, d) in itertools.combinations(forms, 2):
        if a != c:
            x = (d - b) // (a - c)
            pts |= {x - 1, x, x + 1, x + 2}
    if hi is None and max(a for a, _ in forms) < 1:
        return None  # bounded: eventually falls behind
    if even:  # halfedges allocated in pairs
        pts = {y for x in pts for y in (x - x % 2, x + x % 2)}
    return min((max(a * x + b for a, b in forms) - x for x in pts if x >= lo and (hi is None or x <= hi)), default=1 << 30)


def field(t):
    return t[2] if t and t[0] == "F" else None


class Maps:
    """kind of the contents / of the index of a local map, from the index-kind inference"""

    def __init__(self, P):
        self.K = Kinds(P)
        self.P = P
        for m in sorted(P.fns):
            if P.fns[m]["q"].startswith(SM):
                self.K.get(m)


def analyse(P):
    from extract import AnalysisBroken
    findings, samples = {}, []
    cov = dict(capacity_writers=0, growth_paths=0, compress_paths=0, obligations=0, unknown_maps=0, functions=0)

    def report(key, msg, loc):
        findings.setdefault(key, dict(key=key, msg=msg, loc=loc))

    for spec in (SURF, POINT):
        cls = spec["cls"]
        q = {x: cls + x for x in list(spec["arr"]) + list(spec["cap"].values()) + list(spec["fill"].values()) + list(spec["exp"].values()) + list(spec["perm"].values())}
        rec = P.recs.get(cls[:-2])
        if not rec:
            raise AnalysisBroken("class %s not found" % cls)
        have = {f["n"] for f in rec["fields"]}
        for x in q:
            if x not in have:
                raise AnalysisBroken("member %s%s not found" % (cls, x))
        members = set(q.values()) | {cls + spec["flag"], cls + spec["comp"]}
        family = set(P.descendants(cls[:-2]))
        # functions that touch any of the tracked members (transitively): these are interpreted in place
        touch = set()
        meth = [f for f in P.fns.values() if f.get("cls") in family or f.get("local")]
        for f in meth:
            for e in P.exprs(f):
                if e.get("k") == "mem" and e.get("q") in members:
                    touch.add(f["m"])
        callees = {f["m"]: {e["m"] for e in P.exprs(f) if e.get("k") == "call" and e.get("m")} for f in meth}
        callers = collections.defaultdict(set)
        for m, cs in callees.items():
            for c in cs:
                callers[c].add(m)
        # helpers that receive an array or callback list by reference
        helper = set()
        for f in P.fns.values():
            if any("std::list<std::function" in p["t"] or ("std::vector<" in p["t"] and p["t"].rstrip().endswith("&") and not p["t"].startswith("const")) for p in f["ps"]):
                if f.get("cls") in family or f.get("local") or f["q"].startswith(GC) and f["f"].startswith(("src/surface/surface_mesh", "src/pointcloud/point_cloud")):
                    helper.add(f["m"])
        writers = [f for f in meth if f.get("kind") != "ctor" and writes(P, f, {q[c] for c in spec["cap"].values()})]

        def keep(ev):
            if ev.kind == "tst":
                return bool(ev.ctx)
            if ev.kind == "asg":
                return ev.obj[0] == "F" and ev.obj[2] in members or (ev.obj[0] in ("el", "idx") and ev.obj[1][0] == "F" and ev.obj[1][2] in members and bool(ev.ctx))
            if ev.kind == "call":
                e = ev.extra[0] if ev.extra else {}
                if ev.name.endswith("::resize") or e.get("cn") in ("resize", "assign", "reverse", "sort", "insert"):
                    return True
                if e.get("op") == "()" or (ev.obj and ev.obj[0] == "el"):
                    return True
            return False

        def inline(f, o):
            if f["m"] in helper:
                return True
            if f.get("cls") in family or f.get("local"):
                return f["m"] in relevant
            return False
        # relevant: transitively resizes/assigns tracked members
        relevant = {f["m"] for f in meth if f["m"] in touch and mutates(P, f, members)} | helper
        for _ in range(6):
            n = len(relevant)
            for m, cs in callees.items():
                if cs & relevant and P.fns[m].get("kind") != "ctor" and P.fns[m]["n"] not in ("compress",):
                    relevant.add(m)
            if len(relevant) == n:
                break

        def paths(f, implicit, compressed=None):
            def decide(t):
                if t[0] == "call" and t[1] == "usesImplicitTwin":
                    return implicit
                if t[0] == "F" and t[2].endswith("::useImplicitTwinFlag"):
                    return implicit
                if t[0] == "call" and t[1] == "isCompressed" or t[0] == "F" and t[2] == cls + spec["flag"]:
                    return compressed
                return None
            tr = Trace(P, inline, decide, keep)
            tr.tests = True
            r = tr.run(f)
            cov["functions"] += len(tr.analysed)
            return r

        store = Store(P, spec, family, report, cov)
        # ------------------------------------------------ growth
        def growth(f, record, origin=None):
            bad, n = [], 0
            for implicit in ((False, True) if cls == SM else (False,)):
                try:
                    rs = paths(f, implicit, None)
                except TooMany:
                    return None
                for st, _ in rs:
                    for k, cn in spec["cap"].items():
                        asg = [e for e in st.ev if e.kind == "asg" and e.obj == ("F", ("this",), q[cn]) and e.ctx == () and e.fn == (origin or f["q"])]
                        if not asg:
                            continue
                        n += 1
                        val = asg[-1].args[0]
                        if record:
                            cov["growth_paths"] += 1
                        where = (asg[-1].fn, asg[-1].line)
                        obs = []
                        for a, (dom, el, cond) in spec["arr"].items():
                            if dom != k or (cond and implicit):
                                continue
                            obs.append(("array %s" % a, any(e.kind == "call" and e.extra and e.extra[0].get("cn") in ("resize", "assign") and
                                                            e.obj == ("F", ("this",), q[a]) and e.args and e.args[0] == val for e in st.ev)))
                        cl = ("F", ("this",), q[spec["exp"][k]])
                        obs.append(("the %s expansion callbacks" % NAME[k],
                                    any(e.kind == "call" and called_on(e, cl) and e.args and e.args[0] == val for e in st.ev)))
                        fm = linmax(val, ("F", ("this",), q[cn]))
                        step = 2 if (k == "H" and any(e.kind == "asg" and e.obj == ("F", ("this",), q[spec["cap"].get("E", "")]) for e in st.ev)
                                     if "E" in spec["cap"] else False) else 1
                        if fm is not None:
                            g = grows_by(fm, step == 2, bounds(st, ("F", ("this",), q[cn])))
                            obs.append(("GROW", g is not None and g >= step))
                        if k == "F" and "B" in spec["fill"]:
                            # boundary loops live at the back of the face buffer and move with its end
                            cap0 = ("F", ("this",), q[cn])
                            fh, hf = ("F", ("this",), q["fHalfedgeArr"]), ("F", ("this",), q["heFaceArr"])
                            mv = [e for e in st.ev if e.kind == "asg" and e.obj[0] == "idx" and e.obj[1] == fh]
                            obs.append(("MOVE", any(has(e.obj[2], val) and e.args[0][0] == "idx" and e.args[0][1] == fh and has(e.args[0][2], cap0) and store.move_ok(e, st, val) for e in mv)))
                            sh = [e for e in st.ev if e.kind == "asg" and e.obj[0] in ("idx", "el") and e.obj[1] == hf]
                            obs.append(("SHIFT", any(has(e.args[0], val) and has(e.args[0], cap0) and store.shift_ok(e, st) for e in sh)))
                        if record:
                            cov["obligations"] += len(obs)
                        for what, ok in obs:
                            if not ok:
                                bad.append((k, what, where, implicit))
            return bad if n else None

        for f in writers:
            if is_copy(P, f, {q[c] for c in spec["cap"].values()}) or in_compress(f, callers, P):
                continue
            cov["capacity_writers"] += 1
            bad, level, done = growth(f, True) or [], [f], {f["m"]}
            while bad and all(g.get("acc") != 0 for g in level):
                # a non-public helper may leave the rest of the work to its callers
                nxt = [P.fns[c] for c in sorted({c for g in level for c in callers[g["m"]]} - done) if c in P.fns]
                if not nxt:
                    break
                done |= {g["m"] for g in nxt}
                up = [growth(g, False, f["q"]) for g in nxt]
                if any(x is None for x in up):
                    break
                still = {b[:2] for x in up for b in x}
                bad = [b for b in bad if b[:2] in still]
                level = nxt
            samples.append("growth: %s" % short(f["q"]))
            for k, what, (fn, line), implicit in bad:
                loc = P.loc(P.byq[fn][0], line)
                if what == "GROW":
                    report("grow:%s:%s" % (short(f["q"]), k), "%s may leave the %s capacity no larger than before (a capacity of zero stays zero)" % (short(f["q"]), NAME[k]), loc)
                elif what in ("MOVE", "SHIFT"):
                    report("%s:%s" % (what.lower(), short(f["q"])), "%s grows the face capacity without %s" % (short(f["q"]),
                           "moving the boundary loops from the old end of the face buffer to the new one" if what == "MOVE" else
                           "shifting the boundary loop numbers held by halfedges by the growth"), loc)
                else:
                    report("growth:%s:%s" % (short(f["q"]), what.split()[-1] if "array" in what else k + "cb"),
                           "%s grows the %s capacity without growing %s to the same size" % (short(f["q"]), NAME[k], what), loc)

        store.run(callers, lambda g: is_copy(P, g, {q[c] for c in spec["cap"].values()}) or in_compress(g, callers, P), NAME)

        # ------------------------------------------------ compaction
        comp = [f for f in P.byq.get(cls + "compress", ())]
        if not comp:
            raise AnalysisBroken("no %scompress" % cls)
        f = comp[0]
        maps = Maps(P) if cls == SM else None

        def use(e, mp, k, what, want):
            """a new-to-old map contains numbers of kind k; an old-to-new map is addressed by them"""
            if mp[0] != "L":
                cov["unknown_maps"] += 1
                return
            m = mp[1][0].rsplit("#", 1)[0]
            g = P.fns.get(m)
            if g is None:
                cov["unknown_maps"] += 1
                return
            cov["obligations"] += 1
            dr = direction(g, mp[1][1])
            cont, ind = maps.K.local_kinds(m, mp[1][1]) if maps else (None, None)
            for tag, msg, line in fill_rules(P, g, mp[1][1], want, k, spec, q, cls):
                report("fill:%s:%s:%s" % (short(g["q"]), tag, NAME[k]), msg, P.loc(g, line))
            if dr and dr != want:
                report("dir:%s:%s" % (short(e.fn), what), "compress(): %s uses a map that goes from %s" % (
                    what, "old to new numbers" if want == "new2old" else "new to old numbers"), P.loc(g, e.line if e.fn == g["q"] else None))
            elif want == "new2old" and cont is not None and cont != k:
                report("map:%s:%s" % (short(e.fn), what), "compress(): %s uses a map of %s numbers" % (what, NAME.get(cont, cont)), P.loc(g, e.line if e.fn == g["q"] else None))
        for implicit in ((False, True) if cls == SM else (False,)):
            for st, _ in paths(f, implicit, False):
                cov["compress_paths"] += 1
                evs = st.ev
                store.counters(st, P.loc(f))
                obs = []

                for a, (dom, el, cond) in spec["arr"].items():
                    if cond and implicit:
                        continue
                    perm = [e for e in evs if e.kind == "asg" and e.obj == ("F", ("this",), q[a]) and e.args[0][0] == "call" and e.args[0][1] == "applyPermutation"]
                    for e in perm:
                        use(e, e.args[0][3][1], dom, "the permutation of " + a, "new2old")
                    obs.append(("perm", a, dom, perm, "%s is not permuted into the new %s numbering" % (a, NAME[dom])))
                # renumbering: see upd() events
                for k, lst in spec["perm"].items():
                    cl = ("F", ("this",), q[lst])
                    cb = [e for e in evs if e.kind == "call" and called_on(e, cl)]
                    obs.append(("cb", k, k, cb, "the %s permutation callbacks are not invoked" % NAME[k]))
                    for e in cb:
                        store.truncation(e, st, k, P.loc(f))
                        use(e, e.args[0], k, "the call of the %s permutation callbacks" % NAME[k], "new2old")
                for a, (dom, el, cond) in spec["arr"].items():
                    if (cond and implicit) or el is None:
                        continue
                    up = [e for e in evs if is_update(e, ("F", ("this",), q[a]))]
                    for e in up:
                        use(e, e.args[0][1], el, "the renumbering of " + a, "old2new")
                    obs.append(("upd", a, el, up, "the %s numbers held in %s are not renumbered" % (NAME[el], a)))
                for k, c in list(spec["cap"].items()) + [("B", None)] * ("B" in spec["fill"]):
                    for c in ([spec["cap"].get(k)] if k in spec["cap"] else []) + [spec["fill"][k]]:
                        up = [e for e in evs if e.kind == "asg" and e.obj == ("F", ("this",), q[c])]
                        obs.append(("count", c, k, up, "%s is not reset" % c))
                up = [e for e in evs if e.kind == "asg" and e.obj == ("F", ("this",), cls + spec["flag"]) and e.args[0] == ("lit", "true")]
                obs.append(("flag", spec["flag"], None, up, "the compressed flag is not set"))
                up = [e for e in evs if e.kind == "call" and called_on(e, ("F", ("this",), cls + spec["comp"]))]
                if spec["comp"] in have:
                    obs.append(("ccb", spec["comp"], None, up, "the compression callbacks are not invoked"))
                cov["obligations"] += len(obs)
                for kind, what, k, es, msg in obs:
                    if not es:
                        report("compress:%s:%s" % (kind, what), "compress(): %s%s" % (msg, " (implicit-twin mesh)" if implicit else ""), P.loc(f))
        if "B" in spec["perm"]:
            blorder(P, maps, cls, q, cov, report)
    return dict(findings=list(findings.values()), coverage=cov, samples=samples)


def blorder(P, maps, cls, q, cov, report):
    """boundary loops are numbered from the back of the face buffer: a map filled by walking the faces forwards must be reversed once"""
    for f in P.fns.values():
        if f.get("cls") != cls[:-2]:
            continue
        order = {}
        def scan(s, up):
            for t in ([s] if isinstance(s, dict) else []):
                d = up
                if t["s"] == "for" and t.get("inc"):
                    inc = strip(t["inc"])
                    v = strip(inc["a"][0]) if inc.get("a") else {}
                    if inc.get("k") == "un" and inc["op"][:2] in ("++", "--") and v.get("k") == "ref":
                        d = dict(up)
                        d[v["d"]] = 1 if inc["op"][:2] == "++" else -1
                for e0 in stmt_exprs(t):
                    for e in walk(e0):
                        look(e, d)
                for c in sub_stmts(t):
                    scan(c, d)
        def look(e, up):
            if e.get("k") != "call":
                return
            o = strip(e["o"]) if e.get("o") else {}
            if e.get("cn") in ("push_back", "emplace_back", "insert", "push_front") and o.get("k") == "ref" and o.get("dk") == "local" and e.get("a"):
                a = strip(e["a"][-1])
                if a.get("k") == "ref" and a.get("d") in defs:
                    a = strip(defs[a["d"]])
                if a.get("k") == "call" and a.get("cn") == "faceIndToBoundaryLoopInd":
                    v = strip(a["a"][0])
                    if v.get("k") == "ref" and v.get("d") in up:
                        front = e["cn"] in ("insert", "push_front") and any(x.get("cn") in ("begin", "cbegin") for x in walk(e["a"][0])) or e["cn"] == "push_front"
                        if e["cn"] == "insert" and not front:
                            return
                        order.setdefault(o["d"], [-up[v["d"]] * (-1 if front else 1), e.get("l")])
            if e.get("cn") == "reverse" and e.get("a"):
                for x in walk(e["a"][0]):
                    if x.get("k") == "ref" and x.get("d") in order:
                        order[x["d"]][0] *= -1
            if e.get("cn") == "sort" and e.get("a"):
                for x in walk(e["a"][0]):
                    if x.get("k") == "ref" and x.get("d") in order:
                        order[x["d"]][0] = -1 if any(y.get("cn") in ("rbegin", "greater") for z in e["a"] for y in walk(z)) else 1
        defs = {}
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    if v.get("i"):
                        defs[v["d"]] = v["i"]
        scan(f["body"], {})
        for d, (sign, line) in order.items():
            cov["obligations"] += 1
            cov["loop_order"] = cov.get("loop_order", 0) + 1
            if sign != 1:
                report("blorder:%s" % short(f["q"]), "%s lists the surviving boundary loops in reverse order, so boundary loop data moves to the wrong loop" % short(f["q"]), P.loc(f, line))


def fill_rules(P, f, d, want, k, spec, q, cls):
    """how a renumbering map is filled: a new-to-old map lists the old number of every live element, an old-to-new map holds new numbers;
    both are filled by one pass over all elements ever created, dead ones skipped"""
    out = []
    defs, counters, loops = {}, set(), {}
    store = {"B": ("F", "B"), "E": ("E", "H")}.get(k, (k,))
    for s in walk_stmts(f["body"]):
        if s["s"] == "decl":
            for v in s["vs"]:
                if v.get("i"):
                    defs[v["d"]] = v["i"]
        if s["s"] == "for":
            v = next((x for x in walk(s["inc"]) if x.get("k") == "ref"), None) if s.get("inc") else None
            if v is not None:
                loops[v["d"]] = s
    for e in P_exprs(f):
        if e.get("k") == "un" and e["op"][:2] == "++" and strip(e["a"][0]).get("k") == "ref" and strip(e["a"][0])["d"] not in loops:
            counters.add(strip(e["a"][0])["d"])

    def full(x, depth=0):
        for y in walk(x):
            yield y
            if y.get("k") == "ref" and y.get("d") in defs and y["d"] not in loops and y["d"] not in counters and depth < 5:
                yield from full(defs[y["d"]], depth + 1)

    def new_number(x):
        for y in full(x):
            if y.get("k") == "ref" and y.get("d") in counters:
                return True
            if y.get("k") == "call" and y.get("cn") in ("size", "[]") or y.get("k") == "idx":
                return True
            if y.get("k") == "call" and y.get("op") == "[]":
                return True
        return False

    def old_number(x):
        return any(y.get("k") == "ref" and y.get("d") in loops for y in full(x))

    counters_of = {q[x] for t in ("cap", "fill") for x in spec[t].values()} | {cls + x.replace("FillCount", "Count") for x in spec["fill"].values()}
    # where the slots in use end: behind the filled ones, or (boundary loops) in front of the loops at the back of the face buffer
    limits = set()
    for y in store:
        if y in spec["fill"]:
            limits.add((((q[spec["fill"][y]], 1),), 0))
        if y in spec["cap"]:
            limits.add((((q[spec["cap"][y]], 1),), 0))
    if "B" in store and "B" in spec["fill"]:
        limits.discard((((q[spec["fill"]["B"]], 1),), 0))
        limits.add((tuple(sorted([(q[spec["cap"]["F"]], 1), (q[spec["fill"]["B"]], -1)])), 0))
    elif "F" in store and "B" in spec["fill"]:
        limits.add((tuple(sorted([(q[spec["cap"]["F"]], 1), (q[spec["fill"]["B"]], -1)])), 0))

    def form(x, iv, depth=0):
        """linear form over the counters of the class and the loop variable"""
        x = strip(x)
        if x.get("k") == "lit":
            try:
                return {}, int(str(x["v"]).rstrip("uUlL"))
            except ValueError:
                return None
        if x.get("k") == "mem" and x.get("q") in counters_of:
            return {x["q"]: 1}, 0
        if x.get("k") == "ref":
            if x.get("d") == iv:
                return {"i": 1}, 0
            if x.get("d") in defs and x["d"] not in loops and x["d"] not in counters and depth < 4:
                return form(defs[x["d"]], iv, depth + 1)
            return None
        if x.get("k") == "bin" and x["op"] in ("+", "-"):
            a, b = form(x["a"][0], iv, depth), form(x["a"][1], iv, depth)
            if a is None or b is None:
                return None
            sg = 1 if x["op"] == "+" else -1
            o = dict(a[0])
            for kk, c in b[0].items():
                o[kk] = o.get(kk, 0) + sg * c
            return {kk: c for kk, c in o.items() if c}, a[1] + sg * b[1]
        return None

    def loopvar(loop):
        v = next((x for x in walk(loop["inc"]) if x.get("k") == "ref"), None) if loop.get("inc") else None
        return v["d"] if v else None

    def thresholds(guards, loop):
        """T for every comparison of the loop variable against the counters, written i >= T"""
        iv, todo = loopvar(loop), [c for c, _ in guards]
        seen = 0
        while todo and seen < 40:
            seen += 1
            c = strip(todo.pop())
            if c.get("k") == "ref" and c.get("d") in defs and c["d"] not in loops:
                todo.append(defs[c["d"]])
            elif c.get("k") == "un" and c["op"] == "!" or c.get("k") == "bin" and c["op"] in ("&&", "||"):
                todo += c["a"]
            elif c.get("k") == "bin" and c["op"] in ("<", "<=", ">", ">="):
                a, b = form(c["a"][0], iv), form(c["a"][1], iv)
                if a is None or b is None:
                    continue
                d = dict(a[0])
                for kk, cc in b[0].items():
                    d[kk] = d.get(kk, 0) - cc
                k0, op = a[1] - b[1], c["op"]
                ci = d.pop("i", 0)
                d = {kk: cc for kk, cc in d.items() if cc}
                if ci not in (1, -1) or not d:
                    continue
                if ci < 0:
                    d, k0 = {kk: -cc for kk, cc in d.items()}, -k0
                    op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                # i + d + k0 op 0:  i >= T (or its complement i < T)
                t = {kk: -cc for kk, cc in d.items()}, -k0 + (1 if op in (">", "<=") else 0)
                yield tuple(sorted(t[0].items())), t[1]

    def pairing(v, guards, loop):
        """implicit twins: the halfedges 2e and 2e + 1 belong to edge e, which is to be listed once"""
        iv = loopvar(loop)
        def val(x, i, depth=0):
            x = strip(x)
            if x.get("k") == "lit":
                try:
                    return int(str(x["v"]).rstrip("uUlL"))
                except ValueError:
                    return None
            if x.get("k") == "ref":
                if x.get("d") == iv:
                    return i
                return val(defs[x["d"]], i, depth + 1) if x.get("d") in defs and x["d"] not in loops and depth < 4 else None
            if x.get("k") == "bin" and len(x["a"]) == 2:
                a, b = val(x["a"][0], i, depth), val(x["a"][1], i, depth)
                if a is None or b is None:
                    return None
                try:
                    return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else None, "%": a % b if b else None, ">>": a >> b if 0 <= b < 64 else None, "&": a & b,
                            "==": int(a == b), "!=": int(a != b)}.get(x["op"])
                except (ValueError, OverflowError):
                    return None
            return None
        def holds(c, i):
            c = strip(c)
            if c.get("k") == "bin" and c["op"] == "&&":
                a, b = holds(c["a"][0], i), holds(c["a"][1], i)
                return False if a is False or b is False else None if a is None or b is None else True
            x = val(c, i)
            return None if x is None else bool(x)
        b = strip(strip(loop["c"])["a"][1]) if loop.get("c") and strip(loop["c"]).get("k") == "bin" else {}
        if iv is None or b.get("q") not in {q[x["H"]] for x in (spec["cap"], spec["fill"])}:
            return None
        if loop.get("init"):
            start = next((strip(x["i"]) for x in loop["init"].get("vs", ()) if x.get("i") and x["d"] == iv), None) if loop["init"]["s"] == "decl" else None
            inc = strip(loop["inc"])
            if start is None or start.get("v") not in ("0", 0) or not (inc.get("k") == "un" and inc["op"][:2] == "++"):
                return None
        listed = []
        for i in range(8):
            st = [holds(c, i) is not (not t) if holds(c, i) is not None else True for c, t in guards]
            if all(st):
                x = val(v, i)
                if x is None:
                    return None
                listed.append(x)
        if listed != [0, 1, 2, 3]:
            return "the map of the implicit-twin edges does not list the edge of every second halfedge once"
        return None

    def visit(s, guards, loop):
        """guards: [(condition, truth)]"""
        if s["s"] == "block":
            g = list(guards)
            for c in s["b"]:
                visit(c, g, loop)
                if c["s"] == "if" and not c.get("e") and leaves(c["t"]):
                    g.append((c["c"], False))
            return
        if s["s"] == "if":
            visit(s["t"], guards + [(s["c"], True)], loop)
            if s.get("e"):
                visit(s["e"], guards + [(s["c"], False)], loop)
            return
        if s["s"] == "for":
            loop = s
            guards = []
        if s["s"] in ("rfor", "while", "do"):
            loop = None
        for e0 in stmt_exprs(s):
            for e in walk(e0):
                v = None
                o = strip(e["o"]) if e.get("o") else {}
                if e.get("k") == "call" and e.get("cn") in ("push_back", "emplace_back") and o.get("k") == "ref" and o.get("d") == d:
                    v = e["a"][0]
                elif e.get("k") == "asg" and e["op"] == "=":
                    l = strip(e["a"][0])
                    b = l.get("o") if l.get("k") == "call" and l.get("op") == "[]" else l["a"][0] if l.get("k") == "idx" else None
                    if b is not None and strip(b).get("k") == "ref" and strip(b).get("d") == d:
                        v = e["a"][1]
                if v is None or loop is None:
                    continue
                line = e.get("l")
                if want == "new2old" and new_number(v) and not strip(v).get("cn") == "faceIndToBoundaryLoopInd":
                    out.append(("new", "the map from new to old %s numbers is filled with new numbers" % NAME[k], line))
                if want == "old2new" and not new_number(v) and old_number(v):
                    out.append(("old", "the map from old to new %s numbers is filled with old numbers" % NAME[k], line))
                dead = []
                for c, truth in guards:
                    dead += dead_tests(c, truth, defs)
                if not dead:
                    out.append(("dead", "compaction keeps the numbers of deleted %s" % PLURAL[k], line))
                if want == "new2old" and k == "E" and "H" in spec["fill"]:
                    msg = pairing(v, guards, loop)
                    if msg:
                        out.append(("pair", msg, line))
                for th in thresholds(guards, loop):
                    if th not in limits:
                        out.append(("limit", "the compaction pass over %s tells used slots from unused ones by %s" % (PLURAL[k], " ".join(
                            ("+" if c > 0 else "-") + ("" if abs(c) == 1 else str(abs(c))) + short(a) for a, c in th[0]) + (" %+d" % th[1] if th[1] else "")), line))
                for nm, alive in dead:
                    if not alive:
                        out.append(("dead", "compaction keeps only the numbers of deleted %s" % PLURAL[k], line))
                    elif nm and KIND.get(nm) and KIND[nm] not in store:
                        out.append(("kind", "compaction of %s skips dead %s" % (PLURAL[k], PLURAL[KIND[nm]]), line))
                c = strip(loop["c"]) if loop.get("c") else {}
                if c.get("k") == "bin" and c["op"] in ("<", "!="):
                    b = strip(c["a"][1])
                    okb = {q[x[y]] for x in (spec["cap"], spec["fill"]) for y in store if y in x}
                    if b.get("k") == "mem" and b.get("q", "").startswith(cls) and b["q"] not in okb:
                        out.append(("range", "the compaction pass over %s stops at %s, not at the end of the used slots" % (PLURAL[k], short(b["q"])), line))
        for c in sub_stmts(s):
            visit(c, guards, loop)
    visit(f["body"], [], None)
    return out


def leaves(s):
    b = s["b"] if s["s"] == "block" else [s]
    return bool(b) and b[-1]["s"] in ("continue", "break", "return") or bool(b) and b[-1]["s"] == "expr" and b[-1]["e"].get("k") == "throw"


def dead_tests(c, truth, defs):
    """liveness tests implied by a condition having the given truth value: [(name, whether it says alive)]"""
    c = strip(c)
    if c.get("k") == "un" and c["op"] == "!":
        return dead_tests(c["a"][0], not truth, defs)
    if c.get("k") == "bin" and c["op"] in ("&&", "||") and (c["op"] == "&&") == truth:
        return dead_tests(c["a"][0], truth, defs) + dead_tests(c["a"][1], truth, defs)
    if c.get("k") == "call" and (c.get("cn") or "").endswith("IsDead"):
        return [(c["cn"], not truth)]
    if c.get("k") == "call" and (c.get("cn") or "").endswith("isDead"):
        return [(None, not truth)]
    if c.get("k") == "bin" and c["op"] in ("==", "!=") and any((strip(x).get("n") or "") == "INVALID_IND" for x in c["a"]):
        return [(None, (c["op"] == "!=") == truth)]
    if c.get("k") == "ref" and c.get("d") in defs:
        return dead_tests(defs[c["d"]], truth, {})
    if c.get("k") == "ref" or c.get("k") == "call" and c.get("op") in ("[]", "()"):
        return [(None, True)]
    return []


KIND = {"vertexIsDead": "V", "halfedgeIsDead": "H", "edgeIsDead": "E", "faceIsDead": "F", "pointIsDead": "P"}


def direction(f, d):
    """whether a local map is filled with the old numbers a loop runs over, or addressed by them"""
    lv, out = set(), set()
    for s in walk_stmts(f["body"]):
        if s["s"] == "for" and s.get("inc"):
            for x in walk(s["inc"]):
                if x.get("k") == "un" and x["op"][:2] in ("++", "--") and strip(x["a"][0]).get("k") == "ref":
                    lv.add(strip(x["a"][0])["d"])
    def isvar(x):
        x = strip(x)
        return x.get("k") == "ref" and x.get("d") in lv
    for e in P_exprs(f):
        if e.get("k") == "call" and e.get("cn") in ("push_back", "emplace_back") and strip(e["o"]).get("d") == d and strip(e["o"]).get("k") == "ref":
            if isvar(e["a"][0]) or strip(e["a"][0]).get("cn") == "faceIndToBoundaryLoopInd":
                out.add("new2old")
        if e.get("k") == "asg" and e["op"] == "=":
            l = strip(e["a"][0])
            base = l.get("o") if l.get("k") == "call" and l.get("op") == "[]" else l["a"][0] if l.get("k") == "idx" else None
            if base is not None and strip(base).get("k") == "ref" and strip(base).get("d") == d:
                i = l["a"][0] if l.get("k") == "call" else l["a"][1]
                if isvar(i):
                    out.add("old2new")
                elif isvar(e["a"][1]):
                    out.add("new2old")
    return next(iter(out)) if len(out) == 1 else None


def P_exprs(f):
    yield from walk_stmt(f["body"])


def has(t, x):
    """term t mentions x without x being shadowed inside a max"""
    if t == x:
        return True
    return isinstance(t, tuple) and t[:2] != ("op", "max") and any(has(c, x) for c in t if isinstance(c, tuple))


def called_on(e, lst):
    """event: a function taken from the list is called"""
    o = e.obj
    return bool(o and o[0] == "el" and o[1] == lst)


def is_update(e, arr):
    """an assignment  x = map[x]  to the elements of arr, for all of them"""
    if e.kind != "asg" or not e.ctx or e.obj[0] not in ("el", "idx") or e.obj[1] != arr:
        return False
    v = e.args[0]
    return v[0] == "idx"


def mutates(P, f, members):
    for e in P.exprs(f):
        if e.get("k") == "asg" or e.get("k") == "un" and e["op"][:2] in ("++", "--"):
            t = strip(e["a"][0])
            if t.get("k") == "mem" and t.get("q") in members:
                return True
        if e.get("k") == "call":
            o = e.get("o")
            if o is not None and strip(o).get("q") in members and e.get("cn") in ("resize", "assign", "swap") or e.get("op") == "=" and strip(o or {}).get("q") in members:
                return True
            for a in e.get("a") or ():
                if strip(a).get("k") == "mem" and strip(a).get("q") in members and e.get("m"):
                    return True
    for s in walk_stmts(f["body"]):
        if s["s"] == "rfor" and strip(s["r"]).get("q") in members:
            return True
    return False


def writes(P, f, caps):
    for e in P.exprs(f):
        if e.get("k") == "asg" and strip(e["a"][0]).get("q") in caps:
            return True
    return False


def is_copy(P, f, caps):
    """capacity fields of another object are assigned from one's own (a copy), not grown"""
    n = m = 0
    for e in P.exprs(f):
        if e.get("k") == "asg" and strip(e["a"][0]).get("q") in caps:
            m += 1
            if strip(e["a"][1]).get("q") == strip(e["a"][0]).get("q"):
                n += 1
    return m and n == m


def in_compress(f, callers, P):
    todo, seen = [f["m"]], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in P.fns and P.fns[x]["n"] == "compress":
            return True
        todo += list(callers.get(x, ()))
    return False
