"""C20: mutation manager - constraints are respected and policies see every mutation."""
import itertools
from ir import *
from trace import *
from extract import AnalysisBroken

RULE = ("path-wise event-order analysis of every public operation of the mutation manager with its helpers interpreted in place: a mesh mutation only "
        "happens on paths where the constraint for its element is known to hold; on every path that reports success each registered policy of the matching "
        "kind gets its before-event once before and its after-event once after the mutation, with the same element and parameter; the new vertex gets the "
        "requested position in between; interpolation is exact at both ends; registration and removal treat every policy list, and destroy the policy last; "
        "the constraint predicates are decided by truth table; handler adapters call the right function with the event's arguments")
MIN = {"operations": 6, "success_paths": 10, "policy_lists": 4, "predicates": 4, "adapters": 4, "constraint_fields": 4}
S = "geometrycentral::surface::"
MM = S + "MutationManager"
# kind of mutation -> (name fragment of the policy class, constraint field, has after event)
KINDS = {"flip": ("EdgeFlip", "flippableEdges", True), "splitEdge": ("EdgeSplit", "splittableEdges", True), "collapseEdge": ("EdgeCollapse", "collapsibleEdges", True),
         "insertVertex": ("FaceSplit", "splittableFaces", True), "reposition": ("VertexReposition", "repositionableVertices", False)}


MODOPS = ("operator=", "operator+=", "operator-=", "operator*=", "operator/=")


class Any:
    def __contains__(self, x):
        return True


def terms(t):
    if isinstance(t, tuple) and t:
        yield t
        for c in t:
            yield from terms(c)


def analyse(P):
    findings, samples = {}, []
    cov = dict(operations=0, success_paths=0, failure_paths=0, policy_lists=0, predicates=0, adapters=0, constraint_fields=0, obligations=0, undecided=0)

    def report(key, msg, loc):
        findings.setdefault(key, dict(key=key, msg=msg, loc=loc))

    def ob(n=1):
        cov["obligations"] += n
    if MM not in P.recs:
        raise AnalysisBroken("no class " + MM)
    flds = {x["n"]: x["t"] for x in P.recs[MM]["fields"]}
    lists = {}
    for n, t in flds.items():
        if "vector<" in t and "Policy *" in t and "unique_ptr" not in t:
            lists[n] = t.split("<")[1].split("Policy *")[0].split("::")[-1]  # element class without 'Policy'
    owned = [n for n, t in flds.items() if "unique_ptr<" in t and "Policy" in t]
    cons = {n: t for n, t in flds.items() if t.endswith("bool>") and "MeshData<" in t}
    cov["policy_lists"], cov["constraint_fields"] = len(lists), len(cons)
    methods = [f for f in P.fns.values() if f.get("cls") == MM]
    readers = {}
    for f in methods:
        if f.get("const") and f.get("r", "") == "bool":
            fs = {strip(e).get("q", "").split("::")[-1] for e in P.exprs(f) if e.get("k") == "mem"} & set(cons)
            if fs:
                readers[f["n"]] = fs
    preds(P, methods, readers, cov, report, ob)
    helpers = {"pushIfSubclass", "removeFromVector", "removeUniquePtrFromVector"}

    def inline(g, o):
        if g["n"] in readers:
            return False
        return g.get("cls") == MM or not g.get("cls") and g["f"].endswith(("mutation_manager.cpp", "mutation_manager.ipp"))

    posf = ("vertexPositions", "inputVertexPositions")

    def ispos(t):
        return isinstance(t, tuple) and t[0] == "F" and t[2].split("::")[-1] in posf

    def keep(e):
        return e.kind in ("asg", "brk") or e.kind == "call" and (e.obj is None or e.obj[0] in ("el", "F", "this", "idx"))

    def mutkind(e):
        if e.obj and e.obj[0] == "idx" and ispos(e.obj[1]) and (e.kind == "asg" or e.kind == "call" and e.name.split("::")[-1] in MODOPS):
            return "position"
        if e.kind == "call" and e.obj and e.obj[0] == "F" and e.obj[2] == MM + "::mesh":
            n = e.name.split("::")[-1]
            g = [x for x in P.byq.get(e.name, ())]
            if g and all(x.get("const") for x in g):
                return None
            for k in ("flip", "splitEdge", "collapseEdge", "insertVertex"):
                if n.startswith(k):
                    return k
        return None

    for f in methods:
        if f.get("kind") in ("ctor", "dtor") or f.get("const") or f.get("acc", 0) != 0 and f["n"] not in ("repositionVertex",):
            continue
        tr = Trace(P, inline, keep=keep, cap=2000)
        tr.callfacts = Any()
        tr.nounion = True
        try:
            res = tr.run(f)
        except TooMany:
            cov["undecided"] += 1
            continue
        where = "%s(%s)" % (short(f["q"]), ", ".join(p["n"] for p in f["ps"]))
        key = "%s/%s" % (short(f["q"]), ",".join(p["n"] for p in f["ps"]))
        used = False
        for st, ret in res:
            mk = [(i, mutkind(e), e) for i, e in enumerate(st.ev)]
            mk = [x for x in mk if x[1]]
            if not mk:
                # a policy told of something that does not happen
                pe = [e for e in st.ev if policy_call(e, lists, tr)]
                if pe:
                    report("nomut:%s" % key, "%s notifies policies on a path that does not change the mesh" % where, P.loc(f))
                continue
            used = True
            kinds = [k for _, k, _ in mk if k != "position"]
            newpos = [(i, e) for i, k, e in mk if k == "position"]
            if not kinds:
                kinds = ["reposition"]
            kind = kinds[0]
            if len(set(kinds)) > 1:
                cov["undecided"] += 1
                continue
            frag, cfield, hasafter = KINDS[kind]
            muts = [(i, e) for i, k, e in mk if k == kind] if kind != "reposition" else newpos
            elem = muts[0][1].args[0] if kind != "reposition" else newpos[0][1].obj[2]
            evs = [(i, e, policy_call(e, lists, tr)) for i, e in enumerate(st.ev) if policy_call(e, lists, tr)]
            B = [(i, e) for i, e, l in evs if e.name.split("::")[-1].startswith("before")]
            A = [(i, e) for i, e, l in evs if e.name.split("::")[-1].startswith("after")]
            fail = ret[0] == "obj" and not ret[2] or ret == ("lit", "false") or \
                any(k[0] == "fact" and v is True and k[1][0] == "op" and k[1][1] == "==" and k[1][2] == ret and isdefault(k[1][3]) for k, v in st.env.items())
            ob(6)
            # ---- constraint
            ok = False
            for k, v in st.env.items():
                if k[0] != "fact":
                    continue
                t = k[1]
                if t[0] == "call" and t[1] in readers and cfield in readers[t[1]] and v is True and elem in t[3]:
                    ok = True
                if t[0] != "call" and any(x[0] == "F" and len(x) > 2 and x[2] == MM + "::" + cfield for x in terms(t)):
                    ok = True
            if not ok:
                report("guard:%s" % key, "%s changes the mesh without having checked that the %s constraint allows it" % (where, cfield), P.loc(f, muts[0][1].line if muts[0][1].fn == f["q"] else None))
            if fail:
                cov["failure_paths"] += 1
                if A:
                    report("failafter:%s" % key, "%s tells policies that the mutation happened but reports failure" % where, P.loc(f))
                if kind == "flip" and B:
                    report("failbefore:%s" % key, "%s announces a flip which it then refuses, so its end is never announced" % where, P.loc(f))
                continue
            cov["success_paths"] += 1
            last = muts[-1][0]
            mm = next((x for x in P.byq.get(muts[-1][1].name, ())), None) if kind != "reposition" else None
            if mm and may_fail(mm):
                ob()
                m1 = muts[-1][1]
                mc = ("call", m1.name.split("::")[-1], m1.obj, m1.args)
                if not any(k[0] == "fact" and k[1][0] == "op" and k[1][2] == mc and v is False for k, v in st.env.items()):
                    report("unchecked:%s" % key, "%s goes on as if %s could not fail" % (where, short(m1.name)), P.loc(f, m1.line))
            if kind == "flip" and len(muts) % 2 == 0:
                report("parity:%s" % key, "%s flips the edge back and reports success" % where, P.loc(f))
            for what, L in [("before", B)] + ([("after", A)] if hasafter else []):
                L = [(i, e) for i, e in L if lists[policy_call(e, lists, tr)] == frag]
                if len(L) != 1 or not L[0][1].ctx:
                    report("%s:%s" % (what, key), "%s %s the %s-event of %s policies" % (where, "does not send" if not L else "sends more than once", what, frag), P.loc(f))
                    continue
                i, e = L[0]
                nb = sum(1 for j, _ in muts if j > i)
                if what == "before" and (nb != 1):
                    report("order:%s:%s" % (what, key), "%s sends the before-event of %s policies at the wrong time (%d mutations follow it)" % (where, frag, nb), P.loc(f, e.line if e.fn == f["q"] else None))
                if what == "after" and i < last:
                    report("order:%s:%s" % (what, key), "%s sends the after-event of %s policies before the mutation is done" % (where, frag), P.loc(f, e.line if e.fn == f["q"] else None))
                if what == "before" and e.args and e.args[0] != elem:
                    report("elem:%s:%s" % (what, key), "%s announces a different element than the one it changes" % where, P.loc(f, e.line if e.fn == f["q"] else None))
                if what == "after" and e.args:
                    want = elem if kind == "flip" else ("call", muts[-1][1].name.split("::")[-1])
                    got = e.args[0]
                    if kind == "flip" and got != elem or kind != "flip" and not any(x[:2] == want for x in terms(got) if isinstance(x, tuple)):
                        report("elem:%s:%s" % (what, key), "%s reports an element in the after-event which does not come from the mutation" % where, P.loc(f, e.line if e.fn == f["q"] else None))
            for e in st.ev:
                if e.kind == "brk" and any(x.ctx == e.ctx and policy_call(x, lists, tr) for x in st.ev):
                    report("stop:%s" % key, "%s stops notifying policies after one of them" % where, P.loc(f))
            if any(lists[l] != frag for _, _, l in evs):
                report("kind:%s" % key, "%s notifies policies of another kind of mutation" % where, P.loc(f))
            # ---- parameter
            b = next((e for _, e in B), None)
            a = next((e for _, e in A), None)
            if b is not None and len(b.args) > 1:
                t = b.args[1]
                if a is not None and len(a.args) > 1 and a.args[-1] != t and kind != "reposition":
                    report("param:%s" % key, "%s passes different parameters to the before- and after-events" % where, P.loc(f))
                own = [p["n"] for p in f["ps"] if p["t"].replace("const ", "").rstrip(" &") in ("double",) or "vector<double" in p["t"]]
                if kind != "reposition" and own and t != ("P", own[0]):
                    report("param:%s" % key, "%s does not pass its parameter %s on to the policies" % (where, own[0]), P.loc(f))
                if t[0] in ("lit", "un"):
                    report("param:%s" % key, "%s passes the constant %s to the policies instead of the location of the new vertex" % (where, t[-1] if t[0] == "lit" else "-" + str(t[2][-1])), P.loc(f))
                for x in terms(t):
                    if x[0] == "call" and x[1].startswith("pointLineSegmentNea") and len(x[3]) == 3:
                        ob()
                        u, v = endpoint(x[3][1], elem, ispos), endpoint(x[3][2], elem, ispos)
                        if u == "tip" and v == "tail" or x[3][0] not in [("P", p["n"]) for p in f["ps"]]:
                            report("nearest:%s" % key, "%s measures the location from the wrong end of the edge" % where, P.loc(f))
            if kind == "reposition":
                ob()
                pe, off = newpos[-1][1], [p["n"] for p in f["ps"] if "Vector3" in p["t"]]
                n = pe.name.split("::")[-1] if pe.kind == "call" else pe.name
                v = linear(pe.args[0], (), 0)
                want = {("P", off[0]): 1.0} if off else None
                if n in ("operator=", "=") and want:
                    want[pe.obj] = 1.0
                if want and v is not None and (n not in ("+=", "operator+=", "=", "operator=") or v != want):
                    report("offset:%s" % key, "%s does not move the vertex by %s" % (where, off[0]), P.loc(f))
            # ---- position of the new vertex
            geo = ("op", "==", ("F", ("this",), MM + "::geometry"), ("null",))
            null = st.env.get(("fact", geo)) is True
            if kind in ("splitEdge", "collapseEdge", "insertVertex") and not null:
                mcall = ("call", muts[-1][1].name.split("::")[-1])
                W = [(i, e) for i, e in newpos if any(x[:2] == mcall for x in terms(e.obj[2]))]
                if not W:
                    report("nopos:%s" % key, "%s does not give the new vertex a position" % where, P.loc(f))
                else:
                    i, e = W[-1]
                    if A and i > min(j for j, _ in A):
                        report("latepos:%s" % key, "%s sets the position of the new vertex only after the after-events" % where, P.loc(f))
                    v = e.args[0]
                    pp = [p["n"] for p in f["ps"] if "Vector3" in p["t"]]
                    if pp and v != ("P", pp[0]):
                        report("pos:%s" % key, "%s does not put the new vertex at %s" % (where, pp[0]), P.loc(f))
                    bary = [p for p in f["ps"] if "vector<double" in p["t"]]
                    if bary and not pp:
                        for y in P.exprs(f):
                            if y.get("k") == "idx" or y.get("k") == "call" and y.get("op") == "[]":
                                a = y["a"] if y.get("k") == "idx" else [y["o"]] + y["a"]
                                if strip(a[0]).get("d") == bary[0]["d"] and strip(a[1]).get("k") == "lit":
                                    report("bary:%s" % key, "%s weights the corners with the constant coordinate %s" % (where, strip(a[1])["v"]), P.loc(f, y.get("l")))
                    tp = [p["n"] for p in f["ps"] if p["t"].replace("const ", "").rstrip(" &") == "double"]
                    if not pp and tp and kind != "insertVertex":
                        ob(2)
                        for val, end in ((0, "tail"), (1, "tip")):
                            lin = linear(v, ("P", tp[0]), val)
                            if lin is None:
                                cov["undecided"] += 1
                                break
                            lin = {k: c for k, c in lin.items() if abs(c) > 1e-12}
                            ks = list(lin)
                            if len(ks) != 1 or abs(lin[ks[0]] - 1) > 1e-12 or endpoint(ks[0], elem, ispos) not in (end, None):
                                report("interp:%s" % key, "%s does not place the vertex at the %s of the edge for %s = %d" % (where, end, tp[0], val), P.loc(f))
        if used:
            cov["operations"] += 1
            samples.append("%s: %d paths" % (where, len(res)))
    registration(P, methods, inline, lists, owned, cov, report, ob)
    adapters(P, cov, report, ob)
    setters(P, methods, cons, readers, cov, report, ob)
    splitcache(P, methods, cons, readers, cov, report, ob)
    return dict(findings=list(findings.values()), coverage=cov, samples=samples)


def policy_call(e, lists, tr=None):
    """name of the policy list whose elements - all of them - the call is made on"""
    if e.kind != "call" or not e.obj:
        return None
    if e.obj[0] == "el" and e.obj[1][0] == "F":
        n = e.obj[1][2].split("::")[-1]
        return n if n in lists else None
    if e.obj[0] == "idx" and e.obj[1][0] == "F" and e.obj[2][0] == "phi" and e.ctx:
        n = e.obj[1][2].split("::")[-1]
        if n in lists:
            _, d, line = e.obj[2]
            for v, st, op, bound, step in tr.loops.get(line, ()):
                up = st == ("lit", "0") and op in ("<", "!=") and bound == ("size", e.obj[1]) and step == "++"
                if v == d and up:
                    return n
    return None


def may_fail(g):
    """the mesh operation has a path returning a default-constructed (invalid) element"""
    for s in walk_stmts(g["body"]):
        if s["s"] == "return" and s.get("e"):
            e = strip(s["e"])
            while e.get("k") == "ctor" and len(e.get("a") or []) == 1:
                e = strip(e["a"][0])
            if e.get("k") == "ctor" and not e.get("a"):
                return True
    return False


def endpoint(t, elem, ispos):
    if not (isinstance(t, tuple) and t[0] == "idx" and ispos(t[1])):
        return None
    v = t[2]
    he = ("call", "halfedge", elem, ())
    tw = ("call", "twin", he, ())
    if v in (("call", "tailVertex", he, ()), ("call", "vertex", he, ()), ("call", "firstVertex", elem, ()), ("call", "tipVertex", tw, ())):
        return "tail"
    if v in (("call", "tipVertex", he, ()), ("call", "vertex", tw, ()), ("call", "secondVertex", elem, ()), ("call", "tailVertex", tw, ()), ("call", "vertex", ("call", "next", he, ()), ())):
        return "tip"
    return None


def linear(t, var, val):
    """t as a linear combination of atoms with var := val; None if not of that form"""
    def num(x):
        if x == var:
            return float(val)
        if x[0] == "lit":
            try:
                return float(x[1].rstrip("fFlLuU"))
            except ValueError:
                return None
        if x[0] == "un" and x[1] == "-":
            a = num(x[2])
            return None if a is None else -a
        if x[0] == "op" and x[1] in "+-*/":
            a, b = num(x[2]), num(x[3])
            if a is None or b is None:
                return None
            return a + b if x[1] == "+" else a - b if x[1] == "-" else a * b if x[1] == "*" else a / b if b else None
        return None
    n = num(t)
    if n is not None:
        return {(): n} if n else {}
    op, args = None, None
    if t[0] == "op":
        op, args = t[1], (t[2], t[3])
    elif t[0] == "call" and t[1].startswith("operator"):
        op = t[1][8:]
        args = ((t[2],) if t[2] else ()) + t[3]
    if op in ("+", "-") and len(args) == 2:
        a, b = linear(args[0], var, val), linear(args[1], var, val)
        if a is None or b is None:
            return None
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + (c if op == "+" else -c)
        return r
    if op == "*" and len(args) == 2:
        for x, y in (args, args[::-1]):
            n = num(x)
            if n is not None:
                a = linear(y, var, val)
                return None if a is None else {k: c * n for k, c in a.items()}
        return None
    if t[0] == "idx" or t[0] in ("P", "F"):
        return {t: 1.0}
    return None


# ------------------------------------------------------------------------------------------------ constraint predicates
def preds(P, methods, readers, cov, report, ob):
    for f in methods:
        if f["n"] not in readers or not f.get("const"):
            continue
        cov["predicates"] += 1
        fs = sorted(readers[f["n"]])
        tr = Trace(P, lambda g, o: False, keep=lambda e: False, cap=2000)
        tr.callfacts = Any()
        cases = [({x: (True, False) for x in fs}, True), ({x: (False, True) for x in fs}, True)]
        for x in fs:
            cases.append(({y: (y != x, False) if y != x else (False, False) for y in fs}, False))
            cases.append(({y: (False, y != x) for y in fs}, False))

        def atom(t):
            """(field, 'empty'/'flag', polarity)"""
            def fld(x):
                return x[2].split("::")[-1] if isinstance(x, tuple) and x[0] == "F" and x[2].startswith(MM + "::") else None
            if t[0] == "op" and t[3] == ("lit", "0") and t[2][0] in ("size", "call"):
                x = t[2]
                n = fld(x[1]) if x[0] == "size" else fld(x[2]) if x[1] == "size" else None
                if n in fs:
                    return (n, "empty", t[1] in ("==", "<="))
            if t[0] == "idx" and fld(t[1]) in fs:
                return (fld(t[1]), "flag", True)
            return None

        def ev(t, asg):
            t, pos = normal(t)
            if t in (("lit", "true"), ("lit", "1")):
                return pos
            if t in (("lit", "false"), ("lit", "0")):
                return not pos
            if t[0] == "op" and t[1] in ("&&", "||"):
                a, b = ev(t[2], asg), ev(t[3], asg)
                r = (False if False in (a, b) else None if None in (a, b) else True) if t[1] == "&&" else (True if True in (a, b) else None if None in (a, b) else False)
                return None if r is None else r == pos
            a = atom(t)
            if a is None:
                return None
            v = asg[a[0]][0 if a[1] == "empty" else 1]
            return (v == a[2]) == pos
        tr.decide = None
        for asg, want in cases:
            ob()
            tr = Trace(P, lambda g, o: False, keep=lambda e: False, decide=lambda t: ev(t, asg), cap=2000)
            got = {ev(r, asg) for _, r in tr.run(f)}
            # a loop over the vertices of the element may be left without an iteration
            if None in got or not got:
                cov["undecided"] += 1
            elif want not in got or want is True and False in got or want is False and len(got) > 1 and not any(s["s"] in ("for", "rfor", "while") for s in walk_stmts(f["body"])):
                bad = [x for x in fs if not asg[x][0] and not asg[x][1]]
                report("pred:%s" % f["n"], "%s says %s although %s" % (short(f["q"]), "yes" if not want else "no", "%s forbids it" % bad[0] if bad else "no constraint forbids it"), P.loc(f))


def calls_of(P, f):
    seen = {}
    for e in P.exprs(f):
        g = P.fns.get(e.get("m")) if e.get("k") == "call" else None
        if g is not None and g.get("body"):
            seen[g["m"]] = g
    return seen.values()


def helper_semantics(P, g, name, report, ob):
    """add exactly the policies of the list's type / take exactly the given policy out of the list"""
    vec = [p["n"] for p in g["ps"] if "vector<" in p["t"]]
    if not vec:
        return
    ob()
    L = ("P", vec[0])
    tr = Trace(P, lambda h, o: False, keep=lambda e: e.kind == "call")
    tr.callfacts, tr.nounion = Any(), True
    okp = bad = False
    for st, _ in tr.run(g):
        add = [e for e in st.ev if e.obj == L and e.name.split("::")[-1] in ("push_back", "emplace_back", "insert")]
        rem = [e for e in st.ev if e.obj == L and e.name.split("::")[-1] in ("erase", "pop_back", "resize")] + \
              [e for e in st.ev if e.name.split("::")[-1] in ("removeFromVector",)]
        null = [v for k, v in st.env.items() if k[0] == "fact" and k[1][0] == "op" and k[1][3] == ("null",)]
        eq = [v if k[1][1] != "operator!=" and (k[1][0] != "op" or k[1][1] == "==") else not v for k, v in st.env.items()
              if k[0] == "fact" and k[1][1] in ("==", "!=", "operator==", "operator!=") and k[1][-1] != ("null",)
              and any(y == ("P", p["n"]) for p in g["ps"] for y in terms(k[1]) if p["n"] != vec[0]) and any(y == L for y in terms(k[1]))]
        if name == "registerPolicy":
            if bool(add) == (True in null) and null:
                bad = True
            okp |= bool(add)
        else:
            if rem and False in eq and True not in eq:
                bad = True
            okp |= bool(rem)
    if bad or not okp:
        report("helper:%s" % g["n"], "%s does not %s" % (g["n"], "add exactly the policies of the list's kind" if name == "registerPolicy" else "take the given policy out of the list"), P.loc(g))


# ------------------------------------------------------------------------------------------------ registration
def registration(P, methods, inline, lists, owned, cov, report, ob):
    for name in ("registerPolicy", "removePolicy"):
        fs = [f for f in methods if f["n"] == name]
        if not fs:
            raise AnalysisBroken("no MutationManager::" + name)
        f = fs[0]
        touched, order = {}, []
        for g in calls_of(P, f):
            if g.get("cls") == MM or not g["ps"]:
                continue
            helper_semantics(P, g, name, report, ob)
        tr = Trace(P, lambda g, o: g.get("cls") == MM, keep=lambda e: e.kind == "call")
        for st, _ in tr.run(f):
            t = {}
            for i, e in enumerate(st.ev):
                for x in list(e.args) + [e.obj]:
                    for y in terms(x) if x else ():
                        if y[0] == "F" and len(y) > 2 and y[2].startswith(MM + "::"):
                            t.setdefault(y[2].split("::")[-1], i)
            touched = t if not touched else {k: v for k, v in touched.items() if k in t}
        for l in list(lists) + owned:
            ob()
            if l not in touched:
                report("%s:%s" % (name, l), "%s leaves out %s: %s" % (short(f["q"]), l, "the policy would never be notified or freed" if name == "registerPolicy" else
                       "a removed (and destroyed) policy would still be called"), P.loc(f))
        if name == "removePolicy" and owned and owned[0] in touched:
            late = [l for l in lists if l in touched and touched[l] > touched[owned[0]]]
            ob()
            if late:
                report("removeorder", "%s destroys the policy before taking it out of %s (which inspects it)" % (short(f["q"]), late[0]), P.loc(f))
    h = [f for f in P.fns.values() if f["q"] == S + "MutationPolicyHandle::remove"]
    for f in h:
        ob()
        if not any(e.get("k") == "call" and e.get("cn") == "removePolicy" for e in P.exprs(f)):
            report("handle", "removing a policy handle does not remove the policy", P.loc(f))


# ------------------------------------------------------------------------------------------------ adapters
def adapters(P, cov, report, ob):
    for q, r in P.recs.items():
        if not any("Policy" in b for b in r.get("bases", ())) or not q.startswith(S):
            continue
        funs = [x["n"] for x in r["fields"] if "function<" in x["t"]]
        if len(funs) < 2:
            continue
        cov["adapters"] += 1
        for f in P.fns.values():
            if f.get("cls") != q or not f["n"].startswith(("before", "after")):
                continue
            want = "pre" if f["n"].startswith("before") else "post"
            own = [x for x in funs if x.startswith(want)]
            if not own:
                continue
            tr = Trace(P, lambda g, o: g.get("cls") == q, keep=lambda e: e.kind in ("call", "asg"))
            tr.callfacts = Any()
            called = False
            data = [x["n"] for x in r["fields"] if x["n"] not in funs]
            for st, _ in tr.run(f):
                if data and want == "pre":
                    ob()
                    if not any(e.kind in ("asg", "call") and e.obj and e.obj[0] == "F" and e.obj[2] == q + "::" + data[0] and e.args and any(y[0] == "call" and y[1] == "operator()" for y in terms(e.args[0])) for e in st.ev):
                        report("adapterdata:%s:%s" % (short(q), f["n"]), "%s does not keep what the pre handler returned" % short(f["q"]), P.loc(f))
                for e in st.ev:
                    if e.kind == "call" and e.obj and e.obj[0] == "F" and e.obj[2].split("::")[-1] in funs and e.name.endswith("operator()"):
                        ob()
                        n = e.obj[2].split("::")[-1]
                        if n not in own:
                            report("adapter:%s:%s" % (short(q), f["n"]), "%s calls %s instead of %s" % (short(f["q"]), n, own[0]), P.loc(f, e.line))
                            continue
                        called = True
                        if data and want == "post" and not (e.args and e.args[-1] == ("F", ("this",), q + "::" + data[0])):
                            report("adapterdata:%s:%s" % (short(q), f["n"]), "%s does not hand the pre handler's result to the post handler" % short(f["q"]), P.loc(f, e.line))
                        ps = [p["n"] for p in f["ps"]]
                        got = [y[1] for x in e.args for y in terms(x) if y[0] == "P"]
                        if got != ps[:len(got)]:
                            report("adapterargs:%s:%s" % (short(q), f["n"]), "%s passes the event's arguments in a different order" % short(f["q"]), P.loc(f, e.line))
                if not any(e.kind == "call" and e.obj and e.obj[0] == "F" and e.obj[2].split("::")[-1] == own[0] and e.name.endswith("operator()") for e in st.ev):
                    empty = False
                    for k, v in st.env.items():
                        if k[0] == "fact":
                            mine = [y for y in terms(k[1]) if isinstance(y, tuple) and y[:1] == ("F",) and len(y) > 2 and y[2] == q + "::" + own[0]]
                            eqnull = k[1][0] == "op"
                            if mine and v == eqnull:
                                empty = True
                    ob()
                    if not empty:
                        report("adapter:%s:%s" % (short(q), f["n"]), "%s skips the %s handler although it is set" % (short(f["q"]), want), P.loc(f))
            if not called:
                report("adapter:%s:%s" % (short(q), f["n"]), "%s never calls the registered %s handler" % (short(f["q"]), want), P.loc(f))
    for f in P.fns.values():
        if f.get("cls") != MM or not f["n"].startswith("register") or not f["n"].endswith(("Handler", "Handlers")):
            continue
        ob()
        w = {}
        for e in P.exprs(f):
            if e.get("k") == "call" and e.get("op") == "=" or e.get("k") == "asg":
                l = strip(e["o"]) if e.get("o") else strip(e["a"][0])
                if l.get("k") == "mem" and l["n" if "n" in l else "q"].split("::")[-1] in ("pre", "post"):
                    src = [y["n"] for a in (e["a"] if e.get("o") else e["a"][1:]) for y in walk(a) if y.get("k") == "ref" and y.get("dk") == "param"]
                    w[l["q"].split("::")[-1]] = src
        ps = [p["n"] for p in f["ps"]]
        need = ["pre", "post"] if f["n"].endswith("Handlers") else ["pre"] if "Pre" in f["n"] else ["post"]
        for n, p in zip(need, ps):
            if w.get(n) != [p]:
                report("handlers:%s" % f["n"], "%s does not install its %s handler as such" % (short(f["q"]).split("<")[0], n), P.loc(f))
        if not any(e.get("k") == "call" and e.get("cn") == "registerPolicy" for e in P.exprs(f)):
            report("handlers:%s" % f["n"], "%s does not register the policy it builds" % short(f["q"]).split("<")[0], P.loc(f))


# ------------------------------------------------------------------------------------------------ constraint setters
def setters(P, methods, cons, readers, cov, report, ob):
    for f in methods:
        for pre in ("set", "clear"):
            n = f["n"][len(pre):]
            c = n[:1].lower() + n[1:]
            if f["n"].startswith(pre) and c in cons:
                ob()
                tr = Trace(P, lambda g, o: g.get("cls") == MM, keep=lambda e: e.kind in ("asg", "call"))
                for st, _ in tr.run(f):
                    w = [e for e in st.ev if (e.kind == "asg" or e.kind == "call" and e.name.split("::")[-1] in ("clear", "operator=")) and e.obj == ("F", ("this",), MM + "::" + c)]
                    other = {e.obj[2].split("::")[-1] for e in st.ev if e.kind == "asg" and e.obj[0] == "F" and e.obj[2].split("::")[-1] in cons} - {c}
                    if not w or other:
                        report("setter:%s" % f["n"], "%s does not change %s%s" % (short(f["q"]), c, " but " + ", ".join(other) if other else ""), P.loc(f))
                        continue
                    if pre == "set":
                        if w[-1].kind == "asg" and w[-1].args[0] != ("P", f["ps"][0]["n"]):
                            report("setter:%s" % f["n"], "%s does not store the constraint it is given" % short(f["q"]), P.loc(f))
                        d = [e for e in st.ev if e.kind == "call" and e.name.endswith("setDefault")]
                        if len(f["ps"]) > 1 and not any(e.obj == ("F", ("this",), MM + "::" + c) and e.args and e.args[0] == ("P", f["ps"][1]["n"]) for e in d):
                            report("setterdef:%s" % f["n"], "%s does not apply the default to elements created later" % short(f["q"]), P.loc(f))


def splitcache(P, methods, cons, readers, cov, report, ob):
    """constraints of a split edge are inherited by both halves, each constraint its own"""
    for f in methods:
        if not any(e.get("cn") == "registerEdgeSplitHandlers" for e in P.exprs(f)):
            continue
        lams = {}
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    i = strip(v["i"]) if v.get("i") else {}
                    if i.get("k") == "lam":
                        lams[v["d"]] = i
        for e in P.exprs(f):
            if e.get("cn") != "registerEdgeSplitHandlers":
                continue
            ls = []
            for a in e["a"]:
                a = strip(a)
                while a.get("k") == "ctor" and len(a.get("a") or []) == 1:
                    a = strip(a["a"][0])
                ls.append(a if a.get("k") == "lam" else lams.get(a.get("d")))
            if len(ls) != 2 or None in ls:
                cov["undecided"] += 1
                continue
            frame = {"id": "split", "fn": f, "this": ("this",), "ret": [], "thr": [], "loop": []}
            tr = Trace(P, lambda g, o: False, keep=lambda e: True, cap=2000)
            tr.frames.append(frame)
            pre = tr.inline_lambda((ls[0], frame), St({}, ()), tuple(("P", "pre%d" % i) for i in range(len(ls[0]["ps"]))))
            slots = {}
            for _, r in pre:
                xs = r[1:] if r[0] == "list" else r[2] if r[0] == "obj" else ()
                for i, x in enumerate(xs):
                    if x[0] == "list":
                        xs = x[1:]
                for i, x in enumerate(xs):
                    if x[0] == "call" and x[1] in readers:
                        slots[i] = readers[x[1]]
            if not slots:
                cov["undecided"] += 1
                continue
            old = ("P", "post%d" % (len(ls[1]["ps"]) - 1))
            post = tr.inline_lambda((ls[1], frame), St({}, ()), tuple(("P", "post%d" % i) for i in range(len(ls[1]["ps"]))))
            done = {}
            for st, _ in post:
                for ev in st.ev:
                    if ev.kind == "asg" and ev.obj[0] == "idx" and ev.obj[1][0] == "F" and ev.obj[1][2].split("::")[-1] in cons:
                        c = ev.obj[1][2].split("::")[-1]
                        v = ev.args[0]
                        who = {y[1] for y in terms(ev.obj[2]) if y[0] == "P"}
                        done.setdefault(c, set()).update(who)
                        ob()
                        if v[0] == "idx" and v[1] == old and v[2][0] == "lit" and v[2][1].isdigit():
                            if c not in slots.get(int(v[2][1]), {c}):
                                report("inherit:%s" % c, "after an edge split the new edges inherit %s from another constraint" % c, P.loc(f, ev.line))
            for c in cons:
                if "Edge" in cons[c] and any(c in s for s in slots.values()):
                    ob()
                    if len(done.get(c, ())) < 2:
                        report("inherit:%s" % c, "after an edge split not both halves inherit %s" % c, P.loc(f))
