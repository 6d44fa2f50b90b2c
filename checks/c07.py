"""C07: copies are complete and independent."""
import re
from ir import *
from trace import *
from extract import AnalysisBroken

RULE = ("path-wise effect analysis of every routine that builds a copy (meshes, point clouds, geometries, data containers moved to another mesh) with its "
        "helpers interpreted in place: on every path each data member of the class - enumerated from the class, so a new member is covered - receives the "
        "member of the same name of the original (or is fixed to the same value by every constructor); callback lists are never copied; the copy lives on the "
        "requested mesh; a buffer is never assigned whole to a container of another mesh; conversions to and from dense vectors pair the same entry with the "
        "same element in both directions, for all live elements")
MIN = {"copy_routines": 5, "copied_members": 30, "conversions": 4}
GC = "geometrycentral::"
# change counters compare a container against its own mesh only: a copy may start counting anywhere
NOT_STATE = {"modificationTick"}


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for c in t:
            yield from subterms(c)


def fields_of(P, cls):
    """[(qualified field, type)] including bases"""
    out, todo, seen = [], [cls], set()
    while todo:
        c = todo.pop()
        if c in seen or c not in P.recs:
            continue
        seen.add(c)
        out += [(c + "::" + x["n"], x["t"]) for x in P.recs[c]["fields"]]
        todo += list(P.recs[c].get("bases", ()))
    return out


def bases(P, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c not in out:
            out.append(c)
            todo += list(P.recs.get(c, {}).get("bases", ()))
    return out


def target(o):
    """the new object a term designates: the allocation it comes from"""
    for t in subterms(o):
        if t[0] == "new":
            return t
    return None


def analyse(P):
    findings, samples = {}, []
    cov = dict(copy_routines=0, copied_members=0, conversions=0, mesh_changes=0, obligations=0, undecided=0)

    def report(key, msg, loc):
        findings.setdefault(key, dict(key=key, msg=msg, loc=loc))
    ctors = {}
    for f in P.fns.values():
        if f.get("kind") == "ctor" and f.get("cls"):
            ctors.setdefault(f["cls"], []).append(f)
    for f in P.fns.values():
        cls = f.get("cls")
        if not cls or f.get("kind") in ("ctor", "dtor") or f.get("static") or not f["q"].startswith(GC) or not f.get("body"):
            continue
        m = re.match(r"std::unique_ptr<([\w:]+)", f.get("r", ""))
        if not m or m.group(1) not in P.recs:
            continue
        ret = m.group(1)
        if cls not in bases(P, ret) and ret not in bases(P, cls):
            continue
        lists = [q for q, t in fields_of(P, cls) if "std::list<" in t and "function" in t]
        if lists and not f["ps"] and f["n"].startswith(("copy", "clone")):
            mesh_copy(P, f, cls, ctors, cov, report, samples)
        elif f["n"] in ("copy", "reinterpretTo"):
            geometry_copy(P, f, cls, ctors, cov, report, samples)
    conversions(P, cov, report)
    keeps_default(P, cov, report)
    foreign_buffers(P, cov, report)
    return dict(findings=list(findings.values()), coverage=cov, samples=samples)


def ctor_value(P, ctors, cls, q, nargs, args, depth=0):
    """set of values the constructors of cls (taking nargs arguments; None: every public one) give to the constant member q"""
    out = set()
    for c in ctors.get(cls, ()):
        if nargs is None and c.get("acc", 0) != 0 or nargs is not None and len(c["ps"]) != nargs:
            continue
        if len(c["ps"]) == 1 and c["ps"][0]["t"].replace("const ", "").rstrip("& ") == cls:
            continue
        tr = Trace(P, lambda g, o: False, keep=lambda e: False, cap=500)
        env = [St({}, ())]
        fr = tr.frame(c, ("this",))
        tr.frames.append(fr)
        st = St({}, ())
        for i, p in enumerate(c["ps"]):
            st = st.set((fr["id"], p["d"]), args[i] if args else ("P", p["n"]))
        found = False
        for i in c.get("inits", []):
            mem = i.get("mem")
            if mem and (mem == q or q.endswith("::" + mem.split("::")[-1])) and not i.get("deleg"):
                out |= {v for _, v in tr.ev(i["e"], st)}
                found = True
            e = strip(i["e"]) if i.get("e") else {}
            if not found and (i.get("deleg") or not mem) and e.get("k") == "ctor" and depth < 6:
                vs = [tr.ev(a, st)[0][1] for a in e.get("a") or []]
                sub = [x for x in ctors.get(e.get("c"), ()) if x["m"] == e.get("m")]
                if sub:
                    out |= ctor_value(P, {e["c"]: sub}, e["c"], q, len(vs), vs, depth + 1) if e["c"] == cls else ctor_value(P, dict(ctors, **{e["c"]: sub}), e["c"], q, len(vs), vs, depth + 1)
                    found = True
        tr.frames.pop()
    return out


def mesh_copy(P, f, cls, ctors, cov, report, samples):
    cov["copy_routines"] += 1
    hier = bases(P, cls)
    files = {g["f"] for g in P.fns.values() if g.get("cls") in hier}

    def inline(g, o):
        return g.get("cls") in hier or not g.get("cls") and g["f"] in files
    tr = Trace(P, inline, keep=lambda e: True, cap=1000)
    try:
        res = tr.run(f)
    except TooMany:
        cov["undecided"] += 1
        return
    flds = fields_of(P, cls)
    where = short(f["q"])
    for st, ret in res:
        new = target(ret)
        if new is None:
            cov["undecided"] += 1
            continue
        got, swaps = {}, set()
        for e in st.ev:
            if e.kind == "asg" and e.obj[0] == "F" and target(e.obj) == new:
                got[e.obj[2]] = e.args[0]
            elif e.kind == "call" and e.obj and e.obj[0] == "F" and target(e.obj) == new and e.args:
                got.setdefault(e.obj[2], e.args[0])
                if e.name.split("::")[-1] in ("assign", "insert", "swap", "operator="):
                    got[e.obj[2]] = e.args[0]
        for q, t in flds:
            n = q.split("::")[-1]
            if n in NOT_STATE or "::" in n:
                continue
            cov["obligations"] += 1
            if "std::list<" in t and "function" in t:
                if q in got:
                    report("callbacks:%s:%s" % (where, n), "%s copies the callback list %s: the handlers of the original's containers would run for the copy" % (where, n), P.loc(f))
                continue
            if t.startswith("const "):
                ncls = None
                for g2 in [strip(e) for e in P.exprs(f)] + [strip(e) for h in P.fns.values() if h.get("cls") in hier and h["f"] == f["f"] and h["m"] in callees(P, f) for e in P.exprs(h)]:
                    if g2.get("k") == "new" and g2.get("l") == new[1]:
                        ncls = g2.get("t", "").rstrip("* ")
                if not ncls:
                    cov["undecided"] += 1
                    continue
                have = ctor_value(P, ctors, ncls, q, len(new[2]), list(new[2]))
                want = ctor_value(P, ctors, cls, q, None, None)
                cov["copied_members"] += 1
                if have and want and not all(any(s == ("F", ("this",), q) for s in subterms(v)) for v in have) and (have != want or len(want) > 1) and not any(v[0] in ("P", "?") for v in have | want):
                    report("const:%s:%s" % (where, n), "%s creates a copy whose %s differs from that of the original" % (where, n), P.loc(f, new[1]))
                continue
            cov["copied_members"] += 1
            v = got.get(q)
            src = ("F", ("this",), q)
            if v is None:
                report("member:%s:%s" % (where, n), "%s does not copy %s: the copy is not the same mesh" % (where, n), P.loc(f))
            elif src not in subterms(v) and any(s[0] == "F" and len(s) > 2 and s[1] == ("this",) for s in subterms(v)) or v[0] in ("lit", "null"):
                other = next((s[2].split("::")[-1] for s in subterms(v) if s[0] == "F" and len(s) > 2 and s[1] == ("this",)), show(v))
                report("member:%s:%s" % (where, n), "%s fills %s of the copy from %s" % (where, n, other), P.loc(f))
        for e in st.ev:
            # the original must not change, except by growing caches
            if e.kind == "asg" and e.obj[0] == "F" and e.obj[1] == ("this",):
                report("source:%s:%s" % (where, e.obj[2].split("::")[-1]), "%s changes %s of the original" % (where, e.obj[2].split("::")[-1]), P.loc(f, e.line if e.fn == f["q"] else None))
    samples.append("%s: %d paths, %d members" % (where, len(res), len(flds)))


def show(v):
    return v[1] if v[0] == "lit" else "null"


def callees(P, f, seen=None):
    seen = set() if seen is None else seen
    for e in P.exprs(f):
        if e.get("k") == "call" and e.get("m") in P.fns and e["m"] not in seen:
            seen.add(e["m"])
            callees(P, P.fns[e["m"]], seen) if len(seen) < 60 else None
    return seen


def geometry_copy(P, f, cls, ctors, cov, report, samples):
    """the members a data-taking constructor fills are what defines the object"""
    defining = set()
    hier = bases(P, cls)
    for c in ctors.get(cls, ()):
        dps = [p["n"] for p in c["ps"] if "MeshData<" in p["t"]]
        if not dps:
            continue
        tr = Trace(P, lambda g, o: False, keep=lambda e: e.kind == "asg", cap=500)
        for st, _ in tr.run(c):
            for e in st.ev:
                if e.obj[0] == "F" and e.obj[1] == ("this",) and any(s == ("P", n) for n in dps for s in subterms(e.args[0])):
                    defining.add(e.obj[2])
    if not defining:
        return
    cov["copy_routines"] += 1
    # members bound to the same storage (reference members initialised from another member)
    alias = {}
    for c in ctors.get(cls, ()):
        for i in c.get("inits", []):
            e = strip(i["e"]) if i.get("e") else {}
            if i.get("mem") and e.get("k") == "mem" and strip(e["b"]).get("k") == "this":
                q = i["mem"] if "::" in i["mem"] else cls + "::" + i["mem"]
                alias[q] = e["q"]

    def canon(q):
        return alias.get(q, q)
    defining = {canon(q) for q in defining}
    tr = Trace(P, lambda g, o: g.get("cls") in hier and g["n"] in ("copy", "reinterpretTo"), keep=lambda e: True, cap=500)
    where = short(f["q"])
    want_mesh = ("P", f["ps"][0]["n"]) if f["ps"] else ("F", ("this",), next((q for q, t in fields_of(P, cls) if q.endswith("::mesh")), "mesh"))
    for st, ret in tr.run(f):
        new = target(ret)
        if new is None:
            cov["undecided"] += 1
            continue
        if not new[2] or strip_addr(new[2][0]) != want_mesh:
            report("mesh:%s" % where, "%s builds the copy on another mesh than requested" % where, P.loc(f, new[1]))
        got = {}
        for e in st.ev:
            if e.kind == "asg" and e.obj[0] == "F" and target(e.obj) == new:
                got[canon(e.obj[2])] = e.args[0]
        for a in new[2][1:]:
            for q in defining:
                if any(s[0] == "F" and len(s) > 2 and canon(s[2]) == q for s in subterms(a)):
                    got.setdefault(q, a)
        for q in sorted(defining):
            cov["obligations"] += 1
            cov["copied_members"] += 1
            n = q.split("::")[-1]
            v = got.get(q)
            if v is None:
                report("data:%s:%s" % (where, n), "%s does not carry over %s" % (where, n), P.loc(f))
                continue
            if not any(s[0] == "F" and len(s) > 2 and s[1] == ("this",) and canon(s[2]) == q for s in subterms(v)):
                report("data:%s:%s" % (where, n), "%s does not fill %s from the original's %s" % (where, n, n), P.loc(f))
                continue
            cov["mesh_changes"] += 1
            r = [s for s in subterms(v) if s[0] == "call" and s[1] == "reinterpretTo"]
            if f["ps"] and not r:
                report("foreign:%s:%s" % (where, n), "%s hands %s over without moving it to the new mesh" % (where, n), P.loc(f))
            elif r and strip_addr(r[0][3][0]) != want_mesh:
                report("foreign:%s:%s" % (where, n), "%s moves %s to another mesh than the one the copy lives on" % (where, n), P.loc(f))
    samples.append("%s: defining data %s" % (where, ", ".join(sorted(q.split("::")[-1] for q in defining))))


def strip_addr(t):
    while t and t[0] in ("addr", "&"):
        t = t[1]
    return t


# ------------------------------------------------------------------------------------------------ MeshData <-> vector, other mesh
def conversions(P, cov, report):
    groups = {}
    for f in P.fns.values():
        if (f.get("cls") or "").startswith(GC + "MeshData<") and f["n"] in ("toVector", "fromVector"):
            groups.setdefault((f["cls"], len(f["ps"]) - (f["n"] == "fromVector")), {})[f["n"]] = f
    for (cls, idx), g in groups.items():
        for n, f in g.items():
            cov["conversions"] += 1
            pair(P, f, cls, idx, n, cov, report)


def pair(P, f, cls, indexed, n, cov, report):
    """every element's value is paired with its own entry: a counter advanced once per element, or indexer[element]"""
    where = "MeshData::%s%s" % (n, " with an indexer" if indexed else "")
    tr = Trace(P, lambda g, o: False, keep=lambda e: e.kind in ("asg", "call", "ctor"), cap=500)
    tr.callfacts = Any()
    tr.nounion = True
    ps = [p["n"] for p in f["ps"]]
    hit = 0
    incs = {}
    # counters: locals incremented exactly once, unconditionally, in the loop body
    for s in walk_stmts(f["body"]):
        if s["s"] in ("rfor", "for", "while"):
            body = s["b"]["b"] if s["b"]["s"] == "block" else [s["b"]]
            for b in body + ([{"s": "expr", "e": s["inc"]}] if s.get("inc") else []):
                if b["s"] == "expr":
                    for x in walk(b["e"]):
                        t = strip(x["a"][0]) if x.get("k") in ("un", "asg") and x.get("a") else None
                        if t is not None and t.get("k") == "ref" and (x.get("k") == "un" and x["op"][:2] == "++" or x.get("k") == "asg" and x["op"] == "+=" and strip(x["a"][1]).get("v") == "1"):
                            incs[t["d"]] = incs.get(t["d"], 0) + 1
    cov["obligations"] += 2
    for st, ret in tr.run(f):
        for e in st.ev:
            if e.kind != "asg" and not (e.kind == "call" and e.name.endswith("operator=")) or e.obj is None or not e.ctx or not e.args:
                continue
            l, r = resolve(e.obj), resolve(e.args[0])
            slot, own = None, None
            for a, b in ((l, r), (r, l)):
                el = element(a, ("this",))
                if el is not None:
                    own, slot = el, b
            if own is None:
                continue
            hit += 1
            if slot[0] not in ("slot", "idx"):
                continue
            ix = slot[2]
            if indexed:
                if not (ix[0] == "idx" and ix[2] == own or ix[0] == "call" and own in ix[3]):
                    report("pair:%s:%d" % (n, indexed), "%s pairs an element with an entry other than the one its indexer names" % where, P.loc(f, e.line))
            else:
                if ix[0] == "phi":
                    if incs.get(ix[1]) != 1:
                        report("pair:%s:%d" % (n, indexed), "%s does not advance its position exactly once per element" % where, P.loc(f, e.line))
                elif ix[0] == "op" or ix[0] == "call" and ix[1] == "getIndex" or ix[0] == "lit":
                    report("pair:%s:%d" % (n, indexed), "%s addresses the dense vector with something other than the running position" % where, P.loc(f, e.line))
    if not hit:
        cov["undecided"] += 1


class Any:
    def __contains__(self, x):
        return True


def resolve(t):
    while t and t[0] == "&":
        t = t[1]
    if t[0] == "call" and t[1] in ("operator()", "operator[]", "coeff", "coeffRef") and t[2] is not None and len(t[3]) >= 1:
        return ("slot", t[2], t[3][0])
    return t


def element(t, this):
    """element e if t is (*this)[e] or data[e.getIndex()]"""
    if t[0] in ("idx", "slot"):
        b = t[1]
        while b[0] == "F" and b[2] == "*":
            b = b[1]
        if b == this:
            return t[2]
        if b[0] == "F" and b[1] == this and b[2].endswith("::data") and t[2][0] == "call" and t[2][1] == "getIndex":
            return t[2][2]
    return None


def keeps_default(P, cov, report):
    """reinterpretTo of a container carries the default value over: by the new container's constructor or by an assignment to it"""
    for f in P.fns.values():
        cls = f.get("cls") or ""
        if not cls.startswith(GC + "MeshData<") or f["n"] != "reinterpretTo" or not f.get("body"):
            continue
        q = next((q for q, _ in fields_of(P, cls) if q.endswith("::defaultValue")), None)
        if q is None:
            continue
        own = ("F", ("this",), q)
        tr = Trace(P, lambda g, o: False, keep=lambda e: e.kind in ("asg", "call"), cap=500)
        try:
            res = tr.run(f)
        except TooMany:
            cov["undecided"] += 1
            continue
        for st, ret in res:
            new = next((t for t in subterms(ret) if t[0] == "obj" and t[1] == cls), None) if ret else None
            if new is None:
                cov["undecided"] += 1
                continue
            cov["obligations"] += 1
            ok = any(x == own for a in new[2] for x in subterms(a)) or any(strip_addr(a) == ("this",) for a in new[2])
            for e in st.ev:
                if e.kind == "asg" and e.obj[0] == "F" and e.obj[2] == q and e.obj[1] != ("this",) and own in list(subterms(e.args[0])) or \
                        e.kind == "call" and e.name.endswith("::setDefault") and any(own in list(subterms(a)) or a[0] == "call" and a[1] == "getDefault" for a in e.args) or \
                        e.kind == "asg" and e.obj[0] != "F" and e.args[0] == ("this",):
                    ok = True
            if any(s[0] == "call" and s[1] == "getDefault" for a in new[2] for s in subterms(a)):
                ok = True
            if not ok:
                report("default:MeshData::reinterpretTo", "MeshData::reinterpretTo does not give the new container the default value of the old one", P.loc(f))


def foreign_buffers(P, cov, report):
    """the raw buffer of one container is only assigned whole to a container of the same mesh"""
    for f in P.fns.values():
        cls = f.get("cls") or ""
        if not cls.startswith(GC + "MeshData<") or f["n"] in ("operator=",) or f.get("kind") == "ctor" or not f.get("body"):
            continue
        if not any(e.get("k") == "mem" and e["q"].endswith("::data") for e in P.exprs(f)):
            continue
        tr = Trace(P, lambda g, o: False, keep=lambda e: e.kind == "asg", cap=500)
        try:
            res = tr.run(f)
        except TooMany:
            cov["undecided"] += 1
            continue
        cov["obligations"] += 1
        for st, _ in res:
            for e in st.ev:
                if e.obj[0] == "F" and e.obj[2].endswith("::data") and e.obj[1] != ("this",) and not e.ctx:
                    v = e.args[0]
                    if v[0] == "F" and v[2].endswith("::data") and v[1] != e.obj[1]:
                        report("foreignbuffer:%s" % f["n"], "MeshData::%s gives a container on another mesh the buffer of this one, which may lack slots for elements of that mesh" % f["n"], P.loc(f, e.line))
