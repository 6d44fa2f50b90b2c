"""C06: lifecycle of per-element data containers and of registered callbacks."""
import re
from ir import *
from trace import *
from extract import AnalysisBroken

RULE = ("path-wise typestate of the callback registrations: on every path of every constructor, assignment, clear and destructor of every container "
        "instantiation, each iterator member is registered (insert on a list of the mesh, result kept) exactly when the container ends up attached to a "
        "mesh, on the lists of that mesh for the container's own element kind; what was registered before is erased from the list it was put in; "
        "moved-from containers end up detached; the registered handlers keep old values, give new slots the default value, permute gather-wise and detach "
        "on destruction of the mesh; every owner of a destruction list calls all of it in its destructor; a callback registered with a local handle is "
        "erased on every return path, and handlers that outlive their function capture no locals by reference")
DEBUG = False
MIN = {"container_classes": 40, "member_paths": 250, "registrations": 300, "handlers": 150, "owners": 2, "local_registrations": 3}
GC = "geometrycentral::"
KINDS = {"Vertex": ("vertex", "vertex", "nVerticesCapacityCount", None), "Halfedge": ("halfedge", "halfedge", "nHalfedgesCapacityCount", None),
         "Corner": ("halfedge", "halfedge", "nHalfedgesCapacityCount", None), "Edge": ("edge", "edge", "nEdgesCapacityCount", None),
         "Face": ("face", "face", "nFacesCapacityCount", "nBoundaryLoopsFillCount"),
         "BoundaryLoop": ("face", "boundaryLoop", "nFacesCapacityCount", "nFacesFillCount"), "Point": ("point", "point", "nPointsCapacityCount", None)}


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "F":
        return "%s.%s" % (show(t[1]), t[2].split("::")[-1])
    if t[0] in ("P",):
        return t[1]
    if t[0] == "addr":
        return "&" + show(t[1])
    if t[0] == "this":
        return "this"
    if t[0] == "null":
        return "nullptr"
    return t[0]


def unaddr(t):
    while isinstance(t, tuple) and t and t[0] in ("addr", "&"):
        t = t[1]
    return t


def analyse(P):
    findings, samples = {}, []
    cov = dict(container_classes=0, member_paths=0, registrations=0, handlers=0, owners=0, local_registrations=0, obligations=0, undecided=0)

    def report(key, msg, loc):
        findings.setdefault(key, dict(key=key, msg=msg, loc=loc))

    classes = {}
    for f in P.fns.values():
        c = f.get("cls", "")
        if c.startswith(GC + "MeshData<") and not f.get("local") and c.count("::") and "(" not in c:
            classes.setdefault(c, []).append(f)
    for c, fs in sorted(classes.items()):
        container(P, c, fs, cov, report, samples)
    owners(P, cov, report)
    local_regs(P, cov, report, samples)
    cov["obligations"] = cov["member_paths"] + cov["registrations"] + cov["handlers"] + cov["owners"] + cov["local_registrations"]
    return dict(findings=list(findings.values()), coverage=cov, samples=samples[:6])


def container(P, cls, fs, cov, report, samples):
    pre = cls + "::"
    elem = re.match(r".*MeshData<([\w:]+)", cls).group(1).split("::")[-1]
    kind = KINDS.get(elem)
    if kind is None:
        return
    cov["container_classes"] += 1
    fields = {x["n"]: x["t"] for x in P.recs[cls]["fields"]} if cls in P.recs else {}
    its = [pre + n for n, t in fields.items() if "iterator" in t and "function" in t]
    if not its:
        its = [pre + n for n in ("expandCallbackIt", "permuteCallbackIt", "deleteCallbackIt")]
    meshf = pre + next((n for n, t in fields.items() if t.rstrip().endswith("*")), "mesh")
    want = {"Expand": kind[0] + "ExpandCallbackList", "Permute": kind[1] + "PermuteCallbackList", "Delete": "meshDeleteCallbackList"}

    def inline(f, o):
        return f.get("cls") == cls and f["n"] != "operator[]" or "CallbackList" in f["n"] or f["n"] in ("elementCapacity", "nElements") or f["n"].endswith("Capacity") or re.match(r"n[A-Z]\w*$", f["n"]) and not f["ps"]

    def keep(e):
        if e.kind == "asg":
            return True
        if e.kind == "call":
            n = e.name.split("::")[-1]
            return n in ("insert", "erase", "push_back", "push_front", "emplace_back", "emplace_front", "emplace", "clear", "remove", "splice", "swap",
                         "resize", "setConstant", "fill", "Constant", "conservativeResize")
        return False

    for f in fs:
        role = f.get("kind") if f.get("kind") in ("ctor", "dtor") else "assign" if f["n"] == "operator=" else "clear" if f["n"] == "clear" else None
        if role is None or f.get("static"):
            continue
        deleg = any(i.get("deleg") for i in f.get("inits", []))
        tr = Trace(P, inline, keep=keep, cap=3000)
        try:
            res = tr.run(f)
        except TooMany:
            cov["undecided"] += 1
            continue
        others = [("P", p["n"]) for p in f["ps"] if "MeshData<" in p["t"] and cls.split("<", 1)[1] in p["t"] and "&" in p["t"]]
        moved = [("P", p["n"]) for p in f["ps"] if p["t"].rstrip().endswith("&&") and "MeshData<" in p["t"]]
        where = "%s(%s) of MeshData<%s>" % ("constructor" if role == "ctor" else f["n"], ", ".join(short(p["t"]) for p in f["ps"]), elem)
        tag = "%s:%s" % (f["n"].replace(cls, ""), ",".join(re.sub(r"<.*>", "", short(p["t"]).replace(GC, "")) for p in f["ps"]))
        for st, _ in res:
            cov["member_paths"] += 1
            reg = {}  # (object, field) -> list term, or None

            def state(o, it):
                if (o, it) in reg:
                    return reg[(o, it)]
                if role == "ctor" and o == ("this",) and not deleg:
                    return None
                return "initial"
            handles = {}
            sized = const = None
            for e in st.ev:
                n = e.name.split("::")[-1] if e.name else ""
                if e.kind == "call" and is_list(e.obj):
                    if n in ("insert", "push_back", "push_front", "emplace_back", "emplace_front", "emplace"):
                        handles[(e.line, e.obj)] = (e, False)
                        cov["registrations"] += 1
                    elif n == "erase":
                        h = iterterm(e.args[0]) if e.args else None
                        hit = None
                        for o in [("this",)] + others:
                            for it in its:
                                if h == ("F", o, it) and state(o, it) == "initial" or h is not None and h[0] == "call" and state(o, it) == h[2] and \
                                        st.env.get(("F", o, it)) is not None and reg.get((o, it, "v")) == h:
                                    hit = (o, it)
                        if hit is None:
                            report("erase:%s:%s" % (tag, lname(e.obj)), "%s erases from %s with a handle which is not registered at that point" % (where, lname(e.obj)), P.loc(f, e.line if e.fn == f["q"] else None))
                        else:
                            o, it = hit
                            role_it = rolename(it)
                            was = state(o, it)
                            m = e.obj[1]
                            if was == "initial":
                                if m != unaddr(("F", o, meshf)) or role_it and lname(e.obj) != want[role_it]:
                                    report("erase:%s:%s" % (tag, it.split("::")[-1]), "%s erases %s from %s, which is not the list it was inserted in (%s of the old mesh)" % (
                                        where, it.split("::")[-1], show(e.obj), want.get(role_it, "?")), P.loc(f, e.line if e.fn == f["q"] else None))
                            elif was != e.obj:
                                report("erase:%s:%s" % (tag, it.split("::")[-1]), "%s erases %s from %s but it was inserted in %s" % (
                                    where, it.split("::")[-1], show(e.obj), show(was)), P.loc(f, e.line if e.fn == f["q"] else None))
                            reg[(o, it)] = None
                    elif n in ("clear",):
                        report("clear:%s" % tag, "%s clears the callback list %s, which other containers share" % (where, lname(e.obj)), P.loc(f, e.line if e.fn == f["q"] else None))
                if e.kind == "asg" and e.obj[0] == "F" and e.obj[2] in its:
                    v = e.args[0]
                    o, it = e.obj[1], e.obj[2]
                    if v[0] == "call" and v[1] in ("insert", "emplace") and is_list(v[2]):
                        old = state(o, it)
                        if old is not None and not (old == "initial" and nullmesh(st, ("F", o, meshf))):
                            report("double:%s:%s" % (tag, it.split("::")[-1]), "%s registers %s again while the previous registration is still in place" % (where, it.split("::")[-1]), P.loc(f, e.line if e.fn == f["q"] else None))
                        reg[(o, it)] = v[2]
                        reg[(o, it, "v")] = v
                        for k in handles:
                            if k[1] == v[2]:
                                handles[k] = (handles[k][0], True)
                    elif v[0] == "F" and v[2] in its and v[1] != o:
                        reg[(o, it)] = ("copied",)
            for k, (e, used) in handles.items():
                if not used:
                    report("lost:%s:%s" % (tag, lname(e.obj)), "%s registers a callback on %s without keeping the handle needed to remove it" % (where, lname(e.obj)), P.loc(f, e.line if e.fn == f["q"] else None))
            # ---- exit state
            selfalias = any(v for k, v in st.env.items() if k[0] == "fact" and k[1][:2] == ("op", "==") and ("this",) in k[1][2:])
            if selfalias:
                continue
            for o in [("this",)] + others:
                m0 = ("F", o, meshf)
                m = st.env.get(m0, m0)
                if role == "ctor" and o == ("this",) and not deleg and m == m0:
                    m = ("null",)
                null = m == ("null",) or nullmesh(st, m)
                for it in its:
                    s = state(o, it)
                    nm = it.split("::")[-1]
                    attached = s is not None and not (s == "initial" and nullmesh(st, m0))
                    if role == "dtor" or (role == "clear" and o == ("this",)) or null or o in moved:
                        if attached:
                            what = "the moved-from container" if o in moved else "the container"
                            report("left:%s:%s" % (tag, nm), "%s can leave %s of %s registered although %s" % (where, nm, what, "it is being destroyed" if role == "dtor" else
                                   "its buffer has been taken" if o in moved else "it is detached from the mesh"), P.loc(f))
                        continue
                    if s == "initial":
                        if m != m0 and not same(st, m, m0):
                            report("stale:%s:%s" % (tag, nm), "%s changes the mesh of the container but leaves %s registered with the old one" % (where, nm), P.loc(f))
                        continue
                    if s is None:
                        report("unreg:%s:%s" % (tag, nm), "%s can leave a container attached to a mesh without %s registered" % (where, nm), P.loc(f))
                        continue
                    if s == ("copied",):
                        report("copied:%s:%s" % (tag, nm), "%s copies the registration handle %s of another container" % (where, nm), P.loc(f))
                        continue
                    r = rolename(it)
                    if r and lname(s) != want[r]:
                        report("list:%s:%s" % (elem, nm), "%s registers %s on %s; data on this kind of element needs %s" % (where, nm, lname(s), want[r]), P.loc(f))
                    if unaddr(s[1]) != unaddr(m):
                        report("mesh:%s:%s" % (tag, nm), "%s registers %s with %s but the container ends up on mesh %s" % (where, nm, show(s[1]), show(m)), P.loc(f))
            if role == "clear" and st.env.get(("F", ("this",), meshf)) != ("null",) and not nullmesh(st, ("F", ("this",), meshf)):
                report("clearmesh:%s" % tag, "%s leaves the container attached to its mesh" % where, P.loc(f))
            # ---- copies hold the values and the default of the original
            if len(others) == 1 and role in ("ctor", "assign"):
                for fld in ("data", "defaultValue"):
                    if fld not in fields:
                        continue
                    cov["copied_fields"] = cov.get("copied_fields", 0) + 1
                    loc, src = ("F", ("this",), pre + fld), ("F", others[0], pre + fld)
                    v = st.env.get(loc)
                    touched = any(e.kind == "call" and (e.obj == loc or loc in (e.args or ()) or e.name.split("::")[-1] == "swap") for e in st.ev)
                    if v is None and not touched or v is not None and src not in subterms(v) and (v[0] in ("lit", "null", "F", "P") or v[0] == "obj" and not v[2]):
                        report("copyfield:%s:%s" % (tag, fld), "%s does not take over the %s of the original" % (where, "values" if fld == "data" else "default value"), P.loc(f))
            # ---- initial buffer of the constructors that take a mesh
            if role == "ctor" and not deleg and not others and st.env.get(("F", ("this",), meshf), ("null",)) != ("null",):
                buffer_rule(P, f, st, cls, pre, kind, where, tag, cov, report, meshf)
        if f["n"] == "MeshData" and len(samples) < 4:
            samples.append("%s: %d paths" % (where, len(res)))
        # ---- handlers
        if role in ("ctor", "assign"):
            seen = set()
            for st, _ in res:
                for e in st.ev:
                    if e.kind == "call" and is_list(e.obj) and e.name.split("::")[-1] in ("insert", "push_back", "emplace_back", "push_front"):
                        for a in e.args:
                            if a[0] == "lam" and (a[1], lname(e.obj)) not in seen:
                                seen.add((a[1], lname(e.obj)))
                                handler(P, tr, a[1], lname(e.obj), f, cls, pre, meshf, elem, cov, report)


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for c in t:
            yield from subterms(c)


def is_list(t):
    return isinstance(t, tuple) and t and t[0] == "F" and t[2].endswith("CallbackList")


def lname(t):
    return t[2].split("::")[-1]


def rolename(it):
    n = it.split("::")[-1].lower()
    return "Expand" if "expand" in n else "Permute" if "permute" in n else "Delete" if "delete" in n else None


def iterterm(t):
    while t and t[0] == "obj" and len(t[2]) == 1:
        t = t[2][0]
    return t


def nullmesh(st, m):
    return m == ("null",) or st.env.get(("fact", ("op", "==", m, ("null",)))) is True


def same(st, a, b):
    return st.env.get(("fact", ("op", "==", a, b))) is True or st.env.get(("fact", ("op", "==", b, a))) is True


def buffer_rule(P, f, st, cls, pre, kind, where, tag, cov, report, meshf):
    data = ("F", ("this",), pre + "data")
    mesh = unaddr(st.env.get(("F", ("this",), meshf)))
    size, filled = None, None
    for e in st.ev:
        n = (e.name or "").split("::")[-1]
        if e.kind == "call" and e.obj == data and n in ("resize", "conservativeResize"):
            size, filled = e.args[0], None
        if e.kind == "call" and e.obj == data and n in ("setConstant", "fill"):
            filled = e.args[-1]
            if n == "setConstant" and len(e.args) == 2:
                size = e.args[0]
        if e.kind == "asg" and e.obj == data:
            v = e.args[0]
            if v[0] == "call" and v[1] == "Constant":
                size, filled = v[3][0], v[3][1]
            elif v[0] == "obj" and not v[2]:
                size = filled = None
            else:
                size, filled = ("?",), ("?",)
        if e.kind == "asg" and e.obj[0] == "idx" and e.obj[1] == data and e.ctx:
            filled = e.args[0]
    cov["registrations"] += 0
    if size == ("?",):
        return
    def isfield(t, nm):
        return t[0] == "F" and unaddr(t[1]) == mesh and t[2].split("::")[-1] == nm
    ok = size is not None and (isfield(size, kind[2]) or size[0] == "op" and size[1] == "-" and isfield(size[2], kind[2]) and kind[3] and isfield(size[3], kind[3]))
    if size is None or not ok and size[0] in ("F", "op", "lit"):
        report("size:%s:%s" % (tag, kind[1]), "%s does not allocate one slot per element the mesh has room for" % where, P.loc(f))
    dflt = st.env.get(("F", ("this",), pre + "defaultValue"))
    if filled is None or dflt is not None and filled not in (dflt, ("?",), ("F", ("this",), pre + "defaultValue")) and filled[0] in ("lit", "P", "F", "?") and filled[:1] != ("?",):
        report("fill:%s" % tag, "%s does not fill the new buffer with the default value" % where, P.loc(f))


# ------------------------------------------------------------------------------------------------ handlers
def handler(P, tr, key, lst, f, cls, pre, meshf, elem, cov, report):
    lam, fr = tr.lams[key]
    cov["handlers"] += 1
    loc = "%s:%s" % (P.loc(f).rsplit(":", 1)[0], lam.get("l"))
    for c in lam.get("caps") or []:
        if c.get("ref") and c.get("n") not in (None, "this"):
            report("capture:%s:%s" % (lst, c["n"]), "the handler registered on %s captures the local %s by reference and outlives it" % (short(lst), c["n"]), loc)
    tr2 = Trace(P, tr.inline, keep=lambda e: True, cap=2000)
    tr2.lams = tr.lams
    argname = [("P", "#%d" % i) for i in range(len(lam["ps"]))]
    tr2.frames.append({"id": fr["id"], "fn": fr["fn"], "this": ("this",), "ret": [], "thr": [], "loop": []})
    try:
        res = tr2.inline_lambda((lam, dict(fr, this=("this",))), St({}, ()), tuple(argname))
    except TooMany:
        cov["undecided"] += 1
        return
    data = ("F", ("this",), pre + "data")
    dflt = ("F", ("this",), pre + "defaultValue")
    for st, _ in res:
        if lst == "meshDeleteCallbackList":
            if st.env.get(("F", ("this",), meshf)) != ("null",):
                report("ondelete:%s" % elem, "when the mesh is destroyed a MeshData<%s> on it is not detached (its destructor would touch the dead mesh)" % elem, loc)
            continue
        expand = lst.endswith("ExpandCallbackList")
        new = argname[0] if expand else ("size", argname[0])
        old = ("size", data)
        bufs = {}  # location -> dict(size, segs)   segs: {seg: value}

        def points(t):
            if t == ("lit", "0"):
                return 0
            if expand and (t in (old,) or t[0] == "call" and t[1] in ("size", "rows") and t[2] == data):
                return 1
            if t == new or t[0] == "call" and t[1] == "size" and unaddr(t[2]) == argname[0]:
                return 2
            return None

        def value(v, ix):
            """what a stored value is, for index variable ix"""
            if v[0] == "idx" and v[1] == data:
                if v[2] == ix:
                    return "same"
                if v[2][0] == "idx" and unaddr(v[2][1]) == argname[0] and v[2][2] == ix:
                    return "gather"
                return "other data element"
            if v == dflt or v == ("F", ("this",), pre + "defaultValue"):
                return "default"
            return "?"
        if DEBUG:
            for e in st.ev:
                print(lst, e, tr2.loops)
        final = None
        opaque = False
        bad = None
        for e in st.ev:
            n = (e.name or "").split("::")[-1]
            if e.kind == "asg" and e.obj == data:
                v = e.args[0]
                if v[0] == "L" and v in bufs or v[0] == "obj" and ("O", v[3]) in bufs:
                    final = bufs.get(v) or bufs.get(("O", v[3]))
                elif v[0] == "call" and v[1] == "applyPermutation":
                    final = {"size": 2, 0: "gather", 1: "gather"}
                else:
                    opaque = True
                continue
            if e.kind == "ctor" and "Matrix<" in (e.name or ""):
                sz = points(e.args[0]) if len(e.args) == 1 else None
                if len(e.args) == 1 and sz is None and e.args[0][0] in ("op",):
                    bad = "the new buffer has a size other than the requested one"
                bufs[("O", e.line)] = {"size": sz, 0: "uninit", 1: "uninit"}
                continue
            if e.kind == "call" and n == "conservativeResize" and e.obj == data:
                bufs[data] = final = {"size": points(e.args[0]), 0: "same", 1: "uninit"}
                continue
            if e.kind == "asg" and e.obj[0] == "idx" and e.ctx:
                line = e.ctx[-1][1]
                lp = tr2.loops.get(line)
                ix = e.obj[2]
                b = target(e.obj[1], bufs, data)
                if b is None:
                    continue
                if e.ctx[-1][0] != "for" or not lp or len(lp) != 1 or ix[0] != "phi":
                    if e.ctx[-1][0] == "for" and lp and len(lp) == 1 and ix[0] == "idx":
                        bad = "the permutation is applied the wrong way round"
                    else:
                        opaque = True
                    continue
                d, a, op, bt, step = next(iter(lp))
                lo, hi = points(a) if a else None, points(bt)
                if op not in ("<", "!=") or step not in ("++", "+="):
                    opaque = True
                    continue
                if lo is None or hi is None:
                    if (a and a[0] in ("op", "lit")) or bt[0] == "op":
                        bad = "a copy loop does not cover the whole range"
                    else:
                        opaque = True
                    continue
                val = value(e.args[0], ix)
                if val == "?":
                    opaque = True
                for seg in (0, 1):
                    if lo <= seg and hi >= seg + 1 and (expand or True):
                        b[seg] = val
                if not expand and (lo, hi) != (0, 2):
                    bad = "the permutation loop does not cover all new slots"
                continue
            if e.kind == "call" and n in ("setConstant", "fill") and target(e.obj, bufs, data) is not None:
                b = target(e.obj, bufs, data)
                v = "default" if e.args and e.args[-1] == dflt else "?"
                b[0] = b[1] = v
                continue
            if e.kind == "call" and n in ("head", "tail", "segment", "block", "swap", "copy", "resize", "setZero", "topRows", "bottomRows", "middleRows", "fill_n", "data", "begin", "move"):
                opaque = True
        if final is None and not opaque:
            report("handler:%s:%s" % (elem, lst), "the handler on %s does not replace the buffer of a MeshData<%s>" % (lst, elem), loc)
            continue
        if bad is None and not opaque and final is not None:
            if expand:
                if final[0] != "same":
                    bad = "existing values are not kept"
                elif final[1] != "default":
                    bad = "new slots do not get the default value (%s)" % final[1]
                elif final["size"] not in (2, None):
                    bad = "the new buffer does not have the new size"
            elif final[0] != "gather" or final[1] != "gather":
                bad = "slot i of the result is not the value of the element that moves to i"
            elif final["size"] not in (2, None):
                bad = "the new buffer does not have the size of the permutation"
        if bad:
            report("handler:%s:%s" % (elem, lst), "MeshData<%s> on %s: %s" % (elem, lst, bad), loc)
        elif opaque:
            cov["undecided"] += 1


def target(o, bufs, data):
    if o == data:
        return bufs.get(data)
    if o and o[0] == "L" or o and o[0] == "obj":
        k = ("O", o[3]) if o[0] == "obj" else None
        if k in bufs:
            return bufs[k]
        return bufs.get(o) or (next(iter(bufs.values())) if len(bufs) == 1 else None)
    return None


# ------------------------------------------------------------------------------------------------ owners
def owners(P, cov, report):
    for q, r in P.recs.items():
        lists = [x["n"] for x in r["fields"] if x["n"] == "meshDeleteCallbackList"]
        if not lists:
            continue
        cov["owners"] += 1
        dt = [f for f in P.fns.values() if f.get("cls") == q and f.get("kind") == "dtor"]
        lst = ("F", ("this",), q + "::" + lists[0])
        ok = False
        for f in dt:
            tr = Trace(P, lambda g, o: g.get("cls") == q, keep=lambda e: e.kind == "call")
            res = tr.run(f)
            ok = bool(res) and all(any(e.kind == "call" and e.obj and e.obj[0] == "el" and e.obj[1] == lst for e in st.ev) for st, _ in res)
        if not ok:
            report("owner:%s" % short(q), "destroying a %s does not call every destruction handler, so containers defined on it keep a dangling mesh" % short(q),
                   P.loc(dt[0]) if dt else r.get("f", "?"))


# ------------------------------------------------------------------------------------------------ registrations kept in a local
def local_regs(P, cov, report, samples):
    for f in P.fns.values():
        if f.get("cls", "").startswith(GC + "MeshData<") or f.get("n") in ("insert",):
            continue
        hs, lams, persist = {}, {}, []
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    i = strip(v["i"]) if v.get("i") else {}
                    if i.get("k") == "lam" or i.get("k") == "ctor" and len(i.get("a") or []) == 1 and strip(i["a"][0]).get("k") == "lam":
                        lams[v["d"]] = i if i["k"] == "lam" else strip(i["a"][0])
                    if reglist(i):
                        hs[v["d"]] = (v["n"], i, s)
        for e in P.exprs(f):
            if reglist(e):
                if not any(x[1] is e or strip(x[1]) is e for x in hs.values()):
                    persist.append(e)
        for d, (n, i, s) in hs.items():
            cov["local_registrations"] += 1
            ends = released(f["body"], d, s)
            samples.append("%s keeps the handle of a callback in '%s'" % (short(f["q"]), n))
            for l in ends:
                report("leak:%s:%s" % (short(f["q"]), n), "%s can return at line %s with the callback it registered (%s) still in place" % (short(f["q"]), l, n), P.loc(f, i.get("l")))
        for e in persist:
            cov["local_registrations"] += 1
            for a in e["a"]:
                a = strip(a)
                lam = a if a.get("k") == "lam" else lams.get(a.get("d")) if a.get("k") == "ref" else None
                if a.get("k") == "ctor" and len(a.get("a") or []) == 1:
                    b = strip(a["a"][0])
                    lam = b if b.get("k") == "lam" else lams.get(b.get("d")) if b.get("k") == "ref" else lam
                if lam is None:
                    continue
                for c in lam.get("caps") or []:
                    if c.get("ref") and c.get("n") not in (None, "this") and islocal(f, c):
                        report("capture:%s:%s" % (short(f["q"]), c["n"]), "%s registers a callback that outlives the call and captures the local %s by reference" % (short(f["q"]), c["n"]), P.loc(f, e.get("l")))


def islocal(f, c):
    """a by-value parameter or local; a reference may designate something that lives longer"""
    for p in f["ps"]:
        if p["d"] == c.get("d"):
            return not p["t"].rstrip().endswith("&")
    for s in walk_stmts(f["body"]):
        if s["s"] == "decl":
            for v in s["vs"]:
                if v["d"] == c.get("d"):
                    return not v.get("t", "").rstrip().endswith("&") and not v.get("st")
    return False


def reglist(e):
    if e.get("k") != "call" or e.get("cn") not in ("insert", "push_back", "emplace_back", "push_front", "emplace", "emplace_front") or not e.get("o"):
        return False
    o = strip(e["o"])
    return o.get("k") == "mem" and o["q"].endswith("CallbackList")


def released(body, d, decl):
    """lines at which the function can be left normally after the declaration without X.erase(handle)"""
    out = []

    def erases(s):
        for e0 in stmt_exprs(s):
            for e in walk(e0, False):
                if e.get("k") == "call" and e.get("cn") == "erase" and any(y.get("k") == "ref" and y.get("d") == d for a in e["a"] for y in walk(a)):
                    return True
        return False

    def run(s, live):
        """live: None not yet registered, True registered, False erased; returns live at normal exit or 'x' when never reached"""
        if s is None or live == "x":
            return live
        if s is decl:
            return True
        k = s["s"]
        if k == "block":
            for c in s["b"]:
                live = run(c, live)
            return live
        if k == "if":
            if erases({"s": "expr", "e": s["c"]}):
                live = False
            a, b = run(s["t"], live), run(s.get("e"), live)
            return join(a, b)
        if k in ("for", "rfor", "while", "do"):
            return join(live, run(s["b"], live)) if k != "do" else run(s["b"], live)
        if k == "switch":
            return join(live, run(s["b"], live))
        if k in ("case", "default"):
            return run(s["b"], live)
        if k == "try":
            r = run(s["b"], live)
            for h in s["h"]:
                r = join(r, run(h, live))
            return r
        if k == "return":
            if live is True:
                out.append(s.get("l"))
            return "x"
        if k in ("break", "continue"):
            return live
        if k == "expr" and strip(s["e"]).get("k") == "throw":
            return "x"
        if erases(s):
            return False
        return live

    def join(a, b):
        if a == "x":
            return b
        if b == "x":
            return a
        return True if True in (a, b) else (False if False in (a, b) else None)
    if run(body, None) is True:
        out.append("end")
    return out
