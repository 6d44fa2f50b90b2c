"""What a function writes: storage paths rooted at its object, its reference parameters and globals (interprocedural fixpoint).

Paths come from lib/lifetime.py's bindings (references and range variables are followed); a path is cut after three steps.  The
buffers behind a require() are not effects (the evaluation runs through a stored std::function), nor are require / unrequire
counters and the refresh / purge protocol: those are decided in C01-C03."""
from lifetime import *

READERS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "operator[]", "operator()", "at", "front", "back", "data", "size", "empty", "count", "top",
           "lower_bound", "upper_bound", "raw", "toVector", "coeff", "coeffRef", "row", "col", "block", "segment", "head", "tail", "array", "matrix", "diagonal",
           "get", "operator*", "operator->", "transpose", "valuePtr", "innerIndexPtr", "outerIndexPtr", "rows", "cols", "capacity", "max_size", "length", "c_str", "outer", "topRows", "bottomRows", "leftCols", "rightCols"}
ALGOS = {"std::sort", "std::stable_sort", "std::swap", "std::reverse", "std::fill", "std::iota", "std::shuffle", "std::random_shuffle", "std::rotate", "std::unique", "std::remove",
         "std::remove_if", "std::partition", "std::nth_element", "std::replace", "std::make_heap", "std::push_heap", "std::pop_heap", "std::generate", "std::for_each", "std::advance"}


class Refs(Lifetimes):
    """for what may be written, one of two alternatives stands for both: the one that reaches outside the object"""

    def either(self, b, e):
        ps = [p for p in (b.path(x) for x in e["a"][1:]) if p]
        out = [p for p in ps if any(s[0] == "F" and isref(fieldtype(self.P, s[1])) for s in p[1:])] or [p for p in ps if p[0][0] == "L" and p[0][1] in b.params] or ps
        return out[0] if out else None


    def handed(self, b, e):
        m = e.get("m")
        f = self.P.fns.get(m)
        if not f or not f.get("body") or m in self.busyptr:
            return None
        rets = [s for s in walk_stmts(f["body"]) if s["s"] == "return"]
        if len(rets) != 1 or not rets[0].get("e"):
            return None
        self.busyptr.add(m)
        g = self.bindings(f)
        v = g.viewof(rets[0]["e"])
        self.busyptr.discard(m)
        if not v:
            return None
        p = v[0]
        if p[0][0] == "L" and p[0][1] in g.params and g.refparam(p[0][1]):
            p = (("A", g.params[p[0][1]]),) + p[1:]
        if p[0][0] not in ("T", "A", "G"):
            return None
        q = b.subst(p, e)
        return (q, "ptr") if q else None

    busyptr = set()


def fieldtype(P, q):
    c, fl = q.rsplit("::", 1)
    return next((x["t"] for x in P.recs.get(c, {}).get("fields", []) if x["n"] == fl), "")


class Effects:
    def __init__(self, P, L=None):
        self.P = P
        self.L = L or Refs(P)
        self.plain = Lifetimes(P)
        self.sum = {}
        self.refs = {}
        self.ready = False
        self.why = {}

    def fn(self, m):
        if not self.ready:
            self.solve()
        return self.sum.get(m, frozenset())

    # reference members of a class bound by its constructor: {field: parameter index}
    def refmembers(self, ctor):
        if ctor in self.refs:
            return self.refs[ctor]
        out = self.refs[ctor] = {}
        f = self.P.fns.get(ctor)
        if not f:
            return out
        b = self.L.bindings(f) if f.get("body") else None
        for i in f.get("inits", []):
            if i.get("mem") and i.get("e") is not None and b is not None:
                rec = self.P.recs.get(f.get("cls"), {})
                q = f["cls"] + "::" + i["mem"] if "::" not in i["mem"] else i["mem"]
                t = next((x["t"] for x in rec.get("fields", []) if x["n"] == i["mem"].split("::")[-1]), "")
                if isref(t):
                    p = b.path(i["e"])
                    if p and p[0][0] == "L" and p[0][1] in b.params:
                        out[q] = (b.params[p[0][1]], p[1:])
        return out

    def solve(self):
        self.ready = True
        fs = [f for f in self.P.fns.values() if f.get("body") and f["f"].startswith(REPO + "/") and "/deps/" not in f["f"]]
        callers, nodes = {}, {}
        for f in fs:
            ns = [x for i in f.get("inits", []) if i.get("e") for x in walk(i["e"])] + list(walk_stmt(f["body"]))
            nodes[f["m"]] = [x for x in ns if x.get("k") in ("call", "ctor", "asg", "delete", "un")]
            for x in nodes[f["m"]]:
                if x["k"] in ("call", "ctor"):
                    for m in self.L.callees(x):
                        callers.setdefault(m, set()).add(f["m"])
        by = {f["m"]: f for f in fs}
        self.nfns = len(fs)
        self.nops = 0
        work = list(by)
        queued = set(work)
        n = 0
        while work and n < 80000:
            n += 1
            m = work.pop()
            queued.discard(m)
            out = self.one(by[m], nodes[m])
            if out != self.sum.get(m, frozenset()):
                self.sum[m] = out
                for c in callers.get(m, ()):
                    if c not in queued:
                        queued.add(c)
                        work.append(c)

    # locals constructed with references: ('L', d) . refmember -> path of the argument
    def locals(self, f):
        if "_ef" in f:
            return f["_ef"]
        out = f["_ef"] = {}
        b = self.L.bindings(f)
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    i = strip(v.get("i") or {})
                    while i.get("k") == "ctor" and len(i.get("a", [])) == 1 and strip(i["a"][0]).get("k") == "ctor" and not self.refmembers(i.get("m")):
                        i = strip(i["a"][0])
                    if i.get("k") == "ctor" and not isref(v["t"]):
                        for q, (n, rest) in self.refmembers(i.get("m")).items():
                            if n < len(i["a"]):
                                p = b.path(i["a"][n])
                                if p:
                                    out[(v["d"], q)] = p + rest
        return out

    # pointer locals initialised with an address: what they point to (they may move on; then this is one of the targets)
    def pointers(self, f):
        if "_efp" in f:
            return f["_efp"]
        out = f["_efp"] = {}
        b = self.L.bindings(f)
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    i = strip(v.get("i") or {})
                    if isptr(v["t"]) and i.get("k") == "un" and i["op"] == "&":
                        p = b.path(i["a"][0]) or (b.viewof(i["a"][0]) or (None,))[0]
                        if p:
                            out[v["d"]] = p
        return out

    def resolve(self, f, p):
        loc = self.locals(f)
        if len(p) > 1 and p[0][0] == "L" and p[1] == ("*r",) and p[0][1] in self.pointers(f):
            p = self.pointers(f)[p[0][1]] + p[2:]
        for _ in range(4):
            if len(p) > 1 and p[0][0] == "L" and p[1][0] == "F" and (p[0][1], p[1][1]) in loc:
                p = loc[(p[0][1], p[1][1])] + p[2:]
            else:
                return p
        return p

    def one(self, f, nodes):
        b = self.L.bindings(f)
        out = set()
        for x in nodes:
            for p in self.writes(f, b, x):
                p = self.resolve(f, p)
                r = p[0]
                if r[0] in ("T", "G"):
                    q = p
                elif r[0] == "L" and r[1] in b.params and (b.refparam(r[1]) or len(p) > 1 and p[1] == ("*r",)):
                    q = (("A", b.params[r[1]]),) + p[1:]
                elif r[0] == "A":
                    q = p
                else:
                    continue
                q = q[:4]
                if any(s[0] == "F" and re.search(r"Q$|::quantities$|::computed$|::requireCount$|CallbackList$", s[1]) for s in q[1:]):
                    continue
                out.add(q)
                self.why.setdefault((f["m"], q), x.get("l"))
        return frozenset(out)

    def writes(self, f, b, e):
        k = e["k"]
        if k == "asg":
            t = strip(e["a"][0])
            if t.get("k") == "un" and t["op"] == "*" and strip(t["a"][0]).get("k") == "ref" and strip(t["a"][0])["d"] in self.pointers(f):
                yield self.pointers(f)[strip(t["a"][0])["d"]]
        # taken by a move
        if k == "ctor" or k == "asg" or k == "call" and e.get("op") == "=":
            for a in e.get("a") or []:
                a = strip(a)
                if a.get("k") == "call" and a.get("f") == "std::move" and a["a"]:
                    x = strip(a["a"][0])
                    p = b.path(x)
                    if p and not (len(p) == 1 and p[0][0] == "L" and "&&" in b.ptypes.get(p[0][1], "")) and (ctype(x.get("t", "")) or x.get("t", "").startswith("geometrycentral::") and "Mesh" in x.get("t", "")):
                        yield p
        if k == "asg":
            p = b.path(e["a"][0])
            l = strip(e["a"][0])
            if p and not (l.get("k") == "ref" and isptr(l.get("t", "")) and not isref(b.types.get(l.get("d"), ""))):
                yield p
        elif k == "un" and e["op"].strip("post") in ("++", "--") or k == "un" and e["op"] in ("++", "--", "++post", "--post", "post++", "post--"):
            l = strip(e["a"][0])
            if isptr(l.get("t", "")):
                return
            p = b.path(l)
            if p:
                yield p
        elif k == "call":
            o, cn = e.get("o"), e["cn"]
            known = self.L.callees(e)
            if o is not None and not e.get("const") and not e.get("static"):
                t = strip(o).get("t", "")
                ext = not any(self.P.fns[m].get("body") for m in known)
                if ext and cn not in READERS and e.get("op") not in ("->",):
                    if isptr(t) and not ctype(t):
                        p = b.deref(o)
                    elif e.get("ar") and not ctype(t):
                        p = b.deref(o)
                    elif "_iterator" in t or "iterator<" in t.lower():
                        p = None
                    else:
                        p = b.path(o)
                    if p and "std::function" not in t:
                        yield p
            if o is None and e.get("op") in ("=", "+=", "-=", "*=", "/=", "<<=", "++", "--") and e["a"] and not known:
                p = b.path(e["a"][0])
                if p:
                    yield p
            if e.get("f") in ALGOS:
                for a in e["a"]:
                    q = b.viewof(a)
                    p = q[0] if q else (b.path(a) if e["f"] == "std::swap" else None)
                    if p:
                        yield p
            for x in ([o] if cn == "operator()" and o is not None else []):
                pass
            for m in known:
                for p in self.sum.get(m, ()):
                    q = p if p[0][0] == "G" else b.subst(p, e) if p[0][0] in ("T", "A") else None
                    if q:
                        yield q
        elif k == "ctor":
            m = e.get("m")
            for p in self.sum.get(m, ()):
                if p[0][0] == "A":
                    q = b.subst(p, e)
                    if q:
                        yield q
                elif p[0][0] == "G":
                    yield p
                elif p[0][0] == "T" and len(p) > 2 and p[1][0] == "F":
                    rm = self.refmembers(m).get(p[1][1])
                    if rm and rm[0] < len(e["a"]):
                        a = b.path(e["a"][rm[0]])
                        if a:
                            yield a + rm[1] + p[2:]
        elif k == "delete":
            p = b.deref(e["a"][0]) if e.get("a") else None
            if p:
                yield p
