"""Lifetimes of views: references, pointers and iterators into containers, ranges being iterated, closures, moved-from objects.

A storage path is a tuple of steps from a root (local, parameter, this, global): field selection, '[]' (element of a container),
'*u' (object owned by a unique_ptr / vector's data), '*r' (object behind a raw pointer, not owned).  A view is a variable bound to a path;
an operation that may move or end the storage of a container (a catalogue of the standard containers' rules, lifted through calls by
summaries relative to this and the reference parameters) makes the views under that path invalid; a later use is reported.
"""
from ir import *
import re

SEQ = re.compile(r"^(const )?std::(vector|deque|list|forward_list|map|set|multimap|multiset|unordered_map|unordered_set|priority_queue|queue|stack|basic_string|array|unique_ptr|shared_ptr|__cxx11::basic_string)<")
MESHDATA = re.compile(r"^(const )?geometrycentral::MeshData<")
EIG = re.compile(r"^(const )?Eigen::(Matrix|SparseMatrix|Array)<")
ITER = re.compile(r"__normal_iterator|_List_iterator|_List_const_iterator|_Rb_tree_(const_)?iterator|_Deque_iterator|_Node_(const_)?iterator|_Bit_iterator|reverse_iterator|_Fwd_list_")
ELEM = {"operator[]", "at", "top"}
ITFN = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound", "insert", "erase", "emplace", "emplace_hint"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front", "resize", "reserve", "append", "insert_or_assign", "try_emplace", "rehash"}
ALL = {"clear", "assign", "shrink_to_fit", "swap", "resize", "conservativeResize"}
REFRET = {"back", "front", "at", "operator[]", "top", "data", "c_str", "begin", "end", "value", "get", "operator*", "operator->"}


def ctype(t):
    """container kind of a canonical type"""
    t = t.replace("const ", "").strip()
    if t.endswith("*"):
        return None
    t = t.rstrip("& ")
    m = SEQ.match(t)
    if m:
        k = m.group(2).replace("__cxx11::", "")
        return "vector" if k == "basic_string" else k
    if MESHDATA.match(t):
        return "MeshData"
    if EIG.match(t):
        return "eigen"
    return None


def elem(t):
    """the step into an element of a container of this type; elements of MeshData carry the kind of mesh element"""
    m = re.match(r"^(?:const )?geometrycentral::MeshData<(?:geometrycentral::)?(?:surface::|pointcloud::)?(\w+),", t)
    if m:
        k = m.group(1).lower()
        return ("[]", {"corner": "halfedge", "boundaryloop": "face"}.get(k, k))
    return ("[]",)


def isptr(t):
    return t.replace("const", "").strip().endswith("*")


def isref(t):
    return t.strip().endswith("&")


def isiter(t):
    return bool(ITER.search(t)) and not t.startswith("std::vector") and not t.startswith("std::map") and not t.startswith("std::pair")


def lamtype(t):
    return "(lambda" in t


class Lifetimes:
    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.ready = False
        self.retpath_ = {}
        self.stats = {"functions": 0, "views": 0, "ranges": 0, "uses": 0, "operations": 0, "closures": 0, "moves": 0, "returns": 0}

    def nops(self):
        return self.stats["operations"]

    # -- static bindings of a function body (references never rebind)
    def bindings(self, f):
        b = f.get("_lt")
        if b is not None and b.L is self:
            return b
        b = f.setdefault(("_lt", id(self)), None)
        if b is not None:
            return b
        b = Bind(self, f)
        f["_lt"] = f[("_lt", id(self))] = b
        b.build()
        return b

    def retpath(self, m):
        """path (relative to this / parameters) of what a function that returns a reference hands out, if there is one return"""
        if m in self.retpath_:
            return self.retpath_[m]
        self.retpath_[m] = None
        f = self.P.fns.get(m)
        if not f or not f.get("body") or not isref(f.get("r", "")):
            return None
        rets = [s for s in walk_stmts(f["body"]) if s["s"] == "return"]
        if len(rets) == 1 and rets[0].get("e"):
            b = self.bindings(f)
            p = b.path(rets[0]["e"])
            if p and p[0][0] in ("T", "G"):
                self.retpath_[m] = p
            elif p and p[0][0] == "L" and p[0][1] in b.params and b.refparam(p[0][1]):
                self.retpath_[m] = (("A", b.params[p[0][1]]),) + p[1:]
        return self.retpath_[m]

    def handed(self, b, e):
        """what a function that returns a pointer points into: not followed"""
        return None

    def either(self, b, e):
        """path of a conditional expression: not followed"""
        return None

    # -- effects of a function: {(root path, op, container kind)}
    def effects(self, m):
        if not self.ready:
            self.solve()
        return self.sum.get(m, ())

    def solve(self):
        """summaries of all functions, to a fixpoint"""
        self.ready = True
        fs = [f for f in self.P.fns.values() if f.get("body") and f["f"].startswith(REPO + "/") and "/deps/" not in f["f"]]
        callers = {}
        nodes = {}
        for f in fs:
            ns = [x for i in f.get("inits", []) if i.get("e") for x in walk(i["e"])] + list(walk_stmt(f["body"]))
            nodes[f["m"]] = [x for x in ns if x.get("k") in ("call", "ctor", "asg", "delete")]
            for x in nodes[f["m"]]:
                if x["k"] in ("call", "ctor"):
                    for m in self.callees(x):
                        callers.setdefault(m, set()).add(f["m"])
        byname = {f["m"]: f for f in fs}
        work = [f["m"] for f in fs]
        queued = set(work)
        n = 0
        while work and n < 60000:
            n += 1
            m = work.pop()
            queued.discard(m)
            out = self.one(byname[m], nodes[m])
            if out != self.sum.get(m, set()):
                self.sum[m] = out
                for c in callers.get(m, ()):
                    if c not in queued:
                        queued.add(c)
                        work.append(c)

    def one(self, f, nodes):
        b = self.bindings(f)
        out = set()
        for x in nodes:
            self._eff(b, x, out)
        for s in walk_stmts(f["body"]):
            if s["s"] == "rfor":
                q = strip(s["r"])
                if q.get("k") == "mem" and q["q"].endswith("CallbackList"):
                    mm = re.match(r"(\w+?)(Expand|Permute)CallbackList", q["n"])
                    if mm:
                        e = {"boundaryLoop": "face"}.get(mm.group(1), mm.group(1))
                        out.add(((("TOK", mm.group(2)),), e, ""))
        return {x for x in out if len(x[0]) <= 6}

    def _eff(self, b, e, out):
        for p, op, ck in b.ops(e):
            r = p[0]
            if r[0] in ("T", "G", "TOK"):
                out.add((p, op, ck))
            elif r[0] == "L" and r[1] in b.params and (b.refparam(r[1]) or (len(p) > 1 and p[1] == ("*r",))):
                out.add(((("A", b.params[r[1]]),) + p[1:], op, ck))

    def callees(self, e):
        P = self.P
        m = e.get("m")
        out = []
        if m in P.fns:
            out.append(m)
            if e.get("virt") and not e.get("qual"):
                for g in P.overriders.get(m, ()):
                    if g in P.fns:
                        out.append(g)
        return out


class Bind:
    """bindings and paths within one function or lambda (with its enclosing function)"""

    def __init__(self, L, f):
        self.L = L
        self.P = L.P
        self.f = f
        self.params = {p["d"]: i for i, p in enumerate(f["ps"])}
        self.ptypes = {p["d"]: p["t"] for p in f["ps"]}
        self.b = {}      # var -> list of (path, kind, tag)
        self.types = {}
        self.lams = {}   # variable -> lambda expression
        self.caps = {}
        self.busy = set()

    def refparam(self, d):
        return isref(self.ptypes.get(d, "")) or isptr(self.ptypes.get(d, ""))

    def build(self):
        for p in self.f["ps"]:
            self.types[p["d"]] = p["t"]
        self.scan(self.f["body"])

    def scan(self, body):
        todo = [body]
        while todo:
            s0 = todo.pop()
            for s in walk_stmts(s0):
                if s["s"] == "decl":
                    for v in s["vs"]:
                        self.declare(v)
                elif s["s"] == "rfor":
                    v = s["v"]
                    self.types[v["d"]] = v["t"]
                    p = self.path(s["r"])
                    if p and isref(v["t"]):
                        self.b.setdefault(v["d"], []).append((p + (("[]",),), "ref", ""))
                    self.b.setdefault(("rng", id(s)), []).extend(self.rangebind(s, p))
                cv = s.get("cv")
                if cv:
                    self.declare(cv)
                for e in stmt_exprs(s):
                    for x in walk(e, False):
                        if x.get("k") == "lam":
                            for c in x["caps"]:
                                if c.get("i"):
                                    self.types[c["d"]] = c.get("t", "")
                            for pp in x["ps"]:
                                self.types[pp["d"]] = pp["t"]
                            todo.append(x["body"])
                        elif (x.get("k") == "asg" or x.get("op") == "=") and x.get("k") in ("asg", "call"):
                            l = strip(x["a"][0] if x["k"] == "asg" else x.get("o") or {})
                            r = x["a"][1] if x["k"] == "asg" else (x["a"][0] if x["a"] else None)
                            if l.get("k") == "ref" and l.get("dk") in ("local", "param") and r is not None:
                                t = l.get("t", "")
                                if isiter(t) or isptr(t):
                                    self.view(l["d"], t, r)

    def rangebind(self, s, p):
        t = strip(s["r"]).get("t", "")
        out = []
        if p is not None and ctype(t) in ("vector", "deque", "list", "map", "set", "multimap", "multiset", "unordered_map", "unordered_set", "MeshData"):
            out.append((p + (("[]",),), "it", ""))
        elif self.f.get("cls", "").endswith(("::SurfaceMesh", "::ManifoldSurfaceMesh")):
            pass
        elif "NavigationSetBase<" in t or "::VertexNeighborIterator" in t:
            out.append(((("TRAV",),), "trav", ""))
        elif "RangeSetBase<" in t:
            out.append(((("RANGE",),), "range", ""))
        return out

    def declare(self, v):
        t = v["t"]
        self.types[v["d"]] = t
        i = v.get("i")
        if i is None:
            return
        j = strip(i)
        if j.get("k") == "ctor" and len(j.get("a", [])) == 1 and strip(j["a"][0]).get("k") == "lam":
            j = strip(j["a"][0])
        if j.get("k") == "lam":
            self.lams[v["d"]] = j
        if isref(t):
            p = self.path(i)
            if p and (len(p) > 1 or p[0][0] in ("L", "T")):
                self.b.setdefault(v["d"], []).append((p, "ref", self.tag(i)))
        elif isiter(t) or isptr(t):
            self.view(v["d"], t, i)

    def tag(self, e):
        e = strip(e)
        if e.get("k") == "un" and e["op"] == "&":
            return self.tag(e["a"][0])
        if e.get("k") == "call" and e["cn"] in ("back", "front"):
            return e["cn"]
        if e.get("k") == "call" and e["cn"] in ("operator*", "operator->") and e.get("o"):
            return self.tag(e["o"])
        return ""

    def view(self, d, t, i):
        q = self.viewof(i, t)
        if q:
            self.b.setdefault(d, []).append((q[0], q[1], self.tag(i)))

    def viewof(self, e, t=""):
        """(target path, kind) of a pointer / iterator valued expression"""
        e = strip(e)
        k = e.get("k")
        if k == "ctor" and len(e.get("a", [])) == 1 and (isiter(e.get("t", "")) or isiter(e.get("c", ""))):
            return self.viewof(e["a"][0], t)
        if k == "ref" and e.get("d") in self.b and not isref(self.types.get(e["d"], "")):
            bs = self.b[e["d"]]
            if len(set(x[0] for x in bs)) == 1:
                return (bs[0][0], bs[0][1])
            return None
        if k == "un" and e["op"] == "&":
            p = self.path(e["a"][0])
            return (p, "ptr") if p else None
        if k == "call":
            o = e.get("o")
            if o is not None and e["cn"] in ITFN and isiter(e.get("t", "")) and ctype(strip(o).get("t", "")):
                p = self.path(o)
                return (p + (("[]",),), "it") if p else None
            if o is not None and e["cn"] == "data" and ctype(strip(o).get("t", "")) and isptr(e.get("t", "")):
                p = self.path(o)
                return (p + (("[]",),), "ptr") if p else None
            if o is not None and e["cn"] == "get" and ctype(strip(o).get("t", "")) == "unique_ptr":
                p = self.path(o)
                return (p + (("*u",),), "ptr") if p else None
            if e["cn"] in ("begin", "end", "find", "find_if", "lower_bound", "upper_bound", "next", "prev", "min_element", "max_element", "remove", "remove_if", "unique", "partition", "rbegin", "rend") and e.get("f", "").startswith("std::") and o is None and e["a"]:
                a0 = strip(e["a"][0])
                if e["cn"] in ("begin", "end", "rbegin", "rend"):
                    p = self.path(a0)
                    return (p + (("[]",),), "it") if p else None
                return self.viewof(a0, t)
            if e["cn"] in ("operator+", "operator-") and isiter(e.get("t", "")):
                a0 = o if o is not None else (e["a"][0] if e["a"] else {})
                return self.viewof(a0, t)
            if e["cn"] in ("operator++", "operator--") and isiter(e.get("t", "")):
                return self.viewof(o if o is not None else e["a"][0], t)
        if k == "bin" and e["op"] in ("+", "-") and isptr(e.get("t", "")):
            return self.viewof(e["a"][0], t)
        if k == "call" and isptr(e.get("t", "")):
            return self.L.handed(self, e)
        return None

    def path(self, e):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "ref":
            if e.get("dk") == "global":
                return (("G", e.get("q") or e["n"]),)
            if e.get("dk") in ("local", "param"):
                d = e["d"]
                if isref(self.types.get(d, "")):
                    bs = self.b.get(d)
                    if bs and len(set(x[0] for x in bs)) == 1:
                        return bs[0][0]
                    if d in self.b:
                        return None
                return (("L", d),)
            return None
        if k == "this":
            return (("T",),)
        if k == "mem":
            b = e.get("b")
            if b is None:
                return None
            if e.get("ar"):
                p = self.deref(b)
            else:
                p = self.path(b)
            return p + (("F", e["q"]),) if p else None
        if k == "un" and e["op"] == "*":
            return self.deref(e["a"][0])
        if k == "idx":
            a = strip(e["a"][0])
            p = self.path(a)
            if p and isptr(a.get("t", "")):
                q = self.viewof(a)
                return q[0] if q else p + (("*r",),)
            return p + (("[a]",),) if p else None
        if k == "cond":
            return self.L.either(self, e)
        if k == "call":
            o = e.get("o")
            cn = e["cn"]
            if e.get("f") in ("std::move", "std::forward") and e["a"]:
                return self.path(e["a"][0])
            if e.get("f") == "std::get" and e["a"]:
                p = self.path(e["a"][0])
                return p + (("F", "get"),) if p else None
            if o is None and cn in ELEM and e["a"]:
                o = e["a"][0]
            if o is None:
                r = None
            else:
                ot = strip(o).get("t", "")
                if cn in ("operator*", "operator->"):
                    return self.deref(o)
                c = ctype(ot)
                if c == "array" and cn in ("operator[]", "at", "back", "front"):
                    p = self.path(o)
                    return p + (("[a]",),) if p else None
                if c and (cn in ELEM or cn in ("back", "front")):
                    p = self.path(o)
                    return p + (elem(ot),) if p else None
                if c == "eigen" and cn in ("operator()", "coeffRef"):
                    p = self.path(o)
                    return p + (("[]",),) if p else None
            rp = self.L.retpath(e.get("m"))
            if rp:
                return self.subst(rp, e)
            return None
        return None

    def deref(self, e):
        """path of what a pointer-like expression points to"""
        e = strip(e)
        t = e.get("t", "")
        if e.get("k") == "this":
            return (("T",),)
        if e.get("k") == "call" and e["cn"] == "operator->" and e.get("o") is not None:
            return self.deref(e["o"])
        q = self.viewof(e)
        if q:
            return q[0]
        if e.get("k") == "ref" and e.get("d") in self.b:
            return None
        p = self.path(e)
        if not p:
            return None
        c = ctype(t)
        if c in ("unique_ptr",):
            return p + (("*u",),)
        if isptr(t) or c == "shared_ptr":
            return p + (("*r",),)
        return None

    def subst(self, rp, e):
        r = rp[0]
        if r[0] in ("G", "TOK"):
            return rp
        if r[0] == "T":
            o = e.get("o")
            if o is None:
                return None
            p = self.deref(o) if e.get("ar") or isptr(strip(o).get("t", "")) else self.path(o)
            return p + rp[1:] if p else None
        if r[0] == "A":
            i = r[1]
            a = e.get("a") or []
            if i >= len(a):
                return None
            if len(rp) > 1 and rp[1] == ("*r",):
                p = self.deref(a[i])
                return p + rp[2:] if p else None
            p = self.path(a[i])
            return p + rp[1:] if p else None
        return None

    # -- container operations of one expression node: [(path, op, container kind)]
    def ops(self, e):
        k = e.get("k")
        out = []
        if k == "call":
            o = e.get("o")
            cn = e["cn"]
            c = ctype(strip(o).get("t", "")) if o is not None else None
            if e.get("op") == "->":
                return out
            arrow_c = None
            if o is not None and c in ("unique_ptr", "shared_ptr") and e.get("ar"):
                c = None
            if o is not None and isptr(strip(o).get("t", "")):
                t = strip(o)["t"].replace("const", "").strip().rstrip("*").strip()
                arrow_c = ctype(t)
                if arrow_c:
                    c = arrow_c
            if c and not e.get("const"):
                p = self.deref(o) if arrow_c else self.path(o)
                if p:
                    op = None
                    if cn == "operator=" and c != "eigen":
                        op = "all"
                    elif c == "MeshData":
                        if cn in ("clear", "fromVector"):
                            op = "all"
                    elif c == "eigen":
                        if cn in ("resize", "conservativeResize"):
                            op = "all"
                    elif c == "unique_ptr":
                        if cn in ("reset", "release", "swap"):
                            op = "all"
                    elif c in ("list", "set", "map", "multimap", "multiset", "unordered_map", "unordered_set", "forward_list"):
                        if cn in ("clear", "swap", "assign"):
                            op = "all"
                        elif cn == "erase":
                            op = "erase1"
                        elif cn in ("insert", "emplace") and c.startswith("unordered"):
                            op = "rehash"
                        elif cn in ("pop_back", "pop_front"):
                            op = cn
                    elif c in ("vector", "deque"):
                        if cn in ("clear", "swap", "assign", "shrink_to_fit", "erase", "resize", "reserve"):
                            op = "all"
                        elif cn in ("push_back", "emplace_back", "push_front", "emplace_front", "append"):
                            op = "grow"
                        elif cn in ("insert", "emplace"):
                            op = "all"
                        elif cn in ("pop_back", "pop_front"):
                            op = cn
                    elif c in ("queue", "stack", "priority_queue"):
                        if cn == "pop":
                            op = "pop_top"
                        elif c == "priority_queue" and cn in ("push", "emplace"):
                            op = "all"
                        elif cn in ("push", "emplace"):
                            op = None
                    if op:
                        out.append((p, op, c))
            if e.get("f") in ("std::swap",):
                for a in e["a"]:
                    p = self.path(a)
                    if p and ctype(strip(a).get("t", "")):
                        out.append((p, "all", ctype(strip(a)["t"])))
            if cn == "operator=" and o is not None and c is None and e["a"]:
                t = strip(o).get("t", "")
                if t.startswith("geometrycentral") and not isptr(t):
                    p = self.path(o)
                    if p and p[0][0] != "T" or p and len(p) > 1:
                        out.append((p, "record", t))
            # lambda called or handed over
            for x in ([o] if cn == "operator()" and o is not None else []) + list(e.get("a") or []):
                x = strip(x)
                lam = None
                if x.get("k") == "ref" and x.get("d") in self.lams:
                    lam = self.lams[x["d"]]
                elif x.get("k") == "ctor" and len(x.get("a", [])) == 1:
                    y = strip(x["a"][0])
                    if y.get("k") == "ref" and y.get("d") in self.lams:
                        lam = self.lams[y["d"]]
                if lam is not None:
                    out += self.lameff(lam)
            for m in self.L.callees(e):
                for p, op, ck in self.L.effects(m):
                    q = p if p[0][0] in ("TOK", "G") else self.subst(p, e)
                    if q:
                        out.append((q, op, ck))
        elif k == "ctor":
            m = e.get("m")
            if m in self.P.fns:
                for p, op, ck in self.L.effects(m):
                    if p[0][0] == "A":
                        q = self.subst(p, e)
                        if q:
                            out.append((q, op, ck))
                    elif p[0][0] in ("G", "TOK"):
                        out.append((p, op, ck))
        elif k == "asg" and e.get("op", "=") == "=":
            l = strip(e["a"][0])
            t = l.get("t", "")
            c = ctype(t)
            if c and c not in ("eigen", "array"):
                p = self.path(l)
                if p:
                    out.append((p, "all", c))
            if l.get("k") == "call" and l["cn"] == "operator[]" and strip(l.get("o") or {}).get("k") == "mem" and strip(l["o"])["n"] in ("heNextArr", "heSiblingArr", "heVertInNextArr", "heVertOutNextArr"):
                out.append(((("TOK", "conn"),), "conn", ""))
        elif k == "delete" and e.get("a"):
            p = self.deref(e["a"][0])
            if p:
                out.append((p, "free", ""))
        return out

    def lameff(self, lam):
        if id(lam) in self.busy:
            return []
        self.busy.add(id(lam))
        out = []
        ps = {p["d"] for p in lam["ps"]}
        byval = {c.get("d") for c in lam["caps"] if not c.get("ref") and not c.get("this")}
        for x in walk_stmt(lam["body"]):
            for p, op, ck in self.ops(x):
                if p[0][0] == "L" and (p[0][1] in ps or p[0][1] in byval and p[0][1] is not None):
                    continue
                out.append((p, op, ck))
        self.busy.discard(id(lam))
        return out


    # -- closures
    def closure(self, e):
        """the lambda expression that e hands over, if it is one"""
        e = strip(e)
        while isinstance(e, dict) and (e.get("k") == "ctor" and len(e.get("a", [])) == 1 or is_std_move(e) and e["a"]):
            e = strip(e["a"][0])
        if not isinstance(e, dict):
            return None
        if e.get("k") == "lam":
            return e
        if e.get("k") == "ref" and e.get("d") in self.lams:
            return self.lams[e["d"]]
        return None

    def localcaps(self, lam):
        """locals that the closure refers to and that end with this call"""
        out = []
        for c in lam["caps"]:
            d = c.get("d")
            if not c.get("ref") or d is None:
                continue
            if d in self.params and isref(self.ptypes[d]) or d in self.static():
                continue
            if isref(self.types.get(d, "")):
                bs = self.b.get(d)
                if not bs or self.outlives(bs[0][0]):
                    continue
            out.append(c.get("n") or "?")
        return out

    def static(self):
        if not hasattr(self, "_st"):
            self._st = {v["d"] for s in walk_stmts(self.f["body"]) if s["s"] == "decl" for v in s["vs"] if v.get("st")}
        return self._st

    def outlives(self, p):
        """storage that exists after the function has returned"""
        if p is None:
            return False
        r = p[0]
        if r[0] in ("T", "G", "A"):
            return True
        if any(x[0] == "*r" for x in p[1:]):
            return True
        if r[0] == "L":
            d = r[1]
            if d in self.static() or d in self.params and isref(self.ptypes[d]):
                return True
            return d not in self.b and isref(self.types.get(d, "&"))
        return True

    def dies(self, p):
        """storage that certainly ends with the function: owned by a local object or a parameter by value"""
        if p is None or p[0][0] != "L":
            return False
        d = p[0][1]
        if d in self.static() or isref(self.types.get(d, "&")) or d not in self.types:
            return False
        return not any(x[0] == "*r" for x in p[1:])


def escapes(L, f):
    """views and closures that leave the function: [(key, line, message)]"""
    B = L.bindings(f)
    P = L.P
    out = []
    for x in walk_stmt(f["body"]):
        k = x.get("k")
        cands = []
        if k == "asg":
            cands = [(x["a"][0], x["a"][1])]
        elif k == "call" and x.get("o") is not None and x["cn"] in ("push_back", "insert", "emplace_back", "emplace", "push", "operator="):
            cands = [(x["o"], a) for a in x["a"]]
        for dst, a in cands:
            dp = B.path(dst)
            v = B.viewof(a)
            if v and (v[1] == "ptr" or v[1] == "it" and k == "asg") and dp is not None and isptr(strip(a).get("t", "")) | (k == "asg"):
                L.stats["returns"] += 1
                if B.outlives(dp) and B.dies(v[0]) and not isiter(strip(dst).get("t", "")):
                    out.append(("escape", x["l"], "a pointer to a local object is stored where it outlives the object"))
                elif v[1] == "ptr" and v[0][-1][0] == "[]" and len(v[0]) > 1 and v[0][-2][0] == "F" and not (strip(dst).get("k") == "ref" and strip(dst).get("dk") == "local"):
                    out.append(("element", x["l"], v[0][-2][1]))
            lam = B.closure(a)
            if lam and k == "asg" or lam and x["cn"] == "operator=":
                L.stats["closures"] += 1
                if B.outlives(dp):
                    caps = B.localcaps(lam)
                    if caps:
                        out.append(("closure", x["l"], "a closure that refers to the local %s is stored where it outlives it" % caps[0]))
    r = f.get("r", "")
    for s in walk_stmts(f["body"]):
        if s["s"] == "return" and s.get("e"):
            if isref(r) or isptr(r) or isiter(r):
                L.stats["returns"] += 1
                p = B.path(s["e"]) if isref(r) else (B.viewof(s["e"]) or (None,))[0]
                if p and B.dies(p):
                    out.append(("return", s["l"], "a %s to a local object is returned" % ("reference" if isref(r) else "pointer" if isptr(r) else "iterator")))
            lam = B.closure(s["e"])
            if lam:
                L.stats["closures"] += 1
                caps = B.localcaps(lam)
                if caps:
                    out.append(("return", s["l"], "a closure that refers to the local %s is returned" % caps[0]))
        # views into temporaries
        vs = [(v["n"], v["t"], v.get("i")) for v in s["vs"]] if s["s"] == "decl" else [("the range", "&", s["r"])] if s["s"] == "rfor" else []
        for n, t, i in vs:
            if i is None or not (isref(t) or isptr(t) or isiter(t)):
                continue
            j = strip(i)
            while j.get("k") == "mem" and not j.get("ar") and j.get("b"):
                j = strip(j["b"])
            if j.get("k") != "call":
                continue
            o = j.get("o")
            if o is not None:
                so = strip(o)
                c = ctype(so.get("t", ""))
                if c and j["cn"] in REFRET and not (c in ("unique_ptr", "shared_ptr") and j["cn"] in ("operator*", "operator->") and False):
                    if so.get("k") == "ctor" and so.get("c") or so.get("k") == "call" and so.get("m") in P.fns and not isref(P.fns[so["m"]].get("r", "&")) and not isptr(so.get("t", "")):
                        if not (isref(t) and not isiter(j.get("t", "")) and c == "shared_ptr"):
                            out.append(("temporary", s["l"], "%s refers to an element of a temporary" % n))
                elif j.get("m") in P.fns and isref(P.fns[j["m"]].get("r", "")) and L.retpath(j["m"]) and L.retpath(j["m"])[0] == ("T",) and not any(y[0] == "*r" for y in L.retpath(j["m"])):
                    if so.get("k") == "ctor" and so.get("c") or so.get("k") == "call" and so.get("m") in P.fns and not isref(P.fns[so["m"]].get("r", "&")) and not isptr(so.get("t", "")):
                        out.append(("temporary", s["l"], "%s refers to a member of a temporary" % n))
            elif j.get("f") in ("std::min", "std::max") and isref(t):
                if any(strip(a).get("k") in ("lit", "call", "bin", "ctor", "un") for a in j["a"]) and any(strip(a).get("k") in ("lit", "bin", "ctor") or strip(a).get("k") == "call" and strip(a).get("m") in P.fns and not isref(P.fns[strip(a)["m"]].get("r", "&")) for a in j["a"]):
                    out.append(("temporary", s["l"], "%s refers to a temporary" % n))
    # reference members bound to a parameter by value
    cls = f.get("cls")
    if cls and f.get("kind") == "ctor" and cls in P.recs:
        ft = {x["n"]: x["t"] for x in P.recs[cls]["fields"]}
        for i in f.get("inits", []):
            q = i.get("mem")
            n = (q or "").rsplit("::", 1)[-1]
            t = ft.get(n, "")
            if not (isref(t) or isptr(t)) or not i.get("e"):
                continue
            p = B.path(i["e"]) if isref(t) else (B.viewof(i["e"]) or (None,))[0]
            if p and B.dies(p):
                out.append(("member", i["e"].get("l"), "the member %s refers to a parameter taken by value" % n))
    return out


def grown(L):
    """fields of vectors that some function appends to: {(field, element depth)}"""
    out = {}
    for f in L.P.fns.values():
        if not f.get("body") or not f["f"].startswith(REPO + "/") or "/deps/" in f["f"]:
            continue
        B = L.bindings(f)
        for x in walk_stmt(f["body"]):
            if x.get("k") == "call" and x.get("o") is not None and x["cn"] in ("push_back", "emplace_back", "insert", "emplace", "erase"):
                o = strip(x["o"])
                if ctype(o.get("t", "")) == "vector":
                    p = B.path(o)
                    if p and p[-1][0] == "F":
                        out.setdefault(p[-1][1], (short(f["q"]), x["l"]))
    return out


def hits(op, view):
    """does the container operation (path, op, ckind) end the view (path, kind, tag)?"""
    p, o, ck = op
    q, kind, tag = view
    if p[0][0] == "TOK":
        w = p[0][1]
        if kind == "trav":
            return w in ("conn", "Permute")
        if kind == "range":
            return w == "Permute"
        return w in ("Expand", "Permute") and any(x[0] == "[]" and len(x) > 1 and x[1] == o for x in q)
    if kind in ("trav", "range"):
        return False
    if len(q) <= len(p) and not (o == "free" and q == p):
        return False
    if q[:len(p)] != p:
        return False
    rest = q[len(p):]
    if o == "free":
        return True
    # an unowned pointer step before the storage ends the ownership chain
    own = [s[0] for s in rest]
    if o == "record":
        for s in own:
            if s == "*r":
                return False
            if s in ("[]", "*u"):
                return True
        return False
    if own[0] not in ("[]", "*u"):
        return False
    last = len(rest) == 1
    if o == "all":
        if ck == "unique_ptr":
            return own[0] == "*u"
        return own[0] == "[]"
    if o == "grow":
        if ck == "deque":
            return last and kind == "it"
        return True
    if o == "rehash":
        return last and kind == "it"
    if o == "erase1":
        return False  # handled at the call (the iterator argument)
    if o in ("pop_back", "pop_front", "pop_top"):
        return {"pop_back": "back", "pop_front": "front", "pop_top": "top"}[o] == tag
    return False


class Valid(Flow):
    """state: frozenset of (variable, line, why) that are invalid, plus ('moved', variable)"""
    max_iter = 8

    def __init__(self, L, f, bind=None):
        super().__init__()
        self.L = L
        self.P = L.P
        self.f = f
        self.B = bind or L.bindings(f)
        self.found = {}
        self.count = True
        self.names = {}
        self.byd = {}
        for d, bs in self.B.b.items():
            if bs:
                self.byd[d] = bs
        self.lamstack = []

    def join(self, a, b):
        return a | b

    def noreturn(self, e):
        return False

    def drop(self, st, d):
        return frozenset(x for x in st if x[0] != d)

    def decl(self, v, st):
        self.names[v["d"]] = v["n"]
        st = self.drop(st, v["d"])
        st = self.guards(v, st)
        i = strip(v.get("i") or {})
        if i.get("k") == "call" and i.get("f") == "std::move" and i["a"] and not isref(v["t"]):
            x = strip(i["a"][0])
            if x.get("k") == "ref" and x.get("dk") in ("local", "param") and self.movable(x.get("t", "")):
                st = st | {(x["d"], i.get("l"), "moved", None)}
        if v["d"] in self.byd:
            st = self.inherit(st, v["d"], v.get("i"))
        return st

    # a change of connectivity that a call reports by its result (false, an invalid element) has not happened when the result says so
    def guards(self, v, st):
        i = strip(v.get("i") or {})
        while i.get("k") == "ctor" and len(i.get("a", [])) == 1:
            i = strip(i["a"][0])
        if i.get("k") == "call":
            st = frozenset((("obl", v["d"]),) + x[1:] if x[0] == ("obl", id(i)) else x for x in st)
            return frozenset(x[:3] + (("v", v["d"]),) if x[3] == id(i) else x for x in st)
        return st

    def branch(self, c, truth, st):
        c = strip(c)
        key = None
        if c.get("k") == "ref" and not truth:
            key = ("v", c.get("d"))
        elif c.get("k") == "call" and not truth and c.get("op") not in ("==", "!="):
            key = id(c)
        else:
            op, a = None, None
            if c.get("k") == "call" and c.get("op") in ("==", "!="):
                op, a = c["op"], ([c["o"]] if c.get("o") is not None else []) + list(c["a"])
            elif c.get("k") == "bin" and c["op"] in ("==", "!="):
                op, a = c["op"], c["a"]
            if op and len(a) == 2 and (op == "==") == truth:
                x, y = strip(a[0]), strip(a[1])
                if x.get("k") not in ("ref", "call"):
                    x, y = y, x
                while y.get("k") == "ctor" and len(y.get("a", [])) == 1:
                    y = strip(y["a"][0])
                if y.get("k") == "ctor" and not y.get("a") or y.get("k") in ("null", "zero", "init") or y.get("k") == "lit" and y.get("v") in ("false", "0"):
                    key = ("v", x["d"]) if x.get("k") == "ref" else id(x)
        if key is None:
            return st
        return frozenset(x for x in st if x[3] != key)

    def inherit(self, st, d, e):
        # a view made from an invalid view was already reported at that use
        return st

    def rangevar(self, s, st):
        r = ("rng", id(s))
        bad = [x for x in st if x[0] == r]
        if bad:
            self.report(("range", s["l"]), s.get("l"), bad[0], "the range of the loop at line %s goes on" % s.get("l"), strip(s["r"]))
        st = self.drop(self.drop(st, r), s["v"]["d"])
        self.names[s["v"]["d"]] = s["v"]["n"]
        return st

    def _loop(self, s, st):
        if s["s"] == "rfor" and st is not None:
            st = self.drop(st, ("rng", id(s)))
            out = super()._loop(s, st)
            return self.drop(out, ("rng", id(s))) if out is not None else None
        return super()._loop(s, st)

    def report(self, key, line, bad, what, e=None):
        self.found.setdefault((key, bad[1]), (line, bad, what))

    def target(self, e):
        """variable that an assignment rebinds (pointer, iterator or object variable)"""
        l = strip(e["a"][0] if e["k"] == "asg" else e.get("o") or {})
        if l.get("k") == "ref" and l.get("dk") in ("local", "param") and not isref(self.B.types.get(l["d"], "")):
            return l
        return None

    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "asg" and e.get("op", "=") == "=" or k == "call" and e.get("op") == "=" and e.get("o") is not None and e.get("a"):
            l = self.target(e)
            if l is not None:
                st = self.ev(e["a"][1] if k == "asg" else e["a"][0], st)
                if st is None:
                    return None
                st = self.apply(e, st)
                st = self.drop(st, l["d"])
                return self.guards({"d": l["d"], "i": e["a"][1] if k == "asg" else e["a"][0]}, st)
        if k == "call" and e["cn"] in ("clear", "resize", "assign", "reset") and e.get("o") is not None:
            o = strip(e["o"])
            if o.get("k") == "ref" and o.get("dk") in ("local", "param") and any(x[0] == o["d"] and x[2] == "moved" for x in st):
                st = self.drop(st, o["d"])
        return super().ev(e, st)

    def leaf(self, e, st):
        k = e.get("k")
        if k == "ref" and e.get("dk") in ("local", "param"):
            d = e["d"]
            bad = [x for x in st if x[0] == d]
            if bad:
                self.report((e["n"],), e.get("l"), min(bad, key=lambda x: (x[1] or 0, x[2])), "%s is used" % e["n"])
            return st
        if k == "lam":
            for c in e["caps"]:
                bad = [x for x in st if x[0] == c.get("d") and c.get("d") is not None]
                if bad:
                    self.report((c.get("n"),), e.get("l"), bad[0], "%s is captured" % c.get("n"))
            return st
        return self.apply(e, st)

    def apply(self, e, st):
        k = e.get("k")
        if k not in ("call", "ctor", "asg", "delete"):
            return st
        add = set()
        ops = self.B.ops(e)
        self.L.stats["operations"] += len(ops)
        for op in ops:
            for d, bs in self.byd.items():
                for v in bs:
                    if hits(op, v):
                        add.add((d, e.get("l"), self.why(op), id(e) if op[0][0] == ("TOK", "conn") and k == "call" and e.get("t") not in ("void", None) else None))
        if k == "call" and e["cn"] == "erase" and e.get("o") is not None and len(e["a"]) >= 1:
            a = strip(e["a"][0])
            while a.get("k") == "ctor" and len(a.get("a", [])) == 1:
                a = strip(a["a"][0])
            if a.get("k") == "ref" and a.get("d") in self.byd and isiter(self.B.types.get(a["d"], "")):
                add.add((a["d"], e.get("l"), "its element was erased", None))
        if k == "call" and e["cn"] in ("insert", "push_back", "emplace_back", "emplace", "push_front") and e.get("o") is not None and e["a"]:
            lam = self.B.closure(e["a"][-1])
            if lam is not None and "std::function<" in strip(e["o"]).get("t", ""):
                self.L.stats["closures"] += 1
                p = self.B.path(e["o"])
                o = strip(e["o"])
                if p is None and o.get("k") == "mem" or self.B.outlives(p):
                    caps = self.B.localcaps(lam)
                    if caps:
                        add.add((("obl", id(e)), e.get("l"), caps[0], None))
        if k == "ctor" and e.get("c") in self.P.recs and self.cleans(e["c"]):
            hs = {strip(a).get("d") for a in e.get("a", [])}
            st = frozenset(x for x in st if not (isinstance(x[0], tuple) and x[0][0] == "obl" and x[0][1] in hs))
        if k == "call" and e["cn"] == "erase" and e["a"]:
            a = strip(e["a"][0])
            while a.get("k") == "ctor" and len(a.get("a", [])) == 1:
                a = strip(a["a"][0])
            if a.get("k") == "ref":
                st = frozenset(x for x in st if x[0] != ("obl", a.get("d")))
        if k == "call" and e["cn"] in ("pop_back", "clear") and e.get("o") is not None and "std::function<" in strip(e["o"]).get("t", ""):
            st = frozenset(x for x in st if not (isinstance(x[0], tuple) and x[0][0] == "obl"))
        if k in ("call", "ctor", "asg"):
            for a in list(e.get("a") or []):
                a = strip(a)
                if a.get("k") == "call" and a.get("f") == "std::move" and a["a"]:
                    x = strip(a["a"][0])
                    if x.get("k") == "ref" and x.get("dk") in ("local", "param") and self.movable(x.get("t", "")) and self.consumes(e, a):
                        add.add((x["d"], e.get("l"), "moved", None))
        return st | frozenset(add) if add else st

    def cleans(self, cls):
        """a record whose destructor erases something: a scope guard"""
        for m in self.P.recs[cls].get("methods", []):
            g = self.P.fns.get(m if isinstance(m, str) else m.get("m"))
            if g and g.get("kind") == "dtor" and g.get("body") and any(x.get("k") == "call" and x["cn"] in ("erase", "pop_back") for x in walk_stmt(g["body"])):
                return True
        for g in self.P.bycls.get(cls, ()):
            g = g if isinstance(g, dict) else self.P.fns.get(g)
            if g and g.get("kind") == "dtor" and g.get("body") and any(x.get("k") == "call" and x["cn"] in ("erase", "pop_back") for x in walk_stmt(g["body"])):
                return True
        return False

    def leftover(self):
        """closures over locals still registered at a normal exit: [(line registered, local)]"""
        out = {}
        for st, s in self.returns:
            for x in st or ():
                if isinstance(x[0], tuple) and x[0][0] == "obl":
                    out[(x[1], x[2])] = (s or {}).get("l") or self.f.get("le")
        return out

    def movable(self, t):
        return ctype(t) in ("vector", "unique_ptr", "deque", "list", "map", "set", "MeshData", "eigen", "unordered_map")

    def consumes(self, e, a):
        if e["k"] == "ctor":
            return True
        if e["k"] == "call":
            if e.get("op") == "=":
                return True
            return e["cn"] in ("push_back", "emplace_back", "insert", "emplace")
        return e["k"] == "asg"

    def why(self, op):
        p, o, ck = op
        if p[0][0] == "TOK":
            return {"conn": "the mesh's connectivity was changed", "Permute": "the mesh was compressed", "Expand": "the mesh may have grown"}[p[0][1]]
        return {"grow": "the %s it points into may have grown" % ck, "all": "the %s it points into was changed" % ck, "rehash": "the container was rehashed",
                "pop_back": "the element was popped", "pop_front": "the element was popped", "pop_top": "the element was popped", "record": "the object that owns it was assigned", "free": "it was deleted"}.get(o, o)
