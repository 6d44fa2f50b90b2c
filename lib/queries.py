"""Query objects: every public method is run (statically) from the state any earlier history of queries can have left.

Facts per member (a path of field names below the object): 'fresh' = completely rewritten during this call, 'have' = known to be
built (non-null / filled), 'absent', 'flag' = boolean member with known value, 'valid' = rebuilt since the setting it was computed
from was changed.  Methods of the class, and of helper objects it owns, are interpreted in place."""
from effects import *

WHOLE = {"clear", "resize", "assign", "fill", "setZero", "setConstant", "setOnes", "setRandom"}
QUIET = {"size", "empty", "rows", "cols", "nonZeros", "capacity"}


def leafclass(t):
    """values treated as one unit: containers, matrices, mesh data, pointers"""
    return bool(ctype(t)) or isptr(t) or "Eigen::" in t or "MeshData<" in t or "std::" in t[:8]


def cls_(f):
    return f.get("cls", "")


class Model:
    def __init__(self, P, X, cls):
        self.P, self.X, self.L, self.cls = P, X, X.plain, cls
        self.rec = P.recs[cls]
        self.fields = {cls + "::" + x["n"]: x for x in self.rec.get("fields", [])}
        self.methods = [f for f in P.fns.values() if f.get("cls") == cls and f.get("body")]
        self.ctors = [f for f in self.methods if f.get("kind") == "ctor"]
        self.meths = [f for f in self.methods if f.get("kind") not in ("ctor", "dtor")]
        self.public = [f for f in self.meths if f.get("acc") == 0]
        self.setters = [f for f in self.public if re.match(r"set[A-Z_]", f["n"]) and f.get("r", "") == "void"]
        self.queries = [f for f in self.public if f not in self.setters]
        # members written by queries: constructors' own helpers do not count
        reach, todo = set(), [f["m"] for f in self.public]
        while todo:
            m = todo.pop()
            if m in reach:
                continue
            reach.add(m)
            g = P.fns.get(m)
            if g and g.get("body"):
                todo += [c for x in walk_stmt(g["body"]) if x.get("k") == "call" for c in self.L.callees(x) if P.fns[c].get("cls") == cls]
        self.meths = [f for f in self.meths if f["m"] in reach]
        w = lambda fs: {p[1][1] for f in fs for p in X.fn(f["m"]) if p[0] == ("T",) and len(p) > 1 and p[1][0] == "F" and p[1][1] in self.fields and not isref(self.fields[p[1][1]]["t"])}
        self.mut = w(self.meths)
        nonset = [f for f in self.meths if f not in self.setters]
        # a setting is written by setters only (and their private helpers)
        callees = set()
        for f in self.setters:
            for x in walk_stmt(f["body"]):
                if x.get("k") == "call" and x.get("m") in P.fns and P.fns[x["m"]].get("cls") == cls:
                    callees.add(x["m"])
        direct = {f["m"]: {q for q in w([f])} for f in self.meths}
        self.settings = {q for q in w(self.setters) if not any(q in direct[f["m"]] and f["m"] not in callees for f in nonset)}
        self.flags = {q for q in self.mut if self.fields[q]["t"] == "bool"}
        self.uses = 0
        self.demands = 0
        self.caches = set()
        self.witness = {}
        for f in self.meths:
            for x in walk_stmt(f["body"]):
                if x.get("k") == "asg" and x.get("op", "=") == "=":
                    l, r = strip(x["a"][0]), strip(x["a"][1])
                    if l.get("k") == "mem" and l["q"] in self.flags and r.get("k") == "lit" and r["v"] in ("true", "1"):
                        s = {q for q in direct[f["m"]] if q not in self.flags}
                        self.witness[l["q"]] = self.witness.get(l["q"], s) & s
        self.entry = self.initial()

    def initial(self):
        """members every constructor leaves built and no method takes away"""
        out = None
        for c in self.ctors:
            R = Run(self, c, "ctor")
            R.go(frozenset())
            have = {x[1] for x in R.exit if x[0] == "have"} if R.exit is not None else None
            if have is not None:
                out = have if out is None else out & have
        for q, x in self.fields.items():
            if x["t"] in ("bool", "const bool") and q not in self.mut:
                w = None
                for c in self.ctors:
                    R = Run(self, c, "ctor")
                    R.pflag = {strip(i["e"]).get("d"): q for i in c.get("inits", []) if i.get("mem") and q == cls_(c) + "::" + i["mem"].split("::")[-1] and strip(i.get("e") or {}).get("k") == "ref"}
                    R.fixed = (q,)
                    R.go(frozenset([("flag", (q,), True)]))
                    have = {x[1][0] for x in R.exit if x[0] == "have" and len(x[1]) == 1} if R.exit is not None else None
                    if have is not None:
                        w = have if w is None else w & have
                if w:
                    self.flags.add(q)
                    self.witness[q] = {y for y in w if y != q}
        out = {p for p in out or () if self.ptrpath(p)}
        for f in self.meths:
            R = Run(self, f, "kill")
            R.go(frozenset(("have", p) for p in out))
            out -= R.killed
        return frozenset(("have", p) for p in out)

    def ptrpath(self, p):
        t = self.fields.get(p[0], {}).get("t", "")
        return len(p) == 1 and (ctype(t) == "unique_ptr" or isptr(t))

    # -- values a member is computed from
    def deps(self):
        """{field: set of (method, 'P', param index) | ('F', field)} over all whole or partial writes"""
        out = {}
        for f in self.methods:
            S = Slice(self, f)
            for fld, srcs in S.writes():
                out.setdefault(fld, set()).update((f["m"],) + s if s[0] == "P" else s for s in srcs)
        return out


class Slice:
    """flow-insensitive data dependences within one method"""

    def __init__(self, M, f):
        self.M, self.f = M, f
        self.b = M.L.bindings(f)
        self.dep = {}   # local d -> list of expressions
        self.w = []     # (field, expressions)
        for i in f.get("inits", []):
            if i.get("mem") and i.get("e") is not None:
                self.w.append((f["cls"] + "::" + i["mem"].split("::")[-1], [i["e"]]))
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    if v.get("i"):
                        self.dep.setdefault(v["d"], []).append(v["i"])
            elif s["s"] == "rfor":
                self.dep.setdefault(s["v"]["d"], []).append(s["r"])
        for x in walk_stmt(f["body"]):
            k = x.get("k")
            if k == "asg":
                self.target(x["a"][0], [x["a"][1]])
            elif k == "call":
                o = x.get("o")
                if o is not None and not x.get("const") and strip(o).get("k") != "this" and x["cn"] not in READERS and not x.get("ar"):
                    self.target(o, list(x["a"]))
                if x.get("m") in M.P.fns:
                    g = M.P.fns[x["m"]]
                    for i, p in enumerate(g["ps"]):
                        if i < len(x["a"]) and isref(p["t"]) and not p["t"].startswith("const"):
                            if any(q[0] == ("A", i) for q in M.X.fn(g["m"])):
                                self.target(x["a"][i], [a for j, a in enumerate(x["a"]) if j != i])

    def target(self, l, es):
        l = strip(l)
        p = self.b.path(l)
        if p is None and l.get("k") == "call" and l.get("o") is not None:
            return self.target(l["o"], es)
        if p and (("*u",) in p or ("*r",) in p):
            return
        if p and p[0] == ("T",) and len(p) > 1 and p[1][0] == "F":
            self.w.append((p[1][1], es))
        elif p and p[0][0] == "L" and ("*r",) not in p:
            self.dep.setdefault(p[0][1], []).extend(es)

    def sources(self, es):
        out, seen, todo = set(), set(), list(es)
        while todo:
            e = todo.pop()
            for x in walk(e):
                k = x.get("k")
                if k == "ref" and x.get("dk") in ("local", "param"):
                    d = x["d"]
                    if d in seen:
                        continue
                    seen.add(d)
                    if d in self.b.params:
                        out.add(("P", self.b.params[d]))
                    todo += self.dep.get(d, [])
                elif k == "mem" and x["q"] in self.M.fields:
                    out.add(("F", x["q"]))
                elif k == "call" and x.get("m") in self.M.P.fns and self.M.P.fns[x["m"]].get("cls") == self.M.cls and x["m"] not in seen and self.M.P.fns[x["m"]].get("body"):
                    seen.add(x["m"])
                    todo += [{"k": "mem", "q": y["q"], "a": []} for y in walk_stmt(self.M.P.fns[x["m"]]["body"]) if y.get("k") == "mem" and y["q"] in self.M.fields]
        return out

    def writes(self):
        for fld, es in self.w:
            if fld in self.M.fields and not isref(self.M.fields[fld]["t"]):
                yield fld, self.sources(es)


def base(e):
    """an iterator argument without conversions"""
    e = strip(e)
    while e.get("k") == "ctor" and len(e.get("a", [])) == 1:
        e = strip(e["a"][0])
    return e


class Run(Flow):
    """one call of a method; mode: 'query' demands fresh or built members, 'ctor', 'kill', 'after' demands valid ones"""
    max_iter = 6

    def __init__(self, M, f, mode, stale=(), prefix=(), depth=0, top=None):
        super().__init__()
        self.M, self.f, self.mode, self.stale, self.prefix, self.depth = M, f, mode, stale, prefix, depth
        self.top = top or self
        self.B = M.L.bindings(f)
        self.P = M.P
        self.loops = []
        self.pflag = {}
        if top is None:
            self.found = {}
            self.killed = set()
            self.stack = []
        self.exit = None

    def join(self, a, b):
        return a & b

    def go(self, st):
        self.top.stack.append((self.f["m"], self.prefix))
        for i in self.f.get("inits", []):
            if i.get("e") is not None:
                st = self.ev(i["e"], st)
                if i.get("mem") and st is not None:
                    e = strip(i["e"])
                    if not (e.get("k") == "ctor" and not e.get("a")):
                        st = self.wrote(st, self.prefix + (self.f["cls"] + "::" + i["mem"].split("::")[-1],), True)
        out = self.run(self.f["body"], st)
        for s, _ in self.returns:
            out = self.j(out, s)
        self.exit = out
        self.top.stack.pop()
        return out

    # -- members
    def member(self, e):
        """(path of fields, rest) of an expression below the object"""
        p = self.B.path(e)
        if p is None:
            e = strip(e)
            if e.get("k") == "call" and e["cn"] in ("operator*", "operator->") and e.get("o") is not None:
                e = strip(e["o"])
            if e.get("k") == "call" and e.get("m") in self.P.fns and self.P.fns[e["m"]].get("cls") == self.M.cls and self.P.fns[e["m"]].get("body"):
                g = self.P.fns[e["m"]]
                rets = [s for s in walk_stmts(g["body"]) if s["s"] == "return"]
                if len(rets) == 1 and rets[0].get("e"):
                    v = self.M.L.bindings(g).viewof(rets[0]["e"])
                    if v and v[0][0] == ("T",) and len(v[0]) > 1:
                        p = v[0]
        if not p or p[0] != ("T",):
            return None
        fs, rest = [], []
        for s in p[1:]:
            if s[0] == "F" and not rest:
                fs.append(s[1])
            else:
                rest.append(s)
        if not fs:
            return None
        # containers and pointers are leaves
        if not self.prefix and fs[0] not in self.M.fields:
            return None
        return self.prefix + tuple(fs), tuple(rest)

    def interesting(self, p):
        return p[0] in self.M.mut or p[0] in self.stale

    fixed = ()

    def wrote(self, st, p, filled):
        if p == self.fixed:
            return st
        st = frozenset(x for x in st if not (x[1][:len(p)] == p and x[0] in ("absent", "have", "flag")))
        add = {("fresh", p), ("valid", p)}
        add.add(("have", p) if filled else ("absent", p))
        if not filled:
            self.top.killed.add(p)
        return st | add

    conds = 0

    def run(self, s, st):
        if s is not None and s["s"] in ("if", "switch", "while", "do"):
            self.conds += 1
            st = super().run(s, st)
            self.conds -= 1
            return st
        return super().run(s, st)

    # -- loops that rewrite every element
    def _loop(self, s, st):
        ds = {s["v"]["d"]} if s["s"] == "rfor" else {v["d"] for v in (s.get("init") or {}).get("vs", [])} if s["s"] == "for" else set()
        self.loops.append((ds, set(), self.conds))
        out = super()._loop(s, st)
        done = self.loops.pop()[1]
        if out is not None:
            for p in done:
                out = self.wrote(out, p, True)
        return out

    def element(self, l, p):
        """an element of p selected by the variable of an enclosing loop is rewritten"""
        for x in walk(strip(l)):
            i = None
            if x.get("k") == "call" and x["cn"] in ("operator[]", "operator()", "at") and x["a"]:
                i = strip(x["a"][0])
            elif x.get("k") == "idx":
                i = strip(x["a"][1])
            elif x.get("k") == "call" and x.get("m") in self.P.fns and x["a"]:
                i = strip(x["a"][0])
            while i is not None and i.get("k") == "ctor" and len(i.get("a", [])) == 1:
                i = strip(i["a"][0])
            if i is not None and i.get("k") == "ref":
                for ds, done, at in self.loops:
                    if i.get("d") in ds and at == self.conds:
                        done.add(p)

    def has(self, st, kind, p):
        return any((kind, p[:i]) in st for i in range(1, len(p) + 1))

    def demand(self, st, p, e, deref):
        """member p is read here"""
        M = self.M
        self.top.M.uses += 1
        if self.mode in ("ctor", "kill"):
            return
        q = p[0]
        if self.mode == "after":
            if q in self.stale and not self.has(st, "valid", p):
                self.top.found.setdefault((self.top.f["q"], q, "stale"), e.get("l"))
            return
        if self.has(st, "fresh", p):
            return
        if self.has(st, "have", p):
            if q in M.mut and not self.top.f.get("const"):
                M.caches.add(q)
            return
        if deref:
            M.demands += 1
            self.top.found.setdefault((self.top.f["q"], q, "unbuilt"), e.get("l"))
            return
        if q not in M.mut or q in M.settings or q in M.flags or re.search(r"\[\d+\]$", M.fields[q]["t"]) or self.top.f.get("const"):
            return
        M.demands += 1
        self.top.found.setdefault((self.top.f["q"], q, "left over"), e.get("l"))

    # -- expressions
    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "cast" and e.get("a"):
            return self.ev(e["a"][0], st)
        if k == "mem":
            m = self.member(e)
            if m:
                if m[1] and m[1][0] == ("*u",):
                    return self.deref(e, m[0], st)
                if self.interesting(m[0]):
                    self.demand(st, m[0], e, False)
                return st
            return super().ev(e, st)
        if k == "ref":
            m = self.member(e) if isref(self.B.types.get(e.get("d"), "")) else None
            if m:
                if m[1] and m[1][0] == ("*u",):
                    return self.deref(e, m[0], st)
                if self.interesting(m[0]):
                    self.demand(st, m[0], e, False)
            return st
        if (k == "un" and ("++" in e["op"] or "--" in e["op"])) or (k == "asg" and e.get("op", "=") != "="):
            m = self.member(e["a"][0])
            if m and not m[1] and self.mode == "query" and m[0][0] in self.M.mut and not leafclass(strip(e["a"][0]).get("t", "")) and m[0][0] not in self.M.settings \
                    and not self.has(st, "fresh", m[0]) and not self.top.f.get("const"):
                self.top.found.setdefault((self.top.f["q"], m[0][0], "left over"), e.get("l"))
        if k == "asg":
            st = self.ev(e["a"][1], st)
            if st is None:
                return None
            m = self.member(e["a"][0])
            if m and e.get("op", "=") == "=":
                return self.assign(e, m, strip(e["a"][1]), st)
            return self.ev(e["a"][0], st)
        if k == "call" and e.get("op") == "=" and e.get("o") is not None and e["a"]:
            m = self.member(e["o"])
            if m:
                st = self.ev(e["a"][0], st)
                return self.assign(e, m, strip(e["a"][0]), st) if st is not None else None
        if k == "lam":
            st2 = Body(self, e).go(st)
            return st
        if k == "bin" and e["op"] in ("==", "!=") and any(strip(a).get("k") in ("null",) for a in e["a"]):
            return st
        if k == "call" and e.get("op") in ("==", "!=") and any(strip(a).get("k") == "null" or (strip(a).get("k") == "ctor" and "nullptr" in strip(a).get("t", "")) for a in e["a"]):
            return st
        if k == "call":
            return self.call(e, st)
        return super().ev(e, st)

    def assign(self, e, m, r, st):
        p, rest = m
        if not rest:
            null = r.get("k") == "null" or (r.get("k") == "ctor" and not r.get("a") and ctype(r.get("t", "")) == "unique_ptr") or r.get("k") == "zero"
            while r.get("k") == "ctor" and len(r.get("a", [])) == 1 and not null:
                r = strip(r["a"][0])
                null = r.get("k") == "null"
            st = self.wrote(st, p, not null)
            if p[0] in self.M.flags:
                v = r.get("v") if r.get("k") == "lit" else None
                if v in ("true", "1", "false", "0"):
                    st = st | {("flag", p, v in ("true", "1"))}
            return st
        if all(s == ("[a]",) for s in rest):
            return self.wrote(st, p, True)
        if rest[0] == ("*u",):
            return self.deref(e, p, st)
        self.element(e["a"][0] if e["k"] == "asg" else e["o"], p)
        # element of a container: index expressions are evaluated, the container itself is not read
        l = strip(e["a"][0] if e["k"] == "asg" else e["o"])
        for x in walk(l):
            if x.get("k") == "call" and x["cn"] in ("operator[]", "operator()", "at"):
                for a in x["a"]:
                    st = self.ev(a, st)
            elif x.get("k") == "idx":
                st = self.ev(x["a"][1], st)
        return st

    def deref(self, e, p, st):
        if self.mode in ("ctor", "kill") or isref(self.M.fields[p[0]]["t"]):
            return st
        self.demand(st, p, e, True)
        return st

    def ptrfield(self, o):
        m = self.member(o)
        if m and not m[1] and ctype(strip(o).get("t", "")) in ("unique_ptr",):
            return m[0]
        return None

    def call(self, e, st):
        o, cn = e.get("o"), e["cn"]
        P, M = self.P, self.M
        so = strip(o) if o is not None else None
        # std::move(member): taken away
        if e.get("f") in ("std::move",) and e["a"]:
            m = self.member(e["a"][0])
            if m and not m[1] and not self.mode == "ctor":
                st = self.ev(e["a"][0], st)
                if leafclass(strip(e["a"][0]).get("t", "")) and self.interesting(m[0]):
                    self.top.killed.add(m[0])
                    return frozenset(x for x in st if not (x[1] == m[0] and x[0] in ("have",)))
                return st
        own = [g for g in M.L.callees(e) if P.fns[g].get("body")]
        if so is not None and so.get("k") == "ref" and cn == "operator()" and so.get("d") in self.lambdas() and self.depth < 10:
            st = self.args(e, st)
            b = Body(self, self.lambdas()[so["d"]])
            b.depth = self.depth + 1
            return b.go(st) if st is not None else None
        if so is not None:
            ot = so.get("t", "")
            pf = self.ptrfield(o)
            if pf is not None:
                if cn in ("operator->", "operator*"):
                    return self.deref(e, pf, st)
                if cn in ("reset",):
                    for a in e["a"]:
                        st = self.ev(a, st)
                    return self.wrote(st, pf, bool(e["a"]) and strip(e["a"][0]).get("k") != "null") if st is not None else None
                if cn == "release":
                    return self.wrote(st, pf, False)
                if cn == "swap":
                    for a in e["a"]:
                        st = self.ev(a, st)
                    return self.wrote(st, pf, True)
                if cn in ("operator bool", "get", "operator=="):
                    return st
            if so.get("k") == "call" and so["cn"] in ("operator->", "operator*") and so.get("o") is not None and self.ptrfield(so["o"]) is not None:
                st = self.args(e, st)
                return self.deref(e, self.ptrfield(so["o"]), st) if st is not None else None
            m = self.member(o)
            if m and m[1] and cn in WHOLE and m[1][0] != ("*u",):
                self.element(o, m[0])
                return self.args(e, st)
            if m and not m[1]:
                if cn in QUIET:
                    return st
                if cn == "erase" and len(e["a"]) == 2 and [strip(base(a)).get("cn") for a in e["a"]] in (["begin", "end"], ["cbegin", "cend"]) and all(self.member((strip(base(a))).get("o")) == m for a in e["a"]):
                    return self.wrote(st, m[0], False)
                if cn in WHOLE:
                    st = self.args(e, st)
                    return self.wrote(st, m[0], cn != "clear") if st is not None else None
                if own and not leafclass(ot) and len(own) == 1 and self.depth < 10 and (own[0], m[0]) not in self.top.stack:
                    st = self.args(e, st)
                    return self.inline(own[0], m[0], st) if st is not None else None
                if ctype(ot) == "MeshData" and cn in ("operator[]",) or e.get("const") or cn in READERS:
                    st = self.args(e, st)
                    if st is not None and self.interesting(m[0]):
                        self.demand(st, m[0], e, False)
                    return st
            if so.get("k") == "this" and self.prefix and not own and cn in WHOLE:
                st = self.args(e, st)
                return self.wrote(st, self.prefix, True) if st is not None else None
            if (so.get("k") == "this" or self.B.path(o) == (("T",),)) and own:
                st = self.args(e, st)
                if st is None:
                    return None
                if len(own) == 1 and self.depth < 10 and (own[0], self.prefix) not in self.top.stack:
                    return self.inline(own[0], self.prefix, st, e)
                return st
            if m and st is not None:
                st = frozenset(x for x in st if x != ("absent", m[0]))  # may have been filled
        for a in e["a"]:
            m = self.member(a) if strip(a).get("k") in ("mem", "ref", "un") else None
            if m and st is not None and leafclass(strip(a).get("t", "")):
                st = frozenset(x for x in st if x != ("absent", m[0]))
        # output parameters
        outs = []
        if own:
            g = P.fns[own[0]]
            for i, a in enumerate(e["a"]):
                if i < len(g["ps"]) and isref(g["ps"][i]["t"]) and not g["ps"][i]["t"].startswith("const"):
                    m = self.member(a)
                    if m and not m[1] and (("A", i),) in M.X.fn(g["m"]):
                        outs.append((i, m[0]))
        for c in ([o] if o is not None else []) + [a for i, a in enumerate(e["a"]) if i not in {x[0] for x in outs}]:
            st = self.ev(c, st)
            if st is None:
                return None
        for i, p in outs:
            st = self.wrote(st, p, True)
        return st

    def args(self, e, st):
        for a in e["a"]:
            st = self.ev(a, st)
            if st is None:
                return None
        return st

    def inline(self, m, prefix, st, call=None):
        g = self.P.fns[m]
        R = Run(self.M, g, self.mode, self.stale, prefix, self.depth + 1, self.top)
        return R.go(st)

    def noreturn(self, e):
        return False

    # -- guards
    def branch(self, c, truth, st):
        c = strip(c)
        k = c.get("k")
        op, a = None, None
        if k == "bin":
            op, a = c["op"], c["a"]
        elif k == "call" and c.get("op") in ("==", "!="):
            op, a = c["op"], ([c["o"]] if c.get("o") is not None else []) + list(c["a"])
        if op in ("==", "!=") and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if strip(y).get("k") == "null" or (strip(y).get("k") == "ctor" and "nullptr" in strip(y).get("t", "")):
                    p = self.ptr(x)
                    if p:
                        return self.known(st, p, (op == "!=") == truth)
                if strip(y).get("k") == "lit" and strip(y)["v"] in ("true", "false"):
                    return self.branch(x, truth == ((strip(y)["v"] == "true") == (op == "==")), st)
        if op in ("==", "!=", ">", "<", ">=", "<=") and len(a) == 2:
            x, y = strip(a[0]), strip(a[1])
            flip = {">": "<", "<": ">", ">=": "<=", "<=": ">="}
            if x.get("k") == "lit":
                x, y, op = y, x, flip.get(op, op)
            if x.get("k") == "call" and x["cn"] in ("size", "rows", "cols") and x.get("o") is not None and y.get("k") == "lit":
                m = self.member(x["o"])
                if m and not m[1]:
                    v = str(y["v"]).rstrip("uUlL")
                    pos = {(">", "0"): True, ("!=", "0"): True, ("==", "0"): False, (">=", "1"): True, ("<", "1"): False, ("<=", "0"): False}.get((op, v))
                    if pos is not None:
                        return self.known(st, m[0], pos == truth)
        if k == "call" and c["cn"] == "empty" and c.get("o") is not None:
            m = self.member(c["o"])
            if m and not m[1]:
                return self.known(st, m[0], not truth)
        if k == "call" and c["cn"] == "size" and c.get("o") is not None:
            m = self.member(c["o"])
            if m and not m[1]:
                return self.known(st, m[0], truth)
        p = self.ptr(c)
        if p:
            return self.known(st, p, truth)
        if k == "ref" and c.get("dk") == "local" and c.get("t") in ("bool", "const bool"):
            e = self.bools().get(c["d"])
            if e is not None and len(self.top.stack) < 40:
                return self.cond(e, truth, st)
        if k == "call" and c.get("m") in self.P.fns and self.P.fns[c["m"]].get("cls") == self.M.cls and self.depth < 10:
            g = self.P.fns[c["m"]]
            b = g.get("body")
            while b and b["s"] == "block" and len(b["b"]) == 1:
                b = b["b"][0]
            if b and b["s"] == "return" and b.get("e") is not None and g.get("r") == "bool" and (c.get("o") is None or strip(c["o"]).get("k") == "this"):
                return Run(self.M, g, self.mode, self.stale, self.prefix, self.depth + 1, self.top).cond(b["e"], truth, st)
        if k in ("mem", "ref"):
            m = self.member(c)
            if k == "ref" and c.get("d") in self.pflag:
                return None if ("flag", (self.pflag[c["d"]],), not truth) in st else st
            if m and not m[1] and (m[0][0] in self.M.flags or m[0] == self.fixed):
                if ("flag", m[0], not truth) in st:
                    return None
                st = frozenset(x for x in st if not (x[0] == "flag" and x[1] == m[0])) | {("flag", m[0], truth)}
                if truth:
                    st = st | {("have", (q,)) for q in self.M.witness.get(m[0][0], ())}
        return st

    def lambdas(self):
        if "_lamd" not in self.f:
            self.f["_lamd"] = {}
            for s in walk_stmts(self.f["body"]):
                if s["s"] == "decl":
                    for v in s["vs"]:
                        i = strip(v.get("i") or {})
                        while i.get("k") == "ctor" and len(i.get("a", [])) == 1:
                            i = strip(i["a"][0])
                        if i.get("k") == "lam" and "function<" not in v["t"]:
                            self.f["_lamd"][v["d"]] = i
        return self.f["_lamd"]

    def bools(self):
        """conditions kept in a boolean local that is never reassigned"""
        if not hasattr(self, "_bools"):
            self._bools = {}
            if self.f.get("body"):
                for s in walk_stmts(self.f["body"]):
                    if s["s"] == "decl":
                        for v in s["vs"]:
                            if v["t"] in ("bool", "const bool") and v.get("i") is not None:
                                self._bools[v["d"]] = v["i"]
                for x in walk_stmt(self.f["body"]):
                    if x.get("k") == "asg" or (x.get("k") == "un" and "++" in x["op"]):
                        t = strip(x["a"][0])
                        if t.get("k") == "ref":
                            self._bools.pop(t.get("d"), None)
        return self._bools

    def ptr(self, e):
        e = strip(e)
        if e.get("k") == "call" and e["cn"] in ("operator bool", "get") and e.get("o") is not None:
            e = strip(e["o"])
        m = self.member(e)
        if m and not m[1] and (ctype(e.get("t", "")) == "unique_ptr" or isptr(e.get("t", ""))):
            return m[0]
        return None

    def known(self, st, p, there):
        if self.has(st, "have" if not there else "absent", p):
            return None
        st = frozenset(x for x in st if not (x[1] == p and x[0] in ("have", "absent")))
        return st | {("have" if there else "absent", p)}


class Body(Run):
    """body of a lambda: read where it is made (its reads count, its writes do not)"""

    def __init__(self, R, lam):
        Run.__init__(self, R.M, R.f, R.mode, R.stale, R.prefix, R.depth, R.top)
        self.lam = lam
        self.B = R.B

    def go(self, st):
        out = self.run(self.lam["body"], st)
        for s, _ in self.returns:
            out = self.j(out, s)
        return out


def analyse(P, X, classes):
    out, cov = [], {}
    for cls in classes:
        if cls not in P.recs:
            continue
        M = Model(P, X, cls)
        exits = {}
        for f in M.queries:
            R = Run(M, f, "query")
            R.go(M.entry)
            for (q, fld, what), l in R.found.items():
                out.append((cls, f, fld, what, l))
        deps = M.deps()
        # purity of caches: nothing of one query's arguments or scratch may end in them
        tainted = set()
        pub = {f["m"] for f in M.public}
        for f in M.queries:
            for i in range(len(f["ps"])):
                tainted.add((f["m"], "P", i))
        scratch = set()
        changed = True
        slices = {f["m"]: Slice(M, f) for f in M.meths}
        while changed:
            changed = False
            for f in M.meths:
                S = slices[f["m"]]
                for x in walk_stmt(f["body"]):
                    if x.get("k") == "call" and x.get("m") in P.fns and P.fns[x["m"]].get("cls") == cls and x["m"] not in pub:
                        for i, a in enumerate(x["a"]):
                            if (x["m"], "P", i) in tainted:
                                continue
                            for s in S.sources([a]):
                                if s[0] == "P" and (f["m"], "P", s[1]) in tainted or s[0] == "F" and s[1] in scratch:
                                    tainted.add((x["m"], "P", i))
                                    changed = True
                                    break
            for fld, ss in deps.items():
                if fld in M.mut and fld not in scratch and fld not in M.settings:
                    if any(s in tainted or s[0] == "F" and s[1] in scratch for s in ss):
                        scratch.add(fld)
                        changed = True
        for fld in M.caches & scratch:
            if fld not in M.flags:
                out.append((cls, None, fld, "argument", M.fields[fld].get("l")))
        # settings: after a setter, whatever was computed from the setting is rebuilt before it is used
        ndep = 0
        for s in M.setters:
            changedf = {p[1][1] for p in X.fn(s["m"]) if p[0] == ("T",) and len(p) > 1 and p[1][0] == "F"} & M.settings
            dep = set()
            grow = True
            base = {q for q in changedf if q not in M.flags and any(x[0] == s["m"] for x in deps.get(q, ()))}
            while grow:
                grow = False
                for fld, ss in deps.items():
                    if fld not in dep and fld not in M.flags and any(x[0] == "F" and (x[1] in base or x[1] in dep) for x in ss if len(x) == 2):
                        dep.add(fld)
                        grow = True
            ndep += len(dep)
            R = Run(M, s, "after", dep)
            st0 = frozenset(x for x in M.entry) | {("have", (q,)) for q in dep if ctype(M.fields[q]["t"])}
            st = R.go(st0)
            if st is None:
                continue
            keep = lambda st: frozenset(x for x in st if x[0] in ("have", "absent", "flag", "valid"))
            after = {}
            for f in M.queries:
                R = Run(M, f, "after", dep)
                e1 = R.go(keep(st))
                for (q, fld, what), l in R.found.items():
                    out.append((cls, f, fld, "stale:" + s["n"], l))
                if e1 is not None:
                    after[f["m"]] = keep(e1)
            for m1, st1 in after.items():
                for f in M.queries:
                    R = Run(M, f, "after", dep)
                    R.go(st1)
                    for (q, fld, what), l in R.found.items():
                        out.append((cls, f, fld, "stale:" + s["n"], l))
        cov[short(cls)] = dict(methods=len(M.meths), public=len(M.public), mutable=len(M.mut), caches=len(M.caches), settings=len(M.settings), dependents=ndep, uses=M.uses)
    return out, cov
