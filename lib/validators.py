"""Do the matrix validators look at every entry?  Loop coverage and path conditions of checkFinite / checkHermitian / checkSymmetric."""
from ir import strip, walk, walk_stmts, stmt_exprs, sub_stmts, kids

DIMS = ("rows", "cols", "outerSize", "size", "innerSize")


def peel(e):
    e = strip(e)
    while e.get("k") in ("cast", "ctor") and [a for a in e.get("a") or [] if a.get("k") != "defarg"] and len([a for a in e["a"] if a.get("k") != "defarg"]) == 1:
        e = strip(e["a"][0])
    return e


class Validator:
    """.verdict() -> (True|False|None, reason, line)"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.mat = f["ps"][0]["d"]
        self.decl = {}
        self.assigned = set()
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    if v.get("i") is not None:
                        self.decl[v["d"]] = v["i"]
        for e in P.exprs(f):
            if e.get("k") == "asg" or e.get("k") == "un" and e["op"] in ("++", "--", "++post", "--post"):
                x = peel(e["a"][0])
                if x.get("k") == "ref":
                    self.assigned.add(x.get("d"))

    def res(self, e):
        e = peel(e)
        while e.get("k") == "ref" and e.get("dk") == "local" and e["d"] in self.decl and e["d"] not in self.assigned:
            i = peel(self.decl[e["d"]])
            if i.get("k") == "ctor":
                break
            e = i
        return e

    def dim(self, e):
        e = self.res(e)
        if e.get("k") == "call" and e.get("cn") in DIMS and e.get("o") is not None:
            o = peel(e["o"])
            if o.get("k") == "ref" and o.get("d") == self.mat:
                return e["cn"]
        return None

    def loopvar(self, s):
        """for loop -> (d, what it ranges over, complete?) or None"""
        i = s.get("init")
        if not i or i["s"] != "decl" or len(i["vs"]) != 1 or s.get("c") is None:
            return None
        v = i["vs"][0]
        init = self.res(v["i"]) if v.get("i") is not None else {}
        inc = strip(s["inc"]) if s.get("inc") else {}
        if "InnerIterator" in v["t"]:
            return v["d"], "entries", inc.get("op") in ("++", "++post") or inc.get("cn") == "operator++"
        c = strip(s["c"])
        if c.get("k") != "bin":
            return None
        a, b, op = c["a"][0], c["a"][1], c["op"]
        if peel(b).get("d") == v["d"] and peel(b).get("k") == "ref":
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        a = peel(a)
        if a.get("k") == "bin" and a["op"] in ("+", "-") and peel(a["a"][0]).get("d") == v["d"] and self.dim(b):
            return v["d"], self.dim(b), False
        if a.get("d") != v["d"]:
            return None
        what = self.dim(b)
        if what is None:
            x = self.res(b)
            if x.get("k") == "bin" and x["op"] in ("-", "+") and self.dim(x["a"][0]):
                return v["d"], self.dim(x["a"][0]), False
            return None
        if init.get("k") != "lit" or inc.get("k") not in ("un", "call", "asg"):
            return None
        full = str(init["v"]) == "0" and op in ("<", "!=") and inc.get("op") in ("++", "++post")
        return v["d"], what, full

    # paths through a loop body: [(conditions, how it ends)]
    def paths(self, s):
        k = s["s"]
        if k == "block":
            out = [((), "end")]
            for c in s["b"]:
                nx = []
                for cs, h in out:
                    if h != "end":
                        nx.append((cs, h))
                        continue
                    for cs2, h2 in self.paths(c):
                        nx.append((cs + cs2, h2))
                out = nx
            return out
        if k == "if":
            out = []
            for val, b in ((True, s["t"]), (False, s.get("e"))):
                cs = self.split(s["c"], val)
                for cs2, h in (self.paths(b) if b else [((), "end")]):
                    for c1 in cs:
                        out.append((c1 + cs2, h))
            return out
        if k == "expr":
            if any(x.get("k") == "throw" for x in walk(s["e"])):
                return [((), "throw")]
            if strip(s["e"]).get("k") == "call":
                fn = self.P.fns.get(strip(s["e"]).get("m"))
                if fn is not None and fn.get("body"):
                    hs = {h for _, h in Validator(self.P, dict(fn, ps=fn["ps"] or [{"d": -1}])).paths(fn["body"])}
                    if hs == {"throw"}:
                        return [((), "throw")]
                    if "throw" in hs:
                        return [((), "unknown")]
            return [((), "end")]
        if k in ("continue", "break", "return"):
            return [((), k)]
        if k in ("for", "while", "do", "rfor", "switch", "try"):
            return [((), "unknown")]
        return [((), "end")]

    def split(self, c, val):
        c = self.res(c)
        if c.get("k") == "bin" and c["op"] in ("==", "!="):
            for i in (0, 1):
                l = peel(c["a"][i])
                if l.get("k") == "lit" and str(l["v"]) in ("true", "false"):
                    return self.split(c["a"][1 - i], val == ((str(l["v"]) == "true") == (c["op"] == "==")))
        if c.get("k") == "un" and c["op"] == "!":
            return self.split(c["a"][0], not val)
        if c.get("k") == "bin" and c["op"] in ("&&", "||"):
            a, b = c["a"]
            if (c["op"] == "&&") == val:
                return [x + y for x in self.split(a, val) for y in self.split(b, val)]
            return self.split(a, val) + [x + y for x in self.split(a, not val) for y in self.split(b, val)]
        return [((c, val),)]

    def verdict(self):
        f = self.f
        nests = []

        def find(s, lv):
            if s["s"] == "for":
                v = self.loopvar(s)
                inner = [x for x in walk_stmts(s["b"]) if x["s"] in ("for", "while", "rfor", "do")]
                if inner:
                    for c in ([s["b"]] if s["b"]["s"] != "block" else s["b"]["b"]):
                        find(c, lv + [(v, s)])
                else:
                    nests.append((lv + [(v, s)], s["b"]))
            elif s["s"] == "block":
                for c in s["b"]:
                    find(c, lv)
        body = f["body"]
        throws = lambda s: any(x.get("k") == "throw" for st in walk_stmts(s) for e in stmt_exprs(st) for x in walk(e)) or any(
            (self.P.fns.get(x.get("m")) or {}).get("f") == f["f"] for st in walk_stmts(s) for e in stmt_exprs(st) for x in walk(e) if x.get("k") == "call")
        find(body, [])
        nests = [n for n in nests if throws(n[1])]
        if len(nests) != 1:
            return None, "shape", f["l"]
        lv, inner = nests[0]
        if any(v is None for v, _ in lv):
            return None, "loop", f["l"]
        line = lv[0][1].get("l") or f["l"]
        # nothing may leave early before the nest
        kinds = {v[1]: v[0] for v, _ in lv}
        for v, s in lv:
            if not v[2]:
                return False, "the loop over %s does not cover them all" % v[1], s.get("l") or line
        ps = self.paths(inner)
        if any(h == "unknown" for _, h in ps):
            return None, "shape", line
        if any(h in ("break", "return") for _, h in ps):
            return False, "the scan stops before the last entry", line
        full = {frozenset(("outerSize", "entries")), frozenset(("rows", "cols")), frozenset(("rows",)), frozenset(("cols",)), frozenset(("size",)), frozenset(("cols", "entries"))}
        if frozenset(kinds) not in full:
            return None, "loop", line

        def entry(e):
            """is e an entry at the loop variables?  True / False (another one) / None"""
            e = self.res(e)
            if e.get("k") == "call" and e.get("cn") in ("value", "valueRef") and e.get("o") is not None:
                return peel(e["o"]).get("d") == kinds.get("entries")
            if e.get("k") == "call" and e.get("cn") in ("operator()", "operator[]", "coeff") and e.get("o") is not None and peel(e["o"]).get("d") == self.mat:
                want = [kinds.get("rows"), kinds.get("cols")] if len(e["a"]) == 2 else [next(iter(kinds.values()))]
                got = [self.res(a) for a in e["a"]]
                dims = [str(x) for x in (f["ps"][0]["t"],)]
                for w, g in zip(want, got):
                    if w is None:
                        if g.get("k") == "lit" and str(g["v"]) == "0":
                            continue
                        return False
                    if g.get("d") != w:
                        return False if g.get("k") in ("ref", "lit") else None
                return True
            return None
        n = f["n"]
        for cs, h in ps:
            if h == "throw":
                continue
            ok = False
            sure = True
            for c, val in cs:
                if n == "checkFinite":
                    if c.get("k") == "call" and c.get("cn") == "isfinite":
                        x = entry(c["a"][0])
                        ok |= bool(val and x)
                        if x is None:
                            sure = False
                    elif c.get("k") == "call":
                        sure = False
                else:
                    if c.get("k") == "bin" and c["op"] in ("<", "<=", ">", ">="):
                        a, b, op = c["a"][0], c["a"][1], c["op"]
                        if not val:
                            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
                        if self.res(b).get("cn") in ("abs", "fabs", "norm"):
                            a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                        d = self.res(a)
                        if d.get("k") == "call" and d.get("cn") in ("abs", "fabs"):
                            r = self.pair(d["a"][0], kinds.get("entries"))
                            if r is None:
                                sure = False
                            else:
                                cplx = "complex" in f["ps"][0]["t"]
                                good = r[0] and (not cplx or r[1] == (n == "checkHermitian"))
                                if good and op in ("<", "<="):
                                    ok = True
                        elif not all(self.res(x).get("cn") in ("row", "col") for x in (a, b)):
                            sure = False
                    else:
                        sure = False
            if not ok:
                return (False, "an entry that fails the test does not throw", line) if sure else (None, "condition", line)
        return True, "", line

    def pair(self, e, it):
        """(x - y) with x entry (i,j) and y entry (j,i) -> (pair ok, exactly one conjugated)"""
        e = self.res(e)
        if e.get("k") == "call" and e.get("cn") == "operator-" or e.get("k") == "bin" and e.get("op") == "-":
            xs = list(e.get("a") or [])
            if e.get("o") is not None:
                xs = [e["o"]] + xs
            if len(xs) != 2:
                return None
            conj, pos = 0, []
            for x in xs:
                x = self.res(x)
                if x.get("k") == "call" and x.get("cn") == "conj":
                    conj += 1
                    x = self.res((x.get("a") or [x.get("o")])[0])
                if x.get("k") == "call" and x.get("cn") == "value":
                    pos.append(("row", "col"))
                elif x.get("k") == "call" and x.get("cn") == "coeff" and len(x["a"]) == 2:
                    pos.append(tuple(self.res(a).get("cn") for a in x["a"]))
                else:
                    return None
            return set(pos) == {("row", "col"), ("col", "row")}, conj == 1
        return None
