"""C04, part two: linear relations between the counters of a mesh (fill, live, capacity) on the paths of the routines that allocate, delete,
grow and compact"""
from ir import *
from trace import *

RELOP = {"<": "<", "<=": "<=", ">": ">", ">=": ">="}


def lin(t, sizes=()):
    """linear normal form over opaque atoms: ({atom: coefficient}, constant); None when not linear"""
    if t is None:
        return None
    if t[0] == "lit":
        try:
            return {}, int(str(t[1]).rstrip("uUlL"))
        except ValueError:
            return None
    if t[0] == "op" and len(t) == 4 and t[1] in ("+", "-", "*"):
        a, b = lin(t[2], sizes), lin(t[3], sizes)
        if a is None or b is None:
            return None
        if t[1] == "*":
            if a[0] and b[0]:
                return None
            if a[0]:
                a, b = b, a
            return {k: v * a[1] for k, v in b[0].items() if v * a[1]}, a[1] * b[1]
        return add(a, b, 1 if t[1] == "+" else -1)
    if t[0] == "op":
        if t[1] in ("max", "min"):
            return {t: 1}, 0
        return None
    if t[0] in ("F", "phi", "L", "P", "idx", "el", "size", "call"):
        return {t: 1}, 0
    return None


def add(a, b, s=1):
    out = dict(a[0])
    for k, v in b[0].items():
        out[k] = out.get(k, 0) + s * v
        if not out[k]:
            del out[k]
    return out, a[1] + s * b[1]


def ge0(t, truth):
    """a branch on a comparison, as linear forms known to be >= 0 (plus a flag for 'differs from zero')"""
    if t[0] != "op" or len(t) != 4:
        return []
    a, b = lin(t[2]), lin(t[3])
    if a is None or b is None:
        return []
    d = add(a, b, -1)                      # a - b
    n = ({k: -v for k, v in d[0].items()}, -d[1])  # b - a
    op = t[1]
    if op in ("<", "<=", ">", ">=") and not truth:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
    if op == "<":
        return [("ge", (n[0], n[1] - 1))]
    if op == "<=":
        return [("ge", n)]
    if op == ">":
        return [("ge", (d[0], d[1] - 1))]
    if op == ">=":
        return [("ge", d)]
    if op in ("==", "!="):
        if (op == "==") == truth:
            return [("ge", d), ("ge", n)]
        return [("ne", d), ("ne", n)]
    return []


def facts(ev):
    """branches taken on a path, without those seen going both ways (a join forgot which)"""
    out = {}
    for e in ev:
        if e.kind == "tst":
            out.setdefault((e.obj, e.ctx), set()).add(e.args[0])
    return [(t, ctx, next(iter(v))) for (t, ctx), v in out.items() if len(v) == 1], [t for (t, _), v in out.items() if len(v) > 1]


class Store:
    def __init__(self, P, spec, family, report, cov):
        self.P, self.spec, self.family, self.report, self.cov = P, spec, family, report, cov
        cls = self.cls = spec["cls"]
        self.live = {k: cls + spec["fill"][k].replace("FillCount", "Count") for k in spec["fill"]}
        self.fill = {k: cls + v for k, v in spec["fill"].items()}
        self.capa = {k: cls + v for k, v in spec["cap"].items()}
        self.counts = set(self.live.values()) | set(self.fill.values()) | set(self.capa.values())
        self.store = {k: ("F" if k == "B" else k) for k in self.fill}
        self.flag = cls + spec["flag"]
        # predicates of the class over the counters, and anything that writes them, is interpreted in place
        self.own = [f for f in P.fns.values() if f.get("cls") in family or f.get("local")]
        self.pred, self.writer, self.calls = set(), set(), {}
        for f in self.own:
            es = list(P.exprs(f))
            if f.get("cls") in family and (f.get("const") or f.get("static")) and f["r"] in ("bool", "size_t", "unsigned long") and len(es) < 40 and any(e.get("q") in self.counts for e in es):
                self.pred.add(f["m"])
            if any((e.get("k") == "asg" or e.get("k") == "un" and e["op"][:2] in ("++", "--")) and strip(e["a"][0]).get("q") in self.counts for e in es):
                self.writer.add(f["m"])
            self.calls[f["m"]] = {e["m"] for e in es if e.get("k") == "call" and e.get("m")}
        # reference-taking helpers of the implementation may write a counter on the caller's behalf
        for f in P.fns.values():
            if f["f"].startswith(("src/surface/surface_mesh", "src/pointcloud/point_cloud")) and any(p["t"].endswith("&") and not p["t"].startswith("const") and ("size_t" in p["t"] or "unsigned long" in p["t"] or "bool" in p["t"]) and "std::" not in p["t"] for p in f["ps"]):
                self.writer.add(f["m"])

    def F(self, q):
        return ("F", ("this",), q)

    def pure(self, l):
        """only counters of the class and constants"""
        return l is not None and all(a[0] == "F" and a[1] == ("this",) and a[2] in self.counts for a in l[0])

    def paths(self, f, implicit, deep=()):
        def decide(t):
            if t[0] == "call" and t[1] == "usesImplicitTwin" or t[0] == "F" and t[2].endswith("::useImplicitTwinFlag"):
                return implicit
            return None

        def inline(g, o):
            return (g["m"] in self.writer or g["m"] in self.pred or g["m"] in deep or g["q"] == self.cls + "compress") and g.get("kind") != "ctor" and o in (None, ("this",))
        names = self.counts | {self.flag}

        def keep(ev):
            return ev.kind == "tst" or ev.kind == "asg" and (ev.obj[0] == "F" and ev.obj[2] in names or ev.obj[0] in ("el", "idx") and ev.obj[1][0] == "F") or \
                ev.kind == "call" and ev.name.endswith("::resize")
        tr = Trace(self.P, inline, decide, keep)
        tr.tests = True
        rs = tr.run(f)
        self.cov["functions"] += len(tr.analysed)
        return rs

    # ------------------------------------------------ what a path did to a counter
    def change(self, st, q):
        """linear form of the last value, None when untouched, 'opaque' when unknown"""
        cur = None
        for e in st.ev:
            if e.kind == "asg" and e.obj == self.F(q):
                v = lin(e.args[0])
                if v is None:
                    return "opaque"
                if e.name in ("+=", "-="):
                    cur = add(cur if cur is not None else ({self.F(q): 1}, 0), v, 1 if e.name == "+=" else -1)
                else:
                    cur = v
        return cur

    def step(self, st, q):
        c = self.change(st, q)
        if c is None or c == "opaque":
            return c
        d = add(c, ({self.F(q): 1}, 0), -1)
        return d[1] if not d[0] else "opaque"

    # ------------------------------------------------ allocation
    def implied(self, need, fs):
        for t, ctx, truth in fs:
            if ctx:
                continue
            for how, l in ge0(t, truth):
                d = add(need, l, -1)
                if how == "ge" and not d[0] and d[1] >= 0:
                    return True
                # never more used than there is room for: 'differs' leaves at least one slot
                if how == "ne" and not d[0] and d[1] >= -1:
                    return True
        return False

    def allocate(self, f, implicit):
        """[(tag, kind, message)] for one allocator; None if it allocates nothing"""
        bad, n = [], 0
        try:
            rs = self.paths(f, implicit)
        except TooMany:
            return None
        for st, ret in rs:
            inc = {}
            for k in self.fill:
                s = self.step(st, self.fill[k])
                if isinstance(s, int) and s > 0:
                    inc[k] = s
            if not inc:
                continue
            n += 1
            fs, both = facts(st.ev)
            ok = {}
            for k in inc:
                if self.store[k] in ok:
                    continue
                c = self.store[k]
                users = [x for x in self.fill if self.store[x] == c]
                if self.change(st, self.capa[c]) is not None:
                    ok[c] = True  # the growth rules decide by how much
                    continue
                need = ({self.F(self.capa[c]): 1}, 0)
                for x in users:
                    need = add(need, ({self.F(self.fill[x]): 1}, 0), -1)
                need = (need[0], need[1] - sum(inc.get(x, 0) for x in users))
                ok[c] = self.implied(need, fs)
                if not ok[c]:
                    unknown = [t for t, ctx, _ in fs if not ctx and (t[0] != "op" or lin(t[2]) is None or lin(t[3]) is None) and not (t[0] == "call" and t[1] == "usesImplicitTwin")
                               and t[0] not in ("P",)]
                    unknown += [t for t in both if any(has2(t, self.F(x)) for x in self.counts)]
                    seen = [t for t, ctx, _ in fs if not ctx and has2(t, self.F(self.capa[c]))]
                    if unknown and not seen:
                        self.cov["unknown_guards"] += 1
                        ok[c] = True
            # edges and halfedges are allocated in step by the paired allocator
            if "E" in ok and not ok["E"] and ok.get("H") and inc.get("H") == 2 * inc.get("E", 0):
                ok["E"] = True
            self.cov["allocations"] += 1
            for c, good in ok.items():
                if not good:
                    bad.append(("room", c))
            if ret and ret[0] == "obj" and len(ret[2]) == 2:
                k = {"Vertex": "V", "Halfedge": "H", "Edge": "E", "Face": "F", "BoundaryLoop": "B", "Point": "P"}.get(ret[1].rsplit("::", 1)[-1])
                if k in inc:
                    i = lin(ret[2][1])
                    if i is not None and self.pure(i):
                        d = add(i, ({self.F(self.fill[k]): 1}, 0), -1)
                        self.cov["allocations"] += 1
                        if d[0] or not 0 <= d[1] < inc[k]:
                            bad.append(("slot", k))
        return bad if n else None

    # ------------------------------------------------ the compressed flag
    def unflagged(self, f, implicit, deep=()):
        """paths on which the number of used or live slots changes without the mesh being marked as not compressed; None if no such path"""
        try:
            rs = self.paths(f, implicit, deep)
        except TooMany:
            return None
        n, bad = 0, False
        for st, _ in rs:
            ch = [q for q in list(self.live.values()) + list(self.fill.values()) if self.step(st, q) not in (None, 0)]
            if not ch:
                continue
            n += 1
            self.cov["flag_paths"] += 1
            fl = [e for e in st.ev if e.kind == "asg" and e.obj == self.F(self.flag)]
            if not fl or fl[-1].args[0] != ("lit", "false"):
                # a mesh that holds fewer live than used slots must not look compressed
                bad = True
        return bad if n else None

    def run(self, callers, skip, name):
        for k in ("allocations", "flag_paths", "unknown_guards"):
            self.cov.setdefault(k, 0)
        imps = (False, True) if self.cls.endswith("SurfaceMesh::") else (False,)
        for f in sorted((f for f in self.own if f["m"] in self.writer and f.get("kind") != "ctor"), key=lambda f: f["m"]):
            if skip(f):
                continue
            for imp in imps:
                for tag, k in self.allocate(f, imp) or ():
                    if tag == "room":
                        self.report("room:%s:%s" % (short(f["q"]), k), "%s takes a new %s slot on a path that neither grows the storage nor has found that the used slots are fewer than the capacity" % (
                            short(f["q"]), name[k]), self.P.loc(f))
                    else:
                        self.report("slot:%s:%s" % (short(f["q"]), k), "%s hands out a %s other than the slot it has just taken" % (short(f["q"]), name[k]), self.P.loc(f))
                level, done, deep = [f], {f["m"]}, {f["m"]}
                bad = self.unflagged(f, imp)
                while bad and all(g.get("acc") != 0 for g in level):
                    nxt = [self.P.fns[c] for c in sorted({c for g in level for c in callers[g["m"]]} - done) if c in self.P.fns]
                    if not nxt:
                        break
                    done |= {g["m"] for g in nxt}
                    bad = any(self.unflagged(g, imp, deep) for g in nxt)
                    deep |= {g["m"] for g in nxt}
                    level = nxt
                if bad:
                    self.report("flag:%s" % short(f["q"]), "%s changes how many elements there are without marking the mesh as not compressed, so compress() leaves it alone" % short(f["q"]), self.P.loc(f))

    # ------------------------------------------------ compaction: the counters afterwards
    def counters(self, st, where):
        for k, c in [(k, self.fill[k]) for k in self.fill] + [(k, self.capa[k]) for k in self.capa]:
            v = self.change(st, c)
            if v is None or v == "opaque" or not self.pure(v):
                continue
            users = [x for x in self.fill if self.store[x] == k] if c == self.capa.get(k) else [k]
            want = {self.F(self.live[x]): 1 for x in users}
            self.cov["obligations"] += 1
            if v != (want, 0):
                self.report("after:%s" % short(c), "compress() sets %s to something other than %s" % (short(c), " + ".join(short(self.live[x]) for x in users)), where)

    def truncation(self, e, st, k, where):
        """a map handed to the callbacks of kind k may be cut off, but only after its live elements"""
        mp = e.args[0]
        for r in st.ev:
            if r is e:
                break
            if r.kind == "call" and r.name.endswith("::resize") and r.obj == mp and r.args:
                v = lin(r.args[0])
                if self.pure(v):
                    self.cov["obligations"] += 1
                    users = [x for x in self.fill if self.store[x] == self.store[k]]
                    if v not in [({self.F(self.live[k]): 1}, 0), ({self.F(self.live[x]): 1 for x in users}, 0)]:
                        self.report("cut:%s" % k, "compress() hands the permutation callbacks a map cut off elsewhere than after the surviving elements", where)

    # ------------------------------------------------ growth of the face store
    def move_ok(self, mv, st, val):
        """a boundary loop entry moves by exactly the growth, for all loops ever created"""
        cap0 = self.F(self.capa["F"])
        a, b = lin(mv.obj[2]), lin(mv.args[0][2])
        if a is None or b is None:
            return True
        if add(a, b, -1) != add(lin(val), ({cap0: 1}, 0), -1):
            return False
        return self.bound_ok(mv, st, [({self.F(self.fill["B"]): 1}, 0)], absolute=(add(b, ({cap0: 1}, 0), -1)[0].get(cap0) is not None))

    def bound_ok(self, ev, st, allowed, absolute=False):
        for t in st.ev:
            if t.kind != "tst" or t.ctx != ev.ctx or not t.args[0]:
                continue
            for how, l in ge0(t.obj, True):
                ph = [a for a in l[0] if a[0] == "phi"]
                if how == "ge" and len(ph) == 1 and l[0][ph[0]] == -1 and t.obj[1] in ("<", "<="):
                    b = ({a: c for a, c in l[0].items() if a[0] != "phi"}, l[1] + 1)
                    if self.pure(b) and not absolute and b not in allowed:
                        return False
        return True

    def shift_ok(self, sh, st):
        """the halfedges whose face number moves are those of boundary loops, among all halfedges ever created"""
        cap0 = ({self.F(self.capa["F"]): 1}, 0)
        first = [({self.F(self.fill["F"]): 1}, 0), add(cap0, ({self.F(self.fill["B"]): 1}, 0), -1)]
        for t in st.ev:
            if t.kind != "tst" or t.ctx != sh.ctx:
                continue
            for how, l in ge0(t.obj, True):
                if how != "ge" or l[0].get(sh.obj) not in (1, -1):
                    continue
                s = l[0][sh.obj]
                rest = ({a: -c * s for a, c in l[0].items() if a != sh.obj}, -l[1] * s)
                if s < 0:
                    rest = (rest[0], rest[1] + 1)  # x <= T is the complement of x >= T + 1
                if self.pure(rest) and rest not in first and rest[0]:
                    return False
        return self.bound_ok(sh, st, [({self.F(self.fill["H"]): 1}, 0), ({self.F(self.capa["H"]): 1}, 0)])


def has2(t, x):
    return t == x or isinstance(t, tuple) and any(has2(c, x) for c in t if isinstance(c, tuple))
