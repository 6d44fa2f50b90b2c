"""Index-kind inference: every integer used as an index, and every container / matrix dimension, gets an element kind
(V vertex, E edge, H halfedge, F face, C corner, B boundary loop, P point, VI interior vertex) by unification."""
from ir import *

ELEM = {"Vertex": "V", "Edge": "E", "Halfedge": "H", "Face": "F", "Corner": "H", "BoundaryLoop": "B", "Point": "V"}
KNAME = {"V": "vertex", "E": "edge", "H": "halfedge", "F": "face", "C": "corner", "B": "boundary loop", "VI": "interior vertex"}
GC = "geometrycentral::"


def elem_of(t):
    t = t.replace("const ", "").rstrip("&* ").strip()
    for n, k in ELEM.items():
        if t in (GC + "surface::" + n, GC + "pointcloud::" + n):
            return k
    return None


def meshdata_elem(t):
    m = re.search(r"MeshData<(geometrycentral::(?:surface|pointcloud)::\w+)\s*,", t)
    return elem_of(m.group(1)) if m else None


class Node:
    __slots__ = ("p", "kind", "ch", "glob", "why")

    def __init__(self, kind=None, why=None):
        self.p, self.kind, self.ch, self.glob, self.why = None, kind, {}, False, why

    def find(self):
        n = self
        while n.p is not None:
            n = n.p
        return n

    def c(self, name):
        n = self.find()
        if name not in n.ch:
            x = Node()
            x.glob = n.glob
            n.ch[name] = x
        return n.ch[name].find()


# (class::field) -> term spec ; 'K' scalar, ('D','E') container dom/elem
FIELDS = {}
SM = GC + "surface::SurfaceMesh::"
for n, d, e in [("heNextArr", "H", "H"), ("heVertexArr", "H", "V"), ("heFaceArr", "H", "F"), ("vHalfedgeArr", "V", "H"), ("fHalfedgeArr", "F", "H"),
                ("heSiblingArr", "H", "H"), ("heEdgeArr", "H", "E"), ("heOrientArr", "H", None), ("eHalfedgeArr", "E", "H"),
                ("heVertInNextArr", "H", "H"), ("heVertInPrevArr", "H", "H"), ("vHeInStartArr", "V", "H"),
                ("heVertOutNextArr", "H", "H"), ("heVertOutPrevArr", "H", "H"), ("vHeOutStartArr", "V", "H")]:
    FIELDS[SM + n] = (d, e)
for n, k in [("Halfedges", "H"), ("Edges", "E"), ("Vertices", "V"), ("Faces", "F"), ("BoundaryLoops", "B")]:
    for s in ("Count", "CapacityCount", "FillCount"):
        FIELDS[SM + "n" + n + s] = k
for n, k in [("nPointsCount", "V"), ("nPointsCapacityCount", "V"), ("nPointsFillCount", "V")]:
    FIELDS[GC + "pointcloud::PointCloud::" + n] = k
COUNTS = {"nVertices": "V", "nEdges": "E", "nHalfedges": "H", "nFaces": "F", "nCorners": "C", "nBoundaryLoops": "B", "nPoints": "V",
          "nVerticesCapacity": "V", "nEdgesCapacity": "E", "nHalfedgesCapacity": "H", "nFacesCapacity": "F", "nCornersCapacity": "H",
          "nBoundaryLoopsCapacity": "B", "nPointsCapacity": "V", "nInteriorVertices": "VI"}
ACCESS = {"vertex": "V", "edge": "E", "halfedge": "H", "face": "F", "corner": "H", "boundaryLoop": "B", "point": "V"}
INDICES = {"getVertexIndices": "V", "getInteriorVertexIndices": "VI", "getEdgeIndices": "E", "getHalfedgeIndices": "H", "getFaceIndices": "F",
           "getCornerIndices": "C", "getBoundaryLoopIndices": "B", "getPointIndices": "V"}
IMPLICIT = {"heTwinImplicit": ("H", "H"), "heEdgeImplicit": ("H", "E"), "eHalfedgeImplicit": ("E", "H"),
            "boundaryLoopIndToFaceInd": ("B", "F")}
INT = re.compile(r"^(const )?(unsigned long|unsigned int|int|long|long long|unsigned|size_t|unsigned long long|std::size_t|Eigen::Index|long int)( &)?$")
CONT = re.compile(r"BlockDecompositionResult<|std::vector<|std::deque<|Eigen::|MeshData<|std::array<|std::map<|std::unordered_map<|LinearSolver<|DefiniteSolver<|SquareSolver<|Solver<")


def tracked(t):
    return bool(INT.match(t.strip())) or bool(CONT.search(t))


class Kinds:
    """split=True also tells raw handle numbers (rV, rE, ... : what getIndex() returns and the element arrays are addressed by) from the
    dense enumeration 0..n-1 (V, E, ...: what n*(), *Indices and linear-algebra dimensions range over); in a function in `loose`, which
    only sees meshes that are compressed, a handle number counts as either"""

    def __init__(self, P, split=False, loose=()):
        self.P = P
        self.split = split
        self.loose = loose
        self.fields = {}
        self.scheme = {}
        self.active = set()
        self.locals = {}
        self.conflicts = []
        self.unifications = 0
        self.index_sites = 0
        self.checked = 0
        self.curf = None
        for q, s in FIELDS.items():
            n = self.field(q)
            if split and (isinstance(s, tuple) or q.endswith(("FillCount", "CapacityCount"))) and "pointcloud" not in q:
                s = tuple(self.raw(x) for x in s) if isinstance(s, tuple) else self.raw(s)
            if isinstance(s, tuple):
                self.setk(n.c("dom"), s[0])
                if s[1]:
                    self.setk(n.c("elem"), s[1])
            else:
                self.setk(n, s)

    def raw(self, k, cloud=False):
        if k is None or not self.split or cloud:
            return k
        if self.curf is not None and self.curf["m"] in self.loose:
            return None
        return "r" + k

    def setk(self, n, k):
        n = n.find()
        n.kind = k

    def field(self, q):
        if q not in self.fields:
            n = Node()
            n.glob = True
            self.fields[q] = n
        return self.fields[q].find()

    def unify(self, a, b, e):
        if a is None or b is None:
            return a if b is None else b
        a, b = a.find(), b.find()
        self.unifications += 1
        if a is b:
            return a
        if a.kind and b.kind:
            self.checked += 1
            if a.kind != b.kind:
                self.conflict(a.kind, b.kind, e)
                return a
        if a.glob != b.glob and b.glob:
            a, b = b, a
        b.p = a
        a.kind = a.kind or b.kind
        if b.glob and not a.glob:
            self.mkglob(a)
        if a.glob:
            for c in b.ch.values():
                self.mkglob(c)
        for n, c in list(b.ch.items()):
            if n in a.ch:
                self.unify(a.ch[n], c, e)
            else:
                a.find().ch[n] = c
        a = a.find()
        st = sorted(n for n in a.ch if n[0] == "*")
        if len(st) > 1 or (st and a.kind):
            if a.kind:
                b = a.ch[st[0]].find().kind
                if b and b != a.kind:            # K against 2K is a two-block layout
                    self.conflict(a.kind, b, e)
            elif any(a.ch[x].find().kind for x in st):
                self.conflict(self.desc(a, st[1]), self.desc(a, st[0]), e)
            for n in st[(0 if a.kind else 1):]:
                a.ch.pop(n)
        return a

    def desc(self, a, n):
        return "%s%s" % (n[1:], a.ch[n].find().kind or "?")

    def mkglob(self, n):
        n = n.find()
        if n.glob:
            return
        n.glob = True
        for c in n.ch.values():
            self.mkglob(c)

    def conflict(self, k1, k2, e):
        self.conflicts.append((self.curf, tuple(sorted((k1, k2))), e.get("l") if isinstance(e, dict) else None, e))

    def get(self, key):
        """scheme of a function: (param nodes, return node)"""
        if key in self.scheme:
            return self.scheme[key]
        f = self.P.fns.get(key)
        if f is None or key in self.active:
            return None
        self.active.add(key)
        save = self.curf
        self.curf = f
        inf = Infer(self, f)
        self.locals[key] = inf.vars
        try:
            s = inf.go()
        finally:
            self.curf = save
            self.active.discard(key)
        self.scheme[key] = s
        return s

    def local_kinds(self, key, d):
        """(kind of the contents, kind of the index) of a local container"""
        n = self.locals.get(key, {}).get(d)
        if n is None:
            return (None, None)
        n = n.find()
        ks = {x: c.find().kind for x, c in n.ch.items()}
        return (ks.get("elem"), ks.get("dom"))

    def inst(self, n, memo):
        if n is None:
            return None
        n = n.find()
        if n.glob or (n.kind and not n.ch):
            return n
        if n in memo:
            return memo[n]
        x = Node(n.kind)
        memo[n] = x
        for k, c in n.ch.items():
            x.ch[k] = self.inst(c, memo)
        return x


class Infer:
    def __init__(self, K, f):
        self.K, self.P, self.f = K, K.P, f
        self.vars = {}
        self.ret = Node()
        self.lams = {}
        self.lamret = []

    def go(self):
        f = self.f
        for p in f["ps"]:
            self.vars[p["d"]] = self.fresh(p["t"])
        for i in f.get("inits", []):
            n = self.ev(i.get("e"))
            if i.get("mem") and f.get("cls") and n is not None:
                q = f["cls"] + "::" + i["mem"]
                fld = [x for x in self.P.recs.get(f["cls"], {}).get("fields", []) if x["n"] == i["mem"]]
                if fld and self.fieldok(q, fld[0]["t"]):
                    self.K.unify(self.K.field(q), n, i.get("e"))
        self.run(f["body"])
        return ([self.vars[p["d"]] for p in f["ps"]], self.ret if tracked(f["r"]) else None)

    def fresh(self, t):
        if not tracked(t):
            return Node() if "auto" in t else None
        n = Node()
        return n

    def fieldok(self, q, t):
        return tracked(t) and q.startswith((GC + "surface::", GC + "pointcloud::")) and "MeshData<" not in q.rsplit("::", 1)[0] and q.startswith(GC) and "Eigen" not in q

    def run(self, s):
        if s is None:
            return
        k = s["s"]
        if k == "decl":
            for v in s["vs"]:
                n = self.ev(v.get("i")) if v.get("i") else None
                i = strip(v["i"]) if v.get("i") else None
                if i is not None and i.get("k") == "lam":
                    self.lams[v["d"]] = i
                    continue
                x = self.fresh(v["t"])
                self.vars[v["d"]] = x
                if x is not None and n is not None:
                    if v["t"].rstrip().endswith("&"):
                        self.K.unify(x, n, v["i"])
                    else:
                        self.copy(x, n, v["i"])
            return
        if k == "rfor":
            c = self.ev(s["r"])
            v = s["v"]
            if v:
                x = self.fresh(v["t"])
                self.vars[v["d"]] = x
                if x is not None and c is not None:
                    self.K.unify(x, c.c("elem"), s["r"])
            self.run(s["b"])
            return
        if k == "return":
            if s.get("e"):
                n = self.ev(s["e"])
                r = self.lamret[-1] if self.lamret else self.ret
                if n is not None:
                    self.K.unify(r, n, s["e"])
            return
        for key in ("init",):
            if isinstance(s.get(key), dict) and "s" in s[key]:
                self.run(s[key])
        if s.get("cv"):
            self.run(dict(s="decl", vs=[s["cv"]]))
        for key in ("c", "e", "inc"):
            if isinstance(s.get(key), dict) and "k" in s[key]:
                self.ev(s[key])
        for c in sub_stmts(s):
            if c is not s.get("init"):
                self.run(c)

    def copy(self, a, b, e):
        return self.K.unify(a, b, e)

    def intlit(self, e):
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "lit":
            try:
                return int(str(e.get("v")), 0)
            except ValueError:
                return None
        return None

    def k(self, kind):
        return Node(kind)

    def rawk(self, kind, t=""):
        return Node(self.K.raw(kind, "pointcloud::" in t))

    def ev(self, e):
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        K = self.K
        if k in ("cast",) and e.get("a"):
            n = self.ev(e["a"][0])
            return n if INT.match(e.get("t", "")) or CONT.search(e.get("t", "")) else None
        if k == "ref":
            if e.get("dk") in ("local", "param"):
                return self.vars.get(e["d"])
            if e.get("dk") == "global" and self.fieldok(e.get("q") or "", e.get("t", "")) and not (e.get("q") or "").endswith("INVALID_IND"):
                return K.field(e["q"])
            return None
        if k == "mem":
            b = self.ev(e["b"])
            if not self.fieldok(e["q"], e.get("t", "")):
                return b.c("." + e["n"]) if b is not None and e["q"].startswith(GC) and tracked(e.get("t", "")) else None
            n = K.field(e["q"])
            me = meshdata_elem(e.get("t", ""))
            if me and e["n"] in ("vertexIndices", "edgeIndices", "halfedgeIndices", "faceIndices", "cornerIndices", "boundaryLoopIndices", "pointIndices"):
                if n.c("elem").kind is None:
                    K.setk(n.c("elem"), "C" if e["n"] == "cornerIndices" else me)
            elif me and e["n"] == "interiorVertexIndices" and n.c("elem").kind is None:
                K.setk(n.c("elem"), "VI")
            return n
        if k == "lam":
            self.lam(e)
            return None
        if k == "asg":
            a, b = self.ev(e["a"][0]), self.ev(e["a"][1])
            if e["op"] == "=" and a is not None and b is not None:
                K.unify(a, b, e)
            return a
        if k == "bin":
            a, b = self.ev(e["a"][0]), self.ev(e["a"][1])
            if e["op"] in ("==", "!=", "<", "<=", ">", ">=") and a is not None and b is not None:
                K.unify(a, b, e)
            if e["op"] == ",":
                return b
            if e["op"] == "*" and INT.match(e.get("t", "")):
                for x, y in ((0, b), (1, a)):
                    c = self.intlit(e["a"][x])
                    if c is not None and c >= 2 and y is not None and not re.search(r"(Capacity|Fill)Count$", strip(e["a"][1 - x]).get("n") or ""):
                        r = Node()
                        r.ch["*%d" % c] = y
                        return r
            if e["op"] == "+" and INT.match(e.get("t", "")):
                for y, o in ((a, b), (b, a)):
                    if y is not None and any(c[0] == "*" for c in y.find().ch) and (o is None or not (o.find().kind or any(c[0] == "*" for c in o.find().ch))):
                        return y
            return None
        if k == "un":
            n = self.ev(e["a"][0])
            return n if e["op"] in ("*", "&", "++post", "--post", "++", "--") else None
        if k == "cond":
            self.ev(e["a"][0])
            a, b = self.ev(e["a"][1]), self.ev(e["a"][2])
            if a is not None and b is not None:
                K.unify(a, b, e)
            return a if a is not None else b
        if k == "idx":
            a, b = self.ev(e["a"][0]), self.ev(e["a"][1])
            return a.c("elem") if a is not None else None
        if k == "ctor":
            return self.ctor(e)
        if k == "call":
            return self.call(e)
        if k == "init":
            xs = list(e.get("a", ()))
            while e.get("t", "").startswith("std::array<") and len(xs) == 1 and xs[0].get("k") == "init":
                xs = list(xs[0].get("a", ()))
            ns = [self.ev(x) for x in xs]
            if e.get("t", "").startswith(("std::vector<unsigned long", "std::vector<int", "std::array<unsigned long", "std::vector<unsigned int")) or False:
                r = Node()
                for n in ns:
                    if n is not None:
                        K.unify(r.c("elem"), n, e)
                return r
            return None
        for c in kids(e):
            self.ev(c)
        return None

    def lam(self, lam):
        for p in lam["ps"]:
            if p["d"] not in self.vars:
                self.vars[p["d"]] = self.fresh(p["t"])
        lam.setdefault("_ret", None)
        if getattr(self, "done", None) is None:
            self.done = {}
        if id(lam) in self.done:
            return self.done[id(lam)]
        r = Node()
        self.done[id(lam)] = r
        self.lamret.append(r)
        self.run(lam["body"])
        self.lamret.pop()
        return r

    def ctor(self, e):
        K = self.K
        t = e.get("t", "") or e.get("c", "")
        c = e.get("c") or t
        args = [self.ev(x) for x in e["a"]]
        ek = elem_of(c)
        if ek and len(args) >= 2:
            K.index_sites += 1
            if args[1] is not None:
                K.unify(self.rawk(ek, c), args[1], e)
            return None
        if "Eigen::Triplet<" in c:
            n = Node()
            if len(args) >= 2:
                for a, d in zip(args[:2], ("row", "col")):
                    if a is not None:
                        K.unify(n.c(d), a, e)
            return n
        if c.startswith("std::vector<"):
            n = Node()
            if args and INT.match(e["a"][0].get("t", "")) and not e["a"][0].get("k") == "init":
                if args[0] is not None:
                    K.unify(n.c("dom"), args[0], e)
                if len(args) > 1 and args[1] is not None and strip(e["a"][1]).get("k") != "defarg":
                    K.unify(n.c("elem"), args[1], e)
            elif args and args[0] is not None and len(args) == 1:
                return args[0]
            return n
        if "Eigen::SparseMatrix<" in c or "Eigen::Matrix<" in c:
            n = Node()
            ints = [i for i, x in enumerate(e["a"]) if INT.match(x.get("t", ""))]
            if len(ints) >= 1 and ints[0] == 0:
                if args[0] is not None:
                    K.unify(n.c("row"), args[0], e)
                if len(ints) >= 2 and args[1] is not None:
                    K.unify(n.c("col"), args[1], e)
            elif args and args[0] is not None:
                return args[0]
            return n
        me = meshdata_elem(c)
        if me:
            n = Node()
            if len(args) >= 2 and "Eigen::" in e["a"][1].get("t", "") and args[1] is not None:
                if len(args) >= 3 and "MeshData<" in e["a"][2].get("t", "") and args[2] is not None:
                    K.unify(args[1].c("row"), args[2].c("elem"), e)
                else:
                    K.unify(args[1].c("row"), self.k(me), e)
            return n
        if "Solver<" in c:
            n = Node()
            if args and args[0] is not None:
                K.unify(n.c("row"), args[0].c("row"), e)
                K.unify(n.c("col"), args[0].c("col"), e)
            return n
        self.link(e.get("m"), args, e)
        return None

    def link(self, m, args, e):
        s = self.K.get(m) if m in self.P.fns else None
        if not s:
            return None
        memo = {}
        for p, a in zip(s[0], args):
            if p is not None and a is not None:
                self.K.unify(self.K.inst(p, memo), a, e)
        return self.K.inst(s[1], memo) if s[1] is not None else None

    def matmul(self, a, b, e):
        if a is None or b is None:
            return None
        self.K.unify(a.c("col"), b.c("row"), e)
        r = Node()
        self.K.unify(r.c("row"), a.c("row"), e)
        self.K.unify(r.c("col"), b.c("col"), e)
        return r

    def call(self, e):
        K = self.K
        o = e.get("o")
        cn = e.get("cn") or ""
        op = e.get("op")
        ot = strip(o).get("t", "") if o is not None else ""
        # lambda call
        if op == "()" and o is not None:
            oo = strip(o)
            lam = self.lams.get(oo.get("d")) if oo.get("k") == "ref" else (oo if oo.get("k") == "lam" else None)
            if lam is not None:
                args = [self.ev(x) for x in e["a"]]
                r = self.lam(lam)
                for p, a in zip(lam["ps"], args):
                    n = self.vars.get(p["d"])
                    if n is not None and a is not None:
                        K.unify(n, a, e)
                return r
        base = self.ev(o) if o is not None else None
        args = [self.ev(x) for x in e["a"]]
        ats = [x.get("t", "") for x in e["a"]]
        # the first entries of a container's buffer are addressed like the buffer
        if cn in ("head", "topRows") and base is not None and strip(o).get("k") == "call" and strip(o).get("cn") == "raw":
            return base
        # element objects
        if o is not None and elem_of(ot) and cn == "getIndex":
            return self.rawk(elem_of(ot), ot)
        if o is not None and re.search(r"geometrycentral::(surface::\w*SurfaceMesh|pointcloud::PointCloud)", ot + " " + (e.get("c") or "")):
            if cn in COUNTS and not e["a"]:
                return self.rawk(COUNTS[cn], e.get("c") or ot) if cn.endswith("Capacity") else self.k(COUNTS[cn])
            if cn in ACCESS and len(args) == 1:
                K.index_sites += 1
                if args[0] is not None:
                    K.unify(self.rawk(ACCESS[cn], e.get("c") or ot), args[0], e)
                return None
            if cn in INDICES:
                r = Node()
                K.setk(r.c("elem"), INDICES[cn])
                return r
        if cn in IMPLICIT and (e.get("f") or "").startswith(SM) and len(args) == 1:
            a, r = IMPLICIT[cn]
            if args[0] is not None:
                K.unify(self.rawk(a), args[0], e)
            return self.rawk(r)
        if cn == "faceIsBoundaryLoop" and args and args[0] is not None:
            K.unify(self.rawk("F"), args[0], e)
            return None
        # MeshData
        me = meshdata_elem(ot) if o is not None else None
        if me:
            if op in ("[]", "()") and len(args) == 1:
                if INT.match(ats[0]):
                    K.index_sites += 1
                    if args[0] is not None:
                        K.unify(self.rawk(me, ot), args[0], e)
                return base.c("elem") if base is not None else None
            if cn == "toVector":
                r = Node()
                if args and args[0] is not None:
                    K.unify(r.c("row"), args[0].c("elem"), e)
                elif not args:
                    K.setk(r.c("row"), me)
                return r
            if cn == "fromVector" and args and args[0] is not None:
                if len(args) > 1 and args[1] is not None:
                    K.unify(args[0].c("row"), args[1].c("elem"), e)
                elif len(args) == 1:
                    K.unify(args[0].c("row"), self.k(me), e)
                return None
            if cn == "raw":
                r = Node()
                rk = self.K.raw(me, "pointcloud::" in ot)
                if rk:
                    K.setk(r.c("row"), rk)
                return r
            if cn == "size":
                return None
            if cn == "operator=" or op == "=":
                if base is not None and args and args[0] is not None and "MeshData<" in ats[0]:
                    K.unify(base, args[0], e)
                return base
            return None
        # std containers
        if re.search(r"std::(vector|deque)<", ot):
            if op == "[]" or cn == "at":
                K.index_sites += 1
                if base is not None and args[0] is not None:
                    K.unify(base.c("dom"), args[0], e)
                return base.c("elem") if base is not None else None
            if base is None:
                return None
            if cn in ("push_back", "push_front") and args and args[0] is not None:
                K.unify(base.c("elem"), args[0], e)
                return None
            if cn == "emplace_back":
                if "Eigen::Triplet<" in ot:
                    for a, d in zip(args[:2], ("row", "col")):
                        if a is not None:
                            K.unify(base.c("elem").c(d), a, e)
                elif len(args) == 1 and args[0] is not None and INT.match(ats[0]):
                    K.unify(base.c("elem"), args[0], e)
                return None
            if cn in ("resize", "assign") and args and INT.match(ats[0]):
                if args[0] is not None:
                    K.unify(base.c("dom"), args[0], e)
                if len(args) > 1 and args[1] is not None:
                    K.unify(base.c("elem"), args[1], e)
                return None
            if cn == "size":
                return base.c("dom")
            if cn in ("back", "front"):
                return base.c("elem")
            if op == "=" and args and args[0] is not None:
                K.unify(base, args[0], e)
                return base
            return None
        if re.search(r"std::array<", ot):
            if op == "[]" or cn == "at":
                return base.c("elem") if base is not None else None
            if op == "=" and args and args[0] is not None and base is not None:
                K.unify(base, args[0], e)
            return base if op == "=" else None
        if re.search(r"std::(unordered_)?map<", ot):
            if op == "[]" or cn == "at":
                if base is not None and args[0] is not None and INT.match(ats[0]):
                    K.unify(base.c("dom"), args[0], e)
                return base.c("elem") if base is not None else None
            return None
        # Eigen
        if "Eigen::" in ot or any("Eigen::" in a for a in ats) or (e.get("f") or "").startswith("Eigen::"):
            if o is not None and base is not None and "Eigen::" in ot:
                if op in ("[]", "()") or cn in ("coeff", "coeffRef", "insert"):
                    K.index_sites += 1
                    if args and INT.match(ats[0]) and args[0] is not None:
                        K.unify(base.c("row"), args[0], e)
                    if len(args) > 1 and INT.match(ats[1]) and args[1] is not None:
                        K.unify(base.c("col"), args[1], e)
                    return base.c("elem") if "Matrix<unsigned long" in ot or "Matrix<int" in ot else None
                if cn == "rows" or (cn == "size" and not args):
                    return base.c("row")
                if cn == "cols":
                    return base.c("col")
                if cn == "transpose" or cn == "adjoint":
                    r = Node()
                    K.unify(r.c("row"), base.c("col"), e)
                    K.unify(r.c("col"), base.c("row"), e)
                    return r
                if cn in ("row",) and args and args[0] is not None:
                    K.unify(base.c("row"), args[0], e)
                    return None
                if cn in ("col",) and args and args[0] is not None:
                    K.unify(base.c("col"), args[0], e)
                    return None
                if cn in ("resize", "setZero", "conservativeResize"):
                    if args and args[0] is not None and INT.match(ats[0]):
                        K.unify(base.c("row"), args[0], e)
                    if len(args) > 1 and args[1] is not None and INT.match(ats[1]):
                        K.unify(base.c("col"), args[1], e)
                    return None
                if cn == "setFromTriplets" and e["a"]:
                    x = strip(e["a"][0])
                    v = self.ev(x["o"]) if x.get("k") == "call" and x.get("o") is not None else None
                    if v is None and x.get("k") == "call" and x.get("a"):
                        v = self.ev(x["a"][0])
                    if v is not None:
                        K.unify(base.c("row"), v.c("elem").c("row"), e)
                        K.unify(base.c("col"), v.c("elem").c("col"), e)
                    return None
                if cn == "asDiagonal":
                    r = Node()
                    K.unify(r.c("row"), base.c("row"), e)
                    K.unify(r.c("col"), base.c("row"), e)
                    return r
                if cn in ("eval", "array", "matrix", "cwiseProduct", "cwiseInverse", "cwiseQuotient", "real", "imag", "conjugate", "normalized", "cwiseAbs", "cast", "derived", "noalias"):
                    if cn in ("cwiseProduct", "cwiseQuotient") and args and args[0] is not None:
                        K.unify(base.c("row"), args[0].c("row"), e)
                    return base
                if op in ("=", "+=", "-=") and args and args[0] is not None:
                    if "Eigen::" in ats[0]:
                        K.unify(base.c("row"), args[0].c("row"), e)
                        K.unify(base.c("col"), args[0].c("col"), e)
                    return base
            f = e.get("f") or ""
            if cn in ("Zero", "Ones", "Constant", "Random") and o is None:
                r = Node()
                if args and args[0] is not None and INT.match(ats[0]):
                    K.unify(r.c("row"), args[0], e)
                if len(args) > 1 and args[1] is not None and INT.match(ats[1]) and cn != "Constant":
                    K.unify(r.c("col"), args[1], e)
                return r
            xs = ([base] if o is not None else []) + args
            ts = ([ot] if o is not None else []) + ats
            if op == "*" and len(xs) == 2:
                m0, m1 = "Eigen::" in ts[0], "Eigen::" in ts[1]
                if m0 and m1:
                    return self.matmul(xs[0], xs[1], e)
                return xs[0] if m0 else xs[1]
            if op == "/" and len(xs) == 2:
                return xs[0]
            if op in ("+", "-") and len(xs) == 2 and all("Eigen::" in t for t in ts):
                if xs[0] is not None and xs[1] is not None:
                    K.unify(xs[0].c("row"), xs[1].c("row"), e)
                    K.unify(xs[0].c("col"), xs[1].c("col"), e)
                return xs[0] if xs[0] is not None else xs[1]
            if op == "-" and len(xs) == 1:
                return xs[0]
        if "Solver<" in ot and base is not None:
            if cn == "solve":
                rhs = args[-1] if args else None
                out = args[0] if len(args) == 2 else None
                if rhs is not None:
                    K.unify(base.c("row"), rhs.c("row"), e)
                if out is not None:
                    K.unify(base.c("col"), out.c("row"), e)
                r = Node()
                K.unify(r.c("row"), base.c("col"), e)
                return r
        if (e.get("f") or "").endswith(("::solvePositiveDefinite", "::solveSquare", "::solve")) and o is None and len(args) == 2 and args[0] is not None:
            if args[1] is not None:
                K.unify(args[0].c("row"), args[1].c("row"), e)
            r = Node()
            K.unify(r.c("row"), args[0].c("col"), e)
            return r
        if is_std_move(e):
            return args[0]
        if cn in ("reset",) and base is not None and args and args[0] is not None:
            K.unify(base, args[0], e)
            return None
        if op in ("->", "*") and o is not None and not args:
            return base
        if cn == "get" and o is not None and not args:
            return base
        if e.get("f") in ("std::make_unique",) or cn == "make_unique":
            return None
        if (e.get("f") or "") in ("std::swap", "std::max", "std::min") and len(args) == 2 and args[0] is not None and args[1] is not None:
            if e["f"] == "std::swap":
                K.unify(args[0], args[1], e)
            return args[0] if e["f"] != "std::swap" else None
        return self.link(e.get("m"), args, e)
