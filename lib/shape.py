"""Shape analysis of halfedge-mesh mutations.

The heap is five pointer fields (next, vertex, face of a halfedge; halfedge of a vertex, of a face) plus the fixed pairing twin/edge.
A mutation is interpreted over an equality domain: terms name elements by how they are reached in the mesh the operation started
from, congruence closure under the laws of a valid halfedge mesh (twin is an involution, next permutes the halfedges of a face, the
next halfedge starts where the twin starts, ...) decides which terms are one element, and a log of pointer updates describes the mesh
the operation leaves.  Orbit loops become universal updates; nothing is executed and no mesh is built."""
from ir import strip, walk, walk_stmt, walk_stmts, short

GC = "geometrycentral::"
S = GC + "surface::"
FIELDS = {"heNextArr": "nx", "heVertexArr": "v", "heFaceArr": "f", "vHalfedgeArr": "vh", "fHalfedgeArr": "fh"}
SORT = {"nx": "h", "pv": "h", "tw": "h", "vh": "h", "fh": "h", "eh": "h", "v": "v", "f": "f", "e": "e"}
NAMES = {"nx": "next", "pv": "prev", "tw": "twin", "v": "vertex", "f": "face", "vh": "halfedge", "fh": "halfedge", "eh": "halfedge", "e": "edge"}


class Undecided(Exception):
    pass


class EG:
    """equality domain over element terms"""

    def __init__(self, o=None):
        if o is None:
            self.uf, self.tab, self.info = [], {}, []
            self.bl, self.inner, self.deg, self.bnd = {}, set(), {}, {}
            self.tri, self.alltri, self.ehany = set(), False, False
            self.neq, self.dead, self.bad = set(), set(), False
            self.away = ()         # (walk, op, element): no halfedge of the walk has this edge / vertex / face
            self.busy = False
        else:
            self.uf, self.tab, self.info = list(o.uf), dict(o.tab), list(o.info)
            self.bl, self.inner, self.deg, self.bnd = dict(o.bl), set(o.inner), dict(o.deg), dict(o.bnd)
            self.tri, self.alltri, self.ehany = set(o.tri), o.alltri, o.ehany
            self.neq, self.dead, self.bad = set(o.neq), set(o.dead), o.bad
            self.away = o.away
            self.busy = False

    def find(self, x):
        while self.uf[x] != x:
            x = self.uf[x]
        return x

    def const(self, sort, name, new=False):
        self.uf.append(len(self.uf))
        self.info.append((sort, name, new))
        return len(self.uf) - 1

    def isnew(self, x):
        x = self.find(x)
        return self.info[x][2]

    def name(self, x):
        return self.info[self.find(x)][1]

    def get(self, op, x):
        r = self.tab.get((op, self.find(x)))
        return None if r is None else self.find(r)

    def mk(self, op, x):
        x = self.find(x)
        r = self.tab.get((op, x))
        if r is not None:
            return self.find(r)
        new = op in ("tw", "e", "eh") and self.isnew(x)
        n = self.const(SORT[op], "%s.%s()" % (self.name(x), NAMES[op]), new)
        self.tab[(op, x)] = n
        if op == "tw":
            self.tab[("tw", n)] = x
            if ("e", x) in self.tab:
                self.put("e", n, self.tab[("e", x)])
        elif op == "e":
            self.put("e", self.mk("tw", x), n)
        elif op == "nx":
            self.put("pv", n, x)
            self.put("f", n, self.mk("f", x))
            self.put("v", n, self.mk("v", self.mk("tw", x)))
            self.rot(x)
        elif op == "pv":
            self.put("nx", n, x)
            self.put("f", n, self.mk("f", x))
            self.put("v", x, self.mk("v", self.mk("tw", n)))
            self.rot(n)
        elif op == "vh":
            self.put("v", n, x)
        elif op == "fh":
            self.put("f", n, x)
        elif op == "eh":
            self.put("e", n, x)
            if not self.isnew(n) and not self.ehany:
                self.setbl(self.mk("f", n), False)
        return self.find(n)

    def put(self, op, x, y):
        k = (op, self.find(x))
        if k in self.tab:
            self.union(self.tab[k], y)
        else:
            self.tab[k] = self.find(y)

    def rot(self, x):
        """face cycle of length three"""
        if self.busy:
            return
        f = self.find(self.mk("f", x))
        if f in self.tri or (self.alltri and self.bl.get(f) is not True):
            self.busy = True
            a = self.mk("nx", x)
            b = self.mk("nx", a)
            c = self.mk("nx", b)
            self.busy = False
            self.union(c, x)

    def settri(self, f):
        f = self.find(f)
        if f in self.tri:
            return
        self.tri.add(f)
        for (op, x), y in list(self.tab.items()):
            if op == "f" and self.find(y) == self.find(f) and (self.get("nx", x) is not None or self.get("pv", x) is not None or True):
                self.rot(x)
                break

    def setbl(self, f, val):
        f = self.find(f)
        if self.bl.get(f, val) != val:
            self.bad = True
        self.bl[f] = val

    def isbl(self, f):
        """True / False / None (not known)"""
        f = self.find(f)
        if f in self.bl:
            return self.bl[f]
        for (op, x), y in self.tab.items():
            if op == "f" and self.find(y) == f:
                w = self.get("v", x)
                if w is not None and w in self.inner:
                    return False
                w = self.get("v", self.get("tw", x)) if self.get("tw", x) is not None else None
                if w is not None and w in self.inner:
                    return False
        return None

    def uniq(self):
        """at most one exterior halfedge leaves a vertex"""
        while True:
            out, hit = {}, None
            ext = {self.find(x) for (op, x), y in self.tab.items() if op == "f" and self.bl.get(self.find(y)) is True}
            for x in sorted(ext):
                w = self.get("v", x)
                if w is not None and self.find(out.setdefault(w, x)) != x:
                    hit = (out[w], x)
                    break
            if hit is None:
                for x in sorted(ext):
                    t = self.get("tw", x)
                    w = self.get("v", t) if t is not None else None
                    if w in out and self.get("nx", x) != self.find(out[w]):
                        hit = (self.mk("nx", x), out[w])
                        break
            if hit is None:
                # a boundary vertex keeps the halfedge whose twin is exterior
                for w in sorted(out):
                    h = self.get("vh", w)
                    if h is not None and self.bl.get(self.mk("f", self.mk("tw", h))) is not True:
                        self.setbl(self.mk("f", self.mk("tw", h)), True)
                        hit = True
                if not hit or self.bad:
                    return
                continue
            self.union(*hit)

    def setinner(self, w):
        self.inner.add(self.find(w))

    def setdeg(self, w, n):
        w = self.find(w)
        self.deg[w] = n
        for (op, x), y in list(self.tab.items()):
            if op == "v" and self.find(y) == w:
                z = x
                for _ in range(n):
                    z = self.mk("tw", self.mk("pv", z))
                self.union(z, x)
                break

    def differ(self, a, b):
        """known to be different elements"""
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        if frozenset((a, b)) in self.neq:
            return True
        if self.isnew(a) or self.isnew(b):
            return True
        if self.info[a][0] == "h":
            for path in (("f",), ("tw", "f")):
                p, q = a, b
                for o in path:
                    p = self.get(o, p) if p is not None else None
                    q = self.get(o, q) if q is not None else None
                if p is not None and q is not None and self.isbl(p) is not None and self.isbl(q) is not None and self.isbl(p) != self.isbl(q):
                    return True
            for o in ("v", "e", "f"):
                p, q = self.get(o, a), self.get(o, b)
                if p is not None and q is not None and p != q and frozenset((p, q)) in self.neq:
                    return True
        return False

    def setneq(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            self.bad = True
        self.neq.add(frozenset((a, b)))

    def union(self, a, b):
        todo = [(a, b)]
        while todo:
            a, b = todo.pop()
            a, b = self.find(a), self.find(b)
            if a == b:
                continue
            if frozenset((a, b)) in self.neq or self.info[a][2] != self.info[b][2]:
                self.bad = True
            if b < a:
                a, b = b, a
            self.uf[b] = a
            if b in self.bl:
                self.setbl(a, self.bl.pop(b))
            for st in (self.tri, self.inner, self.dead):
                if b in st:
                    st.discard(b)
                    st.add(a)
            if b in self.bnd:
                l, h = self.bnd.pop(b)
                l2, h2 = self.bnd.get(a, (l, h))
                self.bnd[a] = (max(l, l2), min(h, h2))
                self.bad = self.bad or max(l, l2) > min(h, h2)
            if b in self.deg:
                self.deg.setdefault(a, self.deg.pop(b))
            nn = set()
            for p in self.neq:
                q = frozenset(self.find(z) for z in p)
                if len(q) == 1:
                    self.bad = True
                    continue
                nn.add(q)
            self.neq = nn
            nt = {}
            for (op, x), y in self.tab.items():
                k = (op, self.find(x))
                y = self.find(y)
                if k in nt and nt[k] != y:
                    todo.append((nt[k], y))
                else:
                    nt[k] = y
            self.tab = nt


class State:
    __slots__ = ("g", "w", "env", "tick", "cnt", "dead", "news", "dcnt")

    def __init__(self):
        self.g = EG()
        self.w = {k: () for k in ("nx", "v", "f", "vh", "fh")}
        self.env = {}
        self.tick = 0
        self.cnt = 0           # explicit changes of the interior halfedge count
        self.dcnt = ()         # (deleted halfedge, face at that time)
        self.dead = ()
        self.news = ()         # (first halfedge, declared on boundary: True/False/None, line)

    def copy(self):
        s = State.__new__(State)
        s.g = EG(self.g)
        s.w = dict(self.w)
        s.env = dict(self.env)
        s.tick, s.cnt, s.dead, s.news, s.dcnt = self.tick, self.cnt, self.dead, self.news, self.dcnt
        return s

    def ver(self):
        return {k: len(v) for k, v in self.w.items()}

    # ---- heap
    def read(self, fld, x, ver=None, make=True):
        ws = self.w[fld]
        if ver is not None:
            ws = ws[:ver[fld]]
        x = self.g.find(x)
        for kind, key, val, line in reversed(ws):
            if kind == "w":
                if self.g.find(key) == x:
                    return self.g.find(val)
            elif self.member(key, x):
                return self.g.find(val)
        if self.g.isnew(x):
            return None
        return self.g.mk(fld, x) if make else self.g.get(fld, x)

    def prev(self, x, ver=None, make=True):
        """halfedge whose next is x"""
        x = self.g.find(x)
        ws = self.w["nx"] if ver is None else self.w["nx"][:ver["nx"]]
        seen = set()
        for kind, key, val, line in reversed(ws):
            if kind == "w":
                k = self.g.find(key)
                if k in seen:
                    continue
                seen.add(k)
                if self.g.find(val) == x:
                    return k
        if self.g.isnew(x):
            return None
        p = self.g.mk("pv", x) if make else self.g.get("pv", x)
        return p if p is None or p not in seen else None

    def member(self, pred, x):
        k = pred[0]
        g = self.g
        if k == "out":
            return self.read("v", x, pred[2]) == g.find(pred[1])
        if k == "in":
            return self.read("v", g.mk("tw", x), pred[2]) == g.find(pred[1])
        if k == "face":
            return self.read("f", x, pred[2]) == g.find(pred[1])
        if k == "seg":
            _, a, b, step, incl, ver = pred
            x = g.find(x)
            y = g.find(a)
            b = g.find(b)
            if incl and x == b:
                return True
            first = True
            for _ in range(12):
                if y is None or (y == b and not (first and incl)):
                    break
                if y == x:
                    return True
                first = False
                y = self.step(y, step, ver)
            inv = {"nx": ("pv",), "pv": ("nx",)}.get(step) or tuple({"nx": "pv", "pv": "nx", "tw": "tw"}[o] for o in reversed(step))
            y = self.step(b, inv, ver)
            for _ in range(12):
                if y is None:
                    break
                if y == x:
                    return True
                if y == g.find(a):
                    break
                y = self.step(y, inv, ver)
            return False
        if k == "key":          # image of a member under twin
            return self.member(pred[1], g.mk("tw", x))
        raise Undecided("membership " + k)

    def step(self, y, step, ver):
        for o in ((step,) if isinstance(step, str) else step):
            if y is None:
                return None
            if o == "nx":
                y = self.read("nx", y, ver, False)
            elif o == "tw":
                y = self.g.get("tw", y)
            elif o == "pv":
                y = self.prev(y, ver, False)
        return y

    def write(self, fld, x, val, line):
        self.w[fld] = self.w[fld] + (("w", self.g.find(x), self.g.find(val), line),)

    def univ(self, fld, pred, val, line):
        self.w[fld] = self.w[fld] + (("u", pred, self.g.find(val), line),)

    def nwrites(self):
        return sum(len(v) for v in self.w.values())


U = ("U",)
D = ("D",)


def E(x):
    return ("E", x)


class Interp:
    """interprets one mutation over all its paths; self.exits = [(state, value, line)]"""

    def __init__(self, P, inline, alltri=False, maxpaths=400):
        self.P, self.inline, self.alltri, self.maxpaths = P, inline, alltri, maxpaths
        self.fid = 0
        self.frames = []
        self.visited = set()
        self.any = None
        self.dropped = 0
        self.viol = []

    def run(self, f, setup=None):
        st = State()
        st.g.alltri = self.alltri
        fr = self.push(f)
        for p in f["ps"]:
            t = p["t"].replace("const ", "").replace("&", "").strip()
            srt = {S + "Vertex": "v", S + "Halfedge": "h", S + "Edge": "e", S + "Face": "f", S + "BoundaryLoop": "f"}.get(t)
            st.env[(fr["id"], p["d"])] = E(st.g.const(srt, p["n"])) if srt else U
            if srt == "f":
                st.g.setbl(st.env[(fr["id"], p["d"])][1], False)
        if setup:
            setup(st, fr, f)
        out = self.stmt(f["body"], [st])
        self.frames.pop()
        return fr["ret"] + [(s, U, f["le"]) for s in out]

    def push(self, f, lam=None):
        self.fid += 1
        fr = {"id": self.fid, "fn": f, "ret": [], "loop": [], "lam": lam}
        self.frames.append(fr)
        if len(self.frames) > 8:
            raise Undecided("recursion")
        self.visited.add(f.get("q", "lambda"))
        return fr

    def live(self, sts):
        for s in sts:
            s.g.uniq()
        sts = [s for s in sts if not s.g.bad]
        if len(sts) > self.maxpaths:
            raise Undecided("too many paths")
        return sts

    # ---------------------------------------------------------------- statements
    def stmt(self, s, sts):
        sts = self.live(sts)
        if s is None or not sts:
            return sts
        k = s["s"]
        fr = self.frames[-1]
        if k == "block":
            for c in s["b"]:
                sts = self.stmt(c, sts)
            return sts
        if k == "expr":
            return [x for st in sts for x, _ in self.ev(s["e"], st)]
        if k == "decl":
            for v in s["vs"]:
                sts = [x for st in sts for x in self.decl(v, st)]
            return sts
        if k == "if":
            if s.get("init"):
                sts = self.stmt(s["init"], sts)
            T, F = self.conds(s["c"], sts)
            return self.stmt(s["t"], T) + (self.stmt(s["e"], F) if s.get("e") else F)
        if k == "return":
            for st in sts:
                if s.get("e"):
                    fr["ret"] += [(x, v, s.get("l")) for x, v in self.ev(s["e"], st)]
                else:
                    fr["ret"].append((st, U, s.get("l")))
            return []
        if k == "break":
            fr["loop"][-1]["brk"] += sts
            return []
        if k == "continue":
            fr["loop"][-1]["cont"] += sts
            return []
        if k in ("for", "while", "do", "rfor"):
            return [x for st in sts for x in self.loop(s, st)]
        if k == "try":
            return self.stmt(s["b"], sts)
        if k == "switch":
            raise Undecided("switch")
        return sts

    def decl(self, v, st):
        fr = self.frames[-1]
        key = (fr["id"], v["d"])
        if not v.get("i"):
            st.env[key] = D
            return [st]
        if v["t"].rstrip().endswith("&") and not v["t"].startswith("const ") and self.isslot(v["i"]) == "idx":
            raise Undecided("reference to a pointer")
        out = []
        for x, val in self.ev(v["i"], st):
            x.env[key] = val
            for i, b in enumerate(v.get("binds") or []):
                x.env[(fr["id"], b["d"])] = val[1][i] if val[0] == "T" and i < len(val[1]) else U
            out.append(x)
        return out

    def assigned(self, s):
        ds = set()
        for e in list(walk_stmt(s["b"])) + list(walk(s["inc"]) if s.get("inc") else []) + list(walk(s["c"]) if s.get("c") else []):
            t = None
            if e.get("k") == "asg":
                t = strip(e["a"][0])
            elif e.get("k") == "un" and e["op"][:2] in ("++", "--"):
                t = strip(e["a"][0])
            elif e.get("k") == "call" and e.get("op") in ("=", "+=", "-=", "++", "--") and e.get("o") is not None:
                t = strip(e["o"])
            elif e.get("k") == "call" and e.get("cn") in ("push_back", "emplace_back", "insert", "emplace", "push", "erase", "clear", "pop_back") and e.get("o") is not None:
                t = strip(e["o"])
            if t is not None and t.get("k") == "ref":
                ds.add(t["d"])
        return ds

    def setlocal(self, st, d, v):
        for fr in reversed(self.frames):
            if (fr["id"], d) in st.env:
                st.env[(fr["id"], d)] = v
                return
        st.env[(self.frames[-1]["id"], d)] = v

    def getlocal(self, st, d):
        fr = self.frames[-1]
        while fr is not None:
            if (fr["id"], d) in st.env:
                return st.env[(fr["id"], d)]
            fr = fr.get("lam")
        return U

    # ---------------------------------------------------------------- loops
    def loop(self, s, st):
        k = s["s"]
        fr = self.frames[-1]
        if k == "do" and strip(s["c"]).get("k") == "lit" and strip(s["c"])["v"] in ("0", "false"):
            l = {"brk": [], "cont": []}
            fr["loop"].append(l)
            out = self.stmt(s["b"], [st])
            fr["loop"].pop()
            return out + l["brk"] + l["cont"]
        if k == "rfor":
            out = []
            for x, r in self.ev(s["r"], st):
                out += self.rangefor(s, x, r)
            return out
        if k in ("while", "do"):
            r = self.walkloop(s, st)
            if r is not None:
                return r
        return self.otherloop(s, st)

    def body(self, s, st):
        """-> (states at the end of the body, break states); continue states count as end"""
        fr = self.frames[-1]
        l = {"brk": [], "cont": []}
        fr["loop"].append(l)
        out = self.stmt(s["b"], [st])
        fr["loop"].pop()
        return self.live(out + l["cont"]), self.live(l["brk"])

    def rangefor(self, s, st, r):
        fr = self.frames[-1]
        key = (fr["id"], s["v"]["d"])
        if r[0] == "T":
            cur, brk = [st], []
            for it in r[1]:
                nx = []
                for x in cur:
                    x.env[key] = it
                    a, b = self.body(s, x)
                    nx += a
                    brk += b
                cur = nx
            return cur + brk
        if r[0] == "R":          # orbit range: ('R', pred, kind)
            return self.anyloop(s, st, r[1], key)
        if r[0] == "A":          # collected: ('A', pred)
            return self.anyloop(s, st, r[1], key)
        raise Undecided("range loop over an unknown sequence")

    def anyelement(self, st, pred):
        g = st.g.const("h", "a halfedge of the orbit")
        k = pred[0]
        if k == "out":
            st.g.put("v", g, pred[1])
        elif k == "in":
            st.g.put("v", st.g.mk("tw", g), pred[1])
        elif k == "face":
            st.g.put("f", g, pred[1])
        elif k == "twin":
            st.g.put("e", g, pred[1])
        return g

    def anyloop(self, s, st, pred, key):
        if pred is None:
            pre = st.copy()
            ds = self.assigned(s)
            x = st.copy()
            x.env[key] = U
            ends, brks = self.body(s, x)
            for e in ends + brks:
                if e.nwrites() != pre.nwrites() or e.dead != pre.dead:
                    raise Undecided("update in a loop over an unknown range")
            for d in ds:
                if pre.env.get((self.frames[-1]["id"], d), U)[0] != "U":
                    self.setlocal(pre, d, U)
            return [pre]
        pre = st.copy()
        x = st.copy()
        g = self.anyelement(x, pred)
        n0 = x.ver()
        x.env[key] = E(g)
        saved, self.any = self.any, (g, pred)
        ends, brks = self.body(s, x)
        self.any = saved
        out = []
        wrote = [e for e in ends if e.nwrites() != pre.nwrites() or e.dead != pre.dead]
        quiet = [e for e in ends if not (e.nwrites() != pre.nwrites() or e.dead != pre.dead)]
        ds = self.assigned(s)
        for b in brks:
            if b.nwrites() != pre.nwrites():
                raise Undecided("update before break")
            out.append(b)        # a witness was found
        if wrote:
            if len(wrote) > 1 or quiet:
                raise Undecided("conditional update in an orbit loop")
            e = wrote[0]
            post = pre.copy()
            post.tick, post.cnt = e.tick, e.cnt
            if e.dead != pre.dead:
                raise Undecided("deletion in an orbit loop")
            for fld in e.w:
                for kind, kx, val, line in e.w[fld][n0[fld]:]:
                    if kind != "w":
                        raise Undecided("nested universal update")
                    kx, val = e.g.find(kx), e.g.find(val)
                    if val >= len(post.g.uf):
                        raise Undecided("value depends on the element")
                    if kx == e.g.find(g):
                        post.univ(fld, pred, val, line)
                    elif kx == e.g.mk("tw", g):
                        post.univ(fld, ("key", pred), val, line)
                    else:
                        raise Undecided("update keyed by another element")
            out.append(post)
        changed = lambda q: [kk for kk in q.env if kk in pre.env and kk[1] in ds and q.env[kk] != pre.env[kk]]
        coll = {kk for q in quiet for kk in changed(q) if q.env[kk][0] == "A"}
        if coll:
            # a loop that collects the orbit (all of it, or an unknown part)
            for q in quiet:
                for kk in coll:
                    if q.env[kk][0] != "A":
                        coll = None
                        break
                if coll is None:
                    break
            post = pre.copy()
            for q in quiet:
                for kk in changed(q):
                    post.env[kk] = q.env[kk] if coll and kk in coll else U
            return out + [post]
        found = [q for q in quiet if changed(q)]
        for q in found:
            for kk in changed(q):
                if q.env[kk][0] != "E":
                    q.env[kk] = U
            out.append(q)
        if not wrote and not any(pre.env[kk] == D for q in found for kk in changed(q)):
            out.append(pre)       # nothing was found (a search whose result is still unset contradicts the mesh being valid)
        return out

    def walkloop(self, s, st):
        """a loop that moves one variable along an orbit up to an end element"""
        c = strip(s["c"])
        if not (c.get("k") in ("bin", "call") and (c.get("op") in ("!=",) or c.get("cn") == "operator!=")):
            return None
        a = c["a"] if c.get("o") is None else [c["o"]] + c["a"]
        if len(a) != 2:
            return None
        ds = self.assigned(s)
        x, y = strip(a[0]), strip(a[1])
        if not (x.get("k") == "ref" and x.get("d") in ds):
            x, y = y, x
        if not (x.get("k") == "ref" and x.get("d") in ds):
            return None
        cur = x["d"]
        start = self.getlocal(st, cur)
        if start[0] != "E":
            return None
        ends = self.ev(y, st.copy())
        if len(ends) != 1 or ends[0][1][0] != "E":
            return None
        end = ends[0][1][1]
        if end >= len(st.g.uf):
            st = ends[0][0]
        pre = st.copy()
        b = st.copy()
        g = b.g.const("h", "a halfedge of the walk")
        n0 = b.ver()
        self.setlocal(b, cur, E(g))
        outs, brks = self.body(s, b)
        outs = self.live(outs)
        if brks:
            raise Undecided("walk with break")
        steps, writes, push = set(), None, None
        for o in outs:
            ps = {}
            for d in ds:
                v0, v = self.getlocal(pre, d), self.getlocal(o, d)
                if d != cur and v0[0] in ("T", "SEQ") and v != v0:
                    n = len(v0[1])
                    ok = v[0] == v0[0] and v[1][:n] == v0[1] and len(v[1]) == n + 1 and v[1][n] == E(o.g.find(g))
                    ps[d] = ok
            if push is not None and push != ps:
                raise Undecided("conditional collection in a walk")
            push = ps
            v = self.getlocal(o, cur)
            if v[0] != "E":
                raise Undecided("walk step")
            sp = None
            for name, path in (("nx", ("nx",)), (("nx", "nx", "tw"), ("nx", "nx", "tw")), (("pv", "tw"), ("pv", "tw")), (("tw", "nx"), ("tw", "nx")), (("nx", "tw"), ("nx", "tw")), ("pv", ("pv",))):
                z = o.g.find(g)
                for q in path:
                    z = o.g.get(q, z) if z is not None else None
                if z is not None and z == o.g.find(v[1]):
                    sp = name
                    break
            if sp is None:
                raise Undecided("walk step")
            steps.add(sp)
            ws = []
            for fld in o.w:
                for kind, kx, val, line in o.w[fld][n0[fld]:]:
                    if kind != "w" or o.g.find(kx) != o.g.find(g) or o.g.find(val) >= len(pre.g.uf):
                        raise Undecided("update in a walk")
                    ws.append((fld, o.g.find(val), line))
            if o.dead != pre.dead:
                raise Undecided("deletion in a walk")
            if writes is not None and writes != ws:
                raise Undecided("conditional update in a walk")
            writes = ws
        if len(steps) != 1:
            raise Undecided("walk step")
        step = steps.pop()
        pred = ("seg", start[1], end, step, False, pre.ver())
        post = pre
        for op in ("e", "v", "f"):
            common = None
            for o in outs:
                y = o.g.get(op, g)
                xs = {next(iter(p - {y})) for p in o.g.neq if y in p and len(p) == 2} if y is not None else set()
                xs = {x for x in xs if x < len(pre.g.uf)}
                common = xs if common is None else common & xs
            for x in common or ():
                post.g.away += ((pred, op, x),)
        for fld, val, line in writes:
            post.univ(fld, pred, val, line)
        # collected elements: the walk itself
        for d in ds:
            if d == cur:
                continue
            v = self.getlocal(post, d)
            if (push or {}).get(d):
                self.setlocal(post, d, ("SEQ", v[1] + (pred,)))
                continue
            if v[0] in ("A", "D", "T", "SEQ"):
                raise Undecided("collecting walk")
            self.setlocal(post, d, U)
        self.setlocal(post, cur, E(end))
        return [post]

    def otherloop(self, s, st):
        """no effect on the mesh: locals assigned are forgotten; otherwise undecided"""
        if s["s"] == "for" and s.get("init"):
            r = self.stmt(s["init"], [st])
            if len(r) != 1:
                raise Undecided("loop initialisation")
            st = r[0]
        r = self.seqloop(s, st)
        if r is not None:
            return r
        pre = st.copy()
        b = st.copy()
        ds = self.assigned(s)
        for d in ds:
            self.setlocal(b, d, U)
        n0 = b.nwrites()
        outs, brks = self.body(s, b)
        for o in outs + brks:
            if o.nwrites() != n0 or o.dead != pre.dead or len(o.news) != len(pre.news):
                raise Undecided("mesh update in a loop")
        for d in ds:
            self.setlocal(pre, d, U)
        return [pre]

    def seqloop(self, s, st):
        """for (i = 0; i < walk.size(); i++) over halfedges collected along walks: the body is interpreted for a halfedge inside a
        walk and for the last one of every walk"""
        if s["s"] != "for" or not s.get("c"):
            return None
        c = strip(s["c"])
        if c.get("k") != "bin" or c["op"] not in ("<", "!="):
            return None
        x = strip(c["a"][0])
        if x.get("k") != "ref" or self.getlocal(st, x["d"]) != ("N", "0"):
            return None
        r = self.ev(c["a"][1], st.copy())
        if len(r) != 1 or r[0][1][0] != "SZ":
            return None
        inc = strip(s["inc"]) if s.get("inc") else {}
        if not (inc.get("k") == "un" and inc["op"][:2] == "++" and strip(inc["a"][0]).get("d") == x["d"]):
            return None
        seq = r[0][1][1]
        pieces = seq[1]
        if any(p[0] != "seg" or p[3] != "nx" for p in pieces):
            raise Undecided("loop over a mixed collection")
        ver = st.ver()
        if any(p[5] != ver for p in pieces):
            raise Undecided("the mesh changed since the walk was recorded")
        saved = getattr(self, "window", None)
        post = st.copy()
        conc = []
        n = len(pieces)
        for i, p in enumerate(pieces):
            nxt = pieces[(i + 1) % n][1]
            b = st.copy()
            g = b.g.const("h", "a halfedge of the walk")
            cases = [("mid", g, {0: lambda s, g=g: g, 1: lambda s, g=g: s.g.mk("nx", g), -1: lambda s, g=g: s.g.mk("pv", g)}),
                     ("last", None, {0: lambda s, p=p: s.g.mk("pv", p[2]), 1: lambda s, q=nxt: q, -1: lambda s, p=p: s.g.mk("pv", s.g.mk("pv", p[2]))})]
            for kind, el, offs in cases:
                b2 = b.copy()
                if kind == "last":
                    el = b2.g.mk("pv", p[2])
                used = set()
                self.window = (kind, el, offs, used)
                n0 = b2.ver()
                self.setlocal(b2, x["d"], ("IX", seq, 0))
                outs, brks = self.body(s, b2)
                self.window = saved
                if brks or len(outs) != 1:
                    raise Undecided("branching in a loop over a walk")
                o = outs[0]
                if o.dead != st.dead or o.tick != st.tick or o.cnt != st.cnt or len(o.news) != len(st.news):
                    raise Undecided("effects in a loop over a walk")
                for fld in o.w:
                    for kd, kx, val, line in o.w[fld][n0[fld]:]:
                        if kd != "w" or o.g.find(kx) != o.g.find(el):
                            raise Undecided("update keyed by another element")
                        val = o.g.find(val)
                        if kind == "mid":
                            base = o.copy()
                            base.w = dict(st.w)
                            if base.read(fld, kx) == val:
                                continue
                            if val >= len(st.g.uf):
                                if fld != "nx":
                                    raise Undecided("value depends on the element")
                                self.viol.append(("face-cycle", "the halfedges collected along a face are not linked in the order of the face", line))
                                continue
                            post.univ(fld, p[:5] + (ver,), val, line)
                        else:
                            conc.append((fld, i, val, line, o))
        for fld, i, val, line, o in conc:
            p = pieces[i]
            if val >= len(st.g.uf):
                raise Undecided("value made in the loop")
            post.write(fld, post.g.mk("pv", p[2]), val, line)
        ds = self.assigned(s)
        for d in ds:
            self.setlocal(post, d, U)
        return [post]

    # ---------------------------------------------------------------- conditions
    def conds(self, c, sts):
        T, F = [], []
        for st in sts:
            t, f = self.cond(strip(c), st)
            T += t
            F += f
        return self.live(T), self.live(F)

    def cond(self, c, st):
        c = strip(c)
        k = c.get("k")
        if k == "un" and c["op"] == "!":
            t, f = self.cond(c["a"][0], st)
            return f, t
        if k == "bin" and c["op"] in ("&&", "||"):
            t, f = self.cond(c["a"][0], st)
            if c["op"] == "&&":
                t2, f2 = self.conds(c["a"][1], t)
                return t2, f + f2
            t2, f2 = self.conds(c["a"][1], f)
            return t + t2, f2
        if k == "lit":
            return ([st], []) if c["v"] in ("true", "1") else ([], [st])
        if (k == "bin" and c["op"] in ("==", "!=")) or (k == "call" and c.get("cn") in ("operator==", "operator!=")):
            op = c["op"] if k == "bin" else c["cn"][8:]
            a = c["a"] if c.get("o") is None else [c["o"]] + c["a"]
            d = self.degree(a[0], a[1], st)
            if d is not None:
                T, F = d
                return (T, F) if op == "==" else (F, T)
            T, F = [], []
            for s1, x in self.ev(a[0], st):
                for s2, y in self.ev(a[1], s1):
                    if x[0] == "OR" and y[0] == "OR":
                        t = x[1] == y[1] if True else None
                        # two halfedges of one edge have opposite orientations
                        g = s2.g
                        if g.find(x[1]) == g.find(y[1]):
                            T.append(s2)
                        else:
                            F.append(s2)
                        continue
                    if x[0] == "E" and y[0] == "E":
                        a1, b1 = s2.g.find(x[1]), s2.g.find(y[1])
                        if a1 == b1:
                            T.append(s2)
                        elif s2.g.differ(a1, b1) or self.isaway(s2, a1, b1):
                            F.append(s2)
                        else:
                            s3 = s2.copy()
                            s2.g.union(a1, b1)
                            s3.g.setneq(a1, b1)
                            T += self.sides(s2, a1)
                            F.append(s3)
                    elif x == D and y == D:
                        T.append(s2)
                    elif (x == D and y[0] == "E") or (y == D and x[0] == "E"):
                        F.append(s2)
                    else:
                        T.append(s2.copy())
                        F.append(s2)
            return (T, F) if op == "==" else (F, T)
        if k == "bin" and c["op"] in ("<", ">", "<=", ">="):
            d = self.degcmp(c, st)
            if d is not None:
                return d
        T, F = [], []
        for s1, v in self.ev(c, st):
            if v[0] == "B":
                if v[1] is True:
                    T.append(s1)
                elif v[1] is False:
                    F.append(s1)
                else:
                    T.append(s1.copy())
                    F.append(s1)
            elif v[0] == "P":      # predicate not decided yet: ('P', kind, element)
                t, f = self.split(v, s1)
                T += t
                F += f
            elif v[0] == "NP":
                t, f = self.split(v[1], s1)
                T += f
                F += t
            else:
                T.append(s1.copy())
                F.append(s1)
        return T, F

    def isaway(self, st, a, b):
        for pred, op, x in st.g.away:
            for p, q in ((a, b), (b, a)):
                if st.g.find(x) != st.g.find(q):
                    continue
                for (o, z), y in list(st.g.tab.items()):
                    if o == op and st.g.find(y) == st.g.find(p) and st.member(pred, st.g.find(z)):
                        return True
        return False

    def sides(self, st, x):
        """an edge has two halfedges: all halfedges known to lie on it are one of them or its twin"""
        if st.g.info[st.g.find(x)][0] != "e" or st.g.bad:
            return [st]
        sts = [st]
        zs = [z for (op, z), y in st.g.tab.items() if op == "e" and st.g.find(y) == st.g.find(x)]
        for z in zs[1:]:
            nx = []
            for s in sts:
                if s.g.find(z) in (s.g.find(zs[0]), s.g.mk("tw", zs[0])):
                    nx.append(s)
                    continue
                s2 = s.copy()
                s.g.union(z, zs[0])
                s2.g.union(z, s2.g.mk("tw", zs[0]))
                nx += [s, s2]
            sts = self.live(nx)
        return sts

    def split(self, v, st):
        _, kind, x = v
        if kind == "bl":
            b = st.g.isbl(x)
            if b is not None:
                return ([st], []) if b else ([], [st])
            s2 = st.copy()
            st.g.setbl(x, True)
            s2.g.setbl(x, False)
            return [st], [s2]
        if kind == "bdv":     # vertex is on the boundary
            h = st.read("vh", x)
            if h is None:
                return [st.copy()], [st]
            h = st.g.mk("tw", h)
            f = st.read("f", h)
            if f is None:
                return [st.copy()], [st]
            # v.halfedge()'s twin is exterior iff the vertex is on the boundary
            clean = not st.w["vh"] and not st.w["f"]
            b = st.g.isbl(f)
            if b is None and clean and st.g.find(x) in st.g.inner:
                b = False
            if b is None:
                for (op, z), y in st.g.tab.items():
                    if clean and op == "v" and st.g.find(y) == st.g.find(x) and st.g.get("f", z) is not None and st.g.isbl(st.g.get("f", z)):
                        b = True
            if b is not None:
                if b:
                    st.g.setbl(f, True)
                elif clean:
                    st.g.setinner(x)
                return ([st], []) if b else ([], [st])
            s2 = st.copy()
            st.g.setbl(f, True)
            s2.g.setbl(f, False)
            if clean:
                s2.g.setinner(x)
            return [st], [s2]
        if kind == "tri":
            if st.g.find(x) in st.g.tri:
                return [st], []
            s2 = st.copy()
            st.g.settri(x)
            return [st], [s2]
        raise Undecided(kind)

    def degof(self, e, st):
        e = strip(e)
        if e.get("k") not in ("call", "ref"):
            return None
        r = self.ev(e, st.copy())
        return r[0][1][1] if len(r) == 1 and r[0][1][0] == "DEG" else None

    def num(self, e):
        e = strip(e)
        if e.get("k") == "lit":
            try:
                return int(e["v"])
            except ValueError:
                return None

    def degcut(self, st, w, lo, hi):
        """restrict the degree of a vertex to [lo, hi]; None if impossible"""
        l, h = st.g.bnd.get(st.g.find(w), (1, 10 ** 9))
        l, h = max(l, lo), min(h, hi)
        if l > h:
            return []
        s = st.copy()
        s.g.bnd[s.g.find(w)] = (l, h)
        if l == h and l <= 3 and not s.nwrites():
            s.g.setdeg(w, l)
        return self.live([s])

    def degree(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            n = self.num(y)
            w = self.degof(x, st) if n is not None else None
            if w is not None:
                return self.degcut(st, w, n, n), self.degcut(st, w, n + 1, 10 ** 9) + self.degcut(st, w, 0, n - 1)
        return None

    def degcmp(self, c, st):
        op = c["op"]
        n, w = self.num(c["a"][1]), None
        if n is not None:
            w = self.degof(c["a"][0], st)
        else:
            n = self.num(c["a"][0])
            if n is not None:
                w = self.degof(c["a"][1], st)
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        if w is None:
            return None
        T = {"<": (0, n - 1), "<=": (0, n), ">": (n + 1, 10 ** 9), ">=": (n, 10 ** 9)}[op]
        F = {"<": (n, 10 ** 9), "<=": (n + 1, 10 ** 9), ">": (0, n), ">=": (0, n - 1)}[op]
        return self.degcut(st, w, *T), self.degcut(st, w, *F)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        e = strip(e)
        k = e.get("k")
        if k == "ref":
            if e.get("dk") in ("local", "param"):
                return [(st, self.getlocal(st, e["d"]))]
            return [(st, ("INV",) if (e.get("n") or "").endswith("INVALID_IND") else U)]
        if k == "value":
            return [(st, e["v"])]
        if k == "lit":
            if e["v"] in ("true", "false"):
                return [(st, ("B", e["v"] == "true"))]
            return [(st, ("N", e["v"]))]
        if k == "this":
            return [(st, ("THIS",))]
        if k == "mem":
            return [(st, ("M", e["q"].rsplit("::", 1)[-1]) if e["q"].startswith(S + "SurfaceMesh::") or e["q"].startswith(S + "ManifoldSurfaceMesh::") else U)]
        if k in ("idx",) or (k == "call" and e.get("cn") in ("operator[]", "at") and e.get("o") is not None and len(e["a"]) == 1):
            a = e["a"] if k == "idx" else [e["o"]] + e["a"]
            out = []
            for s1, b in self.ev(a[0], st):
                for s2, i in self.ev(a[1], s1):
                    out += self.index(s2, b, i, e)
            return out
        if k == "asg":
            return self.assign(e["a"][0], e["a"][1], e["op"], st, e.get("l"))
        if k == "un":
            op = e["op"]
            if op[:2] in ("++", "--"):
                t = strip(e["a"][0])
                if t.get("k") == "mem":
                    st = st.copy()
                    if t["q"].endswith("modificationTick"):
                        st.tick += 1
                    elif t["q"].endswith("nInteriorHalfedgesCount"):
                        st.cnt += 1 if op[:2] == "++" else -1
                    elif t["q"].rsplit("::", 1)[-1].startswith("n") and t["q"].startswith(S):
                        raise Undecided("count changed directly")
                    return [(st, U)]
                if t.get("k") == "ref" and t.get("dk") in ("local", "param"):
                    self.setlocal(st, t["d"], U)
                return [(st, U)]
            if op == "!":
                out = []
                for s1, v in self.ev(e["a"][0], st):
                    if v[0] == "B" and v[1] is not None:
                        out.append((s1, ("B", not v[1])))
                    elif v[0] in ("P",):
                        out.append((s1, ("NP", v)))
                    elif v[0] == "NP":
                        out.append((s1, v[1]))
                    else:
                        out.append((s1, U))
                return out
            return [(x, v if op in ("*", "&", "+") else U) for x, v in self.ev(e["a"][0], st)]
        if k == "bin":
            if e["op"] in ("&&", "||", "==", "!="):
                T, F = self.cond(e, st)
                return [(x, ("B", True)) for x in self.live(T)] + [(x, ("B", False)) for x in self.live(F)]
            return [(x, self.arith(e["op"], vs[1])) for x, vs in self.tup(e["a"], st)]
        if k == "cond":
            T, F = self.conds(e["a"][0], [st])
            return [r for x in T for r in self.ev(e["a"][1], x)] + [r for x in F for r in self.ev(e["a"][2], x)]
        if k == "lam":
            return [(st, ("LAM", e, self.frames[-1]))]
        if k == "throw":
            return []
        if k == "ctor" and any(a.get("k") == "defarg" for a in e.get("a") or []):
            e = dict(e, a=[a for a in e["a"] if a.get("k") != "defarg"])
        if k == "init" or (k == "ctor" and len(e.get("a") or []) == 1 and strip(e["a"][0]).get("k") == "init"):
            it = e if k == "init" else strip(e["a"][0])
            return self.tup(it.get("a") or [], st)
        if k == "ctor":
            c = e.get("c") or e.get("t") or ""
            args = e.get("a") or []
            if c.startswith("std::tuple") or c.startswith("std::pair"):
                return self.tup(args, st)
            if c.startswith(S) and c.rsplit("::", 1)[-1] in ("Vertex", "Halfedge", "Edge", "Face", "BoundaryLoop", "Corner"):
                if not args:
                    return [(st, D)]
                r = self.tup(args, st)
                return [(x, v[1][-1] if v[1][-1][0] in ("E", "INV") else (v[1][0] if len(v[1]) == 1 else U)) for x, v in r]
            if c.startswith("std::function") and len(args) == 1:
                return self.ev(args[0], st)
            if c.startswith("std::vector") and not args:
                return [(st, ("T", ()))]
            r = self.tup(args, st)
            if len(args) == 1:
                return [(x, v[1][0]) for x, v in r]
            return [(x, U) for x, v in r]
        if k == "call":
            return self.call(e, st)
        if k in ("cast",):
            return self.ev(e["a"][0], st) if e.get("a") else [(st, U)]
        from ir import kids
        out = [st]
        for c in kids(e):
            out = [x for s in out for x, _ in self.ev(c, s)]
        return [(x, U) for x in out]

    def arith(self, op, vs):
        """index arithmetic modulo the length of a collected walk"""
        a, b = vs
        if op == "%" and a[0] == "IX" and b == ("SZ", a[1]):
            return ("IX", a[1], a[2] - a[3] if len(a) > 3 else a[2])
        if op in ("+", "-") and a[0] == "IX" and len(a) == 3:
            if b[0] == "N" and b[1].isdigit():
                return ("IX", a[1], a[2] + int(b[1]) * (1 if op == "+" else -1), 0)
            if b == ("SZ", a[1]) and op == "+":
                return ("IX", a[1], a[2], 0)
        if op in ("+", "-") and a[0] == "IX" and b[0] == "N" and b[1].isdigit():
            return ("IX", a[1], a[2] + int(b[1]) * (1 if op == "+" else -1), 0)
        if op == "+" and b[0] == "IX" and a == ("SZ", b[1]):
            return ("IX", b[1], b[2], 0)
        return U

    def tup(self, args, st):
        out = [(st, ())]
        for a in args:
            out = [(y, vs + (v,)) for x, vs in out for y, v in self.ev(a, x)]
        return [(x, ("T", vs)) for x, vs in out]

    def index(self, st, b, i, e):
        if b[0] == "M":
            fld = FIELDS.get(b[1])
            if fld is None:
                return [(st, U)]
            if i[0] != "E":
                raise Undecided("pointer array indexed by an unknown value")
            return [(st, self.rd(st, fld, i[1]))]
        if b[0] == "SEQ":
            if i[0] == "N" and i[1] == "0":
                x = b[1][0]
                return [(st, E(x[1]) if x[0] == "seg" else x)]
            if i[0] == "IX" and i[1] == b and len(i) == 3:
                r = self.window[2].get(i[2])
                if r is None:
                    raise Undecided("index outside the window")
                self.window[3].add(i[2])
                return [(st, E(st.g.find(r(st))))]
            raise Undecided("index into a collected walk")
        if b[0] == "T" and i[0] == "N":
            try:
                return [(st, b[1][int(i[1])])]
            except (ValueError, IndexError):
                return [(st, U)]
        return [(st, U)]

    def rd(self, st, fld, x):
        v = st.read(fld, x)
        return ("UNDEF",) if v is None else E(v)

    def assign(self, lhs, rhs, op, st, line):
        lhs = strip(lhs)
        out = []
        for s1, v in self.ev(rhs, st):
            if lhs.get("k") == "ref" and lhs.get("dk") in ("local", "param"):
                self.setlocal(s1, lhs["d"], v if op == "=" else U)
                out.append((s1, v))
                continue
            if lhs.get("k") == "mem":
                q = lhs["q"].rsplit("::", 1)[-1]
                s1 = s1.copy()
                if q == "modificationTick":
                    s1.tick += 1
                elif q == "nInteriorHalfedgesCount":
                    n = v[1] if v[0] == "N" else None
                    if n is None or op not in ("+=", "-="):
                        raise Undecided("interior count")
                    s1.cnt += int(n) if op == "+=" else -int(n)
                elif q.startswith("n") and lhs["q"].startswith(S):
                    raise Undecided("count changed directly")
                elif q in FIELDS:
                    raise Undecided("whole array assigned")
                out.append((s1, v))
                continue
            if lhs.get("k") == "idx" or (lhs.get("k") == "call" and lhs.get("cn") in ("operator[]", "at")):
                a = lhs["a"] if lhs.get("k") == "idx" else [lhs["o"]] + lhs["a"]
                for s2, b in self.ev(a[0], s1):
                    for s3, i in self.ev(a[1], s2):
                        if b[0] == "M" and b[1] in FIELDS:
                            if i == D or v == D:
                                s3.g.bad = True      # a search that finds nothing: excluded by the mesh being valid
                                self.dropped += 1
                                continue
                            if i[0] != "E" or v[0] != "E" or op != "=":
                                raise Undecided("pointer write with an unknown operand at line %s" % line)
                            s3 = s3.copy()
                            s3.write(FIELDS[b[1]], i[1], v[1], line)
                        elif b[0] == "M" and b[1].endswith("Arr"):
                            raise Undecided("write to " + b[1])
                        out.append((s3, v))
                continue
            if lhs.get("k") == "call" and lhs.get("cn") == "tie":
                for j, t in enumerate(lhs["a"]):
                    t = strip(t)
                    if t.get("k") == "ref":
                        self.setlocal(s1, t["d"], v[1][j] if v[0] == "T" and j < len(v[1]) else U)
                out.append((s1, v))
                continue
            out.append((s1, v))
        return out

    # ---------------------------------------------------------------- calls
    def call(self, e, st):
        cn, f = e.get("cn") or "", e.get("f") or ""
        if cn == "operator=" and e.get("o") is not None and len(e["a"]) == 1:
            return self.assign(e["o"], e["a"][0], "=", st, e.get("l"))
        if cn in ("operator==", "operator!="):
            T, F = self.cond(e, st)
            return [(x, ("B", True)) for x in self.live(T)] + [(x, ("B", False)) for x in self.live(F)]
        if f in ("std::move", "std::forward", "std::as_const"):
            return self.ev(e["a"][0], st)
        slots = [a for a in e.get("a") or [] if self.isslot(a)]
        if f == "std::swap" or (cn == "swap" and len(e["a"]) == 2):
            a, b = strip(e["a"][0]), strip(e["a"][1])
            if len(slots) == 2 and all(self.isslot(x) == "idx" for x in (a, b)):
                out = []
                for s1, x in self.ev(a, st):
                    for s2, y in self.ev(b, s1):
                        for s3, _ in self.assign(a, {"k": "value", "v": y}, "=", s2, e.get("l")):
                            out += [(s4, U) for s4, _ in self.assign(b, {"k": "value", "v": x}, "=", s3, e.get("l"))]
                return out
            if a.get("k") == "ref" and b.get("k") == "ref":
                x, y = self.getlocal(st, a["d"]), self.getlocal(st, b["d"])
                self.setlocal(st, a["d"], y)
                self.setlocal(st, b["d"], x)
            return [(st, U)]
        if cn in ("make_tuple", "make_pair"):
            return self.tup(e["a"], st)
        if cn == "get" and f.startswith("std::get") and e.get("ta"):
            out = []
            for s1, v in self.ev(e["a"][0], st):
                try:
                    out.append((s1, v[1][int(e["ta"][0])] if v[0] == "T" else U))
                except (ValueError, IndexError, TypeError):
                    out.append((s1, U))
            return out
        fn = self.P.fns.get(e.get("m"))
        if slots and cn not in ("operator[]", "operator==", "operator!=", "min", "max", "to_string"):
            for i, a in enumerate(e.get("a") or []):
                ty = fn["ps"][i]["t"] if fn is not None and i < len(fn["ps"]) else "&"
                if self.isslot(a) and ty.rstrip().endswith("&") and not ty.startswith("const ") and not e.get("fe"):
                    raise Undecided("pointer array passed by reference at line %s" % e.get("l"))
        out = []
        o = e.get("o")
        if o is not None and self.isslot(o) == "mem" and not e.get("const") and cn != "operator[]":
            raise Undecided("pointer array updated by %s at line %s" % (cn, e.get("l")))
        objs = self.ev(o, st) if o is not None else [(st, None)]
        for s1, ov in objs:
            for s2, args in self.tup(e.get("a") or [], s1):
                out += self.method(e, s2, ov, args[1], f, cn)
        return out

    def method(self, e, st, o, args, f, cn):
        g = st.g
        cls = f.rsplit("::", 1)[0]
        last = cls.rsplit("::", 1)[-1]
        line = e.get("l")
        # lambda
        if o is not None and o[0] == "LAM" and cn == "operator()":
            return self.inl(o[1], st, args, lam=o, exprs=e.get("a"))
        if cn in ("getIndex",) and o is not None:
            return [(st, o)]
        if o is not None and o[0] == "E":
            x = o[1]
            if last == "Halfedge":
                if cn in ("twin", "sibling"):
                    return [(st, E(g.mk("tw", x)))]
                if cn == "edge":
                    return [(st, E(g.mk("e", x)))]
                if cn in ("next", "vertex", "face", "tailVertex"):
                    return [(st, self.rd(st, {"next": "nx", "vertex": "v", "tailVertex": "v", "face": "f"}[cn], x))]
                if cn == "tipVertex":
                    n = st.read("nx", x)
                    return [(st, ("UNDEF",) if n is None else self.rd(st, "v", n))]
                if cn in ("prevOrbitFace", "prevOrbitVertex"):
                    p = st.prev(x)
                    return [(st, ("UNDEF",) if p is None else E(p))]
                if cn == "nextOutgoingNeighbor":
                    return [(st, self.rd(st, "nx", g.mk("tw", x)))]
                if cn == "nextIncomingNeighbor":
                    n = st.read("nx", x)
                    return [(st, ("UNDEF",) if n is None else E(g.mk("tw", n)))]
                if cn == "corner":
                    return [(st, o)]
                if cn == "isInterior":
                    v = st.read("f", x)
                    return [(st, U if v is None else ("NP", ("P", "bl", v)))]
                if cn == "orientation":
                    return [(st, ("OR", g.find(x)))]
            if last == "Corner":
                if cn == "halfedge":
                    return [(st, o)]
                if cn in ("vertex", "face"):
                    return [(st, self.rd(st, {"vertex": "v", "face": "f"}[cn], x))]
            if last == "Vertex":
                if cn == "halfedge":
                    return [(st, self.rd(st, "vh", x))]
                if cn == "isBoundary":
                    return [(st, ("P", "bdv", x))]
                if cn == "outgoingHalfedges":
                    return [(st, ("R", ("out", x, st.ver())))]
                if cn == "incomingHalfedges":
                    return [(st, ("R", ("in", x, st.ver())))]
                if cn.startswith("adjacent"):
                    return [(st, ("R", None))]
                if cn == "degree" and not st.nwrites():
                    return [(st, ("DEG", x))]
                return [(st, U)]
            if last in ("Face", "BoundaryLoop"):
                if cn == "halfedge":
                    return [(st, self.rd(st, "fh", x))]
                if cn in ("asFace", "asBoundaryLoop"):
                    return [(st, o)]
                if cn == "isBoundaryLoop":
                    return [(st, ("P", "bl", x))]
                if cn == "isTriangle":
                    return [(st, ("P", "tri", x))]
                if cn == "adjacentHalfedges":
                    return [(st, ("R", ("face", x, st.ver())))]
                if cn.startswith("adjacent"):
                    return [(st, ("R", None))]
                return [(st, U)]
            if last == "Edge":
                if cn in ("halfedge", "firstVertex", "secondVertex", "isBoundary"):
                    out = []
                    for s2, h in self.edgehe(st, x):
                        if cn == "halfedge":
                            out.append((s2, E(h)))
                        elif cn == "isBoundary":
                            fs = [s2.read("f", h), s2.read("f", s2.g.mk("tw", h))]
                            for s3 in [s2]:
                                if None in fs:
                                    out.append((s3, U))
                                    continue
                                b0, b1 = s3.g.isbl(fs[0]), s3.g.isbl(fs[1])
                                if b0 or b1:
                                    out.append((s3, ("B", True)))
                                elif b0 is False:
                                    out.append((s3, ("P", "bl", fs[1])))
                                elif b1 is False:
                                    out.append((s3, ("P", "bl", fs[0])))
                                else:
                                    for T in self.split(("P", "bl", fs[0]), s3)[0]:
                                        out.append((T, ("B", True)))
                                    for F in self.split(("P", "bl", fs[0]), s3)[1]:
                                        out.append((F, ("P", "bl", fs[1])))
                        else:
                            y = h if cn == "firstVertex" else s2.g.mk("tw", h)
                            out.append((s2, self.rd(s2, "v", y)))
                    return out
                return [(st, U)]
        if cn == "size" and o is not None and o[0] in ("SEQ",):
            return [(st, ("SZ", o))]
        # collections
        if cn in ("push_back", "emplace_back") and o is not None and e.get("o") is not None:
            t = strip(e["o"])
            if t.get("k") == "ref":
                v = args[0] if args else U
                if self.any is not None and v[0] == "E" and v[1] == self.any[0] and o in (("T", ()), D):
                    self.setlocal(st, t["d"], ("A", self.any[1]))
                elif self.any is None and o[0] in ("T", "SEQ"):
                    self.setlocal(st, t["d"], (o[0], o[1] + (v,)))
                elif o[0] == "A" and self.any is not None and self.any[1] == o[1]:
                    pass
                else:
                    self.setlocal(st, t["d"], U)
            return [(st, U)]
        # mesh primitives
        if cls in (S + "SurfaceMesh", S + "ManifoldSurfaceMesh"):
            r = self.prim(e, st, args, cn, line)
            if r is not None:
                return r
            if self.inline(f):
                fn = self.P.fns.get(e.get("m"))
                if fn is not None and fn.get("body"):
                    return self.inl(fn, st, args, exprs=e.get("a"))
            if not e.get("const"):
                raise Undecided("call to " + short(f))
            return [(st, U)]
        fn = self.P.fns.get(e.get("m"))
        if fn is not None and fn.get("body") and o is None and not f.startswith("std::") and fn["f"].find("src/surface/") >= 0:
            return self.inl(fn, st, args, exprs=e.get("a"))
        return [(st, U)]

    def edgehe(self, st, x):
        """first halfedge of an edge: if a halfedge y of it is known, either y or its twin"""
        h = st.g.get("eh", x)
        if h is None:
            ys = [z for (op, z), y in st.g.tab.items() if op == "e" and st.g.find(y) == st.g.find(x)]
            h = st.g.mk("eh", x)
            if ys:
                y = st.g.find(ys[0])
                s2 = st.copy()
                st.g.union(h, y)
                s2.g.union(h, s2.g.mk("tw", y))
                return [(s, s.g.find(h)) for s in self.live([st, s2])]
        return [(st, st.g.find(h))]

    def prim(self, e, st, args, cn, line):
        if cn == "getNewVertex":
            st = st.copy()
            n = st.g.const("v", "the new vertex (line %s)" % line, True)
            st.news += (("v", n, None, line),)
            st.tick += 1
            return [(st, E(n))]
        if cn == "getNewFace" or cn == "getNewBoundaryLoop":
            st = st.copy()
            n = st.g.const("f", "the new %s (line %s)" % ("face" if cn == "getNewFace" else "boundary loop", line), True)
            st.g.setbl(n, cn != "getNewFace")
            st.news += (("f", n, None, line),)
            st.tick += 1
            return [(st, E(n))]
        if cn == "getNewEdgeTriple":
            st = st.copy()
            n = st.g.const("h", "the new halfedge (line %s)" % line, True)
            t = st.g.mk("tw", n)
            ed = st.g.mk("e", n)
            st.g.tab[("eh", st.g.find(ed))] = n
            b = args[0] if args else U
            out = []
            if b[0] in ("P", "NP"):
                T, F = self.split(b if b[0] == "P" else b[1], st)
                if b[0] == "NP":
                    T, F = F, T
                for x in T:
                    x.news += (("h", n, True, line),)
                    x.tick += 1
                    out.append((x, E(n)))
                for x in F:
                    x.news += (("h", n, False, line),)
                    x.tick += 1
                    out.append((x, E(n)))
                return out
            st.news += (("h", n, b[1] if b[0] == "B" else None, line),)
            st.tick += 1
            return [(st, E(n))]
        if cn == "deleteEdgeBundle":
            if args[0][0] != "E":
                raise Undecided("deletion of an unknown edge")
            out = []
            for s2, h in self.edgehe(st, args[0][1]):
                s2 = s2.copy()
                s2.dead += ((s2.g.find(args[0][1]), "e"), (h, "h"), (s2.g.mk("tw", h), "h"))
                for x in (h, s2.g.mk("tw", h)):
                    fx = s2.read("f", x)
                    if fx is not None:
                        s2.dcnt += ((x, fx, line),)
                s2.tick += 1
                out.append((s2, U))
            return out
        if cn == "deleteElement":
            if args[0][0] != "E":
                raise Undecided("deletion of an unknown element")
            st = st.copy()
            srt = st.g.info[st.g.find(args[0][1])][0]
            st.dead += ((st.g.find(args[0][1]), srt),)
            st.tick += 1
            return [(st, U)]
        if cn == "usesImplicitTwin":
            return [(st, ("B", True))]
        if cn == "boundaryLoopIndToFaceInd" or cn == "faceIndToBoundaryLoopInd":
            return [(st, args[0])]
        if cn in ("heNext", "heVertex", "heFace", "vHalfedge", "fHalfedge") and args and args[0][0] == "E":
            return [(st, self.rd(st, {"heNext": "nx", "heVertex": "v", "heFace": "f", "vHalfedge": "vh", "fHalfedge": "fh"}[cn], args[0][1]))]
        if cn in ("heTwin", "heSibling") and args and args[0][0] == "E":
            return [(st, E(st.g.mk("tw", args[0][1])))]
        if cn == "heEdge" and args and args[0][0] == "E":
            return [(st, E(st.g.mk("e", args[0][1])))]
        if cn == "eHalfedge" and args and args[0][0] == "E":
            return [(s, E(h)) for s, h in self.edgehe(st, args[0][1])]
        if cn == "heIsInterior" and args and args[0][0] == "E":
            v = st.read("f", args[0][1])
            return [(st, U if v is None else ("NP", ("P", "bl", v)))]
        if cn == "faceIsBoundaryLoop" and args and args[0][0] == "E":
            return [(st, ("P", "bl", args[0][1]))]
        if cn in ("halfedge", "vertex", "face", "edge", "boundaryLoop") and args and args[0][0] == "E":
            return [(st, args[0])]
        return None

    def isslot(self, e):
        """a pointer array of the mesh, or one entry of it"""
        e = strip(e)
        if e.get("k") == "mem":
            return "mem" if e["q"].rsplit("::", 1)[-1] in FIELDS and e["q"].startswith(S) else None
        if e.get("k") == "idx":
            return "idx" if self.isslot(e["a"][0]) else None
        if e.get("k") == "call" and e.get("cn") in ("operator[]", "at") and e.get("o") is not None:
            return "idx" if self.isslot(e["o"]) else None
        return None

    def inl(self, fn, st, args, lam=None, exprs=()):
        f = fn if lam is None else dict(ps=lam[1]["ps"], body=lam[1]["body"], q="lambda", le=lam[1].get("l"))
        fr = self.push(f, lam[2] if lam else None)
        for p, a in zip(f["ps"], args):
            st.env[(fr["id"], p["d"])] = a
        out = self.stmt(f["body"], [st])
        self.frames.pop()
        res = [(s, v) for s, v, _ in fr["ret"] if not s.g.bad] + [(s, U) for s in self.live(out)]
        for p, a in zip(f["ps"], exprs or ()):
            a = strip(a)
            if p["t"].rstrip().endswith("&") and not p["t"].startswith("const ") and a.get("k") == "ref" and a.get("dk") in ("local", "param"):
                for s, _ in res:
                    self.setlocal(s, a["d"], s.env.get((fr["id"], p["d"]), U))
        return res


# -------------------------------------------------------------------- exit obligations
def check(st, val):
    """violations of mesh validity in the state an operation leaves: [(what, text, line)]"""
    g = st.g
    out = []
    deadset = {g.find(x) for x, _ in st.dead}
    isdead = lambda x: g.find(x) in deadset

    def where(fld, x):
        for kind, key, v, line in reversed(st.w[fld]):
            if (kind == "w" and g.find(key) == g.find(x)) or (kind == "u" and st.member(key, x)):
                return line
        return None

    def bad(what, text, line=None):
        out.append((what, text, line))

    T = []

    def add(x):
        if x is not None and g.find(x) not in T:
            T.append(g.find(x))
    for fld in ("nx", "v", "f"):
        for kind, key, v, line in st.w[fld]:
            if kind == "w":
                add(key)
                if fld == "nx":
                    add(v)
    for srt, n, b, line in st.news:
        if srt == "h":
            add(n)
            add(g.mk("tw", n))
    univ = []
    for fld in ("v", "f"):
        for kind, key, v, line in st.w[fld]:
            if kind == "u" and key[0] in ("out", "in", "face"):
                x = g.const("h", "a halfedge of the orbit")
                if key[0] == "out":
                    g.put("v", x, key[1])
                elif key[0] == "in":
                    g.put("v", g.mk("tw", x), key[1])
                else:
                    g.put("f", x, key[1])
                univ.append((x, fld, key))
                add(x)
                add(g.mk("tw", x))
            elif kind == "u" and key[0] == "seg":
                add(key[1])
                add(st.prev(key[2], None, False))
    # neighbours through which a change is seen
    for x in list(T):
        if isdead(x):
            continue
        add(st.prev(x, None, not g.isnew(x)))
    for x in list(T):
        if not isdead(x):
            t = g.mk("tw", x)
            if not isdead(t) and not g.isnew(t):
                add(t)
    nm = g.name
    # 1. next / vertex / face agree
    for x in list(T):
        if isdead(x):
            continue
        n = st.read("nx", x)
        v = st.read("v", x)
        f = st.read("f", x)
        for fld, y, w in (("nx", n, "next"), ("v", v, "vertex"), ("f", f, "face")):
            if y is None:
                bad("unset:" + w, "%s is left without a %s" % (nm(x), w), where(fld, x))
            elif isdead(y):
                bad("dead:" + w, "the %s of %s is an element the operation deletes" % (w, nm(x)), where(fld, x))
        if n is None or isdead(n) or v is None or f is None:
            continue
        fn = st.read("f", n)
        if fn is not None and fn != f:
            bad("face-cycle", "%s and its next halfedge %s end up in different faces (%s, %s)" % (nm(x), nm(n), nm(f), nm(fn)), where("nx", x) or where("f", x) or where("f", n))
        t = g.mk("tw", x)
        if isdead(t):
            bad("dead:twin", "the twin of %s is deleted" % nm(x))
            continue
        vn, vt = st.read("v", n), st.read("v", t)
        if vn is not None and vt is not None and vn != vt:
            bad("vertex-cycle", "the halfedge after %s starts at %s, but its twin starts at %s" % (nm(x), nm(vn), nm(vt)), where("nx", x) or where("v", n) or where("v", t))
    # 2. next is a permutation
    src = {}
    for x in T:
        if isdead(x):
            continue
        n = st.read("nx", x)
        if n is None:
            continue
        if n in src and src[n] != x:
            bad("next-merge", "%s and %s both precede %s" % (nm(src[n]), nm(x), nm(n)), where("nx", x))
        src[n] = x
    seen = set()
    for kind, key, v, line in st.w["nx"]:
        if kind != "w":
            continue
        k = g.find(key)
        if k in seen or g.isnew(k):
            continue
        seen.add(k)
        old = g.mk("nx", k)
        if not isdead(old) and st.prev(old) is None:
            bad("next-lost", "no halfedge precedes %s any more" % nm(old), line)
    final = {}
    for kind, key, v, line in st.w["nx"]:
        if kind == "w":
            final[g.find(key)] = (g.find(v), line)
    for k, (v, line) in final.items():
        if isdead(k) or isdead(v) or g.isnew(v):
            continue
        p = g.mk("pv", v)
        if p != k and p not in final and not isdead(p) and not any(b[0] == "next-merge" for b in out):
            bad("next-merge", "%s and %s both precede %s" % (nm(k), nm(p), nm(v)), line)
    # 3. vertex and face pointers
    for fld, back, w in (("vh", "v", "vertex"), ("fh", "f", "face")):
        keys = []
        for kind, key, v, line in st.w[fld]:
            if kind == "w" and g.find(key) not in [k for k, _ in keys]:
                keys.append((g.find(key), line))
        for srt, n, b, line in st.news:
            if srt == ("v" if fld == "vh" else "f"):
                keys.append((g.find(n), line))
        done = set()
        for k, line in keys:
            if isdead(k) or k in done:
                continue
            done.add(k)
            h = st.read(fld, k)
            line = where(fld, k) or line
            if h is None:
                bad("unset:%s-halfedge" % w, "%s is left without a halfedge" % nm(k), line)
            elif isdead(h):
                bad("dead:%s-halfedge" % w, "the halfedge of %s is one the operation deletes" % nm(k), line)
            else:
                b = st.read(back, h)
                if b is not None and b != k:
                    bad("%s-halfedge" % w, "the halfedge %s set for %s belongs to %s" % (nm(h), nm(k), nm(b)), line)
    # 4. nobody else pointed at what moved away or died
    moved = [(x, srt) for x, srt in st.dead if srt == "h"] + [(x, "h") for x in T]
    did = set()
    for x, _ in moved:
        x = g.find(x)
        if x in did or g.isnew(x) or any(g.find(u[0]) == x for u in univ):
            continue
        did.add(x)
        for fld, back, w in (("vh", "v", "vertex"), ("fh", "f", "face")):
            k0 = g.mk(back, x)
            now = None if isdead(x) else st.read(back, x)
            if now == k0 or isdead(k0):
                continue
            if any(kind == "w" and g.find(key) == k0 for kind, key, v, line in st.w[fld]):
                continue
            p = g.mk(fld, k0)
            if fld == "vh":
                # a boundary vertex keeps its halfedge along the boundary
                for (op, z), y in list(g.tab.items()):
                    if op == "v" and g.find(y) == g.find(k0) and g.get("f", z) is not None and g.isbl(g.get("f", z)):
                        g.setbl(g.mk("f", g.mk("tw", p)), True)
                        break
                fx = g.mk("f", g.mk("tw", x))
                if g.isbl(g.mk("f", g.mk("tw", p))) and not g.isbl(fx) and g.find(p) != x:
                    continue
            if not g.differ(p, x):
                bad("stale:%s-halfedge" % w, "%s may keep %s as its halfedge although the operation %s it" %
                    (nm(k0), nm(x), "deletes" if isdead(x) else "moves"), where(back, x))
    # 5. boundary convention: the halfedge of a boundary vertex has an exterior twin
    for x in T:
        if isdead(x):
            continue
        f, v = st.read("f", x), st.read("v", x)
        if f is None or v is None or g.isbl(f) is not True:
            continue
        h = st.read("vh", v)
        if h is None or isdead(h):
            continue
        t = g.mk("tw", h)
        ft = st.read("f", t)
        wrote = any(kind == "w" and g.find(key) == g.find(v) for kind, key, _, _ in st.w["vh"])
        initially = any(op == "v" and g.find(y) == g.find(v) and g.get("f", z) is not None and g.isbl(g.get("f", z)) for (op, z), y in g.tab.items())
        if not wrote and initially and (ft is None or not any(kind == "w" and g.find(key) == t for kind, key, _, _ in st.w["f"])):
            continue
        if ft is None or g.isbl(ft) is not True:
            bad("boundary-halfedge", "%s is on the boundary but its halfedge %s does not run along it" % (nm(v), nm(h)), where("vh", v))
    def assume(x):
        """the state in which x is exterior, if there is one"""
        if g.isbl(g.mk("f", x)) is False:
            return None
        s2 = st.copy()
        s2.g.setbl(s2.g.mk("f", x), True)
        s2.g.uniq()
        return None if s2.g.bad else s2
    ends = {g.find(key) for kind, key, _, _ in st.w["vh"] if kind == "w"}
    for k in ends:
        if isdead(k) or g.isnew(k):
            continue
        h = st.read("vh", k)
        if h is None or isdead(h):
            continue
        s2 = assume(g.mk("tw", g.mk("vh", k)))
        if s2 is not None:
            ft = s2.read("f", s2.g.mk("tw", s2.read("vh", k)))
            if (ft is None or s2.g.isbl(ft) is not True) and not any(b[0] == "boundary-halfedge" for b in out):
                bad("boundary-halfedge", "%s may be on the boundary, and is given the halfedge %s, which does not run along it" % (nm(k), nm(h)), where("vh", k))
    for x, fld, key in univ:
        if fld != "v" or key[0] != "out" or isdead(st.read("v", x) or x):
            continue
        g.mk("vh", st.read("v", x))
        s2 = assume(x)
        if s2 is not None:
            w = s2.read("v", x)
            h = s2.read("vh", w) if w is not None else None
            ft = s2.read("f", s2.g.mk("tw", h)) if h is not None and not isdead(h) else None
            if h is not None and not isdead(h) and (ft is None or s2.g.isbl(ft) is not True) and not any(b[0] == "boundary-halfedge" for b in out):
                bad("boundary-halfedge", "%s may take over the boundary from the vertex merged into it, but its halfedge %s does not run along it" % (nm(w), nm(h)), where("v", x))
    # 6. the first halfedge of an edge is interior; interior halfedges are counted
    delta, known = 0, True
    for srt, n, b, line in st.news:
        if srt != "h":
            continue
        f0, f1 = st.read("f", n), st.read("f", g.mk("tw", n))
        if f0 is None or f1 is None:
            continue
        if g.isbl(f0) is True:
            bad("edge-exterior", "the first halfedge of the new edge (line %s) lies outside the surface" % line, line)
        delta += (g.isbl(f0) is not True) + (g.isbl(f1) is not True)
        if b is None:
            known = False
        delta -= 1 if b else 2
    for x in T:
        if isdead(x) or g.isnew(x) or any(g.find(u[0]) == x for u in univ):
            continue
        a, b = g.mk("f", x), st.read("f", x)
        if b is not None and g.isbl(b) is True and g.isbl(a) is not True and g.get("eh", g.mk("e", x)) == x:
            bad("edge-exterior", "%s, the first halfedge of its edge, ends up outside the surface" % nm(x), where("f", x))
        if a != b and b is not None:
            delta += (g.isbl(a) is True) - (g.isbl(b) is True)
    for x, fx, line in st.dcnt:
        if not g.isnew(x):
            delta += (g.isbl(fx) is not True) - (g.isbl(g.mk("f", x)) is not True)
    for x, fld, key in univ:
        if fld == "f":
            a, b = g.mk("f", x), st.read("f", x)
            if b is not None and (g.isbl(a) is True) != (g.isbl(b) is True):
                known = False
                if not st.cnt:
                    bad("interior-count", "a whole face becomes exterior but the number of interior halfedges is never adjusted")
    if known and delta != st.cnt:
        bad("interior-count", "the number of interior halfedges changes by %+d more than the stored count" % (delta - st.cnt))
    if (st.nwrites() or st.dead or st.news) and not st.tick:
        bad("tick", "the mesh changes but the modification counter does not")
    if val == D or val == ("B", False):
        if st.nwrites() or st.dead or st.news:
            bad("refusal", "the operation reports that it did nothing, after changing the mesh")
    return out
