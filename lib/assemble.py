"""Symbolic evaluation of matrix assembly.

A routine that builds a matrix is interpreted once, over symbolic mesh elements: every loop over elements becomes one generic element, values
are polynomials over atoms (a cotan weight of that halfedge, an entry of that local matrix, ...), and the entries it adds are collected as
(row, col, value) together with the loops they are in and the conditions of the path.  Halfedge expressions are normalised by the laws of a
halfedge mesh (twin twin = id, next next next = id in a triangle, vertex of twin = vertex of next, edge of twin = edge, ...), so two spellings
of the same entry coincide.  Nothing is executed on a concrete mesh."""
from fractions import Fraction
from ir import strip, kids, short, walk

CPLX = ("std::complex", "geometrycentral::Vector2", "Vector2")
ELEM = {"Halfedge": "H", "Vertex": "V", "Edge": "E", "Face": "F", "Corner": "C", "BoundaryLoop": "B"}
TRANSPORT = ("transportVectorsAlongHalfedge", "transportVectorsAcrossHalfedge")
ONE = ()


class Giveup(Exception):
    pass


# ---------------------------------------------------------------- polynomials: ('p', frozenset{(monomial, coefficient)})
def mk(d):
    return ("p", frozenset((m, c) for m, c in d.items() if c != 0))


def const(c):
    return mk({ONE: Fraction(c)})


ZERO = const(0)


def atom(a):
    return mk({(a,): Fraction(1)})


I = atom(("I",))


def isp(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "p"


def add(a, b, s=1):
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + s * c
    return mk(d)


def mono(m):
    m = sorted(m, key=repr)
    s = 1
    out = []
    i = sum(1 for x in m if x == ("I",))
    s = {0: 1, 1: 1, 2: -1, 3: -1}[i % 4]
    out = [x for x in m if x != ("I",)]
    # x * 1/x = 1
    for x in list(out):
        if isinstance(x, tuple) and x and x[0] == "inv" and x[1] in out:
            out.remove(x)
            out.remove(x[1])
    if i % 2:
        out.append(("I",))
    return tuple(sorted(out, key=repr)), s


def mul(a, b):
    d = {}
    for m, c in a[1]:
        for n, e in b[1]:
            k, s = mono(m + n)
            d[k] = d.get(k, 0) + c * e * s
    return mk(d)


def num(v):
    """the number a constant polynomial is, or None"""
    if isp(v):
        if not v[1]:
            return Fraction(0)
        if len(v[1]) == 1:
            (m, c), = v[1]
            if m == ONE:
                return c
    return None


def inv(a):
    n = num(a)
    if n is not None and n != 0:
        return const(1 / n)
    if len(a[1]) == 1:
        (m, c), = a[1]
        r = const(1 / c)
        for x in m:
            if x == ("I",):
                r = mul(r, add(ZERO, I, -1))
            elif isinstance(x, tuple) and x[0] == "inv":
                r = mul(r, atom(x[1]) if not isp(x[1]) else x[1])
            else:
                r = mul(r, atom(("inv", x)))
        return r
    return atom(("inv", a))


# ---------------------------------------------------------------- matrices: ('m', frozenset{(product, coefficient polynomial)}), product = ((atom, transposed), ...)
def mmk(d):
    return ("m", frozenset((k, v) for k, v in d.items() if v != ZERO))


def madd(a, b, s=1):
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = add(d.get(k, ZERO), v, s)
    return mmk(d)


def mmul(a, b):
    d = {}
    for k, v in a[1]:
        for k2, v2 in b[1]:
            kk = tuple(x for x in k + k2 if x[0] != ("Id",))
            if not kk:
                kk = ((("Id",), False),)
            d[kk] = add(d.get(kk, ZERO), mul(v, v2))
    return mmk(d)


def mscale(a, p):
    return mmk({k: mul(v, p) for k, v in a[1]})


def mt(a, sym=lambda x: False):
    d = {}
    for k, v in a[1]:
        kk = tuple((x, False if sym(x) else not t) for x, t in reversed(k))
        d[kk] = add(d.get(kk, ZERO), v)
    return mmk(d)


class St:
    def __init__(self, env, conds, con):
        self.env, self.conds, self.con = env, conds, con

    def copy(self):
        return St(dict(self.env), self.conds, list(self.con))


class Assembly:
    def __init__(self, P, inline=lambda f: False, tri=True, maxpaths=256):
        self.P, self.inline, self.maxpaths, self.tri = P, inline, maxpaths, tri
        self.cplx = set()
        self.n = 0
        self.links = {}          # matrix key -> triplet list key
        self.alias = {}          # field / 'return' -> value
        self.contrib = {}        # target -> [(dom, conds, row, col, value, line)]
        self.faceof = {}
        self.vertexof = {}
        self.writes = []         # (dom, conds, container, element, value, line)
        self.loops = {}
        self.lams = {}
        self.depth = 0
        self.diag = {}

    # ------------------------------------------------------------ element terms
    def H(self, s, w=()):
        w = list(w)
        ch = True
        while ch:
            ch = False
            for i in range(len(w) - 1):
                if w[i] == w[i + 1] == "t":
                    del w[i:i + 2]
                    ch = True
                    break
            if self.tri:
                for i in range(len(w) - 2):
                    if w[i] == w[i + 1] == w[i + 2] == "n":
                        del w[i:i + 3]
                        ch = True
                        break
        return ("H", s, tuple(w))

    def V(self, h):
        s, w = h[1], list(h[2])
        while True:
            if w and w[-1] == "t":
                w[-1] = "n"
                w = list(self.H(s, w)[2])
                if not (w and w[-1] == "n"):
                    break
            elif len(w) >= 2 and w[-1] == "n" and w[-2] == "t":
                w = w[:-2]
            else:
                break
        if not w and s in self.vertexof:
            return self.vertexof[s]
        return ("V", ("H", s, tuple(w)))

    def E(self, h):
        w = list(h[2])
        if w and w[-1] == "t":
            w.pop()
        if not w and isinstance(h[1], tuple) and h[1] and h[1][0] == "EH":
            return h[1][1]
        return ("E", ("H", h[1], tuple(w)))

    def F(self, h):
        w = list(h[2])
        while w and w[-1] == "n":
            w.pop()
        if not w and h[1] in self.faceof:
            return self.faceof[h[1]]
        return ("F", ("H", h[1], tuple(w)))

    def he_of(self, x):
        """the .halfedge() of an element"""
        if x[0] == "E" and x[1][0] == "H" and not x[1][2] and self.loops.get(x[1][1], (None,))[0] == "edges":
            return x[1]
        if x[0] == "F" and not self.isbase(x) and False:
            return x[1]
        s = ("EH", x) if x[0] == "E" else (x[0] + "h", x)
        if x[0] == "F":
            self.faceof[s] = x
        if x[0] == "V":
            self.vertexof[s] = x
        return ("H", s, ())

    def isbase(self, x):
        return x[1][0] != "H"

    def elem(self, kind, s):
        return ("H", s, ()) if kind == "H" else (kind, ("s", s))

    def rebuild(self, t, f):
        """apply a substitution of halfedge symbols f(sym) -> term, renormalising"""
        if not isinstance(t, tuple):
            if isinstance(t, frozenset):
                return frozenset(self.rebuild(x, f) for x in t)
            return t
        if isp(t):
            r = ZERO
            for m, c in t[1]:
                q = const(c)
                for a in m:
                    if a == ("I",):
                        q = mul(q, I)
                        continue
                    b = self.rebuild(a, f)
                    if a in self.cplx:
                        self.cplx.add(b)
                    q = mul(q, b if isp(b) else self.atomlaw(b))
                r = add(r, q)
            return r
        if t and t[0] == "m" and len(t) == 2 and isinstance(t[1], frozenset):
            return ("m", frozenset((tuple((self.rebuild(x, f), tr) for x, tr in k), self.rebuild(v, f)) for k, v in t[1]))
        if t and t[0] == "H" and len(t) == 3:
            b = f(t[1])
            if b is None:
                b = ("H", self.rebuild(t[1], f) if isinstance(t[1], tuple) else t[1], ())
            return self.H(b[1], b[2] + t[2])
        if len(t) == 2 and t[0] in ("V", "E", "F") and isinstance(t[1], tuple):
            x = f(t)
            if x is not None:
                return x
            if t[1][0] == "H":
                return {"V": self.V, "E": self.E, "F": self.F}[t[0]](self.rebuild(t[1], f))
        return tuple(self.rebuild(x, f) for x in t)

    def atomlaw(self, a):
        if isinstance(a, tuple) and a and a[0] == "conj":
            return self.conj(atom(a[1]) if not isp(a[1]) else a[1])
        return atom(a)

    # ------------------------------------------------------------ complex conjugation
    def conj(self, p):
        r = ZERO
        for m, c in p[1]:
            q = const(c)
            for a in m:
                if a == ("I",):
                    q = mul(q, add(ZERO, I, -1))
                elif isinstance(a, tuple) and a[0] == "conj":
                    q = mul(q, atom(a[1]))
                elif isinstance(a, tuple) and a[0] == "data" and short(str(a[1])).split("::")[-1] in TRANSPORT and a[2][0] == "H":
                    b = ("data", a[1], self.H(a[2][1], a[2][2] + ("t",)))
                    self.cplx.add(b)
                    q = mul(q, atom(b))
                elif isinstance(a, tuple) and a[0] == "pow" and a in self.cplx:
                    b = ("pow", self.conj(a[1]), a[2])
                    self.cplx.add(b)
                    q = mul(q, atom(b))
                elif isinstance(a, tuple) and a[0] == "inv" and (a in self.cplx or a[1] in self.cplx or isp(a[1])):
                    x = self.conj(a[1] if isp(a[1]) else atom(a[1]))
                    q = mul(q, inv(x))
                elif a in self.cplx:
                    b = ("conj", a)
                    self.cplx.add(b)
                    q = mul(q, atom(b))
                else:
                    q = mul(q, atom(a))
            r = add(r, q)
        return r

    def re(self, z):
        return mul(const(Fraction(1, 2)), add(z, self.conj(z)))

    def im(self, z):
        return mul(mul(const(Fraction(-1, 2)), I), add(z, self.conj(z), -1))

    # ------------------------------------------------------------ running
    def run(self, f, args=None):
        self.fid = getattr(self, "fid", 0) + 1
        fr = {"id": self.fid, "fn": f, "ret": []}
        st = St({}, (), [])
        for i, p in enumerate(f["ps"]):
            st.env[(fr["id"], p["d"])] = self.typed(("param", p["n"]), p["t"])
        self.stack = [f["m"]]
        self.dom = ()
        end = self.block(f["body"], [st], fr)
        for s in end + [s for s, _ in fr["ret"]]:
            for dom, conds, tgt, row, col, val, line in s.con:
                self.contrib.setdefault(tgt, []).append((dom, conds, row, col, val, line))
        self.rets = [v for _, v in fr["ret"]]
        for t in self.contrib:
            self.contrib[t] = list(dict.fromkeys(self.contrib[t])) if len(end) + len(fr["ret"]) > 1 else self.contrib[t]
        return self

    def block(self, s, sts, fr):
        if s is None or not sts:
            return sts
        if len(sts) > self.maxpaths:
            raise Giveup("paths")
        k = s["s"]
        if k == "block":
            for c in s["b"]:
                sts = self.block(c, sts, fr)
            return sts
        if k == "expr":
            return [x for st in sts for x, _ in self.ev(s["e"], st, fr)]
        if k == "decl":
            for v in s["vs"]:
                nx = []
                for st in sts:
                    key = (fr["id"], v["d"])
                    if v.get("i") is None or v.get("dflt"):
                        st.env[key] = ("loc", key) if not self.scalar(v["t"]) else self.typed(("uninit", key), v["t"])
                        nx.append(st)
                        continue
                    t = v["t"].rstrip()
                    if t.endswith("&"):
                        l = self.loc(v["i"], st, fr)
                        if l is not None:
                            st.env[key] = ("alias", l)
                            nx.append(st)
                            continue
                    for x, val in self.ev(v["i"], st, fr):
                        if isinstance(val, tuple) and val and val[0] == "sp":     # a sparse/dense matrix object under construction
                            val = ("loc", key)
                        if isinstance(val, tuple) and val and val[0] == "m" and not val[1]:
                            val = ("loc", key)
                        x.env[key] = val
                        nx.append(x)
                sts = nx
            return sts
        if k == "if":
            if s.get("init"):
                sts = self.block(s["init"], sts, fr)
            T, F = [], []
            for st in sts:
                for x, b in self.cond(s["c"], st, fr):
                    (T if b else F).append(x)
            return self.block(s["t"], T, fr) + (self.block(s["e"], F, fr) if s.get("e") else F)
        if k == "return":
            for st in sts:
                if s.get("e"):
                    fr["ret"] += [(x, v) for x, v in self.ev(s["e"], st, fr)]
                else:
                    fr["ret"].append((st, None))
            return []
        if k == "continue":
            fr["cont"][-1] += sts
            return []
        if k == "break":
            if fr.get("brk") and fr["brk"][-1] is not None:
                fr["brk"][-1] += sts
                return []
            raise Giveup("break")
        if k == "rfor":
            out = []
            for st in sts:
                for x, r in self.ev(s["r"], st, fr):
                    out += self.rfor(s, x, r, fr)
            return out
        if k == "for":
            return self.cfor(s, sts, fr)
        if k in ("while", "do"):
            out = []
            for st in sts:
                self.n += 1
                out += self.loop(s, st, fr, ("other", "w%d" % self.n), s["b"])
            return out
        if k == "try":
            return self.block(s["b"], sts, fr)
        if k == "switch":
            return self.switch(s, sts, fr)
        if k in ("case", "default"):
            return self.block(s.get("b"), sts, fr)
        return sts

    def switch(self, s, sts, fr):
        """every case on its own path; falling through runs on into the next case"""
        b = s["b"]
        flat = []                                            # (labels or None, statement)
        for c in (b["b"] if b and b["s"] == "block" else [b]):
            labels = []
            while c is not None and c["s"] in ("case", "default"):
                labels.append(c.get("v") if c["s"] == "case" else None)
                c = c.get("b")
            flat.append((labels, c))
        out = []
        for st in sts:
            for x, v in self.ev(s["c"], st, fr):
                starts = [i for i, (l, _) in enumerate(flat) if l]
                dflt = any(y is None for l, _ in flat for y in l)
                seen = ()
                for i in starts:
                    for lab in flat[i][0]:
                        z = x.copy()
                        if lab is None:
                            z.conds += ((("default", v), True),)
                        else:
                            (_, lv), = self.ev(lab, x.copy(), fr)[:1]
                            z.conds += ((("==", v, lv), True),)
                        fr.setdefault("brk", []).append([])
                        cur = [z]
                        for _, c in flat[i:]:
                            cur = self.block(c, cur, fr)
                        out += cur + fr["brk"].pop()
                if not dflt and not s.get("all"):
                    out.append(x)
        return out

    def rfor(self, s, st, r, fr):
        self.n += 1
        sym = "x%d" % self.n
        v = s["v"] if isinstance(s["v"], dict) else s["v"][0]
        key = (fr["id"], v["d"])
        if r[0] == "set":                                    # ('set', what, of)
            what, of = r[1], r[2]
            kind = {"halfedges": "H", "interiorHalfedges": "H", "exteriorHalfedges": "H", "edges": "E", "vertices": "V", "faces": "F", "corners": "C",
                    "adjacentHalfedges": "H", "outgoingHalfedges": "H", "incomingHalfedges": "H", "adjacentInteriorHalfedges": "H",
                    "adjacentVertices": "V", "adjacentEdges": "E", "adjacentFaces": "F", "adjacentCorners": "C", "boundaryLoops": "B"}.get(what)
            if kind is None:
                return self.loop(s, st, fr, ("other", sym), s["b"])
            if of is None:
                self.loops[sym] = (what,)
                el = ("H", sym, ()) if kind == "H" else ("E", ("H", sym, ())) if kind == "E" else (kind, ("s", sym))
                dom = ("all", what, sym)
            else:
                self.loops[sym] = ("adj", what, of)
                if kind == "H":
                    el = ("H", sym, ())
                    if of[0] == "F":
                        self.faceof[sym] = of
                    if of[0] == "V" and what == "outgoingHalfedges":
                        self.vertexof[sym] = of
                else:
                    el = (kind, ("s", sym))
                dom = ("adj", what, sym, of)
            st = st.copy()
            st.env[key] = el
            return self.loop(s, st, fr, dom, s["b"])
        if r[0] == "list":
            sts = [st]
            for x in r[1]:
                for y in sts:
                    y.env[key] = x
                fr.setdefault("cont", []).append([])
                sts = self.block(s["b"], sts, fr)
                sts += fr["cont"].pop()
            return sts
        st = st.copy()
        st.env[key] = self.typed(("el", r, sym), v["t"])
        return self.loop(s, st, fr, ("other", sym), s["b"])

    def cfor(self, s, sts, fr):
        if s.get("init"):
            sts = self.block(s["init"], sts, fr)
        out = []
        for st in sts:
            d = None
            i = s.get("init")
            if i and i["s"] == "decl" and len(i["vs"]) == 1:
                d = (fr["id"], i["vs"][0]["d"])
            c = strip(s["c"]) if s.get("c") else {}
            inc = strip(s["inc"]) if s.get("inc") else {}
            start = st.env.get(d)
            stepone = inc.get("op") in ("++", "++post")
            if d is None or c.get("k") != "bin" or not stepone or not isp(start):
                out += self.other(s, st, fr, d)
                continue
            (_, a), = self.ev(c["a"][0], st.copy(), fr)[:1]
            (_, b), = self.ev(c["a"][1], st.copy(), fr)[:1]
            op = c["op"]
            if b == start and a != start:
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(op)
            if a != start or op not in ("<", "<=", "!=") or not isp(b):
                out += self.other(s, st, fr, d)
                continue
            n0, n1 = num(start), num(b)
            if n0 is not None and n1 is not None and n1 - n0 <= 8:
                cur = [st]
                j = n0
                while j < n1 or (op == "<=" and j == n1):
                    for x in cur:
                        x.env[d] = const(j)
                    fr.setdefault("cont", []).append([])
                    cur = self.block(s["b"], cur, fr)
                    cur += fr["cont"].pop()
                    j += 1
                out += cur
                continue
            self.n += 1
            sym = "i%d" % self.n
            st = st.copy()
            st.env[d] = atom(("i", sym))
            out += self.loop(s, st, fr, ("range", op, sym, start, b), s["b"])
        return out

    def other(self, s, st, fr, d):
        self.n += 1
        st = st.copy()
        if d is not None:
            old = st.env.get(d)
            st.env[d] = atom(("lv", d, self.n)) if isp(old) else ("loc", d)
        return self.loop(s, st, fr, ("other", "o%d" % self.n), s["b"])

    def loop(self, s, st, fr, dom, body):
        before = dict(st.env)
        cur = st.copy()
        # what the body assigns: accumulators
        acc = {}
        for d in self.assigned(body):
            key = (fr["id"], d)
            v = cur.env.get(key)
            if v is not None and isp(v):
                a = ("acc", key, dom[2] if dom[0] in ("all", "adj", "range") else dom[1])
                if self.cx(v) or v == ZERO and key in getattr(self, "cxvars", ()):
                    self.cplx.add(a)
                acc[key] = a
                cur.env[key] = atom(a)
            for x in [x for x in cur.env if isinstance(x, tuple) and x[0] == "elt" and x[1] == key]:
                cur.env[x] = atom(("lv", x, dom[2] if dom[0] in ("all", "adj", "range") else dom[1]))
        cur.con = []
        old = self.dom
        self.dom = old + (dom,)
        fr.setdefault("cont", []).append([])
        fr.setdefault("brk", []).append(None)
        nret = len(fr["ret"])
        ends = self.block(body, [cur], fr)
        ends += fr["cont"].pop()
        fr["brk"].pop()
        self.dom = old
        rets = fr["ret"][nret:]
        del fr["ret"][nret:]
        if rets:
            raise Giveup("return in loop")
        res = st.copy()
        for x in ends:
            conds = x.conds[len(st.conds):]
            for dm, cs, tgt, r, c, v, line in x.con:
                res.con.append((dm, cs if dm != self.dom + (dom,) else conds, tgt, r, c, v, line))
        diffs = {}
        for key, a in acc.items():
            ds = []
            ok = True
            for x in ends:
                dlt = add(x.env[key], atom(a), -1) if isp(x.env.get(key)) else None
                if dlt is None or self.mentions(dlt, a):
                    ok = False
                    break
                ds.append((x.conds[len(st.conds):], dlt))
            if not ok:
                n = ("lv", key, self.n)
                if a in self.cplx:
                    self.cplx.add(n)
                res.env[key] = atom(n)
                continue
            ds = [x for x in ds if x[1] != ZERO]
            if not ds:
                res.env[key] = before[key]
                continue
            n = ("sum", dom, frozenset(ds))
            if any(self.cx(x) for _, x in ds):
                self.cplx.add(n)
            res.env[key] = add(before[key], atom(n))
        for key in before:
            if key in acc:
                continue
            vals = {x.env.get(key) if self.hashable(x.env.get(key)) else None for x in ends}
            if ends and vals != {before[key]}:
                if isp(before[key]):
                    res.env[key] = atom(("lv", key, self.n))
        return [res]

    def hashable(self, v):
        try:
            hash(v)
            return True
        except TypeError:
            return False

    def mentions(self, t, a):
        if t == a:
            return True
        if isinstance(t, (tuple, frozenset)):
            return any(self.mentions(x, a) for x in t)
        return False

    def assigned(self, s):
        from ir import walk_stmts, stmt_exprs
        out = set()
        for st in walk_stmts(s):
            for e in stmt_exprs(st):
                for x in walk(e):
                    if x.get("k") == "asg" or x.get("k") == "un" and x["op"] in ("++", "--", "++post", "--post") or x.get("k") == "call" and x.get("cn") in ("operator+=", "operator-=", "operator*=", "operator/=", "operator="):
                        a = strip(x["a"][0]) if x["k"] != "call" or x.get("o") is None else strip(x["o"])
                        sub = subscript(a)
                        if sub is not None:
                            a = strip(sub[0])
                        if a.get("k") == "ref" and a.get("dk") in ("local", "param"):
                            out.add(a["d"])
        return out

    # ------------------------------------------------------------ values
    def scalar(self, t):
        t = t.replace("const ", "").rstrip("& ")
        return t in ("double", "float", "int", "unsigned int", "long", "unsigned long", "bool", "size_t", "unsigned long long", "long long") or t.startswith("std::complex<") or t.endswith("Vector2")

    def iscplx(self, t):
        t = t.replace("const ", "").rstrip("& ")
        return t.startswith("std::complex<") or t in ("geometrycentral::Vector2", "Vector2")

    def cx(self, p):
        return any(a == ("I",) or a in self.cplx or (isinstance(a, tuple) and a[0] in ("conj",)) for m, c in p[1] for a in m)

    def typed(self, term, t):
        t = (t or "").replace("const ", "").rstrip("& ")
        last = t.split("::")[-1]
        if last in ELEM and "<" not in t:
            k = ELEM[last]
            return ("H", term, ()) if k == "H" else (k, ("s", term))
        if self.scalar(t):
            if self.iscplx(t):
                self.cplx.add(term)
            return atom(term)
        if "Eigen::" in t and ("Matrix<" in t or "Product<" in t or "CwiseBinaryOp" in t or "Transpose<" in t) and "SparseMatrix" not in t:
            return ("m", frozenset({(((term, False),), const(1))}))
        return term

    def loc(self, e, st, fr):
        e = strip(e)
        k = e.get("k")
        if k == "cast" and e.get("a"):
            return self.loc(e["a"][0], st, fr)
        if k == "ref" and e.get("dk") in ("local", "param"):
            key = (fr["id"], e["d"])
            v = st.env.get(key)
            if isinstance(v, tuple) and v and v[0] == "alias":
                return v[1]
            return key
        if k == "mem":
            b = strip(e["b"]) if e.get("b") is not None else {}
            if e.get("n") in ("x", "y", "z"):
                return None
            return ("F", e["q"])
        if k == "un" and e["op"] == "*":
            return self.loc(e["a"][0], st, fr)
        sub = subscript(e)
        if sub is not None:                                  # an element of a small local array
            l = self.loc(sub[0], st, fr)
            t = (strip(sub[0]).get("t") or "")
            if l is not None and l[0] not in ("F", "elt") and (k == "idx" or "std::array<" in t) and not (isinstance(st.env.get(l), tuple) and st.env[l][:1] == ("list",)):
                r = self.ev(sub[1], st.copy(), fr)
                n = num(r[0][1]) if len(r) == 1 and isp(r[0][1]) else None
                if n is not None:
                    return ("elt", l, n)
        return None

    def read(self, l, st, t):
        v = st.env.get(l)
        if isinstance(v, tuple) and v and v[0] == "alias":
            return self.read(v[1], st, t)
        if v is None and l[0] == "elt":
            v = self.typed(("data", l[1], const(l[2])), t)
        if v is None:
            v = self.typed(l, t) if l[0] != "F" else self.typed(("fld", short(l[1]).split("::")[-1]), t)
        return v

    # ------------------------------------------------------------ conditions
    def cond(self, c, st, fr):
        c = strip(c)
        k = c.get("k")
        if k == "un" and c["op"] == "!":
            return [(x, not b) for x, b in self.cond(c["a"][0], st, fr)]
        if k == "bin" and c["op"] in ("&&", "||"):
            out = []
            for x, b in self.cond(c["a"][0], st, fr):
                if b == (c["op"] == "&&"):
                    out += self.cond(c["a"][1], x, fr)
                else:
                    out.append((x, b))
            return out
        out = []
        for x, v in self.ev(c, st, fr):
            out += self.decide(v, x)
        return out

    def decide(self, v, st):
        neg = False
        if isp(v):
            n = num(v)
            if n is not None:
                return [(st, n != 0)]
            if len(v[1]) == 1:
                (m, c), = v[1]
                if len(m) == 1 and c == 1:
                    v = m[0]
        if isinstance(v, tuple) and v and v[0] == "not":
            return [(x, not b) for x, b in self.decide(v[1], st)]
        if isinstance(v, tuple) and v and v[0] == "!=":
            v, neg = ("==", v[1], v[2]), True
        if isinstance(v, tuple) and v and v[0] in (">", ">="):
            v = ("<" if v[0] == ">" else "<=", v[2], v[1])
        if isinstance(v, tuple) and v and v[0] == "<=":
            v, neg = ("<", v[2], v[1]), not neg
        if isinstance(v, tuple) and v and v[0] == "isInt" and isinstance(v[1], tuple) and v[1][0] == "H" and all(x == "n" for x in v[1][2]) and v[1][1] in self.faceof:
            return [(st, not neg)]
        for t, b in st.conds:
            if t == v:
                return [(st, b != neg)]
        a, b = st.copy(), st.copy()
        a.conds += ((v, True),)
        b.conds += ((v, False),)
        return [(a, not neg), (b, neg)]

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        out = [(st, ())]
        for a in es:
            out = [(y, vs + (v,)) for x, vs in out for y, v in self.ev(a, x, fr)]
        return out

    def bop(self, op, a, b, t):
        if isp(a) and isp(b):
            if op == "+":
                return add(a, b)
            if op == "-":
                return add(a, b, -1)
            if op == "*":
                return mul(a, b)
            if op == "/":
                if "double" in t or "complex" in t or "Vector2" in t or "float" in t:
                    return mul(a, inv(b))
                return atom(("/", a, b))
            if op == "%":
                x, y = num(a), num(b)
                if x is not None and y:
                    return const(int(x) % int(y))
                return atom(("%", a, b))
            if op in ("==", "!=", "<", ">", "<=", ">="):
                x, y = num(a), num(b)
                if x is not None and y is not None:
                    return const(int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
                if op in ("==", "!=") and repr(a) > repr(b):
                    a, b = b, a
                return (op, a, b)
        am, bm = isinstance(a, tuple) and a and a[0] == "m", isinstance(b, tuple) and b and b[0] == "m"
        if am and bm and op in ("+", "-", "*"):
            return madd(a, b) if op == "+" else madd(a, b, -1) if op == "-" else mmul(a, b)
        if am and isp(b) and op in ("*", "/"):
            return mscale(a, b if op == "*" else inv(b))
        if isp(a) and bm and op == "*":
            return mscale(b, a)
        if op in ("==", "!="):
            if repr(a) > repr(b):
                a, b = b, a
            if a == b:
                return const(int(op == "=="))
            return (op, a, b)
        return self.typed(("op", op, a, b), t)

    def ev(self, e, st, fr):
        e = strip(e)
        k = e.get("k")
        t = e.get("t") or ""
        args = [a for a in e.get("a") or [] if a.get("k") != "defarg"]
        if k == "lit":
            v = str(e["v"])
            if v in ("true", "false"):
                return [(st, const(int(v == "true")))]
            try:
                return [(st, const(Fraction(v)))]
            except (ValueError, ZeroDivisionError):
                return [(st, ("lit", v))]
        if k == "ref":
            if e.get("dk") in ("local", "param"):
                return [(st, self.read(self.loc(e, st, fr), st, t))]
            return [(st, self.typed(("g", e.get("q") or e.get("n")), t))]
        if k == "mem":
            if e.get("n") in ("x", "y") and e.get("b") is not None:
                out = []
                for x, v in self.ev(e["b"], st, fr):
                    if isp(v):
                        out.append((x, self.re(v) if e["n"] == "x" else self.im(v)))
                    else:
                        out.append((x, self.typed(("comp", v, e["n"]), t)))
                return out
            b = strip(e["b"]) if e.get("b") is not None else {"k": "this"}
            if b.get("k") != "this" and "Geometry" not in (b.get("t") or "") and "Data" not in t and "Matrix" not in t:
                return [(x, self.typed(("fld", e.get("n"), v), t)) for x, v in self.ev(b, st, fr)]
            return [(st, self.read(("F", e["q"]), st, t))]
        if k == "idx":
            l = self.loc(e, st, fr)
            if l is not None:
                return [(st, self.read(l, st, t))]
            out = []
            for x, vs in self.evs(args, st, fr):
                b = self.basename(args[0], st, fr)
                if isinstance(vs[0], tuple) and vs[0][:1] == ("list",) and isp(vs[1]) and num(vs[1]) is not None and 0 <= num(vs[1]) < len(vs[0][1]):
                    out.append((x, vs[0][1][int(num(vs[1]))]))
                else:
                    out.append((x, self.typed(("data", b if b is not None else vs[0], vs[1]), t)))
            return out
        if k == "this":
            return [(st, ("this",))]
        if k == "cast":
            return self.ev(args[0], st, fr) if args else [(st, ("?",))]
        if k == "un":
            op = e["op"]
            if op in ("++", "--", "++post", "--post"):
                l = self.loc(args[0], st, fr)
                old = self.read(l, st, t) if l else ("?",)
                if l and isp(old):
                    st.env[l] = add(old, const(1), 1 if "+" in op else -1)
                return [(st, old)]
            out = []
            for x, v in self.ev(args[0], st, fr):
                if op == "-":
                    out.append((x, add(ZERO, v, -1) if isp(v) else mscale(v, const(-1)) if isinstance(v, tuple) and v and v[0] == "m" else self.typed(("neg", v), t)))
                elif op == "!":
                    n = num(v) if isp(v) else None
                    out.append((x, const(int(n == 0)) if n is not None else ("not", v)))
                elif op in ("+", "*", "&"):
                    out.append((x, v))
                else:
                    out.append((x, self.typed(("un", op, v), t)))
            return out
        if k == "bin":
            if e["op"] in ("&&", "||"):
                return [(x, const(int(b))) for x, b in self.cond(e, st, fr)]
            return [(x, self.bop(e["op"], vs[0], vs[1], t)) for x, vs in self.evs(args, st, fr)]
        if k == "cond":
            out = []
            for x, b in self.cond(args[0], st, fr):
                out += self.ev(args[1] if b else args[2], x, fr)
            return out
        if k == "asg":
            return self.assign(e["op"], args[0], args[1], st, fr, e)
        if k in ("ctor", "init"):
            return self.ctor(e, args, st, fr, t)
        if k == "lam":
            self.lams[id(e), fr["id"]] = (e, fr)
            return [(st, ("lam", id(e), fr["id"]))]
        if k == "call":
            return self.call(e, args, st, fr, t)
        if k == "throw":
            return []
        if k == "str":
            return [(st, ("str",))]
        if k == "null":
            return [(st, ("null",))]
        return [(x, self.typed(("x", k, e.get("n") or e.get("op") or "", tuple(vs)), t)) for x, vs in self.evs(kids(e), st, fr)]

    def ctor(self, e, args, st, fr, t):
        c = (e.get("c") or t or "").replace("const ", "")
        out = []
        for x, vs in self.evs(args, st, fr):
            if self.iscplx(c):
                if len(vs) == 2 and all(isp(v) for v in vs):
                    out.append((x, add(vs[0], mul(vs[1], I))))
                    continue
                if len(vs) == 1 and isp(vs[0]):
                    out.append((x, vs[0]))
                    continue
                if not vs:
                    out.append((x, ZERO))
                    continue
            if c.startswith("Eigen::Triplet<") and len(vs) == 3:
                out.append((x, ("trip",) + vs))
                continue
            if len(vs) == 1 and not c.startswith("Eigen::SparseMatrix") and not c.startswith("std::vector"):
                out.append((x, vs[0]))
                continue
            if self.scalar(c) and not vs:
                out.append((x, ZERO))
                continue
            if "Eigen::" in c or c.startswith("std::vector"):
                out.append((x, ("sp",) + tuple(vs)))
                continue
            if e.get("k") == "init" or "array<" in c or "initializer_list" in c:
                out.append((x, vs[0] if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == "list" else ("list", vs)))
                continue
            out.append((x, self.typed(("obj", c, vs), c)))
        return out

    def assign(self, op, lhs, rhs, st, fr, e):
        lhs = strip(lhs)
        out = []
        line = e.get("l")
        for x, v in self.ev(rhs, st, fr):
            out += [(y, v) for y in self.store(op, lhs, v, x, fr, line)]
        return out

    def store(self, op, lhs, v, st, fr, line):
        lhs = strip(lhs)
        t = lhs.get("t") or ""
        el = self.loc(lhs, st, fr)
        if (el is None or el[0] != "elt") and lhs.get("k") == "call" and lhs.get("cn") in ("operator()", "coeffRef", "insert", "operator[]") and lhs.get("o") is not None:
            l = self.loc(lhs["o"], st, fr)
            outs = []
            for x, ix in self.evs([a for a in lhs["a"] if a.get("k") != "defarg"], st, fr):
                if len(ix) == 2 and l is not None:
                    if op in ("+=", "-="):
                        self.add(x, l, ix[0], ix[1], v if op == "+=" else add(ZERO, v, -1) if isp(v) else v, line)
                    elif lhs.get("cn") == "insert":
                        self.add(x, l, ix[0], ix[1], v, line)
                    else:
                        self.add(x, ("set", l), ix[0], ix[1], v, line)
                elif len(ix) == 1:
                    b = self.basename(lhs["o"], st, fr)
                    self.writes.append((self.dom, x.conds, b, ix[0], v if op == "=" else (op, v), line))
                outs.append(x)
            return outs
        l = self.loc(lhs, st, fr)
        if l is None:
            return [st]
        if op == "=":
            if isinstance(v, tuple) and v and v[0] == "sp":
                v = ("loc", l)
            if isinstance(v, tuple) and v and v[0] == "diag":
                self.diag[l] = v
            st.env[l] = v
            if l[0] == "F":
                self.alias.setdefault(l[1], []).append(v)
        else:
            old = self.read(l, st, t)
            o = op[0]
            st.env[l] = self.bop(o, old, v, t) if isp(old) or (isinstance(old, tuple) and old and old[0] == "m") else self.typed(("upd", op, old, v), t)
        return [st]

    def add(self, st, target, row, col, val, line):
        st.con.append((self.dom, st.conds, target, row, col, val, line))

    def basename(self, o, st, fr):
        l = self.loc(o, st, fr)
        if l is not None and l[0] == "F":
            return short(l[1]).split("::")[-1]
        return l

    def call(self, e, args, st, fr, t):
        cn, f = e.get("cn") or "", e.get("f") or ""
        line = e.get("l")
        o = e.get("o")
        # entries
        if cn in ("emplace_back", "push_back") and o is not None and ("Triplet" in f or "Triplet" in ((strip(o).get("t")) or "")):
            l = self.loc(o, st, fr)
            out = []
            for x, vs in self.evs(args, st, fr):
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == "trip":
                    vs = vs[0][1:]
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == "list":
                    vs = vs[0][1]
                if len(vs) == 3 and l is not None:
                    self.add(x, l, vs[0], vs[1], vs[2], line)
                out.append((x, ("void",)))
            return out
        if cn == "setFromTriplets" and o is not None:
            l = self.loc(o, st, fr)
            a = strip(args[0])
            src = self.loc(a["o"], st, fr) if a.get("k") == "call" and a.get("o") is not None else None
            if l is not None:
                self.links[l] = src
            return [(st, ("void",))]
        if cn in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
            lhs, rhs = (o, args[0]) if o is not None else (args[0], args[1])
            return self.assign(cn[8:], lhs, rhs, st, fr, e)
        if f.startswith("std::move") or f.startswith("std::forward"):
            return self.ev(args[0], st, fr)
        if o is not None:
            pre = [(y, v) for y, v in self.ev(o, st, fr)]
        else:
            pre = [(st, None)]
        out = []
        for x, ov in pre:
            for y, vs in self.evs(args, x, fr):
                out += self.apply(e, cn, f, ov, vs, y, fr, t, args)
        return out

    def apply(self, e, cn, f, ov, vs, st, fr, t, args):
        one = lambda v: [(st, v)]
        el = ov if isinstance(ov, tuple) and ov and ov[0] in ("H", "V", "E", "F", "C", "B") else None
        if ov is not None and isinstance(ov, tuple) and ov and ov[0] == "lam" and cn == "operator()":
            lam, outer = self.lams[ov[1], ov[2]]
            return self.enter({"ps": lam["ps"], "body": lam["body"], "m": ("lam", ov[1])}, e, args, vs, st, fr, outer)
        if el is not None:
            if el[0] == "H":
                s, w = el[1], el[2]
                if cn == "next":
                    return one(self.H(s, w + ("n",)))
                if cn in ("twin", "sibling") and cn == "twin":
                    return one(self.H(s, w + ("t",)))
                if cn in ("vertex", "tailVertex"):
                    return one(self.V(el))
                if cn == "tipVertex":
                    return one(self.V(self.H(s, w + ("n",))))
                if cn == "edge":
                    return one(self.E(el))
                if cn == "face":
                    return one(self.F(el))
                if cn == "corner":
                    return one(("C", el))
                if cn == "isInterior":
                    return one(atom(("isInt", el)))
                if cn == "orientation":
                    return one(atom(("orient", el)))
                if cn == "prevOrbitFace" and self.tri:
                    return one(self.H(s, w + ("n", "n")))
            if cn == "halfedge":
                if el[0] == "C" and el[1][0] == "H":
                    return one(el[1])
                return one(self.he_of(el))
            if el[0] == "E" and cn in ("firstVertex", "secondVertex"):
                h = self.he_of(el)
                return one(self.V(h if cn == "firstVertex" else self.H(h[1], h[2] + ("n",))))
            if el[0] == "C" and cn in ("vertex", "face"):
                h = el[1] if el[1][0] == "H" else self.he_of(el)
                return one(self.V(h) if cn == "vertex" else self.F(h))
            if cn.startswith("adjacent") or cn in ("outgoingHalfedges", "incomingHalfedges"):
                return one(("set", cn, el))
        if cn in ("halfedges", "interiorHalfedges", "exteriorHalfedges", "edges", "vertices", "faces", "corners", "boundaryLoops") and o_is_mesh(e):
            return one(("set", cn, None))
        if cn in ("operator[]", "at"):
            l = self.loc(e, st, fr)
            if l is not None:
                return one(self.read(l, st, t))
        if cn == "operator[]" or cn == "operator()" or cn == "coeff" or cn == "at":
            l = self.loc(e["o"], st, fr) if e.get("o") is not None else None
            if e.get("o") is not None and len(vs) == 1:
                if isinstance(ov, tuple) and ov and ov[0] == "list":
                    n = num(vs[0]) if isp(vs[0]) else None
                    if n is not None and 0 <= n < len(ov[1]):
                        return one(ov[1][int(n)])
                base = self.basename(e["o"], st, fr)
                if base is None:
                    base = ov
                if isinstance(ov, tuple) and ov and ov[0] == "m":
                    base = ov
                return one(self.typed(("data", base, vs[0]), t))
            if e.get("o") is not None and len(vs) == 2:
                m = ov if isinstance(ov, tuple) and ov and ov[0] == "m" else l
                return one(self.typed(("ent", m, vs[0], vs[1]), t))
        if cn.startswith("operator") and cn[8:] in ("+", "-", "*", "/", "==", "!=", "<", ">"):
            xs = ((ov,) if ov is not None else ()) + vs
            if len(xs) == 2:
                return one(self.bop(cn[8:], xs[0], xs[1], t if not t.startswith("const Eigen") else t))
            if len(xs) == 1 and cn == "operator-":
                v = xs[0]
                return one(add(ZERO, v, -1) if isp(v) else mscale(v, const(-1)) if isinstance(v, tuple) and v and v[0] == "m" else self.typed(("neg", v), t))
        if cn.startswith("operator ") and ov is not None and isp(ov) and not vs:          # a conversion
            return one(ov)
        if cn == "conj" and len(vs) + (ov is not None) == 1:
            v = vs[0] if vs else ov
            if isp(v):
                return one(self.conj(v))
        if cn in ("real", "imag") and len(vs) + (ov is not None) == 1:
            v = vs[0] if vs else ov
            if isp(v):
                return one(self.re(v) if cn == "real" else self.im(v))
        if cn == "inv" and ov is not None and isp(ov) and not vs:
            # the inverse of a rotation
            return one(self.conjrot(ov))
        if cn == "pow":
            xs = ((ov,) if ov is not None else ()) + vs
            if len(xs) == 2 and isp(xs[0]):
                a = ("pow", xs[0], xs[1])
                if self.cx(xs[0]):
                    self.cplx.add(a)
                return one(atom(a))
        if cn == "transpose" and isinstance(ov, tuple) and ov and ov[0] == "m":
            return one(mt(ov))
        if cn == "eval" and ov is not None:
            return one(ov)
        if cn == "Identity":
            return one(("m", frozenset({(((("Id",), False),), const(1))})))
        if cn == "Zero" and "Eigen" in f:
            return one(("m", frozenset()))
        if cn == "asDiagonal":
            l = self.loc(e["o"], st, fr)
            return one(("diag", l, False))
        if cn == "inverse" and isinstance(ov, tuple) and ov and ov[0] == "diag":
            return one(("diag", ov[1], not ov[2]))
        fn = self.P.fns.get(e.get("m"))
        if fn is not None and fn.get("body") and self.depth < 6 and fn["m"] not in self.stack and self.inline(fn):
            return self.enter(fn, e, args, vs, st, fr, None)
        term = ("call", f or cn, ov if ov is not None and ov != ("this",) else None, vs)
        for i, a in enumerate(args):
            a = strip(a)
            if a.get("k") == "un" and a["op"] == "&" or fn is not None and i < len(fn["ps"]) and fn["ps"][i]["t"].rstrip().endswith("&") and not fn["ps"][i]["t"].startswith("const"):
                l = self.loc(a["a"][0] if a.get("k") == "un" else a, st, fr)
                if l is not None and l[0] != "F" and isp(st.env.get(l, ())):
                    st.env[l] = atom(("out", term, i))
        return one(self.typed(term, t))

    def conjrot(self, p):
        """1/z of a unit complex number"""
        return self.conj(p) if any(a in self.cplx or a == ("I",) for m, c in p[1] for a in m) and not any(isinstance(a, tuple) and a[0] == "inv" for m, c in p[1] for a in m) else atomc(self, ("rotinv", p))

    def enter(self, fn, e, args, vs, st, fr, outer):
        self.fid += 1
        f2 = {"id": outer["id"] if outer else self.fid, "fn": fn, "ret": []}
        for p, a, v in zip(fn["ps"], args, vs):
            key = (f2["id"], p["d"])
            l = self.loc(a, st, fr) if p["t"].rstrip().endswith("&") else None
            if l is not None and l != key:
                st.env[key] = ("alias", l)
            else:
                st.env[key] = v
        self.stack.append(fn["m"])
        self.depth += 1
        end = self.block(fn["body"], [st], f2)
        self.depth -= 1
        self.stack.pop()
        return [(s, v if v is not None else ("void",)) for s, v in f2["ret"]] + [(s, ("void",)) for s in end]


def subscript(e):
    """(base, index) of a[i] / a.at(i)"""
    e = strip(e)
    if e.get("k") == "idx" and len(e.get("a") or []) == 2:
        return e["a"][0], e["a"][1]
    if e.get("k") == "call" and e.get("cn") in ("operator[]", "at") and e.get("o") is not None and len(e.get("a") or []) == 1:
        return e["o"], e["a"][0]
    return None


def atomc(A, a):
    A.cplx.add(a)
    return atom(a)


def o_is_mesh(e):
    o = strip(e["o"]) if e.get("o") is not None else {}
    t = o.get("t") or ""
    return "Mesh" in t.split("<")[0]
