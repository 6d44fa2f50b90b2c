"""C10: the matrices a geometry hands out have the algebraic structure that is documented for them."""
from ir import short, walk, stmt_exprs, walk_stmts
from assemble import (Assembly, Giveup, isp, add, mul, const, atom, num, mt, ZERO, TRANSPORT, mk)

RULE = ("Every routine that fills one of the listed matrices is interpreted once over symbolic mesh elements (a loop over elements becomes one generic "
        "element; halfedge expressions are normalised by the halfedge laws; values are polynomials over the data they read).  On the resulting set of "
        "(row, column, value) contributions, path by path, the rules are: symmetric/Hermitian = the set equals its own conjugate transpose, entry by entry or "
        "after a relabelling of the loops that maps the loops onto themselves (h -> h.twin over all halfedges, h -> h.next over the halfedges of triangles, "
        "two index ranges with equal bounds exchanged); constants in the kernel = the values of every row add up to the zero polynomial (connection Laplacians: "
        "with transport set to the identity); d1 d0 = 0 and d0 = head - tail; lumped matrices are diagonal; the Galerkin mass of a face adds up to its area; inverse "
        "Hodge stars invert the star of the same degree; an entry that applies a transport maps from the element of its column to the element of its row; the two "
        "transports of an edge are inverse to each other.")
ASSUMPTIONS = ("Floating-point rounding is ignored: values are compared as polynomials.  Matrices whose assembly is not understood are counted as undecided and never reported.")
MIN = {"hermitian_decided": 10, "kernel_decided": 5, "transport_entries": 3, "diagonal_decided": 5, "writes_transport": 2}

HERM_FIELDS = ("cotanLaplacian", "vertexGalerkinMassMatrix", "faceGalerkinMassMatrix", "vertexConnectionLaplacian", "faceConnectionLaplacian", "crouzeixRaviartLaplacian",
               "crouzeixRaviartConnectionLaplacian", "simplePolygonLaplacian", "simplePolygonVertexGalerkinMassMatrix", "polygonLaplacian",
               "polygonVertexConnectionLaplacian", "polygonHodge1")
HERM_FNS = ("direction_fields.cpp:computeVertexConnectionLaplacian", "direction_fields.cpp:computeFaceConnectionLaplacian", "stripe_patterns.cpp:buildVertexEnergyMatrix",
            "signed_heat_method.cpp:crouzeixRaviartDoubleConnectionLaplacian", "signed_heat_method.cpp:crouzeixRaviartDoubleMassMatrix")
INTERP = ("common_subdivision.cpp:interpolationMatrixA", "common_subdivision.cpp:interpolationMatrixB")
BLOCKS = ("linear_algebra_utilities.cpp:complexToReal",)
KERNEL = ("cotanLaplacian", "crouzeixRaviartLaplacian", "d0", "polygonD0", "polygonLaplacian", "vertexConnectionLaplacian", "faceConnectionLaplacian")
DIAG = ("vertexLumpedMassMatrix", "faceGalerkinMassMatrix", "crouzeixRaviartMassMatrix", "simplePolygonVertexLumpedMassMatrix", "polygonVertexLumpedMassMatrix",
        "hodge0", "hodge1", "hodge2", "hodge0Inverse", "hodge1Inverse", "hodge2Inverse", "polygonHodge0", "polygonHodge0Inverse", "polygonHodge2", "polygonHodge2Inverse")


def fname(q):
    return short(q).split("::")[-1]


def mentions(t, pred):
    if pred(t):
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(x, pred) for x in t)
    return False


def opaque(t):
    return mentions(t, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] in ("lv", "out", "uninit", "upd", "?", "x"))


def opaques(p):
    """the different products of not understood values in a polynomial"""
    return {tuple(a[1] if a[0] == "conj" else a for a in m if opaque(a)) for m, _ in p[1] if any(opaque(a) for a in m)}


class Check:
    def __init__(self, P):
        self.P = P
        self.F = []
        self.cov = {k: 0 for k in ("routines", "hermitian_decided", "hermitian_undecided", "kernel_decided", "kernel_undecided", "diagonal_decided", "diagonal_undecided",
                                   "transport_entries", "writes_transport", "hodge_pairs", "exactness", "mass_totals", "contributions", "helpers_symmetric", "helpers_kernel", "interpolation_rows", "real_blocks")}
        self.samples = []
        self.memo = {}
        self.kmemo = {}
        self.pol = {}

    # ------------------------------------------------------------ which calls are followed into
    def inline(self, g):
        m = g["m"]
        if m not in self.pol:
            q = g["q"]
            r = g.get("r") or ""
            ok = q.startswith("geometrycentral") and not any(x in q for x in ("SurfaceMesh", "Quantity", "Element", "NavigationSet", "MeshData", "Vector2", "Vector3", "Iterator"))
            ok = ok and short(g.get("cls") or "").split("::")[-1] not in ("Halfedge", "Vertex", "Edge", "Face", "Corner", "BoundaryLoop")
            ok = ok and not fname(q).startswith(("require", "unrequire", "ensure", "refresh", "purge", "compute"))
            if "Eigen::" in r:
                ok = False
            self.pol[m] = ok
        return self.pol[m]

    def assembly(self, f, tri=True):
        A = Assembly(self.P, self.inline, tri=tri)
        A.run(f)
        return A

    def find(self, key, msg, f, line):
        self.F.append({"key": key, "msg": msg, "loc": self.P.loc(f, line)})

    # ------------------------------------------------------------ normal form of a contribution
    def normal(self, A, con, tri):
        """rename the loops by position, and write nested element loops as loops over halfedges"""
        dom, conds, r, c, v, line = con
        sub = {}
        subel = {}
        nd = []
        n = 0
        dom = list(dom)
        i = 0
        rangesyms = {}
        while i < len(dom):
            d = dom[i]
            nxt = dom[i + 1] if i + 1 < len(dom) else None
            if d[0] == "all" and nxt and nxt[0] == "adj" and nxt[3] == ({"faces": "F", "vertices": "V"}.get(d[1]), ("s", d[2])) and nxt[1] in ("adjacentHalfedges", "outgoingHalfedges"):
                s = "h%d" % n
                n += 1
                sub[nxt[2]] = ("H", s, ())
                subel[nxt[3]] = A.F(("H", s, ())) if d[1] == "faces" else A.V(("H", s, ()))
                nd.append(("halfedges of faces" if d[1] == "faces" else "halfedges", s))
                i += 2
                continue
            if d[0] == "all":
                s = "h%d" % n
                n += 1
                if d[1] in ("halfedges", "interiorHalfedges", "exteriorHalfedges"):
                    sub[d[2]] = ("H", s, ())
                    nd.append(({"interiorHalfedges": "halfedges of faces"}.get(d[1], d[1]), s))
                elif d[1] == "edges":
                    sub[d[2]] = ("H", s, ())
                    nd.append(("edges", s))
                else:
                    k = {"faces": "F", "vertices": "V", "corners": "C", "boundaryLoops": "B"}.get(d[1])
                    if k:
                        subel[(k, ("s", d[2]))] = (k, ("s", s))
                    nd.append((d[1], s))
            elif d[0] == "adj":
                s = "h%d" % n
                n += 1
                sub[d[2]] = ("H", s, ())
                subel[("V", ("s", d[2]))] = ("V", ("s", s))
                subel[("F", ("s", d[2]))] = ("F", ("s", s))
                nd.append(("adj", d[1], s, d[3]))
            elif d[0] == "range":
                s = "i%d" % n
                n += 1
                rangesyms[d[2]] = s
                nd.append(("range", d[1], s, d[3], d[4]))
            else:
                nd.append(d)
            i += 1

        def f(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] in ("V", "E", "F"):
                return subel.get(x)
            if isinstance(x, tuple) and len(x) == 2 and x[0] in ("Fh", "Vh"):
                y = subel.get(x[1])
                return None if y is None else ("H", (x[0], y), ())
            return sub.get(x) if not isinstance(x, tuple) else None

        def go(t):
            t = A.rebuild(t, f)
            return self.subi(A, t, rangesyms) if rangesyms else t
        return (tuple(go(x) if isinstance(x, tuple) else x for x in nd), frozenset(go(x) for x in conds), go(r), go(c), go(v), line)

    def subi(self, A, t, m):
        """rename range indices"""
        def ren(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "i" and x[1] in m:
                    return ("i", m[x[1]])
                if isp(x):
                    r = {}
                    for mo, c in x[1]:
                        k = tuple(sorted((ren(a) for a in mo), key=repr))
                        r[k] = r.get(k, 0) + c
                        for a, b in zip(mo, [ren(a) for a in mo]):
                            if a in A.cplx:
                                A.cplx.add(b)
                    return mk(r)
                return tuple(ren(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(ren(y) for y in x)
            return x
        return ren(t)

    def autos(self, A, dom, conds, tri, loose=False):
        """relabellings of the loops of dom that map the loops (and the path conditions) onto themselves"""
        out = [("same", lambda t: t)]
        for d in dom:
            if d[0] in ("halfedges", "halfedges of faces"):
                s = d[1]

                def mv(w, s=s):
                    def f(x):
                        if x == s:
                            return ("H", s, w)
                        return None
                    return lambda t: A.rebuild(t, f)
                if d[0] == "halfedges" or any(c == (("isInt", ("H", s, ("t",))), True) for c in conds):
                    out.append(("twin", mv(("t",))))
                if d[0] == "halfedges of faces" and tri:
                    out.append(("next", mv(("n",))))
                    out.append(("prev", mv(("n", "n"))))
        rs = [d for d in dom if d[0] == "range"]
        for i in range(len(rs)):
            for j in range(i + 1, len(rs)):
                a, b = rs[i], rs[j]
                if loose or (a[1], a[3], a[4]) == (b[1], b[3], b[4]):
                    out.append(("swap", lambda t, a=a, b=b: self.subi(A, t, {a[2]: b[2], b[2]: a[2]})))
        ok = []
        for n, g in out:
            cs = frozenset(self.cn(g(c)) for c in conds)
            if cs == frozenset(self.cn(c) for c in conds):
                ok.append(g)
            elif n == "twin" and {self.cn(g(c)) for c in conds if c != (("isInt", ("H", self.hs(c), ("t",))), True)} <= {self.cn(c) for c in conds}:
                ok.append(g)
        return ok

    def hs(self, c):
        try:
            return c[0][1][1]
        except (TypeError, IndexError):
            return None

    def cn(self, c):
        t, b = c
        if isinstance(t, tuple) and len(t) == 3 and t[0] == "==" and repr(t[1]) > repr(t[2]):
            t = ("==", t[2], t[1])
        return (t, b)

    def entsym(self, A, v, f, tri):
        """S(i,j) = S(j,i) for a matrix known to be symmetric"""
        r = ZERO
        for m, c in v[1]:
            q = const(c)
            for a in m:
                if isinstance(a, tuple) and a and a[0] == "ent" and repr(a[2]) > repr(a[3]) and self.sym(A, a[1], f, tri):
                    b = ("ent", a[1], a[3], a[2])
                    if a in A.cplx:
                        A.cplx.add(b)
                    a = b
                q = mul(q, atom(a))
            r = add(r, q)
        return r

    # ------------------------------------------------------------ symmetric local matrices
    def sym(self, A, m, f, tri):
        """is this matrix value (of routine f) symmetric?  True / False / None"""
        if isinstance(m, tuple) and m and m[0] == "m":
            for k, v in m[1]:
                pass

            def s(x):
                if isinstance(x, tuple) and x and x[0] == "call":
                    return self.symret(x[1]) is True
                if self.isloc(A, x):
                    return self.symloc(A, self.unloc(x), f, tri) is True
                return False
            t = mt(m, s)
            n = ("m", frozenset((tuple((x, False if s(x) else tr) for x, tr in k), v) for k, v in m[1]))
            return n == t
        if isinstance(m, tuple) and m and self.isloc(A, m):
            return self.symloc(A, self.unloc(m), f, tri)
        return None

    def isloc(self, A, x):
        x = self.unloc(x)
        return isinstance(x, tuple) and len(x) == 2 and (x in A.contrib or ("set", x) in A.contrib)

    def unloc(self, x):
        return x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "loc" else x

    def symloc(self, A, l, f, tri):
        """a local matrix filled entry by entry"""
        key = (id(A), l)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        if ("set", l) in A.contrib:
            r = None
        else:
            r = self.closed(A, A.contrib[l], f, tri)[0]
        self.memo[key] = r
        return r

    def symret(self, q):
        """does this helper return a symmetric matrix?"""
        if q in self.memo:
            return self.memo[q]
        self.memo[q] = None
        res = []
        for f in self.P.byq.get(q, []):
            if not f.get("body"):
                continue
            try:
                A = self.assembly(f, tri=False)
            except Giveup:
                res.append(None)
                continue
            for r in A.rets:
                x = self.sym(A, r, f, False)
                res.append(x)
                self.helper = (f, A)
                if x is False:
                    self.why = f
        self.memo[q] = None if not res or None in res else all(res)
        if self.memo[q]:
            self.cov["helpers_symmetric"] += 1
        return self.memo[q]

    def kerret(self, q):
        """does this helper return a matrix whose rows add up to zero?"""
        if q in self.kmemo:
            return self.kmemo[q]
        self.kmemo[q] = None
        res = []
        for f in self.P.byq.get(q, []):
            if not f.get("body"):
                continue
            try:
                A = self.assembly(f, tri=False)
            except Giveup:
                res.append(None)
                continue
            for r in A.rets:
                res.append(self.ker(A, r))
        self.kmemo[q] = None if not res or None in res else all(res)
        if self.kmemo[q]:
            self.cov["helpers_kernel"] += 1
        return self.kmemo[q]

    def ker(self, A, m):
        if isinstance(m, tuple) and m and m[0] == "m":
            out = []
            for k, v in m[1]:
                x, tr = k[-1]
                if tr:
                    return None
                out.append(self.kerret(x[1]) if isinstance(x, tuple) and x and x[0] == "call" else self.ker(A, x) if self.isloc(A, x) else None)
            return None if None in out else all(out)
        if self.isloc(A, m):
            l = self.unloc(m)
            cons = A.contrib.get(l, []) + A.contrib.get(("set", l), [])
            return not self.rowsums(A, cons, False)
        return None

    # ------------------------------------------------------------ the rules
    def closed(self, A, cons, f, tri):
        """(True, None) if the contributions are their own conjugate transpose; (False, entry) if not; (None, why) if not decided"""
        r = self.closed1(A, cons, f, tri, False)
        if r[0] is False and self.closed1(A, cons, f, tri, True)[0]:
            return None, "symmetric if two index ranges are the same"
        return r

    def closed1(self, A, cons, f, tri, loose):
        groups = {}
        for con in cons:
            dom, conds, r, c, v, line = self.normal(A, con, tri)
            if not isp(v):
                return None, "value not understood"
            groups.setdefault((dom, conds), []).append((r, c, v, line))
        for (dom, conds), es in groups.items():
            gs = self.autos(A, dom, conds, tri, loose)

            def canon(r, c, v):
                best = None
                for g in gs:
                    x = (g(r), g(c), self.entsym(A, g(v), f, tri))
                    k = repr(x[:2]), repr(x[2])
                    if best is None or k < best[0]:
                        best = (k, x)
                return best[1]
            tot = {}
            lines = {}
            for r, c, v, line in es:
                for (a, b, w), s in (((r, c, v), 1), ((c, r, A.conj(v)), -1)):
                    x = canon(a, b, w)
                    tot[x[:2]] = add(tot.get(x[:2], ZERO), x[2], s)
                    lines.setdefault(x[:2], line)
            bad = [k for k, v in tot.items() if v != ZERO]
            if bad:
                if any(opaque(x) for k in bad for x in k) or any(len(opaques(tot[k])) > 1 for k in bad) or any(d[0] == "other" for d in dom):
                    return None, "values carried across iterations"
                # a local matrix that is not known to be symmetric
                for k in bad:
                    for m, _ in tot[k][1]:
                        for a in m:
                            if isinstance(a, tuple) and a and a[0] == "ent":
                                s = self.sym(A, a[1], f, tri)
                                if s is None and isinstance(a[1], tuple) and a[1] and a[1][0] == "m":
                                    for kk, _ in a[1][1]:
                                        for x, _ in kk:
                                            if isinstance(x, tuple) and x and x[0] == "call" and self.symret(x[1]) is None:
                                                return None, "local matrix not understood"
                                elif s is None:
                                    return None, "local matrix not understood"
                                elif s is False and isinstance(a[1], tuple) and a[1] and a[1][0] == "m":
                                    if any(isinstance(x, tuple) and x and x[0] == "call" and self.symret(x[1]) is None for kk, _ in a[1][1] for x, _ in kk if len(kk) == 1):
                                        return None, "local matrix not understood"
                return False, min(lines[k] or 0 for k in bad)
        return True, None

    def rowsums(self, A, cons, trivial, tri=False):
        """lines of the rows whose values do not add up to zero; None if not decided"""
        groups = {}
        for con in cons:
            dom, conds, r, c, v, line = self.normal(A, con, tri)
            if not isp(v):
                return None
            if trivial:
                v = self.notransport(v)
            groups.setdefault((dom, conds), []).append((r, v, line))
        # contributions of an outer loop that are sums over an inner one: fold the inner loop
        allrows = {}
        for (dom, conds), es in groups.items():
            gs = self.autos(A, dom, conds, tri)
            tot, lines = {}, {}
            for r, v, line in es:
                best = min(((repr(g(r)), repr(g(v))), g(r), g(v)) for g in gs)
                tot[best[1]] = add(tot.get(best[1], ZERO), best[2])
                lines.setdefault(best[1], line)
            for r, v in tot.items():
                if v != ZERO:
                    allrows.setdefault(r, []).append((dom, conds, v, lines[r]))
        bad = []
        for r, xs in allrows.items():
            bad += xs
        return bad

    def notransport(self, v):
        def tr(a):
            return isinstance(a, tuple) and a and (a[0] == "data" and fname(str(a[1])) in TRANSPORT or a[0] == "pow" and isp(a[1]) and any(tr(x) for m, _ in a[1][1] for x in m))
        r = ZERO
        for m, c in v[1]:
            q = const(c)
            for a in m:
                if not tr(a):
                    q = mul(q, atom(a))
            r = add(r, q)
        return r

    def foldsums(self, cons):
        return cons

    # ------------------------------------------------------------ one routine
    def routine(self, f, tri):
        P = self.P
        try:
            A = self.assembly(f, tri)
        except Giveup:
            return
        self.cov["routines"] += 1
        mats = {}
        for l, src in A.links.items():
            key = src if src in A.contrib else None
            name = fname(l[1]) if l[0] == "F" else None
            if name is None:
                for q, vs in A.alias.items():
                    if ("loc", l) in vs:
                        name = fname(q)
                if name is None and any(mentions(r, lambda x: x == ("loc", l)) for r in A.rets):
                    name = f["f"].split("/")[-1] + ":" + f["n"]
            if name and key:
                mats[name] = A.contrib[key]
        for t in A.contrib:
            if t[0] == "F":
                mats.setdefault(fname(t[1]), A.contrib[t])
        for name, cons in mats.items():
            self.cov["contributions"] += len(cons)
            self.transport(A, f, name, cons, tri)
            if name in HERM_FIELDS or name in HERM_FNS:
                ok, why = self.closed(A, cons, f, tri)
                if ok is None:
                    self.cov["hermitian_undecided"] += 1
                    self.samples.append("undecided: %s (%s)" % (name, why))
                else:
                    self.cov["hermitian_decided"] += 1
                    self.samples.append("%s: %d contributions, equal to their conjugate transpose" % (name, len(cons))) if ok else None
                if ok is False:
                    cplx = any(A.cx(c[4]) for c in cons)
                    self.find("hermitian:" + name, "%s is not assembled %s: the entries added here are not matched by their %stransposes" % (
                        name, "Hermitian" if cplx else "symmetric", "conjugate " if cplx else ""), f, why)
            if name in KERNEL:
                self.kernel(A, f, name, cons, tri)
            if name in DIAG:
                bad = [c for c in cons if c[2] != c[3]]
                if bad and (opaque(bad[0][2]) or opaque(bad[0][3])):
                    self.cov["diagonal_undecided"] += 1
                else:
                    self.cov["diagonal_decided"] += 1
                    if bad:
                        self.find("diagonal:" + name, "%s is a diagonal matrix, but this adds an entry off the diagonal" % name, f, bad[0][5])
            if name in INTERP:
                self.interpolation(A, f, name, cons, tri)
            if name in BLOCKS:
                self.realblocks(A, f, name, cons)
            if name == "vertexGalerkinMassMatrix":
                self.galerkin(A, f, name, cons, tri)
        # matrices made of a vector
        for l, d in A.diag.items():
            if l[0] == "F" and fname(l[1]) in DIAG:
                self.cov["diagonal_decided"] += 1
        self.hodge(A, f)
        if "d0" in mats and "d1" in mats:
            self.exact(A, f, mats["d0"], mats["d1"], "d0", "d1")
        if "polygonD0" in mats and "polygonD1" in mats:
            self.exact(A, f, mats["polygonD0"], mats["polygonD1"], "polygonD0", "polygonD1")
        self.inverse(A, f)

    def kernel(self, A, f, name, cons, tri):
        # local matrices
        ents = [c for c in cons if isp(c[4]) and any(isinstance(a, tuple) and a and a[0] == "ent" for m, _ in c[4][1] for a in m)]
        if ents:
            if len(ents) == len(cons) == 1 and len(cons[0][4][1]) == 1:
                (m, c), = cons[0][4][1]
                if len(m) == 1:
                    k = self.ker(A, m[0][1])
                    if k is None:
                        self.cov["kernel_undecided"] += 1
                    else:
                        self.cov["kernel_decided"] += 1
                        if not k:
                            self.find("kernel:" + name, "%s does not annihilate constant functions: the rows of the local matrices added here do not add up to zero" % name, f, cons[0][5])
                    return
            self.cov["kernel_undecided"] += 1
            return
        trivial = name.endswith("ConnectionLaplacian")
        # an inner sum added on the diagonal by the outer loop: unfold it
        un = []
        for dom, conds, r, c, v, line in cons:
            if isp(v):
                keep = ZERO
                for m, k in v[1]:
                    s = [a for a in m if isinstance(a, tuple) and a and a[0] == "sum"]
                    if len(s) == 1 and s[0][1][0] == "adj":
                        rest = const(k)
                        for a in m:
                            if a != s[0]:
                                rest = mul(rest, atom(a))
                        for cs, dv in s[0][2]:
                            un.append((dom + (s[0][1],), conds + cs, r, c, mul(rest, dv), line))
                    else:
                        keep = add(keep, mk({m: k}))
                if keep != ZERO:
                    un.append((dom, conds, r, c, keep, line))
            else:
                un.append((dom, conds, r, c, v, line))
        bad = self.rowsums(A, un, trivial, False)
        if bad is None or bad and any(opaque(x[2]) or any(d[0] == "other" for d in x[0]) for x in bad):
            self.cov["kernel_undecided"] += 1
            return
        self.cov["kernel_decided"] += 1
        self.samples.append("%s: the values of each row add up to zero%s" % (name, " under trivial transport" if trivial else ""))
        if bad:
            self.find("kernel:" + name, "%s does not annihilate constant functions%s: the values added to a row here do not add up to zero" % (
                name, " when transport is trivial" if trivial else ""), f, bad[0][3])

    def galerkin(self, A, f, name, cons, tri):
        groups = {}
        for con in cons:
            dom, conds, r, c, v, line = self.normal(A, con, tri)
            if not isp(v) or opaque(v):
                return
            groups.setdefault((dom, conds), []).append((v, line))
        for (dom, conds), es in groups.items():
            if len(dom) != 1 or dom[0][0] not in ("faces", "halfedges of faces"):
                return
            tot = ZERO
            for v, _ in es:
                tot = add(tot, v)
            if len(tot[1]) != 1:
                return
            (m, c), = tot[1]
            if len(m) != 1 or not (isinstance(m[0], tuple) and m[0][0] == "data" and fname(str(m[0][1])) == "faceAreas"):
                return
            self.cov["mass_totals"] += 1
            want = 1 if dom[0][0] == "faces" else 1 / 3
            if abs(float(c) - want) > 1e-9:
                self.find("mass:" + name, "the entries %s adds for a face sum to %s of its area, not to its area" % (name, c if dom[0][0] == "faces" else c * 3), f, es[0][1])

    def exact(self, A, f, d0, d1, n0, n1):
        """d1 d0 = 0, with d0 = head - tail"""
        rows = {}
        for con in d0:
            dom, conds, r, c, v, line = self.normal(A, con, False)
            rows.setdefault((dom, conds, r), []).append((c, v, line))
        pot = None
        for (dom, conds, r), es in rows.items():
            if len(dom) != 1 or dom[0][0] not in ("edges", "halfedges", "halfedges of faces") or any(num(v) is None for _, v, _ in es):
                return
            h = ("H", dom[0][1], ())
            vals = {}
            for c, v, line in es:
                a = [x for m, _ in c[1] for x in m] if isp(c) else []
                if len(a) != 1 or a[0][0] != "data" or a[0][2][0] != "V":
                    return
                vals[a[0][2]] = vals.get(a[0][2], 0) + num(v)
            tail, head = A.V(h), A.V(A.H(h[1], ("n",)))
            pot = vals.get(head, 0), vals.get(tail, 0)
            self.cov["exactness"] += 1
            if set(vals) - {tail, head} or pot != (1, -1):
                self.find("d0:" + n0, "a row of %s is not (value at head) - (value at tail)" % n0, f, es[0][2])
                return
            kind = dom[0][0]
        if pot is None:
            return
        self.cov["exactness"] += 1
        seen = {}
        for con in d1:
            dom, conds, r, c, v, line = self.normal(A, con, False)
            if len(dom) != 1 or dom[0][0] != "halfedges of faces" or num(v) is None:
                return
            seen.setdefault(conds, []).append((r, c, num(v), line, dom[0][1]))
        for conds, es in seen.items():
            if len(es) != 1:
                return
            r, c, v, line, s = es[0]
            h = ("H", s, ())
            if kind == "edges":
                prim = None
                for t, b in conds:
                    if isinstance(t, tuple) and t and t[0] == "==" and h in t[1:] and any(isinstance(x, tuple) and x[0] == "H" and isinstance(x[1], tuple) and x[1][0] == "EH" and x[1][1] == A.E(h) and not x[2] for x in t[1:]):
                        prim = b
                    elif isinstance(t, tuple) and t == ("orient", h):
                        prim = b
                    else:
                        return
                if prim is None:
                    if not conds:
                        self.find("d1:" + n1, "%s gives every halfedge of a face the same sign, whichever way its edge points" % n1, f, line)
                    return
                if v != (1 if prim else -1):
                    self.find("d1:" + n1, "%s gives a halfedge that runs %s its edge the sign %s, so %s %s is not zero" % (n1, "along" if prim else "against", v, n1, n0), f, line)
            elif v != 1:
                self.find("d1:" + n1, "%s gives a halfedge of a face the sign %s, so the circulation is not taken along the face" % (n1, v), f, line)

    def interpolation(self, A, f, name, cons, tri):
        """a row interpolates: the weights at a vertex, and along an edge, add up to one, with 1 - t at the tail and t at the head; face coordinates go to the corners in order"""
        groups = {}
        for con in cons:
            dom, conds, r, c, v, line = self.normal(A, con, tri)
            if not isp(v) or not isp(c):
                return
            groups.setdefault((dom, conds), []).append((r, c, v, line))
        for (dom, conds), es in groups.items():
            tot = ZERO
            coords = []
            pts = set()
            for r, c, v, line in es:
                for t in (c, v):
                    mentions(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[1] in ("edge", "face", "vertex", "tEdge", "faceCoords") and (pts.add(x[2]), False)[1])
            if len(pts) > 1:
                self.find("interp:" + name, "an interpolation row mixes the coordinates of one point with the element of another", f, es[0][3])
                continue
            for r, c, v, line in es:
                a = [x for m, _ in c[1] for x in m]
                b = [x for m, _ in v[1] for x in m]
                if len(a) == 1 and len(b) == 1 and a[0][0] == "data" and a[0][2][:1] == ("V",) and b[0][0] == "data" and mentions(b[0], lambda x: x == "faceCoords"):
                    coords.append((a[0][2], b[0], line))
                tot = add(tot, v)
            if coords:
                if len(coords) != len(es) or any(x[0][1][:1] != ("H",) for x in coords):
                    return
                for el, co, line in coords:
                    h = el[1]
                    k = num(co[2])
                    if k is None or not isinstance(h[1], tuple) or h[1][0] != "Fh" or any(w != "n" for w in h[2]):
                        # the first corner is the face itself
                        return
                    if len(h[2]) != k:
                        self.find("interp:" + name, "a barycentric coordinate goes to the wrong corner: coordinate %s belongs to the vertex reached by %s steps from the face's halfedge" % (k, k), f, line)
                        return
                if len({c[1] for c in coords}) != 3:
                    self.find("interp:" + name, "an interpolation row inside a face does not use each of the three coordinates once", f, coords[0][2])
                self.cov["interpolation_rows"] += 1
                continue
            n = num(tot)
            if n is None and opaque(tot):
                continue
            self.cov["interpolation_rows"] += 1
            if n != 1:
                self.find("interp:" + name, "the weights of an interpolation row do not add up to one", f, es[0][3])
            for r, c, v, line in es:
                a = [x for m, _ in c[1] for x in m]
                if len(es) == 2 and len(a) == 1 and a[0][0] == "data" and a[0][2][:1] == ("V",) and a[0][2][1][:1] == ("H",) and mentions(v, lambda x: isinstance(x, tuple) and x[:2] == ("fld", "tEdge")):
                    w = a[0][2][1][2]
                    one = dict(v[1]).get((), 0)
                    if w == () and one != 1 or w == ("n",) and one != 0:
                        self.find("interp:" + name, "a point at parameter t of an edge must take weight 1 - t from the tail of the edge's halfedge and t from its head", f, line)

    def realblocks(self, A, f, name, cons):
        """a complex entry a + ib at (r, c) becomes the block [a -b; b a] at (2r, 2c)"""
        want = {(0, 0): ("re", 1), (0, 1): ("im", -1), (1, 0): ("im", 1), (1, 1): ("re", 1)}
        got = {}
        for con in cons:
            dom, conds, r, c, v, line = self.normal(A, con, False)
            if not isp(r) or not isp(c) or not isp(v):
                return
            i, j = dict(r[1]).get((), 0), dict(c[1]).get((), 0)
            if (i, j) in got or (i, j) not in want:
                return
            got[(i, j)] = (v, line, add(r, const(i), -1), add(c, const(j), -1))
        if set(got) != set(want) or len({x[2:] for x in got.values()}) != 1:
            return
        z = [a for a in self.atoms(add(got[(0, 0)][0], mul(const(3), got[(1, 0)][0]))) if a in A.cplx and a[0] != "conj"]
        if len(set(z)) != 1:
            return
        z = atom(z[0])
        self.cov["real_blocks"] += 1
        for k, (part, s) in want.items():
            w = A.re(z) if part == "re" else A.im(z)
            if s < 0:
                w = add(ZERO, w, -1)
            if got[k][0] != w:
                self.find("block:" + name, "the real form of a complex entry a + ib is the block [a -b; b a]: entry (%d, %d) is not" % k, f, got[k][1])
                return

    def hodge(self, A, f):
        for l, d in A.diag.items():
            if l[0] != "F":
                continue
            n = fname(l[1])
            if n.endswith("Inverse"):
                base = [d2 for l2, d2 in A.diag.items() if l2[0] == "F" and fname(l2[1]) == n[:-7]]
                if base:
                    self.cov["hodge_pairs"] += 1
                    if base[0][1] is None or d[1] is None or base[0][1] != d[1] and not d[2]:
                        continue                             # a vector of reciprocals: not decided
                    if base[0][1] != d[1] or d[2] == base[0][2]:
                        self.find("hodge:" + n, "%s is not the inverse of %s: it is built from another vector or not inverted" % (n, n[:-7]), f, f["l"])

    def atoms(self, v):
        for m, _ in v[1]:
            for a in m:
                if isinstance(a, tuple) and a and a[0] == "pow" and isp(a[1]):
                    yield from self.atoms(a[1])
                yield a

    def transport(self, A, f, name, cons, tri):
        for con in cons:
            dom, conds, r, c, v, line = self.normal(A, con, tri)
            if not isp(v) or not isp(r) or not isp(c):
                continue
            for a in self.atoms(v):
                if not (isinstance(a, tuple) and a[0] == "data" and fname(str(a[1])) in TRANSPORT and a[2][0] == "H"):
                    continue
                h = a[2]
                along = fname(str(a[1])) == TRANSPORT[0]
                tl, tp = (A.V(h), A.V(A.H(h[1], h[2] + ("n",)))) if along else (A.F(h), A.F(A.H(h[1], h[2] + ("t",))))
                R = [x[2] for m, _ in r[1] for x in m if isinstance(x, tuple) and x[0] == "data"]
                C = [x[2] for m, _ in c[1] for x in m if isinstance(x, tuple) and x[0] == "data"]
                if len(R) != 1 or len(C) != 1:
                    continue
                self.cov["transport_entries"] += 1
                if R[0] == tl and C[0] == tp and tl != tp:
                    self.find("transport:" + name, "the entry added to %s applies a transport that maps out of the element of its row: it must map from the element of the column "
                              "to the element of the row (the twin's transport)" % name, f, line)

    def inverse(self, A, f):
        """the transports of an edge are written as mutual inverses, each mapping its own side to the other"""
        groups = {}
        for dom, conds, b, el, v, line in A.writes:
            if isinstance(b, str) and b in TRANSPORT and isinstance(el, tuple) and el[0] == "H" and isp(v):
                groups.setdefault((dom, conds), {})[el] = (v, line)
        for g in groups.values():
            for h, (v, line) in g.items():
                t = A.H(h[1], h[2] + ("t",))
                if t in g:
                    self.cov["writes_transport"] += 1
                    if opaque(v) or opaque(g[t][0]):
                        continue
                    r1, r2 = self.ratio(v), self.ratio(g[t][0])
                    if r1 and r2:
                        wrong = (r1[0] > 0) != (r2[0] > 0) or (r1[1], r1[2]) != (r2[2], r2[1])
                    else:
                        wrong = A.cx(v) and self.plain(v) and g[t][0] in (v, add(ZERO, v, -1), add(ZERO, A.conj(v), -1))
                    if wrong:
                        self.find("inverse:" + f["n"], "the transports stored for the two halfedges of an edge are not inverse to each other", f, line)
                        break
                r = self.ratio(v)
                if r:
                    self.cov["writes_transport"] += 1
                    sign, top, bot = r
                    if (top, bot) == (h, t):
                        self.find("direction:" + f["n"], "the transport stored at a halfedge maps the far side's direction to its own side: it is the inverse of what is documented", f, line)
                    elif (top, bot) == (t, h) and sign > 0:
                        self.find("direction:" + f["n"], "the transport stored at a halfedge does not reverse the edge direction: the two sides see the edge pointing opposite ways", f, line)

    def plain(self, v):
        return all(isinstance(a, tuple) and a and a[0] in ("call", "conj") and (a[0] == "conj" or fname(str(a[1])) in ("unit", "normalize")) for m, _ in v[1] for a in m)

    def ratio(self, v):
        """(sign, h, k) if v = unit(sign * x[h] / x[k])"""
        if len(v[1]) != 1:
            return None
        (m, c), = v[1]
        if len(m) != 1 or c != 1 or not isinstance(m[0], tuple):
            return None
        a = m[0]
        cj = False
        if a[0] == "conj":
            a, cj = a[1], True
        if a[0] != "call" or fname(str(a[1])) not in ("unit", "normalize"):
            return None
        x = a[3][0] if a[3] else a[2]
        if not isp(x) or len(x[1]) != 1:
            return None
        (m, c), = x[1]
        if len(m) != 2:
            return None
        top = [y for y in m if y[0] == "data"]
        bot = [y[1] for y in m if y[0] == "inv" and isinstance(y[1], tuple) and y[1][0] == "data"]
        if len(top) != 1 or len(bot) != 1 or top[0][1] != bot[0][1] or top[0][2][0] != "H" or bot[0][2][0] != "H":
            return None
        t, b = top[0][2], bot[0][2]
        return (c, b, t) if cj else (c, t, b)


def relevant(f):
    src = f["f"]
    return "/repo" in src or True


def analyse(P):
    C = Check(P)
    names = set(HERM_FIELDS) | set(KERNEL) | set(DIAG) | set(TRANSPORT)
    for f in P.fns.values():
        if not f.get("body") or not f["q"].startswith("geometrycentral"):
            continue
        hit = f["f"].split("/")[-1] + ":" + f["n"] in HERM_FNS + INTERP + BLOCKS
        if not hit:
            for s in walk_stmts(f["body"]):
                for e in stmt_exprs(s):
                    for x in walk(e):
                        if x.get("k") == "mem" and x.get("n") in names and ("GeometryInterface" in x.get("q", "") or "BaseGeometry" in x.get("q", "")):
                            if "GeometryInterface" in (f.get("cls") or "") and not f["n"].startswith(("require", "unrequire", "refresh")):
                                hit = True
                if hit:
                    break
        if hit and f.get("kind") not in ("ctor", "dtor"):
            C.routine(f, "olygon" not in f["n"])
    seen = {}
    for x in C.F:
        seen.setdefault(x["key"], x)
    return {"findings": list(seen.values()), "coverage": C.cov, "samples": [s for s in C.samples if s][:40]}
