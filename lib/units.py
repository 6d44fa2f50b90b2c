"""Units of measure: every real-valued quantity carries an exponent of length; constraints are linear equations over Q, solved by
substitution, with one polymorphic summary per function (Kennedy-style units-of-measure inference) and one unit per class field."""
import sys, re
from fractions import Fraction as Fr
from ir import *

GC = "geometrycentral::"


def tparse(s):
    """'a::b<c, d>::e *' -> (name, [args], suffix)"""
    s = s.strip()
    changed = True
    while changed:
        changed = False
        for p in ("const ", "volatile ", "struct ", "class ", "typename "):
            if s.startswith(p):
                s = s[len(p):]
                changed = True
        for p in ("*", "&", " const", "*const"):
            if s.endswith(p):
                s = s[:-len(p)].strip()
                changed = True
        m = re.search(r"\[\d*\]$", s)
        if m:
            s = s[:m.start()].strip()
            changed = True
    i = s.find("<")
    if i < 0:
        return s, [], ""
    depth, args, cur = 0, [], ""
    for j in range(i, len(s)):
        c = s[j]
        if c in "<(":
            depth += 1
            if depth == 1:
                continue
        elif c in ">)":
            depth -= 1
            if depth == 0:
                break
        if c == "," and depth == 1:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
    args.append(cur.strip())
    return s[:i], args, s[j + 1:]


REAL = {"double", "float", "long double", GC + "Vector2", GC + "Vector3", GC + "UnitVector3", GC + "surface::BarycentricVector"}
BV = GC + "surface::BarycentricVector"
PASS = {"std::unique_ptr", "std::shared_ptr", "std::vector", "std::array", "std::deque", "std::list", "std::set", "std::unordered_set", "std::multiset",
        "std::complex", "std::initializer_list", "std::queue", "std::stack", "std::priority_queue", "std::optional", "std::reference_wrapper",
        "__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::_Deque_iterator", "std::_List_iterator", "std::_Rb_tree_const_iterator", "std::move_iterator",
        "std::back_insert_iterator", "std::complex"}
SOLVERS = {GC + x for x in ("LinearSolver", "Solver", "SquareSolver", "PositiveDefiniteSolver")}
_shape = {}


def shape(t):
    """'s' (one unit), ('tup', ...), ('map', k, v) or None (no unit)"""
    if not t:
        return None
    if t in _shape:
        return _shape[t]
    _shape[t] = None
    if re.search(r"\*\s*(const)?\s*\[\d*\]$", t):
        return None      # a table of pointers holds no quantity of its own
    n, a, suf = tparse(t)
    r = None
    if suf.startswith("::"):
        last = suf.rsplit("::", 1)[-1]
        if n.startswith("Eigen::") and last in ("InnerIterator", "ReverseInnerIterator", "Scalar", "RealScalar"):
            r = "s" if real_inside(t) else None
        elif last in ("iterator", "const_iterator", "value_type", "reference") and a:
            r = shape(a[0])
        _shape[t] = r
        return r
    if n in REAL:
        r = "s"
    elif n in PASS:
        r = shape(a[0]) if a and not (n == "std::array" and a[0].strip().endswith("*")) else None
    elif n == GC + "MeshData":
        r = shape(a[1])
    elif n in SOLVERS:
        r = "s" if real_inside(t) else None
    elif n.startswith("Eigen::") or n == GC + "Vector" or n == GC + "SparseMatrix" or n == GC + "DenseMatrix":
        r = "s" if real_inside(t) else None
    elif n in ("std::pair", "std::tuple"):
        r = ("tup",) + tuple(shape(x) for x in a)
    elif n in ("std::map", "std::unordered_map", "std::multimap"):
        r = ("map", shape(a[0]), shape(a[1]))
    elif n.startswith("std::_Rb_tree_iterator") or n.startswith("std::_Node_iterator") or n.startswith("std::__detail::_Node_"):
        r = shape(a[0])
    _shape[t] = r
    return r


def real_inside(t):
    return bool(re.search(r"\b(double|float|Vector2|Vector3|BarycentricVector)\b", t))


# ------------------------------------------------------------------ expressions over unit variables
def eadd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def escale(a, s):
    return {k: v * s for k, v in a.items()} if s else {}


class S:
    __slots__ = ("e", "kind")

    def __init__(self, e, kind=None):
        self.e, self.kind = e, kind


POLY, LIT = S({}, "poly"), S({}, "lit")
MIX = S({}, "mix")          # holds values of several units; nothing is known about one entry
DIM0 = S({})


class T:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class M:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v


class Lam:
    __slots__ = ("e", "env", "depth")

    def __init__(self, e, env):
        self.e, self.env, self.depth = e, env, 0


class J:
    """a value that has to be merged before it can be read"""
    __slots__ = ("a", "b", "val", "head")

    def __init__(self, a, b, head=False):
        self.a, self.b, self.val, self.head = a, b, None, head


class Sum:
    __slots__ = ("params", "ret", "soft", "done", "f", "outs")

    def __init__(self, f, params, ret):
        self.f, self.params, self.ret, self.soft, self.done = f, params, ret, [], False
        self.outs = [None] * len(params)


def fmt(x):
    if not x:
        return "dimensionless"
    return "length^%s" % x


class Units:
    def __init__(self, P, anchors=(), skip=(), opaque=(), retunits=None, params=None):
        self.P = P
        self.n = 0
        self.sub = {}
        self.glob = set()
        self.fields = {}
        self.sums = {}
        self.findings = {}
        self.eqs = 0
        self.softs = []
        self.skip = skip
        self.opaque = opaque
        self.cur = None
        self.line = 0
        self.softpend = []
        self.sites = 0
        self.params = {}
        for q, u in dict(anchors).items():
            self.fields[q] = MIX if u == "mix" else S({0: Fr(u)} if u else {})
        self.retunits = retunits or {}
        self.paramunits = params or {}

    # ---- solver
    def var(self, glob=False):
        self.n += 1
        if glob:
            self.glob.add(self.n)
        return S({self.n: Fr(1)})

    def res(self, e):
        todo = [k for k in e if k and k in self.sub]
        while todo:
            for k in todo:
                c = e.get(k)
                if not c:
                    continue
                r = self.sub[k]
                if any(x in self.sub for x in r):
                    r = self.sub[k] = self.res(r)
                e = eadd(eadd(e, {k: c}, -1), escale(r, c))
            todo = [k for k in e if k and k in self.sub]
        return e

    def eq(self, a, b, what=""):
        """a == b"""
        self.eqs += 1
        d = self.res(eadd(a, b, -1))
        vs = [k for k in d if k]
        if not vs:
            if d:
                self.report(a, b, what)
                return False
            return True
        loc = [k for k in vs if k not in self.glob]
        v = max(loc) if loc else max(vs)
        c = d[v]
        self.sub[v] = {k: -x / c for k, x in d.items() if k != v}
        return True

    def report(self, a, b, what, line=None, f=None, via=None):
        f = f or self.cur.f
        line = line or self.line
        a, b = self.res(a), self.res(b)
        a = a.get(0, 0) if not [k for k in a if k] else None
        b = b.get(0, 0) if not [k for k in b if k] else None
        if a is not None and b is not None:
            d = "%s meets %s" % (fmt(a), fmt(b))
        else:
            d = "units do not agree"
        key = (f["f"], f["q"].split("<")[0], line, what)
        if key not in self.findings:
            self.findings[key] = (f, line, what, d, via)

    # ---- values
    def fresh(self, sh, glob=False):
        if sh is None:
            return None
        if sh == "s":
            return self.var(glob)
        if sh[0] == "tup":
            return T(self.fresh(x, glob) for x in sh[1:])
        if sh[0] == "map":
            return M(self.fresh(sh[1], glob), self.fresh(sh[2], glob))

    def force(self, v):
        if isinstance(v, J):
            if v.val is None:
                a, b = self.force(v.a), self.force(v.b)
                v.val = self.unify(a, b, "values merged from different paths")
            return v.val
        return v

    def soft(self, e, what):
        self.softpend.append((e, self.cur.f, self.line, what, None))

    def unify(self, a, b, what=""):
        a, b = self.force(a), self.force(b)
        if what.startswith("values merged"):
            # a numeric default that is replaced on one of the paths
            if isinstance(a, S) and a.kind == "lit":
                return b
            if isinstance(b, S) and b.kind == "lit":
                return a
        if a is None or b is None or isinstance(a, Lam) or isinstance(b, Lam):
            return a if b is None else b
        if isinstance(a, S) and isinstance(b, S):
            if a.kind == "mix" or b.kind == "mix":
                return MIX
            if a.kind == "poly":
                return b
            if b.kind == "poly":
                return a
            if a.kind == "lit" and b.kind == "lit":
                return a
            if a.kind == "lit":
                self.soft(b.e, what)
                return b
            if b.kind == "lit":
                self.soft(a.e, what)
                return a
            self.eq(a.e, b.e, what)
            return a
        if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
            return T(self.unify(x, y, what) for x, y in zip(a.items, b.items))
        if isinstance(a, M) and isinstance(b, M):
            return M(self.unify(a.k, b.k, what), self.unify(a.v, b.v, what))
        if isinstance(a, M) and isinstance(b, T) and len(b.items) == 2:
            return M(self.unify(a.k, b.items[0], what), self.unify(a.v, b.items[1], what))
        if isinstance(b, M) and isinstance(a, T) and len(a.items) == 2:
            return self.unify(b, a, what)
        if isinstance(a, S) and a.kind == "poly":
            return b
        return a

    def quiet(self, a, b):
        """the common value of a and b, or a value nothing is known about"""
        if isinstance(a, J) and a.val is None:
            a = self.quiet(a.a, a.b)
        if isinstance(b, J) and b.val is None:
            b = self.quiet(b.a, b.b)
        a, b = self.force(a), self.force(b)
        if isinstance(a, S) and isinstance(b, S) and not a.kind and not b.kind:
            d = self.res(eadd(a.e, b.e, -1))
            if d and not [k for k in d if k]:
                return MIX
        return self.unify(a, b, "elements of one array")

    def lin(self, v, s):
        v = self.force(v)
        if not isinstance(v, S):
            return self.var()
        if v.kind:
            return v
        return S(escale(v.e, Fr(s)))

    def mul(self, a, b, s=1):
        a, b = self.force(a), self.force(b)
        if not isinstance(a, S):
            a = LIT if a is None else self.var()
        if not isinstance(b, S):
            b = LIT if b is None else self.var()
        if a.kind == "mix" or b.kind == "mix":
            return MIX
        if a.kind == "poly" or (b.kind == "poly"):
            return POLY
        if a.kind == "lit" and b.kind == "lit":
            return LIT
        return S(eadd(a.e, b.e, s))

    def dim0(self, v, what):
        v = self.force(v)
        if isinstance(v, S) and v.kind is None:
            self.eq(v.e, {}, what)

    def field(self, q, t):
        if any(q.startswith(x) for x in self.opaque):
            return self.fresh(shape(t))
        if q not in self.fields:
            self.fields[q] = self.fresh(shape(t), True)
        return self.fields[q]

    # ---- instantiation
    def inst(self, sm, args):
        ren = {}

        def cp(v):
            v = self.force(v)
            if isinstance(v, S):
                if v.kind:
                    return v
                return S(cpe(v.e))
            if isinstance(v, T):
                return T(cp(x) for x in v.items)
            if isinstance(v, M):
                return M(cp(v.k), cp(v.v))
            return v

        def cpe(e):
            e = self.res(e)
            out = {}
            for k, c in e.items():
                if k and k not in self.glob:
                    if k not in ren:
                        self.n += 1
                        ren[k] = self.n
                    out[ren[k]] = c
                else:
                    out[k] = c
            return out
        if not sm.done:
            return sm.params, sm.ret, [], [None] * len(sm.params)
        ps = [cp(p) for p in sm.params]
        r = cp(sm.ret)
        sf = [(cpe(e), f, l, w, via or (self.cur.f, self.line)) for e, f, l, w, via in sm.soft]
        return ps, r, sf, [cp(x) if x is not None else None for x in sm.outs]

    # ---- functions
    def skipped(self, f):
        return any(f["q"].startswith(x) for x in self.skip)

    def get(self, m):
        if m in self.sums:
            return self.sums[m]
        f = self.P.fns.get(m)
        if f is None:
            return None
        sm = Sum(f, [self.fresh(shape(p["t"])) for p in f["ps"]], self.fresh(shape(f.get("r"))))
        self.sums[m] = sm
        u = self.retunits.get(f["q"].split("<")[0])
        if u is not None and isinstance(sm.ret, S):
            self.eq(sm.ret.e, {0: Fr(u)} if u else {})
        for i, u in self.paramunits.get(f["q"].split("<")[0], {}).items():
            if i < len(sm.params) and isinstance(sm.params[i], S):
                self.eq(sm.params[i].e, {0: Fr(u)} if u else {})
        if self.skipped(f):
            sm.done = True
            return sm
        saved = (self.cur, self.line, self.softpend, getattr(self, "frame", None))
        self.cur, self.softpend = sm, []
        fin = None
        for dec in modes(f):
            w = W(self, sm)
            w.decide = dec
            w.fn(f)
            if w.env is not None:
                w.flush(None)
            for e in w.exits + [w.env]:
                fin = w.jenv(fin, e)
        for i, p in enumerate(f["ps"]):
            v = (fin or {}).get(p["d"])
            if p["d"] in w.refs and isinstance(v, (S, J)) and v is not sm.params[i] and isinstance(sm.params[i], S):
                v = self.force(v)
                if isinstance(v, S) and not v.kind:
                    sm.outs[i] = v
        # obligations: decided here, exported to callers, or left to the end
        pv = set()

        def coll(v):
            v = self.force(v)
            if isinstance(v, S):
                pv.update(k for k in self.res(v.e) if k and k not in self.glob)
            elif isinstance(v, T):
                for x in v.items:
                    coll(x)
            elif isinstance(v, M):
                coll(v.k)
                coll(v.v)
        for v in sm.params + [sm.ret] + sm.outs:
            coll(v)
        for ob in self.softpend:
            e = self.res(ob[0])
            vs = {k for k in e if k}
            if not vs:
                self.softcheck(ob)
            elif vs <= self.glob:
                self.softs.append(ob)
            elif vs & pv:
                sm.soft.append(ob)
        sm.done = True
        self.cur, self.line, self.softpend, _ = saved
        return sm

    def softcheck(self, ob):
        e, f, l, w, via = ob
        e = self.res(e)
        if not [k for k in e if k] and e.get(0, 0):
            self.report(e, {}, "numeric constant: " + w, l, f, via)

    def finish(self):
        for ob in self.softs:
            self.softcheck(ob)


def lit_poly(v):
    try:
        return float(v) == 0
    except ValueError:
        return v in ("nullptr",)


SAME1 = set("norm transpose conjugate real imag adjoint sum mean minCoeff maxCoeff cast col row block segment head tail diagonal asDiagonal array matrix eval value "
            "coeff coeffRef operator() operator[] replicate cwiseAbs abs rowwise colwise lpNorm stableNorm triangularView selfadjointView derived middleRows middleCols "
            "leftCols rightCols topRows bottomRows topLeftCorner bottomRightCorner topRightCorner bottomLeftCorner begin end cbegin cend rbegin rend at front back top data get find operator* operator-> "
            "trace toDense toVector reinterpretTo pop_front valueRef raw colRange finished template noalias reshaped conj x y z w "
            "operator++ operator-- base emplace lower_bound upper_bound asPermutation norm2_ pruned makeCompressed topLeft leftCols innerVector innerVectors "
            "real_ selfadjoint llt ldlt partialPivLu fullPivLu householderQr colPivHouseholderQr jacobiSvd bdcSvd singularValues eigenvalues operatorNorm".split())
UNIFY_ARGS = set("push_back emplace_back push emplace insert fill assign resize setConstant operator= operator+= operator-= operator+ operator- cwiseMin cwiseMax cwiseEqual "
                 "fromVector swap lazyAssign isApprox isMuchSmallerThan push_front emplace_front append setFromTriplets setValues compute analyzePattern factorize "
                 "operator, operator<< operator== operator!= operator< operator> operator<= operator>= addTo subTo conservativeResize setDefault".split())
MULS = {"operator*", "cwiseProduct", "dot", "cross", "operator*=", "kroneckerProduct", "lazyProduct"}
ZERO = {"normalized", "stableNormalized"}
LITS = {"Ones", "Identity", "setOnes", "setIdentity"}


INTS = {"int", "unsigned int", "unsigned long", "long", "long long", "unsigned long long", "short", "unsigned short", "bool"}


def modecond(c):
    """a test of a parameter against a constant (the same throughout the call)"""
    c = strip(c)
    if c.get("k") == "bin" and c["op"] in ("==", "!="):
        a, b = strip(c["a"][0]), strip(c["a"][1])
        if a.get("k") == "lit" or (a.get("k") == "ref" and a.get("dk") == "enum"):
            a, b = b, a
        if a.get("k") == "ref" and a.get("dk") == "param" and (b.get("k") == "lit" or (b.get("k") == "ref" and b.get("dk") == "enum")) and shape(a.get("t")) is None:
            return (a["d"], c["op"], b.get("v") or b.get("n"))
    if c.get("k") == "ref" and c.get("dk") == "param" and c.get("t", "").replace("const ", "") == "bool":
        return (c["d"], "==", "true")
    return None


def modes(f):
    """ways to decide the parameter tests that occur more than once"""
    n = collections.Counter()
    for st in walk_stmts(f["body"]):
        if st["s"] == "if":
            n[modecond(st["c"])] += 1
    for e in walk_stmt(f["body"]):
        if e.get("k") == "lam":
            for st in walk_stmts(e["body"]):
                if st["s"] == "if":
                    n[modecond(st["c"])] += 1
    n.pop(None, None)
    assigned = set()
    for e in walk_stmt(f["body"]):
        if e.get("k") == "asg" and strip(e["a"][0]).get("k") == "ref":
            assigned.add(strip(e["a"][0]).get("d"))
    keys = [k for k, c in n.items() if c > 1 and k[0] not in assigned][:3]
    out = [{}]
    for k in keys:
        out = [dict(o, **{}) for o in out for _ in (0, 1)]
        for i, o in enumerate(out):
            o[k] = bool(i & 1)
    return out


class W:
    """one function body"""

    def __init__(self, U, sm):
        self.U, self.sm = U, sm
        self.env = {}
        self.refs = set()
        self.loops = []
        self.exits = []
        self.alias = {}
        self.decide = {}

    def fn(self, f):
        U = self.U
        for p, v in zip(f["ps"], self.sm.params):
            self.env[p["d"]] = v
            t = p["t"].strip()
            if (t.endswith("&") and not t.startswith("const ")) or t.endswith("*"):
                self.refs.add(p["d"])
        U.line = f.get("l", 0)
        self.ret = [self.sm.ret]
        for i in f.get("inits", []):
            v = self.ev(i.get("e")) if i.get("e") else None
            if i.get("mem") and v is not None:
                rec = (f.get("cls") or "")
                q = i["mem"] if "::" in i["mem"] else rec + "::" + i["mem"]
                t = self.fieldtype(q)
                if t:
                    U.unify(U.field(q, t), v, "member initialiser of " + short(q))
        self.run(f["body"])

    def fieldtype(self, q):
        c, n = q.rsplit("::", 1)
        r = self.U.P.recs.get(c)
        for x in (r or {}).get("fields", ()):
            if x["n"] == n:
                return x["t"]
        return None

    # ---------------- environments
    def jenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for d in a:
            if d in b:
                x, y = a[d], b[d]
                out[d] = x if x is y else self.merge(x, y)
        for d in b:
            out.setdefault(d, b[d])
        for d in a:
            out.setdefault(d, a[d])
        return out

    def merge(self, x, y):
        if isinstance(x, S) and isinstance(y, S):
            if x.kind == "poly":
                return y
            if y.kind == "poly":
                return x
            if x.kind == y.kind and (x.kind or self.U.res(x.e) == self.U.res(y.e)):
                return x
        if x is None:
            return y
        if y is None:
            return x
        if isinstance(x, Lam) or isinstance(y, Lam):
            return x
        return J(x, y)

    # ---------------- statements
    def run(self, s):
        if s is None or self.env is None:
            return
        U = self.U
        if s.get("l"):
            U.line = s["l"]
        k = s["s"]
        if k == "block":
            for c in s["b"]:
                if self.env is None:
                    break
                self.run(c)
        elif k == "expr":
            self.ev(s["e"])
        elif k == "decl":
            for v in s["vs"]:
                self.decl(v)
        elif k == "if":
            self.run(s.get("init"))
            if s.get("cv"):
                self.decl(s["cv"])
            self.ev(s["c"])
            e0 = self.env
            m = modecond(s["c"])
            if m in self.decide:
                if self.decide[m]:
                    self.run(s["t"])
                else:
                    self.run(s.get("e"))
                return
            self.env = dict(e0)
            self.run(s["t"])
            e1 = self.env
            self.env = dict(e0)
            if s.get("e"):
                self.run(s["e"])
            self.env = self.jenv(e1, self.env)
        elif k in ("for", "while", "do", "rfor"):
            self.loop(s)
        elif k == "switch":
            self.ev(s["c"])
            self.loops.append({"k": "switch", "brk": None, "cont": None})
            e0 = self.env
            cur = dict(e0)
            body = s["b"]["b"] if s["b"] and s["b"]["s"] == "block" else [s["b"]]
            for c in body:
                if c and c["s"] in ("case", "default"):
                    while c and c["s"] in ("case", "default"):
                        c = c["b"]
                    self.env = self.jenv(dict(e0), cur if cur is not None and cur != e0 else None)
                else:
                    self.env = cur
                if self.env is not None:
                    self.run(c)
                cur = self.env
            fr = self.loops.pop()
            self.env = self.jenv(self.jenv(cur, fr["brk"]), dict(e0))
        elif k in ("case", "default"):
            self.run(s["b"])
        elif k == "return":
            if s.get("e"):
                v = self.ev(s["e"])
                U.line = s.get("l") or U.line
                if v is not None:
                    self.ret[-1] = self.join_ret(self.ret[-1], v)
            self.flush(None)
            if len(self.ret) == 1:
                self.exits.append(self.env)
            self.env = None
        elif k == "break":
            if self.loops:
                self.loops[-1]["brk"] = self.jenv(self.loops[-1]["brk"], self.env)
            self.env = None
        elif k == "continue":
            for l in reversed(self.loops):
                if l["k"] == "loop":
                    l["cont"] = self.jenv(l["cont"], self.env)
                    break
            self.env = None
        elif k == "try":
            e0 = dict(self.env)
            self.run(s["b"])
            out = self.env
            for h in s["h"]:
                self.env = self.jenv(dict(e0), None)
                self.run(h)
                out = self.jenv(out, self.env)
            self.env = out

    def join_ret(self, r, v):
        U = self.U
        if r is None:
            return v
        x = U.unify(r, v, "value returned")
        return x

    def decl(self, v):
        U = self.U
        t = v["t"]
        sh = shape(t)
        val = self.ev(v["i"], want=t) if v.get("i") else None
        val = val if v.get("i") else (POLY if sh == "s" else U.fresh(sh))
        if v.get("binds"):
            vv = U.force(val)
            items = vv.items if isinstance(vv, T) else [vv.k, vv.v] if isinstance(vv, M) else None
            for i, b in enumerate(v["binds"]):
                x = items[i] if items and i < len(items) else None
                self.env[b["d"]] = x
                self.refs.add(b["d"])
        if isinstance(val, (Lam,)):
            self.env[v["d"]] = val
            return
        if sh is None:
            self.env[v["d"]] = None
            if t.strip().endswith("&") or t.strip().endswith("*"):
                self.refs.add(v["d"])
            return
        if val is None:
            val = U.fresh(sh)
        if isinstance(val, S) and sh != "s" and isinstance(sh, tuple):
            val = U.fresh(sh)
        self.env[v["d"]] = val
        if t.strip().endswith("&") and not t.strip().startswith("const "):
            self.refs.add(v["d"])
        else:
            self.refs.discard(v["d"])

    def assigned(self, s):
        out = set()

        def root(e):
            e = strip(e)
            while isinstance(e, dict):
                if e["k"] == "ref":
                    if e.get("dk") in ("local", "param"):
                        out.add(e["d"])
                    return
                if e["k"] == "call" and (e.get("cn") in ("operator[]", "operator()", "at", "coeffRef", "insert", "row", "col", "block", "operator*", "operator->", "operator,", "operator<<", "x", "y", "z", "head", "tail", "segment", "diagonal", "back", "front")) :
                    e = strip(e.get("o") or (e["a"][0] if e.get("a") else None))
                elif e["k"] == "call" and e.get("f") == "std::tie":
                    for x in e["a"]:
                        root(x)
                    return
                elif e["k"] in ("mem", "idx"):
                    e = strip(e.get("b") or (e.get("a") or [None])[0])
                elif e["k"] == "un":
                    e = strip(e["a"][0])
                else:
                    return
        if s["s"] == "rfor" and s["v"]["t"].strip().endswith("&"):
            root(s["r"])
        for e in walk_stmt(s):
            k = e["k"]
            if k == "asg":
                root(e["a"][0])
            elif k == "call":
                if e.get("op") and e["op"] not in ("[]", "()", "->"):
                    root(e.get("o") or (e["a"][0] if e.get("a") else None))
                elif e.get("o") and not e.get("const"):
                    root(e["o"])
                for a in e.get("a") or ():
                    if strip(a).get("k") == "ref":
                        root(a)
        return out

    def loop(self, s):
        U = self.U
        k = s["s"]
        if k == "for":
            self.run(s.get("init"))
        rv = self.ev(s["r"]) if k == "rfor" else None
        if self.env is None:
            return
        entry = dict(self.env)
        head = {}
        for d in self.assigned(s):
            if d in entry and d not in self.refs and isinstance(entry[d], (S, J, T)):
                sh = U.force(entry[d]) if not isinstance(entry[d], J) else None
                if isinstance(sh, T):
                    continue
                self.env[d] = head[d] = J(entry[d], U.var(), True)
        self.loops.append({"k": "loop", "brk": None, "cont": None})
        pre = None
        if k == "while":
            if s.get("cv"):
                self.decl(s["cv"])
            self.ev(s["c"])
            pre = dict(self.env)
        elif k == "for":
            if s.get("c"):
                self.ev(s["c"])
            pre = dict(self.env)
        elif k == "rfor":
            pre = dict(self.env)
            v = s["v"]
            x = U.force(rv)
            if isinstance(x, M):
                x = T([x.k, x.v])
            self.env[v["d"]] = x if shape(v["t"]) is not None else None
            if v["t"].strip().endswith("&"):
                self.refs.add(v["d"])
                r0 = strip(s["r"])
                if r0.get("k") == "ref" and r0.get("dk") in ("local", "param"):
                    self.alias[v["d"]] = r0["d"]
            for i, b in enumerate(v.get("binds") or ()):
                self.env[b["d"]] = x.items[i] if isinstance(x, T) and i < len(x.items) else None
        self.run(s["b"])
        fr = self.loops[-1]
        self.env = self.jenv(self.env, fr["cont"])
        if self.env is not None:
            self.flush(None)
        if fr["brk"] is not None:
            sv, self.env = self.env, fr["brk"]
            self.flush(None)
            self.env = sv
        if self.env is not None:
            if k == "for" and s.get("inc"):
                self.ev(s["inc"])
            if k == "do":
                self.ev(s["c"])
        self.loops.pop()
        end = self.env
        for d, h in head.items():
            b = end.get(d) if end else None
            if b is not None and b is not h and h.val is not None:
                U.unify(h.b, b, "value carried around a loop")
        out = None
        for x in (pre if k != "do" else None, end, fr["brk"]):
            out = self.jenv(out, x)
        if out is None:
            self.env = None
            return
        # simplify heads
        for d, h in head.items():
            v = out.get(d)
            out[d] = self.unhead(v, h)
        self.env = out

    def unhead(self, v, h):
        if v is h:
            return h.val if h.val is not None else h.a
        if isinstance(v, J) and v.val is None:
            a, b = self.unhead(v.a, h), self.unhead(v.b, h)
            if getattr(self, "scaled", None) and v.b is not h and id(b) in self.scaled:
                return b
            return self.merge(a, b) if (a is not v.a or b is not v.b) else v
        return v

    # ---------------- expressions
    def ev(self, e, want=None):
        if not isinstance(e, dict):
            return None
        U = self.U
        if e.get("l"):
            U.line = e["l"]
        return getattr(self, "x_" + e["k"], self.x_default)(e)

    def x_default(self, e):
        for c in kids(e):
            self.ev(c)
        return U_fresh(self.U, e)

    def x_lit(self, e):
        t = e.get("t", "")
        if lit_poly(str(e.get("v"))):
            return POLY
        if t in ("bool", "char"):
            return None
        try:
            if abs(float(e["v"])) >= 1e8:
                return POLY      # "larger than anything"
        except ValueError:
            pass
        return LIT

    def x_str(self, e):
        return None
    x_null = x_this = x_enum = x_str

    def x_zero(self, e):
        return POLY

    def x_cast(self, e):
        v = self.ev(e["a"][0]) if e.get("a") else None
        if v is None and shape(e.get("t")) == "s":
            # an integer becoming a real number; anything else (raw bytes) may hold a value of any unit
            return LIT if (e["a"][0].get("t") or "").replace("const ", "") in INTS else self.U.fresh("s")
        if shape(e.get("t")) is None and e.get("t") in ("int", "unsigned long", "long", "unsigned int", "bool", "char", "long long"):
            return None
        return v
    x_definit = x_cast

    def x_defarg(self, e):
        return self.ev(e["a"][0]) if e.get("a") else POLY

    def x_ref(self, e):
        dk = e.get("dk")
        if dk in ("local", "param"):
            v = self.env.get(e["d"])
            if self.pend(e["d"]):
                self.flush(e["d"])
                v = self.env.get(e["d"])
            if isinstance(v, Lam):
                return v
            v = self.U.force(v)
            return v
        if dk == "global":
            if shape(e.get("t")) is None:
                return None
            q = e.get("q") or e.get("n")
            if q.rsplit("::", 1)[-1] in ("INFINITY", "infinity"):
                return POLY
            return LIT if "geometrycentral" in q or "PI" in q else self.U.field("global:" + q, e["t"])
        return None

    def pend(self, root):
        return any(isinstance(k, tuple) and k[0] == root for k in self.env)

    def x_mem(self, e):
        if isinstance(e.get("b"), dict) and e["b"].get("k") == "this" and self.pend(("F", e["q"], e["t"])):
            self.flush(("F", e["q"], e["t"]))
        b = e.get("b")
        bt = b.get("t", "") if isinstance(b, dict) else ""
        v = self.ev(b) if isinstance(b, dict) else None
        n = e["n"]
        if isinstance(v, T) and n in ("first", "second"):
            i = 0 if n == "first" else 1
            return v.items[i] if i < len(v.items) else None
        if isinstance(v, M) and n in ("first", "second"):
            return v.k if n == "first" else v.v
        if tparse(bt)[0] == BV and n in ("faceCoords", "edgeCoords"):
            return S(eadd(v.e, {0: Fr(-1)})) if isinstance(v, S) and v.kind is None else POLY if isinstance(v, S) and v.kind == "poly" else self.U.var()
        if shape(bt) == "s" and isinstance(v, S):
            return v if shape(e.get("t")) is not None else None
        if shape(e.get("t")) is None:
            return None
        q = e["q"]
        if q.rsplit("::", 1)[0] in (GC + "Vector2", GC + "Vector3"):
            return self.U.var()
        return self.U.field(q, e["t"])

    def elkey(self, e):
        """(container, index) for an element addressed by a literal or a plain variable"""
        e = strip(e)
        if e.get("k") == "idx":
            b, i = strip(e["a"][0]), strip(e["a"][1])
        elif e.get("k") == "call" and e.get("cn") in ("operator[]", "operator()") and e.get("o") and len(e.get("a") or ()) == 1:
            b, i = strip(e["o"]), strip(e["a"][0])
        else:
            return None
        if shape(e.get("t")) != "s" or shape(b.get("t")) != "s" or (tparse(b.get("t", ""))[0] in REAL and not b.get("t", "").endswith("]")):
            return None
        while i.get("k") == "ctor" and len(i.get("a") or ()) == 1:
            i = strip(i["a"][0])
        if i.get("k") == "lit":
            ix = i["v"]
            t = b.get("t", "")
            if re.search(r"\]\[", t):
                return None
        elif i.get("k") == "ref" and i.get("dk") in ("local", "param"):
            ix = ("v", i["d"])
        else:
            return None
        if b.get("k") == "ref" and b.get("dk") in ("local", "param") and isinstance(self.env.get(b["d"]), (S, J)):
            return (b["d"], ix)
        if b.get("k") == "mem" and isinstance(b.get("b"), dict) and b["b"].get("k") == "this":
            return (("F", b["q"], b["t"]), ix)
        return None

    def flush(self, root, ix=None):
        """elements written so far join their container"""
        ks = [k for k in self.env if isinstance(k, tuple) and (root is None or k[0] == root) and (ix is None or k[1] == ix)]
        for k in ks:
            v = self.env.pop(k)
            r = k[0]
            if isinstance(k[1], str) and not isinstance(r, tuple):
                # numbered slots of a small local array may hold different things
                self.env[r] = self.U.quiet(self.env.get(r), v)
                continue
            if isinstance(r, tuple):
                self.U.unify(self.U.field(r[1], r[2]), v, "element of " + short(r[1]))
            elif r in self.env:
                self.env[r] = self.U.unify(self.env[r], v, "elements of one container")

    def x_idx(self, e):
        ek = self.elkey(e)
        if ek in self.env:
            return self.U.force(self.env[ek])
        v = self.ev(e["a"][0])
        self.ev(e["a"][1])
        if isinstance(v, M):
            return v.v
        return v

    def x_cond(self, e):
        self.ev(e["a"][0])
        a, b = self.ev(e["a"][1]), self.ev(e["a"][2])
        return self.U.unify(a, b, "the two values of a conditional")

    def x_lam(self, e):
        l = Lam(e, self.env)
        return l

    def x_throw(self, e):
        for c in kids(e):
            self.ev(c)
        self.env_dead = True
        return None

    def x_un(self, e):
        op = e["op"]
        if op == "!":
            self.ev(e["a"][0])
            return None
        a = strip(e["a"][0])
        if op == "-" and a.get("k") == "lit":
            try:
                if float(a["v"]) == int(float(a["v"])):
                    return POLY      # -1: "not set"
            except ValueError:
                pass
        return self.ev(e["a"][0])

    def isreal(self, e):
        return shape(e.get("t")) == "s"

    def x_bin(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["a"][0])
            return self.ev(e["a"][1])
        a, b = e["a"]
        x, y = self.ev(a), self.ev(b)
        self.U.line = e.get("l") or self.U.line
        return self.arith(op, x, y, self.isreal(e), e)

    def arith(self, op, x, y, real, e):
        U = self.U
        if op in ("+", "-"):
            if not real and x is None and y is None:
                return None
            return U.unify(self.num(x), self.num(y), "operands of %s" % op)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            ops = ([e["o"]] if e.get("o") else []) + (e.get("a") or [])
            if any(strip(z).get("k") == "null" or "nullptr" in (z.get("t") or "") for z in ops):
                return None
            if isinstance(U.force(x), S) or isinstance(U.force(y), S):
                U.unify(self.num(x), self.num(y), "comparison %s" % op)
            return None
        if op == "*":
            if not real and x is None and y is None:
                return None
            return U.mul(self.num(x), self.num(y))
        if op == "/":
            if not real and x is None and y is None:
                return None
            return U.mul(self.num(x), self.num(y), -1)
        if op == "%":
            return None
        return None

    def num(self, v):
        v = self.U.force(v)
        return LIT if v is None else v

    def rootlocal(self, e):
        e = strip(e)
        while isinstance(e, dict):
            if e["k"] == "ref":
                return e["d"] if e.get("dk") in ("local", "param") else None
            if e["k"] == "call" and e.get("cn") in ("operator[]", "operator()", "at", "coeffRef", "row", "col", "block", "head", "tail", "segment", "diagonal", "operator<<", "operator,", "x", "y", "z", "insert", "back", "front", "data"):
                e = strip(e.get("o") or (e["a"][0] if e.get("a") else None))
            elif e["k"] == "mem" and shape((e.get("b") or {}).get("t")) == "s":
                e = strip(e["b"])
            elif e["k"] == "idx":
                e = strip(e["a"][0])
            elif e["k"] == "un" and e["op"] == "*":
                e = strip(e["a"][0])
            else:
                return None
        return None

    def whole(self, e):
        e = strip(e)
        return e.get("k") == "ref" and e.get("dk") in ("local", "param")

    def assign(self, tgt, val, what="assignment"):
        U = self.U
        t0 = strip(tgt)
        if t0.get("k") == "call" and t0.get("f") == "std::tie":
            v = U.force(val)
            for i, a in enumerate(t0["a"]):
                x = v.items[i] if isinstance(v, T) and i < len(v.items) else None
                if x is not None:
                    self.assign(a, x)
            return val
        if self.whole(t0) and t0["d"] not in self.refs:
            if val is None and shape(t0.get("t")) == "s":
                val = LIT
            if isinstance(val, Lam) or val is not None:
                self.env[t0["d"]] = val
            return val
        if t0.get("k") == "mem" and isinstance(t0.get("b"), dict) and tparse(t0["b"].get("t", ""))[0] in (GC + "Vector2", GC + "Vector3"):
            ek = self.elkey(t0["b"])
            if ek:
                cur = self.env.get(ek)
                self.env[ek] = self.num(val) if cur is None else U.unify(cur, self.num(val), what)
                return val
        ek = self.elkey(t0)
        if ek:
            x = self.num(val)
            if isinstance(x, S):
                if x.kind == "lit" and "Eigen::" in ((t0.get("o") or {}).get("t") or ""):
                    return x
                self.env[ek] = x
                return val
        cur = self.ev(tgt)
        if val is None:
            if isinstance(U.force(cur), S) and shape(t0.get("t")) == "s":
                val = LIT
            else:
                return cur
        d = self.rootlocal(tgt)
        c = U.force(cur)
        if d is not None and isinstance(c, S) and c.kind == "poly" and isinstance(U.force(val), S):
            self.env[d] = U.force(val)
            return val
        vf = U.force(val)
        if isinstance(vf, S) and vf.kind == "lit" and not self.whole(t0) and "Eigen::" in ((t0.get("o") or {}).get("t") or ""):
            return cur      # a constraint row or unit entry of a matrix
        r = U.unify(cur, val, what)
        if d is not None and isinstance(c, S) and c.kind == "lit" and isinstance(U.force(val), S) and U.force(val).kind is None:
            self.env[d] = val
        return r

    def x_asg(self, e):
        op = e["op"]
        tgt, rhs = e["a"]
        val = self.ev(rhs)
        self.U.line = e.get("l") or self.U.line
        if op == "=":
            return self.assign(tgt, val)
        return self.compound(op, tgt, val, e)

    def compound(self, op, tgt, val, e):
        U = self.U
        cur = self.ev(tgt)
        if not isinstance(U.force(cur), S):
            return cur
        val = self.num(val)
        ek = self.elkey(tgt)
        if op in ("+=", "-="):
            r = U.unify(cur, val, "operands of %s" % op)
            if ek and ek in self.env:
                self.env[ek] = r
                return r
            d = self.rootlocal(tgt)
            c = U.force(cur)
            if d is not None and c.kind in ("poly", "lit") and d not in self.refs:
                self.env[d] = r
            return r
        if op in ("*=", "/="):
            new = U.mul(cur, val, 1 if op == "*=" else -1)
            d = self.rootlocal(tgt)
            if ek and ek in self.env:
                self.env[ek] = new
                return new
            if isinstance(val, S) and val.kind is None and U.res(val.e):
                if d is not None:
                    self.env[d] = new
                    if d in self.alias:
                        d = self.alias[d]
                        self.env[d] = new
                        self.__dict__.setdefault("scaled", {})[id(new)] = new
                    elif not self.whole(strip(tgt)):
                        self.__dict__.setdefault("scaled", {})[id(new)] = new
            return new
        return cur

    # ---------------- calls
    def x_ctor(self, e):
        U = self.U
        t = e.get("t") or e.get("c")
        n, targs, _ = tparse(t or "")
        sh = shape(t)
        args = e.get("a") or []
        if n == BV and not (len(args) == 1 and tparse(args[0].get("t", ""))[0] == BV):
            vals = [self.ev(a) for a in args]
            ts = [tparse(a.get("t", ""))[0].rsplit("::", 1)[-1] for a in args]
            if len(args) == 2 and isinstance(U.force(vals[1]), S):
                x = U.force(vals[1])
                return POLY if x.kind == "poly" else S(eadd(x.e, {0: Fr(1)}))
            if len(args) == 2:
                return S({0: Fr(1)})     # between two points, or along a halfedge
            return POLY
        if sh == "s":
            vals = [(a, self.ev(a)) for a in args]
            U.line = e.get("l") or U.line
            r = POLY
            nums = 0
            for a, v in vals:
                if shape(a.get("t")) == "s" or (n in REAL) or n == "std::complex" or n.startswith("Eigen::Triplet"):
                    if n.startswith("Eigen::Triplet") and a is not args[-1]:
                        continue
                    nums += 1
                    r = U.unify(r, self.num(v), "parts of one %s" % short(n))
                elif isinstance(v, (S,)) and v is not None and real_inside(a.get("t", "")):
                    r = U.unify(r, v, "constructor argument")
            if r is POLY and nums == 0:
                return POLY
            return r
        if isinstance(sh, tuple):
            vals = [self.ev(a) for a in args]
            if len(vals) == 1:
                v = U.force(vals[0])
                if isinstance(v, (T, M)):
                    return v
            if sh[0] == "tup" and len(vals) == len(sh) - 1 and n in ("std::pair", "std::tuple"):
                return T(self.tupitem(v, s2) for v, s2 in zip(vals, sh[1:]))
            f = U.fresh(sh)
            for v in vals:
                if isinstance(v, Lam):
                    continue
                U.unify(f, v, "constructor argument")
            return f
        # opaque class
        sm = None if n.startswith(GC + "MeshData") else self.U.get(e.get("m"))
        if sm is not None:
            return self.apply(sm, args, e)
        for a in args:
            v = self.ev(a)
            if isinstance(v, Lam):
                self.runlam(v)
        if len(args) == 1 and sh is None and "function" in n:
            return self.ev(args[0])
        return None

    def tupitem(self, v, sh):
        if sh == "s" and v is None:
            return LIT
        return v

    def x_init(self, e):
        U = self.U
        t = e.get("t")
        sh = shape(t)
        vals = [self.ev(a) for a in e.get("a") or ()]
        if sh == "s":
            r = POLY
            for v in vals:
                r = U.unify(r, self.num(v) if not isinstance(U.force(v), T) else None, "parts of one value")
            return r
        if isinstance(sh, tuple):
            if sh[0] == "tup" and len(vals) == len(sh) - 1:
                return T(self.tupitem(v, s) for v, s in zip(vals, sh[1:]))
            f = U.fresh(sh)
            for v in vals:
                U.unify(f, v, "element of a list")
            return f
        # aggregate
        rec = U.P.recs.get(tparse(t or "")[0])
        if rec:
            for fd, v in zip(rec["fields"], vals):
                if v is not None and shape(fd["t"]) is not None:
                    U.unify(U.field(rec["n"] + "::" + fd["n"], fd["t"]), v, "member " + fd["n"])
        return vals[0] if len(vals) == 1 and sh is None and isinstance(vals[0], Lam) else None

    def x_new(self, e):
        r = None
        for c in kids(e):
            r = self.ev(c)
        return r if shape(e.get("t")) is not None else None

    def runlam(self, lam, args=None):
        U = self.U
        if lam.depth > 1:
            return None
        lam.depth += 1
        e = lam.e
        saved = (dict(self.env) if self.env is not None else None, self.loops, set(self.refs))
        if self.env is None:
            self.env = {}
        for d, v in (lam.env or {}).items():
            self.env.setdefault(d, v)
        self.loops = []
        for i, p in enumerate(e["ps"]):
            sh = shape(p["t"])
            v = args[i] if args is not None and i < len(args) else U.fresh(sh)
            if sh == "s" and v is None:
                v = LIT
            self.env[p["d"]] = v
            if p["t"].strip().endswith("&") and not p["t"].strip().startswith("const "):
                self.refs.add(p["d"])
        self.ret.append(None)
        self.run(e["body"])
        if self.env is not None:
            self.flush(None)
        r = self.ret.pop()
        after = self.env
        self.env, self.loops, self.refs = saved
        if self.env is not None and after is not None:
            for d in list(self.env):
                if d in after and after[d] is not self.env[d]:
                    self.env[d] = after[d]
        lam.depth -= 1
        return r

    def apply(self, sm, args, e, sms=None):
        U = self.U
        vals = [self.ev(a) for a in args]
        U.line = e.get("l") or U.line
        ret = None
        for s in [sm] + list(sms or ()):
            ps, r, sf, outs = U.inst(s, vals)
            U.sites += 1
            for p, v, a, fp, out in zip(ps, vals, args, s.f["ps"], outs):
                if isinstance(v, Lam):
                    continue
                v = U.force(v)
                if v is None and isinstance(p, S) and shape(a.get("t")) is None:
                    v = LIT
                U.unify(p, v, "argument %s of %s" % (fp["n"], short(s.f["q"])))
                pt = fp["t"].strip()
                if pt.endswith("&") and not pt.startswith("const ") and isinstance(v, S) and v.kind and self.whole(a):
                    self.env[strip(a)["d"]] = p
                if out is not None and self.rootlocal(a) is not None:
                    self.env[self.rootlocal(a)] = out
            U.softpend += sf
            ret = r if ret is None else U.unify(ret, r, "result of overriders")
        for v in vals:
            if isinstance(v, Lam):
                self.runlam(v)
        return ret

    def x_call(self, e):
        U = self.U
        f = e.get("f") or ""
        cn = e.get("cn") or f.rsplit("::", 1)[-1]
        o, args = e.get("o"), e.get("a") or []
        op = e.get("op")
        if f in ("std::move", "std::forward", "std::ref", "std::cref") and args:
            return self.ev(args[0])
        if cn == "__assert_fail":
            return None
        # assignment forms
        if op == "=" and o is not None:
            val = self.ev(args[0])
            U.line = e.get("l") or U.line
            return self.assign(o, val)
        if op in ("+=", "-=", "*=", "/=") :
            tgt = o if o is not None else args[0]
            val = self.ev(args[-1])
            U.line = e.get("l") or U.line
            if shape(tgt.get("t")) == "s":
                return self.compound(op, tgt, val, e)
        # calling a local lambda
        if (op == "()" or cn == "operator()") and o is not None:
            so = strip(o)
            if so.get("k") == "ref" and isinstance(self.env.get(so.get("d")), Lam):
                vals = [self.ev(a) for a in args]
                U.line = e.get("l") or U.line
                return self.runlam(self.env[so["d"]], vals)
        if not f and isinstance(e.get("fe"), dict):
            fe = strip(e["fe"])
            if fe.get("k") == "ref" and isinstance(self.env.get(fe.get("d")), Lam):
                return self.runlam(self.env[fe["d"]], [self.ev(a) for a in args])
        if cn == "operator[]" and o is not None and self.elkey(e) in self.env:
            return U.force(self.env[self.elkey(e)])
        ot = (o or {}).get("t", "")
        n, targs, suf = tparse(ot) if o is not None else ("", [], "")
        if o is not None and shape(ot) is not None:
            return self.valmethod(e, cn, o, args, n, ot)
        if cn.startswith("operator") and op and o is None and args and any(shape(a.get("t")) is not None for a in args):
            return self.freeop(e, op, args)
        if f.rsplit("::", 1)[0] in (GC + "Vector2", GC + "Vector3") and o is None:
            vals = [self.ev(a) for a in args]
            if cn == "fromAngle":
                U.dim0(vals[0], "argument of fromAngle")
                return DIM0
            if cn in ("zero", "undefined", "infinity"):
                return POLY
            if cn == "constant":
                return self.num(vals[0])
            if cn == "fromComplex":
                return vals[0]
            return U.fresh(shape(e.get("t")))
        if cn in ("horizontalStack", "verticalStack"):
            def leaves(x):
                x = strip(x)
                if x.get("k") in ("init", "ctor", "list") or (x.get("k") == "other"):
                    for c in kids(x):
                        leaves(c)
                else:
                    self.ev(x)
            for a in args:
                leaves(a)
            return MIX          # blocks of different units
        m = e.get("m")
        if f.startswith("std::") or m not in U.P.fns:
            r = self.extern(e, f, cn, o, args)
            return r
        if o is not None:
            self.ev(o)
        sm = U.get(m)
        over = []
        if e.get("virt") and not e.get("qual"):
            fn = U.P.fns[m]
            for mm in U.P.overriders.get(m, ()):
                s2 = U.get(mm)
                if s2 is not None and len(s2.params) == len(sm.params):
                    over.append(s2)
        r = self.apply(sm, args, e, over)
        if U.P.fns[m].get("cn") == "noreturn":
            self.env = None
        return r

    def freeop(self, e, op, args):
        U = self.U
        if op in ("<<", ">>") and not args[0].get("t", "").startswith("Eigen"):
            for a in args:
                self.ev(a)
            return None
        vals = [self.ev(a) for a in args]
        U.line = e.get("l") or U.line
        if len(vals) == 1:
            return vals[0]
        return self.arith(op, vals[0], vals[1], True, e)

    def valmethod(self, e, cn, o, args, n, ot):
        U = self.U
        v = U.force(self.ev(o))
        vals = [self.ev(a) for a in args]
        U.line = e.get("l") or U.line
        rs = shape(e.get("t"))
        op = e.get("op")
        if isinstance(v, (T, M)):
            if isinstance(v, M):
                if cn in ("operator[]", "at"):
                    if args and shape(args[0].get("t")) is not None:
                        U.unify(v.k, vals[0], "map key")
                    return v.v
                if cn in ("insert", "emplace"):
                    if len(vals) == 2:
                        U.unify(v, T(vals), "map entry")
                    elif vals:
                        U.unify(v, vals[0], "map entry")
                    return None
                if cn in ("begin", "end", "find", "operator*", "operator->"):
                    return v
                return None
            if cn in ("push_back", "push", "push_front", "insert", "assign", "resize"):
                for x in vals:
                    U.unify(v, x, "element stored by " + cn)
                return None
            if cn in ("emplace_back", "emplace"):
                if len(vals) == len(v.items):
                    U.unify(v, T(self.tupitem(x, "s" if isinstance(y, S) else None) for x, y in zip(vals, v.items)), "element stored by " + cn)
                elif len(vals) == 1:
                    U.unify(v, vals[0], "element stored by " + cn)
                return None
            if rs is not None:
                return v
            return None
        if not isinstance(v, S):
            v = U.var()
        if cn == "solve" and vals:
            x = U.mul(vals[0], v, -1)
            if len(vals) > 1:
                U.unify(vals[0 + 0], x, "solution") if False else self.assign_arg(args[0], vals[0], U.mul(vals[1], v, -1))
                return None
            return x
        if n == BV:
            if cn in ("norm", "inSomeFace", "inFace", "inEdge", "rotate90", "normalizedDisplacement"):
                return v
            if cn == "normalizeDisplacement":
                return None
        if n == GC + "Vector2" or n == GC + "Vector3":
            r = self.vec(cn, v, vals, n, e)
            if r is not NotImplemented:
                return r
        if cn in LITS:
            self.setlocal(o, LIT)
            return LIT
        if cn in ("setZero", "setRandom"):
            return v
        if cn in ZERO:
            return DIM0
        if cn in ("normalize",):
            self.setlocal(o, DIM0)
            return DIM0
        if cn in ("squaredNorm", "cwiseAbs2", "square", "abs2", "norm2"):
            return U.lin(v, 2)
        if cn in ("cwiseSqrt", "sqrt"):
            return U.lin(v, Fr(1, 2))
        if cn in ("cwiseInverse", "inverse"):
            return U.lin(v, -1)
        if cn in ("determinant", "prod", "unaryExpr", "binaryExpr", "pow", "exp", "log", "eigenvectors", "matrixU", "matrixV"):
            return U.fresh(rs) if rs is not None else None
        if cn in MULS:
            if vals:
                return U.mul(v, self.num(vals[0])) if shape(args[0].get("t")) is not None or op == "*" else v
            return v
        if cn in ("operator/", "cwiseQuotient") and vals:
            return U.mul(v, self.num(vals[0]), -1)
        if cn in ("operator-",) and not vals:
            return v
        if cn in ("operator,", "operator<<") and vals:
            x = U.force(vals[0])
            if isinstance(x, S) and (x.kind == "poly" or shape(args[0].get("t")) is None):
                return v
            x = self.num(x)
            if cn == "operator<<":
                r = x
            elif v.kind == "poly":
                r = x
            elif x.kind == "poly" or (v.kind == x.kind and (v.kind or U.res(v.e) == U.res(x.e))):
                r = v
            else:
                r = MIX         # rows of different units: no unit for the whole matrix
            self.setlocal(o, r)
            return r
        if cn in UNIFY_ARGS:
            r = v
            for a, x in zip(args, vals):
                xs = U.force(x)
                if isinstance(xs, S) and (real_inside(a.get("t", "")) or xs.kind is None) and shape(a.get("t")) == "s":
                    r = U.unify(r, xs, "value combined by " + cn)
                elif cn in ("operator,", "operator<<", "fill", "setConstant", "push_back", "push", "setDefault") and isinstance(xs, S):
                    r = U.unify(r, xs, "value combined by " + cn)
            if isinstance(v, S) and (v.kind in ("poly", "lit") or getattr(r, "kind", None) == "mix") and r is not v:
                self.setlocal(o, r)
            if cn.startswith("operator") and cn[8:] in ("==", "!=", "<", ">", "<=", ">="):
                return None
            return r if rs is not None else None
        if cn in SAME1 or cn in ("insert",):
            return v if rs is not None else None
        if rs == "s":
            # unknown operation
            return U.var()
        return U.fresh(rs)

    def assign_arg(self, a, old, new):
        if self.whole(a) and strip(a)["d"] not in self.refs:
            self.env[strip(a)["d"]] = new
        else:
            self.U.unify(old, new, "solution")

    def setlocal(self, o, v):
        d = self.rootlocal(o)
        if d is not None:
            self.env[d] = v

    def vec(self, cn, v, vals, n, e):
        U = self.U
        if cn in ("norm", "removeComponent", "rotate90", "rotate", "rotateAround", "conj", "operator-", "operator+", "operator[]", "operator*", "operator/") and (cn not in ("operator*", "operator/", "operator+", "operator-") or not vals):
            if cn == "rotate" and vals:
                U.dim0(vals[0], "angle of rotate")
            if cn == "removeComponent":
                pass
            return v
        if cn == "norm2":
            return U.lin(v, 2)
        if cn in ("normalize", "normalizeCutoff", "unit"):
            return DIM0
        if cn == "arg":
            return DIM0
        if cn == "inv":
            return U.lin(v, -1)
        if cn == "pow":
            return self.power(v, e["a"][0], vals[0])
        if cn in ("isFinite", "isDefined"):
            return None
        if cn == "buildTangentBasis":
            return DIM0
        return NotImplemented

    def power(self, b, ae, av):
        U = self.U
        a = strip(ae)
        sgn = 1
        while a.get("k") == "un" and a["op"] == "-":
            sgn, a = -sgn, strip(a["a"][0])
        if a.get("k") == "lit":
            return U.lin(b, sgn * Fr(str(float(a["v"]))))
        if a.get("k") == "bin" and a["op"] == "/" and all(strip(x).get("k") == "lit" for x in a["a"]):
            x, y = (Fr(str(float(strip(t)["v"]))) for t in a["a"])
            return U.lin(b, sgn * x / y)
        b = U.force(b)
        if isinstance(b, S) and not b.kind and not U.res(b.e):
            return DIM0
        return U.var()

    def extern(self, e, f, cn, o, args):
        U = self.U
        rs = shape(e.get("t"))
        if cn == "get" and f.startswith("std::get"):
            v = U.force(self.ev(args[0]))
            ta = e.get("ta") or []
            if isinstance(v, T) and ta:
                try:
                    return v.items[int(ta[0])]
                except (ValueError, IndexError):
                    return U.fresh(rs)
            return v if isinstance(v, S) else U.fresh(rs)
        if o is not None:
            self.ev(o)
        vals = [self.ev(a) for a in args]
        U.line = e.get("l") or U.line
        for v in vals:
            if isinstance(v, Lam):
                self.runlam(v)
        if cn in ("make_pair", "make_tuple", "tie", "forward_as_tuple") and isinstance(rs, tuple):
            return T(self.tupitem(v, s) for v, s in zip(vals, rs[1:])) if len(vals) == len(rs) - 1 else U.fresh(rs)
        if cn in ("infinity", "quiet_NaN", "Zero", "signaling_NaN", "Random"):
            return POLY
        if cn in ("epsilon", "max", "min", "lowest") and "numeric_limits" in f:
            return LIT if cn == "epsilon" else POLY
        if rs == "s" or any(isinstance(v, S) for v in vals):
            n = [self.num(v) for v in vals]
            if cn in ("sqrt",):
                return U.lin(n[0], Fr(1, 2))
            if cn == "cbrt":
                return U.lin(n[0], Fr(1, 3))
            if cn in ("abs", "fabs", "fabsf", "real", "imag", "conj", "accumulate", "min_element", "max_element", "find", "begin", "end", "copysign", "next", "prev", "forward", "adjacent_find", "lower_bound", "upper_bound", "make_unique_for", "unique", "remove", "complex") and n:
                return n[0] if rs is not None or cn in ("abs", "fabs") else None
            if cn in ("min", "max", "fmin", "fmax", "hypot", "clamp", "remainder", "fmod", "swap", "fill", "iota", "componentwiseMin", "componentwiseMax") and n:
                r = n[0]
                for x in n[1:]:
                    r = U.unify(r, x, "arguments of " + cn)
                return r
            if cn in ("exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "sinh", "cosh", "tanh", "log2", "log10", "erf") and n:
                U.dim0(n[0], "argument of " + cn)
                return DIM0
            if cn in ("atan2",):
                U.unify(n[0], n[1], "arguments of atan2")
                return DIM0
            if cn == "arg":
                return DIM0
            if cn == "norm" and n:
                return U.lin(n[0], 2)
            if cn == "polar" and len(n) == 2:
                U.dim0(n[1], "angle of polar")
                return n[0]
            if cn == "pow" and len(n) == 2:
                return self.power(n[0], args[1], n[1])
            if cn in ("round", "floor", "ceil", "trunc", "lround"):
                return n[0]
            if cn == "Constant":
                for a, v in zip(args, n):
                    if shape(a.get("t")) == "s":
                        return v
            if cn in ("Ones", "Identity"):
                return LIT
            if cn in ("ctor", "make_unique", "make_shared") and n:
                r = POLY
                for a, v in zip(args, n):
                    if real_inside(a.get("t", "")) and shape(a.get("t")) == "s":
                        r = U.unify(r, v, "constructor argument")
                return r if rs == "s" else None
        if cn in ("make_unique", "make_shared"):
            return U.fresh(rs)
        if cn in ("Ones", "Identity"):
            return LIT
        if cn in ("begin", "end") and len(vals) == 1:
            return vals[0]
        if cn == "swap" and len(vals) == 2:
            U.unify(vals[0], vals[1], "swap")
            return None
        return U.fresh(rs)


def U_fresh(U, e):
    return U.fresh(shape(e.get("t")))
