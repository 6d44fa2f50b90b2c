"""Value ranges: an interval analysis of floating point and integer scalars, flow sensitive, with branch refinement, squares, and
result / parameter ranges of library functions.  Decides that sqrt, acos and asin are called inside their domain."""
from ir import *
from math import inf

TOP = (-inf, inf)
NONNEG = (0.0, inf)
LENGTHS = {"edgeLengths", "inputEdgeLengths", "intrinsicEdgeLengths", "faceAreas", "vertexDualAreas", "rMinDist", "minDist"}
NUM = {"double", "float", "int", "long", "unsigned long", "unsigned int", "long long", "short", "char", "bool", "long double"}


def scalar(t):
    return (t or "").replace("const ", "").rstrip("& ").strip() in NUM


def hull(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else (lo, lo)


def fl(x):
    return 0.0 if x != x else x


def mul(a, b):
    ps = [0.0 if (x == 0 or y == 0) else x * y for x in a for y in b]
    return (min(ps), max(ps))


def add(a, b):
    return (fl(a[0] + b[0]) if a[0] > -inf and b[0] > -inf else -inf, a[1] + b[1] if a[1] < inf and b[1] < inf else inf)


def neg(a):
    return (-a[1], -a[0])


def square(a):
    m = max(abs(a[0]), abs(a[1]))
    lo = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
    return (lo * lo, m * m)


class Ranges:
    def __init__(self, P):
        self.P = P
        self.ret = {}
        self.params = {}
        self.busy = set()
        self.bykey = {}

    def result(self, m):
        if m in self.ret:
            return self.ret[m]
        f = self.P.fns.get(m)
        if m in self.busy or not f or not f.get("body") or not scalar(f.get("r", "")):
            return TOP
        self.busy.add(m)
        R = Range(self, f, quiet=True)
        R.go()
        out = None
        for st, s in R.returns:
            if s.get("e") is not None:
                v = R.val(s["e"], st)
                out = v if out is None else hull(out, v)
        self.busy.discard(m)
        self.ret[m] = out if out is not None else TOP
        return self.ret[m]


class Range(Flow):
    max_iter = 5

    def __init__(self, A, f, quiet=False, calls=None, pin=None):
        super().__init__()
        self.A, self.P, self.f, self.quiet, self.calls, self.pin = A, A.P, f, quiet, calls, pin or {}
        self.obs = {}
        self.lamargs = {}
        self.lams = None

    def closures(self):
        """named closures that are only ever called: declaration -> closure"""
        if "_closures" not in self.f:
            out, other, callee = {}, set(), set()
            for s in walk_stmts(self.f["body"]):
                if s["s"] == "decl":
                    for v in s["vs"]:
                        i = strip(v.get("i") or {})
                        while i.get("k") == "ctor" and len(i.get("a", [])) == 1:
                            i = strip(i["a"][0])
                        if i.get("k") == "lam":
                            out[v["d"]] = i
            if out:
                for x in walk_stmt(self.f["body"]):
                    if x.get("k") == "call" and x.get("cn") == "operator()" and x.get("o") is not None:
                        callee.add(id(strip(x["o"])))
                for x in walk_stmt(self.f["body"]):
                    if x.get("k") == "ref" and x.get("d") in out and id(x) not in callee:
                        other.add(x["d"])
            self.f["_closures"] = {d: l for d, l in out.items() if d not in other}
        return self.f["_closures"]

    def go(self):
        if self.closures():
            q, self.quiet = self.quiet, True
            self.go1()
            self.returns, self.throws, self.quiet = [], [], q
        return self.go1()

    def go1(self):
        st = {}
        for i, p in enumerate(self.f["ps"]):
            if i in self.pin and scalar(p["t"]):
                st["L%d." % p["d"]] = self.pin[i]
        for i in self.f.get("inits", []):
            if i.get("e") is not None:
                st = self.ev(i["e"], st)
        return self.run(self.f["body"], st)

    def join(self, a, b):
        return {k: hull(a[k], b[k]) for k in a if k in b}

    def widen(self, old, new, it):
        if it < 1:
            return new
        return {k: (v[0] if v[0] >= old[k][0] else (0.0 if v[0] >= 0 else -inf), v[1] if v[1] <= old[k][1] else inf) for k, v in new.items() if k in old}

    # keys of pure expressions
    def key(self, e):
        e = strip(e)
        k = e.get("k")
        if k == "ref":
            return "L%d." % e["d"] if e.get("dk") in ("local", "param") else "G%s." % e.get("q", e.get("n"))
        if k == "this":
            return "this."
        if k == "lit":
            return "#%s" % e["v"]
        if k == "mem":
            b = self.key(e["b"]) if e.get("b") else "this."
            return b and b + e["q"].split("::")[-1] + "."
        if k == "idx":
            a, b = self.key(e["a"][0]), self.key(e["a"][1])
            return a and b and "%s[%s]" % (a, b)
        if k == "un" and e["op"] in ("-", "+", "*"):
            a = self.key(e["a"][0])
            return a and "(%s%s)" % (e["op"], a)
        if k == "bin":
            a, b = self.key(e["a"][0]), self.key(e["a"][1])
            return a and b and "(%s %s %s)" % (a, e["op"], b)
        if k == "call":
            if e.get("o") is not None and not (e.get("const") or e["cn"] in ("operator[]", "operator()", "operator->", "operator*")):
                return None
            if e["cn"].startswith("random") or e["cn"].startswith("unitRand"):
                return None
            o = self.key(e["o"]) if e.get("o") is not None else ""
            if o is None:
                return None
            ks = [self.key(a) for a in e["a"]]
            return None if None in ks else "%s{%s|%s}" % (e["cn"], o, ",".join(ks))
        if k == "ctor" and len(e.get("a", [])) == 1:
            return self.key(e["a"][0])
        return None

    def base(self, t):
        t = (t or "").replace("const ", "").rstrip("& ").strip()
        if t.startswith("unsigned"):
            return (0.0, inf)
        if t == "bool":
            return (0.0, 1.0)
        return TOP

    def val(self, e, st):
        e0 = e
        e = strip(e)
        v = self.val0(e, st)
        k = self.key(e) if e.get("k") != "lit" else None
        if k and k in st:
            v = meet(v, st[k])
        return v

    def val0(self, e, st):
        k = e.get("k")
        if k == "lit":
            try:
                x = str(e["v"]).rstrip("fFlLuU")
                x = {"true": "1", "false": "0"}.get(x, x)
                x = float(x) if not x.startswith("0x") else float(int(x, 16))
                return (x, x)
            except ValueError:
                return TOP
        if k == "zero":
            return (0.0, 0.0)
        if k == "init" and len(e.get("a", [])) == 1:
            return self.val(e["a"][0], st)
        if k == "ref":
            if e.get("dk") == "global" and "PI" == e.get("n"):
                return (3.14159, 3.1416)
            return self.base(e.get("t"))
        if k in ("mem", "idx"):
            return NONNEG if self.nonneg(e) else self.base(e.get("t"))
        if k == "cond":
            a = self.val(e["a"][1], self.cond(e["a"][0], True, st) or st)
            b = self.val(e["a"][2], self.cond(e["a"][0], False, st) or st)
            return hull(a, b)
        if k == "un":
            if e["op"] == "-":
                return neg(self.val(e["a"][0], st))
            if e["op"] == "+":
                return self.val(e["a"][0], st)
            return self.base(e.get("t"))
        if k == "bin":
            op = e["op"]
            if op in ("<", ">", "==", "!=", "<=", ">=", "&&", "||"):
                return (0.0, 1.0)
            if not scalar(e.get("t", "double")):
                return TOP
            if op == "*":
                return self.product(e, st)
            a, b = self.val(e["a"][0], st), self.val(e["a"][1], st)
            r = TOP
            if op == "+":
                r = add(a, b)
            elif op == "-":
                r = add(a, neg(b))
            elif op == "/":
                if b[0] > 0 or b[1] < 0:
                    inv = (1 / b[1] if abs(b[1]) < inf else 0.0, 1 / b[0] if abs(b[0]) < inf else 0.0)
                    r = mul(a, inv)
                elif a[0] >= 0 and b[0] >= 0:
                    r = (0.0, inf)
                ka, kb = self.key(e["a"][0]), self.key(e["a"][1])
            elif op == "%":
                r = (0.0, inf) if a[0] >= 0 else TOP
            return meet(r, self.base(e.get("t"))) if "unsigned" in (e.get("t") or "") else r
        if k == "asg" and e.get("op", "=") == "=":
            return self.val(e["a"][1], st)
        if k == "call":
            return self.callval(e, st)
        if k == "ctor" and len(e.get("a", [])) == 1:
            return self.val(e["a"][0], st)
        return TOP

    def nonneg(self, e):
        """entries of quantities that are lengths or areas by definition"""
        e = strip(e)
        while e.get("k") == "idx" or (e.get("k") == "call" and e["cn"] in ("operator[]", "operator()")):
            e = strip(e["a"][0] if e["k"] == "idx" else e["o"])
        return e.get("k") == "mem" and e["q"].split("::")[-1] in LENGTHS

    def factors(self, e):
        e = strip(e)
        if e.get("k") == "bin" and e["op"] == "*":
            return self.factors(e["a"][0]) + self.factors(e["a"][1])
        return [e]

    def product(self, e, st):
        fs = self.factors(e)
        ks = [self.key(x) for x in fs]
        used, out = set(), (1.0, 1.0)
        for i, x in enumerate(fs):
            if i in used:
                continue
            j = next((j for j in range(i + 1, len(fs)) if j not in used and ks[i] and ks[i] == ks[j]), None)
            v = self.val(x, st)
            if j is not None:
                used.add(j)
                v = square(v)
            out = mul(out, v)
        k = self.key(e)
        if k and k in st:
            out = meet(out, st[k])
        return out

    def callval(self, e, st):
        cn, a = e["cn"], e["a"]
        f = e.get("f") or ""
        o = e.get("o")
        own = e.get("m") in self.P.fns and self.P.fns[e["m"]].get("body")
        if cn in ("operator[]", "operator()") and o is not None and self.nonneg(e):
            return NONNEG
        if cn == "operator()" and o is not None and "uniform_real_distribution" in (strip(o).get("t") or ""):
            return st.get((self.key(o) or "") + "~", TOP)
        if cn == "unitRand":
            return (0.0, 1.0)
        if cn == "randomReal" and len(a) == 2:
            return hull(self.val(a[0], st), self.val(a[1], st))
        if not own and (f.startswith("std::") or o is None or cn in ("norm", "squaredNorm", "size")):
            if cn in ("max", "fmax") and len(a) == 2:
                x, y = self.val(a[0], st), self.val(a[1], st)
                return (max(x[0], y[0]), max(x[1], y[1]))
            if cn in ("min", "fmin") and len(a) == 2:
                x, y = self.val(a[0], st), self.val(a[1], st)
                return (min(x[0], y[0]), min(x[1], y[1]))
            if cn in ("max", "min") and len(a) == 1:
                l = strip(a[0])
                es = next((x["a"] for x in walk(l) if x.get("k") == "init"), None)
                if es:
                    vs = [self.val(x, st) for x in es]
                    g = max if cn == "max" else min
                    return (g(v[0] for v in vs), g(v[1] for v in vs))
            if cn == "clamp" and len(a) == 3:
                x, l, h = (self.val(y, st) for y in a)
                return self.clamp(x, l, h)
            if cn in ("abs", "fabs", "sqrt", "hypot", "norm", "squaredNorm", "cabs"):
                if cn in ("abs", "fabs") and len(a) == 1 and scalar(strip(a[0]).get("t")):
                    x = self.val(a[0], st)
                    return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
                if cn == "sqrt" and len(a) == 1:
                    x = self.val(a[0], st)
                    return (max(0.0, x[0]) ** 0.5 if x[0] < inf else inf, x[1] ** 0.5 if 0 <= x[1] < inf else inf)
                return (0.0, inf)
            if cn in ("sin", "cos", "tanh"):
                return (-1.0, 1.0)
            if cn == "exp":
                return (0.0, inf)
            if cn == "acos":
                return (0.0, 3.1416)
            if cn in ("asin", "atan"):
                return (-1.5708, 1.5708)
            if cn == "atan2":
                return (-3.1416, 3.1416)
            if cn == "pow" and len(a) == 2:
                n = self.val(a[1], st)
                x = self.val(a[0], st)
                if n[0] == n[1] and n[0] == 2:
                    return square(x)
                if n[0] == n[1] and (n[0] % 2 == 0 or x[0] >= 0):
                    return (0.0, inf)
            if cn in ("infinity", "max", "epsilon") and not a and "numeric_limits" in f:
                return (0.0, inf)
            if cn in ("size", "length", "count", "rows", "cols"):
                return (0.0, inf)
            if cn in ("floor", "ceil", "round", "isfinite", "isnan"):
                x = self.val(a[0], st) if a else TOP
                return (x[0] - 1 if x[0] > -inf else -inf, x[1] + 1 if x[1] < inf else inf) if cn[0] != "i" else (0.0, 1.0)
        if own:
            n = short(self.P.fns[e["m"]]["q"])
            if cn == "clamp" and len(a) == 3:
                x, l, h = (self.val(y, st) for y in a)
                if self.A.result(e["m"]) == TOP:
                    return self.clamp(x, l, h)
            if cn in ("dot",) and len(a) == 2 and self.key(a[0]) and self.key(a[0]) == self.key(a[1]):
                return (0.0, inf)
            r = self.A.result(e["m"])
            pv = [self.val(x, st) for x in a]
            if r == TOP and any(v != TOP for v in pv) and scalar(e.get("t", "")) and len(self.A.busy) < 6 and e["m"] not in self.A.busy:
                r = self.inst(e["m"], pv)
            return r
        return self.base(e.get("t"))

    def inst(self, m, pv):
        """result range of a call with known argument ranges"""
        A = self.A
        key = (m, tuple(pv))
        if key in A.bykey:
            return A.bykey[key]
        A.bykey[key] = TOP
        A.busy.add(m)
        R = Range(A, self.P.fns[m], quiet=True, pin=dict(enumerate(pv)))
        R.go()
        out = None
        for st, s in R.returns:
            if s.get("e") is not None:
                v = R.val(s["e"], st)
                out = v if out is None else hull(out, v)
        A.busy.discard(m)
        A.bykey[key] = out or TOP
        return A.bykey[key]

    def clamp(self, x, l, h):
        lo, hi = max(x[0], l[0]), min(x[1], h[1])
        return (lo, hi) if lo <= hi else (l[0], h[1])

    # state
    def kill(self, st, tok, keep=None):
        return {k: v for k, v in st.items() if tok not in k or k == keep}

    def set(self, st, e, v):
        k = self.key(e)
        root = strip(e)
        while root.get("k") == "mem" and root.get("b") or root.get("k") == "idx":
            root = strip(root["b"] if root["k"] == "mem" else root["a"][0])
        t = self.key(root)
        if strip(e).get("k") == "ref":
            st = self.kill(st, k)
        elif k:
            lit = re.fullmatch(r".*\[#\d+\]", k)
            pre = k[:k.rindex("[")] + "[" if lit else None
            st = {x: y for x, y in st.items() if k not in x and not ("[" in k and t and t in x and not (lit and x.startswith(pre + "#")))}
        elif t:
            st = self.kill(st, t)
        if k and scalar(strip(e).get("t")) and v != TOP:
            st = dict(st)
            st[k] = v
        return st

    def decl(self, v, st):
        k = "L%d." % v["d"]
        st = self.kill(st, k)
        if "uniform_real_distribution" in v["t"] and v.get("i") is not None:
            c = strip(v["i"])
            while c.get("k") == "ctor" and len(c.get("a", [])) == 1:
                c = strip(c["a"][0])
            if c.get("k") == "ctor" and len(c.get("a", [])) >= 1:
                st[k + "~"] = hull(self.val(c["a"][0], st), self.val(c["a"][1], st) if len(c["a"]) > 1 else (1.0, 1.0))
            elif c.get("k") == "ctor":
                st[k + "~"] = (0.0, 1.0)
        if v.get("i") is not None and scalar(v["t"]):
            x = self.val(v["i"], st)
            if v["t"].rstrip().endswith("&") and not v["t"].startswith("const"):
                return st
            if x != TOP:
                st[k] = x
        return st

    def rangevar(self, s, st):
        return self.kill(st, "L%d." % s["v"]["d"]) if s.get("v") else st

    def leaf(self, e, st):
        k = e.get("k")
        if k == "asg":
            op = e.get("op", "=")
            l, r = e["a"]
            if op == "=":
                return self.set(st, l, self.val(r, st) if scalar(strip(l).get("t")) else TOP)
            if scalar(strip(l).get("t")):
                v = self.val({"k": "bin", "op": op[:-1], "a": [l, r], "t": strip(l).get("t")}, st)
                return self.set(st, l, v)
            return self.set(st, l, TOP)
        if k == "un" and ("++" in e["op"] or "--" in e["op"]):
            v = self.val(e["a"][0], st)
            d = 1.0 if "++" in e["op"] else -1.0
            return self.set(st, e["a"][0], add(v, (d, d)))
        if k == "call" or k == "ctor":
            if k == "call" and e.get("op") == "=" and e.get("o") is not None:
                return self.set(st, e["o"], TOP)
            self.check(e, st)
            if e.get("cn") == "operator()" and e.get("o") is not None and strip(e["o"]).get("d") in self.closures():
                c = self.lamargs.setdefault(id(self.closures()[strip(e["o"])["d"]]), {})
                for i, a in enumerate(e["a"]):
                    v = self.val(a, st)
                    c[i] = hull(c[i], v) if i in c else v
            cal = self.P.fns.get(e.get("m"))
            if self.calls is not None and cal is not None:
                for i, a in enumerate(e.get("a") or []):
                    if i < len(cal["ps"]) and scalar(cal["ps"][i]["t"]):
                        v = self.val(a, st)
                        c = self.calls.setdefault(e["m"], {})
                        c[i] = hull(c[i], v) if i in c else v
            # what the call may write
            out = st
            o = e.get("o")
            if o is not None and not e.get("const") and "_distribution" not in (strip(o).get("t") or "") and e.get("cn") not in ("operator[]", "operator()", "operator->", "operator*", "begin", "end"):
                out = self.drop(out, o)
            for i, a in enumerate(e.get("a") or []):
                x = strip(a)
                if x.get("k") == "un" and x["op"] == "&":
                    out = self.drop(out, x["a"][0])
                elif cal is not None and i < len(cal["ps"]):
                    t = cal["ps"][i]["t"]
                    if t.rstrip().endswith("&") and not t.startswith("const"):
                        out = self.drop(out, x)
            return out
        if k == "lam":
            # what a closure writes may change whenever it is called: forget it; its own body starts from what never changes
            w = set()
            for x in walk_stmt(e["body"]):
                if x.get("k") == "asg" or (x.get("k") == "un" and ("++" in x["op"] or "--" in x["op"])):
                    t = strip(x["a"][0])
                    while t.get("k") == "mem" and t.get("b") or t.get("k") == "idx":
                        t = strip(t["b"] if t["k"] == "mem" else t["a"][0])
                    if t.get("k") == "ref":
                        w.add("L%d." % t["d"])
            for t in w:
                st = self.kill(st, t)
            once = self.once()
            sub = Range(self.A, dict(self.f, body=e["body"], ps=[], inits=[]), self.quiet, self.calls)
            sub.obs = self.obs
            sub.lamargs = self.lamargs
            sub.f["_closures"] = self.closures()
            args = self.lamargs.get(id(e), {}) if any(l is e for l in self.closures().values()) else {}
            pin = {"L%d." % p["d"]: args[i] for i, p in enumerate(e.get("ps") or []) if i in args and scalar(p.get("t", "double"))}
            sub.run(e["body"], {**pin, **{k: v for k, v in st.items() if re.fullmatch(r"L(\d+)\.", k) and int(k[1:-1]) in once}})
            return st
        return st

    def once(self):
        if "_once" not in self.f:
            n = {}
            for s in walk_stmts(self.f["body"]):
                if s["s"] == "decl":
                    for v in s["vs"]:
                        if v.get("i") is not None:
                            n[v["d"]] = n.get(v["d"], 0) + 1
            for x in walk_stmt(self.f["body"]):
                if x.get("k") == "asg" or (x.get("k") == "un" and ("++" in x["op"] or "--" in x["op"])):
                    t = strip(x["a"][0])
                    if t.get("k") == "ref":
                        n[t["d"]] = 9
            self.f["_once"] = {d for d, c in n.items() if c == 1}
        return self.f["_once"]

    def drop(self, st, e):
        root = strip(e)
        while root.get("k") == "mem" and root.get("b") or root.get("k") == "idx":
            root = strip(root["b"] if root["k"] == "mem" else root["a"][0])
        t = self.key(root)
        return self.kill(st, t) if t else st

    # branch refinement
    def branch(self, c, truth, st):
        c = strip(c)
        if c.get("k") != "bin" or c["op"] not in ("<", ">", "<=", ">=", "==", "!="):
            return st
        op, (a, b) = c["op"], c["a"]
        if not truth:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op == "!=":
            return st
        va, vb = self.val(a, st), self.val(b, st)
        tiny = 5e-324
        for x, vx, vy, o in ((a, va, vb, op), (b, vb, va, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            if not scalar(strip(x).get("t")):
                continue
            k = self.key(x)
            if k is None or k.startswith("#"):
                continue
            r = TOP
            if o in ("<", "<="):
                r = (-inf, vy[1] if o == "<=" or vy[1] != 0 else -tiny)
            elif o in (">", ">="):
                r = (vy[0] if o == ">=" or vy[0] != 0 else tiny, inf)
            elif o == "==":
                r = vy
            if r == TOP:
                continue
            if r[0] > vx[1] or r[1] < vx[0]:
                return None
            st = dict(st)
            st[k] = meet(st.get(k, TOP), meet(vx, r))
            n = strip(x)
            if n.get("k") == "un" and n["op"] == "-":
                k2 = self.key(n["a"][0])
                if k2:
                    st[k2] = meet(st.get(k2, TOP), neg(r))
            d = n
            if d.get("k") == "bin" and d["op"] == "-" and vy[0] >= 0 and o in (">", ">="):
                pass
        # a < b: b - a is positive
        ka, kb = self.key(a), self.key(b)
        if ka and kb and op in ("<", "<=", ">", ">="):
            lo, hi = (ka, kb) if op[0] == "<" else (kb, ka)
            st = dict(st)
            st["(%s - %s)" % (hi, lo)] = (0.0 if "=" in op else tiny, inf)
            st["(%s - %s)" % (lo, hi)] = (-inf, 0.0)
        return st

    DOMAIN = {"sqrt": (0.0, inf), "acos": (-1.0, 1.0), "asin": (-1.0, 1.0), "sqrtf": (0.0, inf), "acosf": (-1.0, 1.0), "asinf": (-1.0, 1.0)}

    def check(self, e, st):
        cn = e.get("cn")
        if self.quiet or e["k"] != "call" or cn not in self.DOMAIN or e.get("o") is not None or len(e["a"]) != 1 or e.get("m") in self.P.fns:
            return
        if not scalar(strip(e["a"][0]).get("t")):
            return
        v = self.val(e["a"][0], st)
        d = self.DOMAIN[cn]
        ok = v[0] >= d[0] and v[1] <= d[1]
        at = id(e)
        if at not in self.obs or self.obs[at][1]:
            self.obs[at] = (e, ok, v)
