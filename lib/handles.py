"""Typestate of SuiteSparse handles and of the results of fallible solver routines.

Functions are interpreted path by path over an abstract store that maps variables and fields to handles (live / freed), to the sets of values
a fallible routine may have returned, and to matrix dimensions.  Conditions narrow the sets; nothing is executed."""
from ir import strip, kids, short

ANY = ("?",)
NULL = ("null",)
# routine -> (kind of handle, index of the out-parameter or None for the return value, values of the returned status, values that mean success)
ALLOC = {
    "cholmod_l_allocate_sparse": ("sparse", None), "cholmod_l_allocate_dense": ("dense", None), "cholmod_l_transpose": ("sparse", None),
    "cholmod_l_copy_sparse": ("sparse", None), "cholmod_l_copy_dense": ("dense", None), "cholmod_l_zeros": ("dense", None), "cholmod_l_ones": ("dense", None),
    "cholmod_l_solve": ("dense", None), "cholmod_l_analyze": ("factor", None), "cholmod_l_triplet_to_sparse": ("sparse", None),
    "SuiteSparseQR_factorize": ("QR factorization", None), "SuiteSparseQR_solve": ("dense", None), "SuiteSparseQR_qmult": ("dense", None),
    "SuiteSparseQR_min2norm": ("dense", None),
    "umfpack_dl_symbolic": ("symbolic factorization", "sym"), "umfpack_zl_symbolic": ("symbolic factorization", "sym"),
    "umfpack_dl_numeric": ("numeric factorization", "num"), "umfpack_zl_numeric": ("numeric factorization", "num"),
}
FREE = {"cholmod_l_free_sparse": "sparse", "cholmod_l_free_dense": "dense", "cholmod_l_free_factor": "factor", "SuiteSparseQR_free": "QR factorization",
        "umfpack_dl_free_symbolic": "symbolic factorization", "umfpack_zl_free_symbolic": "symbolic factorization",
        "umfpack_dl_free_numeric": "numeric factorization", "umfpack_zl_free_numeric": "numeric factorization"}
# routine -> (returned values, success)
STATUS = {"umfpack_dl_symbolic": ((0, -1), None), "umfpack_zl_symbolic": ((0, -1), None),
          "umfpack_dl_numeric": ((0, 1, -1), (0,)), "umfpack_zl_numeric": ((0, 1, -1), (0,)),
          "umfpack_dl_solve": ((0, 1, -1), None), "umfpack_zl_solve": ((0, 1, -1), None),
          "cholmod_l_factorize": ((0, 1), (1,))}
MUSTNOTNULL = {"SuiteSparseQR_factorize"}
VALIDATE = {"checkFinite": "finite", "checkHermitian": "hermitian", "checkSymmetric": "symmetric"}


class St:
    def __init__(self):
        self.env, self.res, self.poss, self.need, self.facts, self.kind, self.where = {}, {}, {}, {}, frozenset(), {}, {}
        self.status = None

    def copy(self):
        s = St.__new__(St)
        s.env, s.res, s.poss, s.need = dict(self.env), dict(self.res), dict(self.poss), dict(self.need)
        s.facts, s.kind, s.where, s.status = self.facts, dict(self.kind), dict(self.where), self.status
        return s


class TooMany(Exception):
    pass


class Handles:
    def __init__(self, P, resfields=(), inline=lambda fn: True, maxpaths=600):
        self.P, self.inline, self.maxpaths = P, inline, maxpaths
        self.resfields = set(resfields)
        self.stored = {}            # field -> (kind, function, line)
        self.viol = []              # (what, key, text, line)
        self.n = 0
        self.calls = 0
        self.fields = set()
        self.lams = {}

    def run(self, f, ctor):
        """-> [(state, value, line, 'ret'|'throw')]"""
        self.f, self.ctor, self.fid, self.frames = f, ctor, 0, []
        fr = self.push(f)
        st = St()
        for p in f["ps"]:
            t = p["t"].rstrip()
            # what is written through a reference or a pointer to a pointer is the caller's
            if t.endswith("&") and not t.startswith("const"):
                st.env[(fr["id"], p["d"])] = ("alias", ("OUT", p["n"]))
                st.env[("OUT", p["n"])] = ("param", p["n"])
            elif t.replace(" ", "").endswith("**"):
                st.env[(fr["id"], p["d"])] = ("addr", ("OUT", p["n"]))
            else:
                st.env[(fr["id"], p["d"])] = ("param", p["n"])
        out = [(s, ANY, f["le"], "ret") for s in self.stmt(f["body"], [st], fr)]
        self.frames.pop()
        return out + fr["exit"]

    def push(self, f):
        self.fid += 1
        fr = {"id": self.fid, "fn": f, "exit": [], "loop": []}
        self.frames.append(fr)
        return fr

    # ---------------------------------------------------------------- statements
    def stmt(self, s, sts, fr):
        if s is None or not sts:
            return sts
        if len(sts) > self.maxpaths:
            raise TooMany()
        k = s["s"]
        if k == "block":
            for c in s["b"]:
                sts = self.stmt(c, sts, fr)
            return sts
        if k == "expr":
            return [x for st in sts for x, _ in self.ev(s["e"], st, fr)]
        if k == "decl":
            for v in s["vs"]:
                nx = []
                for st in sts:
                    if not v.get("i"):
                        st.env[(fr["id"], v["d"])] = ANY
                        nx.append(st)
                        continue
                    t = v["t"].rstrip()
                    if t.endswith("&"):
                        loc = self.loc(v["i"], st, fr)
                        if loc is not None:
                            st.env[(fr["id"], v["d"])] = ("alias", loc)
                            nx.append(st)
                            continue
                    for x, val in self.ev(v["i"], st, fr):
                        x.env[(fr["id"], v["d"])] = val
                        nx.append(x)
                sts = nx
            return sts
        if k == "if":
            if s.get("init"):
                sts = self.stmt(s["init"], sts, fr)
            T, F = [], []
            for st in sts:
                t, f = self.cond(s["c"], st, fr)
                T += t
                F += f
            return self.stmt(s["t"], T, fr) + (self.stmt(s["e"], F, fr) if s.get("e") else F)
        if k == "return":
            for st in sts:
                if s.get("e"):
                    fr["exit"] += [(x, v, s.get("l"), "ret") for x, v in self.ev(s["e"], st, fr)]
                else:
                    fr["exit"].append((st, ANY, s.get("l"), "ret"))
            return []
        if k in ("break", "continue"):
            if fr["loop"]:
                fr["loop"][-1] += sts
            return []
        if k in ("for", "while", "do", "rfor"):
            if s.get("init"):
                sts = self.stmt(s["init"], sts, fr)
            once = k == "do"
            out = [] if once else [st.copy() for st in sts]
            fr["loop"].append([])
            if s.get("c") and not once:
                cur = []
                for st in sts:
                    cur += self.cond(s["c"], st, fr)[0]
                sts = cur
            body = self.stmt(s["b"], sts, fr)
            return self.dedup(out + body + fr["loop"].pop())
        if k == "try":
            return self.stmt(s["b"], sts, fr)
        if k == "switch":
            fr["loop"].append([])
            out = [st.copy() for st in sts]
            b = self.stmt(s["b"], sts, fr)
            return self.dedup(out + b + fr["loop"].pop())
        if k in ("case", "default"):
            return self.stmt(s.get("b"), sts, fr) if isinstance(s.get("b"), dict) else sts
        return sts

    def dedup(self, sts):
        seen, out = set(), []
        for s in sts:
            k = (tuple(sorted(s.env.items(), key=repr)), tuple(sorted(s.res.items())), tuple(sorted(s.poss.items())), s.facts)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    # ---------------------------------------------------------------- locations
    def loc(self, e, st, fr):
        e = strip(e)
        k = e.get("k")
        if k == "cast" and e.get("a"):
            return self.loc(e["a"][0], st, fr)
        if k == "ref" and e.get("dk") in ("local", "param"):
            key = (fr["id"], e["d"])
            v = st.env.get(key)
            return v[1] if v is not None and v[0] == "alias" else key
        if k == "ref" and e.get("dk") == "global":
            return ("G", e.get("q") or e.get("n"))
        if k == "mem":
            return ("F", e["q"])
        if k == "un" and e["op"] == "*":
            for x, v in self.ev(e["a"][0], st.copy(), fr):
                if v[0] == "addr":
                    return v[1]
        return None

    def read(self, loc, st):
        if loc in st.env:
            v = st.env[loc]
            return self.read(v[1], st) if v[0] == "alias" else v
        if loc[0] == "F":
            q = loc[1]
            self.fields.add(q)
            if q in self.resfields:
                if self.ctor:
                    return NULL
                i = "held by " + short(q)
                if i not in st.res:
                    st.res[i] = "live"
                    st.kind[i] = None
                    st.poss[i] = frozenset((0, 1))
                st.env[loc] = ("res", i)
                return st.env[loc]
            if q.endswith("::status") and st.status is not None:
                return ("int", st.status)
            if q.rsplit("::", 1)[-1] in ("nRows", "nCols"):
                return ("dim", q.rsplit("::", 1)[-1])
        return ANY

    def write(self, loc, val, st, line):
        if loc is None:
            return
        if loc[0] == "F":
            old = st.env.get(loc)
            if old is None and loc[1] in self.resfields and not self.ctor:
                old = self.read(loc, st)
            if old is not None and old[0] == "res" and st.res.get(old[1]) == "live" and old != val and 1 in st.poss.get(old[1], (1,)):
                self.viol.append(("overwritten", short(loc[1]), "%s is overwritten while it holds a %s that was not released" % (short(loc[1]), st.kind.get(old[1]) or "handle"), line))
            if val[0] == "res":
                self.stored.setdefault(loc[1], (st.kind.get(val[1]), self.f, line))
        st.env[loc] = val

    # ---------------------------------------------------------------- conditions
    def cond(self, c, st, fr):
        c = strip(c)
        k = c.get("k")
        if k == "un" and c["op"] == "!":
            t, f = self.cond(c["a"][0], st, fr)
            return f, t
        if k == "bin" and c["op"] in ("&&", "||"):
            t, f = self.cond(c["a"][0], st, fr)
            T, F = [], []
            for s in (t if c["op"] == "&&" else f):
                a, b = self.cond(c["a"][1], s, fr)
                T += a
                F += b
            return (T, f + F) if c["op"] == "&&" else (t + T, F)
        T, F = [], []
        for s, v in self.ev(c, st, fr):
            t, f = self.test(v, s)
            T += t
            F += f
        return T, F

    def test(self, v, st):
        """states where the value is true / false"""
        if v[0] == "not":
            t, f = self.test(v[1], st)
            return f, t
        if v[0] == "lit":
            return ([st], []) if v[1] else ([], [st])
        if v == NULL:
            return [], [st]
        if v[0] in ("int", "res"):
            return self.narrow(st, v[1], lambda x: bool(x))
        if v[0] == "pred":
            _, op, a, b = v
            fn = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, ">": lambda x, y: x > y,
                  "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y}[op]
            if a[0] in ("int", "res") and b[0] in ("lit", "null"):
                return self.narrow(st, a[1], lambda x: fn(x, b[1] if b[0] == "lit" else 0))
            if b[0] in ("int", "res") and a[0] in ("lit", "null"):
                return self.narrow(st, b[1], lambda x: fn(a[1] if a[0] == "lit" else 0, x))
            if a[0] in ("lit", "null") and b[0] in ("lit", "null"):
                r = fn(a[1] if a[0] == "lit" else 0, b[1] if b[0] == "lit" else 0)
                return ([st], []) if r else ([], [st])
            s2 = st.copy()
            if op in ("==", "!="):
                fact = ("same", frozenset((a, b)))
                (st if op == "==" else s2).facts |= {fact}
            else:
                x, y = (a, b) if op in ("<", "<=") else (b, a)           # true: x <(=) y, false: y <(=) x
                for s3, le in ((st, (x, y)), (s2, (y, x))):
                    s3.facts |= {("le",) + le}
                    if ("le", le[1], le[0]) in s3.facts:
                        s3.facts |= {("same", frozenset(le))}
            return [st], [s2]
        return [st.copy()], [st]

    def narrow(self, st, i, p):
        vals = st.poss.get(i, frozenset((0, 1)))
        t = frozenset(x for x in vals if p(x))
        f = vals - t
        out = []
        for vs in (t, f):
            if not vs:
                out.append([])
                continue
            s = st.copy()
            s.poss[i] = vs
            if i in s.res and 1 not in vs:
                s.res[i] = "none"
            out.append([s])
        return out

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        e = strip(e)
        k = e.get("k")
        args = [a for a in e.get("a") or [] if a.get("k") != "defarg"]
        if k == "cast" and len(args) == 1 or k == "ctor" and len(args) == 1 and not self.owner(e):
            return self.ev(args[0], st, fr)
        if k in ("ctor", "init") and args:
            # an object that takes the handle takes the responsibility
            out = [(st, ())]
            for a in args:
                out = [(y, vs + (v,)) for x, vs in out for y, v in self.ev(a, x, fr)]
            for s, vs in out:
                for v in vs:
                    if v[0] == "res" and s.res.get(v[1]) == "live":
                        s.res[v[1]] = "owned"
            return [(s, ANY) for s, _ in out]
        if k == "lit":
            v = str(e["v"])
            if v in ("true", "false"):
                return [(st, ("lit", int(v == "true")))]
            try:
                return [(st, ("lit", int(v)))]
            except ValueError:
                return [(st, ANY)]
        if k == "null" or (k == "ref" and e.get("n") in ("NULL", "nullptr")):
            return [(st, NULL)]
        if k in ("ref", "mem"):
            if k == "ref" and e.get("dk") == "enum" and e.get("v") is not None:
                return [(st, ("lit", int(e["v"])))]
            if k == "mem" and e.get("ar") and e.get("b") is not None and strip(e["b"]).get("k") == "ref":
                lb = self.loc(e["b"], st, fr)
                if lb is not None and lb in st.env and lb[0] != "F" and self.read(lb, st) == NULL:
                    self.viol.append(("use-after-free", short(e["q"]), "reads %s through a handle that is null or was released" % short(e["q"]), e.get("l")))
            l = self.loc(e, st, fr)
            return [(st, self.read(l, st) if l is not None else ANY)]
        if k == "un":
            if e["op"] == "&":
                l = self.loc(e["a"][0], st, fr)
                return [(s, ("addr", l) if l is not None else ANY) for s, _ in self.ev(e["a"][0], st, fr)]
            if e["op"] == "-":
                return [(s, ("lit", -v[1]) if v[0] == "lit" else ANY) for s, v in self.ev(e["a"][0], st, fr)]
            if e["op"] == "!":
                return [(s, ("not", v)) for s, v in self.ev(e["a"][0], st, fr)]
            if e["op"] == "*":
                return [(s, self.read(v[1], s) if v[0] == "addr" else ANY) for s, v in self.ev(e["a"][0], st, fr)]
            return [(s, ANY) for s, _ in self.ev(e["a"][0], st, fr)]
        if k == "bin":
            if e["op"] in ("&&", "||"):
                T, F = self.cond(e, st, fr)
                return [(x, ("lit", 1)) for x in T] + [(x, ("lit", 0)) for x in F]
            out = []
            for s, a in self.ev(e["a"][0], st, fr):
                for s2, b in self.ev(e["a"][1], s, fr):
                    out.append((s2, ("pred", e["op"], a, b) if e["op"] in ("==", "!=", "<", ">", "<=", ">=") else ANY))
            return out
        if k == "asg":
            out = []
            for s, v in self.ev(e["a"][1], st, fr):
                l = self.loc(e["a"][0], s, fr)
                if e["op"] == "=":
                    if l is None:
                        s = self.ev(e["a"][0], s, fr)[0][0]
                    self.write(l, v, s, e.get("l"))
                out.append((s, v))
            return out
        if k == "cond":
            T, F = self.cond(e["a"][0], st, fr)
            return [r for x in T for r in self.ev(e["a"][1], x, fr)] + [r for x in F for r in self.ev(e["a"][2], x, fr)]
        if k == "throw":
            self.frames[0]["exit"].append((st, ANY, e.get("l"), "throw" if len(self.frames) == 1 else "throw inside"))
            return []
        if k == "call":
            return self.call(e, st, fr)
        if k == "lam":
            self.lams[id(e), fr["id"]] = (e, fr)
            return [(st, ("lam", id(e), fr["id"]))]
        out = [st]
        for c in kids(e):
            out = [x for s in out for x, _ in self.ev(c, s, fr)]
        return [(x, ANY) for x in out]

    def owner(self, e):
        c = e.get("c") or ""
        if "unique_ptr" in c or "shared_ptr" in c:
            return True
        fn = self.P.fns.get(e.get("m"))
        return fn is not None and any(f.get("kind") == "dtor" and f.get("cls") == fn.get("cls") for f in self.P.fns.values())

    def call(self, e, st, fr):
        cn = e.get("cn") or ""
        base = cn.split("<")[0]
        f = e.get("f") or ""
        if cn == "operator->" or cn == "operator*" or cn == "get" and e.get("o") is not None:
            return [(s, ANY) for s, _ in self.ev(e["o"], st, fr)] if e.get("o") is not None else [(st, ANY)]
        if f in ("std::move", "std::forward"):
            return self.ev(e["a"][0], st, fr)
        sts = [(st, None)]
        if e.get("o") is not None:
            sts = self.ev(e["o"], st, fr)
        out = []
        for s0, ov in sts:
            args = [(s0, ())]
            for a in e.get("a") or []:
                args = [(y, vs + (v,)) for x, vs in args for y, v in self.ev(a, x, fr)]
            for s, vs in args:
                out += self.apply(e, base, f, s, ov, vs, fr)
        return out

    def new(self, st, kind, what, line):
        self.n += 1
        i = "%s@%s#%d" % (what, line, self.n)
        st.res[i] = "live"
        st.kind[i] = kind
        st.where[i] = line
        st.poss[i] = frozenset((1,))
        return i

    def apply(self, e, base, f, st, ov, vs, fr):
        line = e.get("l")
        if ov is not None and ov[0] == "lam" and e.get("cn") == "operator()":
            lam, outer = self.lams[ov[1], ov[2]]
            return self.inl({"ps": lam["ps"], "body": lam["body"], "le": line, "q": "lambda"}, e, st, vs, fr, outer)
        if base in FREE:
            self.calls += 1
            a = vs[0] if vs else ANY
            if a[0] == "addr":
                v = self.read(a[1], st)
                if v[0] == "res":
                    if st.res.get(v[1]) == "freed":
                        self.viol.append(("double-free", base, "a %s is released twice" % (st.kind.get(v[1]) or "handle"), line))
                    if st.kind.get(v[1]) and st.kind[v[1]] != FREE[base]:
                        self.viol.append(("wrong-free", base, "a %s is released by %s" % (st.kind[v[1]], base), line))
                    if st.res.get(v[1]) == "live":
                        st.res[v[1]] = "freed"
                st.env[a[1]] = NULL
            return [(st, ANY)]
        if base in ALLOC or base in STATUS:
            self.calls += 1
            for v in vs:
                if v[0] == "res" and st.res.get(v[1]) == "freed":
                    self.viol.append(("use-after-free", base, "%s uses a %s that was released" % (base, st.kind.get(v[1]) or "handle"), line))
            ret = ANY
            if base in ALLOC:
                kind, how = ALLOC[base]
                i = self.new(st, kind, base, line)
                if how is None:
                    ret = ("res", i)
                    st.poss[i] = frozenset((0, 1))  # null when the memory runs out
                    if base in MUSTNOTNULL:
                        st.need[i] = ((1,), base, line)
                else:
                    outs = [v for v in vs if v[0] == "addr"]
                    if outs:
                        self.write(outs[-1][1], ("res", i), st, line)
            if base in STATUS:
                vals, ok = STATUS[base]
                self.n += 1
                i = "%s@%s#%d" % (base, line, self.n)
                st.poss[i] = frozenset(vals)
                if ok is not None:
                    st.need[i] = (ok, base, line)
                ret = ("int", i)
                if base == "cholmod_l_factorize":
                    j = i + ".status"
                    st.poss[j] = frozenset((0, 1, -2))
                    st.need[j] = ((0, -2), "cholmod_l_factorize (not positive definite)", line)
                    st.status = j
            return [(st, ret)]
        if base in VALIDATE and e.get("a"):
            a = strip(e["a"][0])
            v = vs[0]
            self.frames[0]["exit"].append((st.copy(), ANY, line, "throw"))
            st.facts |= {(VALIDATE[base], v[1] if v[0] == "param" else a.get("n"))}
            return [(st, ANY)]
        if base in ("rows", "cols", "size") and ov is not None and ov[0] == "param":
            return [(st, ("dim", ov[1] + "." + ("rows" if base == "size" else base)))]
        if base.startswith("cholmod_") or base.startswith("umfpack_") or base.startswith("SuiteSparse"):
            for v in vs:
                if v[0] == "res" and st.res.get(v[1]) == "freed":
                    self.viol.append(("use-after-free", base, "%s uses a %s that was released" % (base, st.kind.get(v[1]) or "handle"), line))
            return [(st, ANY)]
        fn = self.P.fns.get(e.get("m"))
        if fn is not None and fn.get("body") and len(self.frames) < 7 and self.inline(fn) and fn not in [x["fn"] for x in self.frames]:
            return self.inl(fn, e, st, vs, fr, None)
        for v in vs:
            if v[0] == "res" and st.res.get(v[1]) == "freed":
                self.viol.append(("use-after-free", base, "%s uses a %s that was released" % (base, st.kind.get(v[1]) or "handle"), line))
        return [(st, ANY)]

    def inl(self, fn, e, st, vs, fr, outer):
        f2 = self.push(fn)
        if outer is not None:
            f2["id"] = outer["id"]
        for p, a, v in zip(fn["ps"], e.get("a") or [], vs):
            key = (f2["id"], p["d"])
            l = self.loc(a, st, fr) if p["t"].rstrip().endswith("&") else None
            if l is not None and v[0] != "param":
                st.env[key] = ("alias", l)
            else:
                st.env[key] = v
        out = self.stmt(fn["body"], [st], f2)
        self.frames.pop()
        return [(s, v) for s, v, _, k in f2["exit"] if k == "ret"] + [(s, ANY) for s in out]
