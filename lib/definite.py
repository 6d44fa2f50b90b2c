"""Definite assignment: every value is given before it is used.

Path-sensitive forward dataflow over a function body.  A state is a set of disjuncts (undefined locations, branch facts);
a branch condition over unmodified locals that is taken one way is remembered, so a value assigned under a condition and
used under the same condition is not reported.  Locations are scalar, pointer and enum locals, the scalar fields of local
records whose constructor leaves them unset, local arrays, and Eigen dense objects created with a size only.
A for- or range-for loop is taken to run at least once; a search loop (it leaves by break under an equality test) is taken to find.
"""
from ir import *
import re

SCALAR = re.compile(r"^(const )?(unsigned |signed |long |short )*(int|char|long|short|unsigned|double|float|bool|long double|size_t|unsigned long|unsigned long long|long long)$")


def is_scalar(t, P):
    t = t.replace("const ", "").strip()
    if t.endswith("*") or t.endswith("*const"):
        return True
    if SCALAR.match(t) or t in ("unsigned long", "unsigned int", "unsigned char", "unsigned short", "long long", "unsigned long long"):
        return True
    return t in P.enums


def array_elem(t):
    m = re.match(r"^(.*?)((\[\d+\])+)$", t)
    return m.group(1).strip() if m else None


def stdarray(t):
    m = re.match(r"^std::array<(.*), \d+>$", t)
    return m.group(1) if m else None


def eig_dense(t):
    """(rows, cols) template arguments of a plain dense Eigen type, or None"""
    t = t.replace("const ", "")
    m = re.match(r"^Eigen::(?:Matrix|Array)<(?:.*?), (-?\d+), (-?\d+), \d+, -?\d+, -?\d+>$", t)
    return (int(m.group(1)), int(m.group(2))) if m else None


# external functions that only read their arguments
READERS = set("""sqrt pow exp log sin cos tan acos asin atan atan2 abs fabs fmin fmax floor ceil round fmod isfinite isnan isinf hypot copysign lround
min max make_pair make_tuple push_back emplace_back push emplace insert count find at resize reserve assign operator<< to_string distance
real imag conj norm arg polar complex fill""".split())
ALLOF = set("vertices edges faces halfedges interiorHalfedges exteriorHalfedges corners boundaryLoops points iterateElements".split())
SIZEFN = set("size rows cols innerSize outerSize data begin end resize conservativeResize".split())


class Summary:
    __slots__ = ("defs", "defs_t", "defs_f", "reads", "variants")

    def __init__(self):
        self.defs = set()      # parameters assigned on every normal path
        self.defs_t = set()    # ... on every path that returns true / non-null
        self.defs_f = set()
        self.variants = []     # (parameters left unset, facts about the parameters) per exit
        self.reads = {}        # parameter -> line of a read that precedes the assignment on some path


class Definite(Flow):
    def __init__(self, A, f, params=False, root=None):
        super().__init__()
        self.A = A
        self.P = A.P
        self.f = f
        self.params = params
        self.found = {}
        self.names = {}
        self.zero = False
        self.tracked = 0
        self.uses = 0
        self.retval = []
        self.keepret = None
        self.sizes = {}
        self.enclosing = []

    # state: frozenset of (frozenset undefs, frozenset facts)
    def join(self, a, b):
        r = a | b
        if len(r) > 40:
            # keep what is known of flags and results, forget comparisons
            r = frozenset((u, frozenset(x for x in fs if x[0][0] in ("v", "m", "inf") or "ctor0" in repr(x[0]))) for u, fs in r)
        if len(r) > 40:
            r = frozenset((u, frozenset(x for x in fs if x[0][0] == "m")) for u, fs in r)
        if len(r) > 40:
            r = frozenset((u, frozenset()) for u, _ in r)
        if len(r) > 40:
            r = frozenset([(frozenset().union(*[u for u, _ in r]), frozenset())])
        return r

    # a condition tested once only says nothing later on
    def useful(self, k):
        if self.conds is None:
            self.conds = {}
            for s in walk_stmts(self.f["body"]):
                cs = [s.get("c")] if s["s"] in ("if", "while", "for", "do") else []
                for e in cs + [x["a"][0] for r in stmt_exprs(s) for x in walk(r) if x.get("k") == "cond"]:
                    if e is None:
                        continue
                    for x in walk(e):
                        c = self.canon(x, True)
                        if c:
                            self.conds[c[0]] = self.conds.get(c[0], 0) + 1
        if k[0] in ("v", "m", "inf"):
            return True
        if k[0] == "b" and k[1] == "==" and (k[2][0] in ("lit", "g", "ctor0") or k[3][0] in ("lit", "g", "ctor0")):
            return True
        return self.conds.get(k, 0) > 1

    conds = None

    def norm(self, ds):
        out = set()
        for u, fs in ds:
            # with nothing unset only the values of flags and results are worth remembering
            out.add((u, fs if u else frozenset(x for x in fs if x[0][0] in ("v", "inf", "m") or "ctor0" in repr(x[0]))))
        if not out:
            return None
        return frozenset(out)

    # ---- condition keys
    def key(self, e):
        e = strip(e)
        k = e.get("k")
        if k == "ref":
            return ("v", e["dk"], e["d"]) if e["dk"] in ("local", "param") else ("g", e.get("q") or e["n"])
        if k == "lit":
            return ("lit", e["v"])
        if k == "ctor" and not e.get("a"):
            return ("ctor0", e["c"])
        if k == "null":
            return ("lit", "0")
        if k == "this":
            return ("this",)
        if k == "mem":
            b = self.key(e["b"]) if e.get("b") else ("this",)
            return b and ("m", e.get("q") or e["n"], b)
        if k == "bin":
            a, b = self.key(e["a"][0]), self.key(e["a"][1])
            return a and b and ("b", e["op"], a, b)
        if k == "call" and e.get("op") in ("==", "!=", "<", ">") and len(e.get("a", [])) + (1 if e.get("o") else 0) == 2:
            xs = ([e["o"]] if e.get("o") else []) + e["a"]
            a, b = self.key(xs[0]), self.key(xs[1])
            return a and b and ("b", e["op"], a, b)
        if k == "call" and e.get("const") or k == "call" and not e.get("o") and False:
            o = self.key(e["o"]) if e.get("o") else ("this",)
            a = [self.key(x) for x in e.get("a", [])]
            if o and all(a):
                return ("c", e["cn"], o) + tuple(a)
        return None

    def canon(self, c, truth):
        """(key, truth) of a condition, comparisons reduced to ==, <"""
        c = strip(c)
        while c.get("k") == "un" and c["op"] == "!":
            c, truth = strip(c["a"][0]), not truth
        k = self.key(c)
        if not k:
            return None
        if k[0] == "b":
            op, a, b = k[1], k[2], k[3]
            if op == "!=":
                op, truth = "==", not truth
            elif op == ">":
                op, a, b = "<", b, a
            elif op == ">=":
                op, truth = "<", not truth
            elif op == "<=":
                op, a, b, truth = "<", b, a, not truth
            if op == "==":
                if b == ("lit", "0") or b == ("lit", "nullptr"):
                    return (a, not truth) if True else None
                if repr(a) > repr(b):
                    a, b = b, a
            k = ("b", op, a, b)
        return k, truth

    def branch(self, c, truth, st):
        r = self.canon(c, truth)
        out = set()
        # a call whose result says whether its out-parameters were assigned
        c0 = strip(c)
        tr = truth
        while c0.get("k") == "un" and c0["op"] == "!":
            c0, tr = strip(c0["a"][0]), not tr
        kill = set()
        if c0.get("k") == "call" and c0.get("m") in self.P.fns:
            kill = self.call_defs(c0, tr)
        cmp_ = None
        if c0.get("k") == "bin" and c0["op"] in ("<", ">", "<=", ">="):
            a, b = c0["a"] if c0["op"][0] == "<" else c0["a"][::-1]
            cmp_ = (self.key(a), self.key(b))
        for u, fs in st:
            if kill:
                u = u - kill
            if cmp_ and u:
                # a minimum search starting from infinity takes its first candidate; infinity is less than nothing
                if cmp_[1] and (("inf", cmp_[1]), True) in fs and not (cmp_[0] and (("inf", cmp_[0]), True) in fs):
                    if not tr:
                        continue
                elif cmp_[0] and (("inf", cmp_[0]), True) in fs and tr:
                    continue
            if r and u:
                k, t = r
                if (k, not t) in fs:
                    continue
                if t and k[0] == "b" and k[1] == "==":
                    # x == A excludes x == B for two different literals / enumerators
                    clash = False
                    for (k2, t2) in fs:
                        if t2 and k2[0] == "b" and k2[1] == "==" and k2 != k:
                            s1, s2 = {k[2], k[3]}, {k2[2], k2[3]}
                            com = s1 & s2
                            if com and all(x[0] in ("lit", "g") for x in (s1 ^ s2)):
                                clash = True
                    if clash:
                        continue
                if self.useful(k):
                    fs = fs | {(k, t)}
                if len(fs) > 14:
                    fs = frozenset(sorted(fs, key=lambda x: (0 if x[0][0] in ("m", "v", "inf") else 1 if "ctor0" in repr(x[0]) else 2, repr(x)))[:14])
            out.add((u, fs))
        return self.norm(out)

    def call_defs(self, e, truth):
        s = self.A.summary(e["m"])
        if not s:
            return set()
        which = s.defs_t if truth else s.defs_f
        out = set()
        for i, a in enumerate(e.get("a", [])):
            if i in which:
                l = self.loc(a)
                if l:
                    out |= {l} | {x for x in self.names if x[0] == l[0] and len(l) == 1}
        return out

    # ---- locations
    def loc(self, e):
        e = strip(e)
        if e.get("k") == "ref" and (e["dk"] == "local" or (self.params and e["dk"] == "param")):
            return (("p" if e["dk"] == "param" else "l", e["d"]),)
        if e.get("k") == "mem" and e.get("b") is not None and not e.get("ar"):
            b = self.loc(e["b"])
            if b:
                return b + ((e.get("q") or e["n"]).split("::")[-1],)
        if e.get("k") == "idx":
            return self.loc(e["a"][0])
        if e.get("k") == "call" and e.get("op") in ("[]", "()") and e.get("o") is not None:
            return self.loc(e["o"])
        return None

    def under(self, l, u):
        return [x for x in u if x[:len(l)] == l or l[:len(x)] == x]

    def covers(self, d, e):
        """the entry assignments e are for sweep all entries of the Eigen object d"""
        if all(strip(a).get("k") == "lit" for a in e.get("a", [])):
            return True
        ok = False
        for s, own in self.enclosing:
            if d not in own:
                continue          # the object was declared inside this loop
            if s["s"] in ("while", "do"):
                ok = True
            elif s["s"] == "for":
                # a counter sweeps the entries it addresses itself; through an index computed from data it reaches some
                cnt = set()
                for v in (s.get("init") or {}).get("vs", []):
                    cnt.add(v["d"])
                direct = any(x.get("k") == "ref" and x.get("dk") == "local" and x["d"] in cnt for a in e.get("a", []) for x in arith(a))
                rk = {repr(self.key(x)) for x in walk(s.get("c") or {}) if x.get("k") in ("ref", "mem") and not (x.get("dk") == "local" and x.get("d") in cnt)}
                sk = {repr(self.key(x)) for a in self.sizes[d] for x in walk(a) if x.get("k") in ("ref", "mem")}
                if direct or rk & sk or not cnt:
                    ok = True
            elif s["s"] == "rfor":
                r = strip(s["r"])
                if r.get("k") == "call" and r.get("cn") in ALLOF:
                    ok = True
                else:
                    rk = {repr(self.key(x)) for x in walk(s["r"]) if x.get("k") in ("ref", "mem")}
                    sk = {repr(self.key(x)) for a in self.sizes[d] for x in walk(a) if x.get("k") in ("ref", "mem")}
                    if rk & sk:
                        ok = True
        return ok

    def define(self, st, l, exact=True):
        out = set()
        for u, fs in st:
            u2 = frozenset(x for x in u if not (x[:len(l)] == l or l[:len(x)] == x))
            var = l[0]
            fs2 = frozenset(kt for kt in fs if not self.touches(kt[0], l))
            out.add((u2, fs2))
        return self.norm(out)

    def chain(self, k):
        """location denoted by a key, or None"""
        if k[0] == "v":
            return (("p" if k[1] == "param" else "l", k[2]),)
        if k[0] == "m":
            b = self.chain(k[2])
            return b + (k[1].split("::")[-1],) if b else None
        return None

    def touches(self, k, l):
        c = self.chain(k)
        if c is not None:
            return c[:len(l)] == l or l[:len(c)] == c
        return any(isinstance(x, tuple) and self.touches(x, l) for x in k[1:])

    def mentions(self, k, var):
        if k[0] == "v":
            return k[2] == var[1] and (k[1] == "local") == (var[0] == "l")
        return any(isinstance(x, tuple) and self.mentions(x, var) for x in k[1:])

    def forget_members(self, st):
        """a non-const call may change what member reads and calls return"""
        out = set()
        for u, fs in st:
            out.add((u, frozenset(kt for kt in fs if not self.hasmem(kt[0]))))
        return self.norm(out)

    def hasmem(self, k):
        if k[0] == "m" and self.chain(k) is not None:
            return False
        if k[0] in ("m", "c"):
            return True
        return any(isinstance(x, tuple) and self.hasmem(x) for x in k[1:])

    def report(self, l, line, how, partial=False):
        self.found.setdefault((l[0], how if l[0][0] == "p" else ""), (l, line, how))

    def read(self, st, l, line, how="read", t=None):
        self.uses += 1
        bad = [x for u, _ in st for x in self.under(l, u)]
        if t is not None and not self.A.plain(t):
            # copying a record whose fields are set one by one is no use of the fields
            bad = [x for x in bad if len(x) <= len(l)]
        if bad:
            self.report(bad[0], line, how)
            st = self.define(st, l)
        return st

    # ---- expression evaluation: contexts
    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "asg":
            lhs, rhs = e["a"]
            st = self.ev(rhs, st)
            if st is None:
                return None
            return self.assign(lhs, st, e["op"] != "=", e.get("l"), rhs)
        if k == "un" and e["op"] in ("++", "--", "++post", "--post", "post++", "post--", "++pre", "--pre"):
            return self.assign(e["a"][0], st, True, e.get("l"), None)
        if k == "un" and e["op"] == "&":
            l = self.loc(e["a"][0])
            if l:
                return self.define(st, l)
            return self.ev(e["a"][0], st)
        if k in ("ref", "mem", "idx"):
            l = self.loc(e)
            if k == "idx":
                for c in e["a"][1:]:
                    st = self.ev(c, st)
            if l and st is not None:
                if k == "idx" and strip(e["a"][1]).get("k") != "lit":
                    return st          # an array filled and read through a computed index is not judged
                return self.read(st, l, e.get("l"), t=e.get("t"))
            if k == "ref":
                return st
            return super().ev(e, st) if k != "idx" else self.ev(e["a"][0], st)
        if k == "lam":
            return self.lam(e, st)
        if k in ("call", "ctor", "new"):
            return self.call(e, st)
        return super().ev(e, st)

    def assign(self, lhs, st, compound, line, rhs):
        l = self.loc(lhs)
        e = strip(lhs)
        # evaluate indices and bases
        if e.get("k") == "idx":
            for c in e["a"][1:]:
                st = self.ev(c, st)
        elif e.get("k") == "call":
            for c in e.get("a", []):
                st = self.ev(c, st)
        if st is None:
            return None
        if l is None:
            if e.get("k") == "call" and e.get("o") is not None:
                # x.head(n) = ..., x.row(i) = ...: assigns part of x
                b = e
                while strip(b).get("k") == "call" and strip(b).get("o") is not None:
                    b = strip(b)["o"]
                l = self.loc(b)
                if l:
                    if compound:
                        st = self.read(st, l, line, "updated")
                    return self.define(st, l)
                return self.ev(lhs, st)
            if e.get("k") == "cond":
                return self.ev(lhs, st)
            return super().ev(lhs, st) if e.get("k") != "ref" else st
        if compound:
            st = self.read(st, l, line, "updated")
        if e.get("k") == "call" and e.get("op") in ("()", "[]") and l[0] in self.sizes and not self.covers(l[0], e):
            return st            # some entries only
        st = self.define(st, l)
        # remember a literal value
        if rhs is not None and not compound and strip(lhs).get("k") in ("ref", "mem"):
            st = self.valfact(st, l, rhs, lhs)
            st = self.result(st, l, rhs, lhs.get("t", ""))
        return st

    def result(self, st, l, rhs, t):
        """l receives the value of rhs: a call of a repository function whose result has fields it left unset, or a copy"""
        r = strip(rhs)
        while r.get("k") == "ctor" and len(r.get("a", [])) == 1 and r.get("m") not in self.P.fns:
            r = strip(r["a"][0])
        if r.get("k") == "call" and r.get("m") in self.P.fns:
            vs = self.A.returned(r["m"])
            if not vs:
                return st
            base = ("v", "param" if l[0][0] == "p" else "local", l[0][1])
            if len(l) > 1:
                return st
            out = set()
            for u, fs in st:
                for und, facts in vs:
                    out.add((u | {l + x for x in und}, fs | frozenset((sub(k, base), t) for k, t in facts)))
            self.tracked += len(vs)
            return self.cap(self.norm(out))
        src = self.loc(r)
        if src is not None and len(l) == 1 and len(src) == 1:
            a = ("v", "param" if src[0][0] == "p" else "local", src[0][1])
            b = ("v", "param" if l[0][0] == "p" else "local", l[0][1])
            out = set()
            for u, fs in st:
                add = {l + x[1:] for x in u if x[0] == src[0] and len(x) > 1}
                nf = frozenset((subv(k, a, b), t) for k, t in fs if k[0] == "m" and self.chain(k) and self.chain(k)[0] == src[0]) if add else frozenset()
                out.add((u | add, fs | nf))
            return self.cap(self.norm(out))
        return st

    def cap(self, st):
        return self.join(st, st) if st else st

    def valfact(self, st, l, rhs, lhs=None):
        r = strip(rhs)
        kv = ("v", "param" if l[0][0] == "p" else "local", l[0][1])
        if lhs is not None:
            kv = self.key(lhs)
            if kv is None or self.chain(kv) is None:
                return st
        v = None
        if r.get("k") == "lit" and r["v"] in ("true", "false"):
            v = (kv, r["v"] == "true")
        elif r.get("k") == "null":
            v = (kv, False)
        elif r.get("k") == "un" and r["op"] == "&":
            v = (kv, True)
        elif big(r):
            v = (("inf", kv), True)
        elif r.get("k") == "ctor" and not r.get("a") and r.get("c", "").startswith("geometrycentral::surface::"):
            a, b = kv, ("ctor0", r["c"])
            if repr(a) > repr(b):
                a, b = b, a
            v = (("b", "==", a, b), True)
        elif ELEMENT.match((r.get("t") or "").replace("const ", "").rstrip("& ")) and r.get("k") in ("ref", "call", "mem"):
            a, b = kv, ("ctor0", r["t"].replace("const ", "").rstrip("& "))
            if repr(a) > repr(b):
                a, b = b, a
            v = (("b", "==", a, b), False)
        elif r.get("k") == "ref" and r["dk"] in ("enum", "global"):
            a, b = kv, self.key(r)
            if repr(a) > repr(b):
                a, b = b, a
            v = (("b", "==", a, b), True)
        if v is None:
            return st
        return self.norm({(u, fs | {v}) for u, fs in st})

    def lam(self, e, st):
        caps = {}
        asg = set()
        for x in walk(e.get("body") and {"k": "lam", "body": e["body"]} or e):
            pass
        for s in (walk_stmt(e["body"]) if e.get("body") else ()):
            if s.get("k") in ("asg",) and strip(s["a"][0]).get("k") in ("ref", "mem", "idx", "call"):
                l = self.loc(s["a"][0])
                if l:
                    asg.add(l)
            if s.get("k") == "call":
                for a in s.get("a", []):
                    l = self.loc(a)
                    if l and strip(a).get("k") == "ref":
                        asg.add(l)
        for l in asg:
            st = self.define(st, l)
        return st

    def call(self, e, st):
        k = e["k"]
        cn = e.get("cn", "")
        op = e.get("op")
        args = e.get("a", [])
        o = e.get("o")
        if k == "call" and op == "=" and o is not None:
            for c in args:
                st = self.ev(c, st)
            if st is None:
                return None
            if strip(o).get("k") == "call" and strip(o).get("cn") == "tie":
                for c in strip(o)["a"]:
                    if st is None:
                        return None
                    l = self.loc(c)
                    st = self.define(st, l) if l else self.ev(c, st)
                return st
            return self.assign(o, st, False, e.get("l"), args[0])
        if k == "call" and op in ("+=", "-=", "*=", "/=") and o is not None:
            for c in args:
                st = self.ev(c, st)
            if st is None:
                return None
            return self.assign(o, st, True, e.get("l"), None)
        # comma initialisation  M << a, b, c
        if k == "call" and op == "<<" and (o is not None or args):
            tgt = o if o is not None else args[0]
            l = self.loc(tgt)
            if l and eig_dense(tgt.get("t", "")):
                for c in (args if o is not None else args[1:]):
                    st = self.ev(c, st)
                return self.define(st, l) if st is not None else None
        if k == "call" and op == ">>":
            for c in ([o] if o is not None else []) + args:
                l = self.loc(c)
                if l:
                    st = self.define(st, l)
                else:
                    st = self.ev(c, st)
                if st is None:
                    return None
            return st
        fn = self.P.fns.get(e.get("m"))
        if o is not None:
            l = self.loc(o)
            if l and op not in ("[]", "()"):
                if cn == "resize" and eig_dense(strip(o).get("t", "")) and strip(o).get("k") == "ref" and not self.scattered(l[0]):
                    # new entries have no value
                    for c in args:
                        st = self.ev(c, st)
                    self.tracked += 1
                    self.sizes[l[0]] = args
                    return self.norm({(u | {l}, fs) for u, fs in st}) if st is not None else None
                if cn in SIZEFN:
                    pass
                elif fn is not None:
                    # a member function of a local record
                    s = self.A.thissummary(fn)
                    u_all = {x for u, _ in st for x in u}
                    hit = [x for x in u_all if x[:len(l)] == l]
                    if hit:
                        if s is None:
                            st = self.define(st, l)
                        else:
                            bad = [x for x in hit if len(x) > len(l) and x[len(l)] in s[0]]
                            if bad or (hit and len(hit[0]) == len(l) and s[0]):
                                st = self.read(st, bad[0] if bad else hit[0], e.get("l"), "read by " + cn)
                            for x in hit:
                                if len(x) > len(l) and x[len(l)] in s[1]:
                                    st = self.define(st, x)
                elif e.get("const") or (eig_dense(strip(o).get("t", "")) and cn in EIGREAD):
                    st = self.read(st, l, e.get("l"))
                else:
                    st = self.define(st, l)
            elif l:
                for c in args:
                    st = self.ev(c, st)
                return self.read(st, l, e.get("l")) if st is not None else None
            else:
                st = self.ev(o, st)
        if st is None:
            return None
        ptypes = [p["t"] for p in fn["ps"]] if fn else None
        summ = None
        outs = []
        for i, a in enumerate(args):
            l = self.loc(a)
            a0 = strip(a)
            if l is None:
                st = self.ev(a, st)
                if st is None:
                    return None
                continue
            if a0.get("k") == "idx":
                for c in a0["a"][1:]:
                    st = self.ev(c, st)
            elif a0.get("k") == "call":
                for c in a0.get("a", []):
                    st = self.ev(c, st)
            t = a0.get("t", "")
            if ptypes is not None and i < len(ptypes):
                pt = ptypes[i]
                if len(l) == 1 and fn.get("body") and not self.A.plain(t):
                    v = ("v", "param" if l[0][0] == "p" else "local", l[0][1])
                    for u, fs in st:
                        und = frozenset(x[1:] for x in u if x[0] == l[0] and len(x) > 1)
                        if und:
                            hit = self.A.enter(e["m"], i, und, frozenset((subv(c, v, ("ret",)), t2) for c, t2 in fs if c[0] == "m" and self.chain(c) and self.chain(c)[0] == l[0]))
                            if hit:
                                self.found.setdefault((l[0], hit[0]), (l + (hit[0],), e.get("l"), "read by %s, line %s" % (short(fn["q"]), hit[1])))
                    if not mutref(pt):
                        continue
                if array_elem(t) and a0.get("k") == "ref":
                    st = self.define(st, l)
                elif pt.endswith("&&"):
                    st = self.read(st, l, e.get("l"), t=t)
                elif mutref(pt):
                    if summ is None:
                        summ = self.A.summary(e["m"]) or False
                    if summ is False:
                        st = self.define(st, l)
                    else:
                        und = any(self.under(l, u) for u, _ in st) and is_scalar(t.rstrip("& "), self.P)
                        if und and i in summ.reads:
                            st = self.read(st, l, e.get("l"), "read by %s" % short(fn["q"]))
                        elif not und or i in summ.defs or len(l) > 1 or a0.get("k") != "ref":
                            st = self.define(st, l)
                        else:
                            # facts about the variable no longer hold
                            st = self.keepundef(st, l)
                            outs.append((i, l))
                else:
                    st = self.read(st, l, e.get("l"), "passed to %s" % short(fn["q"]), t=t)
            else:
                if array_elem(t) and a0.get("k") == "ref":
                    st = self.define(st, l)
                elif k == "ctor" and fn is None and not e.get("imp") and not cpy(e):
                    st = self.define(st, l) if not is_scalar(t, self.P) else self.read(st, l, e.get("l"))
                elif cn in READERS or op is not None or k == "ctor":
                    st = self.read(st, l, e.get("l"), t=t)
                else:
                    st = self.define(st, l)
            if st is None:
                return None
        if outs and st is not None:
            # which of them the call left unset, and what it then says about the others
            back = {}
            for i, a in enumerate(args):
                ka = self.key(a)
                if ka and fn and i < len(fn["ps"]):
                    back[fn["ps"][i]["d"]] = (ka, self.loc(a))
            new = None
            for und, facts in summ.variants:
                s1 = st
                for i, l in outs:
                    if i not in und:
                        s1 = self.define(s1, l)
                fx = frozenset(x for x in ((subp(kk, back), tt) for kk, tt in facts) if x[0] is not None)
                s1 = self.norm({(u, fs | fx) for u, fs in s1}) if s1 else None
                new = self.j(new, s1)
            st = new if new is not None else st
        if k == "call" and not e.get("const") and fn is not None:
            st = self.forget_members(st)
        st = self.leaf(e, st)
        if st is not None and self.noreturn(e):
            return None
        return st

    def keepundef(self, st, l):
        out = set()
        for u, fs in st:
            out.add((u, frozenset(kt for kt in fs if not self.mentions(kt[0], l[0]))))
        return self.norm(out)

    def scattered(self, d):
        """Eigen locals assigned through an index that a surrounding condition tests"""
        if self.scat is None:
            self.scat = set()
            self._scat(self.f["body"], ())
        return d in self.scat

    def _scat(self, s, conds):
        if s is None:
            return
        if s["s"] == "if":
            self._scat(s["t"], conds + (s["c"],))
            self._scat(s.get("e"), conds + (s["c"],))
            return
        if s["s"] == "expr":
            for x in walk(s["e"]):
                lhs = x["a"][0] if x.get("k") == "asg" else x.get("o") if x.get("k") == "call" and x.get("op") == "=" else None
                if lhs is None:
                    continue
                lhs = strip(lhs)
                if lhs.get("k") == "call" and lhs.get("op") in ("()", "[]") and lhs.get("a") and lhs.get("o") is not None:
                    l = self.loc(lhs["o"])
                    ks = [self.key(a) for a in lhs["a"]]
                    if l and any(k2 and k2[0] != "lit" and any(self.key(y) == k2 for c in conds for y in walk(c)) for k2 in ks):
                        self.scat.add(l[0])
        for c in sub_stmts(s):
            self._scat(c, conds)

    scat = None

    # ---- declarations
    def decl(self, v, st):
        if v.get("st"):
            return st
        d = ("l", v["d"])
        self.names[(d,)] = v["n"]
        # a fresh variable: forget what held for the previous iteration's
        st = self.define(st, (d,))
        t = v["t"]
        i = v.get("i")
        new = set()
        if i is None:
            if is_scalar(t, self.P):
                new = {(d,)}
            elif array_elem(t) and is_scalar(array_elem(t), self.P):
                new = {(d,)}
            elif v.get("dflt") is not None or not t.endswith("&"):
                new = {(d,) + p for p in self.A.unset(t)}
        else:
            i0 = strip(i)
            if i0.get("k") == "ctor":
                if not i0.get("a") or all(strip(a).get("k") == "defarg" for a in i0["a"]):
                    if t.startswith("std::array<") and v.get("dflt"):
                        el = stdarray(t)
                        if el and (is_scalar(el, self.P) or self.A.unset(el)):
                            new = {(d,)}
                    elif array_elem(t):
                        if self.A.unset(array_elem(t)):
                            new = {(d,)}
                    else:
                        rc = eig_dense(t)
                        if rc and rc[0] > 0 and rc[1] > 0:
                            new = {(d,)}
                        elif v.get("dflt") or i0.get("imp") is None or True:
                            new = {(d,) + p for p in self.A.unset(t, i0)} if v.get("dflt") or i0.get("m") in self.P.fns else set()
                else:
                    rc = eig_dense(t)
                    if rc and len(i0["a"]) <= 2 and -1 in rc and all(intarg(a) for a in i0["a"]) and not self.scattered(d):
                        new = {(d,)}
                        self.sizes[d] = i0["a"]
        if new:
            self.tracked += len(new)
            st = frozenset((u | new, fs) for u, fs in st)
        elif i is not None:
            st = self.valfact(st, (d,), i)
            if not t.endswith("&"):
                st = self.result(st, (d,), i, t)
        if i is not None and mutref(t):
            l = self.loc(i)
            if l:
                st = self.define(st, l)
        return st

    def run(self, s, st):
        if s is not None and st is not None and s["s"] == "decl":
            for v in s["vs"]:
                if v.get("i") is not None:
                    l = self.loc(v["i"]) if v["t"].endswith("&") else None
                    if l is None:
                        st = self.ev(v["i"], st)
                if st is None:
                    return None
                st = self.decl(v, st)
            return st
        if s is not None and s["s"] == "break" and any(s is g for g in self.guards):
            return None      # the loop runs at least once
        if s is not None and st is not None and s["s"] == "return" and self.keepret is not None and s.get("e") is not None:
            self.keepret.append((st, s["e"]))
        if s is not None and st is not None and s["s"] == "return" and self.params:
            e = s.get("e")
            if e is not None:
                st = self.ev(e, st)
                if st is None:
                    return None
                e0 = strip(e)
                val = None
                if e0.get("k") == "lit" and e0["v"] in ("true", "false"):
                    val = e0["v"] == "true"
                elif e0.get("k") == "null":
                    val = False
                t = None if val is False else st
                f = None if val is True else st
                if val is None:
                    t = self.cond(e, True, st)
                    f = self.cond(e, False, st)
                self.retval.append((t, f))
            self.returns.append((st, s))
            return None
        return super().run(s, st)

    def rangevar(self, s, st):
        return st

    def noreturn(self, e):
        return self.A.noreturn(e)

    def _loop(self, s, st):
        """as Flow._loop, but a for / range-for body runs at least once and search loops find"""
        k = s["s"]
        if k == "for":
            st = self.run(s.get("init"), st)
        if k == "rfor":
            st = self.ev(s["r"], st)
        if st is None:
            return None
        search = k in ("rfor", "for") and self.is_search(s)
        head = st
        first = k in ("rfor", "for", "do")
        saved_r, saved_t, saved_v = len(self.returns), len(self.throws), len(self.retval)
        brk = None
        exit_ = None
        for it in range(self.max_iter):
            self.loop.append({"kind": "loop", "brk": None, "cont": None})
            cur = head
            ex = None
            if k in ("for", "while"):
                if k == "while":
                    cur = self._cv(s, cur)
                if s.get("c"):
                    cur = self.ev(s["c"], cur)
                    ex = self.cond(s["c"], False, cur)
                    cur = self.cond(s["c"], True, cur)
            elif k == "rfor":
                ex = cur
            if first and k != "do":
                ex = None
            cur = self.forget_bound(s, cur)
            self.guards = leading(s["b"]) if it == 0 and k != "while" else ()
            self.enclosing.append((s, set(self.sizes)))
            cur = self.run(s["b"], cur)
            self.enclosing.pop()
            self.guards = ()
            fr = self.loop[-1]
            cur = self.j(cur, fr["cont"])
            fr["cont"] = None
            if k == "for" and s.get("inc") is not None:
                cur = self.ev(s["inc"], cur)
            if k == "do":
                cur = self.ev(s["c"], cur)
                ex = self.cond(s["c"], False, cur) if cur is not None else None
                cur = self.cond(s["c"], True, cur) if cur is not None else None
            self.loop.pop()
            brk = self.j(brk, fr["brk"])
            if search and fr["brk"] is not None and ex is not None:
                # found: what the search sets has its value (a flag set to a constant does not: it says whether it was found)
                for l in search:
                    ex = self.define(ex, l)
            exit_ = self.j(exit_, ex)
            if first:
                first = False
                if cur is None:
                    break
                head = cur
                continue
            nh = self.j(head, cur)
            if self.equal(nh, head):
                break
            head = nh
        return self.j(exit_, brk)

    guards = ()

    def forget_bound(self, s, st):
        """conditions on the loop variable do not carry over to the next iteration"""
        if st is None or s["s"] != "rfor":
            return st
        v = s["v"]
        ds = [v["d"]] + [b["d"] for b in v.get("binds", []) if isinstance(b, dict) and "d" in b]
        out = set()
        for u, fs in st:
            out.add((u, frozenset(kt for kt in fs if not any(self.mentions(kt[0], ("l", d)) for d in ds))))
        return self.norm(out)

    def is_search(self, s):
        """locations a search loop sets when it leaves by a break that an equality test guards, at the top level of its body"""
        b = s["b"]
        stm = b["b"] if b and b["s"] == "block" else [b]
        out = []
        for c in stm:
            if c and c["s"] == "if" and not c.get("e"):
                eq = any((x.get("k") == "bin" and x["op"] == "==") or (x.get("k") == "call" and x.get("op") == "==") for x in walk(c["c"]))
                t = c["t"]
                last = (t["b"][-1] if t["b"] else None) if t["s"] == "block" else t
                if eq and last and last["s"] == "break":
                    for x in walk_stmt(t):
                        if x.get("k") == "asg" and x["op"] == "=" and strip(x["a"][1]).get("k") not in ("lit", "null"):
                            l = self.loc(x["a"][0])
                            if l:
                                out.append(l)
                        elif x.get("k") == "call" and x.get("op") == "=" and x.get("o") is not None:
                            l = self.loc(x["o"])
                            if l:
                                out.append(l)
        return out

    def _switch(self, s, st):
        return super()._switch(s, st)

    def switch_case(self, s, vals, isdef, seen, st):
        if st is None:
            return None
        ck = self.key(s["c"])
        if not ck:
            return st
        out = None
        for v in vals:
            vk = self.key(v) if isinstance(v, dict) else None
            if vk is None:
                return st
            a, b = ck, vk
            if repr(a) > repr(b):
                a, b = b, a
            ent = set()
            for u, fs in st:
                k = ("b", "==", a, b)
                if (k, False) in fs:
                    continue
                clash = any(t2 and k2[0] == "b" and k2[1] == "==" and k2 != k and ({k2[2], k2[3]} & {ck}) for k2, t2 in fs)
                if clash and u:
                    continue
                ent.add((u, fs | {(k, True)} if u else frozenset()))
            out = self.j(out, self.norm(ent))
        if isdef:
            out = self.j(out, st)
        return out


EIGREAD = set("""norm squaredNorm sum mean dot cross transpose adjoint maxCoeff minCoeff array segment head tail row col block eval cast real imag
determinant inverse trace isZero lpNorm cwiseAbs cwiseProduct squaredNorm coeff normalized allFinite hasNaN""".split())


ELEMENT = re.compile(r"^geometrycentral::(surface|pointcloud)::(Vertex|Halfedge|Corner|Edge|Face|BoundaryLoop|Point)$")
BIG = re.compile(r"^-?(\d+(\.\d*)?[eE]\+?(\d+))$")


def big(r):
    """a literal standing for infinity (minimum searches)"""
    r = strip(r)
    if r.get("k") == "call" and r.get("cn") in ("infinity", "max") and "numeric_limits" in (r.get("c") or ""):
        return True
    if r.get("k") == "un" and r["op"] == "-":
        return False
    if r.get("k") == "lit":
        try:
            return float(r["v"]) >= 1e30
        except ValueError:
            return False
    if r.get("k") == "ref" and r["dk"] == "global":
        return "INF" in r["n"].upper() and "INVALID" not in r["n"].upper()
    return False


def subp(k, back):
    """a key over a callee's parameters rewritten over the caller's arguments, or None"""
    if k[0] == "v":
        return back[k[2]][0] if k[1] == "param" and k[2] in back else None
    out = []
    for x in k:
        if isinstance(x, tuple):
            x = subp(x, back)
            if x is None:
                return None
        out.append(x)
    return tuple(out)


def leading(b):
    """the break statements of the guards a loop body starts with"""
    out = []
    for c in (b["b"] if b and b["s"] == "block" else [b]):
        if c is None or c["s"] in ("null", "decl"):
            continue
        if c["s"] == "if" and not c.get("e"):
            t = c["t"]
            last = (t["b"][-1] if t["b"] else None) if t["s"] == "block" else t
            if last and last["s"] == "break":
                out.append(last)
                continue
        break
    return out


def arith(e):
    """operands of the arithmetic an index is made of"""
    e = strip(e)
    if e.get("k") in ("bin", "un") or e.get("k") == "idx" or (e.get("k") == "call" and e.get("op") in ("[]", "()")):
        # an index taken from a list of indices swept by the counter
        for a in e["a"]:
            yield from arith(a)
    else:
        yield e


def onlyparams(k, f):
    if k[0] == "v":
        # only parameters through which the caller sees the final value
        return k[1] == "param" and any(p["d"] == k[2] and mutref(p["t"]) for p in f["ps"])
    return all(onlyparams(x, f) for x in k if isinstance(x, tuple)) and k[0] not in ("c", "this")


def sub(k, base):
    if k == ("ret",):
        return base
    return tuple(sub(x, base) if isinstance(x, tuple) else x for x in k)


def subv(k, a, b):
    if k == a:
        return b
    return tuple(subv(x, a, b) if isinstance(x, tuple) else x for x in k)


def mutref(t):
    """a reference through which the argument can be assigned"""
    if not t.endswith("&") or t.endswith("&&"):
        return False
    b = t[:-1].strip()
    if b.endswith("*"):
        return True
    if b.endswith("*const"):
        return False
    return not b.startswith("const ")


def cpy(e):
    return e.get("cc") or len(e.get("a", [])) == 1


def intarg(a):
    t = strip(a).get("t", "").replace("const ", "").rstrip("& ")
    return t in ("unsigned long", "long", "int", "unsigned int")


class Assignments:
    def __init__(self, P):
        self.P = P
        self._sum = {}
        self._this = {}
        self._unset = {}
        self._ret = {}
        self._enter = {}
        self.functions = 0
        self.tracked = 0
        self.uses = 0

    # ---- which scalar fields a default-constructed T leaves unset: set of field paths (tuples)
    def unset(self, t, ctor=None):
        t = t.replace("const ", "").strip()
        key = (t, ctor.get("m") if ctor else None)
        if key in self._unset:
            return self._unset[key]
        self._unset[key] = frozenset()
        rec = self.P.recs.get(t)
        out = set()
        if rec is not None and t.startswith("geometrycentral"):
            c = None
            if ctor is not None and ctor.get("m") in self.P.fns:
                c = self.P.fns[ctor["m"]]
            elif ctor is None or not ctor.get("imp"):
                cs = [f for f in self.P.bycls.get(t, []) if f.get("kind") == "ctor" and not f["ps"]]
                c = cs[0] if cs else None
            done = set()
            if c is not None:
                if any(i.get("deleg") for i in c.get("inits", [])):
                    self._unset[key] = frozenset()
                    return frozenset()
                for i in c.get("inits", []):
                    if i.get("mem"):
                        done.add(i["mem"].split("::")[-1])
                s = self.thissummary(c)
                if s is None:
                    done |= {f["n"] for f in rec["fields"]}
                else:
                    done |= s[1]
            for fd in rec["fields"]:
                if fd.get("init") or fd["n"] in done or fd.get("static"):
                    continue
                ft = fd["t"]
                if is_scalar(ft, self.P):
                    out.add((fd["n"],))
                elif array_elem(ft) and is_scalar(array_elem(ft), self.P):
                    out.add((fd["n"],))
                else:
                    for p in self.unset(ft):
                        out.add((fd["n"],) + p)
            for b in rec.get("bases", []):
                bq = b if isinstance(b, str) else b.get("q") or b.get("n")
                bc = None
                for i in (c or {}).get("inits", []):
                    if not i.get("mem") and strip(i.get("e") or {}).get("c") == bq:
                        bc = strip(i["e"])
                out |= self.unset(bq, bc)
        self._unset[key] = frozenset(out)
        return self._unset[key]

    # ---- summaries
    def plain(self, t):
        """a record made of scalars only (a small vector)"""
        t = t.replace("const ", "").rstrip("& ").strip()
        r = self.P.recs.get(t)
        return r is None or all(is_scalar(f["t"], self.P) for f in r["fields"])

    def summary(self, m):
        if m in self._sum:
            return self._sum[m]
        f = self.P.fns.get(m)
        if not f or not f.get("body"):
            return None
        s = Summary()
        n = len(f["ps"])
        s.defs = set(range(n))
        s.defs_t = set(range(n))
        s.defs_f = set(range(n))
        self._sum[m] = s       # optimistic for recursion
        und = {}
        for i, p in enumerate(f["ps"]):
            t = p["t"]
            if mutref(t):
                bt = t[:-1].strip()
                if is_scalar(bt, self.P):
                    und[i] = {(("p", p["d"]),)}
                elif self.unset(bt):
                    und[i] = {(("p", p["d"]),) + x for x in self.unset(bt)}
        if not und:
            return s
        D = Definite(self, f, params=True)
        st = frozenset([(frozenset().union(*und.values()), frozenset())])
        D.fn(f, st)
        s2 = Summary()
        s2.defs = set(range(n))
        s2.defs_t = set(range(n))
        s2.defs_f = set(range(n))

        def undef(states, i):
            return any(x in und[i] for st in states if st is not None for u, _ in st for x in u)
        vs = set()
        pk = {p["d"] for p in f["ps"]}
        for st, _ in D.returns:
            for u, fs in st or ():
                un = frozenset(i for i in und if any(x in u for x in und[i]))
                vs.add((un, frozenset(kt for kt in fs if onlyparams(kt[0], f)) if un else frozenset()))
        s2.variants = list(vs)
        for i in und:
            if undef([r for r, _ in D.returns], i):
                s2.defs.discard(i)
            # only meaningful for functions returning a value
            if D.retval:
                if undef([t for t, _ in D.retval], i):
                    s2.defs_t.discard(i)
                if undef([t for _, t in D.retval], i):
                    s2.defs_f.discard(i)
            elif i not in s2.defs:
                s2.defs_t.discard(i)
                s2.defs_f.discard(i)
        for (l0, _), (l, line, how) in D.found.items():
            for i in und:
                if any(x[0] == l0 for x in und[i]):
                    s2.reads[i] = line
        self._sum[m] = s2
        return s2

    def returned(self, m):
        """variants of the record a function returns: (unset field paths, facts about its fields)"""
        if m in self._ret:
            return self._ret[m]
        self._ret[m] = None
        f = self.P.fns.get(m)
        if not f or not f.get("body"):
            return None
        t = f["r"].replace("const ", "").strip()
        if t not in self.P.recs or t.endswith("&") or not t.startswith("geometrycentral") or not self.unset(t) or self.plain(t):
            return None
        D = Definite(self, f)
        D.keepret = []
        D.fn(f, frozenset([(frozenset(), frozenset())]))
        out = set()
        for st, e in D.keepret:
            r = strip(e)
            while r.get("k") == "ctor" and len(r.get("a", [])) == 1 and r.get("m") not in self.P.fns:
                r = strip(r["a"][0])
            if r.get("k") == "call" and r.get("m") in self.P.fns:
                vs = self.returned(r["m"])
                out |= set(vs or [(frozenset(), frozenset())])
                continue
            l = D.loc(r)
            if not l or len(l) != 1:
                out.add((frozenset(), frozenset()))
                continue
            v = ("v", "local", l[0][1])
            for u, fs in st:
                und = frozenset(x[1:] for x in u if x[0] == l[0] and len(x) > 1)
                out.add((und, frozenset((subv(k, v, ("ret",)), t2) for k, t2 in fs if k[0] == "m" and D.chain(k) and D.chain(k)[0] == l[0])))
        if not any(u for u, _ in out):
            out = None
        self._ret[m] = frozenset(out) if out else None
        return self._ret[m]

    def enter(self, m, i, und, facts):
        """fields read while unset when parameter i comes in with the given unset fields: line or None"""
        k = (m, i, und, facts)
        if k in self._enter:
            return self._enter[k]
        self._enter[k] = None
        f = self.P.fns[m]
        if not f.get("body") or i >= len(f["ps"]):
            return None
        d = ("p", f["ps"][i]["d"])
        D = Definite(self, f, params=True)
        base = ("v", "param", f["ps"][i]["d"])
        D.fn(f, frozenset([(frozenset((d,) + x for x in und), frozenset((sub(c, base), t) for c, t in facts))]))
        for (l0, _), (l, line, how) in D.found.items():
            if l0 == d:
                self._enter[k] = (".".join(l[1:]), line, f)
        return self._enter[k]

    def thissummary(self, f):
        """(fields of *this read before being assigned, fields assigned on every normal path) - flow-insensitive for reads of calls"""
        m = f.get("m")
        if m in self._this:
            return self._this[m]
        self._this[m] = (frozenset(), frozenset())
        if not f.get("body"):
            self._this[m] = None
            return None
        F = ThisFlow(self, f)
        st = F.fn(f, frozenset())
        asg = None
        for r, _ in F.returns:
            asg = r if asg is None else asg & r
        self._this[m] = (frozenset(F.reads), frozenset(asg or ()))
        return self._this[m]

    def noreturn(self, e):
        f = self.P.fns.get(e.get("m")) if e.get("k") == "call" else None
        if f is None:
            return e.get("k") == "call" and e.get("cn") in ("abort", "exit", "terminate", "__assert_fail")
        return False

    # ---- check one function
    def check(self, f):
        out = []
        lams = [x for x in self.P.exprs(f) if x.get("k") == "lam" and x.get("body")]
        for g in [f] + [dict(f, body=x["body"], ps=x.get("ps", []), inits=[], r=x.get("r", "void"), kind="lam") for x in lams]:
            D = Definite(self, g)
            D.fn(g, frozenset([(frozenset(), frozenset())]))
            self.functions += 1
            self.tracked += D.tracked
            self.uses += D.uses
            for (l0, _), (l, line, how) in D.found.items():
                nm = D.names.get((l[0],), "?") + "".join("." + x for x in l[1:])
                out.append((nm, line, how))
            fall = [1 for st, s in D.returns if s is None]
            if fall and g["r"] not in ("void", "") and g.get("kind") not in ("ctor", "dtor"):
                out.append(("", g.get("le") or g["l"], "noreturn"))
        return out

    def switches(self, f):
        """(enumerators not handled, falls into the next case) per switch"""
        for s in walk_stmts(f["body"]):
            if s["s"] != "switch":
                continue
            body = s["b"]["b"] if s["b"] and s["b"]["s"] == "block" else [s["b"]]
            hasdef = any(self.isdef(c) for c in body)
            t = s["c"].get("t", "").replace("const ", "").rstrip("& ")
            yield s, t, bool(s.get("all")), hasdef, list(self.fallthrough(f, body))

    def isdef(self, c):
        while c and c["s"] in ("case", "default"):
            if c["s"] == "default":
                return True
            c = c["b"]
        return False

    def fallthrough(self, f, body):
        """case labels that the statements before them run into"""
        cur = None
        prev = False
        for c in body:
            if c is None:
                continue
            if c["s"] in ("case", "default"):
                if prev and cur is not None:
                    yield c
                inner = c
                while inner and inner["s"] in ("case", "default"):
                    inner = inner["b"]
                D = Definite(self, f)
                D.loop.append({"kind": "switch", "brk": None, "cont": None})
                D.loop.insert(0, {"kind": "loop", "brk": None, "cont": None})
                cur = D.run(inner, frozenset([(frozenset(), frozenset())]))
                prev = inner is not None and inner["s"] != "null"
            elif cur is not None:
                D = Definite(self, f)
                D.loop.append({"kind": "loop", "brk": None, "cont": None})
                D.loop.append({"kind": "switch", "brk": None, "cont": None})
                cur = D.run(c, cur)


class ThisFlow(Flow):
    """fields of *this assigned on every path (state: set of names), and those read while not yet assigned"""

    def __init__(self, A, f):
        super().__init__()
        self.A = A
        self.reads = set()

    def join(self, a, b):
        return a & b

    def fieldof(self, e):
        e = strip(e)
        if e.get("k") == "mem" and (e.get("b") is None or strip(e["b"]).get("k") == "this"):
            return (e.get("q") or e["n"]).split("::")[-1]
        if e.get("k") == "idx":
            return self.fieldof(e["a"][0])
        return None

    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "asg" or (k == "call" and e.get("op") == "=" and e.get("o") is not None):
            lhs = e["a"][0] if k == "asg" else e["o"]
            rhs = e["a"][1] if k == "asg" else e["a"][0]
            st = self.ev(rhs, st)
            if st is None:
                return None
            fl = self.fieldof(lhs)
            if fl:
                if k == "asg" and e["op"] != "=" and fl not in st:
                    self.reads.add(fl)
                return st | {fl}
            return self.ev(lhs, st)
        if k == "un" and e["op"] == "&" and self.fieldof(e["a"][0]):
            return st | {self.fieldof(e["a"][0])}
        if k in ("mem", "idx"):
            fl = self.fieldof(e)
            if fl:
                if fl not in st:
                    self.reads.add(fl)
                return st
        if k == "call" and e.get("m") in self.A.P.fns and (e.get("o") is None or strip(e["o"]).get("k") == "this"):
            g = self.A.P.fns[e["m"]]
            for a in e.get("a", []):
                fl = self.fieldof(a)
                if fl is None:
                    st = self.ev(a, st)
                else:
                    st = st | {fl}
                if st is None:
                    return None
            if g.get("cls") and not g.get("static"):
                s = self.A.thissummary(g)
                if s:
                    self.reads |= {x for x in s[0] if x not in st}
                    st = st | s[1]
            return st
        if k == "call":
            for a in e.get("a", []):
                fl = self.fieldof(a)
                st = self.ev(a, st) if fl is None else st | {fl}
                if st is None:
                    return None
            return self.ev(e["o"], st) if e.get("o") is not None else st
        return super().ev(e, st)
