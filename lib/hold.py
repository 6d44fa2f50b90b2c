"""Requirement bookkeeping on geometry objects: which (object path, quantity) each routine requires, releases and reads."""
from quantities import *

SMART = ("get", "operator*", "operator->")


class Holds:
    def __init__(self, P, Q):
        self.P, self.Q = P, Q
        self.wrap = {}     # method key -> (op, qid)
        for f in P.fns.values():
            c = f.get("cls")
            if not c or f["ps"] or not f["n"].startswith(("require", "unrequire")):
                continue
            if not Q.class_quantities(c):
                continue
            got = set()
            for e in P.exprs(f):
                if e.get("k") == "call" and e.get("cn") in ("require", "unrequire") and e.get("o") is not None:
                    qi = Q.qid(e["o"])
                    if qi:
                        got.add((e["cn"], qi))
            if len(got) == 1:
                self.wrap[f["m"]] = next(iter(got))
        self.sums = {}
        self.active = set()
        self.ctorheld = {}
        self.inheld = set()
        self.permcache = {}
        self.const_false = {v["q"] for v in P.vars if v.get("const") and (strip(v.get("e") or {}).get("v") in ("false", "0"))}
        self.events = 0
        self.reads = 0
        self.geomclasses = set(Q.qclasses)
        for c in list(self.geomclasses):
            self.geomclasses |= set(P.descendants(c))

        self.dyn = set(Q.dynamic_classes())
        for c in sorted(self.geomclasses):
            self.class_held(c)
        self.permcache, self.sums = {}, {}
        self.events = self.reads = 0

    def perm(self, t):
        """quantities every library object of static type t (any concrete class below it) holds on itself from construction"""
        t = t.replace("const ", "").rstrip("&* ").strip()
        for w in ("std::unique_ptr<", "std::shared_ptr<"):
            if t.startswith(w):
                t = t[len(w):].split(",")[0].rstrip("> ")
        if t not in self.permcache:
            self.permcache[t] = frozenset()
            if t in self.geomclasses:
                concrete = [c for c in self.P.descendants(t) if c in self.dyn] or [t]
                self.permcache[t] = frozenset.intersection(*[frozenset(q for p, q in self.class_held(c) if p == ("this",)) for c in concrete])
        return self.permcache[t]

    def class_held(self, cls):
        """(path,q) with path rooted at this that every constructor of cls (or of a base) takes and no other method gives back"""
        if cls in self.ctorheld:
            return self.ctorheld[cls]
        if cls in self.inheld:
            return set()
        self.inheld.add(cls)
        held = set()
        for a in self.P.ancestors(cls):
            per = []
            for c in self.P.bycls.get(a, ()):
                if c.get("kind") == "ctor" and not any(i.get("deleg") for i in c["inits"]) and not c.get("cc") and not c.get("mc"):
                    s = self.summary(c["m"])
                    if s is None:
                        continue
                    per.append({k for k, v in s["delta"].items() if k[0][0] == "this" and all(x > 0 for x in v)})
            if per:
                held |= set.intersection(*per)
        self.inheld.discard(cls)
        if not any(self.P.fns[m].get("kind") == "ctor" for m in self.active if m in self.P.fns):
            self.ctorheld[cls] = held
        return held

    def summary(self, key):
        """dict(delta={(path,q): frozenset counts}, needs=[(path,q,loc,buf)], f=f) for function key"""
        if key in self.sums:
            return self.sums[key]
        f = self.P.fns.get(key)
        if f is None or key in self.active:
            return None
        self.active.add(key)
        fl = HoldFlow(self, f)
        out = fl.fn(f, {})
        self.active.discard(key)
        needs = fl.needs
        if f.get("cls") and f.get("kind") != "ctor" and f.get("kind") != "dtor":
            held = self.class_held(f["cls"])
            needs = [n for n in needs if (n[0], n[1]) not in held]
        s = dict(delta=out or {}, needs=needs, f=f, flow=fl, returns=fl.returns)
        self.sums[key] = s
        return s


class HoldFlow(Flow):
    def __init__(self, H, f, parent=None):
        super().__init__()
        self.H, self.P, self.Q, self.f = H, H.P, H.Q, f
        self.alias = dict(parent.alias) if parent else {}
        self.lams = dict(parent.lams) if parent else {}
        self.needs = parent.needs if parent else []
        self.depth = parent.depth + 1 if parent else 0
        self.pidx = {p["d"]: i for i, p in enumerate(f["ps"])}
        self.ctx = parent.ctx if parent else []

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            out[k] = a.get(k, frozenset([0])) | b.get(k, frozenset([0]))
        return out

    def widen(self, old, new, it):
        if it > 3:
            return {k: (v if v == old.get(k) else frozenset(x for x in v if -3 < x < 3)) for k, v in new.items()}
        return new

    def path(self, e):
        e = strip(e)
        k = e.get("k")
        if k == "this":
            return ("this",)
        if k == "un" and e["op"] in ("*", "&"):
            return self.path(e["a"][0])
        if k == "call" and e.get("o") is not None and (e.get("op") in ("*", "->") or e.get("cn") in ("get",)) and not e["a"]:
            return self.path(e["o"])
        if k == "ref":
            if e.get("dk") in ("local", "param"):
                if e["d"] in self.alias:
                    return self.alias[e["d"]]
                if e["dk"] == "param":
                    return ("param", self.pidx.get(e["d"], e["d"]))
                return ("local", e["d"], e["n"])
            return ("glob", e.get("q") or e.get("n"))
        if k == "mem":
            b = self.path(e["b"])
            return b + (e["n"],) if b else None
        if k == "cast" and e.get("a"):
            return self.path(e["a"][0])
        if k == "idx":
            b = self.path(e["a"][0])
            return b + ("[]",) if b else None
        if k == "call" and e.get("op") == "[]" and e.get("o") is not None:
            b = self.path(e["o"])
            return b + ("[]",) if b else None
        if k == "call" and e.get("o") is not None and not e["a"] and re.search(r"Geometry\w*( [&*])?$", e.get("t", "")):
            b = self.path(e["o"])
            return b + (e["cn"] + "()",) if b else None
        return None

    def branch(self, c, truth, st):
        if truth and c.get("k") == "ref" and c.get("q") in self.H.const_false:
            return None
        return st

    def decl(self, v, st):
        i = v.get("i")
        if i is not None:
            i = strip(i)
            if i.get("k") == "lam":
                self.lams[v["d"]] = i
            elif i.get("k") == "ctor" and i.get("m") in self.P.fns and not v["t"].endswith(("&", "*")):
                # a locally constructed object: what its constructor takes stays with it
                s = self.H.summary(i["m"])
                if s:
                    st = dict(st)
                    for (p, qi), val in s["delta"].items():
                        if p[0] == "this":
                            st[(("local", v["d"], v["n"]) + p[1:], qi)] = val
            elif v["t"].endswith("&") or v["t"].endswith("*"):
                p = self.path(i)
                if p:
                    self.alias[v["d"]] = p
        return st

    def ctorinit(self, i, st):
        # reference/pointer member bound to a parameter: the member denotes the parameter's object
        if i.get("mem") and i.get("e"):
            p = self.path(i["e"])
            if p and p[0] == "param":
                self.alias_field = getattr(self, "alias_field", {})
                self.alias_field[("this", i["mem"])] = p
        return st

    def canon(self, p):
        af = getattr(self, "alias_field", None)
        if af:
            for k, v in af.items():
                if p == v or (p[:len(v)] == v):
                    return k + p[len(v):]
        return p

    def need(self, p, qi, e, buf, st):
        self.H.reads += 1
        p = self.canon(p)
        if all(x > 0 for x in st.get((p, qi), (0,))):
            return
        self.needs.append((p, qi, self.P.loc(self.f, e.get("l")), buf, self.f))

    def bump(self, st, p, qi, d):
        p = self.canon(p)
        st = dict(st)
        st[(p, qi)] = frozenset(x + d for x in st.get((p, qi), frozenset([0])))
        return st

    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        if e.get("k") == "un" and e["op"] == "&":
            x = strip(e["a"][0])
            if x.get("k") == "mem" and x["q"] in self.Q.owner:
                return self.ev(x["b"], st)
        if e.get("k") == "call" and e.get("op") == "()" and e.get("o") is not None:
            o = strip(e["o"])
            lam = self.lams.get(o.get("d")) if o.get("k") == "ref" else (o if o.get("k") == "lam" else None)
            if lam is not None:
                for x in e["a"]:
                    st = self.ev(x, st)
                return self.lam(lam, st, e["a"])
        return super().ev(e, st)

    def lam(self, lam, st, args):
        if self.depth > 6 or st is None:
            return st
        sub = HoldFlow(self.H, self.f, self)
        if hasattr(self, "alias_field"):
            sub.alias_field = self.alias_field
        if args:
            for p, a in zip(lam["ps"], args):
                if p["t"].endswith("&") or p["t"].endswith("*"):
                    q = self.path(a)
                    if q:
                        sub.alias[p["d"]] = q
        out = sub.run(lam["body"], st)
        for r, _ in sub.returns:
            out = sub.j(out, r)
        return out if out is not None else st

    def leaf(self, e, st):
        k = e.get("k")
        if k == "mem" and e["q"] in self.Q.owner:
            p = self.path(e["b"])
            if p and self.Q.owner[e["q"]] not in self.H.perm(e["b"].get("t", "")):
                self.need(p, self.Q.owner[e["q"]], e, e["q"], st)
            return st
        if k in ("call", "ctor"):
            m = e.get("m")
            if k == "call" and m in self.H.wrap:
                op, qi = self.H.wrap[m]
                p = self.path(e["o"])
                if p:
                    self.H.events += 1
                    return self.bump(st, p, qi, 1 if op == "require" else -1)
                return st
            if k == "call" and e.get("o") is not None:
                qi = self.Q.qid(e["o"])
                if qi and e.get("cn") in ("require", "unrequire", "ensureHave"):
                    p = self.path(strip(e["o"])["b"])
                    if e["cn"] == "ensureHave":
                        return st
                    return self.bump(st, p, qi, 1 if e["cn"] == "require" else -1)
            # lambdas handed to another routine: they may run during the call
            for x in e.get("a", ()):
                xs = strip(x)
                lam = self.lams.get(xs.get("d")) if xs.get("k") == "ref" else (xs if xs.get("k") == "lam" else None)
                if lam is not None:
                    st2 = self.lam(lam, st, None)
                    st = self.j(st, st2)
            if not m or m not in self.P.fns:
                return st
            callee = self.P.fns[m]
            if (callee.get("cls") or "") in self.H.geomclasses and callee["n"].startswith("compute"):
                return st
            s = self.H.summary(m)
            if not s:
                return st
            base = None
            if k == "call" and e.get("o") is not None:
                base = self.path(e["o"])

            def tr(p):
                if p[0] == "param":
                    if isinstance(p[1], int) and p[1] < len(e["a"]):
                        q = self.path(e["a"][p[1]])
                        return q + p[2:] if q else None
                    return None
                if p[0] == "this":
                    return base + p[1:] if base else None
                if p[0] == "glob":
                    return p
                return None
            for (p, qi, loc, buf, f) in s["needs"]:
                q = tr(p)
                if q is not None:
                    q = self.canon(q)
                    if not all(x > 0 for x in st.get((q, qi), (0,))):
                        self.needs.append((q, qi, loc, buf, f))
            for (p, qi), v in s["delta"].items():
                if v == frozenset([0]):
                    continue
                q = tr(p)
                if q is not None:
                    q = self.canon(q)
                    st = dict(st)
                    st[(q, qi)] = frozenset(a + b for a in st.get((q, qi), frozenset([0])) for b in v)
        return st
