"""Model of the cached geometric quantities: which managed quantity owns which buffers, which routine computes it, and a
must-availability dataflow over every compute routine, resolved per dynamic class."""
import collections, re
from ir import *

BASE = "geometrycentral::DependentQuantity"


class Quantities:
    def __init__(self, P):
        self.P = P
        self.problems = []       # (key,msg,loc)
        self.q = {}              # (cls, field) -> dict(name, cls, bufs, compute key, joined)
        self.owner = {}          # buffer qualified name -> q id
        self.isq = lambda t: t.startswith("geometrycentral::DependentQuantityD<") or t == BASE
        self.qclasses = []
        for r in P.recs.values():
            qs = [f for f in r["fields"] if self.isq(f["t"])]
            if qs:
                self.qclasses.append(r["n"])
        for c in self.qclasses:
            self._ctors(c)
        self.clearable_false = collections.defaultdict(set)  # class -> q ids whose clearable is set false by its ctor
        for c in P.recs:
            for f in P.bycls.get(c, ()):
                if f.get("kind") != "ctor":
                    continue
                for e in P.exprs(f):
                    if e.get("k") == "asg" and e["op"] == "=":
                        l, r = strip(e["a"][0]), strip(e["a"][1])
                        if l.get("k") == "mem" and l["n"] == "clearable" and r.get("v") == "false":
                            b = strip(l["b"])
                            qi = self.qid(b)
                            if qi:
                                self.clearable_false[c].add(qi)

    def qid(self, e):
        """the quantity id denoted by a member expression on this, if any"""
        e = strip(e)
        if e.get("k") == "mem" and self.isq(e["t"]):
            c, n = e["q"].rsplit("::", 1)
            if (c, n) in self.q:
                return (c, n)
        return None

    def _bufs(self, e, ctor, depth=0):
        """fields of this whose address is taken by the buffer argument"""
        out = []
        e = strip(e)
        if e.get("k") == "un" and e["op"] == "&":
            m = strip(e["a"][0])
            if m.get("k") == "mem":
                out.append(m["q"])
                # an array/pair of pointers to the real buffers?
                for i in ctor.get("inits", []):
                    if i.get("mem") == m["n"] and i.get("e"):
                        for x in walk(i["e"]):
                            if x.get("k") == "un" and x["op"] == "&":
                                y = strip(x["a"][0])
                                if y.get("k") == "mem" and y["q"] != m["q"]:
                                    out.append(y["q"])
                # in-class initializer
                c, n = m["q"].rsplit("::", 1)
                for f in self.P.recs.get(c, {}).get("fields", []):
                    if f["n"] == n and f.get("e"):
                        for x in walk(f["e"]):
                            if x.get("k") == "un" and x["op"] == "&":
                                y = strip(x["a"][0])
                                if y.get("k") == "mem" and y["q"] != m["q"]:
                                    out.append(y["q"])
        return out

    def _compute(self, e):
        """method key bound by a std::bind / lambda argument"""
        found = []
        for x in walk(e):
            if x.get("k") in ("ref",) and x.get("dk") == "func" and "::compute" in (x.get("q") or ""):
                found.append(x["m"])
            elif x.get("k") == "ref" and x.get("dk") == "func" and x.get("m") in self.P.fns and self.P.fns[x["m"]].get("cls"):
                found.append(x["m"])
            elif x.get("k") == "call" and x.get("c") and strip(x.get("o") or {}).get("k") == "this":
                found.append(x["m"])
        out = []
        for m in found:
            if m not in out:
                out.append(m)
        return out

    def _ctors(self, c):
        P = self.P
        r = P.recs[c]
        qfields = {f["n"]: f for f in r["fields"] if self.isq(f["t"])}
        ctors = [f for f in P.bycls.get(c, ()) if f.get("kind") == "ctor" and not any(i.get("deleg") for i in f["inits"])]
        if not ctors:
            raise AnalysisBroken("no constructor body seen for %s" % c)
        for n, f in qfields.items():
            for ct in ctors:
                init = [i for i in ct["inits"] if i.get("mem") == n]
                e = init[0]["e"] if init and init[0].get("e") else f.get("e")
                loc = P.loc(ct, init[0]["l"] if init else None)
                e = strip(e) if e else None
                if not e or e.get("k") != "ctor" or len(e["a"]) < 3:
                    self.problems.append(("%s.%s:not-wired" % (short(c), n),
                                          "quantity %s of %s is constructed without a buffer, a compute routine and the quantity list" % (n, short(c)), loc))
                    self.q.setdefault((c, n), dict(name=n, cls=c, bufs=[], compute=None, joined=False, loc=loc))
                    continue
                bufs = self._bufs(e["a"][0], ct)
                comp = self._compute(e["a"][1])
                lst = strip(e["a"][2])
                joined = lst.get("k") == "mem" and "vector<geometrycentral::DependentQuantity *" in lst["t"]
                d = dict(name=n, cls=c, bufs=bufs, compute=comp[0] if len(comp) == 1 else None, joined=lst.get("n") if joined else None, loc=loc)
                if not bufs:
                    self.problems.append(("%s.%s:no-buffer" % (short(c), n), "quantity %s of %s manages no buffer" % (n, short(c)), loc))
                if not d["compute"]:
                    self.problems.append(("%s.%s:no-compute" % (short(c), n), "quantity %s of %s has no resolvable compute routine" % (n, short(c)), loc))
                if not joined:
                    self.problems.append(("%s.%s:not-joined" % (short(c), n), "quantity %s of %s does not join the object's list of quantities" % (n, short(c)), loc))
                self.q[(c, n)] = d
        for (cc, n), d in list(self.q.items()):
            if cc != c:
                continue
            for b in d["bufs"]:
                if b in self.owner and self.owner[b] != (cc, n):
                    self.problems.append(("%s:two-owners" % short(b), "buffer %s is managed by two quantities (%s and %s)" % (short(b), self.owner[b][1], n), d["loc"]))
                self.owner[b] = (cc, n)
        seen = {}
        for (cc, n), d in self.q.items():
            if cc != c or not d["compute"]:
                continue
            if d["compute"] in seen:
                self.problems.append(("%s:shared-compute:%s" % (short(c), n), "quantities %s and %s of %s are wired to the same compute routine" % (seen[d["compute"]], n, short(c)), d["loc"]))
            seen[d["compute"]] = n

    def dynamic_classes(self):
        """non-abstract classes that carry managed quantities"""
        P = self.P
        out = []
        roots = set(self.qclasses)
        todo = []
        for c in roots:
            todo += P.descendants(c)
        for c in sorted(set(todo)):
            if c not in P.recs:
                continue
            pures = set()
            for a in P.ancestors(c):
                if a in P.recs:
                    for m in P.recs[a]["methods"]:
                        if m.get("pure"):
                            pures.add(m["m"])
            if any(P.dispatch(k, c) == k or P.dispatch(k, c) in P.pure for k in pures):
                continue
            out.append(c)
        return out

    def class_quantities(self, c):
        anc = set(self.P.ancestors(c))
        return {k: d for k, d in self.q.items() if k[0] in anc}


class Avail(Flow):
    """must-availability: state = (frozenset available quantity ids, frozenset assigned own buffers)"""

    def __init__(self, A, f, own, entry_bufs, stack, lams=None, params=None):
        super().__init__()
        self.A, self.P, self.f, self.own, self.stack = A, A.P, f, own, stack
        self.lams = dict(lams or {})       # local var id -> lambda expression
        self.alias = {}                    # local reference var id -> buffer qualified name
        self.params = dict(params or {})   # param id -> buffer qualified name
        self.entry_bufs = entry_bufs

    def join(self, a, b):
        return (a[0] & b[0], a[1] & b[1])

    def is_this(self, e):
        e = strip(e)
        if e.get("k") == "this":
            return True
        if e.get("k") == "un" and e["op"] == "*":
            return self.is_this(e["a"][0])
        return False

    def buf(self, e):
        """buffer denoted by e (member of this, alias, parameter)"""
        e = strip(e)
        k = e.get("k")
        if k == "mem" and e["q"] in self.A.Q.owner and self.is_this(e["b"]):
            return e["q"]
        if k == "ref" and e.get("dk") == "local" and e.get("d") in self.alias:
            return self.alias[e["d"]]
        if k == "ref" and e.get("dk") == "param" and e.get("d") in self.params:
            return self.params[e["d"]]
        if k == "un" and e["op"] == "&":
            return self.buf(e["a"][0])
        return None

    def root_buf(self, e):
        """buffer whose element is denoted by e"""
        e = strip(e)
        b = self.buf(e)
        if b:
            return b
        k = e.get("k")
        if k == "idx":
            return self.root_buf(e["a"][0])
        if k == "call" and e.get("o") is not None and (e.get("op") in ("[]", "()", "*", "->") or e.get("cn") in ("coeffRef", "row", "col", "at", "back", "front", "insert")):
            return self.root_buf(e["o"])
        if k == "mem":
            return self.root_buf(e["b"])
        return None

    def decl(self, v, st):
        i = v.get("i")
        if i is not None:
            i = strip(i)
            if i.get("k") == "lam":
                self.lams[v["d"]] = i
            elif v["t"].endswith("&") or v["t"].endswith("*"):
                b = self.buf(i)
                if b:
                    self.alias[v["d"]] = b
        return st

    def assigned(self, b, st):
        return (st[0], st[1] | {b})

    def use(self, b, e, st, how="read"):
        self.A.use(self, b, e, st, how)

    def write_elem(self, b, e, st):
        self.A.write(self, b, e, st)

    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get("k")
        # whole-buffer assignment
        if (k == "asg") or (k == "call" and e.get("op") in ("=",) and e.get("o") is not None):
            lhs = strip(e["a"][0] if k == "asg" else e["o"])
            rhs = e["a"][1] if k == "asg" else e["a"][0]
            st = self.ev(rhs, st)
            if st is None:
                return None
            b = self.buf(lhs)
            if b and (k == "call" or e["op"] == "="):
                if b not in self.own:
                    self.write_elem(b, e, st)
                return self.assigned(b, st)
            if lhs.get("k") == "call" and lhs.get("f") == "std::tie":
                for x in lhs["a"]:
                    b = self.buf(x)
                    if b:
                        if b not in self.own:
                            self.write_elem(b, e, st)
                        st = self.assigned(b, st)
                    else:
                        st = self.ev(x, st)
                return st
            rb = self.root_buf(lhs)
            if rb:
                self.write_elem(rb, e, st)
            return self.ev(lhs, st)
        if k == "call":
            o = e.get("o")
            b = self.buf(o) if o is not None else None
            if b and e.get("cn") in ("reset", "resize", "assign", "swap", "setZero", "setFromTriplets", "clear", "setConstant", "setIdentity", "fill"):
                for x in e["a"]:
                    st = self.ev(x, st)
                if b not in self.own:
                    self.write_elem(b, e, st)
                if e["cn"] in ("setFromTriplets", "fill", "setZero") and b in self.own and b not in st[1]:
                    self.use(b, e, st)   # needs an allocated (sized) object
                return self.assigned(b, st)
            # quantity methods
            qi = self.A.Q.qid(o) if o is not None and strip(o).get("k") == "mem" and self.is_this(strip(o)["b"]) else None
            if qi:
                if e.get("cn") in ("ensureHave", "require"):
                    return (st[0] | {qi}, st[1])
                if e.get("cn") in ("unrequire", "ensureHaveIfRequired"):
                    return st
                if e.get("cn") == "clearIfNotRequired":
                    return (st[0] - {qi}, st[1])
            # lambda call
            if e.get("op") == "()" and o is not None:
                oo = strip(o)
                if oo.get("k") == "ref" and oo.get("d") in self.lams:
                    for x in e["a"]:
                        st = self.ev(x, st)
                    return self.lam_body(self.lams[oo["d"]], st, e["a"])
                if oo.get("k") == "lam":
                    return self.lam_body(oo, st, e["a"])
            # own member function
            if o is not None and self.is_this(o) and e.get("m"):
                tgt = e["m"]
                if e.get("virt") and not e.get("qual"):
                    tgt = self.P.dispatch(tgt, self.A.cls)
                callee = self.P.fns.get(tgt)
                for x in e["a"]:
                    if not self.buf(x):
                        st = self.ev(x, st)
                if callee is None:
                    return st
                return self.A.call(self, callee, e, st)
            # free function with own buffers passed by reference
            for i, x in enumerate(e["a"]):
                bb = self.buf(x)
                if bb:
                    callee = self.P.fns.get(e.get("m") or "")
                    pt = callee["ps"][i]["t"] if callee and i < len(callee["ps"]) else ""
                    nonconst = pt.endswith("&") and "const " not in pt
                    if callee and nonconst and self.A.param_assigned(callee, i):
                        if bb not in self.own:
                            self.write_elem(bb, e, st)
                        st = self.assigned(bb, st)
                    else:
                        self.use(bb, x, st)
                else:
                    xs = strip(x)
                    if xs.get("k") == "ref" and xs.get("d") in self.lams:
                        st2 = self.lam_body(self.lams[xs["d"]], st, None)
                        if st2 is not None:
                            st = st2
                    elif xs.get("k") == "lam":
                        st2 = self.lam_body(xs, st, None)
                        if st2 is not None:
                            st = st2
                    else:
                        st = self.ev(x, st)
                if st is None:
                    return None
            if o is not None:
                st = self.ev(o, st)
            if e.get("fe"):
                st = self.ev(e["fe"], st)
            return st
        if k == "un" and e["op"] == "&":
            if self.buf(e["a"][0]):
                return st   # address only (registrations); dereference is reported at the use
        b = self.buf(e) if k in ("mem", "ref") else None
        if b:
            self.use(b, e, st)
            return st
        return super().ev(e, st)

    def lam_body(self, lam, st, args):
        key = ("lam", lam["l"], id(lam))
        if key in self.stack:
            return st
        sub = Avail(self.A, self.f, self.own, self.entry_bufs, self.stack + [key], self.lams, self.params)
        sub.alias = dict(self.alias)
        if args:
            for p, a in zip(lam["ps"], args):
                if p["t"].endswith("&"):
                    b = self.buf(a)
                    if b:
                        sub.params[p["d"]] = b
        out = sub.run(lam["body"], st)
        for r, _ in sub.returns:
            out = sub.j(out, r)
        return out


class Analysis:
    def __init__(self, Q, cls):
        self.Q, self.P, self.cls = Q, Q.P, cls
        self.found = []
        self.reads = 0
        self.sites = set()
        self.inputs = set()
        self.cur = None
        self._pa = {}

    def param_assigned(self, callee, i):
        k = (callee["m"], i)
        if k not in self._pa:
            d = callee["ps"][i]["d"]
            res = False
            for e in self.P.exprs(callee):
                if e.get("k") == "call" and e.get("op") == "=" and e.get("o") is not None:
                    x = strip(e["o"])
                    if x.get("k") == "ref" and x.get("d") == d:
                        res = True
                if e.get("k") == "asg" and e["op"] == "=":
                    x = strip(e["a"][0])
                    if x.get("k") == "ref" and x.get("d") == d:
                        res = True
            self._pa[k] = res
        return self._pa[k]

    def use(self, fl, b, e, st, how):
        qi = self.Q.owner[b]
        self.reads += 1
        self.sites.add((fl.f["m"], e.get("l"), b))
        if b in fl.own:
            if b not in st[1] and qi not in self.inputs and self.cur is not None:
                self.found.append(("stale", fl, b, qi, e))
            return
        if qi in self.inputs or qi in st[0]:
            return
        if b in st[1]:
            return
        self.found.append(("read", fl, b, qi, e))

    def write(self, fl, b, e, st):
        if b in fl.own:
            return
        self.found.append(("foreign", fl, b, self.Q.owner[b], e))

    def call(self, fl, callee, e, st):
        """inline an own member function"""
        key = callee["m"]
        if key in fl.stack or len(fl.stack) > 12:
            return st
        params = {}
        for p, a in zip(callee["ps"], e["a"]):
            if p["t"].endswith("&"):
                b = fl.buf(a)
                if b:
                    params[p["d"]] = b
            else:
                b = fl.buf(a)
                if b:
                    fl.use(b, a, st)
        sub = Avail(self, callee, fl.own, fl.entry_bufs, fl.stack + [key], None, params)
        return sub.fn(callee, st)

    def run(self, f, own, cur):
        self.cur = cur
        fl = Avail(self, f, set(own), None, [f["m"]])
        out = fl.fn(f, (frozenset(), frozenset()))
        return out, fl
