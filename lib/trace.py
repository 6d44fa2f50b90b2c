"""Path-wise event extraction with helper inlining.

Trace interprets a function over *terms* (value numbering): a term names where a value comes from - a field of a term, a parameter,
an operator applied to terms, the element of a range - and never a concrete number.  Every loop body is interpreted once (its
variables havocked), helpers selected by `inline` are interpreted in place with their parameters bound to the argument terms, so an
obligation does not depend on how the code is cut into functions.  The result is the set of abstract paths, each a tuple of events
(assignments to non-local locations, calls) plus the final environment."""
from ir import strip, walk

OPAQUE = {"std::move", "std::forward", "std::as_const"}


class TooMany(Exception):
    pass


class St:
    __slots__ = ("env", "ev", "ret", "ctx", "thr")

    def __init__(self, env, ev, ctx=()):
        self.env = env
        self.ev = ev
        self.ctx = ctx

    def set(self, k, v):
        if self.env.get(k) == v:
            return self
        n = dict(self.env)
        n[k] = v
        return St(n, self.ev, self.ctx)

    def add(self, e):
        return St(self.env, self.ev + (e,), self.ctx)

    def withctx(self, c):
        return St(self.env, self.ev, c)

    def key(self):
        return self.ev


class Event:
    __slots__ = ("kind", "name", "obj", "args", "line", "fn", "ctx", "extra", "_k")

    def __init__(self, kind, name, obj, args, line, fn, ctx, extra=None):
        self.kind, self.name, self.obj, self.args, self.line, self.fn, self.ctx, self.extra = kind, name, obj, args, line, fn, ctx, extra
        self._k = (kind, name, obj, args, line, fn, ctx)

    def __eq__(self, o):
        return self._k == o._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        return "%s %s %s %s @%s%s" % (self.kind, self.name, self.obj, self.args, self.line, " ctx" if self.ctx else "")


def root(t):
    while isinstance(t, tuple) and t and t[0] in ("F", "idx", "el", "&") and len(t) > 1:
        t = t[1]
    return t


def isdefault(t):
    """a default-constructed object: all such objects of one class are equal"""
    return isinstance(t, tuple) and t[0] == "obj" and not t[2]


def normal(v):
    """(condition term, polarity) with negations, null tests and != rewritten to one form"""
    pos = True
    while v[0] == "not":
        v, pos = v[1], not pos
    if v[0] == "call" and v[1] in ("operator==", "operator!="):
        ab = ((v[2],) if v[2] else ()) + v[3]
        if len(ab) == 2 and (isdefault(ab[0]) or isdefault(ab[1])):
            v = ("op", v[1][8:], ab[0], ab[1])
    if v[0] == "op" and v[1] in ("==", "!=") and (isdefault(v[2]) or isdefault(v[3])):
        a, b = v[2], v[3]
        if isdefault(a) and not isdefault(b):
            a, b = b, a
        a, b = (x[:3] + (0,) if isdefault(x) else x for x in (a, b))
        return ("op", "==", a, b), pos == (v[1] == "==")
    if v[0] == "op" and v[1] in ("==", "!="):
        a, b = v[2], v[3]
        if a[0] in ("null", "lit") and b[0] not in ("null", "lit"):
            a, b = b, a
        if b == ("null",) or v[1] == "!=" and b[0] == "lit":
            if v[1] == "!=":
                pos = not pos
            v = ("op", "==", a, b)
    elif v[0] in ("F", "P", "addr", "this", "null"):
        v, pos = ("op", "==", v, ("null",)), not pos
    return v, pos


class Trace:
    callfacts = ()
    tests = False  # emit an event for every branch taken

    def __init__(self, P, inline, decide=None, keep=None, cap=400, maxdepth=8, dispatch=None):
        self.P, self.inline, self.decide, self.keep, self.cap, self.maxdepth = P, inline, decide, keep, cap, maxdepth
        self.dispatch = dispatch
        self.frames = []
        self.lams = {}
        self.loops = {}
        self.uid = 0
        self.analysed = set()

    # ---------------------------------------------------------------- entry
    def run(self, f, this=("this",), args=None, st=None):
        st = st or St({}, ())
        fr = self.frame(f, this)
        for i, p in enumerate(f["ps"]):
            a = args[i] if args and i < len(args) else ("P", p["n"])
            st = st.set((fr["id"], p["d"]), ("&", a) if a and a[0] in ("F", "idx") and "&" in p["t"] else a)
        return self.body(f, fr, [st])

    def frame(self, f, this):
        self.uid += 1
        return {"id": f["m"] + "#%d" % len(self.frames), "fn": f, "this": this, "ret": [], "thr": [], "loop": []}

    def body(self, f, fr, sts):
        self.analysed.add(f["q"])
        self.frames.append(fr)
        for i in f.get("inits", []):
            if i.get("deleg"):
                sts = [s for s, _ in self.evs(i.get("e"), sts)]
                continue
            out = []
            for s, v in self.evs(i.get("e"), sts):
                q = i.get("mem")
                if q and "::" not in q and f.get("cls"):
                    q = f["cls"] + "::" + q
                if q and i.get("w", 1):
                    loc = ("F", fr["this"], q)
                    s = self.assign(s, loc, v, i.get("l") or f["l"])
                out.append(s)
            sts = out
        sts = self.run_s(f["body"], sts)
        out = [(s, ("void",)) for s in sts] + fr["ret"]
        self.frames.pop()
        return self.dedupe2(out)

    def emit(self, s, e):
        if self.keep and not self.keep(e):
            return s
        return s.add(e)

    def assign(self, s, loc, v, line, op="="):
        if loc[0] == "&":
            loc = loc[1]
        r = root(loc)
        if loc[0] == "L":
            return s.set(loc[1], v)
        s = self.emit(s, Event("asg", op, loc, (v,), line, self.frames[-1]["fn"]["q"], s.ctx))
        if loc[0] == "F":
            if s.ctx:
                v = v if op == "=" else ("?", line)
            s = s.set(loc, v if op == "=" else ("op", op, s.env.get(loc, loc), v))
        return s

    # ---------------------------------------------------------------- merging
    def merge(self, sts):
        by = {}
        for s in sts:
            k = (s.ev, s.ctx)
            if k in by:
                o = by[k]
                if o.env is not s.env and o.env != s.env:
                    env = {}
                    for x in o.env.keys() & s.env.keys():
                        env[x] = o.env[x] if o.env[x] == s.env[x] else ("?", str(x))
                    for x in list(env):
                        if x[0] == "fact" and env[x] not in (True, False):
                            del env[x]
                    for x in o.env.keys() ^ s.env.keys():
                        if isinstance(x, tuple) and x and x[0] == "F":
                            env[x] = ("?", str(x))
                    by[k] = St(env, o.ev, o.ctx)
            else:
                by[k] = s
        if len(by) > self.cap:
            raise TooMany(self.frames[-1]["fn"]["q"] if self.frames else "?")
        return list(by.values())

    def dedupe2(self, prs):
        by = {}
        for s, v in prs:
            by.setdefault(v, []).append(s)
        return [(s, v) for v, l in by.items() for s in self.merge(l)]

    # ---------------------------------------------------------------- statements
    def run_s(self, s, sts):
        if s is None or not sts:
            return sts
        k = s["s"]
        fr = self.frames[-1]
        if k == "block":
            for c in s["b"]:
                sts = self.run_s(c, sts)
            return sts
        if k == "expr":
            return self.merge([x for x, _ in self.evs(s["e"], sts)])
        if k == "decl":
            for v in s["vs"]:
                sts = self.decl(v, sts)
            return sts
        if k == "if":
            sts = self.run_s(s.get("init"), sts)
            if s.get("cv"):
                sts = self.decl(s["cv"], sts)
            t, f = self.conds(s["c"], sts)
            t = self.run_s(s["t"], t)
            f = self.run_s(s.get("e"), f) if s.get("e") else f
            return self.merge(t + f)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(s, sts)
        if k == "return":
            if s.get("e"):
                fr["ret"] += [(x, v) for x, v in self.evs(s["e"], sts, ref="&" in fr["fn"].get("r", "") if "r" in fr["fn"] else False)]
            else:
                fr["ret"] += [(x, ("void",)) for x in sts]
            return []
        if k == "break":
            if fr["loop"]:
                if fr["loop"][-1]["kind"] == "loop":
                    sts = [self.emit(x, Event("brk", "", ("this",), (), s.get("l"), fr["fn"]["q"], x.ctx)) for x in sts]
                fr["loop"][-1]["brk"] += sts
            return []
        if k == "continue":
            for l in reversed(fr["loop"]):
                if l["kind"] == "loop":
                    l["cont"] += sts
                    break
            return []
        if k == "switch":
            sts = [x for x, _ in self.evs(s["c"], sts)]
            l = {"kind": "switch", "brk": [], "cont": []}
            fr["loop"].append(l)
            cur, hasdef = [], False
            for c in (s["b"]["b"] if s["b"]["s"] == "block" else [s["b"]]):
                inner = c
                if c["s"] in ("case", "default"):
                    cur = self.merge(cur + sts)
                    while inner and inner["s"] in ("case", "default"):
                        hasdef |= inner["s"] == "default"
                        inner = inner["b"]
                cur = self.run_s(inner, cur)
            fr["loop"].pop()
            out = cur + l["brk"]
            if not hasdef and not s.get("all"):
                out += sts
            return self.merge(out)
        if k in ("case", "default"):
            return self.run_s(s["b"], sts)
        if k == "try":
            n = len(fr["thr"])
            out = self.run_s(s["b"], sts)
            th = fr["thr"][n:]
            del fr["thr"][n:]
            for h in s["h"]:
                out = out + self.run_s(h, self.merge(list(sts) + th))
            return self.merge(out)
        return sts

    def decl(self, v, sts):
        fr = self.frames[-1]
        key = (fr["id"], v["d"])
        if not v.get("i"):
            return [s.set(key, ("L", key)) for s in sts]
        isref = v.get("t", "").rstrip().endswith("&")
        out = []
        if isref:
            for s, l in self.lvs(v["i"], sts):
                out.append(s.set(key, ("&", l) if l[0] in ("F", "idx", "el", "L", "&") else l))
        else:
            for s, val in self.evs(v["i"], sts):
                if v.get("binds"):
                    pass
                out.append(s.set(key, val))
        for b in v.get("binds") or []:
            out = [s.set((fr["id"], b["d"]), ("F", s.env.get(key, ("?",)), b["n"])) for s in out]
        return out

    def assigned_locals(self, s):
        from ir import walk_stmt, walk
        ds = set()
        def look(e):
            for x in walk(e):
                if x.get("k") == "asg":
                    t = strip(x["a"][0])
                elif x.get("k") == "un" and x["op"][:2] in ("++", "--"):
                    t = strip(x["a"][0])
                elif x.get("k") == "call" and x.get("op") in ("=", "+=", "-=", "*=", "/=", "++") and x.get("o"):
                    t = strip(x["o"])
                else:
                    continue
                if t.get("k") == "ref" and t.get("dk") in ("local", "param"):
                    ds.add(t["d"])
        for e in walk_stmt(s["b"]):
            look(e) if e.get("k") in ("asg", "un", "call") else None
        if s.get("inc"):
            look(s["inc"])
        if s.get("c"):
            look(s["c"])
        return ds

    def loop(self, s, sts):
        fr = self.frames[-1]
        k = s["s"]
        if k == "for":
            sts = self.run_s(s.get("init"), sts)
        rng = None
        if k == "rfor":
            r0 = strip(s["r"])
            items = None
            if r0.get("k") == "init" or (r0.get("k") == "ctor" and len(r0.get("a") or []) == 1 and strip(r0["a"][0]).get("k") == "init"):
                items = (r0 if r0.get("k") == "init" else strip(r0["a"][0])).get("a")
            prs = self.lvs(s["r"], sts)
            if items is None and prs:
                ts = {self.read(x, l) for x, l in prs}
                if len(ts) == 1 and next(iter(ts))[0] == "list":
                    items = list(next(iter(ts))[1:])
            if items is not None:
                # exact unrolling over a literal list
                l = {"kind": "loop", "brk": [], "cont": []}
                fr["loop"].append(l)
                cur = sts
                for it in items:
                    nx = []
                    for x, v in (self.lvs(it, cur) if isinstance(it, dict) else [(x, it) for x in cur]):
                        isref = s["v"].get("t", "").rstrip().endswith("&") and "const" not in s["v"].get("t", "")
                        nx.append(x.set((fr["id"], s["v"]["d"]), ("&", v) if v[0] in ("F", "idx") else v if isref else self.read(x, v)))
                    cur = self.run_s(s["b"], self.merge(nx))
                    cur = self.merge(cur + l["cont"])
                    l["cont"] = []
                fr["loop"].pop()
                return self.merge(cur + l["brk"])
            sts = prs
        else:
            sts = [(x, None) for x in sts]
        ds = self.assigned_locals(s)
        lid = (s.get("l"), k)
        pre = [x for x, _ in sts]
        cur = []
        for x, r in sts:
            rt = self.read(x, r) if r is not None else None
            c = x.ctx + ((k, s.get("l"), r if r is not None else None),)
            y = x.withctx(c)
            for d in ds:
                if (fr["id"], d) in y.env:
                    o = y.env[(fr["id"], d)]
                    if o and o[0] == "&":
                        continue
                    if o and (o[0] == "iter" or o[0] == "call" and o[1] in ("begin", "cbegin", "rbegin") and o[2] is not None):
                        y = y.set((fr["id"], d), o if o[0] == "iter" else ("iter", o[2]))
                        continue
                    y = y.set((fr["id"], d), ("phi", d, s.get("l")))
            if k == "rfor":
                el = ("el", r)
                y = y.set((fr["id"], s["v"]["d"]), ("&", el) if s["v"].get("t", "").rstrip().endswith("&") else el)
                for b in s["v"].get("binds") or []:
                    y = y.set((fr["id"], b["d"]), ("F", el, b["n"]))
            cur.append(y)
        l = {"kind": "loop", "brk": [], "cont": []}
        fr["loop"].append(l)
        exitf = []
        if k in ("for", "while"):
            if s.get("cv"):
                cur = self.decl(s["cv"], cur)
            if s.get("c"):
                if k == "for":
                    self.bounds(s, pre, cur)
                cur, exitf = self.conds(s["c"], cur)
        cur = self.run_s(s["b"], cur)
        cur = self.merge(cur + l["cont"])
        if k == "for" and s.get("inc"):
            cur = [x for x, _ in self.evs(s["inc"], cur)]
        if k == "do":
            cur = [x for x, _ in self.evs(s["c"], cur)]
        fr["loop"].pop()
        out = cur + l["brk"]
        if not out:
            out = pre
        res = []
        for x in out:
            x = x.withctx(x.ctx[:-1] if x.ctx and x.ctx[-1][1] == s.get("l") else x.ctx)
            for d in ds:
                if (fr["id"], d) in x.env:
                    o = x.env[(fr["id"], d)]
                    if o and o[0] == "&":
                        continue
                    x = x.set((fr["id"], d), ("phi", d, s.get("l")))
            res.append(x)
        return self.merge(self.union(res, pre))

    def bounds(self, s, pre, cur):
        """record the start and bound terms of a counting loop: self.loops[line] = {(variable, start, comparison, bound, step)}"""
        fr = self.frames[-1]
        c = strip(s["c"])
        if c.get("k") != "bin" or not s.get("inc"):
            return
        i = strip(s["inc"])
        a, b, op = c["a"][0], c["a"][1], c["op"]
        v = strip(a)
        iv = strip(i["a"][0]) if i.get("k") in ("un", "asg") else strip(i["o"]) if i.get("o") else {}
        iv = iv.get("d") if iv.get("k") == "ref" else None
        shift = None
        for x, y in ((a, b), (b, a)):
            x = strip(x)
            if x.get("k") == "bin" and x["op"] in "+-" and strip(x["a"][0]).get("k") == "ref" and strip(x["a"][0]).get("d") == iv and iv is not None:
                shift = ("op", "-" if x["op"] == "+" else "+", x["a"][1])
                op = op if x is strip(a) else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                a, b = x["a"][0], y
                v = strip(a)
                break
        if v.get("k") != "ref" or v.get("dk") != "local" or iv is not None and v.get("d") != iv:
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            v = strip(a)
        if v.get("k") != "ref":
            return
        step = i["op"][:2] if i.get("k") == "un" else i.get("op")
        for p, y in zip(pre, cur):
            try:
                st = p.env.get((fr["id"], v["d"]))
                for _, bt in self.ev(b, y):
                    if shift:
                        bt = ("op", shift[1], bt, self.ev(shift[2], y)[0][1])
                    self.loops.setdefault(s.get("l"), set()).add((v["d"], st, op, bt, step))
            except TooMany:
                raise

    nounion = False

    def union(self, res, pre):
        """the paths through a loop body that left the loop normally count as one iteration doing all of it"""
        if self.nounion:
            return res
        groups = {}
        for x in res:
            best = None
            for p in pre:
                if x.ev[:len(p.ev)] == p.ev and (best is None or len(p.ev) > len(best.ev)):
                    best = p
            groups.setdefault(best.ev if best else x.ev, []).append(x)
        out = []
        for base, xs in groups.items():
            if len(xs) == 1:
                out.append(xs[0])
                continue
            seen, ev = set(), []
            for x in xs:
                for e in x.ev[len(base):]:
                    if e not in seen:
                        seen.add(e)
                        ev.append(e)
            ev = base + tuple(ev)
            out += [St(x.env, ev, x.ctx) for x in xs]
        return out

    # ---------------------------------------------------------------- conditions
    def conds(self, c, sts):
        """-> (true states, false states), effects applied"""
        c0 = strip(c)
        k = c0.get("k")
        if k == "un" and c0["op"] == "!":
            t, f = self.conds(c0["a"][0], sts)
            return f, t
        if k == "bin" and c0["op"] in ("&&", "||"):
            t, f = self.conds(c0["a"][0], sts)
            if c0["op"] == "&&":
                t2, f2 = self.conds(c0["a"][1], t)
                return t2, self.merge(f + f2)
            t2, f2 = self.conds(c0["a"][1], f)
            return self.merge(t + t2), f2
        if k == "lit" and c0["v"] in ("true", "false", "0", "1"):
            return (sts, []) if c0["v"] in ("true", "1") else ([], sts)
        T, F = [], []
        for s, v in self.evs(c0, sts):
            v, pos = normal(v)
            d = self.truth(s, v, c0)
            if d is not None and not pos:
                d = not d
            fact = v[0] == "op" and v[1] in ("==", "!=", "<", "<=", ">", ">=") and (isdefault(v[3]) or v[3][0] in ("lit", "null") or v[2][0] in ("lit", "this") or v[3][0] == "this") or \
                v[0] == "call" and self.callfacts and v[1] in self.callfacts
            def branch(s, val):
                s = s.set(("fact", v), val) if fact else s
                return self.emit(s, Event("tst", "", v, (val,), c0.get("l"), self.frames[-1]["fn"]["q"], s.ctx)) if self.tests else s
            if d is not False:
                T.append(branch(s, pos))
            if d is not True:
                F.append(branch(s, not pos))
        return self.merge(T), self.merge(F)

    def truth(self, s, v, e):
        if v[0] == "lit" and v[1] in ("true", "false"):
            return v[1] == "true"
        if v[0] == "not":
            r = self.truth(s, v[1], e)
            return None if r is None else not r
        if v[0] == "op" and v[1] in ("&&", "||"):
            a, b = self.truth(s, v[2], e), self.truth(s, v[3], e)
            if v[1] == "&&":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if ("fact", v) in s.env:
            return s.env[("fact", v)]
        if v[0] == "op" and v[1] == "==" and isdefault(v[2]) and v[2] == v[3]:
            return True
        if v[0] == "op" and v[1] == "==" and v[3] == ("null",):
            if v[2] == ("null",):
                return True
            if v[2][0] in ("addr", "this", "new", "obj"):
                return False
            if self.decide and v[2][0] in ("F", "P"):
                r = self.decide(v[2])
                if r is not None:
                    return not r
        if self.decide:
            return self.decide(v)
        return None

    # ---------------------------------------------------------------- expressions
    def read(self, s, loc):
        n = 0
        while loc and loc[0] == "&" and n < 20:
            loc = loc[1]
            n += 1
        if loc and loc[0] == "F":
            return s.env.get(loc, loc)
        if loc and loc[0] == "L":
            return s.env.get(loc[1], loc)
        return loc

    def evs(self, e, sts, ref=False):
        out = []
        if e is None:
            return [(s, ("void",)) for s in sts]
        for s in sts:
            out += self.lv(e, s) if ref else self.ev(e, s)
        return out

    def lvs(self, e, sts):
        out = []
        for s in sts:
            out += self.lv(e, s)
        return out

    def base(self, e, s):
        """object designated by a member base expression"""
        out = []
        for s2, l in self.lv(e["b"], s):
            v = self.read(s2, l)
            if v[0] == "addr":
                v = v[1]
            elif e.get("ar"):
                pass
            else:
                v = l
                while v[0] == "&":
                    v = v[1]
                if v[0] == "L":
                    w = self.read(s2, v)
                    if w[0] == "P":
                        v = w
            out.append((s2, v))
        return out

    def lv(self, e, s):
        """[(state, location-or-value term)]"""
        e = strip(e)
        fr = self.frames[-1]
        k = e.get("k")
        if k == "ref":
            dk = e.get("dk")
            if dk in ("local", "param"):
                key = (fr["id"], e["d"])
                if key not in s.env:
                    for f2 in reversed(self.frames[:-1]):  # captured by an inlined lambda
                        if f2["fn"]["m"] == fr["fn"].get("lam_of") and (f2["id"], e["d"]) in s.env:
                            key = (f2["id"], e["d"])
                            break
                v = s.env.get(key)
                if v is not None and v[0] == "&":
                    return [(s, v[1])]
                if v is not None and v[0] in ("addr", "lam", "list", "el"):
                    return [(s, ("L", key))]
                return [(s, ("L", key))]
            return [(s, ("G", e.get("q") or e.get("n")))]
        if k == "mem":
            return [(s2, ("F", b, e["q"])) for s2, b in self.base(e, s)]
        if k == "un" and e["op"] == "*":
            out = []
            for s2, v in self.ev(e["a"][0], s):
                out.append((s2, v[1] if v[0] == "addr" else ("F", v, "*")))
            return out
        if k == "idx" or (k == "call" and e.get("op") == "[]"):
            a = e["a"] if k == "idx" else [e["o"]] + e["a"]
            out = []
            for s2, b in self.lv(a[0], s):
                while b[0] == "&":
                    b = b[1]
                for s3, i in self.ev(a[1], s2):
                    if b[0] == "L":
                        v = self.read(s3, b)
                        if v[0] in ("F", "idx", "&", "addr", "P"):
                            b2 = v[1] if v[0] in ("&", "addr") else v
                            out.append((s3, ("idx", b2, i)))
                            continue
                    if k == "call" and e.get("m"):
                        s3 = self.emit(s3, Event("call", e.get("f"), b, (i,), e.get("l"), fr["fn"]["q"], s3.ctx, (e, (i,))))
                    out.append((s3, ("idx", b, i)))
            return out
        if k == "asg" or (k == "un" and e["op"] in ("++", "--")):
            out = []
            for s2, v in self.ev(e, s):
                for s3, l in self.lv(e["a"][0], s2):
                    out.append((s3, l))
                    break
            return out
        if k == "cond":
            t, f = self.conds(e["a"][0], [s])
            return self.lvs(e["a"][1], t) + self.lvs(e["a"][2], f)
        if k == "call":
            return self.call(e, s)
        return self.ev(e, s)

    def ev(self, e, s):
        e = strip(e)
        k = e.get("k")
        fr = self.frames[-1]
        if k in ("ref", "mem", "idx") or (k == "call" and e.get("op") == "[]") or (k == "un" and e["op"] == "*"):
            return [(s2, self.read(s2, l)) for s2, l in self.lv(e, s)]
        if k == "lit":
            return [(s, ("lit", e["v"]))]
        if k == "this":
            return [(s, fr["this"])]
        if k == "null":
            return [(s, ("null",))]
        if k == "str":
            return [(s, ("str", e.get("v")))]
        if k == "un":
            op = e["op"]
            if op == "&":
                out = []
                for s2, l in self.lv(e["a"][0], s):
                    if l[0] == "L" and self.read(s2, l)[0] == "P":
                        l = self.read(s2, l)
                    out.append((s2, ("addr", l) if l[0] in ("F", "idx", "L", "el", "G", "P") else l))
                return out
            if op[:2] in ("++", "--"):
                out = []
                for s2, l in self.lv(e["a"][0], s):
                    old = self.read(s2, l)
                    new = ("op", op[0], old, ("lit", "1"))
                    if s2.ctx and l[0] == "F":
                        new = ("?", e.get("l"))
                    if l[0] == "L":
                        s2 = s2.set(l[1], new)
                    else:
                        s2 = self.emit(s2, Event("asg", op[:2], l, (new,), e.get("l"), fr["fn"]["q"], s2.ctx))
                        if l[0] == "F":
                            s2 = s2.set(l, new)
                    out.append((s2, old if op.endswith("post") else new))
                return out
            if op == "!":
                return [(s2, ("not", v)) for s2, v in self.ev(e["a"][0], s)]
            return [(s2, ("un", op, v)) for s2, v in self.ev(e["a"][0], s)]
        if k == "asg":
            out = []
            for s2, v in self.ev(e["a"][1], s):
                for s3, l in self.lv(e["a"][0], s2):
                    if e["op"] == "=":
                        out.append((self.assign(s3, l, v, e.get("l")), v))
                    else:
                        nv = ("op", e["op"][:-1], self.read(s3, l), v)
                        if s3.ctx and l[0] == "F":
                            nv = ("?", e.get("l"))
                        s4 = self.assign(s3, l, nv, e.get("l"), "=") if l[0] == "L" else None
                        if s4 is None:
                            s4 = self.emit(s3, Event("asg", e["op"], l, (v,), e.get("l"), fr["fn"]["q"], s3.ctx))
                            if l[0] == "F":
                                s4 = s4.set(l, nv)
                        out.append((s4, nv))
            return out
        if k == "bin":
            if e["op"] in ("&&", "||"):
                out = []
                t, f = self.conds(e["a"][0], [s])
                if e["op"] == "&&":
                    out += [(x, ("lit", "false")) for x in f]
                    out += self.evs(e["a"][1], t)
                else:
                    out += [(x, ("lit", "true")) for x in t]
                    out += self.evs(e["a"][1], f)
                return out
            out = []
            for s2, a in self.ev(e["a"][0], s):
                for s3, b in self.ev(e["a"][1], s2):
                    out.append((s3, ("op", e["op"], a, b)))
            return out
        if k == "cond":
            t, f = self.conds(e["a"][0], [s])
            return self.evs(e["a"][1], t) + self.evs(e["a"][2], f)
        if k == "lam":
            self.uid += 0
            key = (fr["fn"]["m"], e.get("l"), id(e))
            self.lams[key] = (e, fr)
            return [(s, ("lam", key))]
        if k == "throw":
            prs = [(s, None)]
            for c in e.get("a") or []:
                prs = [(s2, v) for x, _ in prs for s2, v in self.ev(c, x)]
            fr["thr"] += [x for x, _ in prs]
            return []
        if k == "init" or (k == "ctor" and len(e.get("a") or []) == 1 and strip(e["a"][0]).get("k") == "init"):
            it = e if k == "init" else strip(e["a"][0])
            prs = [(s, ())]
            for c in it.get("a") or []:
                prs = [(s2, vs + (v,)) for x, vs in prs for s2, v in self.ev(c, x)]
            return [(x, ("list",) + vs) for x, vs in prs]
        if k == "ctor":
            prs = [(s, ())]
            for c in e.get("a") or []:
                prs = [(s2, vs + (v,)) for x, vs in prs for s2, v in self.ev(c, x)]
            out = []
            for x, vs in prs:
                if len(vs) == 1 and (vs[0][0] == "lam" or e.get("c", "").startswith("std::function")):
                    out.append((x, vs[0]))
                else:
                    y = self.emit(x, Event("ctor", e.get("c"), None, vs, e.get("l"), fr["fn"]["q"], x.ctx, (e, vs)))
                    out.append((y, ("obj", e.get("c"), vs, e.get("l"))))
            return out
        if k == "call":
            return [(s2, self.read(s2, v)) for s2, v in self.call(e, s)]
        if k == "new":
            prs = [(s, ())]
            for c in e.get("a") or []:
                prs = [(s2, vs + (v,)) for x, vs in prs for s2, v in self.ev(c, x)]
            return [(x, ("new", e.get("l"), vs)) for x, vs in prs]
        prs = [s]
        from ir import kids
        for c in kids(e):
            prs = [s2 for x in prs for s2, _ in self.ev(c, x)]
        return [(x, ("?", k, e.get("l"))) for x in prs]

    def call(self, e, s):
        fr = self.frames[-1]
        f, cn, op = e.get("f") or "", e.get("cn") or "", e.get("op")
        a = e.get("a") or []
        if f in OPAQUE and a:
            return self.lv(a[0], s)
        if op == "=" and e.get("o") is not None and len(a) == 1:
            out = []
            for s2, v in self.ev(a[0], s):
                for s3, l in self.lv(e["o"], s2):
                    out.append((self.assign(s3, l, v, e.get("l")), l))
            return out
        # object
        prs = [(s, None)]
        if e.get("o") is not None:
            prs = []
            for s2, l in self.lv(e["o"], s):
                while l and l[0] == "&":
                    l = l[1]
                if l and l[0] in ("L", "F"):
                    v = self.read(s2, l)
                    if v[0] == "addr" and op not in ("->", "*"):
                        l = v[1]
                elif l and l[0] == "addr":
                    l = l[1]
                prs.append((s2, l))
        elif e.get("fe") is not None and e["fe"].get("k") not in ("ref",):
            prs = [(s2, v) for s2, v in self.lv(e["fe"], s)]
        # smart pointer / iterator dereference
        if op in ("->", "*") and e.get("o") is not None and not a:
            return [(s2, (lambda v: v[1] if v[0] == "addr" else ("el", v[1]) if v[0] == "iter" else (l if l[0] != "L" else v))(self.read(s2, l))) for s2, l in prs]
        if cn == "get" and not a and e.get("o") is not None and ("unique_ptr" in e.get("c", "") or "shared_ptr" in e.get("c", "")):
            return [(s2, self.read(s2, l)) for s2, l in prs]
        # argument terms (locations where possible)
        prs = [(s2, o, ()) for s2, o in prs]
        for c in a:
            nx = []
            for s2, o, vs in prs:
                for s3, l in self.lv(c, s2):
                    nx.append((s3, o, vs + (l,)))
            prs = nx
        out = []
        for s2, o, vs in prs:
            ov = self.read(s2, o) if o is not None else None
            # calling a function object
            tgt = None
            if op == "()" or (o is None and e.get("fe") is not None):
                if ov and ov[0] == "lam":
                    tgt = self.lams.get(ov[1])
            elif o is None and e.get("fe") is None and False:
                pass
            if tgt and len(self.frames) < self.maxdepth:
                out += self.inline_lambda(tgt, s2, vs)
                continue
            if cn == "for_each" and len(vs) == 3:
                lam = self.read(s2, vs[2])
                rg = self.read(s2, vs[0])
                if lam[0] == "lam" and rg[0] == "call" and rg[1] in ("begin", "cbegin"):
                    y = s2.withctx(s2.ctx + (("rfor", e.get("l"), rg[2]),))
                    for z, v in self.inline_lambda(self.lams[lam[1]], y, (("el", rg[2]),)):
                        out.append((z.withctx(s2.ctx), ("void",)))
                    continue
            fn = self.P.fns.get(e.get("m"))
            if fn is not None and e.get("virt") and self.dispatch:
                m2 = self.dispatch(e, o)
                fn = self.P.fns.get(m2, fn)
            recursive = fn is not None and any(x["fn"]["m"] == fn["m"] for x in self.frames)
            if fn is not None and not recursive and len(self.frames) < self.maxdepth and self.inline(fn, o):
                out += self.inline_fn(fn, o, vs, s2, e)
                continue
            vals = tuple(self.read(s2, v) if v[0] in ("F", "L", "&") and not self.byref(v) else v for v in vs)
            # a by-reference local handed to an opaque non-const callee is clobbered: keep term only if it is not a local
            y = self.emit(s2, Event("call", f or cn or (op or "?"), ov if o is not None and o[0] == "L" else o, vs_terms(self, s2, vs),
                                    e.get("l"), fr["fn"]["q"], s2.ctx, (e, vs)))
            if o is not None and cn in ("resize", "assign") and vs:
                y = y.set(("size", o), self.read(s2, vs[0]))
            if cn == "size" and o is not None and not vs:
                out.append((y, y.env.get(("size", o), ("size", ov if o[0] == "L" else o))))
                continue
            if cn in ("max", "min") and len(vs) == 2:
                out.append((y, ("op", cn, self.read(s2, vs[0]), self.read(s2, vs[1]))))
                continue
            on = ov if o is not None and o[0] == "L" else o
            if op in ("==", "!="):
                out.append((y, ("call", cn or f, on, tuple(self.read(s2, v) for v in vs))))
                continue
            out.append((y, ("call", cn or f, on, vs_terms(self, s2, vs))))
        return out

    def byref(self, v):
        return False

    def inline_fn(self, fn, o, vs, s, e):
        this = o if o is not None else None
        if this is not None and this[0] == "L":
            v = self.read(s, this)
            if v[0] == "addr":
                this = v[1]
            elif v[0] in ("F", "idx", "this", "P", "call", "G"):
                this = v
        elif this is not None and this[0] == "F":
            v = self.read(s, this)
            if v[0] == "addr":
                this = v[1]
        if this is not None and this[0] == "addr":
            this = this[1]
        fr = self.frame(fn, this)
        for i, p in enumerate(fn["ps"]):
            a = vs[i] if i < len(vs) else ("?", "default")
            byref = p["t"].rstrip().endswith("&") or p["t"].rstrip().endswith("&&")
            if byref:
                s = s.set((fr["id"], p["d"]), ("&", a) if a[0] in ("F", "idx", "L", "el", "G", "obj", "new") else a)
            else:
                s = s.set((fr["id"], p["d"]), self.read(s, a))
        out = self.body(fn, fr, [s])
        if fr["thr"]:
            self.frames[-1]["thr"] += fr["thr"]
        # forget the callee's locals
        res = []
        for x, v in out:
            if v and v[0] == "L" and v[1][0] == fr["id"]:
                v = x.env.get(v[1], ("?", "local"))
            env = {k2: v2 for k2, v2 in x.env.items() if not (isinstance(k2, tuple) and k2[0] == fr["id"])}
            res.append((St(env, x.ev, x.ctx), v))
        return res

    def inline_lambda(self, tgt, s, vs):
        lam, dfr = tgt
        fn = {"m": dfr["fn"]["m"] + "::lam%d" % id(lam), "q": dfr["fn"]["q"], "ps": lam["ps"], "body": lam["body"], "l": lam.get("l", 0),
              "r": lam.get("r", ""), "lam_of": dfr["fn"]["m"]}
        fr = self.frame(fn, dfr["this"])
        fr["id"] = dfr["id"]  # declaration ids are unique within the enclosing function
        for i, p in enumerate(lam["ps"]):
            a = vs[i] if i < len(vs) else ("?", "default")
            s = s.set((fr["id"], p["d"]), ("&", a) if p["t"].rstrip().endswith("&") and a[0] in ("F", "idx", "L", "el") else self.read(s, a))
        return self.body(fn, fr, [s])


def vs_terms(tr, s, vs):
    out = []
    for v in vs:
        while v[0] == "&":
            v = v[1]
        if v[0] == "L":
            r = tr.read(s, v)
            v = r if r[0] != "obj" else v  # objects keep their identity
        elif v[0] == "F":
            r = s.env.get(v)
            if r is not None and r[0] not in ("?",):
                v = r
        out.append(v)
    return tuple(out)
