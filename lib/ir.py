"""Program model over the extractor's records: functions, records, class hierarchy, expression helpers."""
import collections, re
from extract import extract, AnalysisBroken, REPO, VERIF


def kids(e):
    """direct sub-expressions of an expression, in evaluation order"""
    if not isinstance(e, dict):
        return []
    out = []
    for key in ("fe", "o", "b"):
        c = e.get(key)
        if isinstance(c, dict) and "k" in c:
            out.append(c)
    for c in e.get("a") or []:
        if isinstance(c, dict):
            out.append(c)
    return out


def walk(e, lambdas=True):
    """all sub-expressions of e (pre-order); enters lambda bodies if asked"""
    if not isinstance(e, dict):
        return
    yield e
    for c in kids(e):
        yield from walk(c, lambdas)
    if e.get("k") == "lam" and lambdas:
        yield from walk_stmt(e["body"], lambdas)


def stmt_exprs(s):
    """top-level expressions directly contained in statement s (not in sub-statements)"""
    k = s.get("s")
    if k == "expr":
        return [s["e"]]
    if k == "decl":
        return [v["i"] for v in s["vs"] if v.get("i")]
    out = []
    for key in ("cv",):
        if s.get(key) and s[key].get("i"):
            out.append(s[key]["i"])
    if k in ("if", "while", "do", "switch", "for"):
        if s.get("c"):
            out.append(s["c"])
        if s.get("inc"):
            out.append(s["inc"])
    if k == "rfor":
        out.append(s["r"])
    if k == "return" and s.get("e"):
        out.append(s["e"])
    if k == "case" and s.get("v"):
        out.append(s["v"])
    return out


def sub_stmts(s):
    k = s.get("s")
    out = []
    if k == "block":
        out = list(s["b"])
    elif k == "if":
        out = [s.get("init"), s.get("t"), s.get("e")]
    elif k in ("for",):
        out = [s.get("init"), s.get("b")]
    elif k in ("rfor", "while", "do", "switch", "case", "default"):
        out = [s.get("b")]
    elif k == "try":
        out = [s["b"]] + list(s["h"])
    return [x for x in out if isinstance(x, dict)]


def walk_stmts(s):
    if not isinstance(s, dict):
        return
    yield s
    for c in sub_stmts(s):
        yield from walk_stmts(c)


def walk_stmt(s, lambdas=True):
    """all expressions in a statement tree"""
    for t in walk_stmts(s):
        for e in stmt_exprs(t):
            yield from walk(e, lambdas)


def strip(e):
    """strip casts / default args / address-of-deref noise"""
    while isinstance(e, dict) and e.get("k") in ("cast", "defarg", "definit") and e.get("a"):
        e = e["a"][0]
    return e


def is_std_move(e):
    return e.get("k") == "call" and e.get("f") in ("std::move", "std::forward")


def strip_move(e):
    e = strip(e)
    while isinstance(e, dict) and is_std_move(e) and e["a"]:
        e = strip(e["a"][0])
    return e


class Program:
    def __init__(self, recs=None):
        recs = recs if recs is not None else extract()
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.vars = []
        self.tus = []
        for r in recs:
            k = r["_"]
            if k == "fn":
                self.fns[r["m"]] = r
            elif k == "rec":
                self.recs[r["n"]] = r
            elif k == "enum":
                self.enums[r["n"]] = r
            elif k == "var":
                self.vars.append(r)
            elif k == "tu":
                self.tus.append(r)
        self.byq = collections.defaultdict(list)
        self.bycls = collections.defaultdict(list)
        for f in self.fns.values():
            self.byq[f["q"]].append(f)
            if f.get("cls"):
                self.bycls[f["cls"]].append(f)
        self.subs = collections.defaultdict(set)
        for r in self.recs.values():
            for b in r["bases"]:
                self.subs[b].add(r["n"])
        # overriders: base method key -> set of overriding keys (transitive)
        self.overriders = collections.defaultdict(set)
        direct = collections.defaultdict(set)
        for r in self.recs.values():
            for m in r["methods"]:
                for o in m.get("ov", []):
                    direct[o].add(m["m"])
        for o in list(direct):
            seen, todo = set(), list(direct[o])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += list(direct.get(x, ()))
            self.overriders[o] = seen
        self.pure = {m["m"] for r in self.recs.values() for m in r["methods"] if m.get("pure")}

    def ancestors(self, cls):
        """cls and all its bases"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if c in self.recs:
                todo += self.recs[c]["bases"]
        return out

    def descendants(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += sorted(self.subs.get(c, ()))
        return out

    def method(self, cls, name):
        return [f for f in self.bycls.get(cls, ()) if f["n"] == name]

    def dispatch(self, key, cls):
        """the definition that a virtual call to method `key` reaches on a dynamic type `cls`"""
        for c in self.ancestors(cls):
            r = self.recs.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["m"] == key or (m["m"] in self.overriders.get(key, ())):
                    return m["m"]
        return key

    def short(self, f):
        return f["q"].replace("geometrycentral::", "")

    def loc(self, f, line=None):
        return "%s:%d" % (rel(f["f"]), line or f["l"])

    def exprs(self, f):
        """all expressions of a function: initializers and body"""
        for i in f.get("inits", []):
            yield from walk(i.get("e"))
        yield from walk_stmt(f["body"])


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def short(n):
    return n.replace("geometrycentral::", "").replace("surface::", "").replace("pointcloud::", "")


# ---------------------------------------------------------------- structured dataflow
class Flow:
    """Structured forward dataflow over a function body.

    States are opaque values; None means unreachable.  Subclasses give join(a,b), equal(a,b), leaf(e, st) (called after the
    children of e have been evaluated, returns the new state) and optionally branch(c, truth, st).
    Collected exits: self.returns = [(state, stmt)], self.throws = [(state, expr)].
    """
    max_iter = 12

    def __init__(self):
        self.returns = []
        self.throws = []
        self.loop = []

    # hooks
    def join(self, a, b):
        raise NotImplementedError

    def equal(self, a, b):
        return a == b

    def leaf(self, e, st):
        return st

    def branch(self, c, truth, st):
        return st

    def decl(self, v, st):
        """variable v declared (initializer already evaluated)"""
        return st

    def rangevar(self, s, st):
        """loop variable of range-for s bound"""
        return st

    def enter(self, s, st):
        return st

    def noreturn(self, e):
        return False

    def j(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    # expressions
    def ev(self, e, st):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "bin" and e["op"] in ("&&", "||"):
            st = self.ev(e["a"][0], st)
            if st is None:
                return None
            t = self.cond(e["a"][0], True, st)
            f = self.cond(e["a"][0], False, st)
            if e["op"] == "&&":
                r = self.ev(e["a"][1], t)
                out = self.j(r, f)
            else:
                r = self.ev(e["a"][1], f)
                out = self.j(t, r)
            return self.leaf(e, out) if out is not None else None
        if k == "cond":
            st = self.ev(e["a"][0], st)
            if st is None:
                return None
            t = self.ev(e["a"][1], self.cond(e["a"][0], True, st))
            f = self.ev(e["a"][2], self.cond(e["a"][0], False, st))
            out = self.j(t, f)
            return self.leaf(e, out) if out is not None else None
        if k == "throw":
            for c in kids(e):
                st = self.ev(c, st)
            if st is not None:
                self.throws.append((st, e))
            return None
        if k == "lam":
            return self.leaf(e, st)
        if k == "asg":
            # right operand first, then left, then the assignment
            st = self.ev(e["a"][1], st)
            st = self.ev(e["a"][0], st)
            return self.leaf(e, st) if st is not None else None
        if k == "call" and e.get("op") == "=" and e.get("o") is not None:
            for c in e["a"]:
                st = self.ev(c, st)
            st = self.ev(e["o"], st)
            return self.leaf(e, st) if st is not None else None
        for c in kids(e):
            st = self.ev(c, st)
            if st is None:
                return None
        st = self.leaf(e, st)
        if st is not None and self.noreturn(e):
            return None
        return st

    def cond(self, c, truth, st):
        """state refined by condition c having the given truth value (c's effects already applied)"""
        if st is None:
            return None
        c0 = c
        while isinstance(c0, dict) and c0.get("k") in ("cast",) and c0.get("a"):
            c0 = c0["a"][0]
        if c0.get("k") == "un" and c0["op"] == "!":
            return self.cond(c0["a"][0], not truth, st)
        if c0.get("k") == "bin" and c0["op"] in ("&&", "||"):
            conj = (c0["op"] == "&&") == truth
            if conj:
                st = self.cond(c0["a"][0], truth, st)
                return self.cond(c0["a"][1], truth, st)
            a = self.cond(c0["a"][0], truth, st)
            b = self.cond(c0["a"][1], truth, self.cond(c0["a"][0], not truth, st))
            return self.j(a, b)
        if c0.get("k") == "lit" and c0["v"] in ("true", "false", "0", "1"):
            val = c0["v"] in ("true", "1")
            return st if val == truth else None
        return self.branch(c0, truth, st)

    # statements
    def run(self, s, st):
        if s is None or st is None:
            return st
        st = self.enter(s, st)
        k = s["s"]
        if k == "block":
            for c in s["b"]:
                st = self.run(c, st)
                # case labels may be targets even if st is None: handled in switch
            return st
        if k == "expr":
            return self.ev(s["e"], st)
        if k == "decl":
            for v in s["vs"]:
                if v.get("i"):
                    st = self.ev(v["i"], st)
                if st is None:
                    return None
                st = self.decl(v, st)
            return st
        if k == "if":
            st = self.run(s.get("init"), st)
            st = self._cv(s, st)
            st = self.ev(s["c"], st)
            if st is None:
                return None
            t = self.run(s["t"], self.cond(s["c"], True, st))
            f = self.cond(s["c"], False, st)
            if s.get("e"):
                f = self.run(s["e"], f)
            return self.j(t, f)
        if k in ("for", "while", "rfor", "do"):
            return self._loop(s, st)
        if k == "switch":
            return self._switch(s, st)
        if k in ("case", "default"):
            return self.run(s["b"], st)
        if k == "return":
            if s.get("e"):
                st = self.ev(s["e"], st)
            if st is not None:
                self.returns.append((st, s))
            return None
        if k == "break":
            if self.loop:
                self.loop[-1]["brk"] = self.j(self.loop[-1]["brk"], st)
            return None
        if k == "continue":
            for l in reversed(self.loop):
                if l["kind"] == "loop":
                    l["cont"] = self.j(l["cont"], st)
                    break
            return None
        if k == "try":
            n = len(self.throws)
            out = self.run(s["b"], st)
            hs = st
            for t, _ in self.throws[n:]:
                hs = self.j(hs, t)
            hs = self.j(hs, out)
            for h in s["h"]:
                out = self.j(out, self.run(h, hs))
            return out
        return st

    def _cv(self, s, st):
        v = s.get("cv")
        if v and st is not None:
            if v.get("i"):
                st = self.ev(v["i"], st)
            if st is not None:
                st = self.decl(v, st)
        return st

    def _loop(self, s, st):
        k = s["s"]
        if k == "for":
            st = self.run(s.get("init"), st)
        if k == "rfor":
            st = self.ev(s["r"], st)
        if st is None:
            return None
        head = st
        exit_ = None
        saved_r, saved_t = len(self.returns), len(self.throws)
        for it in range(self.max_iter):
            del self.returns[saved_r:]
            del self.throws[saved_t:]
            self.loop.append({"kind": "loop", "brk": None, "cont": None})
            exit_ = None
            cur = head
            if k in ("for", "while"):
                if k == "while":
                    cur = self._cv(s, cur)
                if s.get("c"):
                    cur = self.ev(s["c"], cur)
                    exit_ = self.cond(s["c"], False, cur)
                    cur = self.cond(s["c"], True, cur)
            elif k == "rfor":
                exit_ = cur
                cur = self.rangevar(s, cur)
            cur = self.run(s["b"], cur)
            fr = self.loop[-1]
            cur = self.j(cur, fr["cont"])
            fr["cont"] = None
            if k == "for" and s.get("inc") is not None:
                cur = self.ev(s["inc"], cur)
            if k == "do":
                cur = self.ev(s["c"], cur)
                exit_ = self.cond(s["c"], False, cur) if cur is not None else None
                cur = self.cond(s["c"], True, cur) if cur is not None else None
            self.loop.pop()
            exit_ = self.j(exit_, fr["brk"])
            nh = self.j(head, cur)
            if self.equal(nh, head):
                break
            head = self.widen(head, nh, it)
        return exit_

    def widen(self, old, new, it):
        return new

    def _switch(self, s, st):
        st = self.ev(s["c"], st)
        if st is None:
            return None
        self.loop.append({"kind": "switch", "brk": None, "cont": None})
        cur = None
        hasdef = False
        body = s["b"]["b"] if s["b"] and s["b"]["s"] == "block" else [s["b"]]
        seen = []
        for c in body:
            if c and c["s"] in ("case", "default"):
                inner = c
                vals = []
                isdef = False
                while inner and inner["s"] in ("case", "default"):
                    if inner["s"] == "default":
                        isdef = True
                    else:
                        vals.append(inner["v"])
                    inner = inner["b"]
                hasdef = hasdef or isdef
                ent = self.switch_case(s, vals, isdef, seen, st)
                seen += vals
                cur = self.j(cur, ent)
                cur = self.run(inner, cur)
            else:
                cur = self.run(c, cur)
        fr = self.loop.pop()
        out = self.j(cur, fr["brk"])
        if not hasdef and not s.get("all"):
            out = self.j(out, st)
        return out

    def switch_case(self, s, vals, isdef, seen, st):
        return st

    def fn(self, f, st):
        """run a function: constructor initializers then body; returns the join of all normal exits"""
        for i in f.get("inits", []):
            st = self.ev(i.get("e"), st)
            st = self.ctorinit(i, st) if st is not None else None
        out = self.run(f["body"], st)
        if out is not None:
            self.returns.append((out, None))
        r = None
        for a, _ in self.returns:
            r = self.j(r, a)
        return r

    def ctorinit(self, i, st):
        return st
