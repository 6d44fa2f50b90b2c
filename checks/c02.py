"""C02: the requirement-count / refresh / purge protocol of managed quantities."""
from quantities import *

RULE = ("(a) wiring: every managed quantity owns a distinct buffer, a distinct compute routine and joins the list that refresh and "
        "purge iterate; requireX/unrequireX act exactly once, on every path, on the same quantity, the one named X. (b) finite-domain "
        "abstract interpretation (computed flag x requirement-count interval x clearable) of require / unrequire / ensureHave / "
        "ensureHaveIfRequired / clearIfNotRequired against their specification. (c) refreshQuantities marks every listed quantity stale "
        "in a complete pass with no evaluation, then ensures every required one in a complete pass; purgeQuantities applies the "
        "clear-if-not-required step to every listed quantity. (d) no other code writes the requirement count or marks a quantity computed.")
MIN = {"quantities": 55, "require_wrappers": 100, "protocol_cases": 100, "list_passes": 6}

INF = 10 ** 6
FIELDS = {BASE + "::computed": "computed", BASE + "::requireCount": "rc", BASE + "::clearable": "clearable"}


class Proto(Flow):
    """state: frozenset of (computed, (lo,hi) count, clearable, events) ; events = tuple of 'eval'/'clear'/'eval-marked'"""

    def __init__(self, P, cls, elem, stack=()):
        super().__init__()
        self.P, self.cls, self.elem, self.stack = P, cls, elem, stack
        self.locals = {}
        self.lams = {}

    def join(self, a, b):
        return a | b

    def field(self, e):
        e = strip(e)
        if e.get("k") == "mem" and e["q"] in FIELDS:
            return FIELDS[e["q"]]
        if e.get("k") == "ref" and e.get("d") in self.locals:
            return self.locals[e["d"]]
        return None

    def decl(self, v, st):
        if v.get("i") and strip(v["i"]).get("k") == "lam":
            self.lams[v["d"]] = strip(v["i"])
        if v["t"].endswith("&") and v.get("i"):
            f = self.field(v["i"])
            if f:
                self.locals[v["d"]] = f
        return st

    def const(self, e):
        e = strip(e)
        if e.get("k") == "lit":
            if e["v"] in ("true", "false"):
                return e["v"] == "true"
            try:
                return int(str(e["v"]).rstrip("uUlL"), 0)
            except ValueError:
                return None
        if e.get("k") == "un" and e["op"] == "-":
            c = self.const(e["a"][0])
            return -c if c is not None else None
        return None

    def set(self, st, f, fn):
        out = set()
        for c, rc, cl, evs in st:
            if f == "computed":
                for v in fn(c):
                    out.add((v, rc, cl, evs))
            elif f == "rc":
                out.add((c, fn(rc), cl, evs))
            else:
                for v in fn(cl):
                    out.add((c, rc, v, evs))
        return frozenset(out)

    def add(self, rc, d):
        return (rc[0] + d if rc[0] > -INF else rc[0], rc[1] + d if rc[1] < INF else INF)

    def leaf(self, e, st):
        k = e.get("k")
        if k == "asg":
            f = self.field(e["a"][0])
            if f:
                c = self.const(e["a"][1])
                if f == "rc":
                    if e["op"] == "=" and c is not None:
                        return self.set(st, f, lambda r: (c, c))
                    if e["op"] in ("+=", "-=") and c is not None:
                        return self.set(st, f, lambda r: self.add(r, c if e["op"] == "+=" else -c))
                    r = strip(e["a"][1])
                    if e["op"] == "=" and r.get("k") == "bin" and r["op"] in "+-" and self.field(r["a"][0]) == "rc" and self.const(r["a"][1]) is not None:
                        d = self.const(r["a"][1])
                        return self.set(st, f, lambda x: self.add(x, d if r["op"] == "+" else -d))
                    return self.set(st, f, lambda r: (-INF, INF))
                if c is not None:
                    return self.set(st, f, lambda r: [bool(c)])
                return self.set(st, f, lambda r: [True, False])
        if k == "un" and e["op"] in ("++", "--", "++post", "--post"):
            if self.field(e["a"][0]) == "rc":
                d = 1 if e["op"].startswith("++") else -1
                return self.set(st, "rc", lambda r: self.add(r, d))
        if k == "call":
            if e.get("o") is not None and strip(e["o"]).get("k") == "mem" and strip(e["o"])["q"] == BASE + "::evaluateFunc":
                return frozenset((c, rc, cl, evs + ("eval-marked" if c else "eval",)) for c, rc, cl, evs in st)
            if e.get("cn") == "clearBuffer" or (e.get("f") or "").endswith("::clearBuffer"):
                return frozenset((c, rc, cl, evs + ("clear",)) for c, rc, cl, evs in st)
            if e.get("op") == "()" and e.get("o") is not None and strip(e["o"]).get("d") in self.lams:
                lam = self.lams[strip(e["o"])["d"]]
                sub = Proto(self.P, self.cls, self.elem, self.stack + ("lam",))
                sub.locals, sub.lams = self.locals, self.lams
                if len(self.stack) < 8:
                    o = sub.run(lam["body"], st)
                    for r, _ in sub.returns:
                        o = sub.j(o, r)
                    return o
            m = e.get("m")
            callee = None
            if m:
                tgt = self.P.dispatch(m, self.cls) if e.get("virt") else m
                callee = self.P.fns.get(tgt)
                if callee is None and m in self.P.pure:
                    # every definition is checked separately; any one stands for the step here
                    ov = sorted(o for o in self.P.overriders.get(m, ()) if o in self.P.fns)
                    callee = self.P.fns[ov[0]] if ov else None
            if callee and len(self.stack) < 8 and (callee.get("cls") or "").startswith(BASE) or (callee and e["a"] and any(x["t"].endswith("DependentQuantity *") for x in e["a"] if "t" in x)):
                sub = Proto(self.P, self.cls, self.elem, self.stack + (m,))
                r = sub.fn(callee, st)
                self.throws += sub.throws
                return r
        return st

    def branch(self, c, truth, st):
        c = strip(c)
        f = self.field(c)
        if f == "computed":
            return frozenset(s for s in st if s[0] == truth) or None
        if f == "clearable":
            return frozenset(s for s in st if s[2] == truth) or None
        if c.get("k") == "bin" and c["op"] in ("==", "!=", "<", "<=", ">", ">="):
            a, b, op = c["a"][0], c["a"][1], c["op"]
            sw = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
            if self.field(b) and self.const(a) is not None:
                a, b, op = b, a, sw[op]
            f, k = self.field(a), self.const(b)
            if f in ("computed", "clearable") and k is not None and op in ("==", "!="):
                want = bool(k) if (op == "==") == truth else not bool(k)
                i = 0 if f == "computed" else 2
                return frozenset(s for s in st if s[i] == want) or None
            if f == "rc" and k is not None:
                if not truth:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                out = set()
                for cc, (lo, hi), cl, evs in st:
                    if op == "<":
                        hi = min(hi, k - 1)
                    elif op == "<=":
                        hi = min(hi, k)
                    elif op == ">":
                        lo = max(lo, k + 1)
                    elif op == ">=":
                        lo = max(lo, k)
                    elif op == "==":
                        lo, hi = max(lo, k), min(hi, k)
                    else:
                        if lo == k:
                            lo += 1
                        if hi == k:
                            hi -= 1
                    if lo <= hi:
                        out.add((cc, (lo, hi), cl, evs))
                return frozenset(out) or None
            # null test of the buffer pointer: wired quantities always have one
            for x, y in ((a, b), (b, a)):
                x, y = strip(x), strip(y)
                if x.get("k") == "mem" and x["n"] == "dataBuffer" and y.get("k") == "null":
                    return st if (op == "!=") == truth else None
        if f == "rc":
            out = frozenset(s for s in st if not (s[1] == (0, 0) and truth) and not ((s[1][0] > 0) and not truth))
            return out or None
        if c.get("k") == "mem" and c["n"] == "dataBuffer":
            return st if truth else None
        return st


STARTS = [(c, rc, cl) for c in (True, False) for rc in ((0, 0), (1, 1), (2, INF)) for cl in (True, False)]


def spec(name, start, finals, throws):
    """returns a message if the outcome contradicts the specification of the named step"""
    c, rc, cl = start
    lo = rc[0]

    def same_rc(d=0):
        w = (rc[0] + d, rc[1] + d if rc[1] < INF else INF)
        return all(f[1] == w for f in finals)
    evs = {f[3] for f in finals}
    if any("eval-marked" in f[3] for f in finals):
        return "marks the quantity computed before evaluating it"
    if name == "unrequire":
        if rc == (0, 0):
            if finals:
                return "does not reject a release without a matching requirement"
            if any(t[1][0] < 0 for t in throws):
                return "leaves a negative requirement count behind when it rejects an unmatched release"
            return None
        if throws:
            return "rejects a matched release"
        if not same_rc(-1):
            return "does not decrement the requirement count by one"
        if evs != {()} or any(f[0] != c for f in finals):
            return "has an effect beyond the requirement count"
        return None
    if throws or not finals:
        return "does not return normally"
    if any(f[2] != cl for f in finals):
        return "changes the clearable flag"
    if name == "require":
        if not same_rc(1):
            return "does not increment the requirement count by one"
    elif not same_rc():
        return "changes the requirement count"
    need = name in ("require", "ensureHave") or (name == "ensureHaveIfRequired" and lo > 0)
    if name in ("require", "ensureHave", "ensureHaveIfRequired"):
        if need:
            if any(not f[0] for f in finals):
                return "can return without the quantity computed"
            if evs != ({()} if c else {("eval",)}):
                return "does not evaluate exactly when the quantity is not computed"
        else:
            if evs != {()} or any(f[0] != c for f in finals):
                return "acts on a quantity nobody requires"
    if name == "clearIfNotRequired":
        for f in finals:
            cleared = "clear" in f[3]
            if "eval" in f[3]:
                return "evaluates a quantity while clearing"
            if cleared and (lo > 0 or not cl):
                return "clears a quantity that is required or not clearable"
            if cleared and f[0]:
                return "clears the buffer but leaves the quantity marked computed"
            if not cleared and c and lo == 0 and cl:
                return "keeps a computed, unrequired, clearable quantity"
            if not cleared and f[0] != c and not (lo == 0):
                return "changes the computed flag without clearing"
            if not cleared and not cl and f[0] != c:
                return "marks an unclearable quantity stale"
            if not c and f[0]:
                return "marks a quantity computed without evaluating it"
    return None


def is_list(e):
    e = strip(e)
    return e.get("k") == "mem" and "vector<geometrycentral::DependentQuantity *" in e["t"]


def find_loops(P, f, depth=0, seen=None):
    """loops over the quantity list, in execution order, through own helpers; ('loop', stmt, fn, full, guarded)"""
    seen = seen or set()
    out = []

    def visit(s, guarded):
        if s is None:
            return
        k = s["s"]
        if k == "rfor" and is_list(s["r"]):
            out.append((s, f, True, guarded))
            return
        if k in ("for", "while", "do") and any(is_list(x) for e in ([s.get("c")] if s.get("c") else []) for x in walk(e)):
            full = k == "for" and _full(s)
            out.append((s, f, full, guarded))
            return
        if k == "for" and any(x.get("t", "").find("DependentQuantity *") >= 0 for x in walk(s.get("c") or {})):
            out.append((s, f, _full(s), guarded))
            return
        for e in own_exprs(s):
            for x in walk(e):
                if x.get("k") != "call":
                    continue
                if (x.get("f") or "") == "std::for_each":
                    lam = strip(x["a"][2])
                    if lam.get("k") == "lam" and any(is_list(y) for y in walk(x["a"][0])):
                        out.append((dict(s="rfor", b=lam["body"], v=None, r=None, l=x.get("l"), lam=True), f,
                                    all(strip(a).get("cn") == w for a, w in zip(x["a"][:2], ("begin", "end"))), guarded))
                        continue
                g = P.fns.get(x.get("m") or "")
                if g and g["m"] not in seen and depth < 4 and (g.get("cls") == f.get("cls")):
                    for (a, b, c2, d) in find_loops(P, g, depth + 1, seen | {g["m"]}):
                        out.append((a, b, c2, guarded or d))
        cond = k in ("if", "switch", "for", "while", "rfor")
        for c in sub_stmts(s):
            visit(c, guarded or cond)
        if k == "return" or k == "throw":
            pass
    visit(f["body"], False)
    return out


def own_exprs(s):
    return list(stmt_exprs(s))


def _full(s):
    """index or iterator loop that visits every element once"""
    i = s.get("init")
    if not i or i["s"] != "decl" or not i["vs"]:
        return False
    init = strip(i["vs"][0].get("i") or {})
    ok = (init.get("k") == "lit" and str(init["v"]).rstrip("uUlL") == "0") or (init.get("k") == "call" and init.get("cn") in ("begin", "cbegin") and is_list(init["o"]))
    c = strip(s.get("c") or {})
    opn = c.get("op")
    ok = ok and opn in ("<", "!=")
    rhs = c["a"][-1] if c.get("a") else {}
    ok = ok and any(x.get("k") == "call" and x.get("cn") in ("size", "end", "cend") for x in walk(rhs)) and not any(x.get("k") == "bin" for x in walk(rhs))
    inc = strip(s.get("inc") or {})
    ok = ok and ((inc.get("k") == "un" and inc["op"].startswith("++")) or (inc.get("k") == "call" and inc.get("op") == "++"))
    return ok


def body_effect(P, cls, s, start):
    fl = Proto(P, cls, True)
    fl.loop.append({"kind": "loop", "brk": None, "cont": None})
    st = frozenset([start + ((),)])
    out = fl.run(s["b"], st)
    out = fl.j(out, fl.loop[-1]["cont"])
    early = [r for r, _ in fl.returns]
    if s.get("lam"):
        for r in early:
            out = fl.j(out, r)
        early = []
    return out or frozenset(), bool(fl.loop[-1]["brk"]) or bool(early), fl.throws


def analyse(P):
    Q = Quantities(P)
    findings, samples = [], []

    def add(key, msg, loc):
        findings.append(dict(key=key, msg=msg, loc=loc))
    for key, msg, loc in Q.problems:
        add(key, msg, loc)
    # ---- wrappers
    wrappers = 0
    for c in Q.qclasses + sorted({a for c in Q.qclasses for a in P.descendants(c)} - set(Q.qclasses)):
        cq = Q.class_quantities(c)
        names = {q[1][:-1].lower() if q[1].endswith("Q") else q[1].lower(): q for q in cq}
        have = {"require": {}, "unrequire": {}}
        for f in P.bycls.get(c, ()):
            for pre in ("unrequire", "require"):
                if f["n"].startswith(pre) and len(f["n"]) > len(pre) and f["n"][len(pre)].isupper():
                    x = f["n"][len(pre):]
                    if f.get("acc") != 0 or f["ps"]:
                        break
                    wrappers += 1
                    per = wrapper_paths(P, Q, f, pre)
                    have[pre][x] = f
                    want = names.get(x.lower())
                    if any(len(p) != 1 for p in per) or not per:
                        add("wrapper:%s" % short(f["q"]), "%s does not %s exactly one managed quantity exactly once on every path (%s)" % (
                            short(f["q"]), pre, sorted({tuple(q[1][1] for q in p) for p in per})), P.loc(f))
                        break
                    got = {p[0] for p in per}
                    bad = [g for g in got if g[0] != pre]
                    if bad:
                        add("wrapper-op:%s" % short(f["q"]), "%s performs %s" % (short(f["q"]), bad[0][0]), P.loc(f))
                    qs = {g[1] for g in got}
                    if want is not None and qs != {want}:
                        add("wrapper-target:%s" % short(f["q"]), "%s acts on %s instead of %s" % (short(f["q"]), sorted(q[1] for q in qs), want[1]), P.loc(f))
                    elif want is None and not any(short(b).split("::")[-1].lower() == x.lower() for q in qs for b in Q.q[q]["bufs"]):
                        add("wrapper-target:%s" % short(f["q"]), "%s acts on %s, which does not provide %s" % (short(f["q"]), sorted(q[1] for q in qs), x), P.loc(f))
                    break
        for x, f in have["require"].items():
            if x not in have["unrequire"]:
                add("no-release:%s" % short(f["q"]), "%s has no matching release operation" % short(f["q"]), P.loc(f))
    # ---- protocol steps
    cases = 0
    steps = {}
    for name in ("require", "unrequire", "ensureHave", "ensureHaveIfRequired"):
        fs = P.byq.get(BASE + "::" + name)
        if not fs:
            raise AnalysisBroken("%s::%s not found" % (BASE, name))
        steps[name] = [(fs[0], BASE)]
    clears = [f for f in P.fns.values() if f["n"] == "clearIfNotRequired" and (f.get("cls") or "").startswith(BASE + "D")]
    if not clears:
        raise AnalysisBroken("clearIfNotRequired not found")
    steps["clearIfNotRequired"] = [(f, f["cls"]) for f in clears]
    for name, fs in steps.items():
        for f, cls in fs:
            for start in STARTS:
                cases += 1
                fl = Proto(P, cls, False, (f["m"],))
                st = frozenset([start + ((),)])
                out = fl.fn(f, st) or frozenset()
                th = [s for t, _ in fl.throws for s in t]
                m = spec(name, start, out, th)
                if m:
                    add("protocol:%s:%s" % (name, m.replace(" ", "-")[:50]),
                        "%s %s (from computed=%s, count=%s, clearable=%s)" % (name, m, start[0], list(start[1]), start[2]), P.loc(f))
    # ---- refresh / purge
    passes = 0
    for opn in ("refreshQuantities", "purgeQuantities"):
        fs = [f for f in P.fns.values() if f["n"] == opn]
        if not fs:
            raise AnalysisBroken("%s not found" % opn)
        roots = {short(f["cls"]) for f in fs}
        for c in Q.qclasses:
            if not any(short(a) in roots for a in P.ancestors(c)):
                add("no-%s:%s" % (opn, short(c)), "%s has managed quantities but no %s" % (short(c), opn), P.recs[c].get("f", "?"))
        for f in fs:
            if not [q for q in Q.class_quantities(f["cls"])] :
                continue
            loops = find_loops(P, f)
            phase = 0
            for s, g, full, guarded in loops:
                passes += 1
                loc = P.loc(g, s.get("l"))
                eff = {st: body_effect(P, g["cls"], s, st) for st in STARTS}
                if not full or guarded or any(e[1] for e in eff.values()):
                    if any(fin and any(x[:3] != st or x[3] for x in fin) for st, (fin, _, _) in eff.items()):
                        add("partial-pass:%s" % short(f["q"]), "%s: the pass over the quantity list can skip listed quantities" % short(f["q"]), loc)
                    continue
                stale = all(fin and all((not x[0]) and not x[3] and x[1] == st[1] for x in fin) for st, (fin, _, _) in eff.items())
                ens = all(fin and not spec("ensureHaveIfRequired", st, fin, th) for st, (fin, _, th) in eff.items())
                clr = all(fin and not spec("clearIfNotRequired", st, fin, th) for st, (fin, _, th) in eff.items())
                noop = all(fin and all(x[:3] == st and not x[3] for x in fin) for st, (fin, _, _) in eff.items())
                if opn == "refreshQuantities":
                    if noop and not stale:
                        continue
                    if stale and phase == 0:
                        phase = 1
                    elif ens and phase == 1:
                        phase = 2
                    else:
                        add("refresh-pass:%s" % short(f["q"]), "%s: pass %s is neither 'mark every quantity stale' followed by 'ensure every required quantity' nor harmless" % (short(f["q"]), loc), loc)
                        phase = 9
                else:
                    if clr and phase in (0, 1):
                        phase = 1
                    elif not noop:
                        add("purge-pass:%s" % short(f["q"]), "%s: a pass does more or less than clearing unrequired quantities" % short(f["q"]), loc)
                        phase = 9
            need = 2 if opn == "refreshQuantities" else 1
            if phase < need:
                add("%s-incomplete:%s" % (opn, short(f["q"])), "%s does not complete its passes over the whole quantity list (phase %d of %d)" % (short(f["q"]), phase, need), P.loc(f))
            # the passes are reached on every path
            if any(s["s"] == "return" for s in walk_stmts(f["body"])):
                n_early = [s for s in walk_stmts(f["body"]) if s["s"] == "return"]
                add("%s-early-return:%s" % (opn, short(f["q"])), "%s can return before completing its passes" % short(f["q"]), P.loc(f, n_early[0].get("l")))
            samples.append("%s: %d pass(es) over the quantity list" % (short(f["q"]), len(loops)))
    # ---- confinement
    writes = 0
    for f in P.fns.values():
        own = (f.get("cls") or "").startswith(BASE)
        for e in P.exprs(f):
            t = None
            if e.get("k") == "asg":
                t = strip(e["a"][0])
            elif e.get("k") == "un" and e["op"] in ("++", "--", "++post", "--post"):
                t = strip(e["a"][0])
            if t is None or t.get("k") != "mem" or t["q"] not in FIELDS:
                continue
            writes += 1
            if own:
                continue
            if FIELDS[t["q"]] == "rc":
                add("count-write:%s" % short(f["q"]), "%s writes a requirement count outside the protocol" % short(f["q"]), P.loc(f, e.get("l")))
            elif FIELDS[t["q"]] == "computed" and not (e.get("k") == "asg" and strip(e["a"][1]).get("v") in ("false", "0")):
                add("computed-write:%s" % short(f["q"]), "%s marks a quantity computed outside the protocol" % short(f["q"]), P.loc(f, e.get("l")))
    return dict(findings=findings, samples=samples,
                coverage=dict(quantities=len(Q.q), require_wrappers=wrappers, protocol_cases=cases, list_passes=passes, flag_writes=writes,
                              obligations=wrappers + cases + passes + writes + len(Q.q)))


class Wrap(Flow):
    def __init__(self, P, Q, cls, stack=()):
        super().__init__()
        self.P, self.Q, self.cls, self.stack = P, Q, cls, stack

    def join(self, a, b):
        return a | b

    def leaf(self, e, st):
        if e.get("k") == "call" and e.get("o") is not None:
            qi = self.Q.qid(e["o"])
            if qi and e.get("cn") in ("require", "unrequire"):
                return frozenset(p + ((e["cn"], qi),) if len(p) < 3 else p for p in st)
            g = self.P.fns.get(e.get("m") or "")
            if g and strip(e["o"]).get("k") == "this" and len(self.stack) < 4 and g.get("cls") and g["cls"] in self.P.ancestors(self.cls):
                sub = Wrap(self.P, self.Q, self.cls, self.stack + (1,))
                return sub.fn(g, st)
        return st


def wrapper_paths(P, Q, f, pre):
    fl = Wrap(P, Q, f["cls"])
    return fl.fn(f, frozenset([()])) or frozenset()
