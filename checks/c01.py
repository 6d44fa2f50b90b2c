"""C01: cached quantities are always computed from present, current inputs."""
from quantities import *

RULE = ("must-availability dataflow, per dynamic class: in the routine that computes a managed quantity (with every own helper "
        "it calls inlined under virtual dispatch), each read of another managed buffer is preceded on every path by "
        "ensureHave()/require() of the quantity owning that buffer; on every normal exit the routine has reassigned every "
        "buffer it owns, it never touches the old content of its own buffer, and it writes no buffer it does not own; "
        "other member functions read only ensured, permanently required or input quantities")
MIN = {"quantities": 55, "compute_routines": 100, "buffer_reads": 350, "dynamic_classes": 6}


def _perm(P, Q, c):
    """quantities that a constructor of c (or of a base) requires on this object and that no method of c releases"""
    anc = P.ancestors(c)
    held, released = set(), set()
    for a in anc:
        ctors = [f for f in P.bycls.get(a, ()) if f.get("kind") == "ctor" and not any(i.get("deleg") for i in f["inits"])]
        per = []
        for f in P.bycls.get(a, ()):
            got = set()
            for e in P.exprs(f):
                if e.get("k") != "call" or e.get("o") is None:
                    continue
                o = strip(e["o"])
                if o.get("k") == "this" or (o.get("k") == "un" and strip(o["a"][0]).get("k") == "this"):
                    g = P.fns.get(P.dispatch(e["m"], c)) if e.get("m") else None
                    if g and g["n"].startswith(("require", "unrequire")):
                        for x in P.exprs(g):
                            if x.get("k") == "call" and x.get("cn") in ("require", "unrequire") and x.get("o") is not None:
                                qi = Q.qid(x["o"])
                                if qi:
                                    (got if x["cn"] == "require" else released).add(qi)
                else:
                    qi = Q.qid(o) if o.get("k") == "mem" and strip(o["b"]).get("k") == "this" else None
                    if qi and f.get("kind") == "ctor" and e.get("cn") == "require":
                        got.add(qi)
            if f in ctors:
                per.append(got)
        if per:
            held |= set.intersection(*per)
    return held - released


def field_order(P, Q, c):
    """construction order of the quantities of class c: bases first, then declaration order"""
    order = []
    for a in reversed(P.ancestors(c)):
        for f in P.recs.get(a, {}).get("fields", []):
            if (a, f["n"]) in Q.q:
                order.append((a, f["n"]))
    return {q: i for i, q in enumerate(order)}


def analyse(P):
    Q = Quantities(P)
    findings, samples = [], []
    routines, reads, sites, nonpaths = set(), 0, set(), 0
    dyn = Q.dynamic_classes()
    # arrays of pointers to buffers are wiring, not buffers
    realbufs = {}
    for qi, d in Q.q.items():
        realbufs[qi] = d["bufs"] if len(d["bufs"]) == 1 else d["bufs"][1:]

    def add(key, msg, loc):
        findings.append(dict(key=key, msg=msg, loc=loc))

    for c in dyn:
        qs = Q.class_quantities(c)
        A = Analysis(Q, c)
        perm = _perm(P, Q, c)
        order = field_order(P, Q, c)
        resolved = {}
        for qi, d in qs.items():
            if not d["compute"]:
                continue
            m = P.dispatch(d["compute"], c)
            f = P.fns.get(m)
            if f is None:
                raise AnalysisBroken("no body for compute routine of %s on %s" % (qi[1], c))
            resolved[qi] = f
            if not any(True for _ in P.exprs(f)):
                A.inputs.add(qi)
        # inputs must be protected from being cleared
        for qi in A.inputs:
            src = resolved[qi]["cls"]
            ok = any(qi in Q.clearable_false.get(a, ()) for a in P.ancestors(c)) or qi in perm
            if not ok:
                add("input-clearable:%s:%s" % (short(src), qi[1]),
                    "%s supplies %s as input data (its compute routine does nothing) but nothing keeps a purge from clearing it" % (short(src), qi[1]),
                    P.loc(resolved[qi]))
        for qi, d in qs.items():
            f = resolved.get(qi)
            if f is None or qi in A.inputs:
                continue
            routines.add(f["m"] + "@" + c)
            n = len(A.found)
            out, fl = A.run(f, realbufs[qi], qi)
            if out is not None:
                for b in realbufs[qi]:
                    if b not in out[1]:
                        add("not-recomputed:%s:%s" % (short(f["q"]), short(b)),
                            "%s can return without having reassigned the buffer %s it is responsible for" % (short(f["q"]), short(b)), P.loc(f))
            for kind, fl2, b, q2, e in A.found[n:]:
                loc = P.loc(fl2.f, e.get("l"))
                if kind == "read":
                    if q2 in perm and order.get(q2, 0) < order.get(qi, 0):
                        continue
                    add("read:%s:%s" % (short(f["q"]), short(b)),
                        "computing %s on %s reads %s without first ensuring %s (path %s)" % (
                            qi[1], short(c), short(b), q2[1], " > ".join(short(P.fns[k]["q"]) if isinstance(k, str) and k in P.fns else "lambda" for k in fl2.stack)), loc)
                elif kind == "foreign":
                    add("foreign:%s:%s" % (short(f["q"]), short(b)),
                        "computing %s on %s writes %s, which belongs to %s" % (qi[1], short(c), short(b), q2[1]), loc)
                else:
                    add("stale:%s:%s" % (short(f["q"]), short(b)),
                        "computing %s on %s uses the previous content of %s before reassigning it" % (qi[1], short(c), short(b)), loc)
        # other member functions
        comp = {f["m"] for f in resolved.values()}
        A.cur = None
        for a in P.ancestors(c):
            for f in P.bycls.get(a, ()):
                if f["m"] in comp or f.get("kind") or f.get("static") or P.dispatch(f["m"], c) != f["m"]:
                    continue
                if f.get("acc") != 0 and not f["n"].startswith("compute"):
                    # protected helper: its callers are analysed with it inlined
                    continue
                n = len(A.found)
                fl = Avail(A, f, set(), None, [f["m"]])
                fl.fn(f, (frozenset(perm), frozenset()))
                nonpaths += 1
                for kind, fl2, b, q2, e in A.found[n:]:
                    if kind != "read":
                        continue
                    add("method-read:%s:%s" % (short(fl2.f["q"]), short(b)),
                        "%s reads cached %s on %s without ensuring or holding %s" % (short(fl2.f["q"]), short(b), short(c), q2[1]),
                        P.loc(fl2.f, e.get("l")))
        reads += A.reads
        sites |= A.sites
        samples.append("%s: %d quantities, %d inputs, held from construction: %s" % (short(c), len(qs), len(A.inputs), sorted(q[1] for q in perm)))
    return dict(findings=findings, samples=samples,
                coverage=dict(quantities=len(Q.q), buffers=len(Q.owner), dynamic_classes=len(dyn), compute_routines=len(routines),
                              buffer_reads=reads, distinct_read_sites=len(sites), other_methods=nonpaths,
                              obligations=reads + len(routines)))
