"""C03: algorithms read only cached quantities they hold, and release only what they took."""
from hold import *

RULE = ("interprocedural requirement-count dataflow on (geometry object path, quantity): at every read of a managed buffer of a geometry "
        "object the routine (or, for a helper, each caller that reaches it; or the constructor of the owning class; or the geometry's own "
        "constructor) holds a positive requirement on every path; on every normal exit of an API routine no requirement count it did not "
        "take has gone down; a destructor gives back at most what every constructor takes")
MIN = {"functions": 800, "require_events": 250, "buffer_reads": 250, "api_routines": 200}


def analyse(P):
    Q = Quantities(P)
    H = Holds(P, Q)
    findings, samples = [], []
    api = 0
    events0 = sum(1 for f in P.fns.values() for e in P.exprs(f) if e.get("k") == "call" and e.get("m") in H.wrap)
    seen = set()

    def show(p):
        names = []
        for x in p:
            if x == "this":
                continue
            if isinstance(x, int):
                continue
            if x in ("param", "local"):
                continue
            names.append(str(x))
        return ".".join(names) or ("its parameter" if p[0] == "param" else "itself")
    for m in sorted(P.fns):
        s = H.summary(m)
        f = P.fns[m]
        if s is None or m in H.wrap:
            continue
        geomcls = f.get("cls") in H.geomclasses
        is_api = not f.get("local") and (f.get("acc") == 0 if f.get("cls") else bool(f.get("hd")))
        if geomcls and f["n"].startswith("compute"):
            is_api = False
        if is_api:
            api += 1
        for p, qi, loc, buf, g in s["needs"]:
            if geomcls and p == ("this",):
                continue                     # C01
            if not (is_api or (p[0] == "local" and f is g)):
                continue
            if f.get("kind") == "dtor":
                continue
            # report once per reading site, at the routine that reads; keep the API routine in the message
            k = (g["m"], loc, buf)
            if k in seen:
                continue
            seen.add(k)
            findings.append(dict(key="read:%s:%s" % (short(g["q"]), short(buf).split("::")[-1]), loc=loc,
                                 msg="%s reads cached %s of %s, but %s reaches it on a path with no requirement held on it" % (
                                     short(g["q"]), short(buf).split("::")[-1], show(p), short(f["q"]))))
        if f.get("kind") == "dtor":
            held = {}
            for c in P.bycls.get(f["cls"], ()):
                if c.get("kind") == "ctor" and not any(i.get("deleg") for i in c["inits"]) and H.summary(c["m"]):
                    d = H.summary(c["m"])["delta"]
                    held[c["m"]] = d
            for k, v in s["delta"].items():
                if min(v) >= 0 or k[0][0] != "this":
                    continue
                have = min([min(d.get(k, frozenset([0]))) for d in held.values()] or [0])
                if min(v) + have < 0:
                    findings.append(dict(key="dtor-release:%s:%s" % (short(f["q"]), k[1][1]), loc=P.loc(f),
                                         msg="the destructor of %s releases %s of %s more often than its constructors require it" % (short(f["cls"]), k[1][1], show(k[0]))))
            continue
        if is_api:
            for (p, qi), v in sorted(s["delta"].items(), key=str):
                if min(v) < 0 and p[0] in ("param", "this", "glob"):
                    findings.append(dict(key="over-release:%s:%s" % (short(f["q"]), qi[1]), loc=P.loc(f),
                                         msg="%s can return having released %s of %s more often than it required it" % (short(f["q"]), qi[1], show(p))))
    for c in sorted(H.ctorheld):
        h = H.ctorheld[c]
        if h:
            samples.append("%s holds from construction: %s" % (short(c), sorted(show(p) + "." + q[1] for p, q in h)))
    return dict(findings=findings, samples=samples,
                coverage=dict(functions=len(H.sums), api_routines=api, require_events=events0, buffer_reads=H.reads, classes_with_holds=len([1 for h in H.ctorheld.values() if h]),
                              obligations=H.reads + api))
