"""C16: queries do not depend on each other and leave what they are given alone."""
from ir import *
from effects import *
from queries import analyse as queries

RULE = ("(1) history independence: every public method of a query object is interpreted from the state an arbitrary history of other public calls can leave (only what all constructors build and no "
        "method takes away is known to be there): a member that queries write is read only after this call rewrote it or established that it is built (null / size / flag test, or building it), an owned "
        "helper is dereferenced only when it is built, and what is kept between calls is computed from constructor input and settings only (data dependences), never from a query's arguments or scratch; "
        "after a setter, in every pair of following queries, whatever is computed from the setting is rebuilt before it is used; (2) mod-ref: no function outside the documented mutators writes (directly, "
        "through references, lambdas, calls, helper objects) the mesh, geometry or point cloud it is given or was constructed with, nor anything passed by const reference; (3) no function writes a global "
        "or static variable other than the standard streams and the random generators")
MIN = {"functions": 1500, "query methods": 50, "member uses": 800, "judged parameters": 100}
ASSUMPTIONS = ("distinct reference parameters and this do not alias", "evaluating a managed quantity changes only that quantity's buffer (C01)", "resizing a member counts as rewriting it; entries of C arrays used as scratch are not followed")

S = "geometrycentral::surface::"
QUERY = [S + "HeatMethodDistanceSolver", S + "VectorHeatMethodSolver", S + "SignedHeatSolver", S + "PolygonMeshHeatSolver", S + "BFF", S + "PoissonDiskSampler", S + "GeodesicAlgorithmExact",
         "geometrycentral::pointcloud::PointCloudHeatSolver"]
MESH, GEO, CLOUD = "mesh", "geometry", "point cloud"
# documented to change what they are given
MUTATORS = {
    "catmullClarkSubdivide": (MESH, GEO), "loopSubdivide": (MESH, GEO), "linearSubdivide": (MESH, GEO),
    "remesh": (MESH, GEO), "adjustEdgeLengths": (MESH, GEO), "fixDelaunay": (MESH,), "smoothByLaplacian": (GEO,), "smoothByCircumcenter": (GEO,), "quadricErrorSimplify": (MESH, GEO),
    "buildIntrinsicTuftedCover": (MESH,), "flipToDelaunay": (MESH,), "uniformizeDisk": (MESH,),
}
OWNERS = {S + "MutationManager", S + "ConvexEmbedder"}


def kind(t):
    if not (isref(t) or isptr(t)):
        return None
    t = t.replace("const ", "").rstrip("&* ").strip()
    n = re.sub(r"<.*", "", t).split("::")[-1]
    if "::" in t and not t.startswith("geometrycentral"):
        return None
    if n in ("SurfaceMesh", "ManifoldSurfaceMesh"):
        return MESH
    if n == "PointCloud":
        return CLOUD
    if n.endswith(("GeometryInterface", "EdgeLengthGeometry", "VertexPositionGeometry", "PointPositionGeometry", "PointPositionNormalGeometry", "PointPositionFrameGeometry")):
        return GEO
    return None


def steps(p):
    out = ""
    for s in p[1:]:
        out += {"F": lambda: "." + s[1].split("::")[-1]}.get(s[0], lambda: "[]" if s[0].startswith("[") else "")()
    return out


def analyse(P):
    X = Effects(P)
    X.solve()
    F = {}
    judged = wr = 0
    samples = []
    for f in P.fns.values():
        if f["m"] not in X.sum:
            continue
        name, n = short(f["q"]), f["q"].split("::")[-1]
        ps = [kind(p["t"]) for p in f["ps"]]
        api = f.get("hd") and f.get("acc") in (None, 0) and "(anonymous" not in f["q"]
        cls = f.get("cls", "")
        judged += sum(1 for i, k in enumerate(ps) if k and api) + sum(1 for p in f["ps"] if p["t"].startswith("const ") and isref(p["t"]))
        for p in sorted(X.fn(f["m"]), key=str):
            wr += 1
            at = P.loc(f, X.why.get((f["m"], p)))
            if p[0][0] == "A":
                i = p[0][1]
                t = f["ps"][i]["t"]
                k = ps[i]
                if t.startswith("const ") and isref(t) and not re.search(r"\*\s*&", t) and ("*r",) not in p and ("*u",) not in p and not any(s[0] == "F" and viaref(P, s[1]) for s in p[1:]):
                    F.setdefault("%s#const %s" % (name, f["ps"][i]["n"]), {"key": "%s#const %s" % (name, f["ps"][i]["n"]), "msg": "%s writes %s%s, which it is given by const reference" % (name, f["ps"][i]["n"], steps(p)), "loc": at})
                if k and api and k not in MUTATORS.get(n, ()) and not (cls in OWNERS) and not nowrite(k, p):
                    key = "%s#%s" % (name, f["ps"][i]["n"])
                    F.setdefault(key, {"key": key, "msg": "%s changes the %s it is given (%s%s); it is not documented to" % (name, k, f["ps"][i]["n"], steps(p)), "loc": at})
            elif p[0][0] == "T" and len(p) > 2 and p[1][0] == "F" and f.get("kind") != "dtor":
                c, fl = p[1][1].rsplit("::", 1)
                t = next((x["t"] for x in P.recs.get(c, {}).get("fields", []) if x["n"] == fl), "")
                k = kind(t)
                if k and isref(t) and c not in OWNERS and not nowrite(k, p[1:]):
                    key = "%s#%s" % (name, fl)
                    F.setdefault(key, {"key": key, "msg": "%s changes the %s its object was constructed with (%s)" % (name, k, steps(p)[1:]), "loc": at})
            elif p[0][0] == "G":
                g = p[0][1]
                if g.startswith("std::") or g.split("::")[-1].startswith("util_"):
                    continue
                key = "%s#global %s" % (name, g.split("::")[-1])
                F.setdefault(key, {"key": key, "msg": "%s writes the global %s: later results depend on earlier calls" % (name, g), "loc": at})
    # static locals
    for f in P.fns.values():
        if f["m"] not in X.sum:
            continue
        for s in walk_stmts(f["body"]):
            if s["s"] == "decl":
                for v in s["vs"]:
                    if v.get("st") and not v["t"].startswith("const ") and not isref(v["t"]) and written(f, v["d"]):
                        key = "%s#static %s" % (short(f["q"]), v["n"])
                        F.setdefault(key, {"key": key, "msg": "%s keeps state between calls in the static %s" % (short(f["q"]), v["n"]), "loc": P.loc(f, s.get("l"))})
    out, cov = queries(P, X, QUERY)
    for cls, f, fld, what, l in out:
        name = short(f["q"]) if f else short(cls)
        n = fld.split("::")[-1]
        key = "%s#%s %s" % (name, n, what)
        msg = {"unbuilt": "%s uses %s, which it has not made sure is built" % (name, n),
               "left over": "%s reads or adds to %s as an earlier call left it" % (name, n),
               "argument": "%s keeps %s between queries, but it is computed from a query's arguments" % (name, n)}.get(what)
        if msg is None:
            msg = "%s uses %s as computed before %s changed what it depends on" % (name, n, what.split(":")[1])
        F.setdefault(key, {"key": key, "msg": msg, "loc": P.loc(f, l) if f else "%s:%s" % (rel(P.recs[cls].get("f", "")), l)})
    for k, v in list(cov.items())[:5]:
        samples.append("%s: %d public methods, %d members written by queries, %d kept" % (k, v["public"], v["mutable"], v["caches"]))
    return {"findings": list(F.values()), "samples": samples,
            "coverage": {"functions": len(X.sum), "written paths": wr, "judged parameters": judged, "query classes": len(cov), "query methods": sum(v["public"] for v in cov.values()),
                         "member uses": sum(v["uses"] for v in cov.values()), "settings": sum(v["settings"] for v in cov.values())}}


def nowrite(k, p):
    """writes that are not changes of the object's content: managed buffers, bookkeeping"""
    return len(p) < 2


def viaref(P, q):
    c, fl = q.rsplit("::", 1)
    t = next((x["t"] for x in P.recs.get(c, {}).get("fields", []) if x["n"] == fl), "")
    return isref(t) or isptr(t)


def written(f, d):
    for x in walk_stmt(f["body"]):
        k = x.get("k")
        if k in ("asg", "un") and x.get("a"):
            if k == "un" and x["op"] not in ("++", "--", "++post", "--post"):
                continue
            l = strip(x["a"][0])
        elif k == "call" and x.get("o") is not None and not x.get("const"):
            l = strip(x["o"])
        else:
            continue
        while l.get("k") in ("idx",) or l.get("k") == "call" and l.get("o") is not None or l.get("k") == "mem" and l.get("b") is not None:
            l = strip(l["a"][0] if l["k"] == "idx" else l["o"] if l["k"] == "call" else l["b"])
        if l.get("k") == "ref" and l.get("d") == d:
            return True
    return False
