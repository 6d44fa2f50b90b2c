"""C09: dense numbering vs raw handle numbers."""
from kinds import *

RULE = ("the index-kind inference of C08 with the numbers that identify elements (getIndex(), mesh.vertex(i), element containers addressed by integer) "
        "kept apart from the dense enumeration 0..n-1 (n*() counts, *Indices arrays, toVector/fromVector, matrix and vector dimensions): outside the "
        "mesh classes themselves, a place where one value is used in both ways is reported, unless the routine only sees compressed meshes (it or "
        "every caller in the file compresses, rejects an uncompressed mesh, or has just built the mesh)")
MIN = {"functions": 1500, "unifications": 6000, "index_sites": 400, "loose": 4}
ASSUMPTIONS = ["point clouds have no public deletion, so raw and dense point numbers coincide",
               "embed_convex works on the intrinsic triangulation it builds and only flips edges, so its mesh stays compressed"]
INTERNAL = tuple(GC + x for x in ("surface::SurfaceMesh", "surface::ManifoldSurfaceMesh", "surface::RichSurfaceMeshData", "pointcloud::PointCloud",
                                  "surface::ConvexEmbedder"))
MESH = re.compile(r"geometrycentral::surface::(Manifold)?SurfaceMesh$")


def loose_functions(P):
    """functions all of whose meshes are compressed by construction, by a check, or by a compress() call"""
    why = {}
    for m, f in P.fns.items():
        if "pointcloud::" in f["q"]:
            why[m] = "point cloud: the tufted mesh is built with the cloud's dense numbering and its vertices are never deleted"
        for e in P.exprs(f):
            if e.get("k") == "call" and e.get("cn") in ("compress", "isCompressed") and MESH.search((e.get("c") or "").strip()):
                why[m] = e["cn"]
            if e.get("k") in ("ctor", "new") and MESH.search((e.get("c") or e.get("t") or "").replace("*", "").strip()) and len(e.get("a") or ()) >= 1:
                why.setdefault(m, "builds the mesh")
    # constructors of a class one of whose base constructors checks
    for m, f in P.fns.items():
        if f.get("kind") == "ctor" and m not in why:
            for i in f["inits"]:
                b = i.get("e") or {}
                if b.get("m") in why and not i.get("mem"):
                    why[m] = "base " + why[b["m"]]
    # file-local helpers all of whose callers are loose
    callers = collections.defaultdict(set)
    for m, f in P.fns.items():
        for e in P.exprs(f):
            if e.get("k") in ("call", "ctor") and e.get("m") in P.fns:
                callers[e["m"]].add(m)
    for _ in range(4):
        for m, f in P.fns.items():
            if m in why or not callers[m] or not (f.get("local") or f.get("acc") == 2):
                continue
            if all(c in why for c in callers[m]):
                why[m] = "only called by such"
    return why


def analyse(P):
    why = loose_functions(P)
    K = Kinds(P, split=True, loose=set(why))
    for m in sorted(P.fns):
        K.get(m)
    findings = {}
    for f, ks, l, e in K.conflicts:
        if not (ks[0][-1] == ks[1][-1] and ks[0] != ks[1]) or (f.get("cls") or "") in INTERNAL:
            continue
        key = "dense:%s:%s" % (short(f["q"]), ks[0][-1])
        findings.setdefault(key, dict(key=key, loc=P.loc(f, l), msg="%s uses a raw element number as if the elements were numbered densely (or the other way round): "
                            "wrong on a mesh with deleted elements" % short(f["q"])))
    return dict(findings=list(findings.values()), samples=sorted("%s: %s" % (short(P.fns[m]["q"]), w) for m, w in why.items() if P.fns[m]["f"].startswith("src"))[:12],
                coverage=dict(functions=len(K.scheme), unifications=K.unifications, index_sites=K.index_sites, checked_sites=K.checked, loose=len(why),
                              obligations=K.unifications))
