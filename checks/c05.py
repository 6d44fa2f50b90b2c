"""C05: an operation that changes the connectivity of a manifold mesh leaves a valid halfedge mesh."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ir import short
from shape import Interp, Undecided, check, S

M = S + "ManifoldSurfaceMesh::"
G = S + "SurfaceMesh::"
# operation, all faces triangles, start: 1 e.halfedge() may be exterior, 2/3 the edge ends at a vertex of degree one
OPS = [(G + "flip", 0, 0), (G + "flip", 0, 2), (G + "flip", 0, 3), (M + "insertVertexAlongEdge", 0, 0), (M + "connectVertices", 0, 0), (M + "splitEdgeTriangular", 0, 0),
       (M + "switchHalfedgeSides", 0, 1), (M + "ensureEdgeHasInteriorHalfedge", 0, 1), (M + "collapseEdgeTriangular", 1, 0),
       (M + "separateEdge", 0, 0), (M + "removeEdge", 0, 0), (M + "insertVertex", 0, 0), (M + "removeVertex", 0, 0),
       (M + "removeFaceAlongBoundary", 0, 0), (M + "ensureVertexHasBoundaryHalfedge", 0, 0), (M + "triangulate", 0, 0)]
RULE = ("Every path of every connectivity-changing operation is interpreted over an equality domain of halfedge-mesh elements (congruence closure "
        "under the laws of a valid mesh); in the mesh each path leaves: next, twin, vertex and face agree, next stays a permutation, the halfedge kept "
        "by a vertex or face belongs to it and is not deleted, a boundary vertex keeps the halfedge along the boundary, the first halfedge of an edge is "
        "interior, interior halfedges are counted, the modification counter moves, and a refusal changes nothing.")
MIN = {"operations decided": 4, "mutating paths": 8, "pointer updates": 40}
ASSUMPTIONS = ["the operation starts from a valid mesh and its documented precondition (manifold mesh; triangular neighbourhood for collapseEdgeTriangular; "
               "switchHalfedgeSides is not asked to turn the interior halfedge of a boundary edge outwards)",
               "a search for a halfedge that a valid mesh contains succeeds",
               "distinct elements the operation reads by different routes are only identified when the mesh laws or a test identify them"]


def analyse(P):
    sys.setrecursionlimit(20000)
    findings, samples, cov = [], [], {"operations decided": 0, "paths": 0, "mutating paths": 0, "pointer updates": 0, "exit obligations": 0}
    undecided = []
    inline = lambda q: q.startswith(M) or q.startswith(G)
    for q, tri, ehany in OPS:
        for f in P.byq.get(q, []):
            if not f.get("body"):
                continue

            def setup(st, fr, fn, ehany=ehany):
                if not ehany:
                    return
                st.g.ehany = ehany == 1
                for p in fn["ps"]:
                    v = st.env[(fr["id"], p["d"])]
                    if v[0] == "E" and st.g.info[v[1]][0] == "e":
                        if ehany > 1:      # both halfedges in one face, next to each other
                            h = st.g.mk("eh", v[1])
                            t = st.g.mk("tw", h)
                            st.g.union(st.g.mk("nx", h if ehany == 2 else t), t if ehany == 2 else h)
                            continue
                        st.g.setbl(st.g.mk("f", st.g.mk("tw", st.g.mk("eh", v[1]))), False)
            name = short(q)
            I = Interp(P, inline, alltri=bool(tri))
            try:
                exits = [x for x in I.run(f, setup) if not x[0].g.bad]
                res = []
                for st, val, line in exits:
                    if not (st.nwrites() or st.dead or st.news):
                        res.append(())
                    else:
                        res.append(check(st, val))
            except Undecided as e:
                if not I.viol:
                    undecided.append("%s: %s" % (name, e))
                    continue
                exits, res = [], []
            except RecursionError:
                undecided.append("%s: recursion" % name)
                continue
            cov["operations decided"] += 1
            cov["paths"] += len(exits)
            mut = [(x, r) for x, r in zip(exits, res) if x[0].nwrites() or x[0].dead or x[0].news]
            cov["mutating paths"] += len(mut)
            cov["pointer updates"] += len({(k, w[3]) for x, _ in mut for k in x[0].w for w in x[0].w[k]})
            cov["exit obligations"] += sum(x[0].nwrites() * 3 for x, _ in mut)
            samples.append("%s: %d paths, %d change the mesh%s" % (P.loc(f, f["l"]), len(exits), len(mut), ", %d excluded by the mesh being valid" % I.dropped if I.dropped else ""))
            seen = set()
            for (st, val, line), r in list(zip(exits, res)) + [((None, None, None), I.viol)]:
                for what, text, l in r:
                    key = "%s:%s" % (name, what)
                    if key in seen:
                        continue
                    seen.add(key)
                    findings.append({"key": key, "loc": P.loc(f, l or line or f["l"]),
                                     "msg": "%s: on the path returning at line %s, %s" % (name, line, text)})
    cov["operations not decided"] = len(undecided)
    cov["not decided"] = undecided
    return {"findings": findings, "coverage": cov, "samples": samples}
