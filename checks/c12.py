"""C12: units of measure - results scale with the model."""
import sys, threading
from ir import *
from units import *
from extract import AnalysisBroken

RULE = ("units-of-measure inference (power of length carried by every value) over every function body of the library: polymorphic summaries per function, one unit per "
        "data member, the documented units of the managed geometry quantities and of the main solver results as anchors; +, -, comparison, assignment, argument and "
        "return each demand equal units, * / sqrt, norms, dot and cross products compose them; a non-zero numeric constant is dimensionless, so a tolerance or offset "
        "compared with or added to a length, area or inverse length is reported")
MIN = {"functions": 2500, "unit_equalities": 4000, "anchored_quantities": 60}
ASSUMPTIONS = ("the built-in table of units of Eigen, std and Vector2/Vector3 operations (norm, dot, cross, sqrt, ...) is right",)
S = GC + "surface::"
PC = GC + "pointcloud::"


def anchors():
    A = {}

    def a(cls, u, names):
        for n in names.split():
            A[cls + "::" + n] = u
    I = S + "IntrinsicGeometryInterface"
    a(I, 1, "edgeLengths halfedgeVectorsInFace halfedgeVectorsInVertex")
    a(I, 2, "faceAreas vertexDualAreas vertexLumpedMassMatrix vertexGalerkinMassMatrix faceGalerkinMassMatrix crouzeixRaviartMassMatrix hodge0 hodge2Inverse")
    a(I, -2, "hodge0Inverse hodge2")
    a(I, 0, "cornerAngles vertexAngleSums cornerScaledAngles vertexGaussianCurvatures faceGaussianCurvatures halfedgeCotanWeights edgeCotanWeights "
            "transportVectorsAcrossHalfedge transportVectorsAlongHalfedge cotanLaplacian vertexConnectionLaplacian crouzeixRaviartLaplacian "
            "crouzeixRaviartConnectionLaplacian faceConnectionLaplacian hodge1 hodge1Inverse d0 d1")
    E = S + "ExtrinsicGeometryInterface"
    a(E, 0, "edgeDihedralAngles")
    a(E, 1, "vertexMeanCurvatures vertexPrincipalCurvatureDirections facePrincipalCurvatureDirections")
    a(E, -1, "vertexMinPrincipalCurvatures vertexMaxPrincipalCurvatures")
    M = S + "EmbeddedGeometryInterface"
    a(M, 1, "vertexPositions vertexDualMeanCurvatureNormals polygonDivergenceMatrix")
    a(M, 0, "faceNormals vertexNormals faceTangentBasis vertexTangentBasis simplePolygonLaplacian polygonLaplacian polygonVertexConnectionLaplacian "
            "polygonHodge1 polygonD0 polygonD1 virtualRefinementAreaWeights")
    a(M, 2, "simplePolygonVertexGalerkinMassMatrix simplePolygonVertexLumpedMassMatrix polygonVertexLumpedMassMatrix polygonHodge0 polygonHodge2Inverse")
    a(M, -2, "polygonHodge0Inverse polygonHodge2")
    a(M, -1, "polygonGradientMatrix")
    C = PC + "PointPositionGeometry"
    a(C, 1, "positions tangentCoordinates")
    a(C, 0, "normals tangentBasis tangentTransport laplacian connectionLaplacian")
    a(C, -1, "gradient")
    a(S + "SurfacePoint", 0, "tEdge faceCoords")
    # the affine heat system stacks a vector and a scalar row per vertex
    a(S + "VectorHeatMethodSolver", "mix", "affineHeatSolver")
    for c in "HeatMethodDistanceSolver VectorHeatMethodSolver PolygonMeshHeatSolver".split():
        a(S + c, 0, "tCoef")
        a(S + c, 2, "shortTime")
    a(S + "SignedHeatSolver", 2, "shortTime")
    a(PC + "PointCloudHeatSolver", 0, "tCoef")
    a(PC + "PointCloudHeatSolver", 2, "shortTime")
    return A


PARAMS = {S + "SignedHeatSolver::SignedHeatSolver": {1: 0}, S + "SignedHeatSolver::setDiffusionTimeCoefficient": {0: 0}}
RET = {S + "VectorHeatMethodSolver::computeLogMap": 1, S + "HeatMethodDistanceSolver::computeDistance": 1}
OPAQUE = (GC + "DependentQuantityD", S + "RemeshOptions::")
SKIP = (GC + "MeshData", GC + "Vector2::", GC + "Vector3::", S + "SurfaceMesh::", GC + "DependentQuantity", GC + "horizontalStack", GC + "verticalStack", BV + "::")
# the third-party MMP exact geodesic code is written with absolute tolerances throughout and is not part of the claim
OUTSIDE = ("exact_geodesic", "exact_polyhedral")


def consts_at(f, line):
    """numeric constants and named constants used on a line of a function (local constants by their value)"""
    out = set()
    local = {}

    def lit(e):
        try:
            v = float(strip(e)["v"])
        except (ValueError, TypeError, KeyError):
            return
        if 0 < abs(v) and v != int(v):
            return "%g" % v
    for st in walk_stmts(f["body"]):
        if st["s"] == "decl":
            for v in st["vs"]:
                if v.get("i") and lit(v["i"]):
                    local[v["d"]] = lit(v["i"])
    for e in walk_stmt(f["body"]):
        if e.get("l") != line:
            continue
        if e.get("k") == "lit" and lit(e):
            out.add(lit(e))
        elif e.get("k") == "ref" and e.get("dk") == "local" and e.get("d") in local:
            out.add(local[e["d"]])
        elif e.get("k") == "ref" and e.get("dk") == "global":
            out.add(e["n"].split("::")[-1])
    return "+".join(sorted(out))


def run(P):
    A = anchors()
    known = set()
    for c in P.recs:
        for x in P.recs[c]["fields"]:
            known.add(c + "::" + x["n"])
    n = sum(1 for k in A if k in known or any(k.split("::")[-1] == y.split("::")[-1] for y in known if y.split("<")[0].startswith(k.rsplit("::", 1)[0])))
    U = Units(P, A, retunits=RET, opaque=OPAQUE, skip=SKIP, params=PARAMS)
    for m in sorted(P.fns):
        U.get(m)
    U.finish()
    findings = {}
    outside = 0
    for (ff, q, l, w), (f, line, what, d, via) in U.findings.items():
        base = ff.split("/")[-1]
        if any(base.startswith(x) for x in OUTSIDE):
            outside += 1
            continue
        c = consts_at(f, line)
        if what.startswith("numeric constant"):
            key = "units:%s:%s:%s" % (base, d.split(" meets")[0], c or "value")
        else:
            key = "units:%s:%s:%s" % (base, q, what + " " + d)
        if key not in findings:
            findings[key] = dict(key=key, msg="in %s, %s: %s%s%s" % (short(q), what, d, " (constant %s)" % c if c else "", "" if not via else " (reached from %s line %s)" % (short(via[0]["q"]), via[1])),
                                 loc=P.loc(f, line))
    cov = dict(functions=len(U.sums), unit_equalities=U.eqs, call_sites=U.sites, anchored_quantities=n, outside_the_claim=outside, obligations=U.eqs)
    samples = ["%s carries length^%s" % (k.replace(GC, ""), v) for k, v in list(A.items())[:12]]
    return dict(findings=list(findings.values()), coverage=cov, samples=samples)


def analyse(P):
    res = []

    def go():
        try:
            res.append(run(P))
        except BaseException as e:
            res.append(e)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.setrecursionlimit(old)
    if isinstance(res[0], BaseException):
        raise res[0]
    return res[0]
