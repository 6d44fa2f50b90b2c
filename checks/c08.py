"""C08: index-kind typing of element indices."""
from kinds import *

RULE = ("unification-based kind inference over the type-checked source: every integer, container index and linear-algebra dimension that is derived from a "
        "vertex / edge / halfedge / face / corner / boundary-loop index, count or per-element container gets one kind (polymorphic function schemes, "
        "fields global); a place where two different kinds must be equal - indexing a per-vertex container with a face index, storing an edge index in a "
        "vertex table, multiplying or slicing matrices whose inner dimensions range over different elements, handing a function an index of the wrong "
        "kind - is reported")
MIN = {"functions": 1500, "unifications": 6000, "index_sites": 400, "checked_sites": 400}
NAME = dict(V="vertex", E="edge", H="halfedge/corner", F="face", C="corner", B="boundary-loop", VI="interior-vertex")


def analyse(P):
    K = Kinds(P)
    for m in sorted(P.fns):
        K.get(m)
    findings = {}
    for f, ks, l, e in K.conflicts:
        key = "kind:%s:%s" % (short(f["q"]), "-".join(sorted(map(str, ks))))
        findings.setdefault(key, dict(key=key, loc=P.loc(f, l), msg="%s uses one value both as a %s index and as a %s index" % (
            short(f["q"]), NAME.get(str(ks[0]), ks[0]), NAME.get(str(ks[1]), ks[1]))))
    return dict(findings=list(findings.values()), samples=[],
                coverage=dict(functions=len(K.scheme), unifications=K.unifications, index_sites=K.index_sites, checked_sites=K.checked,
                              obligations=K.unifications))
