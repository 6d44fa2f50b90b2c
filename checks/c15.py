"""C15: no view, range or closure is used after what it refers to has moved or ended."""
from ir import *
from lifetime import *

RULE = ("typestate of views: a reference, pointer or iterator into a container (vector, deque, list, map, unordered_map, MeshData, unique_ptr, Eigen object), and a range or mesh neighbourhood being "
        "iterated, is not used after an operation that the container's rules (and, for mesh data and mesh ranges, growth, compression and changes of connectivity) say may move or end it, in the same function or "
        "through calls (effect summaries relative to this and reference parameters); moved-from objects are not read; a closure over locals registered in a list that outlives them is removed on every "
        "normal exit; no pointer, reference, iterator or closure to a local object is returned or stored outside; pointers to elements are only kept for containers that never move their elements; "
        "nothing refers into a temporary")
MIN = {"functions": 2000, "views": 120, "ranges": 100, "operations": 1500}
ASSUMPTIONS = ("distinct reference parameters and this do not alias", "user-supplied callbacks do not change the mesh", "flipping or removing elements inside the mesh classes' own methods is decided by C05")


def mine(f):
    return f.get("body") and f["f"].startswith(REPO + "/") and "/deps/" not in f["f"]


def analyse(P):
    sys_limit()
    L = Lifetimes(P)
    F = {}
    st = L.stats
    grow = grown(L)
    samples = []
    for f in list(P.fns.values()):
        if not mine(f):
            continue
        st["functions"] += 1
        V = Valid(L, f)
        V.fn(f, frozenset())
        left = V.leftover()
        for x in walk_stmt(f["body"]):
            if x.get("k") == "lam":
                V.returns = []
                V.loop = []
                V.run(x["body"], frozenset())
        for d in V.byd:
            if isinstance(d, tuple):
                st["ranges"] += 1
            else:
                st["views"] += 1
                if len(samples) < 5:
                    samples.append("%s: view %s" % (short(f["q"]), V.names.get(d, "?")))
        name = short(f["q"])
        for (k, _), (line, bad, what) in V.found.items():
            key = "%s#%s" % (name, k[0])
            why = "it was moved from" if bad[2] == "moved" else bad[2]
            F.setdefault(key, {"key": key, "msg": "%s: %s after %s (line %s)" % (name, what, why, bad[1]), "loc": P.loc(f, line)})
        for (line, n), at in left.items():
            key = "%s#callback" % name
            F.setdefault(key, {"key": key, "msg": "%s: a closure that refers to the local %s is still registered when the function returns (line %s)" % (name, n, at), "loc": P.loc(f, line)})
        for kind, line, msg in escapes(L, f):
            if kind == "element":
                if msg in grow:
                    g, gl = grow[msg]
                    key = "%s#keeps %s" % (name, short(msg))
                    F.setdefault(key, {"key": key, "msg": "%s keeps a pointer to an element of the vector %s, which %s appends to or erases from (line %s)" % (name, short(msg), g, gl), "loc": P.loc(f, line)})
                continue
            key = "%s#%s" % (name, kind)
            F.setdefault(key, {"key": key, "msg": "%s: %s" % (name, msg), "loc": P.loc(f, line)})
    st["operations"] = L.nops()
    st["growing_vector_fields"] = len(grow)
    return {"findings": list(F.values()), "coverage": {k: v for k, v in st.items() if v}, "samples": samples}


def sys_limit():
    import sys
    sys.setrecursionlimit(10000)
