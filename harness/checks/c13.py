"""C13: graph histories against a reference model."""
import heapq

from hypothesis import strategies as st

from vp.runner import Part, require

PROPERTY = "C13"
BUILD = ["drv_math:rel"]
TECHNIQUE = "stateful property-based testing (Hypothesis) of operation histories against a reference graph model"
RULE = ("a history is non-trivial when it queries a component partition of at least two components or with a cycle, or a path "
        "whose cheapest route is not the one with the fewest edges; histories are distinct by their full operation list")
ASSUMPTIONS = ["edge weights are non-negative and finite (the library uses inverse co-visibility counts)",
               "paths are only queried between connected vertices, as documented; unknown vertices give an empty path"]

ids = st.integers(-3, 11)
weights = st.one_of(st.integers(1, 40).map(lambda n: 1.0 / n), st.floats(0, 4, allow_nan=False, allow_subnormal=False),
                    st.integers(0, 5).map(float), st.floats(1e-6, 1e6, allow_nan=False))
op = st.one_of(
    st.tuples(st.just("v"), ids), st.tuples(st.just("e"), ids, ids, weights), st.tuples(st.just("e"), ids, ids, weights),
    st.tuples(st.just("e"), ids, ids, weights), st.tuples(st.just("e"), ids, ids, weights), st.tuples(st.just("e"), ids, ids, weights),
    st.tuples(st.just("C")), st.tuples(st.just("p"), ids, ids), st.tuples(st.just("p"), ids, ids), st.tuples(st.just("c")),
    st.tuples(st.just("n")))
# whole co-visibility graphs: dense, weights 1/n, every pair queried
cov = st.integers(3, 9).flatmap(lambda n: st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(1, 60)),
                                                   min_size=n, max_size=3 * n)).map(
    lambda es: [("e", a, b, 1.0 / w) for a, b, w in es if a != b] + [("C",)] + [("p", a, b) for a in range(6) for b in range(6)])
history = st.one_of(st.lists(op, min_size=1, max_size=40), cov,
                    st.tuples(cov, st.lists(op, max_size=12), cov).map(lambda t: t[0] + [("c",)] + t[1] + t[2]))


def dij(adj, s):
    d = {s: 0.0}
    h = [(0.0, s)]
    while h:
        x, u = heapq.heappop(h)
        if x > d[u]:
            continue
        for v, w in adj[u].items():
            if x + w < d.get(v, float("inf")):
                d[v] = x + w
                heapq.heappush(h, (d[v], v))
    return d


def hops(adj, s):
    d, q = {s: 0}, [s]
    for u in q:
        for v in adj[u]:
            if v not in d:
                d[v] = d[u] + 1
                q.append(v)
    return d


def run(ctx, case):
    adj, nedges = {}, 0
    sent, expect = [], []
    nontriv, labels = False, set()
    for o in case:
        k = o[0]
        if k == "v":
            adj.setdefault(o[1], {})
        elif k == "e":
            a, b, w = o[1:]
            adj.setdefault(a, {})
            adj.setdefault(b, {})
            adj[a][b] = min(w, adj[a].get(b, float("inf")))
            adj[b][a] = min(w, adj[b].get(a, float("inf")))
            nedges += 1
        elif k == "c":
            if adj:
                labels.add("cleared")
            adj, nedges = {}, 0
        elif k == "p":
            a, b = o[1:]
            if a in adj and b in adj and b not in hops(adj, a):
                continue  # outside the documented precondition
            expect.append(("p", a, b, {u: dict(v) for u, v in adj.items()}))
        elif k == "C":
            expect.append(("C", {u: dict(v) for u, v in adj.items()}))
        elif k == "n":
            expect.append(("n", len(adj), nedges))
        sent += [str(x) if not isinstance(x, float) else repr(x) for x in o]
    n = sum(1 for t in sent if t in ("v", "e", "c", "C", "p", "n"))
    r = ctx.drv("drv_math:rel", timeout=10).call("graph", n, sent)
    for e in expect:
        if e[0] == "C":
            got = [[int(x) for x in r.vec()] for _ in range(r.i())]
            A = e[1]
            flat = [x for g in got for x in g]
            require(sorted(flat) == sorted(A), "components list vertices %s, the graph has %s", sorted(flat), sorted(A))
            for g in got:
                require(g and set(g) == set(hops(A, g[0])), "component %s is not the reachable set %s", g, sorted(hops(A, g[0])) if g else [])
            if len(got) > 1:
                nontriv = True
                labels.add("several components")
        elif e[0] == "n":
            nv, ne = r.i(), r.i()
            require(nv == e[1], "graph holds %d vertices after adding %d distinct ones", nv, e[1])
            require(ne == e[2], "graph holds %d edges, %d were added since the last clear", ne, e[2])
        else:
            _, a, b, A = e
            path = [int(x) for x in r.vec()]
            if a not in A or b not in A:
                require(path == [], "path between vertices that are not in the graph: %s", path)
                continue
            require(path and path[0] == a and path[-1] == b, "path %s does not go from %d to %d", path, a, b)
            require(len(set(path)) == len(path), "path %s repeats a vertex", path)
            for u, v in zip(path, path[1:]):
                require(v in A[u], "path %s uses the missing edge %d-%d", path, u, v)
            w = sum(A[u][v] for u, v in zip(path, path[1:]))
            best = dij(A, a)[b]
            require(w <= best * (1 + 1e-9) + 1e-300, "path %s from %d to %d weighs %.17g, the lightest weighs %.17g", path, a, b, w, best)
            if len(path) - 1 > hops(A, a)[b]:
                nontriv = True
                labels.add("lightest path is not the shortest in edges")
    require(r.done(), "more output than queries")
    return {"nontrivial": nontriv, "labels": sorted(labels), "observed": {"queries": len(expect)}}


PARTS = [Part("histories", history, run, 4000, 120000)]
