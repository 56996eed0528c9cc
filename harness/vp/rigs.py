"""Case strategies and scenes for whole rigs, and voting over the seeds of the randomised steps."""
import numpy as np
from hypothesis import strategies as st

from . import strat as S
from .runner import Violation
from .scene import Unplaceable, overlap_scene

SIZES = [(5, 5), (6, 5), (5, 7), (7, 7), (8, 6)]


def boards_of(c, n):
    rng = np.random.default_rng([c["seed"], 3])
    b0 = list(SIZES[c["size"]])
    out = [b0 + [c["square"]]]
    for k in range(1, n):
        if c["mixed"]:
            out.append(list(SIZES[int(rng.integers(len(SIZES)))]) + [float(np.float32(c["square"] * rng.choice([0.75, 1.0, 1.5])))])
        else:
            out.append(list(out[0]))
    return out


def overlap(c, **over):
    nb = c["boards"]
    p = {"seed": c["seed"], "models": c["models"], "layout": c["layout"], "shape": c["shape"], "boards": boards_of(c, nb),
         "objs": [list(range(nb))], "per_edge": c["per_edge"], "solo": c["solo"], "minfrac": c["minfrac"],
         "frame_step": c["step"], "frame0": c["frame0"], "perm": c["perm"], "see_all": c["see_all"], "per_link": 4,
         "cycle_boards": c["cycle"], "noise": c.get("noise", 0.0)}
    p.update(over)
    return overlap_scene(p)


def overlap_valid(c):
    if not (c["models"] and set(c["models"]) <= {0, 1} and c["boards"] >= 1 and c["per_edge"] >= 3 and c["solo"] >= 8 and c["minfrac"] >= 0.4
            and c["square"] >= 0.04 and c["step"] >= 1 and c["frame0"] >= 0 and 0 <= c["size"] < 5 and c.get("noise", 0.05) >= 0.05):
        return False
    try:
        overlap(c)
        return True
    except Unplaceable:
        return False


MODELS = [[0, 0], [0, 0, 0], [0, 1], [0], [1, 1], [0, 0, 0, 0], [1, 0, 0], [0, 1, 0, 0], [1], [0, 0, 0, 0, 0]]


def overlap_fields(**over):
    d = {"seed": S.seeds, "models": st.sampled_from(MODELS),
         "layout": st.sampled_from(["row", "arc", "ring"]), "shape": st.sampled_from(["chain", "tree", "star", "full"]),
         "boards": st.sampled_from([1, 2, 1, 3]), "mixed": st.booleans(), "size": st.integers(0, 4), "square": st.sampled_from([0.04, 0.192, 1.0, 25.0]),
         "per_edge": st.integers(3, 5), "solo": st.integers(8, 14), "minfrac": st.sampled_from([1.0, 0.6, 0.4]), "step": st.sampled_from([1, 3]),
         "frame0": st.sampled_from([0, 5]), "perm": st.booleans(), "see_all": st.booleans(), "cycle": st.booleans(), "he": st.sampled_from([0, 1]),
         "quat": st.sampled_from([1, 0])}
    d.update(over)
    return {k: v for k, v in d.items() if v is not None}


def labels(sc, c):
    ms = sorted({cam["model"] for cam in sc.cams})
    return ["%d cameras" % len(sc.cams), "%d boards" % len(sc.boards), "mixed models" if len(ms) > 1 else ["perspective", "fisheye"][ms[0]]]


def seeds_vote(fn, c, k=4, need=3):
    """fn(rd_seed) raises Violation; the case fails when `need` of `k` seeds fail"""
    fails, last, out = 0, None, None
    for s in range(k):
        try:
            r = fn(c["seed"] % 1000 + 17 * s)
            if out is None:
                out = r
        except Violation as e:
            fails, last = fails + 1, e
        if fails >= need:
            raise last
        if fails == 0 and s == 0:
            break
        if s + 1 - fails > k - need:
            break
    return out


GROUPS = [[[0], [0]], [[0, 0], [0]], [[0], [0], [0]], [[0, 0], [0, 0]], [[1], [0]], [[0], [1], [0]], [[0, 1], [0]], [[0], [0], [0], [0]], [[1], [1]]]


def links_of(shape, ng, seed):
    rng = np.random.default_rng([seed, 5])
    if shape == "chain":
        return [[i, i + 1] for i in range(ng - 1)]
    if shape == "star":
        return [[0, i] for i in range(1, ng)]
    if shape == "full":
        return [[i, j] for i in range(ng) for j in range(i + 1, ng)]
    return [[int(rng.integers(0, i)), i] for i in range(1, ng)]


def nonoverlap(c, **over):
    ng = len(c["groups"])
    n = ng * c["per_group"]
    p = {"seed": c["seed"], "groups": c["groups"], "boards": boards_of(c, n),
         "objs": [list(range(g * c["per_group"], (g + 1) * c["per_group"])) for g in range(ng)],
         "links": links_of(c.get("links", "chain"), ng, c["seed"]), "per_link": c.get("per_link", 4), "solo": c["solo"], "pair": c["pair"],
         "minfrac": c["minfrac"], "perm": c["perm"], "frame0": c["frame0"], "max_rot": c["max_rot"], "noise": c.get("noise", 0.0), "see_all": c["see_all"]}
    p.update(over)
    from .scene import nonoverlap_scene
    return nonoverlap_scene(p)


def nonoverlap_valid(c):
    if not (len(c["groups"]) >= 2 and all(g and set(g) <= {0, 1} for g in c["groups"]) and c["per_group"] >= 1 and c["per_link"] >= 4
            and c["solo"] >= 8 and c["pair"] >= 4 and c["minfrac"] >= 0.4 and c["square"] >= 0.04 and c["frame0"] >= 0 and 15 <= c["max_rot"] <= 40 and 0.1 <= c.get("ransac", 0.1) <= 0.2
            and 0 <= c["size"] < 5 and c["links"] in ("chain", "star", "full", "tree") and c.get("noise", 0.05) >= 0.01):
        return False
    try:
        nonoverlap(c)
        return True
    except Unplaceable:
        return False


def nonoverlap_fields(**over):
    d = {"seed": S.seeds, "groups": st.sampled_from(GROUPS), "links": st.sampled_from(["chain", "star", "tree", "full"]), "per_group": st.sampled_from([1, 1, 2]),
         "mixed": st.booleans(), "size": st.integers(0, 4), "square": st.sampled_from([0.04, 0.192, 1.0, 25.0]), "per_link": st.sampled_from([6, 4, 5, 8, 12, 25]),
         "solo": st.integers(8, 12), "pair": st.integers(4, 5), "minfrac": st.sampled_from([1.0, 0.6]), "perm": st.booleans(), "frame0": st.sampled_from([0, 7]),
         "ransac": st.sampled_from([0.1, 0.2]), "max_rot": st.sampled_from([28, 20, 35]), "see_all": st.booleans(), "he": st.sampled_from([0, 1]), "quat": st.sampled_from([1, 0])}
    d.update(over)
    return {k: v for k, v in d.items() if v is not None}


def components(n, edges):
    p = list(range(n))

    def find(a):
        while p[a] != a:
            a = p[a]
        return a
    for a, b in edges:
        p[find(a)] = find(b)
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(i)
    return sorted(sorted(x) for x in out.values())


def partial_links(c):
    """(links, frames per link): strong links (at least 4 frames) with probability ~1/2 along a random tree, and at most one weak link per group"""
    ng = len(c["groups"])
    rng = np.random.default_rng([c["seed"], 6])
    links, counts, weak = [], [], set()
    for i in range(1, ng):
        j = int(rng.integers(0, i))
        if rng.random() < 0.5:
            links.append([j, i])
            counts.append(int(rng.choice([4, 5, 6, 9])))
    strong = list(links)
    for i in range(ng):
        for j in range(i + 1, ng):
            if i in weak or j in weak or [i, j] in strong or rng.random() < 0.4:
                continue
            weak |= {i, j}
            links.append([i, j])
            counts.append(int(rng.choice([1, 2, 3, 3])))
    return strong, links, counts


def forest(c):
    """cameras of an overlapping rig, some of the covisibility links left out"""
    n = len(c["models"])
    rng = np.random.default_rng([c["seed"], 7])
    return [[int(rng.integers(0, i)), i] for i in range(1, n) if rng.random() < 0.55]


def params_file(sc, rel=0.0, dist=0.0, seed=0, order=None):
    """(text of a camera parameter file, {cam: (K, d)}): the true intrinsics, moved by up to the relative amount rel and the distortion amount dist"""
    from . import cvyaml
    rng = np.random.default_rng([seed, 41])
    vals, parts = {}, []
    for c, cam in enumerate(sc.cams):
        fx, fy, u, v = cam["K"]
        e = rng.uniform(-1, 1, 4) * rel
        K = np.array([[fx * (1 + e[0]), 0, u + e[2] * fx], [0, fy * (1 + e[1]), v + e[3] * fy], [0, 0, 1.0]])
        d = np.array(cam["d"], float) + rng.uniform(-1, 1, len(cam["d"])) * dist
        vals[c] = (K, d)
    for c in (order or sorted(vals)):
        K, d = vals[c]
        parts.append("camera_%d:\n   camera_matrix: %s\n   distortion_vector: %s\n" % (c, cvyaml.mat_node(K, 6), cvyaml.mat_node(d.reshape(1, -1), 6)))
    return "%YAML:1.0\n---\n" + "".join(parts), vals
