"""C12: rotation and translation averages."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, strat as S
from vp.drv import lst, m
from vp.runner import Part, require

PROPERTY = "C12"
TECHNIQUE = "property-based testing (Hypothesis): the averages against an eigen-decomposition reference, plus metamorphic order, representative and equivariance relations"
BUILD = ["drv_math:rel", "drv_calib:rel"]
RULE = ("an averaging case is non-trivial when it holds at least two different rotations whose average is unique (eigen-gap above "
        "1e-3); median and quaternion cases when they hold two values or more / a rotation above 1e-3; distinct by full description")
ASSUMPTIONS = ["sets whose quaternion average is not unique (eigen-gap below 1e-3) are outside the statement",
               "median averaging of rotation vectors is judged component by component, as documented"]


def rots(c):
    """rotation vectors of the set: a centre, spread around it, optionally in the other representative"""
    rng = np.random.default_rng(c["seed"])
    C = G.rodrigues(c["centre"])
    out = []
    for k in range(c["n"]):
        if c["kind"] == "same":
            R = C
        elif c["kind"] == "tight":
            R = C @ G.rand_R(rng, c["spread"])
        elif c["kind"] == "outliers":
            R = C @ (G.rand_R(rng, 0.02) if k % 4 else G.rand_R(rng, 2.5))
        else:
            R = G.rand_R(rng)
        v = G.log_so3(R)
        a = np.linalg.norm(v)
        if c["flip"] and a > 1e-3 and rng.uniform() < 0.5:
            v = v * (1 - 2 * np.pi / a)
        out.append(v)
    return np.array(out)


def avg(ctx, V, mode):
    return ctx.drv("drv_math:rel").call("avgrot", mode, lst(V[:, 0]), lst(V[:, 1]), lst(V[:, 2])).mat()


def run_avg(ctx, c):
    V = rots(c)
    Rs = [G.rodrigues(v) for v in V]
    E, gap = G.markley(Rs)
    got = avg(ctx, V, 2 if c["default"] else 1)
    require(got.size == 3, "average rotation has %d components", got.size)
    if gap < 1e-3:
        return {"nontrivial": False, "labels": ["ambiguous"]}
    tol = 2e-7 / min(1.0, gap) + 3e-5 * (G.rot_angle(E) > np.pi - 2e-5 or G.rot_angle(E) < 2e-5)
    d = G.rot_angle(G.rodrigues(got).T @ E)
    require(d < tol, "quaternion average of %d rotations is %.3g rad away from the true one\n%s\nexpected\n%s" % (len(V), d, G.rodrigues(got), E))
    # metamorphic: order, and rotation of the inputs
    rng = np.random.default_rng(c["seed"] + 1)
    W = V[rng.permutation(len(V))]
    d2 = G.rot_angle(G.rodrigues(avg(ctx, W, 1)).T @ E)
    require(d2 < tol, "average depends on the order of the inputs: %.3g rad" % d2)
    Q = G.rodrigues(c["turn"])
    L = np.array([G.log_so3(Q @ R) for R in Rs])
    d3 = G.rot_angle(G.rodrigues(avg(ctx, L, 1)).T @ (Q @ E))
    require(d3 < tol + 3e-5 * (G.rot_angle(Q @ E) > np.pi - 2e-5 or G.rot_angle(Q @ E) < 2e-5), "average does not turn with the inputs: %.3g rad" % d3)
    a = G.rot_angle(E)
    lab = [c["kind"], "average angle " + ("<1" if a < 1 else "<2" if a < 2 else "<3" if a < 3 else ">=3")]
    if len({tuple(np.sign(v)) for v in V}) > 1:
        lab.append("mixed signs")
    return {"nontrivial": len(V) > 1 and c["kind"] != "same" or a > 1e-3, "labels": lab, "max": {"error rad": float(d)}}


def run_med(ctx, c):
    V = np.array(c["v"], float).reshape(-1, 3)
    if len(V):
        got = avg(ctx, V, 0).ravel()
        exp = np.median(V, 0)
        require(np.abs(got - exp).max() <= 1e-15 * max(1e-300, np.abs(V).max()), "median rotation vector %s, expected %s", got, exp)
    for k in range(3):
        x = V[:, k]
        g = ctx.drv("drv_math:rel").call("median", lst(x)).d()
        e = float(np.median(x)) if len(x) else 0.0
        require(abs(g - e) <= 1e-15 * max(1e-300, np.abs(x).max() if len(x) else 0), "median of %s is %.17g, expected %.17g", x.tolist(), g, e)
    return {"nontrivial": len(V) > 1, "labels": ["even" if len(V) % 2 == 0 else "odd"]}


def run_quat(ctx, c):
    R = G.rodrigues(c["r"])
    D = ctx.drv("drv_math:rel")
    q = D.call("mat2quat", m(R)).mat().ravel()
    require(q.shape == (4,) and np.isfinite(q).all() and abs(np.linalg.norm(q) - 1) < 1e-9, "quaternion %s is not a unit quaternion", q)
    require(np.abs(G.R_from_quat(q) - R).max() < 1e-7, "quaternion %s does not represent\n%s" % (q, R))
    B = D.call("quat2mat", m(q)).mat()
    require(np.abs(B - R).max() < 1e-7, "quaternion and back gives\n%s\ninstead of\n%s" % (B, R))
    s = np.array(G.quat_from_R(G.rodrigues(c["s"]))) * (-1 if c["neg"] else 1)
    B = D.call("quat2mat", m(s)).mat()
    require(np.abs(B - G.rodrigues(c["s"])).max() < 1e-9, "quaternion %s gives\n%s\ninstead of\n%s" % (s, B, G.rodrigues(c["s"])))
    tr = np.trace(R)
    i = int(np.argmax(np.diag(R)))
    return {"nontrivial": G.rot_angle(R) > 1e-3, "labels": ["trace>0" if tr > 0 else "largest diagonal %d" % i]}


CFG = {}


def open_calib(ctx):
    """a Calibration on a minimal configuration, opened once per driver"""
    d = ctx.drv("drv_calib:rel")
    if getattr(d, "opened", None) is not d.p or d.p is None:
        import os
        from vp import cvyaml, e2e
        from vp.scene import Scene, make_camera
        sc = Scene()
        sc.boards = [(5, 5, 1.0)]
        sc.cams = [make_camera(np.random.default_rng(0), 0)]
        if d.p is None:
            d.start()
        p = os.path.join(d.dir, "c.yml")
        with open(p, "w") as f:
            f.write(cvyaml.dump_flat(e2e.base_config(sc, d.dir, "None")))
        d.call("open", p)
        d.opened = d.p
    return d


def run_pairs(ctx, c):
    d = open_calib(ctx)
    d.call("setquat", c["quat"])
    rng = np.random.default_rng(c["seed"])
    pairs, parts = {}, []
    for k, n in enumerate(c["sizes"]):
        key = (int(rng.integers(0, 5)), int(rng.integers(0, 5)))
        if key in pairs:
            continue
        C = G.rand_R(rng, 2.0 if not c["quat"] else np.pi)
        t0 = rng.uniform(-3, 3, 3)
        Ts = []
        for j in range(n):
            M = np.eye(4)
            bad = c["outliers"] and j % 4 == 3
            M[:3, :3] = C @ G.rand_R(rng, 0.2)
            M[:3, 3] = t0 + rng.normal(size=3) * (5.0 if bad else 0.1)
            Ts.append(M)
        pairs[key] = Ts
    args = [len(pairs)]
    for (a, b), Ts in pairs.items():
        args += [a, b, lst(Ts)]
    pre = [1, 3, 3, m(np.eye(4) * 2)] if c["stale"] else [0]
    q = d.call("pairs", *args, *pre)
    n = q.i()
    require(n == len(pairs), "%d pairs averaged into %d", len(pairs), n)
    for _ in range(n):
        a, b, M = q.i(), q.i(), q.mat()
        require((a, b) in pairs, "pair (%d,%d) appeared from nowhere", a, b)
        Ts = pairs[(a, b)]
        et = np.median([T[:3, 3] for T in Ts], 0)
        require(np.abs(M[:3, 3] - et).max() < 1e-12, "translation of pair %s is %s, the median is %s", (a, b), M[:3, 3], et)
        if c["quat"]:
            E, gap = G.markley([T[:3, :3] for T in Ts])
        else:
            E, gap = G.rodrigues(np.median([G.log_so3(T[:3, :3]) for T in Ts], 0)), 1.0
        e = G.rot_angle(M[:3, :3].T @ E)
        require(e < 1e-6, "rotation of pair %s is %.3g rad away from the average of its %d transforms", (a, b), e, len(Ts))
    return {"nontrivial": any(len(t) > 1 for t in pairs.values()), "labels": ["quaternion" if c["quat"] else "median", "%d pairs" % n]}


def run_group(ctx, c):
    d = ctx.drv("drv_calib:rel")
    rng = np.random.default_rng(c["seed"])
    nc = c["cams"]
    ids = sorted(rng.choice(8, nc, replace=False).tolist())
    ref = ids[0]
    P = {i: (np.eye(4) if i == ref else G.T_of(G.log_so3(G.rand_R(rng, 2.8)), rng.uniform(-2, 2, 3))) for i in ids}
    obs = []
    for o in range(c["objs"]):
        X = G.T_of(G.log_so3(G.rand_R(rng, 2.9)), rng.uniform(-3, 3, 3))
        for i in ids:
            if i == ref and not c["refsees"]:
                continue
            if rng.uniform() < 0.25 and not (i == ids[-1]):
                continue
            E = G.T_of(G.log_so3(G.rand_R(rng, c["noise"])), rng.normal(size=3) * c["noise"])
            obs.append((i, o * 2, P[i] @ X @ E))
    if c["shuffle"]:
        obs = [obs[k] for k in rng.permutation(len(obs))]
    args = [c["quat"], ref, len(ids)]
    for i in ids:
        args += [i, m(G.vec_of(P[i]))]
    args += [len(obs)]
    for i, o, T in obs:
        args += [i, o, m(G.vec_of(T))]
    q = d.call("groupavg", *args)
    per = [q.mat() for _ in obs]
    mine = [G.inv_T(P[i]) @ T for i, o, T in obs]
    for (i, o, T), g, e in zip(obs, per, mine):
        require(np.abs(g - e).max() < 1e-7, "object %d seen by camera %d has pose\n%s\nin the group instead of\n%s" % (o, i, g, e))
    n = q.i()
    want = sorted({o for _, o, _ in obs})
    poses = {}
    for _ in range(n):
        o = q.i()
        poses[o] = q.mat()
    require(sorted(poses) == want, "poses for objects %s, observed are %s", sorted(poses), want)
    for o in want:
        sel = [(i, e) for (i, oo, _), e in zip(obs, mine) if oo == o]
        r = [e for i, e in sel if i == ref]
        if r:
            E = r[-1]
        else:
            E = np.eye(4)
            E[:3, 3] = np.mean([e[:3, 3] for _, e in sel], 0)
            E[:3, :3] = G.markley([e[:3, :3] for _, e in sel])[0] if c["quat"] else G.rodrigues(np.median([G.log_so3(e[:3, :3]) for _, e in sel], 0))
        require(np.abs(poses[o] - E).max() < 1e-6, "pose of object %d in the group is\n%s\nexpected\n%s" % (o, poses[o], E))
    for when in ("after averaging", "after updating"):
        for i, o, _ in obs:
            g = q.mat()
            require(np.abs(g - poses[o]).max() < 1e-9, "%s camera %d holds another pose of object %d than the group" % (when, i, o))
    return {"nontrivial": len(obs) > 1, "labels": ["reference sees it" if c["refsees"] else "averaged", "quaternion" if c["quat"] else "median"]}


avgs = st.fixed_dictionaries({
    "seed": S.seeds, "n": st.integers(1, 25), "kind": st.sampled_from(["same", "tight", "tight", "tight", "outliers", "any"]),
    "spread": st.sampled_from([0.001, 0.1, 0.6, 1.2]), "centre": S.rotvec, "flip": st.booleans(), "default": st.booleans(),
    "turn": S.rotvec})
val = st.one_of(st.floats(-4, 4, **S.fin), st.integers(-3, 3).map(float), st.floats(-1e6, 1e6, **S.fin))
PARTS = [
    Part("quaternion-average", avgs, run_avg, 2400, 60000),
    Part("median", st.fixed_dictionaries({"v": st.lists(st.tuples(val, val, val).map(list), max_size=15)}), run_med, 1200, 20000),
    Part("quaternion-matrix", st.fixed_dictionaries({"r": S.rotvec, "s": S.rotvec, "neg": st.booleans()}), run_quat, 1600, 40000),
    Part("pair-averages", st.fixed_dictionaries({"seed": S.seeds, "sizes": st.lists(st.integers(1, 9), min_size=1, max_size=6),
                                                 "quat": st.booleans(), "outliers": st.booleans(), "stale": st.booleans()}), run_pairs, 800, 12000),
    Part("group-object-poses", st.fixed_dictionaries({"seed": S.seeds, "cams": st.integers(1, 5), "objs": st.integers(1, 3), "quat": st.booleans(),
                                                      "refsees": st.booleans(), "noise": st.sampled_from([0.0, 0.01, 0.2]), "shuffle": st.booleans()}), run_group, 800, 12000),
]
