"""C16: triangulation returns the true 3D point."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, strat as S
from vp.drv import lst, m
from vp.runner import Part, require

PROPERTY = "C16"
TECHNIQUE = "property-based testing (Hypothesis): generated camera configurations with a known point; outlier injection for the robust variant"
BUILD = ["drv_math:rel", "drv_math:asan"]
RULE = ("a case is non-trivial when the rays meet at ten degrees or more (all draw their own cameras, poses, point); robust cases hold at least one gross "
        "outlier or only two or three views; distinct by full description")
ASSUMPTIONS = ["rays of at least two views meet at ten degrees or more; robust cases: every pair of good views does",
               "image positions are single precision, so the exact point is only required up to the position error one rounding step causes",
               "the robust variant is called without lens distortion, as its two-view solver takes none; iterations at least 200"]


def views(c, allpairs):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    X = rng.uniform(-1, 1, 3) * c["scale"] * c["far"]
    f = rng.uniform(300, 1500)
    K = np.array([[f * rng.uniform(0.9, 1.1), 0, rng.uniform(200, 900)], [0, f * rng.uniform(0.9, 1.1), rng.uniform(200, 700)], [0, 0, 1]])
    dirs, Ts, uv = [], [], []
    for k in range(n):
        for _ in range(300):
            d = rng.normal(size=3)
            d /= np.linalg.norm(d)
            ok = all(np.arccos(min(1, abs(d @ e))) > np.radians(12 if allpairs else 4) for e in dirs)
            if ok or (not allpairs and k > 1):
                break
        dirs.append(d)
        dist = c["scale"] * rng.uniform(0.8, 4)
        eye = X + d * dist
        W = G.look_at(eye, X + rng.uniform(-0.25, 0.25, 3) * dist, rng.uniform(-3.1, 3.1))
        T = G.inv_T(W)
        Ts.append(T)
        p = K @ G.apply_T(T, X[None])[0]
        uv.append(p[:2] / p[2])
    uv = np.array(uv).astype(np.float32).astype(float)
    D = np.array(dirs)
    ang = max(np.degrees(np.arccos(np.clip(abs(D[i] @ D[j]), 0, 1))) for i in range(n) for j in range(i))
    return rng, X, K, Ts, uv, ang


def tol_of(X, K, Ts, uv, ang):
    """position error of a rounding step in the image, with ample margin"""
    depth = max(G.apply_T(T, X[None])[0][2] for T in Ts)
    step = 6e-8 * (np.abs(uv).max() + K[0, 2] + K[1, 2]) / min(K[0, 0], K[1, 1])
    return 60 * depth * step / np.sin(np.radians(max(ang, 4.0))) + 4e-7 * np.abs(X).max() + 1e-6 * depth


def send(D, cmd, uv, Ts, K, *more):
    args = [lst(uv), str(len(Ts))]
    for T in Ts:
        args.append(m(G.log_so3(T[:3, :3])))
    args.append(str(len(Ts)))
    for T in Ts:
        args.append(m(T[:3, 3]))
    r = D.call(cmd, *args, m(K), *more, seed=0)
    return np.array([r.d(), r.d(), r.d()])


def run_lin(ctx, c):
    rng, X, K, Ts, uv, ang = views(c, False)
    if ang < 10:
        return {"nontrivial": False}
    got = send(ctx.drv("drv_math:rel"), "tri", uv, Ts, K)
    e, t = np.linalg.norm(got - X), tol_of(X, K, Ts, uv, ang)
    require(e < t, "triangulated %s from %d exact views, the point is %s (error %.3g, tolerance %.3g)", got, len(Ts), X, e, t)
    return {"nontrivial": True, "labels": ["%d views" % len(Ts)], "max": {"error / tolerance": e / t}}


def run_rob(ctx, c):
    rng, X, K, Ts, uv, ang = views(c, True)
    n = len(Ts)
    # pairwise angles
    eyes = [G.inv_T(T)[:3, 3] - X for T in Ts]
    u = [e / np.linalg.norm(e) for e in eyes]
    small = min(np.degrees(np.arccos(np.clip(abs(u[i] @ u[j]), 0, 1))) for i in range(n) for j in range(i))
    if small < 10:
        return {"nontrivial": False, "labels": ["pairs too close"]}
    kmax = 0 if n < 4 else (n - 2) // 2 if n < 6 else int(0.4 * n)
    k = min(c["bad"], kmax)
    bad = rng.choice(n, k, replace=False)
    for b in bad:
        a = rng.uniform(0, 2 * np.pi)
        uv[b] += rng.uniform(60, 300) * np.array([np.cos(a), np.sin(a)])
    good = [i for i in range(n) if i not in set(bad.tolist())]
    D = ctx.drv("drv_math:asan" if c["asan"] else "drv_math:rel")
    hits, errs = 0, []
    args = [lst(uv), str(n)] + [m(G.log_so3(T[:3, :3])) for T in Ts] + [str(n)] + [m(T[:3, 3]) for T in Ts]
    for s in range(3):
        r = D.call("rtri", *args, m(K), m(np.zeros(5)), c["thresh"], 0.99, 1000, seed=c["seed"] % 1000 + s)
        got = np.array([r.d(), r.d(), r.d()])
        require(np.isfinite(got).all(), "robust triangulation returned %s", got)
        # the result comes from two views: judged in the good views by reprojection well under the threshold
        t = tol_of(X, K, Ts, uv[good], small)
        e = np.linalg.norm(got - X)
        errs.append(e)
        hits += e < t
    # two outliers may agree with each other by chance; never so often that two of three draws of the sampler fall for it
    require(hits >= 2, "robust triangulation of %d views with %d outliers: errors %s, tolerance %.3g", n, k, errs, t)
    return {"nontrivial": k > 0 or n < 4, "labels": ["%d views" % n if n < 5 else ">=5 views", "%d outliers" % k if k < 3 else ">=3 outliers"]}


base = {"seed": S.seeds, "scale": st.sampled_from([0.1, 1.0, 100.0]), "far": st.sampled_from([0.0, 1.0, 10.0])}
PARTS = [
    Part("linear", st.fixed_dictionaries(dict(base, n=st.integers(2, 12))), run_lin, 4000, 100000),
    Part("robust", st.fixed_dictionaries(dict(base, n=st.sampled_from([6, 4, 5, 7, 8, 10, 14, 2, 3]), bad=st.sampled_from([1, 2, 0, 3, 5]), thresh=st.sampled_from([2.0, 10.0]), asan=st.booleans())),
         run_rob, 3000, 60000),
]
