"""C17: hand-eye calibration returns the true relative pose."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, strat as S
from vp.drv import lst
from vp.runner import Part, Reject, require

PROPERTY = "C17"
TECHNIQUE = "property-based testing (Hypothesis): generated rigid pose pairs with known relative pose, injected wrong poses, and the all-poses solution as reference for the fall-back"
BUILD = ["drv_math:rel", "drv_math:asan"]
RULE = ("a case is non-trivial when the motions turn about clearly different axes (second singular value of the rotation vectors above 0.2 rad) and the relative "
        "pose turns by more than one degree; distinct by full description")
ASSUMPTIONS = ["motions turn by at most 150 degrees (bootstrapped: 115, beyond 120 the two-step solver of the installed OpenCV takes the wrong quaternion sign) and about clearly different axes (second singular value of all motion rotation vectors at least 0.2 rad)",
               "the two-step solver inside the bootstrapped variant is singular for a relative rotation of 180 degrees: relative rotations up to 165 degrees there, "
               "any for the traditional one",
               "wrong poses: at most 15 % of 16 poses or more, off by 50 degrees or more"]


def poses(c, lim, most=150):
    rng = np.random.default_rng(c["seed"])
    n, s = c["n"], c["scale"]
    v = G.log_so3(G.rodrigues(c["x"]))
    a = np.linalg.norm(v)
    if a > np.radians(lim):
        v = v / a * np.radians(lim)
    X = G.T_of(v, rng.uniform(-3, 3, 3) * s)
    Z = G.T_of(G.log_so3(G.rand_R(rng)), rng.uniform(-3, 3, 3) * s)
    base = G.rand_R(rng)
    P1 = []
    for k in range(n):
        M = np.eye(4)
        if c["motion"] == "axes":        # turns about the coordinate axes only
            e = np.eye(3)[k % 3] * rng.choice([-1, 1])
            M[:3, :3] = G.rodrigues(e * rng.uniform(0.15, np.radians(60 if most < 120 else 75))) @ base
        elif c["motion"] == "plane":     # rotation axes in one plane
            e = np.array([rng.normal(), rng.normal(), 0])
            M[:3, :3] = G.rodrigues(e / np.linalg.norm(e) * rng.uniform(0.1, np.radians(57 if most < 120 else 70))) @ base
        else:
            M[:3, :3] = G.rand_R(rng, np.radians(c["amp"])) @ base
        M[:3, 3] = rng.uniform(-1, 1, 3) * s + np.array([0, 0, 3 * s])
        P1.append(M)
    W = []
    for i in range(n):
        for j in range(i):
            W.append(G.log_so3(P1[i][:3, :3] @ P1[j][:3, :3].T))
    sv = np.linalg.svd(np.array(W), compute_uv=False) / np.sqrt(len(W))
    if max(np.linalg.norm(w) for w in W) > np.radians(most):
        raise Reject("motion too large")
    P2 = [G.inv_T(X) @ P @ Z for P in P1]
    return rng, X, P1, P2, float(sv[1]), s


def call(ctx, boot, P1, P2, seed=0, ncl=20, nit=200, flavour="rel"):
    pre = [1, ncl, nit] if boot else [0]
    return ctx.drv("drv_math:" + flavour).call("handeye", *pre, lst(P1), lst(P2), seed=seed, timeout=120).mat()


def err(X, Y, s):
    return G.rot_angle(X[:3, :3].T @ Y[:3, :3]), np.linalg.norm(X[:3, 3] - Y[:3, 3]) / s


def run_trad(ctx, c):
    rng, X, P1, P2, sv, s = poses(c, 180)
    if sv < 0.2:
        return {"nontrivial": False, "labels": ["weak motion"]}
    Y = call(ctx, 0, P1, P2)
    require(Y.shape == (4, 4) and np.isfinite(Y).all(), "result\n%s", Y)
    a, t = err(X, Y, s)
    require(a < 1e-5 and t < 1e-4, "traditional hand-eye from %d exact pose pairs is off by %.3g rad, %.3g relative translation\n%s\nexpected\n%s" % (len(P1), a, t, Y, X))
    return {"nontrivial": G.rot_angle(X) > 0.02, "labels": [c["motion"], "large turn" if G.rot_angle(X) > 2 else "other"], "max": {"rad": a, "t": t}}


def run_boot(ctx, c):
    rng, X, P1, P2, sv, s = poses(c, 165, 115)
    n = len(P1)
    nb = int(n * c["bad"]) if n >= 16 else 0
    bad = rng.choice(n, nb, replace=False)
    for b in bad:
        w = rng.normal(size=3)
        E = np.eye(4)
        E[:3, :3] = G.rodrigues(w / np.linalg.norm(w) * rng.uniform(np.radians(50), np.radians(170)))
        side = P1 if rng.uniform() < 0.5 else P2
        M = side[b].copy()
        M[:3, :3] = M[:3, :3] @ E[:3, :3]
        M[:3, 3] += rng.uniform(-1, 1, 3) * s * 0.3
        side[b] = M
    if sv < (0.2 if n > 6 else 0.3):
        return {"nontrivial": False, "labels": ["weak motion"]}
    Y = call(ctx, 1, P1, P2, seed=c["seed"] % 1000, ncl=c["ncl"], nit=c["nit"], flavour="asan" if n < 7 else "rel")
    require(Y.shape == (4, 4) and np.isfinite(Y).all(), "result\n%s", Y)
    a, t = err(X, Y, s)
    # a drawn subset may turn about one axis only: its rotation is then arbitrary, passes the consistency test and enters the mean
    lim = (0.06, 1e-3) if nb or c["motion"] == "axes" else (1e-4, 1e-4)
    require(a < lim[0] and t < lim[1], "bootstrapped hand-eye from %d pose pairs (%d wrong) is off by %.3g rad, %.3g relative translation\n%s\nexpected\n%s" % (n, nb, a, t, Y, X))
    return {"nontrivial": G.rot_angle(X) > 0.02, "labels": [c["motion"], "%d wrong" % nb, "few poses" if n < 7 else "many poses"],
            "max": {"rad clean" if nb == 0 else "rad with wrong poses": a, "t clean" if nb == 0 else "t with wrong poses": t}}


def run_fall(ctx, c):
    rng, X, P1, P2, sv, s = poses(dict(c, motion="any", amp=60, x=[0.3, 0.2, 0.1]), 165)
    if c["few"]:         # too few rounds to trust
        nit = c["few"]
    else:                # poses that do not belong together
        nit = 60
        for k in range(len(P2)):
            P2[k] = P2[k].copy()
            P2[k][:3, :3] = G.rand_R(rng) @ P2[k][:3, :3]
    Y = call(ctx, 1, P1, P2, seed=c["seed"] % 1000, nit=nit)
    Z = call(ctx, 0, P1, P2)
    require(Y.shape == Z.shape, "shapes %s %s", Y.shape, Z.shape)
    a, t = err(Z, Y, s)
    require((a < 1e-6 and t < 1e-6) or not np.isfinite(Z).all(), "without a consistent subset the result should be the one from all poses\n%s\nis\n%s", Z, Y)
    return {"nontrivial": True, "labels": ["few rounds" if c["few"] else "inconsistent"]}


base = {"seed": S.seeds, "x": S.rotvec, "scale": st.sampled_from([0.1, 1.0, 100.0]), "motion": st.sampled_from(["any", "axes", "plane"]),
        "amp": st.sampled_from([55.0, 30.0, 75.0])}
PARTS = [
    Part("traditional", st.fixed_dictionaries(dict(base, n=st.integers(4, 25))), run_trad, 2500, 50000),
    Part("bootstrapped", st.fixed_dictionaries(dict(base, n=st.one_of(st.integers(16, 45), st.integers(4, 45)), bad=st.sampled_from([0.0, 0.15, 0.08]),
                                                    ncl=st.sampled_from([20, 8]), nit=st.just(200))), run_boot, 500, 8000),
    Part("fall-back", st.fixed_dictionaries({"seed": S.seeds, "scale": st.just(1.0), "n": st.integers(5, 25), "few": st.sampled_from([0, 1, 2, 3])}), run_fall, 300, 5000),
]
