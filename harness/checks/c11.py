"""C11: rigid-transform conversions and pose accessors."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, strat as S
from vp.drv import lst, m
from vp.runner import Part, require

PROPERTY = "C11"
TECHNIQUE = "property-based testing (Hypothesis): round trips and group laws of the conversions against an independent SE(3) reference"
BUILD = ["drv_math:rel", "drv_calib:rel"]
RULE = ("a conversion case is non-trivial when the rotation angle exceeds 1e-3 and the translation is not zero; an accessor case "
        "always is; cases are distinct by their full description")
ASSUMPTIONS = ["rotation vectors up to two turns; matrices are proper rotations to machine precision",
               "cv::Rodrigues itself rounds angles within 1e-5 of 0 and of pi; the tolerance is widened there only",
               "the float forms (6-vector, 3D points) are exact to single precision"]


def rtol(R):
    a = G.rot_angle(R)
    return 1e-9 + (2.5e-5 if a < 2e-5 or a > np.pi - 2e-5 else 0)


def close(A, B, tol, what):
    A, B = np.asarray(A, float), np.asarray(B, float)
    require(A.shape == B.shape, "%s: shape %s instead of %s" % (what, A.shape, B.shape))
    d = np.abs(A - B).max() if A.size else 0.0
    require(np.isfinite(A).all() and d <= tol, "%s differs by %.3g (allowed %.3g):\n%s\ninstead of\n%s" % (what, d, tol, A, B))
    return d


def run(ctx, c):
    D = ctx.drv("drv_math:rel")
    r, t, pts = c["r"], c["t"], np.array(c["pts"], np.float32).astype(float).reshape(-1, 3)
    R, T = G.rodrigues(r), G.T_of(r, t)
    ts = max(1e-3, float(np.abs(t).max()))
    rt = rtol(R)
    M = D.call("rvect2proj", c["row"], m(r), m(t)).mat()
    close(M, T, 1e-12 * max(1, ts) + 1e-12, "RVecT2Proj")
    close(D.call("rt2proj", m(R), m(t)).mat(), T, 1e-15 * max(1, ts), "RT2Proj")
    q = D.call("proj2rt", m(T))
    r2, t2 = q.mat(), q.mat()
    close(t2, np.reshape(t, (3, 1)), 0, "translation from Proj2RT")
    require(r2.size == 3, "Proj2RT: rotation vector of size %s", r2.shape)
    d1 = close(G.rodrigues(r2), R, rt, "rotation from Proj2RT")
    close(D.call("rvect2proj", 0, m(r2), m(t2)).mat(), T, max(rt, 1e-12 * ts), "Proj2RT then RVecT2Proj")
    # six-vectors, single precision
    f6 = np.array(list(r) + list(t), np.float32)
    Tf = G.T_of(f6[:3].astype(float), f6[3:].astype(float))
    close(D.call("vectorproj", lst(f6)).mat(), Tf, 1e-9 * max(1, ts), "vectorProj")
    v6 = D.call("projtovec", m(T)).vec()
    require(len(v6) == 6, "ProjToVec returned %d numbers", len(v6))
    close(G.rodrigues(v6[:3]), R, rt + 2e-6, "rotation of ProjToVec")
    close(v6[3:], np.asarray(t, np.float32).astype(float), 1e-30, "translation of ProjToVec")
    # inversion
    for inplace in (0, 1):
        q = D.call("invert", inplace, m(r), m(t))
        ir, it = q.mat(), q.mat()
        if not inplace:
            require(q.i() == 1, "invertRvecT changed its inputs")
        Ti = G.T_of(ir, it)
        close(Ti[:3, :3], R.T, rt, "inverted rotation")
        close(Ti[:3, 3], G.inv_T(T)[:3, 3], 1e-10 * ts, "inverted translation")
        close(Ti @ T, np.eye(4), rt * max(1, 2 * ts) + 1e-10 * ts, "inverse composed with the original")
        q = D.call("invert", inplace, m(ir), m(it))
        rr, tt = q.mat(), q.mat()
        close(G.rodrigues(rr), R, 2 * rt, "rotation inverted twice")
        close(tt, np.reshape(t, (3, 1)), (2 * rt + 1e-10) * ts, "translation inverted twice")
    # points
    if len(pts):
        got = D.call("transform", m(r), m(t), lst(pts)).pts(3)
        exp = G.apply_T(T, pts)
        require(len(got) == len(pts), "transform3DPts returned %d points for %d", len(got), len(pts))
        sc = max(1e-3, np.abs(pts).max() * 2 + ts)
        close(got, exp, 1e-6 * sc, "transform3DPts")
    K = np.array([[c["K"][0], 0, c["K"][2]], [0, c["K"][1], c["K"][3]], [0, 0, 1.0]])
    P = D.call("rvect2projint", m(r), m(t), m(K)).mat()
    E = np.eye(4)
    E[:3, :3], E[:3, 3] = K @ R, K @ np.asarray(t)
    close(P, E, 1e-12 * max(1, np.abs(E).max()), "RVecT2ProjInt")
    a = G.rot_angle(R)
    lab = ["angle " + ("~0" if a < 1e-4 else "~pi" if a > np.pi - 1e-3 else "<pi/2" if a < np.pi / 2 else ">pi/2")]
    return {"nontrivial": a > 1e-3 and ts > 1e-6, "labels": lab, "max": {"rotation roundtrip": float(d1)}}


case = st.fixed_dictionaries({"r": S.rotvec, "t": S.trans, "row": st.integers(0, 1),
                              "pts": st.lists(S.trans, max_size=5),
                              "K": st.tuples(st.floats(100, 3000), st.floats(100, 3000), st.floats(0, 2000), st.floats(0, 2000)).map(list)})

WHAT = ["boardobs", "object", "objobs", "objobsgroup", "group", "groupobs"]


def run_acc(ctx, c):
    D = ctx.drv("drv_calib:rel")
    r, t, what = c["r"], c["t"], c["what"]
    T = G.T_of(r, t)
    args = [what]
    if what in ("object", "group", "groupobs"):
        args += [c["id"], c["id"] + 1 + c["other"]]
    args += [c["how"]] + ([m(T)] if c["how"] == 0 else [c["row"], m(r), m(t)])
    q = D.call("pose", *args)
    rv, tv, M, rr, tt = q.mat(), q.mat(), q.mat(), q.mat(), q.mat()
    require(rv.shape == (3, 1) and tv.shape == (3, 1), "%s: pose vectors have shapes %s %s", what, rv.shape, tv.shape)
    if c["how"] == 1:
        close(rv.ravel(), r, 0, what + ": stored rotation vector")
        close(tv.ravel(), t, 0, what + ": stored translation vector")
    rt = rtol(T[:3, :3])
    close(G.rodrigues(rv), T[:3, :3], rt, what + ": rotation vector")
    close(tv.ravel(), t, 0, what + ": translation vector")
    close(M[:3, :3], T[:3, :3], rt, what + ": rotation of the pose matrix")
    close(M[:3, 3], t, 0, what + ": translation of the pose matrix")
    close(M[3], [0, 0, 0, 1], 0, what + ": last row of the pose matrix")
    close(rr, rv, 0, what + ": rotation accessor")
    close(tt, tv, 0, what + ": translation accessor")
    if what != "boardobs":
        close(q.mat().ravel(), [.1, .2, .3], 0, what + ": rotation of the pose that was not set")
        close(q.mat().ravel(), [4, 5, 6], 0, what + ": translation of the pose that was not set")
    return {"labels": [what + (" by matrix" if c["how"] == 0 else " by vectors")]}


acc = st.fixed_dictionaries({"what": st.sampled_from(WHAT), "how": st.integers(0, 1), "row": st.integers(0, 1), "r": S.rotvec,
                             "t": S.trans, "id": st.integers(0, 6), "other": st.integers(0, 3)})

PARTS = [Part("conversions", case, run, 3000, 60000), Part("accessors", acc, run_acc, 1600, 30000)]
