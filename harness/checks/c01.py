"""C01: overlapping rigs are calibrated to their true geometry."""
import numpy as np
from hypothesis import strategies as st

from vp import e2e, geom as G, judge as J, live, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C01"
TECHNIQUE = "property-based testing (Hypothesis): generated ground-truth rigs, boards and motions run end to end through the calibration application; oracle is the generating scene, and with noise the optimality of the truth"
BUILD = ["calibrate:rel", "drv_calib:rel"]
RULE = "a case is non-trivial when the rig has at least two cameras or at least two boards; distinct by full description"
ASSUMPTIONS = ["every camera has at least 8 own well-spread board views; noise-free observations are exact up to single-precision rounding",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]
TOL = J.Tol(px=0.01, rot=0.002, t=3e-5, obj=3e-5, err=3e-4, k=3e-5)


def report(sc, c, mx):
    return {"nontrivial": len(sc.cams) > 1 or len(sc.boards) > 1, "labels": rigs.labels(sc, c) + [c["shape"]], "max": mx}


def run(ctx, c):
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {"he_approach": c["he"], "quaternion_averaging": c["quat"]}, rd_seed=seed)
        J.ran(r)
        J.partition(r, [list(range(len(sc.cams)))])
        J.header(sc, r)
        m = {}
        J.poses(sc, r, TOL, m)
        J.intrinsics(sc, r, TOL, mx=m)
        J.objects(sc, r, [list(range(len(sc.boards)))], TOL, m)
        J.object_poses(sc, r, TOL, m)
        J.mean_error(r, 0, TOL.err)
        m["mean error px"] = r.mean_error
        mx.update(m)
    rigs.seeds_vote(once, c)
    return report(sc, c, mx)


def run_noise(ctx, c):
    """the result explains the noisy observations at least as well as the truth does, and stays near the truth"""
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    s = c["noise"]
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {"he_approach": c["he"], "quaternion_averaging": c["quat"]}, rd_seed=seed)
        J.ran(r)
        J.partition(r, [list(range(len(sc.cams)))])
        J.header(sc, r)
        tol = J.Tol(px=600 * s, rot=20 * s, t=0.6 * s, obj=0.4 * s, k=0.4 * s)
        m = {}
        J.poses(sc, r, tol, m)
        J.intrinsics(sc, r, tol, mx=m)
        J.objects(sc, r, [list(range(len(sc.boards)))], tol, m)
        ent = [x[4] for x in J.error_entries(r) if len(x[4])]
        errs = np.concatenate(ent)
        kept = J.kept_points(sc, r)
        n2 = np.array([((sc.obs[k][1][list(sc.obs[k][0]).index(i)].astype(float) - sc.truth_obs[k][1][list(sc.truth_obs[k][0]).index(i)]) ** 2).sum()
                       for k in kept for i in kept[k]])
        require(len(errs) == len(n2), "%d errors are logged for %d kept corners", len(errs), len(n2))
        require(len(errs) > 0.95 * sc.n_points(), "only %d of %d corners were used", len(errs), sc.n_points())
        q = float((errs ** 2).sum() / n2.sum())
        m = {"%s per px noise" % k: v / s for k, v in m.items()}
        m["residual / noise"] = q
        m["-residual / noise"] = -q
        require(q <= 1.0 + 1e-4, "the sum of squared residuals is %.6g of the one of the true rig", q)
        require(q >= 0.4, "the sum of squared residuals is only %.4g of the noise", q)
        mean = float(np.mean([e.mean() for e in ent]))
        require(abs(r.mean_error - mean) < 1e-4 * (1e-3 + mean), "mean error %s, mean of the log %s", r.mean_error, mean)
        m["used corners -fraction"] = -len(errs) / sc.n_points()
        mx.update(m)
    rigs.seeds_vote(once, c)
    return report(sc, c, mx)


def run_chain(ctx, c):
    """the camera poses right after they are chained along the covisibility links, before any refinement of the rig"""
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    S, mx = J.scale_of(sc), {}

    def once(seed):
        d = ctx.drv("drv_calib:rel")
        live.open_cfg(d, sc, quaternion_averaging=c["quat"], ransac_threshold=0.2)
        live.insert_scene(d, sc)
        st = ["initIntrinsic", "calibrate3DObjects", "computeCamerasPairPose", "interCams", "initInterCamerasGraph", "initCameraGroup"]
        d.call("stage", str(len(st)), *st, seed=seed, timeout=120)
        D = d.json("dump")
        require(len(D["groups"]) == 1, "%d groups instead of one", len(D["groups"]))
        g = D["groups"][0]
        require(g["ref"] == 0, "reference camera %d", g["ref"])
        require(sorted(k for k, _ in g["poses"]) == list(range(len(sc.cams))), "the group has cameras %s", [k for k, _ in g["poses"]])
        m = {"rot deg": 0.0, "trans": 0.0}
        for k, p in g["poses"]:
            M, T = G.T_of(p[:3], p[3:]), sc.cams[k]["T"] @ G.inv_T(sc.cams[0]["T"])
            r, t = np.degrees(G.rot_angle(M[:3, :3].T @ T[:3, :3])), np.linalg.norm(M[:3, 3] - T[:3, 3]) / S
            m["rot deg"], m["trans"] = max(m["rot deg"], float(r)), max(m["trans"], float(t))
            require(r < 0.05 and t < 2e-3, "initial pose of camera %d: rotation off by %.4g deg, translation by %.4g of the board size", k, r, t)
        mx.update(m)
    rigs.seeds_vote(once, c)
    return report(sc, c, mx)


run.valid = run_chain.valid = run_noise.valid = rigs.overlap_valid
PARTS = [Part("rigs", st.fixed_dictionaries(rigs.overlap_fields()), run, 120, 2500, mode="pre", shrink_s=60),
         Part("noise", st.fixed_dictionaries(rigs.overlap_fields(noise=st.sampled_from([0.2, 0.1, 0.05]), minfrac=st.sampled_from([1.0, 0.7]),
                                                                 solo=st.integers(10, 14))), run_noise, 50, 900, mode="pre", shrink_s=60),
         Part("chain before refinement", st.fixed_dictionaries(rigs.overlap_fields(models=st.sampled_from([[0, 0, 0], [0, 0, 0, 0], [0, 1, 0], [0, 0, 0, 0, 0], [0, 0]]))),
              run_chain, 50, 900, mode="pre", shrink_s=60)]
