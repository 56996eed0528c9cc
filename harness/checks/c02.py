"""C02: non-overlapping camera groups are merged with their true relative poses."""
import numpy as np
from hypothesis import strategies as st

from vp import e2e, geom as G, judge as J, live, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C02"
TECHNIQUE = "property-based testing (Hypothesis): generated rigs of camera groups without common views, each observing its own rigidly placed object, run end to end; oracle is the generating scene"
BUILD = ["calibrate:rel", "drv_calib:rel"]
RULE = "every case has at least two camera groups that never see a common board; distinct by full description"
ASSUMPTIONS = ["linked groups share at least 4 frames with relative rotations of 15 to 80 degrees about varying axes",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]
TOL = J.Tol(px=0.02, rot=0.01, t=1e-3, obj=3e-5, err=3e-4, k=3e-5)


def run(ctx, c):
    try:
        sc = rigs.nonoverlap(c)
    except Unplaceable:
        raise Reject()
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {"he_approach": c["he"], "quaternion_averaging": c["quat"], "ransac_threshold": c["ransac"]}, rd_seed=seed)
        J.ran(r)
        J.partition(r, [list(range(len(sc.cams)))])
        J.header(sc, r)
        m = {}
        J.poses(sc, r, TOL, m)
        J.intrinsics(sc, r, TOL, mx=m)
        J.mean_error(r, 0, TOL.err)
        m["mean error px"] = r.mean_error
        mx.update(m)
    rigs.seeds_vote(once, c)
    return {"nontrivial": True, "labels": rigs.labels(sc, c) + [c["links"], "%d groups" % len(c["groups"]), "%d common frames" % c["per_link"], "he %d" % c["he"]],
            "max": mx}


STAGES = ["initIntrinsic", "calibrate3DObjects", "calibrateCameraGroup", "merge3DObjects", "findPairObjectForNonOverlap", "findPoseNoOverlapAllCamGroup"]


def run_init(ctx, c):
    """the relative poses of the groups right after the hand-eye calibration and after the merge, before any refinement of the merged rig"""
    try:
        sc = rigs.nonoverlap(c)
    except Unplaceable:
        raise Reject()
    S, mx = J.scale_of(sc), {}

    def once(seed):
        d = ctx.drv("drv_calib:rel")
        live.open_cfg(d, sc, he_approach=c["he"], quaternion_averaging=c["quat"], ransac_threshold=c["ransac"])
        live.insert_scene(d, sc)
        d.call("stage", str(len(STAGES)), *STAGES, seed=seed, timeout=120)
        D = d.json("dump")
        ref = {g["idx"]: g["ref"] for g in D["groups"]}
        of = {cc: k for k, cs in enumerate(sc.meta["groups"]) for cc in cs}
        seen, m = set(), {"rot deg": 0.0, "trans": 0.0}

        def cmp(M, a, b, what):
            T = sc.cams[b]["T"] @ G.inv_T(sc.cams[a]["T"])
            r, t = np.degrees(G.rot_angle(M[:3, :3].T @ T[:3, :3])), np.linalg.norm(M[:3, 3] - T[:3, 3]) / S
            m["rot deg"], m["trans"] = max(m["rot deg"], float(r)), max(m["trans"], float(t))
            require(r < 0.05 and t < 5e-3, "%s: rotation off by %.4g deg, translation by %.4g of the board size", what, r, t)
        for g1, g2, M in D["no_overlap"]:
            cmp(np.array(M), ref[g1], ref[g2], "hand-eye pose of cameras %d and %d" % (ref[g1], ref[g2]))
            seen.add(tuple(sorted((of[ref[g1]], of[ref[g2]]))))
        want = {tuple(sorted(map(int, l))) for l in sc.meta["link_frames"]}
        require(seen == want, "groups related by hand-eye calibration: %s, sharing enough frames: %s", sorted(seen), sorted(want))
        d.call("stage", "2", "initInterCamGroupGraph", "mergeCameraGroup", seed=seed)
        D = d.json("dump")
        require(len(D["groups"]) == 1, "%d groups remain after the merge", len(D["groups"]))
        g = D["groups"][0]
        require(sorted(k for k, _ in g["poses"]) == list(range(len(sc.cams))), "merged group has cameras %s", [k for k, _ in g["poses"]])
        for k, p in g["poses"]:
            cmp(G.T_of(p[:3], p[3:]), g["ref"], k, "merged pose of camera %d relative to %d" % (k, g["ref"]))
        mx.update(m)
    rigs.seeds_vote(once, c)
    return {"nontrivial": True, "labels": [c["links"], "%d groups" % len(c["groups"]), "%d common frames" % c["per_link"], "he %d" % c["he"]], "max": mx}


run.valid = run_init.valid = rigs.nonoverlap_valid
PARTS = [Part("groups", st.fixed_dictionaries(rigs.nonoverlap_fields()), run, 90, 2000, mode="pre", shrink_s=60),
         Part("hand-eye before refinement", st.fixed_dictionaries(rigs.nonoverlap_fields()), run_init, 60, 1200, mode="pre", shrink_s=60)]
