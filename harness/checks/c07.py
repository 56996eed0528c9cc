"""C07: gross outliers do not corrupt the calibration."""
import numpy as np
from hypothesis import strategies as st

from vp import e2e, judge as J, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C07"
TECHNIQUE = "property-based testing (Hypothesis): fault injection into the observations of generated rigs (wrong corners, wrong views, starved views), run end to end; oracle is the generating scene"
BUILD = ["calibrate:rel"]
RULE = "a case is non-trivial when at least one corner is wrong; distinct by full description"
ASSUMPTIONS = ["the correct corners are exact; a minority of the corners of a view is wrong, by at least eight times the configured threshold, or a whole view is random; in a frame that links two cameras a wrong view keeps too few corners to pass for a right one",
               "a fisheye camera with wrong corners starts from given intrinsics: the calibration of OpenCV that would start it does not tolerate outliers (known finding)",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]
TOL = J.Tol(px=0.02, rot=0.01, t=1e-4, obj=1e-4, err=1e9, k=1e-4)


def spoil(sc, c):
    """returns the set of wrong (view, corner) and the set of views that are wrong as a whole"""
    rng = np.random.default_rng([c["seed"], 71])
    bad, gone = set(), set()
    thr = c["threshold"]
    per_frame = {}
    for k in sc.obs:
        per_frame.setdefault((k[0], k[2]), []).append(k)
    whole, frames = set(), set()
    if c["wrong_views"]:
        # at most `wrong_views` views of every camera and board, one view per frame, in frames that no other camera or board needs (or else one shared frame of every pair of cameras)
        cams_of = {}
        for k in sc.obs:
            cams_of.setdefault(k[1], set()).add(k[0])
        hit = {}
        for key in sorted(per_frame):
            ks = sorted(per_frame[key])
            if c["shared"]:
                own = [k for k in ks if len(cams_of[k[1]]) > 1]
            else:
                own = [k for k in ks if sum(1 for q in sc.obs if q[1] == k[1]) == 1]
            left = min(c["wrong_views"], len(own) // 4)
            for n in rng.permutation(len(own)):
                k = own[int(n)]
                link = tuple(sorted(cams_of[k[1]]))
                if left and k[1] not in frames and (not c["shared"] or not hit.get(link)):
                    whole.add(k)
                    frames.add(k[1])
                    hit[link] = 1
                    left -= 1
    for k in sorted(sc.obs):
        ids, uv = sc.obs[k]
        cam = sc.cams[k[0]]
        uv = uv.copy()
        if k in whole:
            uv = rng.uniform([0, 0], [cam["w"], cam["h"]], uv.shape)
            kind = 1 if c["shared"] else int(rng.integers(3))
            if kind == 1:      # starved: three wrong corners
                ids, uv = ids[:3], uv[:3]
            elif kind == 2:     # three good corners among random ones
                uv[:3] = sc.obs[k][1][:3]
            sc.obs[k] = (list(ids), uv.astype(np.float32))
            gone.add(k)
        elif rng.random() < c["views"]:
            n = max(1, int(c["part"] * len(ids)))
            w = rng.permutation(len(ids))[:n]
            a = rng.uniform(0, 2 * np.pi, n)
            uv[w] += (np.stack([np.cos(a), np.sin(a)], 1) * rng.uniform(8, 30, n)[:, None] * thr)
            sc.obs[k] = (ids, uv.astype(np.float32))
            bad |= {(k, ids[i]) for i in w}
    return bad, gone


def run(ctx, c):
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    bad, gone = spoil(sc, c)
    mx = {}
    over = {"quaternion_averaging": c["quat"], "ransac_threshold": c["threshold"]}
    files = {}
    if c["given"]:
        over["cam_params_path"] = "@/start.yml"
        files["start.yml"] = rigs.params_file(sc, c["start"], c["start"] / 3, c["seed"])[0]

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, over, rd_seed=seed, extra_files=files)
        J.ran(r)
        J.partition(r, [list(range(len(sc.cams)))])
        J.header(sc, r)
        kept = J.kept_points(sc, r)
        left = [(k, i) for k, i in bad if i in kept.get(k, {})]
        require(not left, "wrong corner %s of observation %s was kept", *(left[0][::-1] if left else (0, 0)))
        good = sum(len(v[0]) for k, v in sc.obs.items() if k not in gone) - len(bad)
        used = sum(len(v) for k, v in kept.items() if k not in gone)
        require(used >= (0.93 if c["given"] else 0.85) * good, "only %d of %d right corners were used", used, good)
        m = {"unused right corners": 1 - used / good}
        tol = TOL if not gone else J.Tol(px=30, rot=1.5, t=0.05, obj=0.02, k=3e-2)
        J.poses(sc, r, tol, m)
        rigs_truth(sc, r, tol, m, gone)
        J.objects(sc, r, [list(range(len(sc.boards)))], tol, m)
        if gone:
            m = {k + " with wrong views": v for k, v in m.items()}
        mx.update(m)
    rigs.seeds_vote(once, c)
    n = len(bad) + len(gone)
    return {"nontrivial": n > 0, "labels": rigs.labels(sc, c) + ["given start" if c["given"] else "estimated start", "%d%% of views" % (100 * c["views"]), "whole views wrong" if gone else "no whole view wrong"],
            "max": dict(mx, **{"wrong corners": len(bad), "wrong views": len(gone)})}


def rigs_truth(sc, r, tol, m, gone):
    obs = sc.obs
    sc.obs = {k: v for k, v in obs.items() if k not in gone}
    try:
        J.intrinsics(sc, r, tol, mx=m)
    finally:
        sc.obs = obs


def valid(c):
    if not (rigs.overlap_valid(c) and 1 <= c["threshold"] <= 10 and 0 <= c["part"] <= 0.3 and 0 <= c["start"] <= 0.004 and 0 <= c["wrong_views"] <= 2 and c["minfrac"] >= 0.7):
        return False
    return valid_start(c)


def valid_start(c):
    return c["views"] <= 0.5 if c["given"] else (c["views"] <= 0.06 and c["part"] <= 0.1 and c["solo"] >= 20 and c["threshold"] == 5 and not c["wrong_views"] and set(c["models"]) == {0})


run.valid = valid
common = dict(minfrac=st.sampled_from([1.0, 0.7]), he=None, wrong_views=st.just(0), shared=st.just(False), size=st.integers(1, 4))
given = rigs.overlap_fields(**dict(common, given=st.just(True), views=st.sampled_from([0.5, 0.2, 0.35]), part=st.sampled_from([0.25, 0.1, 0.3]), threshold=st.sampled_from([10, 5, 3]), start=st.sampled_from([0.002, 0.0])))
FISHEYE = [{"seed": 6, "models": [1], "layout": "row", "shape": "chain", "boards": 1, "mixed": False, "size": 1, "square": 1.0, "per_edge": 3, "solo": 22, "minfrac": 1.0, "step": 1, "frame0": 0, "perm": False,
            "see_all": False, "cycle": False, "quat": 1, "wrong_views": 0, "shared": False, "given": False, "views": 0.06, "part": 0.1, "threshold": 5, "start": 0}]
PARTS = [Part("wrong corners", st.fixed_dictionaries(given), run, 70, 1500, mode="pre", shrink_s=60),
         Part("wrong corners, estimated start", st.fixed_dictionaries(rigs.overlap_fields(**dict(common, given=st.just(False), views=st.sampled_from([0.06, 0.03]), part=st.sampled_from([0.1, 0.05]), threshold=st.just(5),
              start=st.just(0), solo=st.integers(20, 26), models=st.sampled_from([[0], [0, 0], [0, 0, 0]])))), run, 24, 400, mode="pre", shrink_s=60, corpus=FISHEYE),
         Part("wrong views", st.fixed_dictionaries(dict(given, shared=st.booleans(), per_edge=st.integers(5, 8), wrong_views=st.sampled_from([1, 2]), views=st.sampled_from([0.0, 0.2]), threshold=st.sampled_from([2, 1]), start=st.sampled_from([0.0, 0.0005]),
              solo=st.integers(12, 16))), run, 50, 900, mode="pre", shrink_s=60)]
