"""C05: the saved structure, poses and cameras reproduce the saved errors of the saved observations."""
import numpy as np
from hypothesis import strategies as st

from vp import e2e, geom as G, judge as J, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C05"
TECHNIQUE = "property-based testing (Hypothesis): generated noisy and contaminated rigs run end to end; oracle is an independent reprojection of the saved structure with the saved poses and cameras, point by point"
BUILD = ["calibrate:rel"]
RULE = "a case is non-trivial when at least 20 observations are logged; distinct by full description"
ASSUMPTIONS = ["the log lists the errors of one observation in any order; object poses may be saved in any order"]


def contaminate(sc, c):
    """gross outliers in some observations; returns the options and files of a run that starts from given intrinsics then (OpenCV's calibration, which makes the start values otherwise, does not tolerate outliers)"""
    rng = np.random.default_rng([c["seed"], 31])
    for k in sorted(sc.obs):
        if rng.random() < c["outlier_views"]:
            ids, uv = sc.obs[k]
            n = max(1, int(0.25 * len(ids)))
            w = rng.permutation(len(ids))[:n]
            uv = uv.copy()
            a = rng.uniform(0, 2 * np.pi, n)
            uv[w] += (np.stack([np.cos(a), np.sin(a)], 1) * rng.uniform(40, 120, n)[:, None]).astype(np.float32)
            sc.obs[k] = (ids, uv)
    if c["outlier_views"] or c["given"]:
        return {"cam_params_path": "@/start.yml"}, {"start.yml": rigs.params_file(sc, 0.003, 0.001, c["seed"])[0]}
    return {}, {}


def consistent(sc, r, mx):
    """returns the number of logged observations"""
    J.ran(r)
    L = e2e.cam_list(r)
    grp = J.groups(r)
    O = J.objects_of(r)
    of_board = {}
    for o, A in O.items():
        for n in range(A.shape[1]):
            key = (int(A[3, n]), int(A[4, n]))
            require(key not in of_board, "corner %s belongs to two saved points", key)
            of_board[key] = (o, n)
    poses = {}
    for o in O:
        M = np.asarray(r.poses["object_%d" % o]["poses"], float)
        require(M.ndim == 2 and M.shape[0] == 6 and np.isfinite(M).all(), "object %d: malformed poses %s", o, M.shape)
        poses[o] = [G.T_of(M[:3, n], M[3:, n]) for n in range(M.shape[1])]
    kept = J.kept_points(sc, r)
    # per (camera, frame): object -> points
    seen = {}
    for (c, f, b), pts in sorted(kept.items()):
        require((c, f, b) in sc.obs, "saved observation %s was never made", (c, f, b))
        ids, uv = sc.obs[(c, f, b)]
        src = dict(zip(ids, uv))
        for i, p in pts.items():
            require(i in src and np.abs(np.asarray(p) - src[i]).max() < 1e-3, "corner %d of observation %s is saved at %s, was given at %s", i, (c, f, b), p, src.get(i))
        if len(pts) < 4:
            continue            # an observation without a pose takes no part
        for i, p in pts.items():
            o, n = of_board[(b, i)]
            seen.setdefault((c, f), {}).setdefault(o, []).append((O[o][:3, n], p))
    require(r.errors.get("nb_camera_group") == len(grp), "nb_camera_group is %s, cameras are in %d groups", r.errors.get("nb_camera_group"), len(grp))
    ent = J.error_entries(r)
    used = {o: [False] * len(p) for o, p in poses.items()}
    keys = set()
    for g, f, c, nb, err in ent:
        require(c in grp.get(g, []), "the log lists camera %d under group %d, whose cameras are %s", c, g, grp.get(g))
        require((c, f) not in keys, "frame %d of camera %d is logged twice", f, c)
        keys.add((c, f))
        require(nb == len(err), "group %d frame %d camera %d: nb_pts %s, %d errors", g, f, c, nb, len(err))
        require((c, f) in seen, "frame %d of camera %d is logged but has no observation", f, c)
        require(len(seen[(c, f)]) == 1, "frame %d of camera %d shows several objects", f, c)
        (o, pp), = seen[(c, f)].items()
        X, uv = np.array([x for x, _ in pp]), np.array([p for _, p in pp])
        require(len(err) == len(uv), "group %d frame %d camera %d: %d errors for %d kept corners", g, f, c, len(err), len(uv))
        k = (L[c]["K"][0, 0], L[c]["K"][1, 1], L[c]["K"][0, 2], L[c]["K"][1, 2])
        Pinv = G.inv_T(L[c]["P"])
        target = np.sort(err)
        jig = 1 + 1e-6 * np.random.default_rng(7).choice([-1.0, 1.0], X.shape)
        best, who = np.inf, None
        for n, T in enumerate(poses[o]):
            M = _cam(L[c]["P"]) @ T
            e = np.sort(np.linalg.norm(G.project(G.apply_T(M, X), k, L[c]["d"], L[c]["model"]) - uv, axis=1))
            d = float((np.abs(e - target) / (1 + target)).max())
            if d < best:
                if d > 1e-3:        # how much of it can single-precision points explain?
                    Y = G.apply_T(M, X)
                    e2 = np.sort(np.linalg.norm(G.project(Y * jig, k, L[c]["d"], L[c]["model"]) - uv, axis=1))
                    d = max(0.0, d - 10 * float((np.abs(e - e2) / (1 + target)).max()))
                best = min(best, d)
                if best < 1e-3:
                    break
        require(best < 5e-3, "group %d frame %d camera %d: no saved pose of object %d reproduces the logged errors (closest differs by %.3g)", g, f, c, o, best)
        mx["reproduced to"] = max(mx.get("reproduced to", 0), best)
    miss = sorted(set(seen) - keys)
    require(not miss, "observations (camera, frame) %s are not in the log", miss[:5])
    for g in grp:
        Gd = r.errors["camera_group_%d" % g]
        fl = sorted(int(x) for x in np.asarray(Gd.get("frame_list", []), float).ravel())
        fs = sorted(int(k[6:]) for k in Gd if k.startswith("frame_") and k != "frame_list")
        require(fl == fs, "group %d: frame_list %s, frames %s", g, fl[:10], fs[:10])
        for f in fs:
            Fd = Gd["frame_%d" % f]
            cl = sorted(int(x) for x in np.asarray(Fd.get("camera_list", []), float).ravel())
            cs = sorted(int(k[7:]) for k in Fd if k.startswith("camera_") and k != "camera_list")
            require(cl == cs, "group %d frame %d: camera_list %s, cameras %s", g, f, cl, cs)
    mean = float(np.mean([e[4].mean() for e in ent if len(e[4])]))
    require(r.mean_error is not None and abs(r.mean_error - mean) < 2e-4 * (1e-2 + mean), "reported mean error %s, mean of the log %s", r.mean_error, mean)
    return len(ent)


def _cam(P):
    """camera_pose_matrix is the pose of the camera in its group: its inverse maps the reference camera to the camera"""
    return P if CAMERA_FROM_REF else G.inv_T(P)


CAMERA_FROM_REF = False


def run(ctx, c):
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    over, files = contaminate(sc, c)
    mx = {}
    r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {**over, "quaternion_averaging": c["quat"], "fix_intrinsic": c["fix"]}, rd_seed=c["seed"] % 1000, extra_files=files)
    n = consistent(sc, r, mx)
    return {"nontrivial": n >= 20, "labels": rigs.labels(sc, c) + ["intrinsics %s" % ("fixed" if c["fix"] else "refined"), "outliers" if c["outlier_views"] else "no outliers", "noise %g" % c["noise"]],
            "max": mx}


def run_groups(ctx, c):
    if c["partial"]:
        strong, links, counts = rigs.partial_links(c)
    else:
        links = rigs.links_of(c["links"], len(c["groups"]), c["seed"])
        counts = [c["per_link"]] * len(links)
    try:
        sc = rigs.nonoverlap(c, links=links, per_link=counts)
    except Unplaceable:
        raise Reject()
    over, files = contaminate(sc, c)
    mx = {}
    r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {**over, "quaternion_averaging": c["quat"], "he_approach": c["he"]}, rd_seed=c["seed"] % 1000, extra_files=files)
    n = consistent(sc, r, mx)
    return {"nontrivial": n >= 20, "labels": rigs.labels(sc, c) + ["%d groups reported" % len(J.groups(r)), "outliers" if c["outlier_views"] else "no outliers", "noise %g" % c["noise"]], "max": mx}


def valid(c):
    return rigs.overlap_valid(c) and 0 <= c["outlier_views"] <= 0.5 and c["fix"] in (0, 1) and c["noise"] <= 1


def valid_groups(c):
    if not (rigs.nonoverlap_valid(dict(c, per_link=c.get("per_link", 4))) and 0 <= c["outlier_views"] <= 0.5 and c["noise"] <= 1):
        return False
    return True


run.valid, run_groups.valid = valid, valid_groups
extra = dict(given=st.booleans(), noise=st.sampled_from([0.3, 0.05, 1.0]), outlier_views=st.sampled_from([0.0, 0.2, 0.5]))
PARTS = [Part("overlapping rigs", st.fixed_dictionaries(rigs.overlap_fields(boards=st.sampled_from([1, 2, 3, 4]), fix=st.sampled_from([0, 0, 1]), he=None, **extra)), run, 100, 2000, mode="pre", shrink_s=60),
         Part("groups", st.fixed_dictionaries(rigs.nonoverlap_fields(partial=st.booleans(), ransac=None, **extra)), run_groups, 60, 1000, mode="pre", shrink_s=60)]
