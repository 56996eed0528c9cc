"""C27: the calibration of a single camera recovers its model; parameters read back as they were set."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, live, rigs, strat as S
from vp.drv import m
from vp.runner import Part, Reject, require
from vp.scene import Scene, Unplaceable, brown_ok, make_camera, place

PROPERTY = "C27"
TECHNIQUE = "property-based testing (Hypothesis): generated cameras and board views calibrated one camera at a time; oracle is the generating camera, and set/get round trips"
BUILD = ["drv_calib:rel"]
RULE = "a case is non-trivial when a camera with distortion is calibrated from at least four views; distinct by full description"
ASSUMPTIONS = ["views are tilted in different directions; at least four or five views of a fisheye camera lie away from the image border (the others do not enter its initial calibration, by design); corners are exact up to single-precision rounding",
               "the randomised choice of views is seeded; a case counts as failed when three of four seeds fail"]
SIZES = [(640, 480), (1280, 720), (320, 240), (1024, 1024), (2448, 2048), (480, 640), (1920, 1080), (4096, 3000), (752, 480), (1080, 1440)]
BOARDS = [(5, 5, 0.04), (8, 6, 1.0), (5, 7, 0.192), (10, 8, 25.0), (6, 5, 0.3)]


def build(c):
    rng = np.random.default_rng([c["seed"], 27])
    sc = Scene()
    sc.boards = [BOARDS[(c["seed"] + k) % len(BOARDS)] for k in range(c["boards"])]
    if c["boards"] > 1:       # boards of comparable size
        sc.boards = [(nx, ny, float(np.float32(0.1 * (1 + 0.3 * k)))) for k, (nx, ny, _) in enumerate(sc.boards)]
    sc.objs = [[b] for b in range(c["boards"])]
    for b in range(c["boards"]):
        sc.B[b] = np.eye(4)
    for i, mo in enumerate(c["models"]):
        w, h = SIZES[(c["size"] + 3 * i) % len(SIZES)]
        for _ in range(100):
            cam = make_camera(rng, mo, w, h, dist=c["dist"])
            fx, fy, u, v = cam["K"]
            cam["K"] = (fx, fy, u + (c["shift"] if mo == 0 else c["shift"] / 3) * w * rng.uniform(-1, 1), v + (c["shift"] if mo == 0 else c["shift"] / 3) * h * rng.uniform(-1, 1))
            u, v = cam["K"][2:]
            if mo or brown_ok(cam["d"], np.hypot(max(u, w - u) / fx, max(v, h - v) / fy)):
                break
        else:
            raise Unplaceable("distortion")
        sc.cams.append(cam)
    f = 0
    for i, cam in enumerate(sc.cams):
        n = c["views"]
        for k in range(n):
            b = k % c["boards"]
            clip = rng.random() < c["clip"]
            if clip:
                # part of the board lies outside the image: only the corners inside are seen
                for _ in range(60):
                    X = loose(sc, rng, i, b)
                    if X is not None:
                        break
                else:
                    raise Unplaceable("clip")
                X, ids = X
            else:
                X = place(sc, rng, b, [i], spread=0.95, frac=(0.3, 0.85), tries=1500)
                ids = None
            sc.pose[(f, b)] = X
            sc.add_obs(i, f, b, ids)
            f += c["step"]
    # the initial fisheye calibration leaves out views near the border: it needs a few others
    for i, cam in enumerate(sc.cams):
        if cam["model"] == 1 and sum(1 for k in sc.obs if k[0] == i and central(cam, sc.obs[k][1])) < min(c["views"], 5):
            raise Unplaceable("central views")
    sc.truth_obs = {k: (list(v[0]), v[1].copy()) for k, v in sc.obs.items()}
    return sc


def central(cam, uv):
    s = np.array([cam["w"], cam["h"]])
    return bool(((uv > 0.06 * s) & (uv < 0.94 * s)).all() and np.linalg.norm(uv - s / 2, axis=1).max() < 0.44 * s.max())


def loose(sc, rng, i, b):
    cam = sc.cams[i]
    w, h = cam["w"], cam["h"]
    try:
        X = place(sc, rng, b, [i], spread=0.8, frac=(0.3, 0.6), tries=200)
    except Unplaceable:
        return None
    # push the board towards one side of the image
    D = np.eye(4)
    a = rng.uniform(0, 2 * np.pi)
    P = G.apply_T(X @ sc.B[b], sc.board_pts(b))
    D[:2, 3] = np.array([np.cos(a), np.sin(a)]) * rng.uniform(0.3, 0.7) * sc.board_size(b)
    P = P + D[:3, 3]
    if cam["model"] == 1 and np.degrees(np.arctan2(np.hypot(P[:, 0], P[:, 1]), P[:, 2])).max() > 68:
        return None
    p = G.project(P, cam["K"], cam["d"], cam["model"])
    ok = (p[:, 0] > 1) & (p[:, 1] > 1) & (p[:, 0] < w - 2) & (p[:, 1] < h - 2)
    if cam["model"] == 0:
        x = (P[:, :2] / P[:, 2:])
        r = np.hypot(max(cam["K"][2], w - cam["K"][2]) / cam["K"][0], max(cam["K"][3], h - cam["K"][3]) / cam["K"][1])
        if np.hypot(x[:, 0], x[:, 1]).max() > r:
            return None
    ids = [int(j) for j in np.flatnonzero(ok)]
    g = np.array([[j % (sc.boards[b][0] - 1), j // (sc.boards[b][0] - 1)] for j in ids], float)
    if len(ids) < 8 or len(ids) == len(P) or np.linalg.svd(g - g.mean(0), compute_uv=False)[1] < 2:
        return None
    return D @ X, ids


def valid(c):
    if not (c["models"] and set(c["models"]) <= {0, 1} and 1 <= c["boards"] <= 3 and 4 <= c["views"] <= 700 and 0 <= c["clip"] <= 0.4 and 0 <= c["dist"] <= 1 and 0 <= c["shift"] <= 0.08 and c["step"] >= 1):
        return False
    try:
        build(c)
        return True
    except Unplaceable:
        return False


def run(ctx, c):
    try:
        sc = build(c)
    except Unplaceable:
        raise Reject()
    mx = {}
    few = c["views"] < 8

    def once(seed):
        d = ctx.drv("drv_calib:rel")
        live.open_cfg(d, sc, ransac_threshold=3.0)
        live.insert_scene(d, sc)
        for k, cam in enumerate(sc.cams):
            d.call("size", k, cam["w"], cam["h"])
        d.call("stage", 3, "initializeCalibrationAllCam", "estimatePoseAllBoards", "refineIntrinsicAndPoseAllCam", seed=seed, timeout=300)
        D = d.json("dump")
        mm = {}
        for e in D["cams"]:
            k, cam = e["id"], sc.cams[e["id"]]
            require(e["model"] == cam["model"], "camera %d has distortion model %d", k, e["model"])
            v = np.array(e["intr"])
            nd = len(cam["d"])
            require(len(v) == 9 and np.isfinite(v[:4 + nd]).all() and (v[4 + nd:] == 0).all(), "camera %d: parameters %s", k, v)
            P = np.vstack([sc.cam_pts(k, f, b)[np.asarray(ids, int)] for (cc, f, b), (ids, _) in sorted(sc.obs.items()) if cc == k])
            err = float(np.linalg.norm(G.project(P, tuple(v[:4]), v[4:4 + nd], cam["model"]) - G.project(P, cam["K"], cam["d"], cam["model"]), axis=1).max()) / cam["w"] * 1000
            fk = float(np.abs((v[:4] - np.array(cam["K"])) / cam["K"][0]).max())
            kk = float(np.abs(v[4:4 + nd] - np.array(cam["d"])).max())
            for n_, x in (("px per 1000", err), ("K", fk), ("dist", kk)):
                n_ += (" few" if few else "") + (" fisheye" if cam["model"] else "")
                mm[n_] = max(mm.get(n_, 0), x)
            require(err < (0.03 if few else 0.01), "camera %d (%s, %dx%d): calibrated %s moves the observed directions by up to %.3g px per 1000 px (true %s %s)", k, ["perspective", "fisheye"][cam["model"]], cam["w"], cam["h"],
                    np.round(v, 5), err, np.round(cam["K"], 3), np.round(cam["d"], 5))
            require(fk < (1e-3 if few else 1e-4), "camera %d: camera matrix %s, true %s", k, np.round(v[:4], 4), np.round(cam["K"], 4))
            require(kk < (2e-2 if few else 1e-3), "camera %d: distortion %s, true %s", k, np.round(v[4:4 + nd], 6), np.round(cam["d"], 6))
        # every board pose; the randomised pose estimation may rarely miss a consensus
        miss = []
        for o in D["obs"]:
            k = (o["cam"], o["frame"], o["board"])
            if not o["valid"] or len(o["ids"]) != len(sc.obs[k][0]):
                miss.append("view %s kept %d of %d exact corners (valid %s)" % (k, len(o["ids"]), len(sc.obs[k][0]), o["valid"]))
                require(len(miss) <= 1 + 0.02 * c["views"], "%d views lost corners: %s", len(miss), miss[-1])
                continue
            T, M = sc.pose[(k[1], k[2])] @ sc.B[k[2]], G.T_of(o["pose"][:3], o["pose"][3:])
            r, t = np.degrees(G.rot_angle(T[:3, :3].T @ M[:3, :3])), np.linalg.norm(T[:3, 3] - M[:3, 3]) / np.linalg.norm(T[:3, 3])
            mm["rot"], mm["trans"] = max(mm.get("rot", 0), float(r)), max(mm.get("trans", 0), float(t))
            require(r < (0.3 if few else 0.05) and t < (5e-3 if few else 5e-4), "pose of view %s is off by %.3g degrees and %.3g of its distance", k, r, t)
        mx.update(mm)
    rigs.seeds_vote(once, c)
    return {"nontrivial": c["dist"] > 0, "labels": ["perspective" if 0 in c["models"] else "no perspective", "fisheye" if 1 in c["models"] else "no fisheye", "%d boards" % c["boards"],
                                                   ">50 views" if c["views"] > 50 else "<8 views" if few else "8-50 views", "cut off boards" if c["clip"] else "whole boards", "%d cameras" % len(c["models"])], "max": mx}


def run_io(ctx, c):
    d = ctx.drv("drv_calib:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    n = 5 if c["model"] == 0 else 4
    K = np.array([[c["K"][0], 0, c["K"][2]], [0, c["K"][1], c["K"][3]], [0, 0, 1.0]])
    D = np.array(c["D"][:n], float)
    r = d.call("camio", c["model"], m(K), *(["1", str(n)] if c["row"] else [str(n), "1"]), " ".join(repr(float(x)) for x in D), int(c["apart"]))
    K2, D2, K3, D3, v = r.mat(), r.mat(), r.mat(), r.mat(), r.vec()
    idx, model = r.i(), r.i()
    for a in (K2, K3):
        require(a.shape == (3, 3) and np.array_equal(a, K), "camera matrix reads back as %s, set to %s", a, K)
    for a in (D2, D3):
        require(a.shape == (1, n) and np.array_equal(a.ravel(), D), "distortion reads back as %s, set to %s", a, D)
    require(list(v[:4]) == list(c["K"]) and list(v[4:4 + n]) == list(D), "parameters are held as %s, expected fx, fy, u0, v0 and the distortion in order", v)
    require(idx == 3 and model == c["model"], "camera %d with model %d", idx, model)
    return {"nontrivial": True, "labels": ["perspective" if n == 5 else "fisheye", "row" if c["row"] else "column", "set apart" if c["apart"] else "set together"]}


run.valid = valid
num = st.floats(-1e6, 1e6, allow_nan=False)
fields = {"seed": S.seeds, "models": st.sampled_from([[0], [1], [0, 1], [1, 0]]), "size": st.integers(0, 9), "boards": st.sampled_from([1, 2, 3]), "views": st.sampled_from([12, 9, 20, 40, 60, 5, 80, 4]),
          "clip": st.sampled_from([0.0, 0.3]), "dist": st.sampled_from([1.0, 1.0, 0.3, 0.0]), "shift": st.sampled_from([0.0, 0.03, 0.08]), "step": st.sampled_from([1, 4])}
PARTS = [Part("single cameras", st.fixed_dictionaries(fields), run, 150, 1200, mode="pre", shrink_s=60,
              thorough_strategy=st.fixed_dictionaries(dict(fields, views=st.sampled_from([12, 9, 20, 40, 60, 5, 80, 4, 12, 9, 20, 40, 60, 5, 80, 130, 4, 9, 20, 40, 60, 5, 80, 4, 12, 9, 20, 40, 60, 5, 560])))),
         Part("read back", st.fixed_dictionaries({"model": st.integers(0, 1), "K": st.tuples(num, num, num, num).map(list), "D": st.lists(num, min_size=5, max_size=5), "row": st.booleans(), "apart": st.booleans()}), run_io, 300, 5000)]
