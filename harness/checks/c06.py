"""C06: keypoints survive saving and loading."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vp import cvyaml, e2e, judge as J, live, rigs, strat as S
from vp.runner import Part, Reject, require
from vp.scene import Scene, Unplaceable, make_camera

PROPERTY = "C06"
TECHNIQUE = "property-based testing (Hypothesis): generated observation sets are loaded, saved, reloaded and saved again (round trip), and generated rigs are recalibrated from their own saved keypoints (metamorphic relation)"
BUILD = ["calibrate:rel", "drv_calib:rel"]
RULE = "a case is non-trivial when it has at least two cameras or two boards and at least three observations; distinct by full description"
ASSUMPTIONS = ["image paths are printable and frames are numbered from 0 upwards, as the detector produces them; an image path without a slash, a dot or a letter does not occur"]
BOARDS = [(5, 5, 0.04), (6, 7, 1.0), (3, 4, 0.5)]
NPTS = [(b[0] - 1) * (b[1] - 1) for b in BOARDS]
names = st.text(st.one_of(st.sampled_from("abcXYZ019_-. /()+,#&'\"@~:=[]{}%!$;"), st.sampled_from("éüñ日本")), min_size=1, max_size=12)


def quote(p):
    return p.replace("\\", "\\\\").replace('"', '\\"')


def observations(c):
    rng = np.random.default_rng([c["seed"], 61])
    out = []
    for cam in range(c["cams"]):
        fr = sorted(set(int(x) for x in rng.integers(0, c["frames"] * (1 + 3 * (rng.random() < 0.3)), c["frames"])))
        for f in fr:
            path = "/data/%s/Cam_%03d/%s%04d.png" % (c["names"][0], cam, c["names"][(cam + f) % len(c["names"])], f)
            for b in range(c["boards"]):
                if rng.random() < c["density"]:
                    n = int(rng.integers(1, NPTS[b] + 1)) if rng.random() < 0.7 else NPTS[b]
                    ids = [int(x) for x in rng.permutation(NPTS[b])[:n]]
                    if not c["shuffled"]:
                        ids.sort()
                    kind = rng.random()
                    if kind < 0.6:
                        p = rng.uniform(0, 4000, (n, 2))
                    elif kind < 0.8:
                        p = np.round(rng.uniform(0, 800, (n, 2)), 1)
                    else:
                        p = rng.uniform(-5, 5, (n, 2)) * 10.0 ** rng.integers(-6, 6, (n, 2))
                    out.append((cam, f, b, ids, p.astype(np.float32), path))
    return out


def to_file(c, obs, sizes):
    cams = []
    for cam in range(c["cams"]):
        o = [x for x in obs if x[0] == cam]
        cams.append({"img_width": sizes[cam][0], "img_height": sizes[cam][1], "frame_idxs": [x[1] for x in o], "frame_paths": [quote(x[5]) for x in o],
                     "board_idxs": [x[2] for x in o], "pts_2d": [x[4] for x in o], "charuco_idxs": [x[3] for x in o]})
    return cvyaml.dump_keypoints(cams)


def held(D):
    """observations a calibration holds: {(cam, frame, board): (ids, pts, path)}"""
    paths = {f["idx"]: {int(k): v for k, v in f["paths"].items()} for f in D["frames"]}
    out = {}
    for o in D["obs"]:
        k = (o["cam"], o["frame"], o["board"])
        require(k not in out, "observation %s is held twice", k)
        out[k] = ([int(i) for i in o["ids"]], np.array(o["pts"], np.float32).reshape(-1, 2), paths.get(o["frame"], {}).get(o["cam"]))
    return out


def same(got, exp, what):
    require(sorted(got) == sorted(exp), "%s: observations %s, expected %s", what, sorted(set(got) - set(exp))[:4], sorted(set(exp) - set(got))[:4])
    for k in exp:
        require(got[k][0] == exp[k][0], "%s: observation %s has corners %s, expected %s", what, k, got[k][0][:8], exp[k][0][:8])
        require(got[k][1].tobytes() == exp[k][1].tobytes(), "%s: observation %s is at %s, expected %s", what, k, got[k][1][:2].tolist(), exp[k][1][:2].tolist())
        require(got[k][2] == exp[k][2], "%s: the image path of %s is %r, expected %r", what, k, got[k][2], exp[k][2])


def run(ctx, c):
    obs = observations(c)
    rng = np.random.default_rng([c["seed"], 62])
    sizes = [(int(rng.integers(1, 9000)), int(rng.integers(1, 9000))) for _ in range(c["cams"])]
    sc = Scene()
    sc.boards = BOARDS[:c["boards"]]
    sc.cams = [make_camera(np.random.default_rng(0), int(rng.integers(2))) for _ in range(c["cams"])]
    d = ctx.drv("drv_calib:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    exp = {(x[0], x[1], x[2]): (x[3], x[4], x[5]) for x in obs}
    A, B = os.path.join(d.dir, "a.yml"), os.path.join(d.dir, "b.yml")
    with open(A, "w") as f:
        f.write(to_file(c, obs, sizes))
    saved = os.path.join(d.dir, "out", "detected_keypoints_data.yml")
    texts = []
    for src in (A, B, B):
        live.open_cfg(d, sc, keypoints_path=src)
        d.call("stage", "1", "boardExtraction")
        D = d.json("dump")
        what = "loaded" if src == A else "reloaded"
        same(held(D), exp, what)
        for k in D["cams"]:
            require((k["cols"], k["rows"]) == sizes[k["id"]], "%s: camera %d has images of size %s, expected %s", what, k["id"], (k["cols"], k["rows"]), sizes[k["id"]])
        if os.path.exists(saved):
            os.remove(saved)
        d.call("savekp")
        require(os.path.exists(saved), "the keypoint file was not written")
        shutil.copy(saved, B)
        with open(saved, encoding="utf8", errors="replace") as f:
            texts.append(f.read())
        if src == A:
            try:
                F = cvyaml.parse(texts[0])
            except Exception as e:
                require(False, "malformed keypoint file: %r", e)
            for cam in range(c["cams"]):
                K = F.get("camera_%d" % cam)
                require(isinstance(K, dict), "the keypoint file has no camera %d", cam)
                ks = sorted(k for k in exp if k[0] == cam)
                got = sorted(zip([cam] * len(K["frame_idxs"]), K["frame_idxs"], K["board_idxs"]))
                require(got == ks, "keypoint file: camera %d has observations %s, expected %s", cam, got[:5], ks[:5])
                require((K["img_width"], K["img_height"]) == sizes[cam], "keypoint file: camera %d has size %s", cam, (K["img_width"], K["img_height"]))
    require(texts[0] == texts[1] == texts[2], "saving the reloaded observations again gives another file")
    nt = len(obs) >= 3 and (c["cams"] > 1 or c["boards"] > 1)
    return {"nontrivial": nt, "labels": ["%d cameras" % c["cams"], "%d boards" % c["boards"], "odd path characters" if set("".join(c["names"])) & set("\"'#:,[]{}%!&é日") else "plain paths",
                                         "%d observations" % (len(obs) // 20 * 20)], "max": {"observations": len(obs)}}


def run_app(ctx, c):
    """a calibration from saved keypoints equals the calibration that saved them"""
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    over = {"quaternion_averaging": c["quat"]}
    exe = ctx.exe("calibrate:rel")
    seed = c["seed"] % 1000
    r = e2e.calibrate(exe, sc, over, rd_seed=seed)
    J.ran(r)
    kept = J.kept_points(sc, r)
    exp = {k: dict(zip(v[0], v[1])) for k, v in sc.obs.items()}
    require(sorted(kept) == sorted(exp), "keypoint file: observations %s are missing, %s were never made", sorted(set(exp) - set(kept))[:4], sorted(set(kept) - set(exp))[:4])
    lost = 0
    for k in kept:
        for i, p in kept[k].items():
            require(i in exp[k] and np.float32(p[0]) == exp[k][i][0] and np.float32(p[1]) == exp[k][i][1], "corner %d of %s is saved at %s, was given at %s", i, k, p, exp[k].get(i))
        lost += len(exp[k]) - len(kept[k])
    require(lost <= 0.1 * sc.n_points(), "%d of %d corners are missing from the keypoint file", lost, sc.n_points())
    for cam in range(len(sc.cams)):
        K = r.kps["camera_%d" % cam]
        require((K["img_width"], K["img_height"]) == (sc.cams[cam]["w"], sc.cams[cam]["h"]), "camera %d is saved with image size %s", cam, (K["img_width"], K["img_height"]))
        want = {f: p for f, p in zip(sc.keypoints()[cam]["frame_idxs"], sc.keypoints()[cam]["frame_paths"])}
        for f, p in zip(K["frame_idxs"], K["frame_paths"]):
            require(want[f] == p, "camera %d frame %d is saved with path %r, was %r", cam, f, p, want[f])
    over2 = dict(over, keypoints_path="@/saved.yml")
    r2 = e2e.calibrate(exe, sc, over2, rd_seed=seed, extra_files={"saved.yml": r.raw["detected_keypoints_data.yml"]})
    J.ran(r2)
    if not lost:
        worst = 0.0
        L, L2 = e2e.cam_list(r), e2e.cam_list(r2)
        require(sorted(L) == sorted(L2) and J.groups(r) == J.groups(r2), "the recalibration groups the cameras as %s instead of %s", J.groups(r2), J.groups(r))
        for k in L:
            for n in ("K", "d", "P"):
                worst = max(worst, float((np.abs(L[k][n] - L2[k][n]) / (1 + np.abs(L[k][n]))).max()))
        require(worst < 1e-4, "the calibration from the saved keypoints differs by %g", worst)
        require(r.raw["detected_keypoints_data.yml"] == r2.raw["detected_keypoints_data.yml"], "the recalibration saves other keypoints")
    return {"nontrivial": len(sc.cams) > 1 or len(sc.boards) > 1, "labels": rigs.labels(sc, c) + ["all corners kept" if not lost else "some corners dropped"], "max": {"difference": 0 if lost else worst}}


def valid(c):
    return 1 <= c["cams"] and 1 <= c["boards"] <= 3 and c["frames"] >= 1 and c["names"] and all(c["names"]) and 0 <= c["density"] <= 1


run.valid, run_app.valid = valid, rigs.overlap_valid
case = st.fixed_dictionaries({"seed": S.seeds, "cams": st.integers(1, 4), "boards": st.integers(1, 3), "frames": st.integers(1, 14), "density": st.sampled_from([0.7, 1.0, 0.3]),
                              "shuffled": st.booleans(), "names": st.lists(names, min_size=1, max_size=4)})
PARTS = [Part("save and load", case, run, 1500, 40000),
         Part("recalibration from saved keypoints", st.fixed_dictionaries(rigs.overlap_fields(noise=st.sampled_from([0.2, 0.05]), he=None)), run_app, 40, 700, mode="pre", shrink_s=60)]
