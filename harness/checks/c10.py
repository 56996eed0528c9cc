"""C10: every documented configuration option takes effect."""
import os

import numpy as np
from hypothesis import strategies as st

from vp import cvyaml, e2e, geom as G, judge as J, live, rigs, strat as S
from vp.drv import m, lst
from vp.runner import Part, Reject, require
from vp.scene import Scene, Unplaceable, make_camera

PROPERTY = "C10"
TECHNIQUE = "property-based testing (Hypothesis): generated configuration files (values, order, absent and empty options, formatting) read by the real constructor and applied by the real application; oracle is the documented meaning of each option"
BUILD = ["calibrate:rel", "drv_calib:rel"]
RULE = "a case is non-trivial when at least one documented optional setting is given a value other than the shipped default; distinct by full description"
ASSUMPTIONS = ["square counts per board are given for both directions or for none, and per-board lists reach up to the largest board index, as in the shipped examples",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]
DEFAULTS = {"refine_corner": 1, "quaternion_averaging": 1, "ransac_threshold": 10.0, "number_iterations": 1000, "he_approach": 0, "fix_intrinsic": 0}
WORDS = ["Cam_", "camera", "Left Cam", "c-1_", "Kamera#", "p"]


def text(c, vals):
    """the file: any order of the keys, comments, spaces around the colon, quotes, long or short lists"""
    rng = np.random.default_rng([c["seed"], 61])
    keys = list(vals)
    if c["shuffle"]:
        keys = [keys[int(i)] for i in rng.permutation(len(keys))]
    out = ["%YAML:1.0"] + (["---"] if rng.random() < 0.7 else [""])
    for k in keys:
        v = vals[k]
        colon = " : " if c["style"] and rng.random() < 0.3 else ": "
        tail = str(rng.choice(["", "", "   # number of things: [1,2] \"x\"", " #comment"])) if c["style"] else ""
        if isinstance(v, str):
            t = '"%s"' % v
        elif isinstance(v, list):
            t = "[" + (", " if rng.random() < 0.5 else ",").join(num(x) for x in v) + "]"
        else:
            t = num(v)
        out.append(k + colon + t + tail)
        if c["style"] and rng.random() < 0.2:
            out.append(str(rng.choice(["", "###### Section ######", "# text"])))
    return "\n".join(out) + "\n"


def num(x):
    return str(int(x)) if isinstance(x, (int, np.integer)) else repr(float(x))


def values(c, base):
    """(values written, expectations) of one configuration"""
    rng = np.random.default_rng([c["seed"], 62])
    n = c["boards"]
    if c["subset"]:
        top = n + int(rng.integers(0, 8))
        idx = sorted(int(x) for x in rng.choice(top, n, replace=False))
        if c["shuffle"]:
            idx = [idx[int(i)] for i in rng.permutation(n)]
    else:
        idx = list(range(n))
    L = max(idx) + 1
    nx, ny, sq = int(rng.integers(3, 9)), int(rng.integers(3, 9)), float(np.float32(rng.uniform(0.01, 30)))
    X = [int(x) for x in rng.integers(3, 9, L)]
    Y = [int(x) for x in rng.integers(3, 9, L)]
    Q = [float(np.round(x, 4)) for x in rng.uniform(0.01, 30, L)]
    nc = c["cameras"]
    dm = [int(x) for x in rng.integers(0, 2, nc)]
    com = int(rng.integers(0, 2))
    v = {"number_x_square": nx, "number_y_square": ny, "resolution_x": 500, "resolution_y": 400, "length_square": 0.04, "length_marker": 0.03,
         "number_board": n if not c["subset"] else int(rng.integers(1, 30)), "boards_index": idx if c["subset"] else [], "square_size": sq,
         "number_x_square_per_board": X if c["counts"] else [], "number_y_square_per_board": Y if c["counts"] else [], "square_size_per_board": Q if c["sizes"] else [],
         "distortion_model": com, "distortion_per_camera": dm if c["per_camera"] else [], "number_camera": nc,
         "refine_corner": int(rng.integers(0, 2)), "min_perc_pts": float(np.float32(rng.uniform(0.05, 0.9))),
         "cam_params_path": str(rng.choice(["None", "some dir/calibrated_cameras_data.yml"])), "fix_intrinsic": int(rng.integers(0, 2)),
         "root_path": base + str(rng.choice(["/images", "/my images/a", "/images/"])), "cam_prefix": WORDS[int(rng.integers(len(WORDS)))],
         "keypoints_path": str(rng.choice(["None", base + "/kp.yml"])), "quaternion_averaging": int(rng.integers(0, 2)),
         "ransac_threshold": float(np.float32(rng.choice([10, 3, 0.5, 2.25]))), "number_iterations": int(rng.choice([1000, 1, 57, 20000])), "he_approach": int(rng.integers(0, 2)),
         "save_path": base + str(rng.choice(["/out", "/out/deep/er", "/my out", "/out/"])), "save_detection": int(rng.integers(0, 2)), "save_reprojection": int(rng.integers(0, 2)),
         "camera_params_file_name": str(rng.choice(["", "name.yml", "my cams.yml"]))}
    drop = [k for k in ("keypoints_path", "quaternion_averaging", "ransac_threshold", "number_iterations", "he_approach", "fix_intrinsic", "refine_corner",
                        "camera_params_file_name", "boards_index", "distortion_per_camera", "number_x_square_per_board", "square_size_per_board") if rng.random() < 0.3 and c["absent"]]
    if "number_x_square_per_board" in drop:
        drop.append("number_y_square_per_board")
    drop = [k for k in drop if not isinstance(v[k], list) or v[k] == []]
    exp = dict(v)
    for k in drop:
        del v[k]
        exp[k] = DEFAULTS.get(k, [] if isinstance(exp[k], list) else "")
    if rng.random() < 0.3:
        v["resolution_x_per_board"], v["resolution_y_per_board"] = [700] * L, [650] * L
    at = [(X[i], Y[i]) if c["counts"] else (nx, ny) for i in range(L)]
    boards = [(at[i][0], at[i][1], Q[i] if c["sizes"] else sq, sum((a * b) // 2 for a, b in at[:i])) for i in idx]
    return v, exp, boards, dm if c["per_camera"] else [com] * nc


def run_read(ctx, c):
    d = ctx.drv("drv_calib:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    base = os.path.join(d.dir, "w%d" % (c["seed"] % 7))
    v, exp, boards, models = values(c, base)
    p = os.path.join(d.dir, "c.yml")
    with open(p, "w") as f:
        f.write(text(c, v))
    d.call("open", p)
    D = d.json("dump")
    P = D["params"]
    require(P["nb_camera"] == exp["number_camera"], "%d cameras instead of %d", P["nb_camera"], exp["number_camera"])
    require([(x["id"], x["idx"], x["model"]) for x in D["cams"]] == [(k, k, mo) for k, mo in enumerate(models)],
            "cameras (number, number, model) %s, configured models %s", [(x["id"], x["idx"], x["model"]) for x in D["cams"]], models)
    require(P["nb_board"] == len(boards) and [x["id"] for x in D["boards"]] == list(range(len(boards))) == [x["idx"] for x in D["boards"]],
            "%s boards, configured are %d", P["nb_board"], len(boards))
    for x, (nx, ny, sq, first) in zip(D["boards"], boards):
        require((x["nx"], x["ny"], x["nb"]) == (nx, ny, (nx - 1) * (ny - 1)), "board %d has %s x %s squares and %s corners, configured %d x %d", x["id"], x["nx"], x["ny"], x["nb"], nx, ny)
        want = np.array([[a * sq, b * sq, 0] for b in range(ny - 1) for a in range(nx - 1)])
        require(np.shape(x["pts"]) == want.shape and np.abs(np.array(x["pts"]) - want).max() <= 1e-6 * np.abs(want).max(), "board %d: corners do not follow its square size %g", x["id"], sq)
        require(abs(x["square"] - sq) <= 1e-6 * sq, "board %d: square size %s instead of %s", x["id"], x["square"], sq)
        require(list(x["markers"]) == list(range(first, first + nx * ny // 2)), "board %d has markers %s..., configured %d to %d", x["id"], list(x["markers"])[:3], first, first + nx * ny // 2 - 1)
    for name, key in [("min_perc_pts", "min_perc_pts"), ("ransac_threshold", "ransac_thresh"), ("number_iterations", "nb_iterations"), ("he_approach", "he_approach"),
                      ("fix_intrinsic", "fix_intrinsic"), ("quaternion_averaging", "quaternion_averaging"), ("refine_corner", "refine_corner"), ("save_detection", "save_detect"),
                      ("save_reprojection", "save_repro"), ("root_path", "root_path"), ("cam_prefix", "cam_prefix"), ("cam_params_path", "cam_params_path"),
                      ("keypoints_path", "keypoints_path"), ("camera_params_file_name", "camera_params_file_name")]:
        e, g = exp[name], P[key]
        if name.endswith("_path"):
            e, g = os.path.normpath(e) if e else "", os.path.normpath(g) if g else ""
        ok = abs(float(g) - e) <= 1e-6 * abs(e) if isinstance(e, (int, float)) else g == e
        require(ok, "option %s is %s, configured %s", name, g, e)
    require(os.path.normpath(P["save_path"]) == os.path.normpath(exp["save_path"]), "save_path is %s, configured %s", P["save_path"], exp["save_path"])
    require(os.path.isdir(exp["save_path"]), "the output folder %s was not created", exp["save_path"][len(base):])
    return {"nontrivial": True, "labels": ["subset" if c["subset"] else "all boards", "counts per board" if c["counts"] else "common counts", "sizes per board" if c["sizes"] else "common size",
                                           "models per camera" if c["per_camera"] else "common model", "some absent" if c["absent"] else "all present"], "max": {}}


def run_app(ctx, c):
    """files under the configured names in the configured folder, boards selected by index, sizes per board"""
    rng = np.random.default_rng([c["seed"], 63])
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    n = len(sc.boards)
    idx = sorted(int(x) for x in rng.choice(n + 6, n, replace=False)) if c["subset"] else []
    over = {"he_approach": c["he"], "quaternion_averaging": c["quat"], "save_path": c["out"], "camera_params_file_name": c["file"], "ransac_threshold": 0.2}
    if idx:
        L = max(idx) + 1
        over["boards_index"] = idx
        over["number_board"] = int(rng.integers(1, 20))
        if len({tuple(b) for b in sc.boards}) > 1 or c["mixed"]:
            A = [[5, 6, 0.7 * c["square"]] for _ in range(L)]
            for b, i in zip(sc.boards, idx):
                A[i] = [b[0], b[1], b[2]]
            over.update(number_x_square_per_board=[a[0] for a in A], number_y_square_per_board=[a[1] for a in A], square_size_per_board=[float(a[2]) for a in A],
                        number_x_square=9, number_y_square=3, square_size=123.0)
    mx = {}
    tol = J.Tol(px=0.02, rot=0.01, t=1e-3, obj=1e-3, err=1e-3)

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, over, rd_seed=seed)
        cf = c["file"] or J.CAM
        J.ran(r, cf)
        require(sorted(r.names) == sorted(J.FILES + [cf]), "the output folder holds %s", r.names)
        J.header(sc, r)
        J.objects(sc, r, [list(range(n))], tol, mx)
        J.poses(sc, r, tol, mx)
    rigs.seeds_vote(once, c)
    return {"nontrivial": bool(idx) or bool(c["file"]), "labels": rigs.labels(sc, c) + ["subset" if idx else "all", c["file"] or "default name", c["out"]], "max": mx}


def run_threshold(ctx, c):
    """corners off by a quarter of the threshold stay, corners off by much more go, whatever the threshold"""
    rng = np.random.default_rng([c["seed"], 64])
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    T = c["threshold"]
    moved = {}
    for k in sorted(sc.obs):
        ids, uv = sc.obs[k]
        if len(ids) < 12:
            continue
        w = int(rng.integers(len(ids)))
        far = bool(rng.random() < 0.5)
        a = rng.uniform(0, 2 * np.pi)
        uv = uv.copy()
        uv[w] += np.float32([np.cos(a), np.sin(a)]) * np.float32(T * (8 if far else 0.25))
        sc.obs[k] = (ids, uv)
        moved[k] = (ids[w], far)
    txt, _ = rigs.params_file(sc)
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {"ransac_threshold": T, "fix_intrinsic": 1, "cam_params_path": "@/start.yml"}, rd_seed=seed, extra_files={"start.yml": txt})
        J.ran(r)
        kept = J.kept_points(sc, r)
        bad = []
        for k, (i, far) in moved.items():
            if (i in kept.get(k, {})) == far:
                bad.append((k, i, far))
        mx["wrongly kept or dropped"] = max(mx.get("wrongly kept or dropped", 0), len(bad) / max(1, len(moved)))
        require(len(bad) <= max(1, 0.06 * len(moved)), "with ransac_threshold %g, %d of %d corners were wrongly kept or dropped, e.g. corner %s of view %s moved by %g px", T, len(bad), len(moved),
                bad and bad[0][1], bad and bad[0][0], bad and T * (8 if bad[0][2] else 0.25))
        lost = sum(len(sc.obs[k][0]) - len(kept.get(k, {})) for k in sc.obs) - sum(f for _, f in moved.values())
        require(lost <= 0.03 * sc.n_points(), "with ransac_threshold %g, %d further corners were dropped", T, lost)
    rigs.seeds_vote(once, c)
    return {"nontrivial": len(moved) >= 5, "labels": ["threshold %g" % T], "max": mx}


STAGES = ["initIntrinsic", "calibrate3DObjects", "calibrateCameraGroup", "merge3DObjects", "findPairObjectForNonOverlap"]


def run_he(ctx, c):
    """the bootstrapped hand-eye technique draws random subsets of the frames, the traditional one uses them all: only the former depends on the seed"""
    try:
        sc = rigs.nonoverlap(c)
    except Unplaceable:
        raise Reject()
    d = ctx.drv("drv_calib:rel")
    live.open_cfg(d, sc, he_approach=c["he"], quaternion_averaging=c["quat"])
    live.insert_scene(d, sc)
    d.call("stage", str(len(STAGES)), *STAGES, seed=c["seed"], timeout=120)
    out = []
    for s in range(6):
        d.call("stage", "1", "findPoseNoOverlapAllCamGroup", seed=100 + 7 * s, timeout=120)
        out.append(np.array([x[2] for x in d.json("dump")["no_overlap"]]))
    require(len(out[0]) > 0, "no pair of groups was related")
    var = max(float(np.abs(o - out[0]).max()) if o.shape == out[0].shape else np.inf for o in out)
    if c["he"]:
        require(var == 0, "he_approach 1: the relative pose of the groups depends on the random seed (by %g)", var)
    else:
        require(var > 0, "he_approach 0: the relative pose of the groups never depends on the random subsets")
    return {"nontrivial": True, "labels": ["he %d" % c["he"]], "max": {"he %d varies" % c["he"]: var}}


def ok_app(c):
    return c["subset"] in (True, False) and bool(c["out"]) and rigs.overlap_valid(c)


run_app.valid = ok_app
run_threshold.valid = lambda c: 0.5 <= c["threshold"] <= 20 and c["minfrac"] >= 0.8 and rigs.overlap_valid(c)
run_he.valid = lambda c: rigs.nonoverlap_valid(c) and c["noise"] >= 0.05
READ = {"seed": S.seeds, "boards": st.sampled_from([1, 2, 3, 5, 8]), "subset": st.booleans(), "counts": st.booleans(), "sizes": st.booleans(), "cameras": st.sampled_from([1, 2, 3, 6, 11]),
        "per_camera": st.booleans(), "shuffle": st.booleans(), "style": st.booleans(), "absent": st.booleans()}
PARTS = [Part("options read", st.fixed_dictionaries(READ), run_read, 800, 20000),
         Part("names and board lists", st.fixed_dictionaries(rigs.overlap_fields(subset=st.booleans(), file=st.sampled_from(["", "name.yml", "my cams.yml"]), out=st.sampled_from(["out", "a/b/out", "my out", "out/"]),
                                                                                boards=st.sampled_from([1, 2, 3, 3]), models=st.sampled_from([[0], [0, 0], [1], [0, 1]]))), run_app, 50, 600, mode="pre", shrink_s=60),
         Part("threshold", st.fixed_dictionaries(rigs.overlap_fields(threshold=st.sampled_from([10.0, 1.0, 3.0, 0.5, 5.5, 20.0]), minfrac=st.sampled_from([1.0, 0.8]), boards=st.sampled_from([1, 2]),
                                                                    size=st.integers(2, 4), models=st.sampled_from([[0], [0, 0], [1], [0, 1], [0, 0, 0]]))), run_threshold, 50, 600, mode="pre", shrink_s=60),
         Part("hand-eye approach", st.fixed_dictionaries(rigs.nonoverlap_fields(groups=st.sampled_from([[[0], [0]], [[1], [0]], [[0, 0], [0]]]), per_link=st.sampled_from([25, 16]), noise=st.sampled_from([0.2, 0.1]))),
              run_he, 24, 300, mode="pre", shrink_s=60)]
