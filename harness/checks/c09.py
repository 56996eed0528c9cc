"""C09: provided intrinsics are used and, when fixed, never altered."""
import os

import numpy as np
from hypothesis import strategies as st

from vp import e2e, judge as J, live, optim, rigs, strat as S
from vp.scene import Scene, Unplaceable, make_camera
from vp.drv import lst
from vp.runner import Part, Reject, require

PROPERTY = "C09"
TECHNIQUE = "property-based testing (Hypothesis): generated rigs run end to end from generated camera parameter files; oracle is bitwise equality with the provided values, the generating scene, and stationarity of the robust cost"
BUILD = ["calibrate:rel", "drv_calib:rel"]
RULE = "a case is non-trivial when the provided intrinsics of at least two cameras differ from each other or from the truth; distinct by full description"
ASSUMPTIONS = ["provided matrices are at most 1 % and provided distortion coefficients at most 0.01 off",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]
TOL = J.Tol(px=0.02, rot=0.01, t=1e-3, obj=1e-3, err=1e-3, k=1e-4)


def scene(c):
    try:
        return rigs.nonoverlap(c) if "groups" in c else rigs.overlap(c)
    except Unplaceable:
        raise Reject()


def start_file(sc, c, rel, dist):
    """the parameter file in one of the shapes users have: bare, any order, with cameras that are not in the rig, with all the fields of a saved result"""
    n = len(sc.cams)
    order = [int(x) for x in np.random.default_rng([c["seed"], 43]).permutation(n)] if c["shape_of_file"] == "shuffled" else list(range(n))
    txt, vals = rigs.params_file(sc, rel, dist, c["seed"], order)
    if c["shape_of_file"] == "more cameras":
        txt += extra(txt, n)
    if c["shape_of_file"] == "like a result":
        head, body = txt.split("---\n")
        body = body.replace("   distortion_vector", "   distortion_type: 0\n   camera_group: 0\n   img_width: 17\n   img_height: 13\n   distortion_vector")
        txt = head + "---\nnb_camera: %d\n" % n + body
    return txt, vals


def extra(txt, n):
    """a further camera, with the values of camera 0"""
    block = []
    for l in txt.split("---\n")[1].splitlines()[1:]:
        if l.startswith("camera_"):
            break
        block.append(l)
    return "camera_%d:\n%s\n" % (n + 3, "\n".join(block))


def options(sc, c, fix):
    return {"cam_params_path": "@/start.yml", "fix_intrinsic": fix, "quaternion_averaging": c["quat"], "he_approach": c["he"], "ransac_threshold": 10 if c.get("off") else c.get("ransac", 10)}


def same_intrinsics(r, vals):
    for k, e in e2e.cam_list(r).items():
        K, d = vals[k]
        require(np.array_equal(e["K"], K), "camera %d: the saved matrix %s is not the provided one %s", k, e["K"].tolist(), K.tolist())
        require(e["d"].shape == np.shape(d) and np.array_equal(e["d"], d), "camera %d: the saved distortion %s is not the provided one %s", k, e["d"].tolist(), list(d))


def info(sc, c, mx):
    return {"nontrivial": len(sc.cams) > 1 or c.get("off", 0) > 0, "labels": rigs.labels(sc, c) + [c["shape_of_file"], "off by %g" % c.get("off", 0)] + (["groups"] if "groups" in c else []), "max": mx}


def run_fixed(ctx, c):
    """wrong but fixed values stay as given, to the last bit, and the rest is optimal for them"""
    sc = scene(c)
    txt, vals = start_file(sc, c, c["off"], c["off"])
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, options(sc, c, 1), rd_seed=seed, extra_files={"start.yml": txt})
        J.ran(r)
        J.header(sc, r)
        same_intrinsics(r, vals)
        if len(J.groups(r)) == 1 and len(J.objects_of(r)) == 1:
            kept = J.kept_points(sc, r)
            require(sum(map(len, kept.values())) > 0.5 * sc.n_points(), "only %d of %d corners were used", sum(map(len, kept.values())), sc.n_points())
            cost, q = optim.gain(sc, r)
            mx["possible gain"] = max(mx.get("possible gain", 0), q)
            mx["cost"] = max(mx.get("cost", 0), cost)
            require(q < 1e-3 or q * cost < 1e-4, "with the provided intrinsics the poses and the structure are not the best ones: one more step would lower the robust cost %.4g by %.3g of it", cost, q)
    rigs.seeds_vote(once, c)
    return info(sc, c, mx)


def run_truth(ctx, c):
    """true fixed values give the true rig"""
    sc = scene(c)
    txt, vals = start_file(sc, c, 0, 0)
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, options(sc, c, 1), rd_seed=seed, extra_files={"start.yml": txt})
        J.ran(r)
        J.header(sc, r)
        same_intrinsics(r, vals)
        J.partition(r, [list(range(len(sc.cams)))])
        J.poses(sc, r, TOL, mx)
        if "groups" not in c:
            J.objects(sc, r, [list(range(len(sc.boards)))], TOL, mx)
        J.mean_error(r, 0, TOL.err)
    rigs.seeds_vote(once, c)
    return info(sc, c, mx)


def run_start(ctx, c):
    """not fixed: with no iterations the provided values are what the run starts from; with the default iterations they are refined to the truth"""
    sc = scene(c)
    txt, vals = start_file(sc, c, c["off"], c["off"])
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, options(sc, c, 0), rd_seed=seed, extra_files={"start.yml": txt})
        J.ran(r)
        J.header(sc, r)
        J.partition(r, [list(range(len(sc.cams)))])
        J.intrinsics(sc, r, TOL, mx=mx)
        J.poses(sc, r, TOL, mx)
        J.mean_error(r, 0, TOL.err)
    rigs.seeds_vote(once, c)
    return info(sc, c, mx)


def run_load(ctx, c):
    """right after the initialisation every camera has exactly the values the file gives for it, both models, any camera order"""
    rng = np.random.default_rng([c["seed"], 47])
    sc = Scene()
    sc.boards = [(5, 5, 1.0)]
    sc.cams = [make_camera(rng, m) for m in c["models"]]
    txt, vals = start_file(sc, c, c["off"], c["off"])
    d = ctx.drv("drv_calib:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    p = os.path.join(d.dir, "start.yml")
    with open(p, "w") as f:
        f.write(txt)
    live.open_cfg(d, sc, cam_params_path=p, fix_intrinsic=c["fix"])
    for k in rng.permutation(len(sc.cams)):
        d.call("insert", 1, int(k), 0, 0, lst([0, 1, 2, 3]), lst(rng.uniform(0, 100, (4, 2))), "a.png")
    d.call("stage", "1", "initializeCalibrationAllCam")
    D = d.json("dump")
    require(sorted(x["id"] for x in D["cams"]) == list(range(len(sc.cams))), "cameras %s", [x["id"] for x in D["cams"]])
    for x in D["cams"]:
        K, dist = vals[x["id"]]
        want = [K[0, 0], K[1, 1], K[0, 2], K[1, 2]] + list(dist)
        require(list(x["intr"])[:len(want)] == want, "camera %d starts from %s, the file gives %s", x["id"], x["intr"], want)
    return {"nontrivial": len(sc.cams) > 1, "labels": ["%d cameras" % len(sc.cams), c["shape_of_file"], "mixed" if len(set(c["models"])) > 1 else "one model"], "max": {}}


def ok(c):
    return 0 <= c.get("off", 0) <= 0.01 and (rigs.nonoverlap_valid(c) if "groups" in c else rigs.overlap_valid(c))


run_fixed.valid = run_truth.valid = run_start.valid = ok
SHAPES = st.sampled_from(["plain", "shuffled", "more cameras", "like a result"])


def both(**over):
    return st.one_of(st.fixed_dictionaries(rigs.overlap_fields(shape_of_file=SHAPES, **over)), st.fixed_dictionaries(rigs.overlap_fields(shape_of_file=SHAPES, **over)),
                     st.fixed_dictionaries(rigs.nonoverlap_fields(shape_of_file=SHAPES, per_group=st.just(1), **over)))


PARTS = [Part("fixed, off", both(off=st.sampled_from([0.003, 0.001, 0.006])), run_fixed, 120, 1500, mode="pre", shrink_s=60),
         Part("fixed, true", both(), run_truth, 80, 1200, mode="pre", shrink_s=60),
         Part("values loaded", st.fixed_dictionaries({"seed": S.seeds, "models": st.lists(st.sampled_from([0, 1]), min_size=1, max_size=12), "off": st.sampled_from([0.01, 0.3]),
                                                      "shape_of_file": SHAPES, "fix": st.sampled_from([0, 1])}), run_load, 300, 6000),
         Part("start values", both(off=st.sampled_from([0.003, 0.001, 0.01])), run_start, 80, 1200, mode="pre", shrink_s=60)]
