"""C26: detecting boards in parallel gives what detecting them one picture at a time gives, without data races."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vp import cvyaml, drv, pics, strat as S
from vp.runner import Part, Reject, require

PROPERTY = "C26"
TECHNIQUE = "property-based testing (Hypothesis) over generated picture folders, thread counts and schedules: differential against one picture at a time, and a dynamic race detector (ThreadSanitizer) watching the same runs"
BUILD = ["drv_calib:rel", "render:rel", "drv_calib:tsan"]
RULE = "a case is non-trivial when several pictures show boards and more than one thread works on them; distinct by full description"
ASSUMPTIONS = ["OpenCV itself is not instrumented for the race detector; races inside it are not reported",
               "schedules vary with the number of processors, the load and the pictures; they are not enumerated"]


def build(c):
    rng = np.random.default_rng([c["seed"], 26])
    sizes = [(int(rng.integers(3, 5)), int(rng.integers(3, 5))) for _ in range(c["boards"])]
    out = []
    for k in range(c["cams"]):
        w = int(rng.choice([320, 400]))
        cam = pics.make_camera(rng, int(rng.integers(2)), w, int(w * 0.75))
        L = []
        base = [place(rng, cam, sizes, c) for _ in range(min(c["pictures"], 6))]
        for f in range(c["pictures"]):
            # the same pictures come again under other names: cheap to draw, and several threads meet in the same board
            L.append("junk" if f and rng.random() < c["junk"] else int(rng.integers(len(base))))
        out.append((cam, base, L))
    return sizes, out


def place(rng, cam, sizes, c):
    S_ = []
    for g in rng.permutation(len(sizes))[:int(rng.integers(0, len(sizes) + 1)) or 1]:
        s = pics.place_shot(rng, cam, sizes[g], float(rng.uniform(38, 44)), 25, S_, ratio=0.75, tries=30)
        if s is not None:
            s.first = pics.first_id(sizes, g)
            S_.append(s)
    return S_


def config(root, save, sizes, n):
    return {"number_x_square": 5, "number_y_square": 5, "resolution_x": 600, "resolution_y": 600, "length_square": 0.04, "length_marker": 0.03, "number_board": len(sizes), "boards_index": [], "square_size": 1.0,
            "number_x_square_per_board": [s[0] for s in sizes], "number_y_square_per_board": [s[1] for s in sizes], "square_size_per_board": [1.0] * len(sizes), "distortion_model": 0, "distortion_per_camera": [],
            "number_camera": n, "refine_corner": 1, "min_perc_pts": 0.1, "cam_params_path": "None", "fix_intrinsic": 0, "root_path": root, "cam_prefix": "Cam_", "keypoints_path": "None", "quaternion_averaging": 1,
            "ransac_threshold": 10, "number_iterations": 1000, "he_approach": 0, "save_path": save, "save_detection": 0, "save_reprojection": 0, "camera_params_file_name": ""}


def detect(d, root, sizes, n, cpus=None):
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    p = os.path.join(d.dir, "c.yml")
    with open(p, "w") as f:
        f.write(cvyaml.dump_flat(config(root, os.path.join(d.dir, "out"), sizes, n)))
    d.call("open", p)
    d.opened = None
    if cpus:
        os.sched_setaffinity(d.p.pid, cpus)
    try:
        d.call("stage", 1, "boardExtraction", timeout=240)
    finally:
        if cpus and d.p is not None and d.p.poll() is None:
            os.sched_setaffinity(d.p.pid, os.sched_getaffinity(0))
    return d.json("dump")


def table(D):
    t = {}
    for o in D["obs"]:
        k = (o["cam"], o["frame"], o["board"])
        require(k not in t, "board %d of camera %d in frame %d is reported twice", k[2], k[0], k[1])
        t[k] = (o["ids"], o["pts"])
    return t


def run_with(ctx, c, flavour):
    sizes, cams = build(c)
    if not any(b for _, base, _ in cams for b in base):
        raise Reject()
    r, seq = ctx.drv("render:rel"), ctx.drv("drv_calib:rel")
    par = ctx.drv("drv_calib:" + flavour)
    if seq.p is None or seq.p.poll() is not None:
        seq.stop()
        seq.start()
    root, single = os.path.join(seq.dir, "all"), os.path.join(seq.dir, "single")
    for x in (root, single):
        shutil.rmtree(x, ignore_errors=True)
    try:
        # every different picture alone in a folder of its own
        n, want, shown = 0, {}, {}
        for k, (cam, base, L) in enumerate(cams):
            for i, shots in enumerate(base):
                p = os.path.join(single, "Cam_%03d" % (n + 1))
                os.makedirs(p)
                pics.draw(r, os.path.join(p, "a.png"), cam, shots, seed=c["seed"] % 1000 * 10 + i, noise=0.5, ss=2)
                shown[(k, i)] = n
                n += 1
        D = table(detect(seq, single, sizes, n))
        require(all(f == 0 for _, f, _ in D), "one picture per camera, yet frames %s", sorted({f for _, f, _ in D}))
        for k, (cam, base, L) in enumerate(cams):
            p = os.path.join(root, "Cam_%03d" % (k + 1))
            os.makedirs(p)
            for f, i in enumerate(L):
                q = os.path.join(p, "%04d.png" % f)
                if i == "junk":
                    with open(q, "w") as fh:
                        fh.write("junk")
                    continue
                shutil.copy(os.path.join(single, "Cam_%03d" % (shown[(k, i)] + 1), "a.png"), q)
                for (m, _, b), v in D.items():
                    if m == shown[(k, i)]:
                        want[(k, f, b)] = v
        if len({k[:2] for k in want}) < 2:
            raise Reject()
        allowed = sorted(os.sched_getaffinity(0))
        cpus = set(allowed[:c["cpus"]]) if c["cpus"] else None
        for rep in range(c["repeat"]):
            E = detect(par, root, sizes, len(cams), cpus)
            got = table(E)
            for k in sorted(set(want) | set(got)):
                where = "run %d: camera %d, frame %d, board %d" % (rep, *k)
                require(k in got, "%s is missing in the parallel run", where)
                require(k in want, "%s appears only in the parallel run", where)
                require(got[k] == want[k], "%s: corners %s, alone they are %s", where, got[k], want[k])
            fr = sorted({f for _, f, _ in want})
            require(sorted(f["id"] for f in E["frames"]) == fr, "frames %s, expected %s", sorted(f["id"] for f in E["frames"]), fr)
            for f in E["frames"]:
                w = {str(k): os.path.join(root, "Cam_%03d" % (k + 1), "%04d.png" % f["id"]) for k, g, _ in want if g == f["id"]}
                g = {k: os.path.normpath(v) for k, v in f["paths"].items()}
                require(g == w, "frame %d has paths %s, expected %s", f["id"], g, w)
                require(len(f["visboards"]) == sum(1 for x in want if x[1] == f["id"]), "frame %d lists boards %s, expected %d", f["id"], f["visboards"], sum(1 for x in want if x[1] == f["id"]))
    finally:
        for x in (root, single):
            shutil.rmtree(x, ignore_errors=True)
    return {"nontrivial": c["cpus"] != 1, "labels": ["%s processors" % (c["cpus"] or "all"), "%d cameras" % len(cams), "unreadable pictures" if c["junk"] else "readable", "%d0 observations" % (len(want) // 10)]}


def run(ctx, c):
    return run_with(ctx, c, "rel")


class Raced:
    """the drivers of this run, with the race detector's options set"""

    def __init__(self, ctx):
        self.ctx = ctx

    def drv(self, name):
        d = self.ctx.drv(name)
        if name.endswith("tsan") and "TSAN_OPTIONS" not in d.env:
            d.env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=1"
            d.stop()
            try:
                d.call("close")
            except (drv.Crash, drv.Threw) as e:
                if "FATAL: ThreadSanitizer" in str(e):
                    raise Reject()       # the detector cannot start here at all
                raise
        return d


def run_races(ctx, c):
    return run_with(Raced(ctx), c, "tsan")


def valid(c):
    return 1 <= c["cams"] <= 3 and 1 <= c["boards"] <= 4 and 2 <= c["pictures"] <= 80 and 0 <= c["junk"] <= 0.4 and 0 <= c["cpus"] <= 8 and 1 <= c["repeat"] <= 5


run.valid = run_races.valid = valid
fields = {"seed": S.seeds, "cams": st.sampled_from([1, 2]), "boards": st.integers(1, 3), "pictures": st.sampled_from([12, 24, 40, 6, 60]), "junk": st.sampled_from([0.0, 0.0, 0.2]), "cpus": st.sampled_from([0, 0, 2, 3, 5, 1]), "repeat": st.sampled_from([2, 1, 3])}
PARTS = [Part("differential", st.fixed_dictionaries(fields), run, 60, 800, workers=4), Part("races", st.fixed_dictionaries(dict(fields, pictures=st.sampled_from([12, 24, 6, 30]), cpus=st.sampled_from([0, 0, 0, 4]), repeat=st.just(1))), run_races, 40, 500, workers=4)]
