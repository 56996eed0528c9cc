"""C20: detection reports the boards in the pictures, at the right place, under the right names."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vp import cvyaml, pics, rigs, strat as S
from vp.runner import Part, Reject, require

PROPERTY = "C20"
TECHNIQUE = "property-based testing (Hypothesis): boards drawn by an independent renderer into generated picture folders; oracle is the projected truth and the rule for which corners and boards are reported"
BUILD = ["drv_calib:rel", "render:rel"]
RULE = "a case is non-trivial when at least one board is to be reported; distinct by full description"
ASSUMPTIONS = ["marker modules of at least four pixels in every direction, blur of at most 0.7 pixel, noise of at most one grey level, tilt of at most 50 degrees", "a case fails when it fails again after the boards moved by a fraction of a pixel, twice",
               "boards whose corners are neither clearly on one line nor clearly apart, and markers lying within a few pixels of the image border, are left undecided"]
EXTS = ["png", "jpg", "bmp", "tiff", "jpeg", "jp2"]


def tls(P):
    P = np.asarray(P, float)
    if len(P) < 2:
        return 0.0
    q = P - P.mean(0)
    n = np.linalg.svd(q, full_matrices=True)[2][1]
    return float(np.abs(q @ n).mean())


def verdict(ids, size, perc):
    """True reported, False not reported, None undecided"""
    nx, ny = size
    nb = (nx - 1) * (ny - 1)
    lim = float(np.floor(np.float32(perc) * np.float32(nb) + np.float32(0.5)))
    if len(ids) <= max(lim, 4):
        return False
    r = tls([[i % (nx - 1), i // (nx - 1)] for i in ids])
    return True if r > 0.13 else False if r < 0.07 else None


def sizes_of(c):
    rng = np.random.default_rng([c["seed"], 1])
    n = c["gen"]
    if c["mixed"]:
        return [(int(rng.integers(3, 8)), int(rng.integers(3, 8))) for _ in range(n)]
    s = (int(rng.integers(3, 9)), int(rng.integers(3, 8)))
    return [s] * n


def build(c):
    rng = np.random.default_rng([c["seed"], 20])
    sizes = sizes_of(c)
    index = list(range(c["gen"]))
    if c["subset"]:
        index = [int(x) for x in rng.permutation(c["gen"])[:max(1, c["gen"] - 1)]]
    cams, shots, names = [], {}, {}
    for k, mo in enumerate(c["models"]):
        w = int(rng.choice([640, 800, 1024, 900]))
        cams.append(pics.make_camera(rng, mo, w, int(w * rng.choice([0.75, 1.0, 0.6])), dist=c["dist"]))
        nn = []
        for f in range(c["frames"] + int(rng.integers(0, 2))):
            L = []
            n = int(rng.choice([0 if f else 2, 1, 2, 2, 3, 3]))
            for g in rng.permutation(c["gen"] + c["foreign"])[:n]:
                size = sizes[g] if g < c["gen"] else (5, 5)
                s = pics.place_shot(rng, cams[k], size, c["module"] * 8 / c["ratio"], c["tilt"], L, cut=c["cut"] and rng.random() < 0.5, ratio=c["ratio"], tries=60)
                if s is None:
                    continue
                s.gen = int(g)
                s.first = pics.first_id(sizes, g) if g < c["gen"] else 600
                s.dark, s.light = c["contrast"]
                m = pics.markers_of(*size)
                u = rng.random()
                if u < c["hide"]:
                    s.hidden = [int(x) for x in np.flatnonzero(rng.random(len(m)) < rng.uniform(0.05, 0.6))]
                elif u < c["hide"] + c["strip"]:
                    # leave markers next to one line of corners, and sometimes another one
                    nx, ny = size
                    if rng.random() < 0.5:
                        y = int(rng.integers(ny - 1))
                        keep = lambda q: q[1] in (y, y + 1)
                    elif rng.random() < 0.5:
                        x = int(rng.integers(nx - 1))
                        keep = lambda q: q[0] in (x, x + 1)
                    else:
                        d = int(rng.integers(-1, 3))
                        keep = lambda q: q[0] - q[1] in (d, d + 1, d - 1)
                    extra = int(rng.integers(len(m))) if rng.random() < 0.3 else -1
                    s.hidden = [j for j, q in enumerate(m) if not keep(q) and j != extra]
                L.append(s)
            shots[(k, f)] = L
            nn.append(name(rng, f, c))
        # names in sorted order belong to the pictures in order
        root = "Cam_%03d/" % (k + 1)
        order = sorted(set(nn))
        names[k] = [root + x for x in order]
    for k in names:
        for f in range(len(names[k])):
            shots.setdefault((k, f), [])
    junk = set()
    if c["junk"]:
        for k in names:
            for f in range(1, len(names[k])):
                if rng.random() < 0.3:
                    junk.add((k, f))
    sc = type("Pictures", (), {})()
    sc.cams, sc.sizes, sc.index, sc.shots, sc.names, sc.junk = cams, sizes, index, shots, names, junk
    sc.perc = c["perc"]
    if c["edge"]:      # a share at which one of the boards is just reported, or just not
        for (k, f), L in sorted(shots.items()):
            for s in L:
                lo, hi = expected(s, cams[k])
                nb = (s.size[0] - 1) * (s.size[1] - 1)
                if s.gen in index and lo == hi and 5 < len(lo) < nb:
                    sc.perc = (len(lo) - c["edge"] % 2 + (0.0, 0.4, -0.4)[c["edge"] // 2]) / nb
                    return sc
    return sc


def name(rng, f, c):
    stem = ["%d", "img_%04d", "%06d", "frame.%d", "z%d.v2"][int(rng.integers(5))] % int(rng.integers(0, 3000))
    e = EXTS[int(rng.integers(len(EXTS)))] if c["formats"] else "png"
    return ("sub%d/" % rng.integers(3) if c["sub"] and rng.random() < 0.5 else "") + stem + "." + e


def squares(c):
    """square sizes of the boards, up to three orders of magnitude apart"""
    return [float(x) for x in c["square"] * 10 ** np.random.default_rng([c["seed"], 4]).uniform(-1.5, 1.5, c["gen"])]


def expected(s, cam):
    """(corners certainly seen, corners possibly seen)"""
    full, _ = s.inside(cam, 6)
    maybe, _ = s.inside(cam, -2 * s.scale(cam) * s.ratio / 8)
    h = set(s.hidden)
    return s.seen([k for k in full if k not in h]), s.seen([k for k in maybe if k not in h])


def tolerance(s, cam, c):
    mod = s.scale(cam) * c["ratio"] / 8
    if c["refine"] and s.scale(cam) >= 40 and mod >= 4.5:
        return 0.3
    return 0.7 if c["refine"] else 1.6


def run(ctx, c):
    sc = build(c)
    if not any(sc.shots.values()):
        raise Reject()
    base = {k: [s.T for s in L] for k, L in sc.shots.items()}

    def once(seed):
        j = (seed - c["seed"] % 1000) // 17
        rng = np.random.default_rng([c["seed"], 9, j])
        for k, L in sc.shots.items():
            for s, T in zip(L, base[k]):
                s.T = T.copy()
                if j:     # the same scene moved by a fraction of a pixel
                    s.T[:2, 3] += rng.uniform(-0.7, 0.7, 2) * s.T[2, 3] / sc.cams[k[0]]["K"][0]
        return attempt(ctx, c, sc, c["seed"] % 1000 * 10 + 7 * j)
    return rigs.seeds_vote(once, c, 3, 3)


def attempt(ctx, c, sc, salt):
    r = ctx.drv("render:rel")
    d = ctx.drv("drv_calib:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    mx, labels = {}, set()
    root = os.path.join(d.dir, "pics")
    shutil.rmtree(root, ignore_errors=True)
    try:
        files = [(k, f) for k in sc.names for f in range(len(sc.names[k]))]
        np.random.default_rng([c["seed"], 3]).shuffle(files)
        for k, f in files:
            p = os.path.join(root, sc.names[k][f])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if (k, f) in sc.junk:
                with open(p, "wb") as fh:
                    fh.write(b"" if (k + f) % 2 else b"no picture at all")
                continue
            pics.draw(r, p, sc.cams[k], sc.shots[(k, f)], seed=salt + f, level=c["level"], amp=c["amp"], blur=c["blur"], noise=c["noise"], colour=c["colour"],
                      quality=95 if p.endswith(("jpg", "jpeg")) else 0)
        if c["junk"]:
            for k in sc.names:
                for n in ("notes.txt", "a.png.bak", "zz.yml"):
                    with open(os.path.join(root, "Cam_%03d" % (k + 1), n), "w") as fh:
                        fh.write("nothing")
        sizes = sc.sizes
        cfg = {"number_x_square": sizes[0][0], "number_y_square": sizes[0][1], "resolution_x": 600, "resolution_y": 600, "length_square": 0.04, "length_marker": 0.04 * c["ratio"],
               "number_board": c["gen"], "boards_index": sc.index if c["subset"] else [], "square_size": c["square"],
               "number_x_square_per_board": [s[0] for s in sizes] if c["mixed"] else [], "number_y_square_per_board": [s[1] for s in sizes] if c["mixed"] else [],
               "square_size_per_board": squares(c) if c["mixed"] else [],
               "distortion_model": 0, "distortion_per_camera": list(c["models"]), "number_camera": len(sc.cams), "refine_corner": int(c["refine"]), "min_perc_pts": sc.perc, "cam_params_path": "None",
               "fix_intrinsic": 0, "root_path": root, "cam_prefix": "Cam_", "keypoints_path": "None", "quaternion_averaging": 1, "ransac_threshold": 10, "number_iterations": 1000, "he_approach": 0,
               "save_path": os.path.join(d.dir, "out"), "save_detection": 0, "save_reprojection": 0, "camera_params_file_name": ""}
        p = os.path.join(d.dir, "c.yml")
        with open(p, "w") as f:
            f.write(cvyaml.dump_flat(cfg))
        d.call("open", p)
        d.opened = None
        d.call("stage", 1, "boardExtraction")
        D = d.json("dump")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for e in D["cams"]:
        cam = sc.cams[e["id"]]
        require((e["cols"], e["rows"]) == (cam["w"], cam["h"]), "camera %d has image size %dx%d, its pictures %dx%d", e["id"], e["cols"], e["rows"], cam["w"], cam["h"])
    got = {}
    for o in D["obs"]:
        key = (o["cam"], o["frame"], o["board"])
        require(key not in got, "board %d of camera %d in frame %d is reported twice", key[2], key[0], key[1])
        got[key] = o
    paths = {(int(k), f["idx"]): v for f in D["frames"] for k, v in f["paths"].items()}
    want = {}
    for (k, f), L in sc.shots.items():
        if f >= len(sc.names[k]) or (k, f) in sc.junk:
            continue
        for s in L:
            if s.gen in sc.index:
                want[(k, f, sc.index.index(s.gen))] = s
    n = 0
    for key, o in got.items():
        require(key in want, "camera %d, frame %d (%s): board %d is reported (%d corners) but is not in the picture", key[0], key[1], sc.names[key[0]][key[1]] if key[1] < len(sc.names[key[0]]) else "no such picture", key[2], len(o["ids"]))
        require(os.path.normpath(paths.get(key[:2], "")) == os.path.normpath(os.path.join(root, sc.names[key[0]][key[1]])), "camera %d, frame %d has path %s, expected %s", key[0], key[1], paths.get(key[:2]), sc.names[key[0]][key[1]])
    for key, s in sorted(want.items()):
        cam = sc.cams[key[0]]
        lo, hi = expected(s, cam)
        v = verdict(lo, s.size, sc.perc), verdict(hi, s.size, sc.perc)
        o = got.get(key)
        where = "camera %d, frame %d, board %d (%dx%d, %d to %d of its corners visible)" % (*key, *s.size, len(lo), len(hi))
        if o is None:
            require(not (v[0] is True and v[1] is True), "%s is not reported", where)
            labels.add("line" if len(hi) > 4 and tls([[i % (s.size[0] - 1), i // (s.size[0] - 1)] for i in hi]) < 0.07 else "too few")
            continue
        require(v[0] is not False or v[1] is not False, "%s is reported with %d corners", where, len(o["ids"]))
        ids = o["ids"]
        require(len(set(ids)) == len(ids) == len(o["pts"]), "%s: corner ids %s", where, ids)
        require(set(lo) <= set(ids) <= set(hi), "%s: reported corners %s, visible %s", where, sorted(ids), sorted(lo))
        n += 1
        if s.hidden:
            labels.add("hidden markers")
        uv = s.corners(cam)[np.array(ids, int)]
        e = np.linalg.norm(np.array(o["pts"]) - uv, axis=1)
        t = tolerance(s, cam, c)
        kind = "px, %s%s" % ("refined large" if t < 1 else "refined" if c["refine"] else "unrefined", " fisheye" if cam["model"] else "")
        mx[kind] = max(mx.get(kind, 0), float(e.max()))
        require(e.max() < t, "%s: corner %d is reported at %s, its place is %s", where, ids[int(e.argmax())], o["pts"][int(e.argmax())], np.round(uv[int(e.argmax())], 2))
    labels |= {"fisheye" if 1 in c["models"] else "no fisheye", "subset of boards" if c["subset"] else "all boards", "mixed sizes" if c["mixed"] else "one size", "refined" if c["refine"] else "not refined",
               "unreadable pictures" if sc.junk else "readable", "%d reported" % min(n, 9)}
    return {"nontrivial": n > 0, "labels": sorted(labels), "max": mx}


def valid(c):
    return (c["models"] and set(c["models"]) <= {0, 1} and 1 <= c["gen"] <= 5 and 1 <= c["frames"] <= 6 and c["module"] >= 4 and 0 <= c["tilt"] <= 50 and 0 <= c["blur"] <= 0.7 and 0 <= c["noise"] <= 1
            and 0 <= c["perc"] <= 0.9 and 0 <= c["edge"] <= 5 and 0.55 <= c["ratio"] <= 0.78 and c["square"] > 0)


run.valid = valid
fields = {"seed": S.seeds, "models": st.sampled_from([[0], [0, 1], [1, 0], [0, 0], [1], [0, 0, 1]]), "gen": st.integers(1, 4), "subset": st.booleans(), "mixed": st.booleans(), "foreign": st.integers(0, 1),
          "frames": st.sampled_from([2, 1, 3]), "module": st.sampled_from([4.5, 4.0, 5.0, 7.0]), "ratio": st.sampled_from([0.75, 0.6, 0.68]), "tilt": st.sampled_from([20, 0, 40, 50]), "dist": st.sampled_from([1.0, 0.0]),
          "blur": st.sampled_from([0.0, 0.4, 0.7]), "noise": st.sampled_from([0.0, 0.5, 1.0]), "level": st.sampled_from([170, 100, 220]), "amp": st.sampled_from([30, 0]), "contrast": st.sampled_from([[20.0, 235.0], [60.0, 200.0], [0.0, 255.0]]),
          "colour": st.integers(0, 1), "refine": st.booleans(), "perc": st.sampled_from([0.0, 0.3, 0.5, 0.15, 0.7, 0.9]), "edge": st.sampled_from([0, 1, 2, 3, 4, 5]), "square": st.sampled_from([0.04, 1.0, 192.0, 1e-3]), "hide": st.sampled_from([0.0, 0.4, 0.8]),
          "strip": st.sampled_from([0.0, 0.2, 0.5]), "cut": st.booleans(), "formats": st.booleans(), "sub": st.booleans(), "junk": st.booleans()}
PARTS = [Part("picture folders", st.fixed_dictionaries(fields), run, 300, 4000)]
