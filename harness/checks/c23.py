"""C23: the diagnostic pictures show the right points on the right picture."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vp import cvyaml, e2e, geom as G, live, pics, rigs, strat as S
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

from . import c19

PROPERTY = "C23"
TECHNIQUE = "property-based testing (Hypothesis): generated calibration states and picture files, the written pictures decoded and compared with the originals, the observations and independently projected points"
BUILD = ["drv_calib:rel", "calibrate:rel", "render:rel"]
RULE = "a case is non-trivial when pictures were written and at least one mark was judged; distinct by full description"
ASSUMPTIONS = ["smooth pictures, so that lossy compression changes little away from marks; only marks with no other mark close by are judged",
               "a mark covers the three pixels around the truncated or rounded position; its colour is not specified beyond being different from the picture"]


def scene(c):
    over = dict(see_all=c["see_all"])
    if c["apart"]:
        over.update(objs=[[b] for b in range(c["boards"])], link_kind={str(o): [0] for o in range(c["boards"])}, see_all=True)
    return rigs.overlap(c, **over)


def paint(r, path, cam, seed):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    pics.draw(r, path, cam, [], seed=seed, level=128, amp=60, quality=97 if path.endswith("jpg") else 0)


def six(v):
    return G.T_of(v[:3], v[3:])


def predicted(D):
    """{(cam, frame): (detected points, predicted points, colours of the objects)}"""
    cam = {x["id"]: c19.cam_of(D, x["id"]) for x in D["cams"]}
    pts = {o["id"]: np.array(o["pts"], float) for o in D["objects"]}
    col = {o["id"]: o["color"] for o in D["objects"]}
    gcam = {(g["id"], c): six(p) for g in D["groups"] for c, p in g["poses"]}
    gobj = {(g["group"], g["frame"], o): six(p) for g in D["groupobs"] for o, p in g["poses"]}
    group_of = {c: g["id"] for g in D["groups"] for c in g["cams"]}
    out = {}
    for oo in D["objobs"]:
        g = group_of[oo["cam"]]
        P = G.apply_T(gcam[(g, oo["cam"])] @ gobj[(g, oo["frame"], oo["obj"])], pts[oo["obj"]][oo["ids"]])
        uv = np.array(oo["pts"], float).reshape(-1, 2)
        e = out.setdefault((oo["cam"], oo["frame"]), [[], [], []])
        e[0].append(uv)
        # points behind the camera have no place in the picture
        e[1].append(np.where((P[:, 2] > 1e-6)[:, None], G.project(P, *cam[oo["cam"]]), np.nan))
        e[2].append(np.repeat(np.array([col[oo["obj"]]], float), len(uv), 0))
    return {k: [np.vstack(x) for x in v] for k, v in out.items()}


def lonely(p, others, gap):
    """those of the points with no other of these within the gap"""
    ok = []
    for i, x in enumerate(p):
        if np.isfinite(x).all():
            d = np.linalg.norm(others - x, axis=1)
            ok.append((d[np.isfinite(d)] < gap).sum() <= 1)
        else:
            ok.append(False)
    return np.array(ok, bool)


def judge(where, img, orig, marks, colours, moved, sure=()):
    """marks: points with a mark each, moved: points which may carry one as well; returns the number judged and their colours"""
    h, w = orig.shape[:2]
    diff = np.abs(img.astype(int) - orig.astype(int)).max(2)
    every = np.vstack([marks] + [m for m in moved if len(m)])
    ok = lonely(marks, every, 11.0) & (marks > 6).all(1) & (marks[:, 0] < w - 7) & (marks[:, 1] < h - 7)
    seen = []
    for i in np.flatnonzero(ok):
        x, y = int(marks[i, 0]), int(marks[i, 1])
        px = img[y:y + 2, x:x + 2].reshape(-1, 3).astype(float)
        changed = diff[y:y + 2, x:x + 2].min() > 12
        own = colours is not None and np.abs(px - colours[i]).max() < 60
        require(changed or own, "%s: no mark at (%.1f, %.1f), the picture has %s there", where, marks[i, 0], marks[i, 1], px.mean(0).round())
        seen.append(px.mean(0))
    # far from every mark the picture is the original
    far = np.ones((h, w), bool)
    for x, y in every[np.isfinite(every).all(1) & (np.abs(every) < 1e5).all(1)]:
        far[max(0, int(y) - 28):max(0, int(y) + 30), max(0, int(x) - 28):max(0, int(x) + 30)] = False
    if far.any():
        e = int((diff * far).max())
        y, x = np.unravel_index(int((diff * far).argmax()), diff.shape)
        require(e < 25, "%s: the picture differs by %d grey levels at (%d, %d), away from every mark", where, e, x, y)
    # and no mark sits elsewhere
    near = np.zeros((h, w), bool)
    for x, y in every[np.isfinite(every).all(1) & (np.abs(every) < 1e5).all(1)]:
        near[max(0, int(y) - 9):max(0, int(y) + 11), max(0, int(x) - 9):max(0, int(x) + 11)] = True
    e = int((diff * ~near).max())
    require(e < 100, "%s: the picture differs by %d grey levels more than nine pixels from every mark", where, e)
    return int(ok.sum()), seen


def files(root):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs) if os.path.isdir(root) else []


def run(ctx, c):
    try:
        sc = scene(c)
    except Unplaceable:
        raise Reject()
    rng = np.random.default_rng([c["seed"], 23])
    d, r = ctx.drv("drv_calib:rel"), ctx.drv("render:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    src, out = os.path.join(d.dir, "src"), os.path.join(d.dir, "out")
    for x in (src, out):
        shutil.rmtree(x, ignore_errors=True)
    mx, labels, judged = {}, set(), 0
    try:
        paths, there = {}, set()
        for k in sorted({k[:2] for k in sc.obs}):
            paths[k] = os.path.join(src, "c%d" % k[0], "p%04d.%s" % (k[1] * 7 % 4001 if c["names"] else k[1], ["png", "jpg", "bmp"][(k[0] + k[1]) % 3 if c["names"] else 0]))
            if rng.random() >= c["missing"]:
                there.add(k)
                paint(r, paths[k], sc.cams[k[0]], c["seed"] % 977 * 100 + k[0] * 31 + k[1])
        live.open_cfg(d, sc, ransac_threshold=100.0)
        t = c19.grouped(d, sc, rng, 0.0, paths=paths)
        c19.put(d, t, rng, {"stage": c["stage"]}, c["level"])
        D = d.json("dump")
        want = predicted(D)
        d.call("stage", 2, "saveDetectionImagesAllCam", "saveReprojectionImagesAllCam", timeout=120)
        D2 = d.json("dump")
        for k in ("obs", "objobs", "objects", "groups", "groupobs", "cams"):
            require([{a: b for a, b in e.items() if a != "ptr"} for e in D[k]] == [{a: b for a, b in e.items() if a != "ptr"} for e in D2[k]], "saving the pictures changed the calibration: %s", k)
        names = sorted("%s/%03d/%06d.jpg" % (q, *k) for k in there for q in ("Detection", "Reprojection"))
        got = [f for f in files(out) if f.startswith(("Detection", "Reprojection"))]
        require(got == names, "pictures written: %s; expected: %s", sorted(set(got) - set(names))[:5] or got[:5], sorted(set(names) - set(got))[:5] or names[:5])
        pick = [sorted(there)[i] for i in rng.permutation(len(there))[:4]]
        for k in pick:
            orig = pics.read(r, paths[k])
            det, rep = (pics.read(r, os.path.join(out, q, "%03d" % k[0], "%06d.jpg" % k[1])) for q in ("Detection", "Reprojection"))
            where = "camera %d, frame %d" % k
            for q, im in (("detection", det), ("reprojection", rep)):
                require(im is not None and im.shape == orig.shape, "%s: the %s picture measures %s, the original %s", where, q, None if im is None else im.shape, orig.shape)
            uv, pr, col = want[k]
            n, _ = judge(where + ", detection", det, orig, uv, col, [])
            judged += n
            n1, a = judge(where + ", reprojection, detected", rep, orig, uv, None, [pr])
            n2, b = judge(where + ", reprojection, predicted", rep, orig, pr, None, [uv])
            judged += n1 + n2
            if a and b:
                a, b = np.array(a), np.array(b)
                # detected and predicted points are told apart by colour
                require(np.abs(a - np.median(a, 0)).max() < 90 and np.abs(b - np.median(b, 0)).max() < 90, "%s: marks of one kind have different colours", where)
                require(np.abs(np.median(a, 0) - np.median(b, 0)).max() > 80, "%s: detected and predicted points have the same colour", where)
                labels.add("both kinds judged")
        labels |= set(rigs.labels(sc, c)) | {"missing pictures" if len(there) < len(paths) else "all pictures", "moved" if c["level"] else "exact"}
    finally:
        for x in (src, out):
            shutil.rmtree(x, ignore_errors=True)
    mx["marks"] = judged
    return {"nontrivial": judged > 0, "labels": sorted(labels), "max": mx}


def run_options(ctx, c):
    """the application with each combination of the two options"""
    try:
        sc = rigs.overlap(c)
    except Unplaceable:
        raise Reject()
    c = dict(c, det=c["which"] // 2, rep=c["which"] % 2)
    r = ctx.drv("render:rel")
    work = e2e.scratch("images")
    try:
        ks = sorted({k[:2] for k in sc.obs})
        for k in ks:
            paint(r, os.path.join(work, "src", "cam%d/f%06d.png" % k), sc.cams[k[0]], c["seed"] % 977 * 100 + k[0] * 31 + k[1])
        kp = sc.keypoints()
        for e in kp:
            e["frame_paths"] = [os.path.join(work, "src", p) for p in e["frame_paths"]]
        with open(os.path.join(work, "kp.yml"), "w") as f:
            f.write(cvyaml.dump_keypoints(kp))
        out = os.path.join(work, "out")
        cfg = e2e.base_config(sc, out, os.path.join(work, "kp.yml"), save_detection=int(c["det"]), save_reprojection=int(c["rep"]))
        q = e2e.run_app(ctx.exe("calibrate:rel"), cfg, work, c["seed"] % 1000, timeout=200)
        require(q.rc == 0, "the calibration ended with %s: %s", q.rc, q.err[-300:])
        got = [f for f in files(out) if not f.endswith(".yml")]
        names = sorted("%s/%03d/%06d.jpg" % (d, *k) for k in ks for d, on in (("Detection", c["det"]), ("Reprojection", c["rep"])) if on)
        require(got == names, "pictures written: %s; expected: %s", sorted(set(got) - set(names))[:5] or got[:5], sorted(set(names) - set(got))[:5] or names[:5])
        judged = 0
        for k in ks[:: max(1, len(ks) // 3)]:
            orig = pics.read(r, os.path.join(work, "src", "cam%d/f%06d.png" % k))
            uv = np.vstack([v[1] for q2, v in sc.obs.items() if q2[:2] == k]).astype(float)
            for name, on in (("Detection", c["det"]), ("Reprojection", c["rep"])):
                if not on:
                    continue
                im = pics.read(r, os.path.join(out, name, "%03d" % k[0], "%06d.jpg" % k[1]))
                require(im is not None and im.shape == orig.shape, "%s of camera %d, frame %d: picture of %s, original %s", name, *k, None if im is None else im.shape, orig.shape)
                # colours of objects are not known here: one that happens to match the picture is not judged
                if name == "Reprojection":
                    judged += judge("%s of camera %d, frame %d" % (name, *k), im, orig, uv, None, [])[0]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return {"nontrivial": bool(names), "labels": ["detection %d, reprojection %d" % (c["det"], c["rep"])] + rigs.labels(sc, c)}


def valid(c):
    if not (c["level"] in (0.0, 1.0, 2.0) and 0 <= c["missing"] <= 0.5 and c["models"] and set(c["models"]) <= {0, 1} and 1 <= c["boards"] <= 3 and c["per_edge"] >= 2 and c["solo"] >= 4):
        return False
    try:
        scene(c)
        return True
    except Unplaceable:
        return False


run.valid, run_options.valid = valid, rigs.overlap_valid
fields = rigs.overlap_fields(models=st.sampled_from([[0, 0], [0], [0, 1], [1, 0, 0], [1]]), per_edge=st.integers(2, 3), solo=st.integers(4, 5), level=st.sampled_from([1.0, 0.0, 2.0]), missing=st.sampled_from([0.0, 0.0, 0.3]), names=st.booleans(),
                             apart=st.booleans(), stage=st.sampled_from(["group", "group and objects", "group, objects and intrinsics"]))
small = rigs.overlap_fields(models=st.sampled_from([[0, 0], [0], [0, 1]]), per_edge=st.just(3), solo=st.just(8), boards=st.sampled_from([1, 2]), which=st.integers(0, 3))
PARTS = [Part("pictures", st.fixed_dictionaries(fields), run, 80, 1500, mode="pre", shrink_s=60),
         Part("options", st.fixed_dictionaries(small), run_options, 24, 200, mode="pre", shrink_s=60)]
