"""C22: the board generator draws the boards the calibration detects."""
import os
import shutil
import subprocess

import numpy as np
from hypothesis import strategies as st

from vp import cvyaml, e2e, pics, strat as S
from vp.runner import Part, Reject, require

PROPERTY = "C22"
TECHNIQUE = "property-based testing (Hypothesis): round trip from generated configurations through the board generator into detection, and a differential against boards drawn by an independent renderer"
BUILD = ["drv_calib:rel", "generate_charuco:rel", "render:rel"]
RULE = "a case is non-trivial when at least two boards are generated; distinct by full description"
ASSUMPTIONS = ["pictures give at least five pixels to a marker module; all markers fit the dictionary of one thousand"]


def build(c):
    rng = np.random.default_rng([c["seed"], 22])
    n = c["boards"]
    if c["mixed"]:
        sizes = [(int(rng.integers(2, c["most"] + 1)), int(rng.integers(2, c["most"] + 1))) for _ in range(n)]
    else:
        sizes = [(int(rng.integers(2, c["most"] + 1)), int(rng.integers(2, c["most"] + 1)))] * n
    if c["mixed"] and c["grow"]:
        sizes.sort(key=lambda s: s[0] * s[1], reverse=c["grow"] == 2)
    if sum(len(pics.markers_of(*s)) for s in sizes) > 1000:
        raise Reject()
    # OpenCV's drawing rounds; resolutions that hold a whole number of pixels per square are exact ("neat")
    px = [int(np.ceil(c["module"] * 8 / c["ratio"])) for _ in sizes]
    if c["neat"] and c["each_res"]:
        res = []
        for (nx, ny), k in zip(sizes, px):
            k += int(rng.integers(0, 20))
            e = [0, 0]
            e[int(rng.integers(2))] = 2 * int(rng.integers(0, 40))
            res.append((20 + k * nx + e[0], 20 + k * ny + e[1]))
    elif c["neat"]:
        lx, ly = int(np.lcm.reduce([s[0] for s in sizes])), int(np.lcm.reduce([s[1] for s in sizes]))
        k = int(np.ceil(px[0] * max(max(s[0] for s in sizes) / lx, max(s[1] for s in sizes) / ly)))
        k += int(rng.integers(0, 20)) if lx == sizes[0][0] and ly == sizes[0][1] else 0
        res = [(20 + k * lx, 20 + k * ly)] * n
    else:
        need = [(22 + s[0] * k, 22 + s[1] * k) for s, k in zip(sizes, px)]
        res = [(x + int(rng.integers(0, 200)), y + int(rng.integers(0, 200))) for x, y in need]
        if not c["each_res"]:
            res = [(max(x for x, _ in res), max(y for _, y in res))] * n
    if sum(x * y for x, y in res) > 8e6:
        raise Reject()
    square = [float(np.float32(c["square"] * (1 + 0.3 * i))) for i in range(n)] if c["mixed"] else [c["square"]] * n
    subset = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]] if c["subset"] else list(range(n))
    return sizes, res, square, subset


def config(c, sizes, res, square, subset, root, save):
    mixed = c["mixed"]
    return {"number_x_square": sizes[0][0] if not mixed else 3, "number_y_square": sizes[0][1] if not mixed else 9, "resolution_x": res[0][0] if not c["each_res"] else 17, "resolution_y": res[0][1] if not c["each_res"] else 19,
            "length_square": c["length"], "length_marker": c["length"] * c["ratio"], "number_board": len(sizes), "boards_index": subset if c["subset"] else [], "square_size": square[0],
            "number_x_square_per_board": [s[0] for s in sizes] if mixed else [], "number_y_square_per_board": [s[1] for s in sizes] if mixed else [], "square_size_per_board": square if mixed else [],
            "resolution_x_per_board": [r[0] for r in res] if c["each_res"] else [], "resolution_y_per_board": [r[1] for r in res] if c["each_res"] else [],
            "distortion_model": 0, "distortion_per_camera": [], "number_camera": len(sizes), "refine_corner": 1, "min_perc_pts": 0.0, "cam_params_path": "None", "fix_intrinsic": 0, "root_path": root, "cam_prefix": "Cam_",
            "keypoints_path": "None", "quaternion_averaging": 1, "ransac_threshold": 10, "number_iterations": 1000, "he_approach": 0, "save_path": save, "save_detection": 0, "save_reprojection": 0, "camera_params_file_name": ""}


def run(ctx, c):
    sizes, res, square, subset = build(c)
    n = len(sizes)
    d, r = ctx.drv("drv_calib:rel"), ctx.drv("render:rel")
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    work = e2e.scratch("boards")
    mx, labels, kind = {}, set(), "px neat" if c["neat"] else "px"
    try:
        cfg = config(c, sizes, res, square, subset, os.path.join(work, "pics"), os.path.join(work, "out"))
        p = os.path.join(work, "c.yml")
        with open(p, "w") as f:
            f.write(cvyaml.dump_flat(cfg))
        if c["again"]:      # left over from an earlier run
            os.makedirs(os.path.join(work, "charuco_boards"))
            with open(os.path.join(work, "charuco_boards", "charuco_board_000.bmp"), "wb") as f:
                f.write(b"old")
        q = subprocess.run([ctx.exe("generate_charuco:rel"), p], cwd=work, capture_output=True, timeout=120)
        if q.returncode != 0 and not c["neat"] and b"OpenCV(" in q.stderr:
            raise Reject()
        require(q.returncode == 0, "the generator ended with %s: %s", q.returncode, q.stderr.decode("utf8", "replace")[-300:])
        names = sorted(os.listdir(os.path.join(work, "charuco_boards")))
        require(names == ["charuco_board_%03d.bmp" % i for i in range(n)], "files written: %s", names)
        ims = []
        for i in range(n):
            # board i shown to camera i, alone
            src = os.path.join(work, "charuco_boards", names[i])
            im = pics.read(r, src)
            require(im is not None, "%s is not a picture", names[i])
            require(im.shape[:2] == (res[i][1], res[i][0]), "%s measures %dx%d, configured %dx%d", names[i], im.shape[1], im.shape[0], *res[i])
            require((im[:, :, 0] == im[:, :, 1]).all() and (im[:, :, 0] == im[:, :, 2]).all(), "%s is coloured", names[i])
            ims.append(im[:, :, 0].astype(int))
            os.makedirs(os.path.join(work, "pics", "Cam_%03d" % (i + 1)))
            shutil.copy(src, os.path.join(work, "pics", "Cam_%03d" % (i + 1), "a.bmp"))
        d.call("open", p)
        d.opened = None
        d.call("stage", 1, "boardExtraction")
        D = d.json("dump")
        require(len(D["boards"]) == len(subset), "%d boards, configured %d", len(D["boards"]), len(subset))
        used = {}
        for e in D["boards"]:
            i = subset[e["id"]]
            nx, ny = sizes[i]
            require((e["nx"], e["ny"], e["nb"], e["idx"]) == (nx, ny, (nx - 1) * (ny - 1), e["id"]), "board %d has %dx%d squares, %d corners, number %d; configured %dx%d", e["id"], e["nx"], e["ny"], e["nb"], e["idx"], nx, ny)
            P = np.array([[x, y, 0] for y in range(ny - 1) for x in range(nx - 1)], float) * square[i]
            require(np.allclose(np.array(e["pts"], float).reshape(-1, 3), P, rtol=1e-6, atol=0), "board %d: corner positions %s..., expected %s...", e["id"], e["pts"][:4], P[:4])
            f = pics.first_id(sizes, i)
            require(e["markers"] == list(range(f, f + len(pics.markers_of(nx, ny)))), "board %d (configured as number %d) has markers %s", e["id"], i, e["markers"])
            for k in e["markers"]:
                require(used.setdefault(k, e["id"]) == e["id"], "marker %d belongs to boards %d and %d", k, used[k], e["id"])
        got = {}
        for o in D["obs"]:
            require(subset[o["board"]] == o["cam"] and o["frame"] == 0, "board %d is found in the picture of board %d", subset[o["board"]], o["cam"])
            got[o["cam"]] = o
        for i in range(n):
            nx, ny = sizes[i]
            nb = (nx - 1) * (ny - 1)
            if i not in subset:
                require(i not in got, "board %d is found but not configured", i)
            elif nb > 4 and nx > 2 and ny > 2:
                require(i in got, "board %d (%dx%d) is not found in its own picture", i, nx, ny)
            # the picture itself, against an independent drawing
            im = ims[i]
            w, h = res[i]
            sq = min((w - 20) / nx, (h - 20) / ny)      # ten pixels are left on each side
            mid = np.array([(w - 1 - sq * (nx - 2)) / 2, (h - 1 - sq * (ny - 2)) / 2])
            if i in got:
                o = got[i]
                require(sorted(o["ids"]) == list(range(nb)), "board %d: corners %s found in its own picture, it has %d", i, sorted(o["ids"]), nb)
                uv = np.array(o["pts"])[np.argsort(o["ids"])].reshape(ny - 1, nx - 1, 2)
                g = np.stack(np.meshgrid(np.arange(nx - 1), np.arange(ny - 1)), 2).reshape(-1, 2)
                A = np.column_stack([g, np.ones(len(g))])
                sol = np.linalg.lstsq(A, uv.reshape(-1, 2), rcond=None)[0]
                e = np.abs(A @ sol - uv.reshape(-1, 2)).max()
                mx[kind] = max(mx.get(kind, 0), float(e))
                require(e < (2.0 if c["neat"] else 5.0), "board %d: its corners are up to %.2f px off a regular grid", i, e)
                J = sol[:2]
                require(J[0, 0] > 0 and J[1, 1] > 0 and abs(J[0, 1]) + abs(J[1, 0]) < 0.02 * J[0, 0] and abs(J[1, 1] / J[0, 0] - 1) < 0.05, "board %d: corner grid steps %s and %s pixels", i, np.round(J[0], 3), np.round(J[1], 3))
                step = (J[0, 0] + J[1, 1]) / 2
                require(abs(step / sq - 1) < 0.06, "board %d: squares of %.2f px in a picture with room for %.2f", i, step, sq)
                e = np.abs(uv.reshape(-1, 2) - (mid + g * sq)).max()
                mx["at " + kind] = max(mx.get("at " + kind, 0), float(e))
                require(e < (2.5 if c["neat"] else 10.0), "board %d: corners up to %.2f px from the place of a board filling its picture", i, e)
            at, step = mid, sq
            # drawn frontally by a camera with one pixel per unit at distance one
            cam = {"model": 0, "w": w, "h": h, "K": (1.0, 1.0, 0.0, 0.0), "d": [0.0] * 5}
            T = np.eye(4)
            T[:3, 3] = [at[0], at[1], 1.0]
            s = pics.Shot((nx, ny), T, sq=float(step), ratio=c["ratio"], margin=0.0, first=pics.first_id(sizes, i))
            s.dark, s.light = 0.0, 255.0
            q2 = os.path.join(work, "mine.png")
            pics.draw(r, q2, cam, [s], level=255, amp=0, ss=3)
            mine = pics.read(r, q2)[:, :, 0].astype(int)
            # each square: the cells of its marker, read at their centres
            bad, cells_n = 0, 0
            for y in range(ny):
                for x in range(nx):
                    cells = np.array([(0.5, 0.5)] if (x + y) % 2 == 0 else [(0.5 + c["ratio"] * ((a + 0.5) / 8 - 0.5), 0.5 + c["ratio"] * ((b + 0.5) / 8 - 0.5)) for a in range(8) for b in range(8)])
                    if (x + y) % 2 == 1:
                        qz = (1 - c["ratio"]) / 4
                        cells = np.concatenate([cells, [(qz, 0.5), (1 - qz, 0.5), (0.5, qz), (0.5, 1 - qz)]])
                    px = at + (cells + [x - 1, y - 1]) * step
                    k = np.rint(px).astype(int)
                    k[:, 0], k[:, 1] = np.clip(k[:, 0], 0, w - 1), np.clip(k[:, 1], 0, h - 1)
                    cells_n += len(cells)
                    bad += int(((im[k[:, 1], k[:, 0]] < 128) != (mine[k[:, 1], k[:, 0]] < 128)).sum())
            mx["cells " + kind] = max(mx.get("cells " + kind, 0), bad / cells_n)
            require(bad <= 0.02 * cells_n, "board %d (%dx%d): %d of %d marker cells differ from the board with markers from %d on", i, nx, ny, bad, cells_n, s.first)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    labels |= {"%d boards" % n, "mixed sizes" if c["mixed"] else "one size", "own resolutions" if c["each_res"] else "one resolution", "neat" if c["neat"] else "any resolution", "subset" if c["subset"] else "all boards"}
    return {"nontrivial": n > 1, "labels": sorted(labels), "max": mx}


def run_refused(ctx, c):
    """wrong arguments: an error status and no picture"""
    work = e2e.scratch("boards")
    try:
        args = {"none": [], "missing": [os.path.join(work, "no.yml")], "folder": [work], "other": [os.path.join(work, c["name"])], "two": [os.path.join(work, "a.yml"), "b"]}[c["kind"]]
        with open(os.path.join(work, c["name"]), "w") as f:
            f.write("%YAML:1.0\nnumber_x_square: 5\n")
        if c["kind"] == "two":
            with open(os.path.join(work, "a.yml"), "w") as f:
                f.write(cvyaml.dump_flat({"number_x_square": 5, "number_y_square": 5, "length_square": 0.04, "length_marker": 0.03, "resolution_x": 400, "resolution_y": 400, "number_board": 1}))
        q = subprocess.run([ctx.exe("generate_charuco:rel")] + args, cwd=work, capture_output=True, timeout=60)
        require(q.returncode > 0, "the generator ended with %s", q.returncode)
        require(not os.path.exists(os.path.join(work, "charuco_boards")), "boards were written")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return {"nontrivial": False, "labels": [c["kind"]]}


def valid(c):
    try:
        build(c)
    except Reject:
        return False
    return c["boards"] >= 1 and c["module"] >= 5 and 0.55 <= c["ratio"] <= 0.78 and c["square"] > 0 and c["most"] >= 2


run.valid = valid
fields = {"seed": S.seeds, "boards": st.sampled_from([2, 3, 1, 5, 4, 8]), "mixed": st.booleans(), "most": st.sampled_from([6, 4, 9, 12]), "grow": st.integers(0, 2), "module": st.sampled_from([5, 6, 8]), "ratio": st.sampled_from([0.75, 0.6, 0.68]),
          "each_res": st.booleans(), "square": st.sampled_from([0.04, 1.0, 192.0, 0.2]), "length": st.sampled_from([0.04, 1.0, 192.0]), "subset": st.booleans(), "again": st.booleans(), "neat": st.sampled_from([True, True, False])}
PARTS = [Part("boards", st.fixed_dictionaries(fields), run, 180, 3000),
         Part("refused", st.fixed_dictionaries({"kind": st.sampled_from(["none", "missing", "folder", "other", "two"]), "name": st.sampled_from(["c.yaml", "c.txt", "yml", "c.yml.bak"])}), run_refused, 24, 100)]
