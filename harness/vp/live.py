"""A Calibration held open in the calibration driver."""
import os

import numpy as np

from . import cvyaml, e2e
from .drv import lst, m
from .scene import Scene, make_camera


def K3(cam):
    fx, fy, cx, cy = cam["K"]
    return np.array([[fx, 0, cx], [0, fy, cy], [0, 0, 1.0]])


def open_cfg(d, sc, **over):
    """open a calibration configured for this scene (keypoints are inserted, not read)"""
    if d.p is None or d.p.poll() is not None:
        d.stop()
        d.start()
    p = os.path.join(d.dir, "c.yml")
    over.setdefault("keypoints_path", "None")
    with open(p, "w") as f:
        f.write(cvyaml.dump_flat(e2e.base_config(sc, os.path.join(d.dir, "out"), "None", **over)))
    d.call("open", p)
    d.opened = None


def minimal(ctx, boards=None, models=(0,), flavour="rel"):
    """a calibration with the given boards and camera models, reopened only when they change"""
    d = ctx.drv("drv_calib:" + flavour)
    boards = boards or [(5, 5, 1.0)]
    key = (tuple(map(tuple, boards)), tuple(models))
    if d.p is None or d.p.poll() is not None or getattr(d, "opened", None) != (d.p, key):
        sc = Scene()
        sc.boards = [tuple(b) for b in boards]
        rng = np.random.default_rng(0)
        sc.cams = [make_camera(rng, mo) for mo in models]
        open_cfg(d, sc)
        d.opened = (d.p, key)
    return d


def set_camera(d, c, cam):
    d.call("setcam", c, m(K3(cam)), "1", str(len(cam["d"])), m(np.array(cam["d"])))
    d.call("size", c, cam["w"], cam["h"])


def insert_scene(d, sc, order=None, paths=None):
    ks = sorted(sc.obs, key=lambda k: (k[0], k[1], k[2])) if order is None else order
    args = [len(ks)]
    for k in ks:
        ids, uv = sc.obs[k]
        args += [k[0], k[1], k[2], lst(list(ids)), lst(np.asarray(uv, float)), paths[k[:2]] if paths else "cam%d/f%06d.png" % (k[0], k[1])]
    d.call("insert", *args)
    for c, cam in enumerate(sc.cams):
        d.call("size", c, cam["w"], cam["h"])
    return ks
