"""Runs the real calibration application on a generated keypoint file in a scratch folder."""
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

from . import cvyaml

SCRATCH = "/tmp/vp_scratch"


def scratch(prefix="run"):
    os.makedirs(SCRATCH, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + "_", dir=SCRATCH)


def base_config(sc, out, kp, **over):
    b0 = sc.boards[0]
    same = all(b == b0 for b in sc.boards)
    cfg = {
        "number_x_square": b0[0], "number_y_square": b0[1], "resolution_x": 600, "resolution_y": 600,
        "length_square": 0.04, "length_marker": 0.03, "number_board": len(sc.boards), "boards_index": [],
        "square_size": float(b0[2]),
        "number_x_square_per_board": [] if same else [b[0] for b in sc.boards],
        "number_y_square_per_board": [] if same else [b[1] for b in sc.boards],
        "square_size_per_board": [] if same else [float(b[2]) for b in sc.boards],
        "distortion_model": int(sc.cams[0]["model"]),
        "distortion_per_camera": [] if len({c["model"] for c in sc.cams}) == 1 else [int(c["model"]) for c in sc.cams],
        "number_camera": len(sc.cams), "refine_corner": 1, "min_perc_pts": 0.3, "cam_params_path": "None",
        "fix_intrinsic": 0, "root_path": out, "cam_prefix": "Cam_", "keypoints_path": kp,
        "quaternion_averaging": 1, "ransac_threshold": 10, "number_iterations": 1000, "he_approach": 0,
        "save_path": out, "save_detection": 0, "save_reprojection": 0, "camera_params_file_name": "",
    }
    cfg.update(over)
    return {k: v for k, v in cfg.items() if v is not None}


class Result:
    pass


def run_app(exe, cfg, workdir, rd_seed=0, timeout=120, env_extra=None, extra_files=None):
    cfgp = os.path.join(workdir, "config.yml")
    with open(cfgp, "w") as f:
        f.write(cvyaml.dump_flat(cfg))
    for n, t in (extra_files or {}).items():
        with open(os.path.join(workdir, n), "w") as f:
            f.write(t)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "VP_RD_SEED": str(rd_seed), "OPENCV_FOR_THREADS_NUM": "1",
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MALLOC_PERTURB_": "129", "HOME": workdir, "TMPDIR": workdir}
    env.update(env_extra or {})
    r = Result()
    try:
        p = subprocess.run([exe, cfgp], cwd=workdir, env=env, capture_output=True, timeout=timeout)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        r.timeout = False
    except subprocess.TimeoutExpired as e:
        r.rc, r.out, r.err, r.timeout = None, "", "", True
    return r


def calibrate(exe, sc, over=None, rd_seed=0, keypoints=None, keep=False, extra_files=None, timeout=150, env_extra=None):
    """returns Result with parsed outputs: cams, objects, poses, errors, keypoints, mean_error"""
    d = scratch()
    try:
        kp = os.path.join(d, "kp.yml")
        with open(kp, "w") as f:
            f.write(cvyaml.dump_keypoints(keypoints if keypoints is not None else sc.keypoints()))
        out = os.path.join(d, "out")
        over = dict(over or {})
        for k, v in list(over.items()):
            if isinstance(v, str) and v.startswith("@/"):
                over[k] = os.path.join(d, v[2:])
        cfg = base_config(sc, out, kp, **over)
        r = run_app(exe, cfg, d, rd_seed, timeout=timeout, extra_files=extra_files, env_extra=env_extra)
        r.cfg = cfg
        r.files = {}
        od = cfg["save_path"]
        if not os.path.isabs(od):
            od = os.path.join(d, od)
        r.names = []
        for root, _, fs in os.walk(od):
            for n in fs:
                r.names.append(os.path.relpath(os.path.join(root, n), od))
        r.names.sort()
        r.raw = {}
        r.parse_errors = {}
        for n in r.names:
            if n.endswith(".yml"):
                with open(os.path.join(od, n), encoding="utf8", errors="replace") as f:
                    r.raw[n] = f.read()
                try:
                    r.files[n] = cvyaml.parse(r.raw[n])
                except Exception as e:  # malformed output is itself an observation for the oracle
                    r.parse_errors[n] = repr(e)
        cn = cfg.get("camera_params_file_name") or "calibrated_cameras_data.yml"
        r.cams = r.files.get(cn)
        r.objects = r.files.get("calibrated_objects_data.yml")
        r.poses = r.files.get("calibrated_objects_pose_data.yml")
        r.errors = r.files.get("reprojection_error_data.yml")
        r.kps = r.files.get("detected_keypoints_data.yml")
        m = re.findall(r"mean reprojection error :: (\S+)", r.out + r.err)
        r.mean_error = None
        if m:
            try:
                r.mean_error = float(m[-1])
            except ValueError:
                r.mean_error = float("nan")
        r.dir = d if keep else None
        return r
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def cam_list(r):
    """{cam: dict(K, d, model, group, w, h, P)} from the camera file"""
    out = {}
    for k, v in (r.cams or {}).items():
        if k.startswith("camera_") and isinstance(v, dict):
            out[int(k[7:])] = {"K": np.asarray(v["camera_matrix"], float), "d": np.asarray(v["distortion_vector"], float).ravel(),
                               "model": v["distortion_type"], "group": v["camera_group"], "w": v["img_width"],
                               "h": v["img_height"], "P": np.asarray(v["camera_pose_matrix"], float)}
    return out
