"""Judges the files written by the application against the scene that produced its observations."""
import numpy as np

from . import e2e, geom as G
from .runner import require

CAM = "calibrated_cameras_data.yml"
FILES = ["calibrated_objects_data.yml", "calibrated_objects_pose_data.yml", "detected_keypoints_data.yml", "reprojection_error_data.yml"]


def ran(r, camfile=CAM):
    require(not r.timeout, "the calibration did not end in time")
    require(r.rc == 0, "the calibration ended with status %s: %s", r.rc, (r.err or r.out)[-300:].replace("\n", " | "))
    require(not r.parse_errors, "malformed output: %s", r.parse_errors)
    for n in FILES + [camfile]:
        require(n in r.files, "%s was not written", n)


def groups(r):
    g = {}
    for c, d in e2e.cam_list(r).items():
        g.setdefault(d["group"], []).append(c)
    return {k: sorted(v) for k, v in g.items()}


def rigid(P):
    R = P[:3, :3]
    return np.abs(R @ R.T - np.eye(3)).max() < 1e-6 and np.linalg.det(R) > 0 and np.abs(P[3] - [0, 0, 0, 1]).max() < 1e-12


class Tol:
    def __init__(self, px=0.02, rot=0.01, t=1e-4, obj=1e-4, err=1e-3, k=1e-4):
        self.px, self.rot, self.t, self.obj, self.err, self.k = px, rot, t, obj, err, k


def scale_of(sc):
    return max(sc.board_size(b) for b in range(len(sc.boards)))


def partition(r, expected):
    got = sorted(groups(r).values())
    exp = sorted(sorted(g) for g in expected)
    require(got == exp, "camera groups are %s, expected %s", got, exp)
    require(sorted(groups(r)) == list(range(len(exp))), "camera groups are numbered %s", sorted(groups(r)))


def header(sc, r):
    require(r.cams.get("nb_camera") == len(sc.cams), "nb_camera is %s, the rig has %d", r.cams.get("nb_camera"), len(sc.cams))
    for c, e in e2e.cam_list(r).items():
        cam = sc.cams[c]
        require((e["w"], e["h"]) == (cam["w"], cam["h"]), "camera %d: image size %s, should be %s", c, (e["w"], e["h"]), (cam["w"], cam["h"]))
        require(e["model"] == cam["model"], "camera %d: distortion type %s, should be %s", c, e["model"], cam["model"])
        n = 5 if cam["model"] == 0 else 4
        require(e["d"].shape == (n,), "camera %d: %d distortion coefficients, should be %d", c, e["d"].size, n)
        K = e["K"]
        require(K.shape == (3, 3) and np.isfinite(K).all() and K[0, 1] == 0 and K[1, 0] == 0 and (K[2] == [0, 0, 1]).all(),
                "camera %d: malformed camera matrix %s", c, K.tolist())
        require(e["P"].shape == (4, 4) and np.isfinite(e["P"]).all() and rigid(e["P"]), "camera %d: the pose is not a rigid motion: %s", c, e["P"].tolist())


def intrinsics(sc, r, tol, cams=None, mx=None):
    """the saved model projects the observed directions to the true image positions"""
    mx = {} if mx is None else mx
    for c, e in e2e.cam_list(r).items():
        if cams is not None and c not in cams:
            continue
        cam = sc.cams[c]
        P = [sc.cam_pts(c, f, b)[np.asarray(sc.truth_obs[(c, f, b)][0], int)] for (cc, f, b) in sc.obs if cc == c]
        if not P:
            continue
        P = np.vstack(P)
        k = (e["K"][0, 0], e["K"][1, 1], e["K"][0, 2], e["K"][1, 2])
        d = np.linalg.norm(G.project(P, k, e["d"], cam["model"]) - G.project(P, cam["K"], cam["d"], cam["model"]), axis=1)
        fk = max(abs(k[0] / cam["K"][0] - 1), abs(k[1] / cam["K"][1] - 1), abs(k[2] - cam["K"][2]) / cam["K"][0], abs(k[3] - cam["K"][3]) / cam["K"][0])
        mx["px"] = max(mx.get("px", 0), float(d.max()))
        mx["K"] = max(mx.get("K", 0), float(fk))
        require(d.max() < tol.px, "camera %d: saved intrinsics %s %s move observed points by up to %.4g px (true %s %s)", c, np.round(k, 4), np.round(e["d"], 6), d.max(),
                np.round(cam["K"], 4), np.round(cam["d"], 6))
        require(fk < tol.k, "camera %d: camera matrix %s, true %s", c, np.round(k, 4), np.round(cam["K"], 4))


def poses(sc, r, tol, mx=None, scale=None):
    mx = {} if mx is None else mx
    S = scale or scale_of(sc)
    L = e2e.cam_list(r)
    for g, cs in groups(r).items():
        ref = min(cs)
        for c in cs:
            P, T = L[c]["P"], G_rel(sc, ref, c)
            if c == ref:
                require(np.abs(P - np.eye(4)).max() < 1e-9, "camera %d is the reference of its group but has pose %s", c, P.tolist())
            a = np.degrees(G.rot_angle(P[:3, :3].T @ T[:3, :3]))
            t = np.linalg.norm(P[:3, 3] - T[:3, 3]) / S
            mx["rot deg"], mx["trans"] = max(mx.get("rot deg", 0), float(a)), max(mx.get("trans", 0), float(t))
            require(a < tol.rot and t < tol.t, "camera %d relative to camera %d: rotation off by %.4g deg, translation by %.4g of the board size", c, ref, a, t)


def G_rel(sc, ref, c):
    return sc.cams[ref]["T"] @ G.inv_T(sc.cams[c]["T"])


def objects_of(r):
    """{object number: 5xN array}"""
    return {int(k[7:]): np.asarray(v["points"], float) for k, v in (r.objects or {}).items() if k.startswith("object_")}


def objects(sc, r, expected, tol, mx=None):
    """expected: list of board sets"""
    mx = {} if mx is None else mx
    O = objects_of(r)
    exp = sorted(sorted(g) for g in expected)
    for o, A in O.items():
        require(A.ndim == 2 and A.shape[0] == 5 and np.isfinite(A).all(), "object %d: malformed point list %s", o, A.shape)
    got = sorted(sorted({int(b) for b in A[3]}) for A in O.values())
    require(got == exp, "objects consist of boards %s, expected %s", got, exp)
    require(sorted(O) == list(range(len(exp))), "objects are numbered %s", sorted(O))
    for o, A in O.items():
        bs = sorted({int(b) for b in A[3]})
        keys = [(int(b), int(i)) for b, i in zip(A[3], A[4])]
        want = [(b, i) for b in bs for i in range(len(sc.board_pts(b)))]
        require(sorted(keys) == want, "object %d lists corners %s..., expected every corner of boards %s once", o, sorted(keys)[:5], bs)
        ref = bs[0]
        X = np.array([A[:3, n] for n in range(A.shape[1])])
        T = np.array([G.apply_T(G.inv_T(sc.B[ref]) @ sc.B[b], sc.board_pts(b)[i:i + 1])[0] for b, i in keys])
        isref = np.array([b == ref for b, _ in keys])
        require(np.abs(X - T)[isref].max() < 1e-5 * np.abs(T).max(), "object %d: the corners of its reference board %d moved by %g", o, ref, np.abs(X - T)[isref].max())
        e = float(np.linalg.norm(X - T, axis=1).max() / scale_of(sc))
        mx["structure"] = max(mx.get("structure", 0), e)
        n = int(np.argmax(np.linalg.norm(X - T, axis=1)))
        require(e < tol.obj, "object %d: corner %s is at %s, true %s", o, keys[n], X[n], T[n])


def object_poses(sc, r, tol, mx=None):
    """every saved pose is the true pose, relative to a reference camera, of that object in one frame; every frame is there"""
    mx = {} if mx is None else mx
    O = objects_of(r)
    S = scale_of(sc)
    for o, A in O.items():
        bs = sorted({int(b) for b in A[3]})
        M = np.asarray(r.poses["object_%d" % o]["poses"], float)
        require(M.shape[0] == 6 and np.isfinite(M).all(), "object %d: malformed poses", o)
        truth = []
        for g, cs in groups(r).items():
            ref = min(cs)
            for f in sorted({k[1] for k in sc.obs if k[0] in cs and k[2] in bs}):
                T = sc.cams[ref]["T"] @ sc.pose[(f, sc.obj_of(bs[0]))] @ sc.B[bs[0]]
                truth.append((ref, f, T))
        R = [G.rodrigues(M[:3, n]) for n in range(M.shape[1])]
        TR = np.array([x[2][:3, :3] for x in truth])
        Tt = np.array([x[2][:3, 3] for x in truth])
        best = np.full(len(truth), np.inf)
        for n in range(M.shape[1]):
            a = np.degrees(np.arccos(np.clip((np.einsum("kij,ij->k", TR, R[n]) - 1) / 2, -1, 1)))
            a = np.where(a < 0.1, np.degrees(np.linalg.norm(TR - R[n], axis=(1, 2)) / np.sqrt(2)), a)
            d = np.maximum(a / tol.rot, np.linalg.norm(Tt - M[3:, n], axis=1) / S / tol.t)
            best = np.minimum(best, d)
            k = int(np.argmin(d))
            require(d[k] < 1, "object %d: pose %d (%s) is no true pose relative to a reference camera (closest: frame %d, camera %d)", o, n,
                    np.round(M[:, n], 4), truth[k][1], truth[k][0])
        k = int(np.argmax(best))
        require(best[k] < 1, "object %d: no saved pose for frame %d relative to camera %d", o, truth[k][1], truth[k][0])
        mx["object pose / tolerance"] = max(mx.get("object pose / tolerance", 0), float(best.max()))


def mean_error(r, lo, hi):
    require(r.mean_error is not None, "no mean reprojection error was reported")
    require(np.isfinite(r.mean_error) and lo <= r.mean_error < hi, "the reported mean reprojection error is %s", r.mean_error)


def error_entries(r):
    """[(group, frame, camera, nb_pts, errors)] of the error log"""
    out = []
    for g, G_ in (r.errors or {}).items():
        if not g.startswith("camera_group_"):
            continue
        for f, F in G_.items():
            if not f.startswith("frame_") or not isinstance(F, dict):
                continue
            for c, C in F.items():
                if c.startswith("camera_") and isinstance(C, dict):
                    out.append((int(g[13:]), int(f[6:]), int(c[7:]), C["nb_pts"], np.asarray(C["error_list"], float).ravel()))
    return out


def error_values(r):
    e = [x[4] for x in error_entries(r)]
    return np.concatenate(e) if e else np.zeros(0)


def kept_points(sc, r):
    """{(cam, frame, board): {corner: saved position}} of the saved keypoint file (the corners the run kept)"""
    out = {}
    for c in range(len(sc.cams)):
        k = (r.kps or {}).get("camera_%d" % c)
        if not isinstance(k, dict):
            continue
        F, B, ID, P = (k.get(n) for n in ("frame_idxs", "board_idxs", "charuco_idxs", "pts_2d"))
        for f, b, ids, pts in zip(F, B, ID, P):
            ids = [int(x) for x in ids]
            pts = np.asarray(pts, float).reshape(-1, 2)
            require(len(ids) == len(pts), "keypoint file: camera %d frame %s board %s has %d corner numbers and %d points", c, f, b, len(ids), len(pts))
            require(len(set(ids)) == len(ids), "keypoint file: camera %d frame %s board %s repeats a corner", c, f, b)
            key = (c, int(f), int(b))
            require(key not in out, "keypoint file: observation %s is listed twice", key)
            out[key] = dict(zip(ids, pts))
    return out
