"""Ground-truth scenes: cameras, boards, motions, observations.

A scene is a pure function of a small JSON-able parameter dict (drawn by Hypothesis).
Conventions: cam["T"] maps rig coordinates to camera coordinates, B[b] maps board to object coordinates,
pose[(f, o)] maps object coordinates to rig coordinates.
"""
import numpy as np

from . import geom as G


class Unplaceable(Exception):
    """the drawn parameters admit no such placement (generator rejection, counted)"""


class Scene:
    def __init__(self):
        self.cams, self.boards, self.objs, self.B = [], [], [], {}
        self.pose = {}
        self.obs = {}      # (cam, frame, board) -> (ids list, float32 Nx2)
        self.truth_obs = {}
        self.meta = {}

    def board_pts(self, b):
        nx, ny, sq = self.boards[b]
        return np.array([[x * sq, y * sq, 0.0] for y in range(ny - 1) for x in range(nx - 1)])

    def board_center(self, b):
        nx, ny, sq = self.boards[b]
        return np.array([(nx - 2) / 2 * sq, (ny - 2) / 2 * sq, 0])

    def board_size(self, b):
        nx, ny, sq = self.boards[b]
        return float(np.hypot(nx - 2, ny - 2) * sq)

    def obj_of(self, b):
        for o, bs in enumerate(self.objs):
            if b in bs:
                return o
        raise KeyError(b)

    def cam_pts(self, c, f, b, pose=None):
        o = self.obj_of(b)
        X = self.pose[(f, o)] if pose is None else pose
        return G.apply_T(self.cams[c]["T"] @ X @ self.B[b], self.board_pts(b))

    def project(self, c, P):
        cam = self.cams[c]
        return G.project(P, cam["K"], cam["d"], cam["model"])

    def visible(self, c, b, X, margin=8, max_tilt=62.0):
        """all corners in view of camera c for object pose X (object->rig)?"""
        cam = self.cams[c]
        T = cam["T"] @ X @ self.B[b]
        P = G.apply_T(T, self.board_pts(b))
        if P[:, 2].min() <= 0.05 * self.board_size(b):
            return False
        n = T[:3, 2]
        ctr = G.apply_T(T, self.board_center(b)[None])[0]
        cosang = abs(n @ ctr) / np.linalg.norm(ctr)
        if cosang < np.cos(np.radians(max_tilt)):
            return False
        rad = np.linalg.norm(P[:, :2], axis=1) / P[:, 2]
        if cam["model"] == 0:
            if not brown_ok(cam["d"], rad.max()):
                return False
        else:
            if np.degrees(np.arctan(rad.max())) > 70:
                return False
        uv = self.project(c, P)
        mx = margin if cam["model"] == 0 else max(margin, 0.06 * cam["w"])
        my = margin if cam["model"] == 0 else max(margin, 0.06 * cam["h"])
        return bool((uv[:, 0] > mx).all() and (uv[:, 0] < cam["w"] - mx).all()
                    and (uv[:, 1] > my).all() and (uv[:, 1] < cam["h"] - my).all())

    def well_posed(self, c, b, X, min_tilt=12.0, min_px=0.12):
        """is the board large and tilted enough in camera c for its pose to be determined by one view?"""
        T = self.cams[c]["T"] @ X @ self.B[b]
        ctr = G.apply_T(T, self.board_center(b)[None])[0]
        if abs(T[:3, 2] @ ctr) / np.linalg.norm(ctr) > np.cos(np.radians(min_tilt)):
            return False
        uv = self.project(c, G.apply_T(T, self.board_pts(b)))
        return bool(np.linalg.norm(uv.max(0) - uv.min(0)) >= min_px * self.cams[c]["w"])

    def add_obs(self, c, f, b, ids=None):
        P = self.cam_pts(c, f, b)
        uv = self.project(c, P)
        if ids is None:
            ids = list(range(len(P)))
        self.obs[(c, f, b)] = (list(ids), uv[list(ids)].astype(np.float32))

    def frames(self):
        return sorted({k[1] for k in self.obs})

    def keypoints(self, order=None):
        """per-camera keypoint dicts; order: optional permutation function on each camera's key list"""
        out = []
        for c, cam in enumerate(self.cams):
            ks = sorted(k for k in self.obs if k[0] == c)
            ks.sort(key=lambda k: (k[1], k[2]))
            if order is not None:
                ks = order(c, ks)
            out.append({"img_width": cam["w"], "img_height": cam["h"],
                        "frame_idxs": [k[1] for k in ks],
                        "frame_paths": ["cam%d/f%06d.png" % (c, k[1]) for k in ks],
                        "board_idxs": [k[2] for k in ks],
                        "pts_2d": [self.obs[k][1] for k in ks],
                        "charuco_idxs": [self.obs[k][0] for k in ks]})
        return out

    def n_points(self):
        return sum(len(v[0]) for v in self.obs.values())


def brown_ok(d, rmax):
    k1, k2, p1, p2, k3 = d
    r = np.linspace(0, rmax * 1.1, 40)
    g = 1 + 3 * k1 * r ** 2 + 5 * k2 * r ** 4 + 7 * k3 * r ** 6
    return bool(g.min() > 0.35)


def make_camera(rng, model, w=None, h=None, fov=None, dist=1.0):
    w = w or int(rng.choice([640, 800, 1024, 1280, 1600]))
    h = h or int(w * rng.choice([0.5625, 0.75, 0.8, 1.0]))
    if model == 0:
        fov = fov or rng.uniform(45, 80)
        f = 0.5 * w / np.tan(np.radians(fov / 2))
        d = [rng.uniform(-0.25, 0.1), rng.uniform(-0.05, 0.1), rng.uniform(-2e-3, 2e-3),
             rng.uniform(-2e-3, 2e-3), rng.uniform(-0.02, 0.02)]
    else:
        fov = fov or rng.uniform(90, 130)
        f = 0.5 * w / np.radians(fov / 2)
        d = [rng.uniform(-0.04, 0.04), rng.uniform(-0.01, 0.01), rng.uniform(-0.004, 0.004),
             rng.uniform(-0.002, 0.002)]
    d = [x * dist for x in d]
    K = (f * rng.uniform(0.97, 1.03), f * rng.uniform(0.97, 1.03),
         w / 2 + rng.uniform(-0.03, 0.03) * w, h / 2 + rng.uniform(-0.03, 0.03) * h)
    return {"model": model, "w": w, "h": h, "K": tuple(float(x) for x in K), "d": [float(x) for x in d],
            "T": np.eye(4)}


def view_depth(cam, size, frac):
    """distance at which something of this size spans about frac of the smaller image side"""
    f = min(cam["K"][0] / cam["w"], cam["K"][1] / cam["h"])
    fpx = (cam["K"][0] + cam["K"][1]) / 2
    return fpx * size / (frac * min(cam["w"], cam["h"])) if f > 0 else 1.0


def place(sc, rng, board, cams, tilt=42.0, tries=400, frac=(0.35, 0.75), extra=None, spread=0.75):
    """object pose (object->rig) such that `board` is fully seen by all `cams`; extra(X) may add conditions"""
    c0 = cams[int(rng.integers(len(cams)))]
    cam = sc.cams[c0]
    size = sc.board_size(board)
    for _ in range(tries):
        depth = view_depth(cam, size, rng.uniform(*frac))
        u = cam["w"] * (0.5 + spread * rng.uniform(-0.5, 0.5))
        v = cam["h"] * (0.5 + spread * rng.uniform(-0.5, 0.5))
        x, y = (u - cam["K"][2]) / cam["K"][0], (v - cam["K"][3]) / cam["K"][1]
        if cam["model"] == 1:
            r = np.hypot(x, y)
            if r > 1e-9:
                th = min(r, np.radians(65))
                x, y = x / r * np.tan(th), y / r * np.tan(th)
        ray = np.array([x, y, 1.0])
        ray /= np.linalg.norm(ray)
        ctr = ray * depth
        # face the camera, then tilt about a random axis in the board plane, then roll
        z = ray
        a = np.array([1.0, 0, 0]) - z * z[0]
        a /= np.linalg.norm(a)
        b = np.cross(z, a)
        R0 = np.stack([a, b, z], 1)
        ax = rng.uniform(0, 2 * np.pi)
        ti = np.radians(rng.uniform(0, tilt))
        R = R0 @ G.rodrigues(ti * np.array([np.cos(ax), np.sin(ax), 0])) @ G.rodrigues([0, 0, rng.uniform(-np.pi, np.pi)])
        Tb = np.eye(4)
        Tb[:3, :3] = R
        Tb[:3, 3] = ctr - R @ sc.board_center(board)
        X = G.inv_T(cam["T"]) @ Tb @ G.inv_T(sc.B[board])
        if all(sc.visible(c, board, X) for c in cams) and (extra is None or extra(X)):
            return X
    raise Unplaceable("board %d cams %s" % (board, cams))


def subset_ids(rng, nx, ny, minfrac):
    """a non-collinear subset of corner numbers, as partial visibility produces"""
    n = (nx - 1) * (ny - 1)
    k = int(rng.integers(max(6, int(np.ceil(minfrac * n))), n + 1)) if n > 6 else n
    for _ in range(50):
        ids = sorted(rng.choice(n, size=min(k, n), replace=False).tolist())
        P = np.array([[i % (nx - 1), i // (nx - 1)] for i in ids], float)
        s = np.linalg.svd(P - P.mean(0), compute_uv=False)
        if s[1] > 1.2:
            return ids
    return list(range(n))


def overlap_rig(rng, models, layout, D):
    """cameras that all look at a common working volume at distance ~D"""
    n = len(models)
    cams = []
    for i, m in enumerate(models):
        cam = make_camera(rng, m)
        if layout == "row":
            eye = np.array([(i - (n - 1) / 2) * 0.16 * D, rng.uniform(-0.05, 0.05) * D, rng.uniform(-0.05, 0.05) * D])
        elif layout == "arc":
            a = np.radians((i - (n - 1) / 2) * min(28.0, 50.0 / max(1, n - 1)))
            eye = np.array([np.sin(a) * D, rng.uniform(-0.08, 0.08) * D, D - np.cos(a) * D])
        else:
            a = 2 * np.pi * i / n
            eye = np.array([np.cos(a) * 0.3 * D, np.sin(a) * 0.3 * D, rng.uniform(-0.05, 0.05) * D])
        tgt = np.array([rng.uniform(-0.06, 0.06) * D, rng.uniform(-0.06, 0.06) * D, D])
        roll = rng.uniform(-0.3, 0.3) if rng.uniform() < 0.7 else rng.uniform(-np.pi, np.pi)
        W = G.look_at(eye, tgt, roll)
        cam["T"] = G.inv_T(W)
        cams.append(cam)
    return cams


def tree_edges(rng, n, shape):
    if shape == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if shape == "star":
        return [(0, i) for i in range(1, n)]
    if shape == "full":
        return [(i, j) for i in range(n) for j in range(i + 1, n)]
    return [(int(rng.integers(0, i)), i) for i in range(1, n)]


def overlap_scene(p):
    """p: seed, models[list], layout, shape(cov graph), boards[[nx,ny,sq]], objs[[board idx]], per_edge (frames),
       solo (frames per camera), minfrac, frame_step, perm (relabel cameras)"""
    rng = np.random.default_rng([p["seed"], 11])
    sc = Scene()
    sc.boards = [tuple(b) for b in p["boards"]]
    sc.objs = [list(o) for o in p["objs"]]
    S = max(sc.board_size(b) for b in range(len(sc.boards)))
    D = p.get("depth", 2.6) * S
    cams = overlap_rig(rng, p["models"], p["layout"], D)
    n = len(cams)
    perm = list(range(n))
    if p.get("perm"):
        perm = [int(x) for x in np.random.default_rng([p["seed"], 12]).permutation(n)]
    sc.cams = cams
    place_boards(sc, rng, p)
    edges = [(perm[a], perm[b]) for a, b in (p["edges"] if "edges" in p else tree_edges(rng, n, p["shape"]))]
    sc.meta["edges"] = edges
    f = p.get("frame0", 0)
    step = p.get("frame_step", 1)
    # inter-camera frames: exactly the pair sees the board
    for (a, b) in edges:
        for k in range(p["per_edge"]):
            bd = int(rng.integers(len(sc.boards))) if not p.get("cycle_boards") else k % len(sc.boards)
            o = sc.obj_of(bd)
            X = place(sc, rng, bd, [a, b], spread=0.5, frac=(0.28, 0.6))
            sc.pose[(f, o)] = X
            see_object(sc, rng, f, o, [a, b], bd, p, X)
            f += step
    for c in range(n):
        for k in range(p["solo"]):
            bd = k % len(sc.boards)
            o = sc.obj_of(bd)
            X = place(sc, rng, bd, [c])
            sc.pose[(f, o)] = X
            see_object(sc, rng, f, o, [c], bd, p, X)
            f += step
    # inter-board frames: one camera sees two boards of an object
    for o, bs in enumerate(sc.objs):
        for li, (i, j) in enumerate(p.get("board_links", {}).get(str(o), [(k, k + 1) for k in range(len(bs) - 1)])):
            if p.get("link_kind", {}).get(str(o), [0] * len(bs))[li] == 1 and n > 1:
                # the two boards are only seen by two different cameras
                for k in range(p.get("per_link", 3)):
                    b1, b2 = bs[i], bs[j]
                    for attempt in range(20):
                        c, c2 = (int(x) for x in rng.choice(n, 2, replace=False))
                        try:
                            X = place(sc, rng, b1, [c], extra=lambda X: sc.visible(c2, b2, X, max_tilt=70) and sc.well_posed(c, b1, X) and sc.well_posed(c2, b2, X), frac=(0.2, 0.45), tries=300, spread=0.6)
                            break
                        except Unplaceable:
                            if attempt == 19:
                                raise
                    sc.pose[(f, o)] = X
                    sc.add_obs(c, f, b1)
                    sc.add_obs(c2, f, b2)
                    f += step
                continue
            for k in range(p.get("per_link", 3)):
                c = int(rng.integers(n))
                b1, b2 = bs[i], bs[j]
                X = place(sc, rng, b1, [c], extra=lambda X: sc.visible(c, b2, X, max_tilt=70) and sc.well_posed(c, b1, X) and sc.well_posed(c, b2, X), frac=(0.2, 0.45),
                          tries=1500, spread=0.6)
                sc.pose[(f, o)] = X
                for b in (b1, b2):
                    ids = subset_ids(rng, *sc.boards[b][:2], p.get("minfrac", 1.0)) if p.get("minfrac", 1.0) < 1 else None
                    sc.add_obs(c, f, b, ids)
                f += step
    add_noise(sc, p)
    return sc


def see_object(sc, rng, f, o, cams, bd, p, X):
    """the given cameras see board bd (and, when p["see_all"], every other board of the object in view)"""
    for c in cams:
        for b in sc.objs[o]:
            if b != bd and not (p.get("see_all") and sc.visible(c, b, X)):
                continue
            ids = None
            if p.get("minfrac", 1.0) < 1:
                ids = subset_ids(rng, *sc.boards[b][:2], p["minfrac"])
            sc.add_obs(c, f, b, ids)


def place_boards(sc, rng, p):
    """boards of one object side by side, folded at random angles (like faces of a calibration object)"""
    for o, bs in enumerate(sc.objs):
        T = np.eye(4)
        for k, b in enumerate(bs):
            if k > 0:
                pb = bs[k - 1]
                nx, ny, sq = sc.boards[pb]
                fold = G.rodrigues([0, np.radians(rng.uniform(-35, 35)), 0]) @ G.rodrigues([np.radians(rng.uniform(-15, 15)), 0, 0])
                J = np.eye(4)
                J[:3, :3] = fold @ G.rodrigues([0, 0, rng.uniform(-0.2, 0.2)])
                gap = rng.uniform(1.2, 1.8)
                J[:3, 3] = [(nx - 2 + gap) * sq, rng.uniform(-0.5, 0.5) * sq, rng.uniform(-0.5, 0.5) * sq]
                T = T @ J
            sc.B[b] = T.copy()


def add_noise(sc, p):
    s = p.get("noise", 0.0)
    sc.truth_obs = {k: (list(v[0]), v[1].copy()) for k, v in sc.obs.items()}
    if s:
        rng = np.random.default_rng([p["seed"], 13])
        for k in sorted(sc.obs):
            ids, uv = sc.obs[k]
            n = np.clip(rng.normal(size=uv.shape), -3, 3) * s
            sc.obs[k] = (ids, (uv + n).astype(np.float32))


def nonoverlap_scene(p):
    """Groups of cameras looking in different directions, each at its own object; all objects are fixed in the world
    while the rig moves.  p: seed, groups [[models]], boards per group, links (group graph edges), per_link frames,
    solo frames, pair frames (inside a group), he etc."""
    rng = np.random.default_rng([p["seed"], 21])
    sc = Scene()
    sc.boards = [tuple(b) for b in p["boards"]]
    sc.objs = [list(o) for o in p["objs"]]          # one object per group
    ng = len(p["groups"])
    place_boards(sc, rng, p)
    S = max(sc.board_size(b) for b in range(len(sc.boards)))
    gcam = []
    for g, models in enumerate(p["groups"]):
        cams = overlap_rig(rng, models, "row", 2.6 * S)
        # group frame: random direction
        ang = 2 * np.pi * g / ng + rng.uniform(-0.4, 0.4)
        Rg = G.rodrigues([0, ang, 0]) @ G.rand_R(rng, p.get("tilt_rig", 0.6))
        W = np.eye(4)
        W[:3, :3] = Rg
        W[:3, 3] = Rg @ np.array([0, 0, 0.6 * S]) + rng.uniform(-0.2, 0.2, 3) * S
        ids = []
        for cam in cams:
            cam["T"] = cam["T"] @ G.inv_T(W)
            ids.append(len(sc.cams))
            sc.cams.append(cam)
        gcam.append(ids)
    perm = list(range(len(sc.cams)))
    if p.get("perm"):
        perm = [int(x) for x in np.random.default_rng([p["seed"], 22]).permutation(len(perm))]
        new = [None] * len(perm)
        for i, j in enumerate(perm):
            new[j] = sc.cams[i]
        sc.cams = new
        gcam = [[perm[i] for i in ids] for ids in gcam]
    sc.meta["groups"] = gcam
    f = p.get("frame0", 0)
    # nominal pose of each object in the rig frame, chosen so that it is well inside its group's view
    nominal = []
    for g in range(ng):
        bd = sc.objs[g][0]
        nominal.append(place(sc, rng, bd, gcam[g], tilt=15, frac=(0.22, 0.32), spread=0.2, tries=1500))
    # frames inside a group and solo frames (intrinsics)
    for g in range(ng):
        o = g
        for i in range(len(gcam[g]) - 1):
            for k in range(p.get("pair", 4)):
                bd = sc.objs[g][int(rng.integers(len(sc.objs[g])))]
                X = place(sc, rng, bd, gcam[g][i:i + 2], spread=0.5, frac=(0.25, 0.6))
                sc.pose[(f, o)] = X
                see_object(sc, rng, f, o, gcam[g][i:i + 2], bd, p, X)
                f += 1
        for c in gcam[g]:
            for k in range(p["solo"]):
                bd = sc.objs[g][k % len(sc.objs[g])]
                X = place(sc, rng, bd, [c])
                sc.pose[(f, o)] = X
                see_object(sc, rng, f, o, [c], bd, p, X)
                f += 1
        bs = sc.objs[g]
        for i in range(len(bs) - 1):
            for k in range(p.get("per_blink", 3)):
                c = gcam[g][int(rng.integers(len(gcam[g])))]
                X = place(sc, rng, bs[i], [c], extra=lambda X: sc.visible(c, bs[i + 1], X, max_tilt=70),
                          frac=(0.2, 0.4), tries=1500, spread=0.6)
                sc.pose[(f, o)] = X
                sc.add_obs(c, f, bs[i])
                sc.add_obs(c, f, bs[i + 1])
                f += 1
    # linking frames: rig moves, both groups of the link see their objects
    sc.meta["link_frames"] = {}
    for li, (g1, g2) in enumerate(p["links"]):
        got = []
        nl = p["per_link"] if isinstance(p["per_link"], int) else p["per_link"][li]
        fails = 0
        while len(got) < nl:
            M = np.eye(4)
            M[:3, :3] = G.rand_R(rng, np.radians(p.get("max_rot", 28)))
            M[:3, 3] = rng.uniform(-0.35, 0.35, 3) * S
            Xs = {}
            ok = True
            seen = []
            for g in (g1, g2):
                X = M @ nominal[g]
                bd = sc.objs[g][0]
                vis = [c for c in gcam[g] if sc.visible(c, bd, X)]
                if not vis:
                    ok = False
                    break
                Xs[g] = X
                seen.append((g, bd, vis))
            if not ok:
                fails += 1
                if fails > 4000:
                    raise Unplaceable("link %s" % ((g1, g2),))
                continue
            for g, bd, vis in seen:
                sc.pose[(f, g)] = Xs[g]
                see_object(sc, rng, f, g, vis, bd, p, Xs[g])
            got.append(f)
            f += 1
        sc.meta["link_frames"][(g1, g2)] = got
    add_noise(sc, p)
    return sc


def rel_pose(sc, ref, c):
    """ground-truth pose matrix as exported: camera c in the frame of camera ref (cam c -> ref)"""
    return sc.cams[ref]["T"] @ G.inv_T(sc.cams[c]["T"])
