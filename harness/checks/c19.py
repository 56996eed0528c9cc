"""C19: every refinement stage lowers its robust cost, keeps the gauge and finds back the truth."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, judge as J, live, optim, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C19"
TECHNIQUE = "property-based testing (Hypothesis): generated rigs put into a generated state of the real calibration object, one refinement stage run on it; oracle is an independent model of the stage's robust cost, and the generating scene"
BUILD = ["drv_calib:rel"]
RULE = "a case is non-trivial when the stage had something to change (the cost differs before and after, or the start was already optimal by construction); distinct by full description"
ASSUMPTIONS = ["start states are within a few degrees and a few percent of the truth; up to a tenth of the corners are wrong",
               "the state is set through the public members of the library's own data structures"]
STAGES = ["camera", "object", "group", "group and objects", "group, objects and intrinsics"]
ALL = {"camera": "refineIntrinsicAndPoseAllCam", "object": "refineAllObject3D", "group": "refineAllCameraGroup",
       "group and objects": "refineAllCameraGroupAndObjects", "group, objects and intrinsics": "refineAllCameraGroupAndObjectsAndIntrinsic"}


def scene(c):
    if c["rig"] == "overlap":
        nb = c["boards"]
        objs = [[b] for b in range(nb)] if c["apart"] else [list(range(nb))]
        return rigs.overlap(c, objs=objs, link_kind={str(o): [0] * len(b) for o, b in enumerate(objs)}, see_all=True)
    return rigs.nonoverlap(c)


def valid(c):
    if not (c["level"] in (0, 0.3, 1.0) and 0 <= c["outliers"] <= 0.1 and c["it"] in (0, 1, 3, 300) and 0 <= c["noise"] <= 0.5 and c["models"] and set(c["models"]) <= {0, 1}
            and 0 <= c["invalid"] <= 0.1 and c["solo"] >= 4):
        return False
    if c["rig"] == "overlap" and not (1 <= c["boards"] <= 4 and c["per_edge"] >= 2):
        return False
    try:
        scene(c)
        return True
    except Unplaceable:
        return False


class Truth:
    """the true state in the terms of the library's own grouping"""

    def __init__(self, sc, D):
        self.sc, self.D = sc, D
        self.obs = {o["key"]: (o["cam"], o["frame"], o["board"]) for o in D["obs"]}
        self.board = {k: sc.cams[c]["T"] @ sc.pose[(f, sc.obj_of(b))] @ sc.B[b] for k, (c, f, b) in self.obs.items()}
        self.ref = {o["id"]: o["ref"] for o in D["objects"]}
        self.rel = {(o["id"], b): G.inv_T(sc.B[o["ref"]]) @ sc.B[b] for o in D["objects"] for b in o["boards"]}
        self.objobs = {o["key"]: sc.cams[o["cam"]]["T"] @ self.obj(o["obj"], o["frame"]) for o in D["objobs"]}
        self.gref = {g["id"]: g["ref"] for g in D["groups"]}
        self.cam = {(g["id"], c): sc.cams[c]["T"] @ G.inv_T(sc.cams[g["ref"]]["T"]) for g in D["groups"] for c in g["cams"]}
        self.gobj = {(g["group"], g["frame"], o): sc.cams[self.gref[g["group"]]]["T"] @ self.obj(o, g["frame"]) for g in D["groupobs"] for o in set(g["visobj"])}

    def obj(self, o, f):
        b = self.ref[o]
        return self.sc.pose[(f, self.sc.obj_of(b))] @ self.sc.B[b]


def shake(rng, T, centre, lv):
    """T followed by a small motion about the (transformed) centre"""
    p = G.apply_T(T, centre[None])[0]
    a = rng.normal(size=3)
    R = G.rodrigues(a / np.linalg.norm(a) * np.radians(3.0) * lv * rng.uniform(0.3, 1))
    Q = np.eye(4)
    Q[:3, :3] = R
    Q[:3, 3] = p - R @ p + rng.uniform(-1, 1, 3) * 0.02 * lv * np.linalg.norm(p)
    return Q @ T


def corners(D, sc, valid_only=True):
    """[(cam, frame, board, ids, uv, key)] per board observation"""
    return [(o["cam"], o["frame"], o["board"], o["ids"], np.array(o["pts"], float).reshape(-1, 2), o["key"]) for o in D["obs"] if o["valid"] or not valid_only]


def cam_of(D, c):
    e = next(x for x in D["cams"] if x["id"] == c)
    v = np.array(e["intr"], float)
    if e["model"] == 0:
        return tuple(v[:4]), v[4:9], 0
    return tuple(v[:4]), v[4:8], 1


def costs(D, sc):
    """robust cost of every stage's unit in the dumped state, and the mean residual"""
    cam = {x["id"]: cam_of(D, x["id"]) for x in D["cams"]}
    obj = {o["id"]: o for o in D["objects"]}
    rel = {o["id"]: {b: G.T_of(p[:3], p[3:]) for b, p in o["poses"]} for o in D["objects"]}
    o2b = {o["id"]: [tuple(x) for x in o["o2b"]] for o in D["objects"]}
    O = {o["key"]: o for o in D["obs"]}
    pt = {b: sc.board_pts(b) for b in range(len(sc.boards))}
    out = {}

    def add(key, c, P, uv):
        n = np.linalg.norm(G.project(P, *cam[c]) - uv, axis=1)
        s = out.setdefault(key, [0.0, []])
        s[0] += float(optim.huber(n).sum())
        s[1].extend(n.tolist())
    for c, f, b, ids, uv, k in corners(D, sc):
        p = O[k]["pose"]
        add(("camera", c), c, G.apply_T(G.T_of(p[:3], p[3:]), pt[b][ids]), uv)
    by = {(o["cam"], o["frame"], o["board"]): o for o in D["obs"]}
    for oo in D["objobs"]:
        T = G.T_of(oo["pose"][:3], oo["pose"][3:])
        for b in oo["boardids"]:
            o = by[(oo["cam"], oo["frame"], b)]
            if o["valid"]:
                add(("object", oo["obj"]), oo["cam"], G.apply_T(T @ rel[oo["obj"]][b], pt[b][o["ids"]]), np.array(o["pts"], float).reshape(-1, 2))
    gcam = {(g["id"], c): G.T_of(p[:3], p[3:]) for g in D["groups"] for c, p in g["poses"]}
    gobj = {(g["group"], g["frame"], o): G.T_of(p[:3], p[3:]) for g in D["groupobs"] for o, p in g["poses"]}
    group_of = {c: g["id"] for g in D["groups"] for c in g["cams"]}
    for oo in D["objobs"]:
        g, ob = group_of[oo["cam"]], oo["obj"]
        T = gcam[(g, oo["cam"])] @ gobj[(g, oo["frame"], ob)]
        uv = np.array(oo["pts"], float).reshape(-1, 2)
        add(("group", g), oo["cam"], G.apply_T(T, np.array(obj[ob]["pts"], float)[oo["ids"]]), uv)
        P = np.array([G.apply_T(rel[ob][b], pt[b][i:i + 1])[0] for b, i in (o2b[ob][k] for k in oo["ids"])])
        add(("group and objects", g), oo["cam"], G.apply_T(T, P), uv)
    for k in list(out):
        if k[0] == "group and objects":
            out[("group, objects and intrinsics", k[1])] = out[k]
    return out


def put(d, t, rng, c, level):
    """write the (perturbed) truth into the calibration: only what the chosen stage optimises is perturbed"""
    sc, D, s = t.sc, t.D, c["stage"]
    lv = {k: 0.0 for k in ("board", "objobs", "rel", "cam", "gobj", "intr")}
    for k in {"camera": ["board", "intr"], "object": ["objobs", "rel"], "group": ["cam", "gobj"], "group and objects": ["cam", "gobj", "rel"],
              "group, objects and intrinsics": ["cam", "gobj", "rel", "intr"]}[s]:
        lv[k] = level
    for k, T in t.board.items():
        b = t.obs[k][2]
        d.call("setobspose", k, six(shake(rng, T, sc.board_center(b), lv["board"]) if lv["board"] else T))
    for (o, b), T in t.rel.items():
        if b != t.ref[o]:
            d.call("setobjboard", o, b, six(shake(rng, T, sc.board_center(b), lv["rel"]) if lv["rel"] else T))
    for e in D["objobs"]:
        T = t.objobs[e["key"]]
        d.call("setobjobspose", e["key"], six(shake(rng, T, sc.board_center(t.ref[e["obj"]]), lv["objobs"]) if lv["objobs"] else T))
    for (g, f, o), T in t.gobj.items():
        d.call("setgroupobj", g, f, o, six(shake(rng, T, sc.board_center(t.ref[o]), lv["gobj"]) if lv["gobj"] else T))
    for (g, k), T in t.cam.items():
        if k != t.gref[g]:
            # turn the camera about what it looks at
            p = np.mean([t.objobs[e["key"]][:3, 3] for e in D["objobs"] if e["cam"] == k], axis=0)
            d.call("setgroupcam", g, k, six(shake(rng, T, G.apply_T(G.inv_T(T), p[None])[0], lv["cam"]) if lv["cam"] else T))
    for k, cam in enumerate(sc.cams):
        cam = dict(cam)
        if lv["intr"]:
            K = np.array(cam["K"])
            K[:2] *= 1 + 0.01 * lv["intr"] * rng.uniform(-1, 1, 2)
            K[2:] += 5 * lv["intr"] * rng.uniform(-1, 1, 2)
            cam["K"], cam["d"] = tuple(K), [x + 0.01 * lv["intr"] * rng.uniform(-1, 1) * (0.1 if i in (2, 3) and cam["model"] == 0 else 1) for i, x in enumerate(cam["d"])]
        live.set_camera(d, k, cam)
    d.call("updateobjobs")


def six(T):
    return " ".join(repr(float(x)) for x in G.vec_of(T))


def frozen(D, s):
    """everything the stage must leave exactly as it was"""
    out = {"boards": [(b["id"], b["pts"], b["ptsidx"]) for b in D["boards"]],
           "views": [(o["cam"], o["frame"], o["board"], o["ids"], o["pts"], o["valid"]) for o in D["obs"]],
           "object observations": [(o["cam"], o["frame"], o["obj"], o["ids"], o["pts"], o["boardids"]) for o in D["objobs"]],
           "reference camera pose": [(g["id"], [p for c, p in g["poses"] if c == g["ref"]]) for g in D["groups"]],
           "reference board pose": [(o["id"], [p for b, p in o["poses"] if b == o["ref"]]) for o in D["objects"]],
           "members of objects": [(o["id"], o["ref"], o["boards"], o["o2b"]) for o in D["objects"]],
           "members of groups": [(g["id"], g["ref"], g["cams"]) for g in D["groups"]]}
    if s not in ("camera", "group, objects and intrinsics"):
        out["intrinsics"] = [(x["id"], x["intr"]) for x in D["cams"]]
    else:
        out["models"] = [(x["id"], x["model"], x["intr"][8:] if x["model"] else []) for x in D["cams"]]
    if s != "camera":
        out["board view poses"] = [(o["key"], o["pose"]) for o in D["obs"]]
    if s != "object":
        out["object view poses"] = [(o["key"], o["pose"]) for o in D["objobs"]]
    if s in ("camera", "object"):
        out["camera poses"] = [(g["id"], g["poses"]) for g in D["groups"]]
        out["object poses in groups"] = [(g["group"], g["frame"], g["poses"]) for g in D["groupobs"]]
    if s in ("camera", "group"):
        out["structure of the objects"] = [(o["id"], o["poses"], o["pts"]) for o in D["objects"]]
    return out


def grouped(d, sc, rng, invalid=0.0, paths=None):
    """fill an open calibration with the scene and group it by the true poses"""
    live.insert_scene(d, sc, paths=paths)
    for k, cam in enumerate(sc.cams):
        live.set_camera(d, k, cam)
    D = d.json("dump")
    for o in D["obs"]:
        k = (o["cam"], o["frame"], o["board"])
        d.call("setobspose", o["key"], six(sc.cams[k[0]]["T"] @ sc.pose[(k[1], sc.obj_of(k[2]))] @ sc.B[k[2]]))
        d.call("setobsvalid", o["key"], int(rng.random() >= invalid))
    st1 = ["computeBoardsPairPose", "interBoards", "initInterBoardsGraph", "init3DObjects", "initAll3DObjectObs"]
    d.call("stage", str(len(st1)), *st1)
    D = d.json("dump")
    # object poses of the views from the truth, then the camera groups
    ref = {o["id"]: o["ref"] for o in D["objects"]}
    for e in D["objobs"]:
        b = ref[e["obj"]]
        d.call("setobjobspose", e["key"], six(sc.cams[e["cam"]]["T"] @ sc.pose[(e["frame"], sc.obj_of(b))] @ sc.B[b]))
    st2 = ["computeCamerasPairPose", "interCams", "initInterCamerasGraph", "initCameraGroup", "initAllCameraGroupObs", "computeAllObjPoseInCameraGroup"]
    d.call("stage", str(len(st2)), *st2)
    return Truth(sc, d.json("dump"))


def run(ctx, c):
    try:
        sc = scene(c)
    except Unplaceable:
        raise Reject()
    rng = np.random.default_rng([c["seed"], 31])
    if c["outliers"]:
        for k in sorted(sc.obs):
            ids, uv = sc.obs[k]
            w = rng.random(len(ids)) < c["outliers"]
            a = rng.uniform(0, 2 * np.pi, len(ids))
            sc.obs[k] = (ids, (uv + (w * rng.uniform(10, 60, len(ids)))[:, None] * np.stack([np.cos(a), np.sin(a)], 1)).astype(np.float32))
    d = ctx.drv("drv_calib:rel")
    live.open_cfg(d, sc, quaternion_averaging=1, ransac_threshold=100.0, number_iterations=c["it"])
    t = grouped(d, sc, rng, c["invalid"])
    put(d, t, rng, c, 0.0)
    true = costs(d.json("dump"), sc)
    put(d, t, rng, c, c["level"])
    D0 = d.json("dump")
    a = costs(D0, sc)
    units = sorted(k for k in a if k[0] == c["stage"])
    if c["all"]:
        d.call("stage", "1", ALL[c["stage"]], timeout=120)
    else:
        pick = units[c["seed"] % len(units)]
        s = c["stage"]
        if s == "camera":
            d.call("refinecam", pick[1], c["it"], timeout=120)
        elif s == "object":
            d.call("refineobj", pick[1], c["it"], timeout=120)
        else:
            d.call("refinegroup", pick[1], STAGES.index(s) - 2, c["it"], timeout=120)
    D1 = d.json("dump")
    b = costs(D1, sc)
    f0, f1 = frozen(D0, c["stage"]), frozen(D1, c["stage"])
    for k in f0:
        require(f0[k] == f1[k], "refinement of %s changed: %s", c["stage"], k)
    for g in D1["groups"]:
        p = dict((x, y) for x, y in g["poses"])[g["ref"]]
        require(max(map(abs, p)) == 0, "reference camera %d of group %d moved to %s", g["ref"], g["id"], p)
    for o in D1["objects"]:
        p = dict((x, y) for x, y in o["poses"])[o["ref"]]
        require(max(map(abs, p)) == 0, "reference board %d of object %d moved to %s", o["ref"], o["id"], p)
        # 3D corners follow the board poses
        if c["all"] or c["stage"] == "object":
            P = np.array([G.apply_T(G.T_of(q[:3], q[3:]), sc.board_pts(bb)[i:i + 1])[0] for (bb, i), q in ((x, dict((u, v) for u, v in o["poses"])[x[0]]) for x in o["o2b"])])
            e = np.abs(P - np.array(o["pts"], float)).max()
            require(e < 1e-5 * (1 + np.abs(P).max()), "3D corners of object %d are %g away from its board poses", o["id"], e)
    if c["all"] and c["stage"] in STAGES[2:]:
        G1 = {(g["group"], g["frame"], o): p for g in D1["groupobs"] for o, p in g["poses"]}
        grp = {x: g["id"] for g in D1["groups"] for x in g["cams"]}
        for e in D1["objobs"]:
            p = G1[(grp[e["cam"]], e["frame"], e["obj"])]
            require(np.abs(np.array(p) - np.array(e["gpose"])).max() < 1e-9, "pose in the group of view (camera %d, frame %d, object %d) is not that of its group", e["cam"], e["frame"], e["obj"])
    mx, moved, exact = {}, False, c["noise"] == 0 and c["outliers"] == 0
    for k in units:
        tot0, tot1, n = a[k][0], b[k][0], len(a[k][1])
        if not c["all"] and k != pick:
            if c["stage"] in ("camera", "object", "group"):
                require(abs(tot0 - tot1) <= 1e-9 + 1e-9 * tot0, "refinement of %s changed %s", pick, k)
            continue
        # single precision corners in the cost of the first group stage
        require(tot1 <= tot0 * (1 + 1e-6) + 1e-7 * n, "%s: robust cost went from %g to %g (%d corners, %d iterations)", k, tot0, tot1, n, c["it"])
        moved |= tot1 < tot0 * (1 - 1e-6)
        mx["cost ratio"] = max(mx.get("cost ratio", 0), tot1 / max(tot0, 1e-12))
        if c["it"] == 0:
            require(abs(tot1 - tot0) <= 1e-9 * tot0 + 1e-12, "%s changed without iterations", k)
        elif c["level"] and tot0 > 2 * true[k][0] + 0.05 * n:
            require(tot1 < 0.999 * tot0, "%s: %d iterations did not lower the cost %g (%g at the truth)", k, c["it"], tot0, true[k][0])
        if c["it"] == 300:
            q = np.quantile(b[k][1], 1.0 if exact else 0.5)
            if exact:
                mx["residual"] = max(mx.get("residual", 0), q)
                require(q < 3e-3, "%s: residual %g px on exact corners after 300 iterations", k, q)
            require(tot1 <= true[k][0] * (1 + 1e-3) + 1e-4 * n, "%s: cost %g at the end, %g at the truth (%d corners, from %g)", k, tot1, true[k][0], n, tot0)
            mx["cost over truth"] = max(mx.get("cost over truth", 0), (tot1 - true[k][0]) / n)
    return {"nontrivial": moved or c["level"] == 0 or c["it"] == 0,
            "labels": [c["stage"], "%s stage" % ("whole" if c["all"] else "single"), "level %g" % c["level"], "%d iterations" % c["it"], "%d units" % len(units)]
            + (["outliers"] if c["outliers"] else []) + (["noise"] if c["noise"] else []) + (["several boards in an object"] if any(len(o["boards"]) > 1 for o in D0["objects"]) else [])
            + (["invalid views"] if c["invalid"] else []) + (["several groups"] if len(D0["groups"]) > 1 else []), "max": mx}


run.valid = valid
fields = rigs.overlap_fields(models=st.sampled_from([[0, 0], [0, 1], [0], [1], [0, 0, 0], [1, 1]]), boards=st.sampled_from([2, 1, 3, 4]), solo=st.integers(4, 8), per_edge=st.integers(2, 4),
                             he=None, quat=None, step=st.sampled_from([1, 3]), minfrac=st.sampled_from([1.0, 0.5]),
                             rig=st.just("overlap"), apart=st.booleans(), noise=st.sampled_from([0.0, 0.0, 0.3]), outliers=st.sampled_from([0.0, 0.0, 0.05, 0.1]),
                             invalid=st.sampled_from([0.0, 0.0, 0.1]), stage=st.sampled_from(STAGES), all=st.booleans(), level=st.sampled_from([1.0, 0.3, 0]), it=st.sampled_from([300, 300, 300, 3, 1, 0]))
own = {k: fields[k] for k in ("noise", "outliers", "invalid", "stage", "all", "level", "it")}
groups = dict(rigs.nonoverlap_fields(he=None, quat=None, ransac=None), rig=st.just("apart"), **own)
PARTS = [Part("one group", st.fixed_dictionaries(fields), run, 400, 6000, mode="pre", shrink_s=60),
         Part("several groups", st.fixed_dictionaries(groups), run, 150, 2000, mode="pre", shrink_s=60)]
