"""C18: all views of the observation data agree after any insertion history."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, live, rigs, strat as S
from vp.runner import Part, Reject, require
from vp.scene import Scene, Unplaceable, make_camera

PROPERTY = "C18"
TECHNIQUE = "property-based testing (Hypothesis), model-based: generated insertion histories (and validity/pose assignments, and whole runs) applied to the real data structures, compared with a multiset model of what was inserted"
BUILD = ["drv_calib:rel"]
RULE = "a case is non-trivial when at least three views were inserted; distinct by full description"
ASSUMPTIONS = ["a board appears at most once in an image, as the detector and the keypoint files produce it"]
BOARDS = [(5, 5, 0.04), (4, 6, 1.0), (3, 3, 0.5), (7, 5, 0.1), (5, 5, 0.04), (6, 4, 0.2)]


def bag(x):
    return sorted(x)


def views(D, hist):
    """every inserted view is reachable exactly once, everywhere"""
    want = bag((c, f, b, tuple(ids), np.asarray(p, np.float32).tobytes()) for c, f, b, ids, p, _ in hist)
    got = bag((o["cam"], o["frame"], o["board"], tuple(o["ids"]), np.asarray(o["pts"], np.float32).reshape(-1, 2).tobytes()) for o in D["obs"])
    require([x[:4] for x in want] == [x[:4] for x in got], "the list of views holds %d views, %d were inserted", len(got), len(want))
    require(want == got, "the corners of a view are not those inserted")
    require([o["key"] for o in D["obs"]] == list(range(len(hist))), "keys of the list of views: %s", [o["key"] for o in D["obs"]])
    P = {o["ptr"]: (o["cam"], o["frame"], o["board"], len(o["ids"])) for o in D["obs"]}
    require(len(P) == len(D["obs"]), "a view is listed twice")
    for o in D["obs"]:
        require(o["camok"] and o["boardok"], "view (camera %d, frame %d, board %d) refers to another camera or board", o["cam"], o["frame"], o["board"])

    def refs(where, got, want):
        require(None not in got, "%s refers to a view which is gone", where)
        require(bag(r[4] for r in got) == bag(want), "%s reaches views %s, expected %s", where, bag(tuple(r[:3]) for r in got), bag(P[w][:3] for w in want))
        for r in got:
            require(tuple(r[:4]) == P[r[4]], "%s reaches a view with other content", where)
    for kind, ix in (("cams", 0), ("boards", 2), ("frames", 1)):
        ids = [x["id"] for x in D[kind]]
        if kind == "frames":
            require(bag(ids) == bag({h[1] for h in hist}), "frames are %s, expected %s", bag(ids), bag({h[1] for h in hist}))
        for x in D[kind]:
            require(x["idx"] == x["id"], "%s %d is numbered %d", kind, x["id"], x["idx"])
            mine = [p for p, v in P.items() if v[ix] == x["id"]]
            refs("%s %d" % (kind, x["id"]), x["boards"], mine)
            if kind != "boards":
                require(bag(x["vis" if kind == "cams" else "visboards"]) == bag(P[p][2] for p in mine), "visible boards of %s %d: %s", kind, x["id"], x["vis" if kind == "cams" else "visboards"])
            if kind != "frames":
                require(bag(x["frames"]) == bag({P[p][1] for p in mine}), "frames of %s %d: %s, expected %s", kind, x["id"], x["frames"], bag({P[p][1] for p in mine}))
            else:
                cs = bag({P[p][0] for p in mine})
                require(bag(x["cams"]) == cs and bag(x["camobs"]) == cs, "cameras of frame %d: %s and %s, expected %s", x["id"], x["cams"], x["camobs"], cs)
                paths = {}
                for c, f, b, ids_, p, path in hist:
                    if f == x["id"]:
                        paths[str(c)] = path
                require(x["paths"] == paths, "image paths of frame %d: %s, expected %s", x["id"], x["paths"], paths)
    keys = [(x["cam"], x["frame"]) for x in D["camobs"]]
    require(bag(keys) == bag({h[:2] for h in hist}), "camera-and-frame entries: %s", keys)
    for x in D["camobs"]:
        mine = [p for p, v in P.items() if v[:2] == (x["cam"], x["frame"])]
        require(x["idx"] == x["cam"], "entry (%d, %d) belongs to camera %d", x["cam"], x["frame"], x["idx"])
        refs("entry (camera %d, frame %d)" % (x["cam"], x["frame"]), x["boards"], mine)
        require(bag(x["vis"]) == bag(P[p][2] for p in mine), "visible boards of entry (%d, %d): %s", x["cam"], x["frame"], x["vis"])


def objects(D, boards):
    """every corner of a valid view is in exactly one object observation, with its own 3D point"""
    pts = {b: np.array([[x * s, y * s, 0.0] for y in range(ny - 1) for x in range(nx - 1)]) for b, (nx, ny, s) in enumerate(boards)}
    O, of = {o["id"]: o for o in D["objects"]}, {}
    for o in D["objects"]:
        require(o["idx"] == o["id"], "object %d is numbered %d", o["id"], o["idx"])
        for b in o["boards"]:
            require(b not in of, "board %d belongs to objects %s and %d", b, of.get(b), o["id"])
            of[b] = o["id"]
        at = {(b, i): k for b, i, k in o["b2o"]}
        back = [tuple(x) for x in o["o2b"]]
        require(len(back) == len(at) == len(o["pts"]) and bag(at) == bag(back), "points of object %d: %d, %d and %d entries", o["id"], len(back), len(at), len(o["pts"]))
        require(bag(at) == bag((b, i) for b in o["boards"] for i in range(len(pts[b]))), "object %d does not list the corners of its boards %s", o["id"], o["boards"])
        pose = {b: G.T_of(p[:3], p[3:]) for b, p in o["poses"]}
        require(set(pose) >= set(o["boards"]) and o["ref"] in o["boards"], "object %d of boards %s has reference %d and poses of %s", o["id"], o["boards"], o["ref"], sorted(pose))
        for k, (b, i) in enumerate(back):
            require(at[(b, i)] == k, "corner %d of board %d is point %d of object %d, but point %d is that corner", i, b, at[(b, i)], o["id"], k)
            want = G.apply_T(pose[b], pts[b][i:i + 1])[0]
            require(np.abs(want - o["pts"][k]).max() <= 1e-5 * (1 + np.abs(want).max()), "point %d of object %d is at %s, corner %d of board %d is at %s", k, o["id"], o["pts"][k], i, b, want)
    want, seen = {}, {}
    for o in D["obs"]:
        if o["valid"]:
            require(o["board"] in of, "board %d is seen in a valid view and belongs to no object", o["board"])
            ob = O[of[o["board"]]]
            at = {(b, i): k for b, i, k in ob["b2o"]}
            w = want.setdefault((o["cam"], o["frame"], of[o["board"]]), [])
            w += [(at[(o["board"], i)], tuple(p)) for i, p in zip(o["ids"], o["pts"])]
            seen.setdefault((o["cam"], o["frame"], of[o["board"]]), []).append(o)
    P = {o["ptr"]: (o["cam"], o["frame"], o["obj"], len(o["ids"])) for o in D["objobs"]}
    got = [v[:3] for v in P.values()]
    require(bag(got) == bag(want), "object observations (camera, frame, object): %d, expected %d: %s", len(got), len(want), sorted(set(got) ^ set(want))[:5])
    for o in D["objobs"]:
        k = (o["cam"], o["frame"], o["obj"])
        require(bag(zip(o["ids"], map(tuple, o["pts"]))) == bag(want[k]), "corners of object observation %s: %d, expected %d, or with other numbers or positions", k, len(o["ids"]), len(want[k]))
        require(len(o["ids"]) == len(o["pts"]), "object observation %s has %d numbers and %d corners", k, len(o["ids"]), len(o["pts"]))
        require(bag(o["boardids"]) == bag(x["board"] for x in seen[k]) and bag(r[4] for r in o["boards"] if r) == bag(x["ptr"] for x in seen[k]), "boards of object observation %s: %s", k, o["boardids"])

    def refs(where, got, vis, want):
        require(None not in got and bag(r[4] for r in got) == bag(want), "%s reaches object observations %s, expected %s", where, [r and r[:3] for r in got], [P[w][:3] for w in want])
        for r in got:
            require(tuple(r[:4]) == P[r[4]], "%s reaches an object observation with other content", where)
        if vis is not None:
            require(bag(vis) == bag(P[w][2] for w in want), "visible objects of %s: %s", where, vis)
    for x in D["cams"]:
        refs("camera %d" % x["id"], x["objects"], x["visobj"], [p for p, v in P.items() if v[0] == x["id"]])
    for x in D["frames"]:
        refs("frame %d" % x["id"], x["objects"], x["visobj"], [p for p, v in P.items() if v[1] == x["id"]])
    for x in D["camobs"]:
        refs("entry (camera %d, frame %d)" % (x["cam"], x["frame"]), x["objects"], x["visobj"], [p for p, v in P.items() if v[:2] == (x["cam"], x["frame"])])
    for x in D["objects"]:
        refs("object %d" % x["id"], x["objects"], None, [p for p, v in P.items() if v[2] == x["id"]])
    return P


def groups(D, P, poses=True):
    of = {}
    for g in D["groups"]:
        require(g["idx"] == g["id"], "group %d is numbered %d", g["id"], g["idx"])
        require(bag(g["cams"]) == bag(c for c, _ in g["poses"]) and len(set(g["cams"])) == len(g["cams"]) == len(g["cameras"]), "cameras of group %d: %s, poses of %s", g["id"], g["cams"], [c for c, _ in g["poses"]])
        require(g["ref"] in g["cams"], "reference camera %d is not in group %d of %s", g["ref"], g["id"], g["cams"])
        for c in g["cams"]:
            require(c not in of, "camera %d is in groups %s and %d", c, of.get(c), g["id"])
            of[c] = g["id"]
    for v in P.values():
        require(v[0] in of, "camera %d observes an object and belongs to no group", v[0])
    want = {}
    for p, v in P.items():
        want.setdefault((of[v[0]], v[1]), []).append(p)
    got = {(x["group"], x["frame"]): x for x in D["groupobs"]}
    require(bag(got) == bag(want), "group observations (group, frame): %s, expected %s", bag(got), bag(want))
    for k, x in got.items():
        require(x["idx"] == k[0], "group observation %s is of group %d", k, x["idx"])
        require(None not in x["objects"] and bag(r[4] for r in x["objects"]) == bag(want[k]), "group observation %s holds %s, expected %s", k, [r and r[:3] for r in x["objects"]], [P[w][:3] for w in want[k]])
        require(set(x["visobj"]) == {P[w][2] for w in want[k]}, "visible objects of group observation %s: %s", k, x["visobj"])
        require(not poses or bag(o for o, _ in x["poses"]) == bag({P[w][2] for w in want[k]}), "group observation %s has poses of objects %s", k, [o for o, _ in x["poses"]])
    for g in D["groups"]:
        mine = [p for p, v in P.items() if of[v[0]] == g["id"]]
        require(None not in g["objects"] and bag(r[4] for r in g["objects"]) == bag(mine), "group %d reaches %d object observations, expected %d", g["id"], len(g["objects"]), len(mine))
        require(bag(g["frames"]) == bag({P[p][1] for p in mine}), "frames of group %d: %s, expected %s", g["id"], g["frames"], bag({P[p][1] for p in mine}))
    for x in D["frames"]:
        w = bag(k[0] for k in want if k[1] == x["id"])
        require(bag(x["groups"]) == w and bag(x["groupobs"]) == w, "groups of frame %d: %s and %s, expected %s", x["id"], x["groups"], x["groupobs"], w)


def npts(b):
    return (BOARDS[b][0] - 1) * (BOARDS[b][1] - 1)


def history(c):
    rng = np.random.default_rng([c["seed"], 18])
    step = rng.permutation(c["frames"] * 3)[:c["frames"]]
    ks = [(cam, int(f), b) for cam in range(c["cams"]) for f in step for b in range(c["boards"]) if rng.random() < c["density"]]
    if c["order"] == "any":
        ks = [ks[i] for i in rng.permutation(len(ks))]
    elif c["order"] == "by frame":
        ks.sort(key=lambda k: (k[1], k[0], k[2]))
    elif c["order"] == "backwards":
        ks = ks[::-1]
    out = []
    for cam, f, b in ks:
        n = int(rng.integers(1, npts(b) + 1)) if rng.random() < 0.7 else npts(b)
        ids = [int(x) for x in rng.permutation(npts(b))[:n]]
        if rng.random() < 0.5:
            ids.sort()
        out.append((cam, f, b, ids, rng.uniform(0, 2000, (n, 2)).astype(np.float32), "cam%d/%s%d.png" % (cam, "i" if rng.random() < 0.9 else "x/", f)))
    # one image has one path
    path = {}
    return [(cam, f, b, ids, p, path.setdefault((cam, f), q)) for cam, f, b, ids, p, q in out]


def empty(ctx, c):
    sc = Scene()
    sc.boards = [tuple(b) for b in BOARDS[:c["boards"]]]
    rng = np.random.default_rng(1)
    sc.cams = [make_camera(rng, k % 2) for k in range(c["cams"])]
    sc.objs = [[b] for b in range(c["boards"])]
    d = ctx.drv("drv_calib:rel")
    live.open_cfg(d, sc, quaternion_averaging=c["seed"] % 2)
    for k, cam in enumerate(sc.cams):
        live.set_camera(d, k, cam)
    return d


def insert(d, hist):
    args = [len(hist)]
    for cam, f, b, ids, p, path in hist:
        args += [cam, f, b, live.lst(ids), live.lst(np.asarray(p, float)), path]
    d.call("insert", *args)


def run_insert(ctx, c):
    hist = history(c)
    d = empty(ctx, c)
    cut = sorted({0, len(hist), *(int(x * len(hist)) for x in c["cuts"])})
    for a, b in zip(cut, cut[1:]):
        insert(d, hist[a:b])
        views(d.json("dump"), hist[:b])
    if not hist:
        views(d.json("dump"), hist)
    return {"nontrivial": len(hist) >= 3, "labels": ["%d cameras" % c["cams"], "%d boards" % c["boards"], c["order"], "%d batches" % (len(cut) - 1), "%s views" % (">20" if len(hist) > 20 else "<=20")],
            "max": {"views": len(hist)}}


def rand_T(rng, spread):
    a = rng.normal(size=3)
    T = np.eye(4)
    T[:3, :3] = G.rodrigues(a / np.linalg.norm(a) * rng.uniform(0, spread))
    T[:3, 3] = rng.uniform(-1, 1, 3) + [0, 0, 4]
    return T


def run_group(ctx, c):
    hist = history(c)
    d = empty(ctx, c)
    insert(d, hist)
    rng = np.random.default_rng([c["seed"], 19])
    D = d.json("dump")
    for o in D["obs"]:
        d.call("setobspose", o["key"], " ".join(repr(float(x)) for x in G.vec_of(rand_T(rng, 1.0))))
        d.call("setobsvalid", o["key"], int(rng.random() >= c["invalid"]))
    s1 = ["computeBoardsPairPose", "interBoards", "initInterBoardsGraph", "init3DObjects", "initAll3DObjectObs"]
    d.call("stage", len(s1), *s1)
    D = d.json("dump")
    views(D, hist)
    P = objects(D, BOARDS[:c["boards"]])
    for o in D["objobs"]:
        d.call("setobjobspose", o["key"], " ".join(repr(float(x)) for x in G.vec_of(rand_T(rng, 1.0))))
    s2 = ["computeCamerasPairPose", "interCams", "initInterCamerasGraph", "initCameraGroup", "initAllCameraGroupObs", "computeAllObjPoseInCameraGroup"]
    d.call("stage", len(s2), *s2)
    D = d.json("dump")
    views(D, hist)
    P = objects(D, BOARDS[:c["boards"]])
    groups(D, P)
    # regrouping from scratch ends in the same place
    s3 = ["mergeAllObjectObs", "mergeAllCameraGroupObs", "computeAllObjPoseInCameraGroup"]
    d.call("stage", len(s3), *s3)
    D2 = d.json("dump")
    views(D2, hist)
    P2 = objects(D2, BOARDS[:c["boards"]])
    if c["twice"]:
        d.call("stage", len(s3), *s3)
        D2 = d.json("dump")
        P2 = objects(D2, BOARDS[:c["boards"]])
    # the frames of the groups and their object observations are added to, not replaced, when the groups stay
    require(bag(v for v in P2.values()) == bag(v for v in P.values()), "regrouping gives other object observations")
    groups(D2, P2)
    return {"nontrivial": len(hist) >= 3, "labels": ["%d objects" % len(D["objects"]), "%d groups" % len(D["groups"]), "invalid views" if any(not o["valid"] for o in D["obs"]) else "all valid",
                                                      "regrouped twice" if c["twice"] else "regrouped once", c["order"]], "max": {"views": len(hist)}}


FLOW = ["initIntrinsic", "calibrate3DObjects", "calibrateCameraGroup", "merge3DObjects", "findPairObjectForNonOverlap", "findPoseNoOverlapAllCamGroup", "initInterCamGroupGraph", "mergeCameraGroup",
        "mergeAllCameraGroupObs", "merge3DObjects", "initInterCamGroupGraph", "mergeCameraGroup", "mergeAllCameraGroupObs", "estimatePoseAllObjects", "computeAllObjPoseInCameraGroup",
        "refineAllCameraGroupAndObjects", "refineAllCameraGroupAndObjectsAndIntrinsic"]


def flow_valid(c):
    if not (0 <= c["fixed"] <= 1 and c["thr"] in (0.5, 3.0) and 0 <= c["wrong"] <= 0.05):
        return False
    try:
        flow_scene(c)
    except Unplaceable:
        return False
    return rigs.overlap_valid(c) if "models" in c else rigs.nonoverlap_valid(dict(c, per_link=4, links="chain"))


def flow_scene(c):
    """rigs with all or only some of their links"""
    if "models" in c:
        return rigs.overlap(c, edges=rigs.forest(c)) if c["part"] else rigs.overlap(c)
    if not c["part"]:
        return rigs.nonoverlap(c)
    _, links, counts = rigs.partial_links(c)
    return rigs.nonoverlap(c, links=links, per_link=counts)


def run_flow(ctx, c):
    try:
        sc = flow_scene(c)
    except Unplaceable:
        raise Reject()
    rng = np.random.default_rng([c["seed"], 20])
    for k in sorted(sc.obs):
        ids, uv = sc.obs[k]
        w = rng.random(len(ids)) < c["wrong"]
        sc.obs[k] = (ids, (uv + (w * 40)[:, None]).astype(np.float32))
    d = ctx.drv("drv_calib:rel")
    live.open_cfg(d, sc, quaternion_averaging=c.get("quat", 1), ransac_threshold=c["thr"], number_iterations=60)
    ks = live.insert_scene(d, sc)
    for k, cam in enumerate(sc.cams):
        live.set_camera(d, k, cam)
    n0 = {k: len(sc.obs[k][0]) for k in ks}
    lost = 0
    for i, s in enumerate(FLOW):
        if s == "initIntrinsic":
            s = "estimatePoseAllBoards"
        d.call("stage", 1, s, seed=c["seed"] % 1000 + i, timeout=120)
        if i not in (1, 2, 3, 8, 9, 12, 15, 16):
            continue
        D = d.json("dump")
        hist = []
        for o in D["obs"]:
            k = (o["cam"], o["frame"], o["board"])
            ids, uv = sc.obs[k]
            at = {int(a): tuple(map(float, p)) for a, p in zip(ids, uv)}
            for a, p in zip(o["ids"], o["pts"]):
                require(a in at and at[a] == tuple(p), "after %s: corner %d of view %s is at %s, observed at %s", s, a, k, p, at.get(a))
            require(len(set(o["ids"])) == len(o["ids"]), "after %s: view %s holds a corner twice", s, k)
            lost = max(lost, n0[k] - len(o["ids"]))
            hist.append((*k, o["ids"], o["pts"], "cam%d/f%06d.png" % (k[0], k[1])))
        views(D, hist)
        P = objects(D, sc.boards)
        if i >= 2:
            groups(D, P, poses=s != "mergeAllCameraGroupObs")
    return {"nontrivial": True, "labels": ["%d cameras" % len(sc.cams), "%d boards" % len(sc.boards), "overlapping" if "models" in c else "not overlapping", "corners dropped" if lost else "all corners kept",
                                           "%d objects, %d groups at the end" % (len(D["objects"]), len(D["groups"]))], "max": {"views": len(ks)}}


def ins_valid(c):
    return 1 <= c["cams"] <= 6 and 1 <= c["boards"] <= 6 and 0 <= c["frames"] <= 12 and 0 <= c["density"] <= 1 and 0 <= c["invalid"] <= 1 and all(0 <= x <= 1 for x in c["cuts"])


run_insert.valid = run_group.valid = ins_valid
run_flow.valid = flow_valid
base = {"seed": S.seeds, "cams": st.sampled_from([3, 2, 4, 1, 5, 6]), "boards": st.sampled_from([3, 2, 4, 1, 5, 6]), "frames": st.sampled_from([5, 3, 8, 1, 12, 0]), "density": st.sampled_from([0.3, 0.1, 0.05, 0.6, 1.0]),
        "order": st.sampled_from(["any", "by frame", "by camera", "backwards"]), "cuts": st.lists(st.floats(0, 1), max_size=3), "invalid": st.sampled_from([0.0, 0.2, 0.6]), "twice": st.booleans()}
extra = dict(part=st.booleans(), fixed=st.just(0), thr=st.sampled_from([3.0, 0.5]), wrong=st.sampled_from([0.0, 0.03]))
flow = st.one_of(st.fixed_dictionaries(rigs.overlap_fields(models=st.sampled_from([[0, 0], [0, 1], [0, 0, 0], [1, 0, 0]]), boards=st.sampled_from([2, 1, 3]), **extra)),
                 st.fixed_dictionaries(rigs.nonoverlap_fields(groups=st.sampled_from([[[0], [0]], [[0, 0], [0]], [[0], [1], [0]], [[0], [0], [0], [0]]]), per_group=st.just(1), **extra)))
PARTS = [Part("insertions", st.fixed_dictionaries(base), run_insert, 600, 12000),
         Part("grouping", st.fixed_dictionaries(dict(base, frames=st.sampled_from([5, 3, 8, 1, 12]))), run_group, 400, 8000),
         Part("whole run", flow, run_flow, 60, 800, mode="pre", shrink_s=60)]
