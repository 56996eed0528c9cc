"""C04: boards are assembled into objects exactly as their views link them."""
import numpy as np
from hypothesis import strategies as st

from vp import e2e, geom as G, judge as J, live, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C04"
TECHNIQUE = "property-based testing (Hypothesis): generated board sets and covisibility patterns run end to end; oracle is the connectivity of the generated views and the generating scene"
BUILD = ["calibrate:rel", "drv_calib:rel"]
RULE = "a case is non-trivial when there are at least two boards; distinct by full description"
ASSUMPTIONS = ["all cameras belong to one group; every board is seen often enough for its pose to be known in every link",
               "the randomised robust steps are seeded; a case counts as failed when four of five seeds fail"]
TOL = J.Tol(px=0.02, rot=0.01, t=1e-4, obj=1e-4, err=3e-4, k=3e-5)


def layout(c):
    """boards grouped into objects; consecutive boards of an object are linked by one image (0) or by two cameras of the group (1)"""
    rng = np.random.default_rng([c["seed"], 8])
    nb = c["boards"]
    order = [int(x) for x in rng.permutation(nb)] if c["shuffle"] else list(range(nb))
    objs = [[order[0]]]
    for b in order[1:]:
        if rng.random() < c["split"]:
            objs.append([b])
        else:
            objs[-1].append(b)
    kinds = {str(o): [int(rng.random() < c["indirect"]) for _ in bs] for o, bs in enumerate(objs)}
    return objs, kinds


def scene(c):
    objs, kinds = layout(c)
    return rigs.overlap(c, objs=objs, link_kind=kinds, per_link=c["per_link"], see_all=False), objs, kinds


def valid(c):
    if not (rigs.overlap_valid(dict(c, boards=1)) and 1 <= c["boards"] <= 8 and 0 <= c["split"] <= 1 and 0 <= c["indirect"] <= 1 and c["per_link"] >= 1
            and 0.05 <= c["ransac"] <= 1):
        return False
    try:
        scene(c)
        return True
    except Unplaceable:
        return False


def summary(c, objs, kinds, mx):
    k = [x for o, bs in enumerate(objs) for x in kinds[str(o)][:len(bs) - 1]]
    return {"nontrivial": c["boards"] > 1, "labels": ["%d boards" % c["boards"], "%d objects" % len(objs), "indirect links" if 1 in k and len(c["models"]) > 1 else "no indirect link",
                                                      "largest object %d boards" % max(map(len, objs)), "%d frames per link" % c["per_link"]], "max": mx}


def run(ctx, c):
    try:
        sc, objs, kinds = scene(c)
    except Unplaceable:
        raise Reject()
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {"quaternion_averaging": c["quat"], "ransac_threshold": c["ransac"]}, rd_seed=seed)
        J.ran(r)
        J.partition(r, [list(range(len(sc.cams)))])
        m = {}
        J.objects(sc, r, objs, TOL, m)
        J.object_poses(sc, r, TOL, m)
        J.poses(sc, r, TOL, m)
        mx.update(m)
    rigs.seeds_vote(once, c, k=5, need=4)
    return summary(c, objs, kinds, mx)


def run_chain(ctx, c):
    """structure of the objects chained from board pairs seen in one image, before any refinement"""
    try:
        sc, objs, kinds = scene(dict(c, indirect=0.0))
    except Unplaceable:
        raise Reject()
    S, mx = J.scale_of(sc), {}

    def once(seed):
        d = ctx.drv("drv_calib:rel")
        live.open_cfg(d, sc, quaternion_averaging=c["quat"], ransac_threshold=c["ransac"])
        live.insert_scene(d, sc)
        stg = ["initIntrinsic", "computeBoardsPairPose", "interBoards", "initInterBoardsGraph", "init3DObjects"]
        d.call("stage", str(len(stg)), *stg, seed=seed, timeout=120)
        D = d.json("dump")
        got = sorted(sorted(o["boards"]) for o in D["objects"])
        exp = sorted(sorted(o) for o in objs)
        require(got == exp, "objects consist of boards %s, expected %s", got, exp)
        worst = 0.0
        for o in D["objects"]:
            require(o["ref"] == min(o["boards"]), "object of boards %s has reference %d", o["boards"], o["ref"])
            at = {(b, i): k for b, i, k in o["b2o"]}
            require(sorted(at) == [(b, i) for b in sorted(o["boards"]) for i in range(len(sc.board_pts(b)))], "object of boards %s lists the corners %s...", o["boards"], sorted(at)[:4])
            back = [tuple(x) for x in o["o2b"]]
            for (b, i), k in at.items():
                require(back[k] == (b, i), "object point %d is corner %s, corner %s is point %d", k, back[k], (b, i), k)
                T = G.apply_T(G.inv_T(sc.B[o["ref"]]) @ sc.B[b], sc.board_pts(b)[i:i + 1])[0]
                e = float(np.linalg.norm(np.array(o["pts"][k]) - T) / S)
                worst = max(worst, e)
                require(e < 5e-3, "corner %d of board %d starts at %s, true %s", i, b, o["pts"][k], T)
        mx["initial structure"] = worst
    rigs.seeds_vote(once, c, k=5, need=4)
    return summary(dict(c, indirect=0.0), objs, kinds, mx)


run.valid = run_chain.valid = valid
fields = rigs.overlap_fields(models=st.sampled_from([[0, 0], [0], [0, 0, 0], [1, 0], [1]]), boards=st.sampled_from([3, 2, 4, 5, 6]), see_all=None, minfrac=st.sampled_from([1.0, 0.7]),
                             shuffle=st.booleans(), split=st.sampled_from([0.3, 0.0, 0.6]), indirect=st.sampled_from([0.4, 0.0, 1.0]), per_link=st.sampled_from([3, 1, 2, 5]),
                             ransac=st.sampled_from([0.1, 0.2]), he=None)
PARTS = [Part("objects", st.fixed_dictionaries(dict(fields, see_all=st.just(False))), run, 100, 1600, mode="pre", shrink_s=60),
         Part("chain before refinement", st.fixed_dictionaries(dict(fields, see_all=st.just(False), ransac=st.sampled_from([0.05, 0.1]))), run_chain, 50, 1000, mode="pre", shrink_s=60)]
