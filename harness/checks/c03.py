"""C03: cameras share a group exactly when their observations link them."""
from hypothesis import strategies as st

from vp import e2e, judge as J, rigs
from vp.runner import Part, Reject
from vp.scene import Unplaceable

PROPERTY = "C03"
TECHNIQUE = "property-based testing (Hypothesis): generated partly linked rigs run end to end; oracle is the connectivity of the generated observations and the generating scene"
BUILD = ["calibrate:rel"]
RULE = "a case is non-trivial when the cameras do not all belong to one group of simultaneous views (so the grouping is decided by missing or indirect links)"
ASSUMPTIONS = ["groups linked by moving rigid boards share at least 4 frames, unlinked ones at most 3",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]
TOL = J.Tol(px=0.02, rot=0.01, t=1e-3, obj=1e-3, err=3e-4, k=3e-5)


def judge(ctx, c, sc, expected):
    mx = {}

    def once(seed):
        r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, {"he_approach": c["he"], "quaternion_averaging": c["quat"], "ransac_threshold": c.get("ransac", 0.2)}, rd_seed=seed)
        J.ran(r)
        J.partition(r, expected)
        J.header(sc, r)
        m = {}
        J.poses(sc, r, TOL, m)
        J.intrinsics(sc, r, TOL, mx=m)
        J.mean_error(r, 0, TOL.err)
        mx.update(m)
    rigs.seeds_vote(once, c)
    return mx


def run_partial(ctx, c):
    strong, links, counts = rigs.partial_links(c)
    try:
        sc = rigs.nonoverlap(c, links=links, per_link=counts)
    except Unplaceable:
        raise Reject()
    comp = rigs.components(len(c["groups"]), strong)
    expected = [[x for g in k for x in sc.meta["groups"][g]] for k in comp]
    mx = judge(ctx, c, sc, expected)
    weak = len(links) - len(strong)
    return {"nontrivial": True, "labels": ["%d groups of views" % len(c["groups"]), "%d groups reported" % len(comp),
                                           "weak links" if weak else "no weak link", "strong links" if strong else "no strong link"], "max": mx}


def run_forest(ctx, c):
    edges = rigs.forest(c)
    try:
        sc = rigs.overlap(c, edges=edges)
    except Unplaceable:
        raise Reject()
    expected = rigs.components(len(sc.cams), sc.meta["edges"])
    mx = judge(ctx, c, sc, expected)
    return {"nontrivial": len(expected) > 1, "labels": ["%d cameras" % len(sc.cams), "%d groups reported" % len(expected)], "max": mx}


def valid_partial(c):
    if not rigs.nonoverlap_valid(dict(c, per_link=4, links="chain")):
        return False
    try:
        _, links, counts = rigs.partial_links(c)
        rigs.nonoverlap(c, links=links, per_link=counts)
        return True
    except Unplaceable:
        return False


def valid_forest(c):
    if not rigs.overlap_valid(c):
        return False
    try:
        rigs.overlap(c, edges=rigs.forest(c))
        return True
    except Unplaceable:
        return False


run_partial.valid, run_forest.valid = valid_partial, valid_forest
GROUPS = [[[0], [0], [0]], [[0, 0], [0], [0]], [[0], [0]], [[0], [0], [0], [0]], [[0], [1], [0]], [[0, 0], [0, 0]], [[0], [0, 1]], [[0], [0], [0], [0], [0]], [[1], [0]]]
PARTS = [Part("partly linked groups", st.fixed_dictionaries(rigs.nonoverlap_fields(groups=st.sampled_from(GROUPS), links=None, per_link=None, per_group=st.just(1))),
              run_partial, 80, 1200, mode="pre", shrink_s=60),
         Part("same boards, no common view", st.fixed_dictionaries(rigs.overlap_fields(
             models=st.sampled_from([[0, 0, 0], [0, 0], [0, 0, 0, 0], [0, 1, 0], [0, 0, 0, 0, 0], [1, 0]]))), run_forest, 50, 800, mode="pre", shrink_s=60)]
