"""C08: results do not depend on units, numbering or order."""
import copy

import numpy as np
from hypothesis import strategies as st

from vp import e2e, geom as G, judge as J, rigs
from vp.runner import Part, Reject, require
from vp.scene import Unplaceable

PROPERTY = "C08"
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation between two runs of the application, on generated noisy rigs and on the same observations in other units, numbering and order"
BUILD = ["calibrate:rel"]
RULE = "a case is non-trivial when the transformation changes the input (it is not the identity); distinct by full description"
ASSUMPTIONS = ["observations carry noise (0.05 to 0.2 px; without common views 0.01 to 0.03 px), so that the two optima agree only when both runs solve the same problem",
               "the randomised robust steps are seeded; a case counts as failed when three of four seeds fail"]


def scene(c, **over):
    try:
        return rigs.nonoverlap(c, **over) if "groups" in c else rigs.overlap(c, **over)
    except Unplaceable:
        raise Reject()


class Change:
    """another way to describe the same observations: camera a is camera cam[a] of the changed description, and so on"""

    def __init__(self, sc, c):
        rng = np.random.default_rng([c["seed"], 53])
        nc, nb, fr = len(sc.cams), len(sc.boards), sc.frames()
        k = c["change"]
        every = k == "everything"
        self.scale = float(c["factor"]) if k == "units" or every else 1.0
        self.cam = [int(x) for x in rng.permutation(nc)] if k == "cameras" or every else list(range(nc))
        self.board = [int(x) for x in rng.permutation(nb)] if k == "boards" or every else list(range(nb))
        if k == "frames" or every:
            new = sorted(int(x) for x in rng.choice(4 * len(fr) + 20, len(fr), replace=False))
            self.frame = dict(zip(fr, [int(x) for x in rng.permutation(new)] if c["shuffle"] else new))
        else:
            self.frame = {f: f for f in fr}
        self.order_seed = int(rng.integers(1 << 30)) if k == "order" or every else None
        self.trivial = (self.scale == 1 and self.cam == sorted(self.cam) and self.board == sorted(self.board) and self.order_seed is None
                        and all(a == b for a, b in self.frame.items()))

    def apply(self, sc):
        n = copy.copy(sc)
        n.boards = [None] * len(sc.boards)
        for b, (nx, ny, sq) in enumerate(sc.boards):
            n.boards[self.board[b]] = (nx, ny, sq * self.scale)
        n.cams = [None] * len(sc.cams)
        for k, cam in enumerate(sc.cams):
            n.cams[self.cam[k]] = cam
        n.obs = {(self.cam[k], self.frame[f], self.board[b]): v for (k, f, b), v in sc.obs.items()}
        return n

    def order(self):
        if self.order_seed is None:
            return None

        def fn(cam, ks):
            p = np.random.default_rng([self.order_seed, cam]).permutation(len(ks))
            return [ks[int(i)] for i in p]
        return fn


def canonical(r, ch=None, nc=0):
    """the result in terms of the original description: intrinsics, pairwise camera transforms, pairwise board transforms, kept corners"""
    L, O = e2e.cam_list(r), J.objects_of(r)
    inv_c = {v: k for k, v in enumerate(ch.cam)} if ch else None
    inv_b = {v: k for k, v in enumerate(ch.board)} if ch else None
    s = ch.scale if ch else 1.0
    cams = {}
    for k, e in L.items():
        P = e["P"].copy()
        P[:3, 3] /= s
        cams[inv_c[k] if ch else k] = dict(e, P=P)
    groups = sorted(sorted(inv_c[x] if ch else x for x in g) for g in J.groups(r).values())
    pts = {}
    objs = []
    for o, A in O.items():
        objs.append(sorted({int(b) for b in A[3]}))
        for n in range(A.shape[1]):
            pts[(inv_b[int(A[3, n])] if ch else int(A[3, n]), int(A[4, n]))] = (o, A[:3, n] / s)
    objs = sorted(sorted(inv_b[b] if ch else b for b in x) for x in objs)
    return cams, groups, objs, pts


def board_pose(sc, pts, b):
    """rigid motion of board b into its object (Kabsch), and its residual"""
    X = sc.board_pts(b)
    Y = np.array([pts[(b, i)][1] for i in range(len(X))])
    cx, cy = X.mean(0), Y.mean(0)
    U, _, Vt = np.linalg.svd((X - cx).T @ (Y - cy))
    D = np.diag([1, 1, np.sign(np.linalg.det(Vt.T @ U.T))])
    R = Vt.T @ D @ U.T
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = R, cy - R @ cx
    return T, float(np.abs(G.apply_T(T, X) - Y).max())


def compare(sc, a, b, ch, s, overlapping, mx):
    ka = {k: sorted(v) for k, v in J.kept_points(sc, a).items()}
    kb = J.kept_points(ch.apply(sc), b)
    inv_f = {v: u for u, v in ch.frame.items()}
    kb = {(ch.cam.index(k), inv_f[f], ch.board.index(b_)): sorted(v) for (k, f, b_), v in kb.items()}
    na, nb = ({(k, i) for k, v in z.items() for i in v} for z in (ka, kb))
    diff = len(na ^ nb)
    mx["corners kept once"] = max(mx.get("corners kept once", 0), diff)
    require(diff <= 0.02 * sc.n_points(), "%d corners are kept, after the change %d, %d of them other ones", len(na), len(nb), diff)
    same, w = ka == kb, 1 if ka == kb else 20
    q = 1 if overlapping else 10       # groups are tied to each other by few views only: the optimum is flat
    tol = J.Tol(px=5 * s * w * q, rot=0.5 * s * w * q, t=0.01 * s * w * q * q, obj=0.01 * s * w * q * q, err=3e-4 * s * q)
    A, B = canonical(a), canonical(b, ch)
    require(A[1] == B[1], "camera groups %s, after the change %s", A[1], B[1])
    require(A[2] == B[2], "objects %s, after the change %s", A[2], B[2])
    S = J.scale_of(sc)

    def dist(P, Q):
        return np.degrees(G.rot_angle(P[:3, :3].T @ Q[:3, :3])), np.linalg.norm(P[:3, 3] - Q[:3, 3]) / S

    def note(k, v):
        mx[k] = max(mx.get(k, 0), float(v))
    for k in A[0]:
        x, y = A[0][k], B[0][k]
        require(x["model"] == y["model"] and (x["w"], x["h"]) == (y["w"], y["h"]), "camera %d: model or image size changed", k)
        P = np.vstack([sc.cam_pts(k, f, b_)[np.asarray(ids, int)] for (kk, f, b_), (ids, _) in sc.obs.items() if kk == k])

        def proj(e):
            return G.project(P, (e["K"][0, 0], e["K"][1, 1], e["K"][0, 2], e["K"][1, 2]), e["d"], e["model"])
        v = np.linalg.norm(proj(x) - proj(y), axis=1).max()
        note("px", v)
        require(v < tol.px, "camera %d: intrinsics %s %s, after the change %s %s (%.3g px apart)", k, x["K"][[0, 1, 0, 1], [0, 1, 2, 2]], x["d"], y["K"][[0, 1, 0, 1], [0, 1, 2, 2]], y["d"], v)
    for g in A[1]:
        for k in g:
            Ma, Mb = (G.inv_T(z[0][g[0]]["P"]) @ z[0][k]["P"] for z in (A, B))
            r, t = dist(Ma, Mb)
            note("rot deg", r)
            note("trans", t)
            require(r < tol.rot and t < tol.t, "camera %d relative to camera %d: %.4g deg and %.4g of the board size apart after the change", k, g[0], r, t)
    for o in A[2]:
        bp = {}
        for b_ in o:
            (Ta, ea), (Tb, eb) = board_pose(sc, A[3], b_), board_pose(sc, B[3], b_)
            require(ea < 1e-5 * S and eb < 1e-5 * S, "board %d is deformed in its object by %g, after the change by %g", b_, ea, eb)
            bp[b_] = (Ta, Tb)
        for b_ in o:
            Ma, Mb = (G.inv_T(bp[o[0]][z]) @ bp[b_][z] for z in (0, 1))
            r, t = dist(Ma, Mb)
            note("board rot deg", r)
            note("board trans", t)
            require(r < tol.rot and t < tol.obj, "board %d relative to board %d: %.4g deg and %.4g of the board size apart after the change", b_, o[0], r, t)
    if not same:
        return
    ea = {(f, k): np.sort(e) for _, f, k, _, e in J.error_entries(a)}
    eb = {(inv_f[f], ch.cam.index(k)): np.sort(e) for _, f, k, _, e in J.error_entries(b)}
    require(set(ea) == set(eb), "errors are logged for other views after the change: %s", sorted(set(ea) ^ set(eb))[:4])
    for k in ea:
        require(len(ea[k]) == len(eb[k]), "frame %d camera %d has %d errors, after the change %d", k[0], k[1], len(ea[k]), len(eb[k]))
        v = np.abs(ea[k] - eb[k]).max()
        note("error px", v)
        require(v < 0.1 * s * q, "frame %d camera %d: errors differ by %.3g px after the change", k[0], k[1], v)
    require(abs(a.mean_error - b.mean_error) < tol.err, "mean error %s, after the change %s", a.mean_error, b.mean_error)
    note("mean error px", abs(a.mean_error - b.mean_error))


def run(ctx, c):
    sc = scene(c)
    ch = Change(sc, c)
    sc2 = ch.apply(sc)
    s = c["noise"]
    mx = {}

    def once(seed):
        over = {"he_approach": c["he"], "quaternion_averaging": c["quat"]}
        a = e2e.calibrate(ctx.exe("calibrate:rel"), sc, over, rd_seed=seed)
        b = e2e.calibrate(ctx.exe("calibrate:rel"), sc2, over, rd_seed=seed, keypoints=sc2.keypoints(ch.order()))
        J.ran(a)
        J.ran(b)
        J.header(sc2, b)
        m = {}
        compare(sc, a, b, ch, s, "groups" not in c, m)
        mx.update({k + " per px noise": v / s for k, v in m.items()})
    rigs.seeds_vote(once, c)
    return {"nontrivial": not ch.trivial, "labels": rigs.labels(sc, c) + [c["change"]] + (["groups"] if "groups" in c else []), "max": mx}


def ok(c):
    return c["factor"] > 0 and 0.01 <= c["factor"] <= 1000 and c["change"] in CHANGES and (rigs.nonoverlap_valid(c) if "groups" in c else rigs.overlap_valid(c))


run.valid = ok
CHANGES = ["units", "frames", "order", "cameras", "boards", "everything"]
FIELDS = dict(change=st.sampled_from(CHANGES), factor=st.sampled_from([1000.0, 0.01, 2.0, 0.3, 39.37]), shuffle=st.booleans(), noise=st.sampled_from([0.05, 0.2, 0.1]))
PARTS = [Part("overlapping", st.fixed_dictionaries(rigs.overlap_fields(models=st.sampled_from([m for m in rigs.MODELS if len(m) > 1]), minfrac=st.sampled_from([1.0, 0.7]),
                                                                       solo=st.integers(10, 14), **FIELDS)), run, 90, 1500, mode="pre", shrink_s=60),
         Part("non-overlapping", st.fixed_dictionaries(rigs.nonoverlap_fields(solo=st.integers(10, 12), per_link=st.sampled_from([8, 12, 25]), **dict(FIELDS, noise=st.sampled_from([0.01, 0.03])))), run, 24, 500, mode="pre", shrink_s=60)]
