"""How far is a saved calibration from a minimum of its own robust cost? (Gauss-Newton prediction, independent of the library)"""
import numpy as np

from . import e2e, geom as G, judge as J


def huber(n):
    """Huber cost (scale 1 px) of residual lengths n"""
    return np.where(n <= 1, 0.5 * n * n, n - 0.5)


def solution(sc, r):
    """the saved solution as {cams: {c: (K4, d, model, T ref->cam)}, boards, obs: [(cam, frame, board ids, board points, uv)], frames {f: T}, B {b: T board->object}}
    for a run that ended with one camera group and one object"""
    L, O = e2e.cam_list(r), J.objects_of(r)
    assert len(J.groups(r)) == 1 and len(O) == 1
    A = O[0]
    M = np.asarray(r.poses["object_0"]["poses"], float)
    poses = [G.T_of(M[:3, n], M[3:, n]) for n in range(M.shape[1])]
    X = {(int(A[3, n]), int(A[4, n])): A[:3, n] for n in range(A.shape[1])}
    cams = {c: [np.array([e["K"][0, 0], e["K"][1, 1], e["K"][0, 2], e["K"][1, 2]]), e["d"], e["model"], G.inv_T(e["P"])] for c, e in L.items()}
    obs = []
    kept = J.kept_points(sc, r)
    seen = {}
    for (c, f, b), pts in sorted(kept.items()):
        if len(pts) >= 4:
            for i, p in sorted(pts.items()):
                seen.setdefault((c, f), []).append((b, X[(b, i)], p))
    for (c, f), v in sorted(seen.items()):
        obs.append((c, f, np.array([x[0] for x in v]), np.array([x[1] for x in v]), np.array([x[2] for x in v])))
    frames = {}
    for f in sorted({o[1] for o in obs}):
        best = np.inf
        for T in poses:
            e = 0.0
            for c, ff, _, P, uv in obs:
                if ff == f:
                    e += huber(np.linalg.norm(_res(cams[c], T, P, uv), axis=1)).sum()
                    if e > best:
                        break
            if e < best:
                best, frames[f] = e, T
    return cams, frames, obs, sorted({int(b) for b in A[3]})


def _res(cam, T, P, uv):
    return G.project(G.apply_T(cam[3] @ T, P), tuple(cam[0]), cam[1], cam[2]) - uv


def _step(T, k, h):
    v = np.zeros(6)
    v[k] = h
    return G.T_of(v[:3], v[3:]) @ T


def gain(sc, r, intrinsics=False):
    """(cost of the saved solution, decrease a Gauss-Newton step over poses, structure [and intrinsics] promises, relative to the cost)"""
    cams, frames, obs, boards = solution(sc, r)
    S = J.scale_of(sc)
    ref_c, ref_b = min(cams), boards[0]
    col = {}

    def slot(key, n):
        if key not in col:
            col[key] = (sum(x[1] for x in col.values()), n)
        return col[key][0]
    for f in frames:
        slot(("f", f), 6)
    for c in sorted({o[0] for o in obs}):
        if c != ref_c:
            slot(("c", c), 6)
        if intrinsics:
            slot(("k", c), 4 + len(cams[c][1]))
    for b in sorted({int(b) for o in obs for b in o[2]}):
        if b != ref_b:
            slot(("b", b), 6)
    n = sum(x[1] for x in col.values())
    H, g, cost = np.zeros((n, n)), np.zeros(n), 0.0
    for c, f, bs, P, uv in obs:
        cam, T = cams[c], frames[f]
        R0 = _res(cam, T, P, uv)
        ln = np.linalg.norm(R0, axis=1)
        cost += huber(ln).sum()
        w = np.where(ln <= 1, 1.0, 1 / np.maximum(ln, 1))
        cols, idx = [], []

        def add(fn, j):
            cols.append((fn(1) - fn(-1)).ravel() / 2)
            idx.append(j)
        hr, ht = 1e-5, 1e-5 * S
        for k in range(6):
            h = hr if k < 3 else ht
            add(lambda s, k=k, h=h: _res(cam, _step(T, k, s * h), P, uv) / h, col[("f", f)][0] + k)
            if c != ref_c:
                add(lambda s, k=k, h=h: _res([cam[0], cam[1], cam[2], _step(cam[3], k, s * h)], T, P, uv) / h, col[("c", c)][0] + k)
            for b in sorted(set(bs.tolist())):
                if b != ref_b:
                    def fn(s, k=k, h=h, b=b):
                        Q = P.copy()
                        v = np.zeros(6)
                        v[k] = s * h
                        Q[bs == b] = G.apply_T(G.T_of(v[:3], v[3:]), P[bs == b])
                        return _res(cam, T, Q, uv) / h
                    add(fn, col[("b", b)][0] + k)
        if intrinsics:
            for k in range(4 + len(cam[1])):
                h = 1e-3 if k < 4 else 1e-6

                def fn(s, k=k, h=h):
                    K, d = cam[0].copy(), cam[1].copy()
                    if k < 4:
                        K[k] += s * h
                    else:
                        d[k - 4] += s * h
                    return _res([K, d, cam[2], cam[3]], T, P, uv) / h
                add(fn, col[("k", c)][0] + k)
        Jm = np.stack(cols, 1)
        W = np.repeat(w, 2)
        idx = np.array(idx)
        H[np.ix_(idx, idx)] += Jm.T @ (W[:, None] * Jm)
        g[idx] += Jm.T @ (W * R0.ravel())
    D = 1 / np.sqrt(np.maximum(np.diag(H), 1e-30))
    x = np.linalg.lstsq(H * D[:, None] * D[None], g * D, rcond=1e-12)[0]
    return cost, float(0.5 * (g * D) @ x) / max(cost, 1e-12)
