"""C14: residuals of the refinements are the true reprojection errors."""
import numpy as np
from hypothesis import strategies as st

from vp import geom as G, strat as S
from vp.drv import lst, m, ms
from vp.runner import Part, require
from vp.scene import make_camera

PROPERTY = "C14"
TECHNIQUE = "property-based testing (Hypothesis): differential against an independent numpy camera model, with finite-difference derivatives, and metamorphic irrelevance of the reference blocks"
BUILD = ["drv_math:rel"]
RULE = ("a residual case is non-trivial when the point is in front of the camera, off the optical axis and distorted; every case draws its own "
        "camera, transforms, point, observation and flags; distinct by full description")
ASSUMPTIONS = ["points lie in front of the camera (depth above a twentieth of their distance), as for every real observation"]


def intr9(cam):
    d = list(cam["d"])
    return list(cam["K"]) + (d if cam["model"] == 0 else d + [0.77])   # the ninth entry of a fisheye camera is unused


def draw_case(c):
    """camera, block transforms and the point such that the composed point is in front of the camera"""
    rng = np.random.default_rng(c["seed"])
    cam = make_camera(rng, c["model"], dist=c["dist"])
    sc = c["scale"]
    z = rng.uniform(0.3, 6.0)
    lim = {"axis": 0.0, "near": 1e-9, "centre": 0.05, "wide": 0.9 if c["model"] == 0 else 2.5}[c["where"]]
    a = rng.uniform(0, 2 * np.pi)
    r = lim * rng.uniform(0.2, 1)
    P = np.array([r * np.cos(a) * z, r * np.sin(a) * z, z]) * sc      # in camera coordinates
    def T(big):
        R = G.rodrigues(G.log_so3(G.rand_R(rng, np.pi if big else 0.3)))
        M = np.eye(4)
        M[:3, :3] = R
        M[:3, 3] = rng.uniform(-2, 2, 3) * sc
        return M
    Tc, To, Tb = T(c["big"]), T(c["big"]), T(c["big"])
    if c["identity"]:
        Tb = np.eye(4)
        Tc = np.eye(4)
    return rng, cam, Tc, To, Tb, P


def compose(kind, rc, rb, vc, vo, vb, X):
    """camera point from the parameter blocks, as documented"""
    P = np.asarray(X, float).reshape(1, 3)
    if kind in (1, 3, 4) and rb:
        P = G.apply_T(G.T_of(vb[:3], vb[3:]), P)
    P = G.apply_T(G.T_of(vo[:3], vo[3:]), P)
    if kind in (2, 3, 4) and rc:
        P = G.apply_T(G.T_of(vc[:3], vc[3:]), P)
    return P


def run_resid(ctx, c):
    kind, rc, rb = c["kind"], c["rc"], c["rb"]
    rng, cam, Tc, To, Tb, P = draw_case(c)
    # choose the object pose so that the full chain maps X to P
    X = rng.uniform(-1, 1, 3) * c["scale"]
    if c["planar"]:
        X[2] = 0
    pre = Tb if (kind in (1, 3, 4) and rb) else np.eye(4)
    post = Tc if (kind in (2, 3, 4) and rc) else np.eye(4)
    p_in = G.apply_T(pre, X[None])[0]
    p_out = G.apply_T(G.inv_T(post), P[None])[0]
    To[:3, 3] = p_out - To[:3, :3] @ p_in
    vc, vo, vb = G.vec_of(Tc), G.vec_of(To), G.vec_of(Tb)
    q = np.array(intr9(cam))
    fullP = compose(kind, rc, rb, vc, vo, vb, X)
    uv = G.project(fullP, q[:4], q[4:9] if c["model"] == 0 else q[4:8], c["model"])[0]
    u, v = uv + rng.uniform(-c["off"], c["off"], 2)
    blocks = {0: [vo, q], 1: [vo, vb], 2: [vc, vo], 3: [vc, vo, vb], 4: [vc, vo, vb, q]}[kind]
    args = [kind, float(u), float(v)] + [float(t) for t in X] + [c["model"]]
    D = ctx.drv("drv_math:rel")

    def call(blocks, rc=rc, rb=rb):
        a = args + lst(q) + [rc, rb, len(blocks)]
        for b in blocks:
            a += lst(b)
        r = D.call("resid", *a)
        ok = r.i()
        res = np.array([r.d(), r.d()])
        res0 = np.array([r.d(), r.d()])
        return ok, res, res0, [r.vec().reshape(2, -1) for _ in blocks]

    ok, res, res0, J = call(blocks)
    require(ok, "residual could not be evaluated")
    exp = uv - [u, v]
    tol = 1e-8 * (1 + np.abs(q[:4]).max() + np.abs(exp).max())
    require(np.abs(res - exp).max() < tol and np.abs(res0 - exp).max() < tol,
            "kind %d model %d: residual %s (without derivatives %s), the projection error is %s" % (kind, c["model"], res, res0, exp))
    # derivatives: central differences of the reference
    names = {0: ["o", "q"], 1: ["o", "b"], 2: ["c", "o"], 3: ["c", "o", "b"], 4: ["c", "o", "b", "q"]}[kind]

    def ref(vals):
        g = {"c": vc, "o": vo, "b": vb, "q": q}
        g.update(vals)
        PP = compose(kind, rc, rb, g["c"], g["o"], g["b"], X)
        qq = g["q"]
        return G.project(PP, qq[:4], qq[4:9] if c["model"] == 0 else qq[4:8], c["model"])[0]

    worst = 0.0
    if c["where"] not in ("axis", "near") or c["model"] == 0:
        for n, b, j in zip(names, blocks, J):
            for k in range(len(b)):
                h = 1e-5 * max(1e-3, abs(b[k]), c["scale"] if n != "q" and k >= 3 else 0, 1.0 if n != "q" and k < 3 else 0)
                if n == "q" and k >= 4:
                    h = 1e-4
                bp, bm = np.array(b, float), np.array(b, float)
                bp[k] += h
                bm[k] -= h
                e = (ref({n: bp}) - ref({n: bm})) / (2 * h)
                s = max(1.0, np.abs(e).max(), np.abs(j[:, k]).max())
                d = np.abs(e - j[:, k]).max() / s
                # curvature and rounding of the difference quotient
                slack = 2e-4 if n != "q" else 1e-5
                require(d < slack, "kind %d model %d: derivative of the residual by entry %d of block %s is %s, expected %s",
                        kind, c["model"], k, n, j[:, k], e)
                worst = max(worst, d)
    else:
        for n, j in zip(names, J):
            require(np.isfinite(j).all(), "derivative by block %s is not finite on the optical axis: %s", n, j.tolist())
    # blocks declared fixed have no influence
    for n, flag in (("c", rc), ("b", rb)):
        if n in names and not flag:
            k = names.index(n)
            require(np.abs(J[k]).max() == 0, "block %s is declared fixed but its derivative is %s", n, J[k].tolist())
            b2 = [x if i != k else np.array(x) + rng.uniform(-0.5, 0.5, 6) for i, x in enumerate(blocks)]
            _, r2, r20, _ = call(b2)
            require(np.abs(r2 - res).max() < tol * 1e-2 and np.abs(r20 - res).max() < tol * 1e-2,
                    "block %s is declared fixed but changing it moves the residual from %s to %s", n, res.tolist(), r2.tolist())
    return {"nontrivial": c["where"] != "axis" and c["dist"] > 0, "max": {"relative derivative error": worst},
            "labels": ["kind %d" % kind, "fisheye" if c["model"] else "perspective", c["where"]]}


def run_project(ctx, c):
    rng, cam, Tc, To, Tb, _ = draw_case(dict(c, big=True, identity=False))
    n = c["n"]
    z = rng.uniform(0.3, 5, n)
    lim = 0.9 if c["model"] == 0 else 2.5
    a, r = rng.uniform(0, 2 * np.pi, n), lim * np.sqrt(rng.uniform(0, 1, n))
    P = np.stack([r * np.cos(a) * z, r * np.sin(a) * z, z], 1) * c["scale"]
    X = G.apply_T(G.inv_T(To), P).astype(np.float32).astype(float)
    D = ctx.drv("drv_math:rel")
    rv = G.log_so3(To[:3, :3])
    rvm = rv.reshape(1, 3) if c["row"] else rv.reshape(3, 1)
    K = np.array([[cam["K"][0], 0, cam["K"][2]], [0, cam["K"][1], cam["K"][3]], [0, 0, 1]])
    rep = D.call("project", lst(X), ms(rvm), ms(To[:3, 3].reshape(rvm.shape)), m(K), ms(np.array(cam["d"]).reshape(1, -1)), c["model"])
    got = rep.pts(2)
    exp = G.project(G.apply_T(To, X), cam["K"], cam["d"], c["model"])
    require(got.shape == exp.shape, "%d points projected to %d", n, len(got))
    d = np.abs(got - exp).max() if n else 0.0
    require(d < 2e-3, "model %d: projected point is %.3g px away from the documented camera model", c["model"], d)
    return {"nontrivial": n > 0, "labels": ["fisheye" if c["model"] else "perspective"], "max": {"px": float(d)}}


resid = st.fixed_dictionaries({
    "seed": S.seeds, "kind": st.integers(0, 4), "model": st.integers(0, 1), "rc": st.booleans(), "rb": st.booleans(),
    "dist": st.sampled_from([0.0, 1.0, 1.0, 2.0]), "where": st.sampled_from(["axis", "near", "centre", "wide", "wide"]),
    "big": st.booleans(), "identity": st.booleans(), "planar": st.booleans(), "scale": st.sampled_from([0.05, 1.0, 100.0]),
    "off": st.sampled_from([0.0, 0.5, 30.0])})
proj = st.fixed_dictionaries({
    "seed": S.seeds, "model": st.integers(0, 1), "dist": st.sampled_from([0.0, 1.0, 1.0, 2.0]), "where": st.just("wide"),
    "scale": st.sampled_from([0.05, 1.0, 100.0]), "n": st.integers(1, 40), "row": st.booleans()})
PARTS = [
    Part("residual", resid, run_resid, 6000, 150000),
    Part("projection", proj, run_project, 1500, 30000),
]
