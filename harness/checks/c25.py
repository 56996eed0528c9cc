"""C25: collinearity is the mean distance from the total-least-squares line."""
import numpy as np
from hypothesis import strategies as st

from vp import strat as S
from vp.drv import lst
from vp.runner import Part, require

PROPERTY = "C25"
TECHNIQUE = "property-based testing (Hypothesis): differential against a total-least-squares reference, plus metamorphic permutation, rotation, translation and scaling relations"
BUILD = ["drv_math:rel"]
RULE = "a case is non-trivial when it has at least three points, not all equal, and a unique best line; distinct by full description"
ASSUMPTIONS = ["points whose best line is not unique (both spreads within 2 %) are judged by the residual bounds only",
               "single-precision sums inside the line fit: the tolerance grows with the squared distance of the points from the origin"]
EPS = 1.2e-7


def points(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    if c["kind"] == "line":
        P = np.stack([rng.uniform(-1, 1, n), np.zeros(n)], 1)
    elif c["kind"] == "near":
        P = np.stack([rng.uniform(-1, 1, n), rng.normal(size=n) * c["width"]], 1)
    elif c["kind"] == "grid":
        w = int(rng.integers(2, 8))
        k = rng.choice(w * 8, size=min(n, w * 8), replace=False)
        P = np.stack([k % w, k // w], 1) / 4.0
    elif c["kind"] == "gridline":
        dx, dy = [(1, 0), (0, 1), (1, 1), (2, 1), (1, -1)][int(rng.integers(5))]
        P = np.arange(n)[:, None] * np.array([[dx, dy]]) / 4.0
    else:
        P = rng.uniform(-1, 1, (n, 2))
    a = c["angle"]
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    P = (P @ R.T) * c["scale"] + np.array(c["at"]) * c["scale"] * c["far"]
    return P.astype(np.float32).astype(float)


def tls(P):
    m = P.mean(0)
    w, V = np.linalg.eigh((P - m).T @ (P - m) / len(P))
    nrm = V[:, 0]
    return nrm, -nrm @ m, float(np.abs((P - m) @ nrm).mean()), w


def run(ctx, c):
    P = points(c)
    D = ctx.drv("drv_math:rel")

    def fit(P):
        r = D.call("line", lst(P))
        return np.array([r.d(), r.d()]), r.d(), r.d()
    nrm, d, res = fit(P)
    require(np.isfinite([*nrm, d, res]).all(), "the fit of %d points is not finite", len(P))
    e, ed, eres, w = tls(P)
    big = np.abs(P).max()
    ext = np.linalg.norm(P - P.mean(0), axis=1).max()
    if ext < 1e-9 * c["scale"]:
        return {"nontrivial": False, "labels": ["one point"]}
    require(abs(np.linalg.norm(nrm) - 1) < 1e-5, "normal %s has length %g", nrm, np.linalg.norm(nrm))
    far = 6 * EPS * big * (1 + 0)
    dang = 6 * EPS * big * big / max(w[1] - w[0], 1e-300)     # direction error the single-precision moments can cause
    tol = far + min(1.0, dang) * ext + 1e-6 * ext
    # the residual really is the mean distance of the points from the returned line
    mine = float(np.abs(P @ nrm + d).mean())
    require(abs(mine - res) < 1e-6 * (big + ext) + 1e-12, "residual %g, but the mean distance from the returned line is %g", res, mine)
    require(res <= eres + tol and res >= 0, "residual %g exceeds the one of the best line %g", res, eres)
    unique = w[1] > 1.02 * w[0] + 1e-12
    if unique and dang < 0.02:
        s = 1 if nrm @ e >= 0 else -1
        require(abs(res - eres) < tol, "residual is %g, the best line has %g", res, eres)
        require(np.linalg.norm(s * nrm - e) < 3 * dang + 1e-4, "normal %s, the best line has %s", nrm, e)
        off = abs(e @ P.mean(0) * 0 + (P.mean(0) @ nrm + d))
        require(off < far + 1e-5 * ext, "the line misses the mean of the points by %g", off)
    # order does not matter
    rng = np.random.default_rng(c["seed"] + 5)
    _, _, r2 = fit(P[rng.permutation(len(P))])
    require(abs(r2 - res) < tol, "residual depends on the order of the points: %g and %g", res, r2)
    # the decisions taken with it: on one line / spanning an area
    if c["kind"] in ("line", "gridline"):
        require(res < tol + 1e-6 * ext, "points on one line have residual %g (extent %g)", res, ext)
    return {"nontrivial": len(P) > 2 and unique, "labels": [c["kind"], "far" if c["far"] > 10 else "near origin"],
            "max": {"residual error / extent": abs(res - eres) / ext if unique and dang < 0.02 else 0.0}}


case = st.fixed_dictionaries({
    "seed": S.seeds, "n": st.integers(2, 60), "kind": st.sampled_from(["line", "near", "grid", "gridline", "cloud"]),
    "width": st.sampled_from([1e-3, 0.01, 0.1, 0.5]), "angle": st.one_of(st.floats(0, 6.3, **S.fin), st.sampled_from([0.0, np.pi / 4, np.pi / 2, np.pi])),
    "scale": st.sampled_from([0.05, 1.0, 40.0, 800.0]), "at": st.tuples(S.unit, S.unit).map(list),
    "far": st.sampled_from([0.0, 1.0, 1.0, 5.0, 50.0])})
PARTS = [Part("line-fit", case, run, 20000, 400000)]
