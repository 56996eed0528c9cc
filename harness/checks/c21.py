"""C21: saddle refinement converges to the rendered corner or says it failed."""
import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import gaussian_filter
from scipy.special import erf

from vp import strat as S
from vp.drv import lst
from vp.runner import Part, require

PROPERTY = "C21"
TECHNIQUE = "property-based testing (Hypothesis): rendered corners as ground truth, plus metamorphic locality, mirroring, transposition, contrast and list-independence relations; a second part runs arbitrary images and starts under AddressSanitizer/UBSan"
BUILD = ["drv_math:rel", "drv_math:asan"]
RULE = "a case is non-trivial when at least one start lies within 0.6 px of a rendered corner that is clear of its neighbours and of the border (part corners), or at least one start lies inside the image (part anything)"
ASSUMPTIONS = ["accuracy is claimed for corners with at least 0.4 px of blur and 8 % contrast whose straight edges extend over the window used, and at least half a window + 4 px away from the border",
               "pixel centres are at integer coordinates"]


def checker(c):
    """a checkerboard of spacing s under an affine map with slight perspective, around (w/2, h/2)"""
    rng = np.random.default_rng(c["seed"])
    half = c["half"]
    sp = 4.0 * half + 8 + 4 * rng.random()
    a, b = c["angle"], c["angle"] + np.pi / 2 + c["skew"]
    w, h = c["w"], c["h"]
    o = np.array([w / 2 + rng.uniform(-2, 2), h / 2 + rng.uniform(-2, 2)])
    H = np.array([[sp * np.cos(a), sp * np.cos(b), o[0]], [sp * np.sin(a), sp * np.sin(b), o[1]], [0, 0, 1.0]])
    p = c["persp"]
    H = H + np.outer([o[0], o[1], 1], [p * rng.uniform(-1, 1), p * rng.uniform(-1, 1), 0])
    X, Y = np.meshgrid(np.arange(w), np.arange(h))
    Hi = np.linalg.inv(H)
    D = Hi[2, 0] * X + Hi[2, 1] * Y + Hi[2, 2]
    sig = np.hypot(c["blur"], 0.29)              # optics and the pixel's own area
    prod = 1.0
    for r in (0, 1):
        U = (Hi[r, 0] * X + Hi[r, 1] * Y + Hi[r, 2]) / D
        g = np.hypot((Hi[r, 0] - U * Hi[2, 0]) / D, (Hi[r, 1] - U * Hi[2, 1]) / D)
        n = np.rint(U)
        prod = prod * erf((U - n) / g / (np.sqrt(2) * sig)) * np.where(n % 2, -1, 1)
    im = 0.5 + 0.5 * prod
    lo = c["low"]
    im = lo + (c["contrast"]) * im
    if c["noise"]:
        im = im + rng.normal(size=im.shape) * c["noise"] * c["contrast"]
    im = np.clip(np.rint(im), 0, 255).astype(np.uint8)
    ij = np.array([[i, j, 1] for i in range(-8, 9) for j in range(-8, 9)], float) @ H.T
    xy = ij[:, :2] / ij[:, 2:]
    ok = (ij[:, 2] > 0.2) & (xy[:, 0] > -1) & (xy[:, 0] < w) & (xy[:, 1] > -1) & (xy[:, 1] < h)
    return im, xy[ok]


def refine(D, im, pts, half, it, pre=0):
    h, w = im.shape
    r = D.call("saddle", h, w, im.tobytes().hex(), lst(np.asarray(pts, float)), half, it, pre)
    out = np.array(r.pts(2), float).reshape(-1, 2)
    require(len(out) == len(pts), "%d starts gave %d results", len(pts), len(out))
    return out


def sane(pts, out, w, h, half):
    for p, q in zip(pts, out):
        if np.isinf(q).all():
            continue
        require(np.isfinite(q).all(), "start %s gave %s: neither a position nor a clear failure", p, q)
        require(-0.5 <= q[0] <= w - 0.5 and -0.5 <= q[1] <= h - 0.5, "start %s gave %s outside the %dx%d image", p, q, w, h)
        require(np.abs(q - p).max() <= half + 0.01, "start %s moved to %s, out of the window of %d px", p, q, half)


def run(ctx, c):
    D = ctx.drv("drv_math:rel")
    im, true = checker(c)
    w, h, half, it = c["w"], c["h"], c["half"], 20
    rng = np.random.default_rng(c["seed"] + 1)
    starts, truth = [], []
    for t in true:
        d = c["off"] * (0.3 + 0.7 * rng.random())
        a = rng.uniform(0, 2 * np.pi)
        starts.append((t + d * np.array([np.cos(a), np.sin(a)])).astype(np.float32))
        truth.append(t)
    if not starts:
        return {"nontrivial": False, "labels": ["no corner"]}
    o = rng.permutation(len(starts))
    starts, truth = np.array(starts, float)[o], np.array(truth)[o]
    out = refine(D, im, starts, half, it, c["pre"])
    sane(starts, out, w, h, half)
    margin = half + 4
    good, worst, conv = 0, 0.0, 0
    tol = 0.03 + 5 * c["noise"] + 2.5 / c["contrast"]
    for p, q, t in zip(starts, out, truth):
        clear = margin <= t[0] <= w - 1 - margin and margin <= t[1] <= h - 1 - margin
        if not clear:
            if np.isfinite(q).all() and c["off"] <= 0.6:
                e = float(np.linalg.norm(q - t))
                require(e < tol + 0.35, "start %s near the border gave %s, the corner is at %s (%.3f px away)", p, q, t, e)
            continue
        if c["off"] <= 0.6:
            good += 1
            require(np.isfinite(q).all(), "start %s, %.2f px from the corner %s, was given up", p, np.linalg.norm(p - t), t)
        if np.isfinite(q).all():
            conv += 1
            e = float(np.linalg.norm(q - t))
            worst = max(worst, e)
            require(e < tol, "start %s gave %s, the corner is at %s (%.3f px away)", p, q, t, e)
    # each point is refined on its own
    k = int(rng.integers(len(starts)))
    one = refine(D, im, starts[k:k + 1], half, it)
    require(np.allclose(one[0], out[k], atol=1e-9), "start %s gives %s alone and %s in a list", starts[k], one[0], out[k])
    # only the neighbourhood matters
    im2 = im.copy()
    p = starts[k]
    r = 2 * half + 4
    Y, X = np.mgrid[0:h, 0:w]
    far = (np.abs(X - p[0]) > r) | (np.abs(Y - p[1]) > r)
    im2[far] = rng.integers(0, 256, far.sum())
    two = refine(D, im2, starts[k:k + 1], half, it)
    require(np.allclose(two[0], out[k], atol=1e-6), "start %s gives %s, and %s after changing pixels more than %d px away", p, out[k], two[0], r)
    # negative, transposed and mirrored pictures
    # the single-precision kernel sums and the grid the steps start from bound the agreement
    for name, jm, f, g in [("negative", 255 - im, lambda q: q, lambda q: q),
                           ("transposed", np.ascontiguousarray(im.T), lambda q: q[:, ::-1], lambda q: q[:, ::-1]),
                           ("mirrored", np.ascontiguousarray(im[:, ::-1]), lambda q: np.stack([w - 1 - q[:, 0], q[:, 1]], 1),
                            lambda q: np.stack([w - 1 - q[:, 0], q[:, 1]], 1))]:
        o2 = g(refine(D, jm, f(starts), half, it))
        for p, q, q2, t in zip(starts, out, o2, truth):
            if not (margin <= t[0] <= w - 1 - margin and margin <= t[1] <= h - 1 - margin) or c["off"] > 0.6:
                continue
            require(np.abs(q - q2).max() < 0.01, "start %s gives %s, and %s on the %s picture", p, q, q2, name)
    return {"nontrivial": good > 0, "labels": ["half %d" % half, "converged" if conv else "none converged", "off %.1f" % c["off"]],
            "max": {"error px": worst, "error / tolerance": worst / tol}}


def run_any(ctx, c):
    D = ctx.drv("drv_math:asan")
    rng = np.random.default_rng(c["seed"])
    w, h, half = c["w"], c["h"], c["half"]
    k = c["kind"]
    if k == "flat":
        im = np.full((h, w), int(rng.integers(256)), np.uint8)
    elif k == "random":
        im = rng.integers(0, 256, (h, w)).astype(np.uint8)
    elif k == "smooth":
        f = gaussian_filter(rng.normal(size=(h, w)), 2.5)
        im = np.clip(128 + 127 * f / max(np.abs(f).max(), 1e-9), 0, 255).astype(np.uint8)
    elif k == "edge":
        im = np.where(np.mgrid[0:h, 0:w][1] > w / 2, 200, 30).astype(np.uint8)
    else:
        Y, X = np.mgrid[0:h, 0:w]
        im = (((X // 9 + Y // 9) % 2) * 200 + 20).astype(np.uint8)
    pts = []
    for _ in range(c["n"]):
        z = rng.integers(10)
        if z == 0:
            p = [rng.uniform(0, w), rng.uniform(0, h)]
        elif z == 1:   # borders
            p = [rng.choice([-1, 0, 0.5, half, half + 1, half + 1.001, w - half - 2, w - half - 2.001, w - half - 1, w - 1, w]),
                 rng.uniform(0, h)]
        elif z == 2:
            p = [rng.uniform(0, w), rng.choice([-1, 0, half, half + 1, half + 1.001, h - half - 2, h - half - 2.001, h - half - 1, h - 1, h])]
        elif z == 3:
            p = [w - half - 2 - rng.random() * 0.01, h - half - 2 - rng.random() * 0.01]
        elif z == 4:
            p = [half + 1 + rng.random() * 0.01, half + 1 + rng.random() * 0.01]
        elif z >= 7:   # near the corners of the checker picture
            p = [9 * int(rng.integers(1, 8)) - 0.5 + rng.uniform(-0.6, 0.6), 9 * int(rng.integers(1, 8)) - 0.5 + rng.uniform(-0.6, 0.6)]
        elif z == 5:
            p = [rng.choice([-1e6, 1e6, -1e-3, 1e30, -1e30]), rng.uniform(0, h)]
        else:
            p = [rng.uniform(-3 * w, 3 * w), rng.uniform(-3 * h, 3 * h)]
        pts.append(p)
    pts = np.array(pts, np.float32).astype(float).reshape(-1, 2)
    out = refine(D, im, pts, half, c["it"], c["pre"])
    sane(pts, out, w, h, half)
    for p, q in zip(pts, out):
        inside = -0.5 <= p[0] <= w - 0.5 and -0.5 <= p[1] <= h - 0.5
        require(inside or np.isinf(q).all(), "start %s outside the image gave %s", p, q)
        require(not (k == "flat" and np.isfinite(q).all()), "a corner at %s on a uniform picture", q)
    ins = sum(0 <= p[0] < w and 0 <= p[1] < h for p in pts)
    return {"nontrivial": ins > 0, "labels": [k, "some converged" if np.isfinite(out).any() else "all given up"]}


corner = st.fixed_dictionaries({
    "seed": S.seeds, "half": st.sampled_from([5, 2, 3, 4, 7]), "w": st.integers(60, 110), "h": st.integers(60, 110),
    "angle": st.floats(0, 6.3, **S.fin), "skew": st.floats(-0.6, 0.6, **S.fin), "persp": st.sampled_from([0.01, 0.0, 0.02]),
    "blur": st.sampled_from([0.7, 0.4, 1.0, 1.5]), "noise": st.sampled_from([0.0, 0.0, 0.02]),
    "contrast": st.sampled_from([180, 60, 20, 235]), "low": st.integers(0, 20), "off": st.sampled_from([0.5, 0.3, 0.6, 0.1, 1.5, 4.0]),
    "pre": st.sampled_from([0, 0, 3, 500])})
anything = st.fixed_dictionaries({
    "seed": S.seeds, "half": st.sampled_from([5, 2, 1, 3, 9]), "w": st.one_of(st.integers(24, 70), st.integers(1, 70)), "h": st.one_of(st.integers(24, 70), st.integers(1, 70)),
    "kind": st.sampled_from(["checker", "random", "smooth", "edge", "flat"]), "n": st.integers(0, 20), "it": st.sampled_from([20, 3, 1, 0, 100]),
    "pre": st.sampled_from([0, 0, 3, 500])})
PARTS = [Part("corners", corner, run, 6000, 40000), Part("anything", anything, run_any, 12000, 300000)]
