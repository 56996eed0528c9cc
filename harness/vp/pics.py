"""Pictures of charuco boards: where boards lie in the image, which corners can be seen, and drawing through the render driver."""
import numpy as np

from . import geom as G
from .drv import lst
from .scene import brown_ok, make_camera  # noqa: F401


def markers_of(nx, ny):
    """squares holding a marker, in marker order"""
    return [(x, y) for y in range(ny) for x in range(nx) if (x + y) % 2 == 1]


def first_id(sizes, index):
    return sum(len(markers_of(*sizes[i])) for i in range(index))


def corner_markers(nx, ny):
    """for every inner corner, the two markers next to it"""
    n = {s: k for k, s in enumerate(markers_of(nx, ny))}
    return [[n[s] for s in ((x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)) if s in n] for y in range(ny - 1) for x in range(nx - 1)]


def outline(nx, ny, margin, n=7):
    """points on the board's edge, in squares with the first inner corner at the origin"""
    a, b = np.array([-1 - margin, -1 - margin]), np.array([nx - 1 + margin, ny - 1 + margin])
    t = np.linspace(0, 1, n)[:-1]
    return np.concatenate([np.stack([a[0] + (b[0] - a[0]) * t, 0 * t + a[1]], 1), np.stack([0 * t + b[0], a[1] + (b[1] - a[1]) * t], 1),
                           np.stack([b[0] + (a[0] - b[0]) * t, 0 * t + b[1]], 1), np.stack([0 * t + a[0], b[1] + (a[1] - b[1]) * t], 1)])


def square_poly(s, grow, n=4):
    x, y = s[0] - 1, s[1] - 1
    t = np.linspace(0, 1, n)[:-1]
    a, b = 0.5 - grow / 2, 0.5 + grow / 2
    e = a + (b - a) * t
    return np.concatenate([np.stack([x + e, 0 * e + y + a], 1), np.stack([0 * e + x + b, y + e], 1), np.stack([x + a + b - e, 0 * e + y + b], 1), np.stack([0 * e + x + a, y + a + b - e], 1)])


class Shot:
    """one board in one picture"""

    def __init__(self, size, T, sq=1.0, ratio=0.75, margin=0.3, first=0):
        self.size, self.T, self.sq, self.ratio, self.margin, self.first = tuple(size), T, sq, ratio, margin, first
        self.dark, self.light = 20.0, 235.0
        self.hidden = []     # markers covered by a patch

    def px(self, cam, P):
        """pixels of points given in squares on the board"""
        P = np.asarray(P, float)
        X = G.apply_T(self.T, np.concatenate([P * self.sq, np.zeros((len(P), 1))], 1))
        return G.project(X, cam["K"], cam["d"], cam["model"]), X

    def corners(self, cam):
        nx, ny = self.size
        return self.px(cam, [[x, y] for y in range(ny - 1) for x in range(nx - 1)])[0]

    def sound(self, cam):
        """the whole board lies where the camera model is one-to-one"""
        _, X = self.px(cam, outline(*self.size, self.margin))
        if X[:, 2].min() <= 0.1 * self.sq:
            return False
        r = np.hypot(X[:, 0], X[:, 1]) / X[:, 2]
        return brown_ok(cam["d"], r.max()) if cam["model"] == 0 else np.degrees(np.arctan(r.max())) < 72

    def scale(self, cam):
        """smallest size of a square in pixels, in any direction, over the board"""
        nx, ny = self.size
        g = np.array([[x, y] for y in np.linspace(-1, ny - 1, 4) for x in np.linspace(-1, nx - 1, 4)])
        e = 1e-4
        a, b, c = self.px(cam, g)[0], self.px(cam, g + [e, 0])[0], self.px(cam, g + [0, e])[0]
        J = np.stack([(b - a) / e, (c - a) / e], 2)
        return float(np.linalg.svd(J, compute_uv=False)[:, 1].min())

    def bbox(self, cam):
        uv = self.px(cam, outline(*self.size, self.margin))[0]
        return uv.min(0), uv.max(0)

    def inside(self, cam, edge):
        """markers lying in the picture by this many pixels, and markers cut off"""
        full, cut = [], []
        for k, s in enumerate(markers_of(*self.size)):
            uv = self.px(cam, square_poly(s, self.ratio))[0]
            d = min(uv.min(), cam["w"] - 1 - uv[:, 0].max(), cam["h"] - 1 - uv[:, 1].max())
            (full if d >= edge else cut).append(k)
        return full, cut

    def seen(self, vis):
        """corners with both neighbouring markers among the visible ones"""
        v = set(vis)
        return [i for i, m in enumerate(corner_markers(*self.size)) if all(k in v for k in m)]


def unit(v):
    return v / np.linalg.norm(v)


def place_shot(rng, cam, size, scale, tilt, others=(), cut=False, ratio=0.75, margin=0.3, tries=200):
    """a board whose smallest square measures about this many pixels; None when it does not fit"""
    nx, ny = size
    fx = (cam["K"][0] + cam["K"][1]) / 2
    for _ in range(tries):
        rad = 0.0 if cut else 0.5 * scale * np.hypot(nx + 2 * margin, ny + 2 * margin) * rng.uniform(0.75, 1)
        q = [x / 2 if x < 2 * rad else rng.uniform(rad, x - rad) for x in (cam["w"], cam["h"])]
        mx, my = (q[0] - cam["K"][2]) / cam["K"][0], (q[1] - cam["K"][3]) / cam["K"][1]
        rd = np.hypot(mx, my)
        if cam["model"] == 0:
            ray = unit(np.array([mx, my, 1.0]))
        elif rd > np.radians(62):
            continue
        else:
            ray = np.array([np.sin(rd) * mx / (rd + 1e-12), np.sin(rd) * my / (rd + 1e-12), np.cos(rd)])
        t = np.radians(tilt * rng.uniform(0.3, 1))
        a = np.cross(ray, rng.normal(size=3))
        R = G.rodrigues(unit(a) * t) @ _facing(ray) @ G.rodrigues(np.array([0, 0, rng.uniform(0, 2 * np.pi)]))
        z = fx / scale * np.cos(t)
        c = np.array([(nx - 2) / 2, (ny - 2) / 2, 0])
        s = Shot(size, G_T(R, ray * z - R @ c), 1.0, ratio, margin)
        if not s.sound(cam):
            continue
        k = s.scale(cam)
        z *= k / scale
        s.T = G_T(R, ray * z - R @ c)
        if not s.sound(cam) or not 0.9 * scale <= s.scale(cam) <= 1.6 * scale:
            continue
        lo, hi = s.bbox(cam)
        out = lo.min() < 6 or hi[0] > cam["w"] - 7 or hi[1] > cam["h"] - 7
        if out and not cut:
            continue
        if cut:
            vis, _ = s.inside(cam, 6)
            if not out or not 4 <= len(vis) < len(markers_of(nx, ny)):
                continue
        if any((lo < h2 + 8).all() and (l2 - 8 < hi).all() for l2, h2 in (o.bbox(cam) for o in others)):
            continue
        return s
    return None


def G_T(R, t):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = R, t
    return T


def _facing(ray):
    """rotation turning the z axis to this direction"""
    z = np.array([0, 0, 1.0])
    a = np.cross(z, ray)
    n = np.linalg.norm(a)
    return np.eye(3) if n < 1e-12 else G.rodrigues(a / n * np.arctan2(n, ray[2]))


def draw(r, path, cam, shots, seed=0, level=170, amp=30, blur=0.0, noise=0.0, colour=0, quality=0, ss=3, patches=()):
    """draw the picture; patches: (grey, pixel polygon) on top"""
    fx, fy, cx, cy = cam["K"]
    a = [path, cam["model"], cam["w"], cam["h"], fx, fy, cx, cy, lst(cam["d"]), ss, seed, level, amp, blur, noise, colour, quality, len(shots)]
    polys = list(patches)
    for s in shots:
        a += [*s.size, s.first, s.sq, s.ratio, s.margin, s.dark, s.light] + list(s.T[:3, :3].ravel()) + list(s.T[:3, 3])
        lo, hi = s.bbox(cam)
        lo, hi = np.clip(np.floor(lo) - 3, -10, 1e5), np.clip(np.ceil(hi) + 3, -10, 1e5)
        a += [int(lo[0]), int(lo[1]), int(hi[0]), int(hi[1])]
        m = markers_of(*s.size)
        for k in s.hidden:
            polys.append((s.light, s.px(cam, square_poly(m[k], min(1.0, s.ratio * 1.08)))[0]))
    a.append(len(polys))
    for g, p in polys:
        a += [g, lst(np.asarray(p, float))]
    r.call("render", *a)


def read(r, path):
    rep = r.call("imread", path)
    h, w = rep.i(), rep.i()
    if h == 0:
        return None
    return np.frombuffer(bytes.fromhex(rep.word()), np.uint8).reshape(h, w, 3)
