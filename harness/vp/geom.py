"""Independent numpy reference models: SE(3), camera models, averages."""
import numpy as np


def rodrigues(r):
    r = np.asarray(r, float).reshape(3)
    th = np.linalg.norm(r)
    if th < 1e-12:
        K = np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]])
        return np.eye(3) + K
    k = r / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K


def log_so3(R):
    R = np.asarray(R, float)
    q = quat_from_R(R)
    v, w = q[:3], q[3]
    n = np.linalg.norm(v)
    if n < 1e-15:
        return np.zeros(3)
    ang = 2 * np.arctan2(n, w)
    return v / n * ang


def quat_from_R(R):
    """x y z w, w>=0, numerically safe for every rotation."""
    m = np.asarray(R, float)
    K = np.array([
        [m[0, 0] - m[1, 1] - m[2, 2], m[1, 0] + m[0, 1], m[2, 0] + m[0, 2], m[2, 1] - m[1, 2]],
        [m[1, 0] + m[0, 1], m[1, 1] - m[0, 0] - m[2, 2], m[2, 1] + m[1, 2], m[0, 2] - m[2, 0]],
        [m[2, 0] + m[0, 2], m[2, 1] + m[1, 2], m[2, 2] - m[0, 0] - m[1, 1], m[1, 0] - m[0, 1]],
        [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1], m[0, 0] + m[1, 1] + m[2, 2]]]) / 3.0
    w, V = np.linalg.eigh(K)
    q = V[:, -1]
    return q if q[3] >= 0 else -q


def rot_angle(R):
    """geodesic angle (rad) of a rotation, accurate near 0 and pi."""
    R = np.asarray(R, float)
    s = np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    c = (np.trace(R) - 1) / 2
    return float(np.arctan2(s, c))


def T_of(r, t):
    T = np.eye(4)
    T[:3, :3] = rodrigues(r)
    T[:3, 3] = np.asarray(t, float).reshape(3)
    return T


def vec_of(T):
    return np.concatenate([log_so3(T[:3, :3]), T[:3, 3]])


def inv_T(T):
    I = np.eye(4)
    I[:3, :3] = T[:3, :3].T
    I[:3, 3] = -T[:3, :3].T @ T[:3, 3]
    return I


def apply_T(T, P):
    P = np.asarray(P, float).reshape(-1, 3)
    return P @ T[:3, :3].T + T[:3, 3]


def brown(pts_cam, K, d):
    """K=(fx,fy,cx,cy), d=(k1,k2,p1,p2,k3)"""
    fx, fy, cx, cy = K
    k1, k2, p1, p2, k3 = d
    x = pts_cam[:, 0] / pts_cam[:, 2]
    y = pts_cam[:, 1] / pts_cam[:, 2]
    r2 = x * x + y * y
    rad = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
    xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
    yd = y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
    return np.stack([fx * xd + cx, fy * yd + cy], 1)


def kannala(pts_cam, K, d):
    fx, fy, cx, cy = K
    k1, k2, k3, k4 = d[:4]
    x = pts_cam[:, 0] / pts_cam[:, 2]
    y = pts_cam[:, 1] / pts_cam[:, 2]
    r = np.sqrt(x * x + y * y)
    th = np.arctan(r)
    t2 = th * th
    thd = th * (1 + t2 * (k1 + t2 * (k2 + t2 * (k3 + t2 * k4))))
    s = np.where(r > 1e-12, thd / np.where(r > 1e-12, r, 1), 1.0)
    return np.stack([fx * x * s + cx, fy * y * s + cy], 1)


def project(pts_cam, K, d, model):
    pts_cam = np.asarray(pts_cam, float).reshape(-1, 3)
    return brown(pts_cam, K, d) if model == 0 else kannala(pts_cam, K, d)


def markley(Rs):
    """quaternion average: argmax sum (q.q_i)^2; returns (R, eigen gap)"""
    A = np.zeros((4, 4))
    for R in Rs:
        q = quat_from_R(R)
        A += np.outer(q, q)
    A /= len(Rs)
    w, V = np.linalg.eigh(A)
    q = V[:, -1]
    return R_from_quat(q), float(w[-1] - w[-2])


def R_from_quat(q):
    x, y, z, w = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rand_R(rng, max_angle=np.pi):
    a = rng.normal(size=3)
    a /= np.linalg.norm(a)
    return rodrigues(a * rng.uniform(0, max_angle))


def look_at(eye, target, roll=0.0):
    """camera pose (cam->world) with z towards target, x roughly right"""
    eye = np.asarray(eye, float)
    z = np.asarray(target, float) - eye
    z = z / np.linalg.norm(z)
    up = np.array([0, 1.0, 0]) if abs(z[1]) < 0.95 else np.array([1.0, 0, 0])
    x = np.cross(up, z)
    x /= np.linalg.norm(x)
    y = np.cross(z, x)
    R = np.stack([x, y, z], 1) @ rodrigues([0, 0, roll])
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = eye
    return T
