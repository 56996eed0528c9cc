"""Shared Hypothesis strategies."""
import numpy as np
from hypothesis import strategies as st

from . import geom as G

fin = dict(allow_nan=False, allow_infinity=False, allow_subnormal=False)
unit = st.floats(-1, 1, **fin)
seeds = st.integers(0, 2 ** 31 - 1)


def _rv(t):
    x, y, z, a = t
    v = np.array([x, y, z])
    n = np.linalg.norm(v)
    if n < 1e-6:
        v, n = np.array([0, 0, 1.0]), 1.0
    return (v / n * a).tolist()


angles = st.one_of(st.floats(0, np.pi, **fin), st.floats(0, np.pi, **fin), st.floats(1e-4, 0.05, **fin),
                   st.sampled_from([0.0, 1e-9, 1e-7, 1e-4, np.pi / 2, np.pi - 1e-3, np.pi - 1e-7, np.pi]),
                   st.floats(np.pi, 2 * np.pi - 1e-2, **fin))
axes = st.one_of(st.tuples(unit, unit, unit), st.sampled_from([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 1.0, 0.0), (-1.0, 0.0, 1.0)]))
# axes close to a coordinate axis, where conversions switch between formulas
lean = st.tuples(st.permutations([0, 1, 2]), st.floats(-9, -0.5, **fin), unit, st.sampled_from([1.0, -1.0])).map(
    lambda t: tuple((t[3], 10.0 ** t[1], t[2] * 10.0 ** t[1])[k] for k in t[0]))
axes = st.one_of(axes, axes, lean)
rotvec = st.tuples(axes, angles).map(lambda t: _rv((*t[0], t[1])))
rotvec_mild = st.tuples(axes, st.floats(0, 3.0, **fin)).map(lambda t: _rv((*t[0], t[1])))
scale = st.sampled_from([1e-3, 0.1, 1.0, 10.0, 1000.0])
trans = st.tuples(unit, unit, unit, scale).map(lambda t: [t[0] * t[3], t[1] * t[3], t[2] * t[3]])
