"""C24: sparse or degenerate observations never corrupt memory."""
import os
import re
import stat

import numpy as np
from hypothesis import strategies as st

from vp import build, drv, e2e, geom as G, judge as J, rigs, strat as S
from vp.runner import Part, Reject, Violation, require
from vp.scene import Unplaceable

from . import c12, c13, c15, c16, c17, c18, c19, c21, c25

PROPERTY = "C24"
TECHNIQUE = "property-based testing (Hypothesis): generated observation sets with degenerate views run through the application under ASan/UBSan and memcheck; numeric functions and observation histories of the other checks repeated under ASan/UBSan; finite results required"
BUILD = ["calibrate:rel", "calibrate:asan", "drv_math:asan", "drv_calib:asan"]
RULE = "a case is non-trivial when at least one view was made degenerate, or (numeric) the instrumented code ran to the end; distinct by full description"
ASSUMPTIONS = ["every view has at least five different corners, as the detector guarantees; views with fewer make OpenCV throw when it calibrates a camera",
               "an exception thrown by OpenCV when it is asked to calibrate a camera from hopeless views is a refusal, not a memory error; a run that is too slow under the checker gives no answer and is counted apart",
               "views whose corners all coincide or lie on one line, which the detector never reports, are only judged for memory errors by ASan/UBSan: OpenCV's own homography code reads uninitialised memory there, and a pose at infinity fits them"]
KINDS = ["few", "random", "outside", "mirror", "shift"]


def spoil(sc, c):
    """makes a share of the views degenerate; returns how many"""
    rng = np.random.default_rng([c["seed"], 24])
    n = 0

    def bad(kind, ids, uv, cam):
        uv, ids = uv.astype(float).copy(), list(ids)
        size = np.array([cam["w"], cam["h"]], float)
        if kind == "few":
            k = rng.permutation(len(ids))[:int(rng.integers(5, 8))]
            return [ids[j] for j in k], uv[k]
        if kind == "random":
            return ids, rng.uniform([0, 0], size, uv.shape)
        if kind == "outside":
            return ids, uv + rng.uniform(-3, 3, 2) * size
        if kind == "mirror":
            return ids, uv[::-1]
        if kind == "shift":      # numbered as the neighbouring corners
            return ids, np.roll(uv, 1, 0)
        if kind == "same":
            return ids, np.repeat(rng.uniform([0, 0], size, (1, 2)), len(ids), 0)
        a, b = rng.uniform([0, 0], size, (2, 2))
        return ids, a + (b - a) * np.linspace(0, 1, len(ids))[:, None]

    for k in sorted(sc.obs):
        if rng.random() < c["share"]:
            kind = c["kinds"][int(rng.integers(len(c["kinds"])))]
            ids, uv = bad(kind, *sc.obs[k], sc.cams[k[0]])
            sc.obs[k] = (ids, np.asarray(uv, np.float32))
            n += 1
    # further frames with nothing but degenerate views
    f = max(k[1] for k in sc.obs)
    for i in range(c["extra"]):
        f += int(rng.integers(1, 4))
        for cam in range(len(sc.cams)):
            for b in range(len(sc.boards)):
                if rng.random() < 0.5:
                    ids = list(range(len(sc.board_pts(b))))
                    uv = rng.uniform([0, 0], [sc.cams[cam]["w"], sc.cams[cam]["h"]], (len(ids), 2))
                    kind = c["kinds"][int(rng.integers(len(c["kinds"])))]
                    ids, uv = bad(kind, ids, uv, sc.cams[cam])
                    sc.obs[(cam, f, b)] = (ids, np.asarray(uv, np.float32))
                    n += 1
    # cameras and boards that are hardly ever seen
    if c["lonely"]:
        cam = int(rng.integers(len(sc.cams)))
        ks = sorted(k for k in sc.obs if k[0] == cam)
        for k in ks[c["lonely"]:]:
            del sc.obs[k]
            n += 1
    return n


def scene(c):
    try:
        return rigs.nonoverlap(c) if "groups" in c else rigs.overlap(c)
    except Unplaceable:
        raise Reject()


def over(c, sc):
    o = {"he_approach": c["he"], "quaternion_averaging": c["quat"], "number_iterations": c["it"], "ransac_threshold": c["threshold"]}
    files = {}
    if c["given"]:
        o["cam_params_path"] = "@/start.yml"
        o["fix_intrinsic"] = int(c["given"] == 2)
        files["start.yml"] = rigs.params_file(sc, 0.0, 0.0, c["seed"])[0]
    return o, files


REPORT = re.compile(r"runtime error|AddressSanitizer|UndefinedBehaviorSanitizer|Assertion .* failed|\*\*\* |std::(out_of_range|length_error|bad_alloc|bad_weak_ptr)")
CV = re.compile(r"terminate called.*cv::Exception|what\(\):\s+OpenCV", re.S)


def refused(err):
    return bool(CV.search(err)) and not REPORT.search(err)


def judge(r):
    """'done', 'refused' or 'slow'; raises Violation for a memory error"""
    if r.timeout:
        return "slow"
    if r.rc == 0:
        return "done"
    if r.rc == -6 and refused(r.err):
        return "refused"
    lines = r.err.splitlines()
    at = next((i for i, l in enumerate(lines) if REPORT.search(l) or "uninitialised" in l or "Invalid " in l), max(0, len(lines) - 3))
    own = [l.strip()[:110] for l in lines[at:at + 40] if "McCalib::" in l or "/repo/" in l][:3]
    raise Violation("the calibration ended with status %s: %s | %s" % (r.rc, " | ".join(x[:160] for x in lines[at:at + 2]), " | ".join(own)))


def run_flow(ctx, c):
    sc = scene(c)
    n = spoil(sc, c)
    o, files = over(c, sc)
    r = e2e.calibrate(ctx.exe("calibrate:asan"), sc, o, rd_seed=c["seed"] % 1000, extra_files=files, timeout=150,
                      env_extra={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"})
    how = judge(r)
    return {"nontrivial": n > 0 and how != "slow", "labels": labels(c, how, r), "max": {"degenerate views": n}}


def labels(c, how, r):
    return ["run %s" % how, "kinds: " + "+".join(c["kinds"]), "given intrinsics %d" % c["given"], "he %d" % c["he"], "%d%% of the views" % (100 * c["share"]),
            "groups" if "groups" in c else "one rig"] + (["hardly seen camera"] if c["lonely"] else []) + (["hand-eye"] if "Not enough common" not in r.out + r.err and "groups" in c else [])


def wrapper(ctx):
    """starts the application under memcheck"""
    exe = ctx.exe("calibrate:rel")
    p = os.path.join(build.OUT if hasattr(build, "OUT") else os.path.dirname(exe), "memcheck.%d.sh" % os.getpid())
    with open(p, "w") as f:
        f.write("#!/bin/bash\nexec /usr/bin/valgrind -q --error-exitcode=99 --num-callers=14 --undef-value-errors=yes --exit-on-first-error=yes '%s' \"$@\"\n" % exe)
    os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    return p


def run_memcheck(ctx, c):
    sc = scene(c)
    n = spoil(sc, c)
    o, files = over(c, sc)
    w = wrapper(ctx)
    try:
        r = e2e.calibrate(w, sc, o, rd_seed=c["seed"] % 1000, extra_files=files, timeout=200)
    finally:
        os.unlink(w)
    how = judge(r)
    return {"nontrivial": n > 0 and how != "slow", "labels": labels(c, how, r), "max": {"degenerate views": n}}


def run_finite(ctx, c):
    sc = scene(c)
    good = {k: len(v[0]) for k, v in sc.obs.items()}
    n = spoil(sc, c)
    o, files = over(c, sc)
    r = e2e.calibrate(ctx.exe("calibrate:rel"), sc, o, rd_seed=c["seed"] % 1000, extra_files=files)
    if r.timeout:
        return {"nontrivial": False, "labels": ["run slow"]}
    J.ran(r)
    cams = e2e.cam_list(r)
    require(set(cams) == set(range(len(sc.cams))), "saved cameras: %s", sorted(cams))
    for k, v in sorted(cams.items()):
        for what in ("K", "d", "P"):
            require(np.isfinite(np.array(v[what], float)).all(), "camera %d: not finite: %s", k, np.array(v[what]).ravel().round(3).tolist())
        require(J.rigid(np.array(v["P"], float)), "camera %d: its pose is not a rigid transform: %s", k, np.array(v["P"]).round(3).tolist())
    for k, P in J.objects_of(r).items() if hasattr(J.objects_of(r), "items") else []:
        require(np.isfinite(np.array(P[-1] if isinstance(P, tuple) else P, float)).all(), "object %s has points that are not finite", k)
    require(r.mean_error is not None and np.isfinite(r.mean_error), "the mean error is %s", r.mean_error)
    return {"nontrivial": n > 0, "labels": labels(c, "done", r), "max": {"degenerate views": n, "views": len(good)}}


class Instrumented:
    """the drivers of the other checks, built with the sanitizers"""

    def __init__(self, ctx):
        self.ctx, self.tier = ctx, ctx.tier

    def drv(self, t, **kw):
        d = self.ctx.drv(t.split(":")[0] + ":asan", **kw)
        d.timeout = 120
        return d

    def exe(self, t):
        return self.ctx.exe(t.split(":")[0] + ":asan")


OTHERS = {"C12": (c12, ["quaternion-average", "median", "pair-averages", "group-object-poses"]), "C13": (c13, ["histories"]), "C15": (c15, ["p3p", "board-view", "few-corners"]),
          "C16": (c16, ["linear", "robust"]), "C17": (c17, ["traditional", "bootstrapped", "fall-back"]), "C18": (c18, ["insertions", "grouping"]),
          "C19": (c19, ["one group", "several groups"]), "C21": (c21, ["corners", "anything"]), "C25": (c25, ["line-fit"])}
PARTS_OF = {(k, n): next(p for p in mod.PARTS if p.name == n) for k, (mod, ns) in OTHERS.items() for n in ns}


def run_numeric(ctx, c):
    p = PARTS_OF[(c["check"], c["part"])]
    how = "done"
    try:
        p.run(Instrumented(ctx), c["case"])
    except Violation:
        how = "other property broken"       # not a matter of memory
    except drv.Threw:
        how = "exception"
    except drv.Crash as e:
        if "no answer within" not in str(e):
            raise Violation("%s, %s: %s" % (c["check"], c["part"], e))
        how = "slow"
    return {"nontrivial": how == "done", "labels": ["%s %s" % (c["check"], c["part"]), "run %s" % how]}


def sized(k, n, w):
    return [st.fixed_dictionaries({"check": st.just(k), "part": st.just(n), "case": PARTS_OF[(k, n)].strategy})] * w


numeric = st.one_of([s for (k, n) in sorted(PARTS_OF) if (k, n) not in (("C19", "one group"), ("C19", "several groups")) for s in sized(k, n, 1)])
states = st.one_of([s for n in ("one group", "several groups") for s in sized("C19", n, 1)])

own = dict(he=st.sampled_from([0, 1]), quat=st.sampled_from([1, 0]), it=st.sampled_from([25, 8, 60]), threshold=st.sampled_from([10.0, 1.0, 0.1]), given=st.sampled_from([1, 0, 2]),
           kinds=st.one_of(st.just(KINDS), st.just(["few"]), st.sampled_from(KINDS).map(lambda k: [k]), st.sampled_from([["same"], ["line"], KINDS + ["same", "line"]])),
           share=st.sampled_from([0.3, 0.1, 0.7, 1.0]), extra=st.sampled_from([2, 0]), lonely=st.sampled_from([0, 0, 1, 2, 4]))
overlap = rigs.overlap_fields(models=st.sampled_from([[0, 0], [0], [1], [0, 1], [0, 0, 0]]), per_edge=st.integers(2, 4), solo=st.integers(3, 5), layout=st.just("row"), mixed=st.just(True), size=st.sampled_from([0, 1]), **own)
apart = rigs.nonoverlap_fields(groups=st.sampled_from([[[0], [0]], [[1], [0]], [[0], [0], [0]], [[0, 0], [0]]]), ransac=None, links=st.just("chain"), per_link=st.sampled_from([4, 6, 20]), solo=st.integers(3, 5), size=st.sampled_from([0, 1]), **own)
flows = st.one_of(st.fixed_dictionaries(overlap), st.fixed_dictionaries(apart))

few = dict(own, kinds=st.one_of(st.just(KINDS), st.sampled_from(KINDS).map(lambda k: [k])), it=st.sampled_from([10, 5]))
memcheck = st.one_of(st.fixed_dictionaries(dict(overlap, **few, models=st.sampled_from([[0, 0], [0], [1], [0, 1]]), boards=st.sampled_from([1, 2]), size=st.just(0), solo=st.just(3), per_edge=st.just(2))),
                     st.fixed_dictionaries(dict(apart, **few, groups=st.sampled_from([[[0], [0]], [[0], [1]]]), size=st.just(0), solo=st.just(3), per_group=st.just(1), per_link=st.sampled_from([4, 6]))))

# enough well-conditioned views: a few degenerate ones among them do not spoil the poses
mild = dict(kinds=few["kinds"], share=st.sampled_from([0.05, 0.0, 0.1]), given=st.sampled_from([1, 2]), lonely=st.just(0), it=st.sampled_from([200, 1000]), threshold=st.sampled_from([3.0, 1.0]))
finite = st.one_of(st.fixed_dictionaries(dict(rigs.overlap_fields(**own), **mild)), st.fixed_dictionaries(dict(rigs.nonoverlap_fields(**dict(own, ransac=None)), **mild)))

PARTS = [Part("workflow", flows, run_flow, 64, 1500, mode="pre", shrink_s=60),
         Part("memcheck", memcheck, run_memcheck, 32, 250, mode="pre", shrink_s=60),
         Part("finite", finite, run_finite, 80, 1200, mode="pre", shrink_s=60),
         Part("numeric", numeric, run_numeric, 3200, 40000),
         Part("states", states, run_numeric, 64, 800, mode="pre")]
