"""Builds the code under test and the drivers from /repo's working tree.

Objects are cached by content hash in /verif/build (git-ignored), so a changed tree is always rebuilt.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = os.path.join(VERIF, "harness", "cpp")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INCS = ["-I" + os.path.join(REPO, "McCalib/include"), "-I" + os.path.join(REPO, "McCalib/src"), "-I" + CPP,
        "-I" + os.path.join(REPO, "include"),
        "-isystem", "/usr/include/opencv4", "-isystem", "/usr/include/eigen3"]
LIBS = ["-lopencv_aruco", "-lopencv_imgcodecs", "-lopencv_calib3d", "-lopencv_imgproc", "-lopencv_highgui", "-lopencv_features2d",
        "-lopencv_flann", "-lopencv_core", "-lopencv_videoio",
        "-lceres", "-lglog", "-lgflags"]
_A = "/usr/lib/x86_64-linux-gnu/lib%s.a"
BOOST = [_A % b for b in ("boost_log", "boost_chrono", "boost_filesystem", "boost_atomic", "boost_regex",
                          "boost_thread", "boost_system")] + ["-lrt", "-licudata", "-licui18n", "-licuuc", "-lpthread"]

FLAVOURS = {
    # as shipped (Release), lower optimisation where only compile time matters
    "rel": {"cxx": "g++", "flags": ["-O1", "-DNDEBUG"], "heavy": ["-O2", "-DNDEBUG"], "link": []},
    # the exact flags of the shipped build: sensitive to what the optimiser makes of undefined behaviour
    "ship": {"cxx": "g++", "flags": ["-O3", "-DNDEBUG"], "heavy": ["-O3", "-DNDEBUG"], "link": []},
    "asan": {"cxx": "g++", "flags": ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                                      "-fno-sanitize=vptr,alignment,float-divide-by-zero",
                                      "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
             "link": ["-fsanitize=address,undefined"]},
    "tsan": {"cxx": "g++", "flags": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], "link": ["-fsanitize=thread"]},
}
FLAVOURS["asan"]["heavy"] = FLAVOURS["asan"]["flags"]
FLAVOURS["tsan"]["heavy"] = FLAVOURS["tsan"]["flags"]

HEAVY = {"CameraGroup.cpp", "Camera.cpp", "Object3D.cpp", "point_refinement.h", "drv_math.cpp"}
MATH = ["geometrytools.cpp", "Graph.cpp", "logger.cpp"]

TARGETS = {
    # name: (own sources, "math" or "all" library sources)
    "drv_math": (["drv_math.cpp", "det_random.cpp"], "math"),
    "drv_calib": (["drv_calib.cpp", "det_random.cpp"], "all"),
    "calibrate": ([REPO + "/apps/calibrate/src/*.cpp", "det_random.cpp"], "all"),
    "render": (["render.cpp", "det_random.cpp"], None),
    "generate_charuco": ([REPO + "/apps/create_charuco_boards/src/*.cpp", "det_random.cpp"], "all"),
}


class BuildError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _header_hash():
    hs = []
    for pat in ("McCalib/include/**/*", "McCalib/src/**/*.h*", "include/**/*", "apps/**/*.h*"):
        for p in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(p):
                hs.append(p.encode() + b":" + _read(p))
    own = [_read(p) for p in sorted(glob.glob(CPP + "/*.h*"))]
    return _h(*hs), _h(*own)


def _flags_for(src, flavour):
    fl = FLAVOURS[flavour]
    return fl["heavy"] if os.path.basename(src) in HEAVY else fl["flags"]


def _compile(src, flavour, hh):
    fl = FLAVOURS[flavour]
    flags = ["-std=c++17", "-w"] + _flags_for(src, flavour) + INCS
    key = _h(fl["cxx"], " ".join(flags), src, _read(src), hh[0], hh[1] if src.startswith(CPP) else "")
    obj = os.path.join(OUT, "obj", os.path.basename(src) + "." + flavour + "." + key + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run([fl["cxx"]] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return None, "compiling %s failed:\n%s" % (src, r.stderr[-4000:])
    os.replace(tmp, obj)
    return obj, None


def build(*wanted):
    """wanted: 'target' or 'target:flavour'; returns list of executable paths."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = _header_hash()
        plan, jobs = [], []
        for w in wanted:
            t, _, flavour = w.partition(":")
            flavour = flavour or "rel"
            own, lib = TARGETS[t]
            srcs = []
            for o in own:
                if o.startswith("/"):
                    srcs += sorted(glob.glob(o))
                else:
                    srcs.append(os.path.join(CPP, o))
            allsrc = sorted(glob.glob(os.path.join(REPO, "McCalib/src/*.cpp")))
            if lib == "all":
                srcs += allsrc
            elif lib == "math":
                srcs += [s for s in allsrc if os.path.basename(s) in MATH]
            plan.append((t, flavour, srcs))
            jobs += [(s, flavour) for s in srcs]
        uniq = list(dict.fromkeys(jobs))
        # biggest first
        order = {"McCalib.cpp": 0, "drv_calib.cpp": 1, "CameraGroup.cpp": 2, "drv_math.cpp": 3, "calibrate.cpp": 4,
                 "Object3D.cpp": 5, "Camera.cpp": 5}
        uniq.sort(key=lambda j: order.get(os.path.basename(j[0]), 9))
        objs, errs = {}, []
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for j, (o, e) in zip(uniq, ex.map(lambda j: _compile(j[0], j[1], hh), uniq)):
                objs[j] = o
                if e:
                    errs.append(e)
        if errs:
            raise BuildError("\n".join(errs))
        outs = []

        def link(p):
            t, flavour, srcs = p
            os_ = [objs[(s, flavour)] for s in srcs]
            exe = os.path.join(OUT, "bin", "%s.%s.%s" % (t, flavour, _h(*os_)))
            if not os.path.exists(exe):
                fl = FLAVOURS[flavour]
                tmp = exe + ".%d.tmp" % os.getpid()
                r = subprocess.run([fl["cxx"], "-rdynamic", "-Wl,--as-needed"] + fl["link"] + os_ + ["-o", tmp] + LIBS + BOOST,
                                   capture_output=True, text=True)
                if r.returncode != 0 and TARGETS[t][1] == "math":
                    return None  # library files were moved around: retry with all of them
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (t, r.stderr[-4000:]))
                os.replace(tmp, exe)
            return exe
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            outs = list(ex.map(link, plan))
    finally:
        lock.close()
    for i, (o, p) in enumerate(zip(outs, plan)):
        if o is None:
            own, _ = TARGETS[p[0]]
            TARGETS[p[0]] = (own, "all")
            outs[i] = build(p[0] + ":" + p[1])[0]
    return outs


def prune(max_bytes=6 << 30):
    files = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(OUT, d, "*")):
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if total <= max_bytes:
            break
        try:
            os.unlink(p)
            total -= s
        except OSError:
            pass


if __name__ == "__main__":
    try:
        for o in build(*(sys.argv[1:] or ["drv_math", "drv_calib", "calibrate", "generate_charuco"])):
            print(o)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
