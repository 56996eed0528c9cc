"""Reader/writer for the OpenCV YAML subset the toolbox uses (independent of OpenCV)."""
import re
import numpy as np


class _P:
    def __init__(self, text):
        lines = text.split("\n")
        self.lines = []
        for l in lines:
            if l.startswith("%YAML") or l.strip() in ("---", "..."):
                continue
            if l.strip() == "":
                continue
            self.lines.append(l.rstrip("\r"))
        self.i = 0

    @staticmethod
    def ind(l):
        return len(l) - len(l.lstrip(" "))

    def block(self, indent):
        # mapping or sequence at this indent
        if self.i >= len(self.lines):
            return None
        l = self.lines[self.i]
        if l.lstrip().startswith("- ") or l.strip() == "-":
            return self.seq(indent)
        return self.map(indent)

    def seq(self, indent):
        out = []
        while self.i < len(self.lines):
            l = self.lines[self.i]
            if self.ind(l) != indent or not (l.lstrip().startswith("- ") or l.strip() == "-"):
                break
            rest = l.lstrip()[1:].strip()
            if rest == "":
                self.i += 1
                if self.i < len(self.lines) and self.ind(self.lines[self.i]) > indent:
                    out.append(self.block(self.ind(self.lines[self.i])))
                else:
                    out.append(None)
            else:
                out.append(self.value(rest, indent))
        return out

    def map(self, indent):
        out = {}
        while self.i < len(self.lines):
            l = self.lines[self.i]
            if self.ind(l) != indent:
                break
            m = re.match(r'\s*("(?:[^"\\]|\\.)*"|[^:\s][^:]*?)\s*:(?:\s+(.*))?$', l)
            if not m:
                break
            k = m.group(1).strip('"')
            rest = (m.group(2) or "").strip()
            if k in out:
                raise ValueError("duplicate key %s" % k)
            out[k] = self.value(rest, indent)
        return out

    def value(self, rest, indent):
        if rest.startswith("!!opencv-matrix"):
            self.i += 1
            m = self.map(self.ind(self.lines[self.i]))
            return _mat(m)
        if rest.startswith("!!"):
            rest = rest.split(" ", 1)[1] if " " in rest else ""
        if rest.startswith("[") or rest.startswith("{"):
            buf = rest
            self.i += 1
            while not _closed(buf):
                buf += " " + self.lines[self.i].strip()
                self.i += 1
            v, _ = _flow(buf, 0)
            return v
        if rest == "":
            self.i += 1
            if self.i < len(self.lines):
                l2 = self.lines[self.i]
                if l2.lstrip()[:1] in "[{" and self.ind(l2) > indent:
                    return self.value(l2.strip(), indent)
                if self.ind(l2) > indent or (self.ind(l2) == indent and l2.lstrip().startswith("-")):
                    return self.block(self.ind(l2))
            return None
        self.i += 1
        return _scalar(rest)


def _closed(b):
    depth = 0
    q = False
    esc = False
    for c in b:
        if q:
            if esc:
                esc = False
            elif c == "\\":
                esc = True
            elif c == '"':
                q = False
            continue
        if c == '"':
            q = True
        elif c in "[{":
            depth += 1
        elif c in "]}":
            depth -= 1
    return depth == 0 and not q


def _flow(s, i):
    while s[i] == " ":
        i += 1
    if s[i] == "[":
        out = []
        i += 1
        while True:
            while s[i] in " ,":
                i += 1
            if s[i] == "]":
                return out, i + 1
            v, i = _flow(s, i)
            out.append(v)
    if s[i] == "{":
        out = {}
        i += 1
        while True:
            while s[i] in " ,":
                i += 1
            if s[i] == "}":
                return out, i + 1
            j = s.index(":", i)
            k = s[i:j].strip().strip('"')
            v, i = _flow(s, j + 1)
            out[k] = v
    if s[i] == '"':
        j = i + 1
        b = []
        while s[j] != '"':
            if s[j] == "\\":
                j += 1
            b.append(s[j])
            j += 1
        return "".join(b), j + 1
    j = i
    while j < len(s) and s[j] not in ",]}":
        j += 1
    return _scalar(s[i:j].strip()), j


def _scalar(t):
    t = t.strip()
    if t.startswith('"') and t.endswith('"') and len(t) >= 2:
        return re.sub(r'\\(.)', r'\1', t[1:-1])
    if t in (".Inf", ".inf", "+.Inf"):
        return float("inf")
    if t in ("-.Inf", "-.inf"):
        return float("-inf")
    if t in (".Nan", ".NaN", ".nan", "-.Nan"):
        return float("nan")
    try:
        return int(t)
    except ValueError:
        pass
    try:
        return float(t)
    except ValueError:
        return t


def _mat(m):
    dt = str(m["dt"])
    if isinstance(m.get("rows"), int):
        shape = [m["rows"], m["cols"]]
    else:
        shape = list(m.get("sizes", [0]))
    mm = re.match(r"(\d*)([a-z])$", dt)
    ch = int(mm.group(1) or 1)
    a = np.array([float(x) if not isinstance(x, str) else float("nan") for x in m["data"]], float)
    if mm.group(2) in "iucsw":
        a = a.astype(int)
    if ch > 1:
        shape.append(ch)
    return a.reshape(shape)


def parse(text):
    p = _P(text)
    if not p.lines:
        return {}
    r = p.block(p.ind(p.lines[0]))
    if p.i != len(p.lines):
        raise ValueError("unparsed line: %r" % p.lines[p.i])
    return r


def load(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        return parse(f.read())


def _f(x):
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    return repr(float(x)) if not float(x).is_integer() or abs(x) > 1e15 else "%d." % int(x)


def mat_node(a, indent):
    a = np.atleast_2d(np.asarray(a, float))
    pad = " " * indent
    return ("!!opencv-matrix\n%srows: %d\n%scols: %d\n%sdt: d\n%sdata: [ %s ]"
            % (pad, a.shape[0], pad, a.shape[1], pad, pad, ", ".join(_f(x) for x in a.ravel())))


def dump_flat(d):
    """config writer: scalars, strings, flat lists"""
    out = ["%YAML:1.0", "---"]
    for k, v in d.items():
        if isinstance(v, str):
            out.append('%s: "%s"' % (k, v))
        elif isinstance(v, (list, tuple)):
            out.append("%s: [%s]" % (k, ",".join(_f(x) for x in v)))
        else:
            out.append("%s: %s" % (k, _f(v)))
    return "\n".join(out) + "\n"


def dump_keypoints(cams):
    """cams: list of dicts img_width,img_height,frame_idxs,frame_paths,board_idxs,pts_2d,charuco_idxs"""
    out = ["%YAML:1.0", "---", "nb_camera: %d" % len(cams)]

    def flow(name, toks, q=False):
        if not toks:
            out.append("   %s: []" % name)
            return
        out.append("   %s: [ %s ]" % (name, ", ".join(toks)))
    for i, c in enumerate(cams):
        out.append("camera_%d:" % i)
        out.append("   img_width: %d" % c["img_width"])
        out.append("   img_height: %d" % c["img_height"])
        flow("frame_idxs", [str(x) for x in c["frame_idxs"]])
        flow("frame_paths", ['"%s"' % p for p in c["frame_paths"]])
        flow("board_idxs", [str(x) for x in c["board_idxs"]])
        if c["pts_2d"]:
            out.append("   pts_2d:")
            for p in c["pts_2d"]:
                out.append("      - [ %s ]" % ", ".join(_f(x) for x in np.asarray(p, float).ravel()))
            out.append("   charuco_idxs:")
            for p in c["charuco_idxs"]:
                out.append("      - [ %s ]" % ", ".join(str(int(x)) for x in p))
        else:
            out.append("   pts_2d: []")
            out.append("   charuco_idxs: []")
    return "\n".join(out) + "\n"
