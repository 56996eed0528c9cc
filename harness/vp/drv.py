"""Client of the persistent C++ drivers. A driver that crashes or hangs on a request is itself an observation."""
import json
import os
import select
import shutil
import subprocess
import time

import numpy as np

from . import e2e


class Crash(Exception):
    """the code under test crashed, was stopped by a sanitizer, or did not return in time"""


class Threw(Exception):
    """the code under test threw an exception"""


def fmt(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (bool, int, np.integer)):
        return str(int(x))
    return repr(float(x))


def toks(*parts):
    out = []
    for p in parts:
        if isinstance(p, (str, bool, int, float, np.integer, np.floating)):
            out.append(fmt(p))
        else:
            for q in p:
                out.append(q if isinstance(q, str) else fmt(q))
    return out


def m(a):
    """matrix, size known to the command"""
    return [fmt(float(x)) for x in np.asarray(a, float).ravel()]


def ms(a):
    """matrix with its size"""
    a = np.atleast_2d(np.asarray(a, float))
    return [str(a.shape[0]), str(a.shape[1])] + m(a)


def lst(a):
    """length prefixed rows"""
    a = list(a)
    out = [str(len(a))]
    for x in a:
        if np.ndim(x):
            out += m(x)
        else:
            out.append(fmt(x))
    return out


class Reply:
    def __init__(self, line):
        self.t = line.split()
        self.k = 0

    def d(self):
        self.k += 1
        return float(self.t[self.k - 1])

    def i(self):
        return int(self.d())

    def vec(self, n=None):
        n = self.i() if n is None else n
        v = np.array([float(x) for x in self.t[self.k:self.k + n]])
        self.k += n
        return v

    def mat(self):
        r, c = self.i(), self.i()
        return self.vec(r * c).reshape(r, c)

    def pts(self, w):
        n = self.i()
        return self.vec(n * w).reshape(n, w)

    def word(self):
        self.k += 1
        return self.t[self.k - 1]

    def done(self):
        return self.k == len(self.t)


class Driver:
    def __init__(self, exe, timeout=60.0, env=None):
        self.exe, self.timeout, self.env = exe, timeout, env or {}
        self.p = None
        self.dir = None

    def start(self):
        self.dir = e2e.scratch("drv")
        r, w = os.pipe()
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "OPENCV_FOR_THREADS_NUM": "1", "OMP_NUM_THREADS": "1", "MALLOC_PERTURB_": "129",
               "HOME": self.dir, "TMPDIR": self.dir, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
        env.update(self.env)
        self.err = open(os.path.join(self.dir, "stderr"), "w+b")

        env["VP_REPLY_FD"] = str(w)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err, cwd=self.dir,
                                  env=env, pass_fds=(w,))
        os.close(w)
        self.r = r
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            for f in (self.p.stdin, self.err):
                try:
                    f.close()
                except OSError:
                    pass
            os.close(self.r)
            self.p = None
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def _stderr(self):
        try:
            self.err.flush()
            self.err.seek(0)
            t = self.err.read().decode("utf8", "replace")
            lines = t.splitlines()
            for k, l in enumerate(lines):
                if "runtime error" in l or "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l:
                    return "\n".join(lines[k:k + 14])
            return "\n".join(lines[-6:])
        except (OSError, ValueError):
            return ""

    def call(self, cmd, *parts, seed=0, timeout=None):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        line = " ".join([str(int(seed)), cmd] + toks(*parts)) + "\n"
        end = time.monotonic() + (timeout or self.timeout)
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                raise Crash("%s: no answer within %g s" % (cmd, timeout or self.timeout))
            rd, _, _ = select.select([self.r], [], [], min(left, 1.0))
            if rd:
                got = os.read(self.r, 1 << 20)
                if not got:
                    rc = self.p.wait()
                    msg = self._stderr()
                    self.stop()
                    raise Crash("%s: the process ended with status %s\n%s" % (cmd, rc, msg))
                self.buf += got
        line, _, self.buf = self.buf.partition(b"\n")
        s = line.decode("utf8", "replace")
        if s.startswith("ok"):
            return Reply(s[2:])
        msg = s[3:]
        if msg.startswith("protocol"):
            raise RuntimeError(msg)
        raise Threw(msg)

    def json(self, cmd, *parts, **kw):
        return json.loads(self.call(cmd, *parts, **kw).word())
