"""Runs the real binder executable on generated programs, in scratch directories that are removed again."""
import multiprocessing
import os
import shutil
import subprocess
import tempfile
import time
import traceback

from . import build, parse

EXE = None
INFO = {}
SCRATCH = None


def exe():
    global EXE, INFO
    if EXE is None:
        EXE, INFO = build.binder()
    return EXE


def scratch():
    """One scratch directory per process tree, removed by cleanup()."""
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 512 << 20:
                base = None
        SCRATCH = tempfile.mkdtemp(prefix="vf-", dir=base)
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH and os.path.isdir(SCRATCH) and os.path.basename(SCRATCH).startswith("vf-"):
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


class Case:
    """A program and the way binder is asked to bind it.

    headers: {name: text}; every header is included from the input file in the given order.
    config: lines of a config file (or None); args: extra binder options."""

    def __init__(self, headers, config=None, args=(), root="m", bind=None, std="c++17", key=None, clang=(), data=None, inp=None, prefix="out", timeout=60):
        if isinstance(headers, str):
            headers = {"a.hpp": headers}
        self.headers, self.config, self.args, self.root, self.std = headers, config, list(args), root, std
        self.bind = bind
        self.key, self.clang, self.data = key, list(clang), data
        self.inp, self.prefix, self.timeout = inp, prefix, timeout

    def describe(self):
        return {"key": str(self.key), "headers": self.headers, "config": self.config, "args": self.argv(), "std": self.std, "root": self.root}

    def argv(self):
        a = []
        if self.bind is not None:
            for b in ([self.bind] if isinstance(self.bind, str) else self.bind):
                a += ["--bind", b]
        return a + self.args


class Result:
    def __init__(self, rc, out, files, timed_out=False, dir=None):
        self.rc, self.out, self.files, self.timed_out, self.dir = rc, out, files, timed_out, dir
        self._m = None
        self.root = None

    @property
    def ok(self):
        return self.rc == 0 and not self.timed_out

    def model(self):
        if self._m is None:
            self._m = parse.parse_output(self.files, self.root)
        return self._m


def read_tree(d):
    r = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "r", errors="replace", newline="") as h:
                r[os.path.relpath(p, d)] = h.read()
    return r


def write_case(case, d):
    os.makedirs(d + "/inc", exist_ok=True)
    for n, t in case.headers.items():
        p = os.path.join(d, "inc", n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="") as f:
            if "#pragma once" not in t and "#ifndef" not in t[:200]:
                f.write("#pragma once\n")
            f.write(t)
    with open(d + "/inc/vf_all.hpp", "w") as f:
        f.write(case.inp if case.inp is not None else "".join("#include <%s>\n" % n for n in case.headers))
    os.makedirs(os.path.join(d, case.prefix), exist_ok=True)
    argv = case.argv()
    if case.config is not None:
        with open(d + "/cfg", "w", newline="") as f:
            f.write(case.config if isinstance(case.config, str) else "".join(l + "\n" for l in case.config))
        argv += ["--config", d + "/cfg"]
    return argv


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def command(case, d, argv):
    return [exe(), "--root-module", case.root, "--prefix", os.path.join(d, case.prefix) + "/", *argv, d + "/inc/vf_all.hpp", "--",
            "-x", "c++", "-std=" + case.std, "-I" + d + "/inc", *case.clang]


def run(case, keep=False, env=None):
    """One execution of binder; its whole output as a Result."""
    d = tempfile.mkdtemp(prefix="c", dir=scratch())
    try:
        argv = write_case(case, d)
        t0 = time.time()
        to = False
        try:
            p = subprocess.run(command(case, d, argv), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=case.timeout,
                               preexec_fn=limits, env=env, cwd=d)
            rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, out, to = -999, (e.stdout or b"").decode("utf-8", "replace"), True
        files = read_tree(os.path.join(d, case.prefix)) if not to else {}
        r = Result(rc, out.replace(d, "@"), files, to, d if keep else None)
        r.root = case.root
        r.wall = time.time() - t0
        return r
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


_F = _ITEMS = None


def _call(x):
    try:
        return ("ok", _F(_ITEMS[x]))
    except Exception:
        return ("err", traceback.format_exc())


def pmap(f, items, procs=None, chunk=1):
    """Parallel map by forked workers; results in order. An exception in f is raised here with its trace."""
    global _F, _ITEMS
    items = list(items)
    exe()
    scratch()
    _F, _ITEMS = f, items         # workers are forked: the items need not be pickled
    if len(items) <= 1:
        for i in items:
            yield f(i)
        return
    with multiprocessing.get_context("fork").Pool(procs or min(os.cpu_count() or 4, len(items))) as pool:
        for st, r in pool.imap(_call, range(len(items)), chunk):
            if st == "err":
                raise RuntimeError(r)
            yield r
