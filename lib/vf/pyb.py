"""Compiles generated bindings with the real pybind11 and runs Python against the imported module."""
import fcntl
import json
import os
import shutil
import subprocess
import sysconfig
import tempfile

from . import build, run

PY = "/usr/bin/python3.12" if os.path.exists("/usr/bin/python3.12") else "python3"
PRE = """#include <map>
#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <sstream>
#include <iostream>
#include <vector>
#include <pybind11/pybind11.h>
"""
CXX = "/usr/bin/clang++-14"
FLAGS = ["-O0", "-w", "-fPIC", "-fvisibility=hidden", "-std=c++17"]
_inc = None


def includes():
    global _inc
    if _inc is None:
        _inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return ["-I" + _inc]


def pch():
    """Precompiled pybind11, so that one module costs about a second."""
    d = build.BUILD + "/pch"
    os.makedirs(d, exist_ok=True)
    with open(d + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = d + "/vf_pre.hpp"
        if not os.path.exists(h + ".pch") or open(h).read() != PRE:
            with open(h, "w") as f:
                f.write(PRE)
            p = subprocess.run([CXX, *FLAGS, *includes(), "-x", "c++-header", "-Xclang", "-fpch-instantiate-templates", h, "-o", h + ".pch.tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise build.BuildError("precompiled header: " + p.stdout[-2000:])
            os.replace(h + ".pch.tmp", h + ".pch")
    return h


class Py:
    def __init__(self, rc, out, data, stage):
        self.rc, self.out, self.data, self.stage = rc, out, data, stage


def check_module(case, script, use_pch=True, defines=(), extra_cpp=None, timeout=300, split=False):
    """binder -> g++ -> python. script: Python source; it prints one JSON document on its last line.

    Returns Py with stage 'binder', 'compile', 'python' or 'done'."""
    r = run.run(case, keep=True)
    d = r.dir
    try:
        if not r.ok:
            return Py(r.rc, r.out, None, "binder"), r
        out = os.path.join(d, case.prefix)
        srcs = [os.path.join(out, n) for n in r.files if n.endswith(".cpp")]
        for n, t in (extra_cpp or {}).items():
            p = os.path.join(d, n)
            with open(p, "w") as f:
                f.write(t)
            srcs.append(p)
        pre = ["-include-pch", pch() + ".pch"] if use_pch else []
        so = d + "/%s.so" % case.root
        if len(srcs) > 1 and not split:
            # one translation unit is compiled faster; each file has its own include guards
            one = d + "/vf_one.cpp"
            with open(one, "w") as f:
                for s in srcs:
                    f.write('#include "%s"\n' % s)
            srcs = [one]
        p = subprocess.run([CXX, *FLAGS, *pre, *includes(), "-I" + d + "/inc", *["-D" + x for x in defines], "-shared", *srcs, "-o", so],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode:
            return Py(p.returncode, p.stdout.replace(d, "@")[:6000], None, "compile"), r
        with open(d + "/vf_script.py", "w") as f:
            f.write(script)
        e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([PY, d + "/vf_script.py"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, timeout=timeout, env=e, cwd=d,
                               preexec_fn=run.limits)
        except subprocess.TimeoutExpired:
            return Py(-999, "python did not finish", None, "python"), r
        data = None
        if p.returncode == 0:
            try:
                data = json.loads(p.stdout.strip().splitlines()[-1])
            except Exception:
                pass
        if p.returncode or data is None:
            return Py(p.returncode, (p.stdout[-1500:] + "\n" + p.stderr[-3000:]).replace(d, "@"), None, "python"), r
        return Py(0, p.stdout, data, "done"), r
    finally:
        shutil.rmtree(d, ignore_errors=True)
