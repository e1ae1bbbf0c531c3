"""Builds the binder executable from /repo's *current* working tree into /verif/build.

Objects are cached by content (source text + every header of source/ + flags), never by time stamp, so a
change in what the code says always leads to a new object and a stale object can never be used.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import time

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
LLVM = "/usr/lib/llvm-14"

GXX = "/usr/bin/g++-13"
CLANGXX = "/usr/bin/clang++-14"
FLAGS = ["-I" + LLVM + "/include", "-I" + REPO + "/source", "-fno-rtti", "-std=gnu++14", "-D_GNU_SOURCE",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w", "-O0"]
# guard of the hooks in /repo (none are needed at present)
HOOK_FLAGS = []


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _version():
    m = re.search(r"set\(VERSION\s+([^\s)]+)\)", _read(REPO + "/source/CMakeLists.txt").decode("utf-8", "replace"))
    return m[1] if m else "0"


def sources():
    s = sorted(glob.glob(REPO + "/source/*.cpp")) + sorted(glob.glob(REPO + "/source/fmt/*.cc"))
    return [p for p in s if os.path.isfile(p)]


def _one(src, obj, flags):
    # main.cpp instantiates clang's visitor templates twice: clang compiles it in half the time gcc needs
    cxx = CLANGXX if os.path.basename(src) == "main.cpp" and os.path.exists(CLANGXX) else GXX
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([cxx, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and cxx != GXX:
        p = subprocess.run([GXX, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compile of %s failed:\n%s" % (src, p.stdout[-4000:]))
    os.replace(tmp, obj)


def binder():
    """Path of an up-to-date binder executable, plus a dict describing the build."""
    t0 = time.time()
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    os.makedirs(BUILD + "/lib", exist_ok=True)
    with open(BUILD + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        link = BUILD + "/lib/clang"
        if not os.path.exists(link):
            if os.path.islink(link):
                os.unlink(link)
            os.symlink(LLVM + "/lib/clang", link)
        flags = FLAGS + HOOK_FLAGS + ['-DBINDER_VERSION_STRING="%s"' % _version()]
        headers = [p for p in glob.glob(REPO + "/source/**/*", recursive=True)
                   if os.path.isfile(p) and not p.endswith((".cpp", ".cc", "CMakeLists.txt"))]
        hh = _sha(*[x for p in sorted(headers) for x in (os.path.relpath(p, REPO), _read(p))])
        jobs, objs, built = [], [], 0
        for s in sources():
            o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(s).replace(".", "_"), _sha(_read(s), hh, " ".join(flags)))
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))
        # the slowest translation unit first
        jobs.sort(key=lambda j: (not j[0].endswith("main.cpp"), -os.path.getsize(j[0])))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f in [ex.submit(_one, s, o, flags) for s, o in jobs]:
                f.result()
                built += 1
        exe = "%s/bin/binder-%s" % (BUILD, _sha(*objs))
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            p = subprocess.run([GXX, "-fno-rtti", "-rdynamic", *objs, "-o", tmp, "-Wl,-rpath," + LLVM + "/lib",
                                LLVM + "/lib/libLLVM.so", LLVM + "/lib/libclang-cpp.so.14",
                                "-Wl,-rpath-link," + LLVM + "/lib"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError("link failed:\n" + p.stdout[-4000:])
            os.replace(tmp, exe)
        # forget what earlier trees left behind
        keep = set(objs) | {exe}
        now = time.time()
        for p in glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*"):
            if p not in keep and now - os.path.getmtime(p) > 6 * 3600:
                os.unlink(p)
    return exe, {"objects_compiled": built, "objects_total": len(objs), "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    print(binder())
