"""C06: regeneration. After every run that reports success, the output directory holds exactly what a run into an empty directory
would have produced, whatever was there before (an older complete output, files damaged in any of the enumerated ways, the state left by a
run that was killed at any point or whose writes failed); files already up to date keep their time stamp; a run that could not write its
output does not report success.

Explicit-state exploration of the real executable: states are directory contents, operations are generations of three related
programs, damage to any file, and runs that are killed or fail at each of their file system operations.
"""
import hashlib
import itertools
import json
import os
import resource
import shutil
import signal
import subprocess
import tempfile
from common import *

ERR = {"ENOSPC": 28, "EIO": 5, "EACCES": 13}


def programs():
    A = {"s.hpp": "namespace a { struct S { int v; void m(int); }; void f(int); }\n", "sub/t.hpp": "namespace b { struct T { int w; }; enum E { e }; }\nnamespace a { void g(double); }\n",
         "sub/deep/u.hpp": "namespace c { void u(int x = 1); }\n"}
    B = dict(A)
    B["s.hpp"] = A["s.hpp"].replace("void m(int);", "void k(int);")        # same length, other text
    C = {k: v for k, v in A.items() if k != "sub/deep/u.hpp"}
    D = dict(A)
    D["sub/t.hpp"] = A["sub/t.hpp"] + "namespace b { void added(int); }\n"
    return {"A": A, "B": B, "C": C, "D": D}


class World:
    def __init__(self, layout):
        self.layout = layout
        self.dir = tempfile.mkdtemp(prefix="w", dir=run.scratch())
        for p, hs in programs().items():
            d = self.dir + "/" + p
            for n, t in hs.items():
                os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
                with open(d + "/" + n, "w") as f:
                    f.write("#pragma once\n" + t)
            with open(d + "/all.hpp", "w") as f:
                f.write("".join("#include <%s>\n" % n for n in hs))

    def generate(self, p, out, env=None, limit=None, ignore_xfsz=False):
        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                if ignore_xfsz:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        cmd = [run.exe(), "--root-module", "m", "--prefix", out + "/", "--bind", "", *self.layout, self.dir + "/%s/all.hpp" % p, "--", "-x", "c++", "-std=c++17", "-I" + self.dir + "/" + p]
        try:
            q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=60, env=dict(os.environ, **(env or {})), preexec_fn=pre)
            return q.returncode, q.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""


def snap(d):
    r = {}
    for b, ds, fs in os.walk(d):
        for x in ds:
            r[os.path.relpath(os.path.join(b, x), d) + "/"] = None
        for x in fs:
            with open(os.path.join(b, x), "rb") as f:
                r[os.path.relpath(os.path.join(b, x), d)] = f.read()
    return r


def restore(s, d):
    os.makedirs(d)
    for n, v in sorted(s.items()):
        p = os.path.join(d, n)
        if v is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)


def skey(s):
    return hashlib.sha256(repr(sorted(s.items())).encode()).hexdigest()[:16]


def damages(s):
    """Every damaged version of a state, each with a name."""
    for n, v in sorted(s.items()):
        if v is None:
            continue
        out = {"deleted": None, "emptied": b"", "first half": v[:len(v) // 2], "last byte lost": v[:-1], "byte appended": v + b"\n", "doubled": v + v,
               "first byte changed": b"~" + v[1:], "middle byte changed": v[:len(v) // 2] + b"~" + v[len(v) // 2 + 1:], "last byte changed": v[:-1] + b"~", "line ends changed": v.replace(b"\n", b"\r\n"),
               "cut after first line": v[:v.find(b"\n", 1) + 1], "blank appended": v + b" ", "zero byte appended": v + b"\0"}
        for how, w in out.items():
            t = dict(s)
            if w is None:
                del t[n]
            else:
                t[n] = w
            yield "%s %s" % (n, how), t


def body(c):
    so = build.BUILD + "/fault.so"
    src = build.HERE + "/src/fault.c"
    q = subprocess.run(["/usr/bin/gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so + ".tmp.%d" % os.getpid(), src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode:
        raise build.BuildError("fault.so: " + q.stdout.decode())
    os.replace(so + ".tmp.%d" % os.getpid(), so)
    PR = sorted(programs())
    layouts = [[], ["--single-file"], ["--flat"], ["--max-file-size=1"]]
    outcomes = c.outcomes
    for layout in layouts:
        w = World(layout)
        name = " ".join(layout) or "default"
        fresh, listed = {}, {}
        for p in PR:
            d = tempfile.mkdtemp(prefix="o", dir=run.scratch())
            rc, out = w.generate(p, d)
            if rc != 0:
                c.violation("%s/fresh/%s" % (name, p), ["binder exits with %s: %s" % (rc, out[-500:])], {"program": programs()[p], "args": layout})
                return
            fresh[p] = {k: v for k, v in snap(d).items() if v is not None}
            shutil.rmtree(d)
        # the text of a single file names its prefix: make the comparison independent of it
        norm_ = lambda s, d: {k: v.replace(d.encode(), b"@") for k, v in s.items() if v is not None}

        def check(init, p, what, env=None, limit=None, ignore=False):
            """One run of program p in directory state init -> (problems, final state, rc, operations)."""
            d = tempfile.mkdtemp(prefix="o", dir=run.scratch())
            os.rmdir(d)
            restore(init, d)
            e = dict(env or {})
            log = None
            if e:
                log = d + ".log"
                e.update(LD_PRELOAD=so, VF_FAULT_DIR=d + "/", VF_FAULT_LOG=log)
            old = 1_000_000_000
            for b, _, fs in os.walk(d):
                for f in fs:
                    os.utime(os.path.join(b, f), (old, old))
            rc, out = w.generate(p, d, e, limit, ignore)
            problems = []
            now = snap(d)
            want = ref[p]
            nn = norm_(now, d)
            complete = all(nn.get(k) == v for k, v in want.items())
            if rc == 0:
                bad = [k for k, v in want.items() if nn.get(k) != v]
                if bad:
                    problems.append("%s: binder reports success, but %s differ from what a run into an empty directory writes" % (what, bad))
                stray = [k for k in nn if k not in want and k not in init]
                if stray:
                    problems.append("%s: stray files %s" % (what, stray))
                other = [k for k in nn if k not in want and k in init and now[k] != init[k]]
                if other:
                    problems.append("%s: files that do not belong to this output were changed: %s" % (what, other))
                if not env and limit is None:
                    for k in want:
                        if k.endswith(".cpp") and k != "m.cpp" and init.get(k) == now.get(k) and os.path.getmtime(os.path.join(d, k)) != old:
                            problems.append("%s: %s was up to date but has been rewritten" % (what, k))
            elif not env and limit is None:
                problems.append("%s: binder exits with %s: %s" % (what, rc, out[-300:]))
            elif rc == "timeout":
                problems.append("%s: binder does not end" % what)
            ops = 0
            if log and os.path.exists(log):
                with open(log) as f:
                    ops = len(f.readlines())
                os.unlink(log)
            shutil.rmtree(d)
            return problems, now, rc, ops, complete
        # reference contents, independent of the directory name
        ref = {}
        for p in PR:
            d = tempfile.mkdtemp(prefix="o", dir=run.scratch())
            w.generate(p, d)
            ref[p] = norm_(snap(d), d)
            shutil.rmtree(d)
        empty = {}
        full = {}
        for p in PR:
            d = tempfile.mkdtemp(prefix="o", dir=run.scratch())
            w.generate(p, d)
            full[p] = snap(d)
            shutil.rmtree(d)

        def do(jobs, label):
            """jobs: [(key, init, p, env, limit, ignore)]"""
            res = []
            todo = []
            for j in jobs:
                todo.append(j)
            for j, (problems, now, rc, ops, complete) in zip(todo, run.pmap(lambda j: check(j[1], j[2], j[0], j[3], j[4], j[5]), todo)):
                c.traces += 1
                c.transitions += 1
                c.states.add((name, skey(j[1])))
                outcomes.add((str(rc), complete, skey({k: v for k, v in now.items() if v is not None})))
                if problems:
                    p2 = check(j[1], j[2], j[0], j[3], j[4], j[5])[0]
                    if p2:
                        c.violation("%s/%s" % (name, j[0]), p2, {"layout": layout, "program": programs()[j[2]], "before": {k: (v.decode("latin1")[:300] if v is not None else None) for k, v in j[1].items()}, "step": j[0], "env": j[3], "limit": j[4]})
                res.append((j, now, rc, ops))
            return res
        # 1. histories of generations: all sequences of two, and of three in the thorough tier
        states = {skey(empty): (empty, "empty")}
        frontier = [(empty, "empty")]
        for depth in range(3):
            r = do([("%s > generate %s" % (nm, p), s, p, None, None, False) for s, nm in frontier for p in PR], "histories")
            frontier = []
            for j, now, rc, _ in r:
                if skey(now) not in states:
                    states[skey(now)] = (now, j[0])
                    frontier.append((now, j[0]))
        # 2. damage to any file of a complete output, then generation of the same and of another program
        jobs = []
        for p in (PR if c.thorough else ["A"]):
            for nm, s in damages(full[p]):
                jobs.append(("%s, %s > generate %s" % (p, nm, p), s, p, None, None, False))
                if c.thorough or layout == []:
                    for p2 in PR:
                        if p2 != p:
                            jobs.append(("%s, %s > generate %s" % (p, nm, p2), s, p2, None, None, False))
        do(jobs, "damage")
        # 3. every file system operation of a run fails, is torn, or is the last thing the run does; from an empty directory and over older output
        starts = [("empty", empty), ("A", full["A"])] if not c.thorough else [("empty", empty)] + [(p, full[p]) for p in PR]
        left = {}
        for nm, s in starts:
            for p in (["D", "B"] if not c.thorough else PR):
                _, _, rc0, ops, _ = check(s, p, "count", {"VF_FAULT_AT": "0"})
                if ops < 3:
                    raise RuntimeError("the fault injector saw only %d operations" % ops)
                modes = ["kill-before", "kill-after", "torn", "short:28", "error:28", "error:5"]
                jobs = [("%s > generate %s, operation %d of %d: %s" % (nm, p, k, ops, m), s, p, {"VF_FAULT_AT": str(k), "VF_FAULT_MODE": m}, None, False) for k in range(1, ops + 1) for m in modes]
                for j, now, rc, _ in do(jobs, "faults"):
                    left.setdefault(skey(now), (now, j[0]))
        # 4. recovery: from every state such a run left behind
        jobs = []
        for s, nm in left.values():
            for p in (PR if c.thorough else ["D", "A"]):
                jobs.append(("[%s] > generate %s" % (nm, p), s, p, None, None, False))
        do(jobs, "recovery")
        # 5. the same at byte level, by the kernel: no file may grow beyond L bytes
        top = max(len(v) for v in ref["A"].values())
        step = 1 if c.thorough and layout == [] else 37
        jobs = []
        for L in sorted(set(range(0, top + 2, step)) | {len(v) - 1 for v in ref["A"].values() if v} | {len(v) for v in ref["A"].values()}):
            jobs.append(("empty > generate A, files limited to %d bytes" % L, empty, "A", None, L, True))
            if L % 2 == 0 or c.thorough:
                jobs.append(("empty > generate A, killed when a file reaches %d bytes" % L, empty, "A", None, L, False))
        left2 = {}
        for j, now, rc, _ in do(jobs, "size limits"):
            left2.setdefault(skey(now), (now, j[0]))
        do([("[%s] > generate A" % nm, s, "A", None, None, False) for s, nm in list(left2.values())[::1 if c.thorough else 4]], "recovery from size limits")
        # 6. a directory or a file stands where an output file or directory has to go: success may not be reported
        blocked = []
        for k in ref["A"]:
            s = {k + "/": None, k + "/x": b"keep"}
            blocked.append(("blocked: %s is a directory > generate A" % k, s, "A", {"VF_FAULT_AT": "0"}, None, False))
        for k in sorted({os.path.dirname(k) for k in ref["A"] if os.path.dirname(k)}):
            blocked.append(("blocked: %s is a file > generate A" % k, {k: b"keep"}, "A", {"VF_FAULT_AT": "0"}, None, False))
        for j, now, rc, _ in do(blocked, "blocked"):
            if rc == 0:
                c.violation("%s/%s" % (name, j[0]), ["success reported although an output file cannot be written"], {"layout": layout})
            for k, v in j[1].items():
                if v is not None and now.get(k) != v:
                    c.violation("%s/%s" % (name, j[0]), ["%s was overwritten" % k], {"layout": layout})
        c.sample({"layout": name, "states left by faults": len(left), "by size limits": len(left2), "operations": ops, "example": next(iter(left.values()))[1] if left else None})
        shutil.rmtree(w.dir)
        if len(c.violations) >= c.stop_after:
            break
    c.bounds = {"layouts": layouts, "programs": 4, "history depth": 3, "damages per file": 13, "fault modes": 6, "fault points": "every operation"}


main("C06", body, level="fault_enumeration", rule="a state is a directory content, a step one run of the real binder; distinct outcomes are (exit status, completeness, resulting content)")
