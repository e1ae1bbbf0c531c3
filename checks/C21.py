"""C21: sphinx-doc-generator.py makes one page per module.

All trees of modules up to the bound - from the .modules file that the real binder writes for a program with those namespaces, and as directories of Python packages - times the
options of the script; the pages are compared with the tree. For directories the tree is what Python's own pkgutil finds.
"""
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile

from common import *

SCRIPT = os.path.join(build.REPO, "sphinx-doc-generator.py")
PY = pyb.PY


def script(args, cwd):
    p = subprocess.run([PY, "-B", SCRIPT, *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    return p.returncode, p.stdout


def files(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, encoding="utf-8", errors="replace") as h:
                r[os.path.relpath(p, d)] = h.read()
    return r


def page_problems(name, text, modules, webpath):
    """What is wrong with the page of module `name`."""
    p = []
    lines = text.split("\n")
    used = [l for l in lines if l.strip()]
    last = name.split(".")[-1]
    if len(used) < 2 or used[0] != last or used[1] != "-" * len(last):
        p.append("page of %s starts with %r" % (name, used[:2]))
    if ".. toctree::" in lines:
        k = lines.index(".. toctree::") + 1
        body = []
        while k < len(lines) and (not lines[k].strip() or lines[k].startswith(" ")):
            if lines[k].strip() and not lines[k].strip().startswith(":"):
                body.append(lines[k])
            k += 1
        if any(len(l) - len(l.lstrip()) != 4 for l in body):
            p.append("entries of the toctree of %s are not aligned: %r" % (name, body))
        toc = [l.strip() for l in body]
    else:
        p.append("page of %s has no toctree" % name)
        toc = []
    want = sorted(m for m in modules if m.rpartition(".")[0] == name)
    if toc != want:
        p.append("page of %s links to %r instead of %r" % (name, toc, want))
    auto = re.findall(r"^\.\. automodule:: *(.*)$", text, re.M)
    if auto != [name]:
        p.append("page of %s documents %r" % (name, auto))
    js = re.findall(r"src='([^']*)'", text)
    if js != [webpath + "/summary.js"]:
        p.append("page of %s takes its script from %r" % (name, js))
    return p


def judge(modules, out, js, webpath):
    want = {m + ".rst" for m in modules} | ({"js/summary.js"} if js else set())
    p = []
    if set(out) != want:
        p.append("writes %s, expected %s" % (sorted(out), sorted(want)))
    for m in modules:
        if m + ".rst" in out:
            p += page_problems(m, out[m + ".rst"], modules, webpath)
    return p[:6]


def trees(names, depth, size):
    """All trees of names with at most `size` nodes, as sorted tuples of paths (closed under parents)."""
    paths = [p for k in range(1, depth + 1) for p in itertools.product(names, repeat=k)]
    r = []
    for k in range(0, size + 1):
        for sel in itertools.combinations(paths, k):
            s = set(sel)
            if all(p[:-1] in s or len(p) == 1 for p in sel):
                r.append(sel)
    return r


OPTIONS = [  # arguments, limit, root, script asked for, path of the script
    ([], None, None, False, "_static"),
    (["--depth", "0"], 0, None, False, "_static"),
    (["--depth", "1"], 1, None, False, "_static"),
    (["--depth", "2"], 2, None, False, "_static"),
    (["--depth", "9"], 9, None, True, "_static"),
    (["--root", "other"], None, "other", False, "_static"),
    (["--root", "a"], None, "a", False, "_static"),
    (["--root", "x.y", "--depth", "1"], 1, "x.y", False, "_static"),
    (["--javascript-web-path", "../w/s"], None, None, True, "../w/s"),
]


def limited(paths, root, limit):
    return [root] + sorted(".".join((root,) + p) for p in paths if limit is None or len(p) <= limit)


def check(modfile, paths, root0, opt, cwd, where):
    args, limit, root, js, web = opt
    out = os.path.join(cwd, where) if where else cwd
    before = set(files(cwd)) if not where else set()
    if js:
        os.makedirs(os.path.join(out, "js"), exist_ok=True)
    rc, text = script(args + (["-o", where] if where else []) + (["--javascript-path", os.path.join(out, "js")] if js else []) + [modfile], cwd)
    if rc:
        return ["exit %d: %s" % (rc, text[-300:])]
    got = {k: v for k, v in files(out).items() if k not in before}
    return judge(limited(paths, root or root0, limit), got, js, web)


def from_binder(c):
    cases = []
    for t in trees(["a", "ab", "b"], 3, 5 if c.thorough else 4):
        cases.append(t)

    def work(j):
        k, t = j
        code = "".join("namespace %s { inline int f() { return %d; } %s\n" % (" { namespace ".join(p), i, "} " * len(p)) for i, p in enumerate(t))
        d = tempfile.mkdtemp(prefix="c21.", dir=SCRATCH)
        try:
            root = ["m", "a", "mod_1"][k % 3]
            with open(d + "/a.hpp", "w") as f:
                f.write("#pragma once\ninline int top() { return 0; }\n" + code)
            with open(d + "/inp.hpp", "w") as f:
                f.write("#include <a.hpp>\n")
            os.mkdir(d + "/o")
            p = subprocess.run([run.exe(), "--root-module", root, "--prefix", d + "/o", "--bind", "", d + "/inp.hpp", "--", "-x", "c++", "-std=c++17", "-I" + d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode:
                return code, 0, ["binder fails: " + p.stdout[-300:]]
            bad = []
            opts = OPTIONS if c.thorough or k % 4 == 0 or len(t) <= 2 else [OPTIONS[k % len(OPTIONS)], OPTIONS[(k + 4) % len(OPTIONS)]]
            for n, o in enumerate(opts):
                cwd = d + "/w%d" % n
                os.mkdir(cwd)
                bad += ["%s: %s" % (" ".join(o[0]), x) for x in check(d + "/o/" + root + ".modules", t, root, o, cwd, ["", "out", "deep/er/out"][n % 3])]
            return code, len(opts), bad[:8]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    for code, n, bad in run.pmap(work, list(enumerate(cases))):
        c.traces += n + 1
        c.transitions += n
        c.states.add(("binder", code))
        c.outcomes.add(("binder", len(code), n))
        if bad:
            c.violation("modules of: " + code, bad, {"program": code})
    c.sample({"namespaces": [".".join(p) for p in cases[-1]]})


def from_directory(c):
    # every node is a package, a module file, a directory that is no package, or a file that is no module
    kinds = ["package", "module", "plain directory", "other file"]
    names = ["a", "ab"]
    jobs = []
    level = [None] + kinds
    inner = [None, "package", "module", "plain directory"]
    for top in itertools.product(level, repeat=2):
        subs = []
        for k in top:
            subs.append(list(itertools.product(inner, repeat=2)) if k in ("package", "plain directory") else [()])
        for s in itertools.product(*subs):
            for rootkind in (("package",) if not c.thorough else ("package", "plain directory")):
                jobs.append((top, s, rootkind))
    if not c.thorough:
        jobs = [j for j in jobs if sum(bool(x) for s in j[1] for x in s) <= 2]

    def make(d, kind, name):
        p = os.path.join(d, name)
        if kind == "package" or kind == "plain directory":
            os.mkdir(p)
            if kind == "package":
                open(p + "/__init__.py", "w").close()
        elif kind == "module":
            open(p + ".py", "w").close()
        elif kind == "other file":
            open(p + ".txt", "w").close()
        return p

    def work(j):
        k, (top, subs, rootkind) = j
        d = tempfile.mkdtemp(prefix="c21.", dir=SCRATCH)
        try:
            root = make(d, rootkind, "pkg")
            for n, kind, sub in zip(names, top, subs):
                if kind:
                    p = make(root, kind, n)
                    for n2, k2 in zip(["a", "c"], sub):
                        if k2:
                            q = make(p, k2, n2)
                            if k2 == "package":
                                make(q, "module", "deep")
            import pkgutil

            def walk(path, pre):
                r = []
                for m in pkgutil.iter_modules([path]):
                    r.append(pre + (m.name,))
                    if m.ispkg:
                        r += walk(os.path.join(path, m.name), pre + (m.name,))
                return r
            paths = walk(root, ()) if rootkind == "package" else []
            bad = []
            opts = OPTIONS if c.thorough else [OPTIONS[k % len(OPTIONS)], OPTIONS[(k + 3) % len(OPTIONS)]]
            for n, o in enumerate(opts):
                cwd = d + "/w%d" % n
                os.mkdir(cwd)
                spelling = [root, root + "/", root + "/."[:1]][(k + n) % 3]
                if rootkind != "package":
                    rc, text = script(o[0] + ["-o", "out", spelling], cwd)
                    got = files(cwd)
                    if rc or got:
                        bad.append("a directory that is no package: exit %d, writes %s" % (rc, sorted(got)))
                    continue
                bad += ["%s %s: %s" % (" ".join(o[0]), spelling[len(d):], x) for x in check(spelling, paths, "pkg", o, cwd, ["out", "deep/er/out"][n % 2])]
            return str(j), len(opts), bad[:8]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    for key, n, bad in run.pmap(work, list(enumerate(jobs))):
        c.traces += n
        c.transitions += n
        c.states.add(("dir", key))
        c.outcomes.add(("dir", len(key)))
        if bad:
            c.violation("directory " + key, bad, {"tree": key})


def body(c):
    run.exe()
    from_binder(c)
    from_directory(c)
    c.bounds = {"namespaces": 5 if c.thorough else 4, "depth": 3, "options": len(OPTIONS)}


SCRATCH = tempfile.mkdtemp(prefix="vf-c21.")
try:
    main("C21", body, rule="all module trees up to the bound x options of the script; file names, titles, links, documented module")
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
