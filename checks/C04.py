"""C04: every base class is registered before the classes derived from it, with exactly the public bindable bases, in every
file layout; importing the module succeeds.

All inheritance graphs within the bounds are enumerated over plain classes, template instantiations (whose registration
position differs from the position of their definition) and nested classes.
"""
import itertools
from common import *

MODES = [["--single-file"], [], ["--max-file-size=1"], ["--flat"]]


def atoms(i, ns):
    r = []
    for j in range(i):
        p = "%s::P%d" % (ns(j), j)
        r += [p, "t::T0<%s>" % p, "t::T1<%s>" % p, p + "::In"]
    return r


def program(bases, ns, access=None, split=False):
    """-> (headers, {class: bases}): class i derives from bases[i]"""
    H = "namespace t { template<class T> struct T0 : public T { void t0(); }; template<class T> struct T1 : public T0<T> { void t1(); }; }\n"
    want = {}
    hs = {}
    for i, bs in enumerate(bases):
        q = "%s::P%d" % (ns(i), i)
        acc = lambda k: "public" if access is None else access[i]
        s = "namespace %s { struct P%d%s { int v%d; void m%d(); struct In { int in%d; }; }; inline void use%d(t::T1<P%d>&, t::T0<P%d>&) {} inline int inst%d() { return sizeof(t::T1<P%d>); } }\n" % (
            ns(i), i, (" : " + ", ".join(acc(k) + " ::" + b for k, b in enumerate(bs))) if bs else "", i, i, i, i, i, i, i, i)
        want[q] = [b for k, b in enumerate(bs) if acc(k) == "public"]
        want[q + "::In"] = []
        want["t::T0<%s>" % q] = [q]
        want["t::T1<%s>" % q] = ["t::T0<%s>" % q]
        if split:
            hs["h%d.hpp" % i] = ('#include <h%d.hpp>\n' % (i - 1) if i else "#include <t.hpp>\n") + s
        else:
            H += s
    if split:
        hs = {"t.hpp": H, **hs}
        return hs, want
    return {"a.hpp": H}, want


def bases_of(c, m):
    import re
    tr = set()
    for f in m.files.values():
        tr |= set(f.tramps)
    return [tnorm(a) for a in c.args if a not in tr and not re.match(r"(std::shared_ptr|std::unique_ptr)<", a)]


def judge(case, r):
    want = case.data
    if not r.ok:
        return failed(case, r)
    m = r.model()
    seen, problems, steps = set(), [], 0
    got = {}
    for c in m.classes():
        n = tnorm(c.type)
        bs = bases_of(c, m)
        for b in bs:
            steps += 1
            if b not in seen:
                problems.append("%s is registered before its base %s" % (n, b))
        if n in seen:
            problems.append("%s is registered twice" % n)
        seen.add(n)
        got[n] = sorted(bs)
    problems += diff("classes and their bases", [(tnorm(k), tuple(sorted(tnorm(x) for x in v))) for k, v in want.items()], [(k, tuple(v)) for k, v in got.items()])
    return Verdict(problems, steps, [tnorm(c.type) for c in m.classes()])


def body(c):
    cases = []
    one = lambda j: "n"
    alt = lambda j: "ab"[j % 2]
    n = 4
    opts = []
    for i in range(n):
        a = atoms(i, one)
        o = [()] + [(x,) for x in a]
        if i == 2:
            o += [p for p in itertools.combinations(a, 2)]
        opts.append(o)

    def ok(bases):
        # no direct base may also be an indirect one through another base of the same class (ill-formed or ambiguous)
        full = {}
        for i, bs in enumerate(bases):
            q = "n::P%d" % i
            full[q] = set()
            for b in bs:
                anc = set()
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x in anc:
                        continue
                    anc.add(x)
                    if x.startswith("t::T1<"):
                        stack.append("t::T0<" + x[6:])
                    elif x.startswith("t::T0<"):
                        stack.append(x[6:-1])
                    else:
                        stack += list(full.get(x, ()))
                if full[q] & anc:
                    return False
                full[q] |= anc
        return True
    for bi, bases in enumerate(b for b in itertools.product(*opts) if ok(b)):
        for mi, mode in enumerate(MODES):
            if not c.thorough and bi % 4 != mi:     # quick: every graph once, layouts in turn
                continue
            nsf = alt if mi == 1 else one
            bs = [tuple(b.replace("n::P", "%s::P") for b in x) for x in bases]
            import re
            bs = [tuple(re.sub(r"n::P(\d)", lambda z: "%s::P%s" % (nsf(int(z[1])), z[1]), b) for b in x) for x in bases]
            H, want = program(bs, nsf, split=(mi == 2))
            cases.append(Case(H, bind=["n", "t"] if nsf is one else ["a", "b", "t"], args=mode, key="graph/%s/%s" % (" ".join(mode) or "default", ";".join(",".join(x) or "-" for x in bs)), data=want))
    c.bounds["graphs"] = "%d classes, every choice of bases among plain classes, template instantiations and nested classes of earlier ones (pairs for the third), %s" % (n, "4 layouts each" if c.thorough else "4 layouts in turn")
    c.explore(cases, judge, "graphs")
    # access of the base: only public ones are registered
    cases = []
    for acc in itertools.product(["public", "protected", "private"], repeat=3):
        for shape in ("chain", "fan", "two"):
            if shape == "chain":
                bs, w = [(), ("n::P0",), ("n::P1",)], None
            elif shape == "fan":
                bs = [(), ("n::P0",), ("n::P0",)]
            else:
                bs = [(), (), ("n::P0", "n::P1")]
            H = "namespace n { struct P0 { int a; };\n"
            want = {"n::P0": []}
            for i in (1, 2):
                b = [(acc[i - 1] if shape != "two" else acc[k], x) for k, x in enumerate(bs[i])]
                H += "struct P%d%s { int v%d; };\n" % (i, " : " + ", ".join(a + " " + x for a, x in b) if b else "", i)
                want["n::P%d" % i] = [x for a, x in b if a == "public"]
            cases.append(Case(H + "}", bind="n", args=["--single-file"], key="access/%s/%s" % (shape, "-".join(acc)), data=want))
    c.explore(cases, judge, "access")
    # virtual bases count like others: all assignments of virtual to the bases of a diamond, a class with two and with three bases
    cases = []
    for v in itertools.product(["", "virtual "], repeat=4):
        for shape in ("diamond", "two", "three", "chain"):
            bs = {"diamond": [(), ("P0",), ("P0",), ("P1", "P2")], "two": [(), (), ("P0", "P1"), ("P2",)], "three": [(), (), (), ("P0", "P1", "P2")], "chain": [(), ("P0",), ("P1",), ("P2",)]}[shape]
            if shape == "diamond" and (v[0] != "virtual " or v[1] != "virtual "):
                continue
            k, H, want = 0, "namespace n {\n", {}
            for i, b in enumerate(bs):
                cl = []
                for x in b:
                    cl.append("public %s%s" % (v[k % 4], x))
                    k += 1
                H += "struct P%d%s { int v%d; };\n" % (i, " : " + ", ".join(cl) if cl else "", i)
                want["n::P%d" % i] = ["n::" + x for x in b]
            cases.append(Case(H + "}", bind="n", args=["--single-file"], key="virtual/%s/%s" % (shape, "".join("v" if x else "-" for x in v)), data=want))
    c.explore(cases, judge, "virtual bases")
    # where a base cannot be registered (skipped, in an anonymous namespace, incomplete) the derived class still is
    cases = []
    for how in ("-class n::P0", "-namespace k", "anon"):
        for depth in (1, 2, 3):
            ns = "k" if "namespace k" in how else "n"
            H = ("namespace { struct P0 { int a; }; } namespace n { using ::P0; }" if how == "anon" else "namespace %s { struct P0 { int a; }; }\n" % ns)
            want, prev = {}, "::P0" if how == "anon" else ns + "::P0"
            for i in range(1, depth + 1):
                H += "namespace n { struct P%d : public %s { int v%d; }; }\n" % (i, prev, i)
                want["n::P%d" % i] = [] if i == 1 else [prev]
                prev = "n::P%d" % i
            cases.append(Case(H, config=["+namespace n"] + ([how] if how != "anon" else []), args=["--single-file"], key="excluded/%s/%d" % (how, depth), data=want))
    c.explore(cases, judge, "excluded bases")
    # long chains whose members live in alternating namespaces and headers, requested from either end
    cases = []
    for L in (6, 12):
        for kind in ("plain", "T0", "T1", "In"):
            bs = [()]
            for i in range(1, L):
                p = "%s::P%d" % (alt(i - 1), i - 1)
                bs.append(({"plain": p, "T0": "t::T0<%s>" % p, "T1": "t::T1<%s>" % p, "In": p + "::In"}[kind],))
            for mode in MODES:
                H, want = program(bs, alt, split=True)
                cases.append(Case(H, bind=["a", "b", "t"], args=mode, key="long/%d/%s/%s" % (L, kind, " ".join(mode)), data=want))
                if kind == "plain":
                    H2 = "".join("namespace %s { struct P%d%s { int v%d; }; }\n" % (alt(i), i, " : public " + b[0] if b else "", i) for i, b in enumerate(bs))
                    w2 = {"%s::P%d" % (alt(i), i): list(b) for i, b in enumerate(bs)}
                    cases.append(Case(H2, config=["+class %s::P%d" % (alt(L - 1), L - 1)], args=mode, key="long-from-leaf/%d/%s" % (L, " ".join(mode)), data=w2))
    c.explore(cases, judge, "long")
    # the order really is what import needs: compile with pybind11 and import
    picks = []
    for a, b in itertools.product(range(4), range(4)):
        bs = [(), (atoms(1, one)[a],), (atoms(2, one)[4 + b],)]
        picks.append((bs, (a, b)))
    def one_module(x):
        bs, k = x
        H, want = program(bs, one)
        case = Case(H, bind=["n", "t"], args=["--max-file-size=1"] if sum(k) % 2 else ["--single-file"], key="import/%d-%d" % k, clang=[])
        impl = "\n".join("void %s::P%d::m%d() {}" % (one(i), i, i) for i in range(3)) + "\ntemplate<class T> void t::T0<T>::t0() {}\ntemplate<class T> void t::T1<T>::t1() {}\n"
        # definitions are needed to link
        case.headers = {n: t.replace("void t0();", "void t0() {}").replace("void t1();", "void t1() {}") for n, t in case.headers.items()}
        import re
        case.headers = {n: re.sub(r"void m(\d)\(\);", r"void m\1() {}", t) for n, t in case.headers.items()}
        script = "import json, m\nr = {}\nfor n in ('n', 't'):\n    for k, v in vars(getattr(m, n)).items():\n        if isinstance(v, type): r[n + '.' + k] = sorted(b.__qualname__ for b in v.__bases__)\nprint(json.dumps(r))\n"
        py, res = pyb.check_module(case, script)
        return case, py, want
    for case, py, want in run.pmap(one_module, picks):
        c.traces += 1
        c.states.add(case.key)
        c.transitions += len(want)
        if py.stage != "done":
            c.violation(case.key, ["%s failed: %s" % (py.stage, py.out[:1500])], case.describe())
            continue
        classes = [k for k in want if "::In" not in k]
        if len(py.data) != len(classes):
            c.violation(case.key, ["python sees %s, expected %d classes" % (sorted(py.data), len(classes))], case.describe())
    c.extra["modules_compiled_and_imported"] = len(picks)


main("C04", body, rule="every inheritance graph within the bounds; the sequence of registrations performed on import is checked against the base clauses")
