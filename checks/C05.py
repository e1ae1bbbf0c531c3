"""C05: every selected entity is registered exactly once, in the order of declaration, whatever the file layout.

Programs: every interleaving of declarations over a set of namespaces and every assignment of declarations to headers whose
names are made to collide. Layouts: --single-file, --flat, --max-file-size from 0 up, and their combinations.
"""
import itertools
import os
from common import *

LAYOUTS = [["--single-file"], [], ["--flat"], ["--max-file-size=0"], ["--max-file-size=1"], ["--max-file-size=300"], ["--max-file-size=700"], ["--flat", "--max-file-size=1"], ["--single-file", "--max-file-size=1"],
           ["--flat", "--single-file"]]


def item(i, ns):
    """declaration i: its text and what it registers"""
    k = i % 3
    if k == 0:
        return "struct S%d { int v; void m(int); struct In { int w; }; };" % i, [("class", "S%d" % i), ("class", "S%d::In" % i)]
    if k == 1:
        return "void f(const char (*)[%d], int); void f%d(int); void f%d(double);" % (i, i, i), [("fn", "f%d" % i, "int"), ("fn", "f%d" % i, "double")]
    return "enum E%d { e%d };" % (i, i), [("enum", "E%d" % i)]


def events(m):
    for ev in m.events():
        if isinstance(ev, parse.Class):
            for c in ev.all():
                yield ("class", tnorm(c.type), c.name)
        elif isinstance(ev, parse.Enum):
            yield ("enum", tnorm(ev.type), ev.name)
        elif ev[0] == "fn":
            yield ("fn", ev[1] + "::" + ev[2].name if ev[1] else ev[2].name, ",".join(ev[2].target[4]) if ev[2].target[0] == "ptr" else "?")
        elif ev[0] in ("call", "other", "member"):
            yield ("unexpected", str(ev))


def structure(case, r, m):
    """The generated files fit together."""
    p = []
    single = "--single-file" in case.args
    disk = sorted(r.files)
    cpp = sorted(n for n in disk if n.endswith(".cpp"))
    if single:
        if cpp != [case.root + ".cpp"]:
            p.append("--single-file wrote %s" % cpp)
    else:
        if sorted(m.sources) != cpp:
            p.append(".sources lists %s, on disk are %s" % (m.sources, cpp))
        extra = set(disk) - set(cpp) - {case.root + ".sources", case.root + ".modules"}
        if extra:
            p.append("stray files %s" % sorted(extra))
    if m.sources[0] != case.root + ".cpp" or (not single and len(set(m.sources)) != len(m.sources)):
        p.append(".sources: %s" % m.sources)
    funcs = [n for f in m.files.values() for n, _ in f.funcs]
    for what, names in (("defined", funcs), ("declared", m.decls), ("called", m.calls)):
        d = sorted(x for x in set(names) if names.count(x) > 1)
        if d:
            p.append("binding functions %s more than once: %s" % (what, d))
    if not set(funcs) == set(m.decls) == set(m.calls):
        p.append("binding functions defined %s, declared %s, called %s" % (sorted(funcs), sorted(m.decls), sorted(m.calls)))
    if len(m.sources) - 1 != len(funcs):
        p.append("%d source files for %d binding functions" % (len(m.sources) - 1, len(funcs)))
    made = {""}
    for base, name in m.submodules:
        if base not in made:
            p.append("submodule %s::%s is created before %s" % (base, name, base))
        q = base + "::" + name if base else name
        if q in made:
            p.append("submodule %s is created twice" % q)
        made.add(q)
    used = set()
    for f in m.files.values():
        for k, t in [(a, b) for a, b in zip(parse.tokens(f.text), parse.tokens(f.text)[2:]) if a == ("id", "M") and b[0] == "str"]:
            used.add(parse.unquote(t[1]))
    if used - made:
        p.append("bindings use modules that are never created: %s" % sorted(used - made))
    need = {""}
    for u in used:
        while u:
            need.add(u)
            u = u.rpartition("::")[0]
    if made != need:
        p.append("submodules created %s, needed %s" % (sorted(made), sorted(need)))
    mods = sorted(x.replace("::", ".") for x in need if x)
    if sorted(m.modules) != mods:
        p.append(".modules lists %s, expected %s" % (m.modules, mods))
    if m.module_name != case.root:
        p.append("module is called %s" % m.module_name)
    return p


def judge(case, r):
    if not r.ok:
        return failed(case, r)
    m = r.model()
    p = structure(case, r, m)
    got = [e[:3] if e[0] == "fn" else e[:2] for e in events(m)]
    if case.data != got:
        p += diff("registrations", case.data, got)
        if sorted(case.data) == sorted(got):
            p.append("order: expected %s, got %s" % (case.data, got))
    return Verdict(p, len(got) + len(m.submodules) + len(m.sources), (got, m.submodules, m.modules))


def seq_program(seq):
    H, want = "", []
    for i, ns in enumerate(seq):
        t, w = item(i, ns)
        H += "namespace %s { %s }\n" % (ns, t) if ns else t + "\n"
        for x in w:
            want.append((x[0], (ns + "::" if ns else "") + x[1]) + tuple(x[2:]))
    return H, want


HEADERS = ["a.hpp", "a_1.hpp", "a/b.hpp", "a_b.hpp", "a.h", "a.hh", "a_0.hpp", "m.hpp", "m_0.hpp", "a.b.hpp"]


def body(c):
    nss = ["", "x", "x::y", "z::x"]
    L = 5 if c.thorough else 4
    cases = []
    for i, seq in enumerate(itertools.product(nss, repeat=L)):
        H, want = seq_program(seq)
        for j, lay in enumerate(LAYOUTS):
            if c.thorough or (i + j) % 3 == 0:
                cases.append(Case(H, bind="", args=lay, key="seq/%s/%s" % (" ".join(lay) or "default", ",".join(s or "." for s in seq)), data=want))
    c.bounds["sequences"] = "all %d^%d interleavings of declarations over namespaces %s; %s layouts each" % (len(nss), L, nss, len(LAYOUTS) if c.thorough else "3 or 4 of %d" % len(LAYOUTS))
    c.explore(cases, judge, "interleavings")
    # headers whose names map to the same file or function name
    cases = []
    for i, hs in enumerate(itertools.product(HEADERS, repeat=3)):
        if len(set(hs)) != 3:
            continue
        headers, want = {}, []
        for k, h in enumerate(hs):
            ns = "n%d" % (k % 2)
            headers[h] = "namespace %s { struct S%d { int v; }; } namespace q { struct Q%d { int v; }; } namespace %s { void g%d(int); }\n" % (ns, k, k, ns, k)
            want += [("class", "%s::S%d" % (ns, k)), ("class", "q::Q%d" % k), ("fn", "%s::g%d" % (ns, k), "int")]
        for j, lay in enumerate([[], ["--max-file-size=1"], ["--flat"], ["--single-file"], ["--flat", "--max-file-size=0"]]):
            if c.thorough or (i + j) % 5 in (0, 2):
                cases.append(Case(headers, bind="", args=lay, key="headers/%s/%s" % (" ".join(lay) or "default", ",".join(hs)), data=want, root="m"))
    c.bounds["headers"] = "all ordered triples of distinct headers out of %s" % HEADERS
    c.explore(cases, judge, "headers")
    # many chunks: one namespace with n functions under every limit, so that a chunk ends at every possible place
    cases = []
    for n in (1, 2, 12, 25):
        H = "namespace n { %s }\nnamespace k { struct A { int v; }; }\nnamespace n { enum Z { z }; }" % " ".join("void f%d(int);" % i for i in range(n))
        want = [("fn", "n::f%d" % i, "int") for i in range(n)] + [("class", "k::A"), ("enum", "n::Z")]
        for lim in (list(range(0, 1600, 20)) if c.thorough else list(range(0, 1600, 80))) + [2, 4000, 1000000]:
            cases.append(Case(H, bind="", args=["--max-file-size=%d" % lim], key="chunks/%d/%d" % (n, lim), data=want))
    c.explore(cases, judge, "chunk boundaries")
    # entities without bindings in between (incomplete types, templates, skipped ones) leave no gap and no duplicate; redeclarations register nothing twice
    cases = []
    fillers = ["struct X%d;", "template<class T> struct X%d {};", "template<class T> void x%d(T);", "typedef int X%d;", "extern int x%d;", "void f0(int);", "struct S9; void k%d(void (*)(S9**));", "static_assert(true, \"%d\");",
               "struct B%d { int v; }; struct B%d;", "inline namespace v%d {}", "using Y%d = int;"]
    for pos in itertools.product(range(-1, len(fillers)), repeat=2):
        H = "namespace n { void f0(int); "
        want = [("fn", "n::f0", "int")]
        for k, f in enumerate(pos):
            if f >= 0:
                t = fillers[f]
                H += t.replace("%d", str(k)) + " "
                if "B%d" in t:
                    want.append(("class", "n::B%d" % k))
            H += "struct S%d { int v; }; " % k
            want.append(("class", "n::S%d" % k))
        H += "void f0(int); struct S0; }\n"
        for lay in ([], ["--max-file-size=1"], ["--single-file"]):
            cases.append(Case(H, bind="n", args=lay, key="fill/%s/%s" % (" ".join(lay), pos), data=want))
    c.explore(cases, judge, "fillers and redeclarations")
    # deep namespaces, names that begin alike, reserved Python words
    cases = []
    for deep in ("a", "a::b", "a::b::c", "a::b::c::d::e::f::g", "aa::a::aaa", "global::nonlocal", "b::a::b::a"):
        for lay in LAYOUTS[:5]:
            H = "namespace %s { struct S { int v; }; }\nnamespace a { void f(int); }" % deep
            cases.append(Case(H, bind="", args=lay, key="deep/%s/%s" % (deep, " ".join(lay)), data=[("class", deep + "::S"), ("fn", "a::f", "int")]))
    for root in ("m", "mod", "_m1", "n", "a"):
        for lay in LAYOUTS[:5]:
            cases.append(Case({"%s.hpp" % root: "namespace n { struct S { int v; }; }"}, bind="", args=lay, root=root, key="root/%s/%s" % (root, " ".join(lay)), data=[("class", "n::S")]))
    c.explore(cases, judge, "module names")
    # template instantiations: each specialization once, however often and wherever it is used
    cases = []
    args = ["int", "char", "n::X", "n::T<int>", "n::X *"]
    for n in (1, 2, 3):
        for combo in itertools.permutations(args, n):
            H = "namespace n { struct X { int v; }; template<class A> struct T { int t; };"
            for k, a in enumerate(combo):
                H += " inline int u%d(T<%s> &, T<%s> *, T<%s> *) { return sizeof(T<%s>); }" % (k, a, a, a, a)
            H += "}\n"
            specs = set(combo)
            def tj(case, r):
                if not r.ok:
                    return failed(case, r)
                m = r.model()
                got = [e[:2] for e in events(m) if e[0] == "class"]
                return Verdict(structure(case, r, m) + diff("classes", case.data, got), len(got), sorted(got))
            for lay in LAYOUTS[:3]:
                cases.append(Case(H, bind="n", args=lay, key="templates/%s/%s" % (" ".join(lay), ",".join(combo)), data=[("class", tnorm("n::X"))] + [("class", tnorm("n::T<%s>" % a)) for a in specs]))
    c.explore(cases, tj, "specializations")


main("C05", body, rule="every program and layout within the bounds; registrations on import, file lists, submodules and binding functions are compared with what the program declares")
