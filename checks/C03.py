"""C03: dependency closure. Every class or enum that a bound signature or base clause refers to is itself registered, however
long the chain of references and whatever the order of declaration, unless it is excluded; nothing else is registered.

All chains up to the bound are enumerated: each link is one of the ways in which one class can refer to the next; at most one
exclusion (a skipped class, a skipped function, a skipped namespace, a built-in) is put at every possible place.
"""
import itertools
from common import *
from vf import model
from vf.model import Cls, Fn, Enm, Program, Directives, Expect

LINKS = ["base", "value", "ptr", "cptr", "ref", "cref", "ret", "retptr", "retcref", "ctor", "second", "static", "nested", "nestedbase", "virtual", "default", "using"]
POINTER = ["ptr", "cptr", "ref", "cref", "retptr", "retcref", "ctor*", "second*", "nested*", "fnptr"]


def link(cname, kind, target, leaf_enum=False):
    """Class `cname` that refers to `target` in the given way."""
    P = lambda t: Cls(cname, methods=[Fn("m", "void", t)], ctors=None)
    if kind == "base":
        return Cls(cname, bases=[target], methods=[Fn("own")])
    if kind == "value":
        return P([target])
    if kind == "ptr":
        return P([target + " *"])
    if kind == "cptr":
        return P(["const " + target + " *"])
    if kind == "ref":
        return P([target + " &"])
    if kind == "cref":
        return P(["const " + target + " &"])
    if kind in ("second", "second*"):
        return P(["int", "double", target + (" *" if kind[-1] == "*" else "")])
    if kind == "ret":
        return Cls(cname, methods=[Fn("m", target)])
    if kind == "retptr":
        return Cls(cname, methods=[Fn("m", target + " *")])
    if kind == "retcref":
        return Cls(cname, methods=[Fn("m", "const " + target + " &", quals="const")])
    if kind in ("ctor", "ctor*"):
        return Cls(cname, ctors=[["int", target + (" *" if kind[-1] == "*" else "")]])
    if kind == "static":
        return Cls(cname, methods=[Fn("m", target, ["int"], pre="static")])
    if kind in ("nested", "nested*"):
        return Cls(cname, nested=[Cls("In", methods=[Fn("q", "void", [target + (" *" if kind[-1] == "*" else "")])])])
    if kind == "nestedbase":
        return Cls(cname, nested=[Cls("In", bases=[target], methods=[Fn("q")])])
    if kind == "virtual":
        return Cls(cname, methods=[Fn("m", "void", [target + " &"], pre="virtual")])
    if kind == "default":
        f = Fn("m", "void", ["int", target + " *"])
        f.text = "void m(int = 1, %s * = nullptr);" % target
        c = Cls(cname, methods=[f])
        c.raw = "struct %s { %s };\n" % (cname, f.text)
        return c
    if kind == "using":
        c = Cls(cname, methods=[Fn("m", "void", [target + " *"])])
        c.raw = "struct %s { using Alias = %s; typedef Alias *AP; void m(AP); };\n" % (cname, target)
        return c
    if kind == "fnptr":
        return Cls(cname, methods=[Fn("m", target + " *", [target + " &", "int"])])
    raise KeyError(kind)


def build(kinds, root, leaf, fwd):
    """root -> C0 -> C1 ... -> Cn (leaf)"""
    n = len(kinds)
    items = []
    names = ["d%d::C%d" % (i, i) for i in range(n + 1)]
    classes = []
    for i, k in enumerate(kinds):
        classes.append(("d%d" % i, link("C%d" % i, k, names[i + 1])))
    if leaf == "enum":
        last = ("d%d" % n, Enm("C%d" % n, ["e1", "e2"]))
    elif leaf == "scoped":
        last = ("d%d" % n, Enm("C%d" % n, ["e1", "e2"], True))
    else:
        last = ("d%d" % n, Cls("C%d" % n, fields=[("int", "x")]))
    bystander = [("d%d" % i, Cls("B%d" % i, fields=[("int", "x")], methods=[Fn("b", "void", ["d%d::B%d *" % (i, i)])])) for i in range(n + 1)] + \
                [("d%d" % i, Fn("bystand%d" % i, "void", ["int"])) for i in range(n + 1)] + [("d0", Enm("BE", ["b1"]))]
    if root == "fn":
        rt = [("r", Fn("root", "void", ["int", names[0] + " *"]))]
    elif root == "fnret":
        rt = [("r", Fn("root", names[0] + " &"))]
    elif root == "cls":
        rt = [("r", Cls("R", methods=[Fn("m", "void", [names[0] + " *"])]))]
    else:
        rt = [("r", Cls("R", bases=[names[0]], methods=[Fn("own")]))]
    if fwd:
        items = ["namespace d%d { struct C%d; }\n" % (i, i) for i in range(n + 1)]
        items = [("", x) for x in items] + rt + classes + [last] + bystander
    else:
        items = [last] + classes[::-1] + bystander + rt
    return items


def judge(case, r):
    items, lines = case.data
    e = Expect(Program(items()), Directives(lines))
    if not r.ok:
        return failed(case, r)
    want = e.facts()
    got = model.facts(r.model())
    nc = {tnorm(c.full) for c in e.p.all_classes.values() if c.ctors is None}
    got = [g for g in got if not (g[0] == "ctor" and g[1] in nc) and not (g[0] == "method" and g[3] == "lambda")]
    return Verdict(diff("registrations", want, got), len(want) + 1, sorted(map(str, want)))


def case(kinds, root, leaf, fwd, excl, key):
    items = lambda: build(kinds, root, leaf, fwd)
    lines = ["+namespace r"] + excl
    return Case(Program(items()).render(), config=lines, args=["--single-file"], key="%s/%s/%s/%s/%s" % (root, "-".join(kinds), leaf, "fwd" if fwd else "bwd", ",".join(excl)), data=(items, lines))


def exclusions(n, c):
    yield []
    for i in range(n + 1):
        yield ["-class d%d::C%d" % (i, i)]
        yield ["-namespace d%d" % i]
        yield ["+python_builtin d%d::C%d" % (i, i)]
    for i in range(n):
        yield ["-function d%d::C%d::m" % (i, i)]


def body(c):
    depth = 3 if c.thorough else 2
    cases = []
    for kinds in itertools.product(LINKS, repeat=depth):
        for root in ("fn", "base"):
            cases.append(case(kinds, root, "class", False, [], ""))
    c.bounds["backward"] = "all %d^%d chains, every class declared before the one that refers to it" % (len(LINKS), depth)
    c.explore(cases, judge, "backward")
    cases = []
    for kinds in itertools.product(POINTER, repeat=depth):
        for root in ("fn", "fnret", "cls"):
            cases.append(case(kinds, root, "class", True, [], ""))
    c.bounds["forward"] = "all %d^%d chains, every class declared after the one that refers to it" % (len(POINTER), depth)
    c.explore(cases, judge, "forward")
    # enum leaves
    cases = []
    for k1, k2 in itertools.product(LINKS, ["value", "ret", "ref", "cref", "ctor", "second", "static", "nested"]):
        for leaf in ("enum", "scoped"):
            cases.append(case((k1, k2), "fn", leaf, False, [], ""))
            if k1 in ("base", "value"):
                cases.append(case((k2,), "cls", leaf, False, ["-enum d1::C1"] if k1 == "base" else ["-namespace d1"], ""))
    c.explore(cases, judge, "enum leaves")
    # one exclusion anywhere
    cases = []
    some = LINKS if c.thorough else ["base", "value", "cref", "retptr", "ctor", "nested", "virtual"]
    for kinds in itertools.product(some, repeat=2):
        for root in ("fn", "base"):
            for ex in exclusions(2, c):
                if ex:
                    cases.append(case(kinds, root, "class", False, ex, ""))
    c.bounds["exclusion"] = "all chains of 2 links over %s with one exclusion at every place" % some
    c.explore(cases, judge, "exclusion")
    # deep chains and both orders
    cases = []
    for k in POINTER:
        for n in (4, 6, 9):
            cases.append(case((k,) * n, "fn", "class", True, [], ""))
    for k in LINKS:
        for n in (4, 6, 9):
            cases.append(case((k,) * n, "fn", "class", False, [], ""))
    c.explore(cases, judge, "deep chains")
    # shapes: every directed graph on 3 classes (pointer references), every choice of the requested class
    cases = []
    edges = [(i, j) for i in range(3) for j in range(3)]
    for bits in range(1 << len(edges)):
        es = [e for k, e in enumerate(edges) if bits >> k & 1]
        for root in range(3):
            def items(es=es, root=root):
                return [("", "namespace g { struct C0; struct C1; struct C2; }\n")] + \
                       [("g", Cls("C%d" % i, methods=[Fn("m%d" % j, "void", ["g::C%d *" % j]) for a, j in es if a == i] + [Fn("z")])) for i in range(3)]
            lines = ["+class g::C%d" % root]
            cases.append(Case(Program(items()).render(), config=lines, args=["--single-file"], key="graph/%d/%d" % (bits, root), data=(items, lines)))
    c.bounds["graphs"] = "all 512 directed graphs on 3 classes x 3 requested classes"
    c.explore(cases, judge, "graphs")


main("C03", body, rule="every chain/graph of references within the bounds; the expected registrations are the least fixpoint computed by the model")
