"""C02: per-entity directives (+/- class, function, enum, field, python_builtin) decide each entity.

Every assignment of directives to the sites of small programs is enumerated and run through the real binder; the registrations
binder writes must be exactly those of the reference model (lib/vf/model.py), in either order of the config lines.
"""
import itertools
from common import *
from vf import model
from vf.model import Cls, Fn, Enm, Program, Directives, Expect


def judge(case, r):
    prog, lines, tmpl = case.data
    e = Expect(prog(), Directives(lines, tmpl))
    if not r.ok:
        return failed(case, r)
    want = e.facts()
    got = model.facts(r.model())
    nc = {tnorm(c.full) for c in e.p.all_classes.values() if c.ctors is None}
    got = [g for g in got if not (g[0] == "ctor" and g[1] in nc)]
    return Verdict(diff("registrations", want, got), len(want) + 1, sorted(map(str, want)))


def functions():
    return Program([("n", Fn("f", "int", ["int"])), ("n", Fn("f", "int", ["double", "int"])), ("n", Fn("g")), ("n", Fn("ff", "void", ["int"])), ("n::f_", Fn("f", "void", ["int"])), ("o", Fn("f", "int", ["int"]))])


def classes():
    C = Cls("C", ctors=[[], ["int"]], methods=[Fn("m", "void", ["int"]), Fn("m", "void", ["double"]), Fn("s", "int", ["int"], pre="static"), Fn("k", "int", [], quals="const")],
            fields=[("int", "v"), ("int", "w")], enums=[Enm("E", ["a", "b"])], nested=[Cls("In", methods=[Fn("q", "void", ["int"])], fields=[("int", "z")])])
    D = Cls("D", bases=["n::C"], methods=[Fn("d", "void", ["const n::C &"], spell=["const struct n::C &"]), Fn("e")])
    return Program([("n", C), ("n", D), ("n", Fn("use", "void", ["n::C *"])), ("n", Fn("other", "int", ["n::D &"])), ("o", Fn("far", "n::C", []))])


def templates():
    T = lambda a, deps=(): Cls("T", spec="<%s>" % a, tdeps=deps, methods=[Fn("g", "void", ["int"])], fields=[("int", "t")], raw="")
    return Program([("n", Cls("X", fields=[("int", "x")])), ("n", "template<class A> struct T { void g(int); int t; };\n"), ("n", T("int")), ("n", T("char")), ("n", T("n::X", ["n::X"])),
                    ("n", Fn("use", "void", ["n::T<int>", "n::T<char> *"], pre="inline", body="{ (void)sizeof(n::T<char>); }")), ("n", Fn("usx", "int", ["n::T<n::X> &"], pre="inline", body="{ return sizeof(n::T<n::X>); }"))])


def enums():
    return Program([("n", Enm("K", ["k1", "k2"])), ("n", Enm("KK", ["l1"], True)), ("n", Fn("fk", "void", ["n::K"])), ("n", Fn("fc", "n::KK", [])), ("n::q", Enm("K", ["m1"]))])


def builtins():
    X = Cls("X", fields=[("int", "x")])
    return Program([("n", X), ("n", Cls("Y", bases=["n::X"], methods=[Fn("m", "void", ["n::X &"])])), ("n", Fn("f", "n::X", ["int"])), ("o", Cls("Z", methods=[Fn("z", "void", ["n::X *", "n::Y &"])])), ("o", Fn("h", "void", ["const n::X &"]))])


def space(prog, sites, label, c, orders=("fwd",), tmpl=(True,)):
    """sites: [(directive suffix, 'alphabet of signs')] -> every assignment, as config lines"""
    cases = []
    text = prog().render()
    for signs in itertools.product(*[s for _, s in sites]):
        lines = [s + d for (d, _), a in zip(sites, signs) for s in a]
        key = " ".join(a + d.replace(" ", ":") for (d, _), a in zip(sites, signs) if a)
        for t in tmpl:
            for o in orders:
                ls = lines if o == "fwd" else lines[::-1]
                cases.append(Case(text, config=ls, args=["--single-file"] + ([] if t else ["--bind-class-template-specialization=0"]), key="%s/%s%s/%s" % (label, o, "" if t else "/no-spec", key), data=(prog, lines, t)))
    c.bounds[label] = {"sites": [d for d, _ in sites], "assignments": len(cases)}
    c.explore(cases, judge, label)


def body(c):
    both = ("fwd", "rev")
    o, pm, pmb, m = ["", "+", "-"], ["", "+", "-", "+-"], ["", "+", "-", "-+"], ["", "-"]
    space(functions, [("namespace n", o), ("function n::f", pm), ("function n::f(int)", pm), ("function n::f(double, int)", o), ("function n::g", o)], "functions", c, both if c.thorough else ("fwd",))
    space(functions, [("namespace n", o), ("function n::f", pm), ("function n::f( int )", pm)], "functions-reversed", c, ("rev",))
    full = [("namespace n", o), ("class n::C", pm), ("class n::D", o), ("function n::C::m", m), ("function n::C::m(int)", o), ("enum n::C::E", o), ("class n::C::In", m), ("function n::use", o)]
    space(classes, full if c.thorough else [s for s in full if s[0] not in ("enum n::C::E",)], "classes", c)
    space(classes, [("namespace n", o), ("class n::C", o), ("field n::C::v", m), ("field n::C::In::z", m), ("enum n::C::E", pm), ("function n::C::C", m), ("function n::C::C(int)", o), ("function n::C::k()const", m)], "members", c)
    space(classes, [("namespace n", o), ("class n::C", o), ("namespace o", o), ("function n::C::s", m), ("function n::D::d", m), ("function n::D::d(const struct n::C &)", m), ("function n::C::In::q", m)], "members2", c, both)
    space(templates, [("namespace n", o), ("class n::T", pm), ("class n::T<int>", pm), ("class n::T<char>", o), ("function n::T::g", m), ("function n::T<int>::g", m), ("class n::X", o)], "templates", c)
    space(templates, [("namespace n", o), ("class n::T", pm), ("class n::T<int>", o), ("class n::T<n::X>", o), ("class n::X", o)], "templates-off", c, tmpl=(False,))
    space(enums, [("namespace n", o), ("enum n::K", pm), ("enum n::KK", pm), ("enum n::q::K", o), ("function n::fk", o), ("function n::fc", o)], "enums", c, both)
    space(builtins, [("namespace n", o), ("namespace o", o), ("class n::X", o), ("python_builtin n::X", pm), ("class n::Y", o)], "builtins", c, both)


main("C02", body, rule="every assignment of directives to the named sites; model decides each entity; binder's registrations compared as a multiset")
