"""C16: custom binders.

Every kind of class x directive x layout, and every assignment of namespace directives to nested, mutually dependent namespaces, is bound, compiled with the real
pybind11 and imported. The custom functions record every call - with which module or class, for which C++ type, with which names, and what had been registered by
then - and the record is compared with the reference model: exactly the promised calls, once each, at the promised time.
"""
import itertools
from common import *
from vf import packs
from vf.packs import Item

PROBE = r"""#pragma once
#include <pybind11/pybind11.h>
#include <string>
#include <memory>
namespace pb {
inline void log(pybind11::object o)
{
	auto b = pybind11::module::import("builtins");
	if( !pybind11::hasattr(b, "vf_log") ) b.attr("vf_log") = pybind11::list();
	b.attr("vf_log").attr("append")(o);
}
inline pybind11::object dir(pybind11::object o) { return pybind11::module::import("builtins").attr("dir")(o); }
template<class C, class...A> void rec(char const *who, pybind11::module &m, char const *py, A const &...a)
{
	log(pybind11::make_tuple(who, m.attr("__name__"), pybind11::type_id<C>(), pybind11::make_tuple(a...)));
	pybind11::class_<C, std::shared_ptr<C>>(m, (std::string("X_") + py + (std::string() + ... + ("_" + std::string(a)))).c_str()).def(pybind11::init<>()).def("custom", [](C &) { return 77; });
}
template<class C> void add(char const *who, C &cl)
{
	log(pybind11::make_tuple(who, cl.attr("__module__"), pybind11::type_id<typename C::type>(), cl.attr("__name__"), dir(cl), cl));
	cl.def("extra", [](typename C::type const &) { return 55; });
}
inline void ns(char const *who, pybind11::module &m) { log(pybind11::make_tuple(who, m.attr("__name__"), dir(m))); m.attr("by_user") = 1; }
}
"""
PY = """
import builtins
L = getattr(builtins, 'vf_log', [])
def calls(w): return [x[1:4] for x in L if x[0] == w]
def when(w):
    r = []
    for x in L:
        if x[0] == w:
            c = x[5]
            r.append(sorted(set(dir(c)) - set(x[4]) - {'extra'} - {k for k, v in vars(c).items() if isinstance(v, type)}))
    return r
def nscalls(w): return [x[1] for x in L if x[0] == w]
def before(w): return [[k for k in x[2] if not k.startswith('__') and not (hasattr(sys.modules[x[1]], k) and type(getattr(sys.modules[x[1]], k)) is type(sys))] for x in L if x[0] == w]
def content(path):
    o = dig(m, path)
    return None if o is None else sorted(k for k, v in vars(o).items() if not k.startswith('__') and type(v) is not type(sys))
"""

# name of the kind: (text, qualified name of the directive, C++ types it applies to as pybind11 prints them (with the names passed), Python path of the
# generated class(es), template head of the binder, arguments, needs)
def kinds(i):
    P, T, V = "P%d" % i, "T%d" % i, "V%d" % i
    one = lambda args, py: (args, py)
    k = {}
    body = "int x = 3; int get() const { return x; } struct In { int y = 1; };"
    k["plain"] = ("struct %s { %s };" % (P, body), "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["class"] = ("class %s { public: %s %s() {} explicit %s(int) {} bool operator==(%s const &) const { return true; } };" % (P, body, P, P, P), "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["inner namespace"] = ("namespace s%d { struct Q { %s }; } struct Q%d { int x = 3; int get() const { return x; } };" % (i, body, i), "n::s%d::Q" % i, [("n::s%d::Q" % i, (), "n.s%d.Q" % i)], 0)
    k["base"] = ("struct %s { %s }; struct D%d : %s { int z = 9; };" % (P, body, i, P), "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["virtual"] = ("struct %s { %s virtual ~%s() {} virtual int v() { return 1; } };" % (P, body, P), "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["derived"] = ("struct B%d { int z = 9; }; struct %s : B%d { %s };" % (i, P, i, body), "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["nested"] = ("struct O%d { int o = 1; struct %s { %s }; struct R { int r = 1; }; };" % (i, P, body), "n::O%d::%s" % (i, P), [("n::O%d::%s" % (i, P), (), "n.O%d.%s" % (i, P))], 0)
    k["nested twice"] = ("struct O%d { struct M { int o = 1; struct %s { %s }; }; };" % (i, P, body), "n::O%d::M::%s" % (i, P), [("n::O%d::M::%s" % (i, P), (), "n.O%d.M.%s" % (i, P))], 0)
    k["declared before"] = ("struct %s; void early%d(%s const &); struct %s { %s }; inline void early%d(%s const &) {}" % (P, i, P, P, body, i, P), "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["union"] = ("union %s { int x; char c; int get() const { return x; } };" % P, "n::" + P, [("n::" + P, (), "n." + P)], 0)
    k["template"] = ("template<class A> struct %s { A a; %s }; inline void use%d(%s<int>, %s<double>) {}" % (T, body, i, T, T), "n::" + T,
                     [("n::%s<int>" % T, ("int",), "n.%s_int_t" % T), ("n::%s<double>" % T, ("double",), "n.%s_double_t" % T)], "class A")
    k["template of class"] = ("struct %s { int q = 1; }; template<class A> struct %s { A a; %s }; inline void use%d(%s<%s>) {}" % (P, T, body, i, T, P), "n::" + T,
                              [("n::%s<n::%s>" % (T, P), ("n_" + P,), "n.%s_n_%s_t" % (T, P))], "class A")
    k["template with value"] = ("template<class A, int N> struct %s { A a; %s }; inline void use%d(%s<int, 3>, %s<int, -3>) {}" % (T, body, i, T, T), "n::" + T,
                                [("n::%s<int, 3>" % T, ("int", "3"), "n.%s_int_3_t" % T), ("n::%s<int, -3>" % T, ("int", "-3"), None)], "class A, int N")
    k["template with default"] = ("template<class A, class B = double> struct %s { A a; %s }; inline void use%d(%s<int>) {}" % (T, body, i, T), "n::" + T,
                                  [("n::%s<int, double>" % T, ("int", "double"), "n.%s_int_double_t" % T)], "class A, class B")
    k["specialised template"] = ("template<class A> struct %s { A a; %s }; template<> struct %s<char> { int c = 1; int get() const { return c; } }; inline void use%d(%s<char>, %s<long>) {}" % (T, body, T, i, T, T), "n::" + T,
                                 [("n::%s<char>" % T, ("char",), "n.%s_char_t" % T), ("n::%s<long>" % T, ("long",), "n.%s_long_t" % T)], "class A")
    k["partly specialised template"] = ("template<class A, class B> struct %s { A a; %s }; template<class B> struct %s<char, B> { int c = 1; int get() const { return c; } }; inline void use%d(%s<char, int>, %s<long, int>) {}" % (T, body, T, i, T, T), "n::" + T,
                                        [("n::%s<char, int>" % T, ("char", "int"), "n.%s_char_int_t" % T), ("n::%s<long, int>" % T, ("long", "int"), "n.%s_long_int_t" % T)], "class A, class B")
    k["explicitly instantiated template"] = ("template<class A> struct %s { A a; %s }; template struct %s<int>; inline int use%d(%s<int>) { return 1; }" % (T, body, T, i, T), "n::" + T, [("n::%s<int>" % T, ("int",), "n.%s_int_t" % T)], "class A")
    k["template as base"] = ("template<class A> struct %s { A a; %s }; struct D%d : %s<int> { int z = 9; };" % (T, body, i, T), "n::" + T, [("n::%s<int>" % T, ("int",), "n.%s_int_t" % T)], "class A")
    return k


DIRECTIVES = ("none", "binder", "add-on", "both")
SEPARATORS = {"space": " ", "tab": "\t", "spaces": "   ", "space tab": " \t", "tab spaces": "\t  "}


def class_item(i, kind, directive, sep, how, tail=""):
    text, name, types, head = kinds(i)[kind]
    mod = "m." + ".".join(t for t in name.split("::")[:1])  # module of the enclosing namespace
    if kind == "inner namespace":
        mod = "m.n.s%d" % i
    cfg, probe = [], '#pragma once\n#include <probe.hpp>\n#include <a.hpp>\nnamespace u%d {\n' % i
    bname, aname = "u%d::b" % i, "u%d::a" % i
    if head:
        params = [p.strip().split()[-1] for p in head.split(",")]
        probe += "template<%s> void b(pybind11::module &m%s) { pb::rec<%s<%s>>(\"b%d\", m, \"T%d\"%s); }\n" % (
            head, "".join(", std::string const &s%d" % j for j in range(len(params))), name, ", ".join(params), i, i, "".join(", s%d" % j for j in range(len(params))))
    else:
        probe += "inline void b(pybind11::module &m) { pb::rec<%s>(\"b%d\", m, \"P%d\"); }\n" % (name, i, i)
    probe += "template<class C> void a(C &cl) { pb::add(\"a%d\", cl); }\n}\n" % i
    if directive in ("binder", "both"):
        cfg.append("+binder %s%s%s%s" % (name, SEPARATORS[sep], bname, tail))
    if directive in ("add-on", "both"):
        cfg.append("+add_on_binder %s%s%s%s" % (name, SEPARATORS[sep], aname, tail))
    inc = "probe%d.hpp" % i
    if how == "include":
        cfg.insert(0, "+include <%s>" % inc)
    elif how == "class":
        cfg.append("+include_for_class %s <%s>" % (name, inc))
    else:
        cfg.insert(0, "+include_for_namespace %s <%s>" % (mod[2:].replace(".", "::"), inc))
    custom, addon = directive in ("binder", "both"), directive == "add-on"
    asks = [("sorted(calls('b%d'))" % i, sorted([mod, t, list(a)] for t, a, _ in types) if custom else [])]
    got = "n" if kind != "inner namespace" else "n.s%d" % i
    pys = []
    for t, a, py in types:
        x = "X_%s%s" % ("T%d" % i if head else "P%d" % i, "".join("_" + s for s in a))
        asks.append(("getattr(%s, %r)().custom() if hasattr(%s, %r) else None" % ("m." + got, x, "m." + got, x), 77 if custom else None))
        if py:
            pys.append(py)
            asks.append(("has(%r)" % py, not custom))
            if kind != "union":
                asks.append(("dig(m, %r).get(dig(m, %r)())" % (py, py), (1 if "char" in a else 3) if not custom else "AttributeError"))
            asks.append(("dig(m, %r).extra(dig(m, %r)())" % (py, py), 55 if addon else "AttributeError"))
    asks.append(("len(calls('a%d'))" % i, len(types) if addon else 0))
    asks.append(("sorted(x[1] for x in calls('a%d'))" % i, sorted(t for t, _, _ in types) if addon else []))
    asks.append(("when('a%d')" % i, [[]] * len(types) if addon else []))
    if kind in ("base", "template as base"):
        asks.append(("m.n.D%d().z" % i, 9))
        asks.append(("m.n.D%d().custom() if hasattr(m.n.D%d, 'custom') else None" % (i, i), 77 if custom else None))
        asks.append(("hasattr(m.n.D%d, 'extra')" % i, addon))
    if kind == "nested":
        asks.append(("m.n.O%d().o, m.n.O%d.R().r, hasattr(m.n.O%d, 'extra')" % (i, i, i), [1, 1, False]))
    if kind == "inner namespace":
        asks.append(("m.n.Q%d().get(), hasattr(m.n.Q%d, 'extra')" % (i, i), [3, False]))
    it = Item("%s, %s, %s, %s%s" % (kind, directive, sep, how, ", spaces at the end" if tail else ""), text, asks, config=cfg)
    it.headers = {inc: probe, "probe.hpp": PROBE}
    return it


def binder_name(i):
    """Two directives for the same class: the later one holds, the class is bound once."""
    text, name, types, head = kinds(i)["plain"]
    probe = '#pragma once\n#include <probe.hpp>\n#include <a.hpp>\nnamespace u%d {\ninline void b(pybind11::module &m) { pb::rec<%s>("b%d", m, "P%d"); }\n}\n' % (i, name, i, i)
    it = Item("excluded class", text, [("calls('b%d')" % i, []), ("has('n.P%d')" % i, False)], config=["+include <probe%d.hpp>" % i, "+binder %s u%d::b" % (name, i), "-class %s" % name])
    it.headers = {"probe%d.hpp" % i: probe, "probe.hpp": PROBE}
    return it


NSHAPES = {
    # text of namespace w<i> with inner namespace s; expected own content of w<i> and w<i>::s; classes the custom binder of the namespace has to register
    "independent": ("struct A { int x = 1; }; inline int f() { return 4; } enum E { e }; namespace s { struct B { int x = 2; }; inline int g() { return 5; } }", ["A", "E", "e", "f"], ["B", "g"], [], []),
    "inner first": ("namespace s { struct B { int x = 2; }; } struct A { int x = 1; }; inline int f() { return 4; }", ["A", "f"], ["B"], [], []),
    "entered twice": ("struct A { int x = 1; }; namespace s { struct B : A { int y = 2; }; } struct C : s::B { int z = 3; }; inline int f() { return 4; }", ["A", "C", "f"], ["B"], ["A"], ["B"]),
    "interleaved": ("struct A { int x = 1; }; namespace s { struct B { int x = 1; }; } struct C { int x = 1; }; namespace s { struct D { int x = 1; }; inline void g() {} } inline void f() {}", ["A", "C", "f"], ["B", "D", "g"], [], []),
    "functions only": ("inline int f() { return 4; } namespace s { inline int g() { return 5; } }", ["f"], ["g"], [], []),
    "enums only": ("enum class E { e }; namespace s { enum class E { e }; }", ["E"], ["E"], [], []),
    "inner only": ("namespace s { struct B { int x = 1; }; }", [], ["B"], [], []),
}


def namespace_item(i, shape, du, ds, how):
    text, own, inner, need_u, need_s = NSHAPES[shape]
    w = "w%d" % i
    cfg, asks = [], []
    probe = '#pragma once\n#include <probe.hpp>\n#include <a.hpp>\nnamespace u%d {\n' % i
    for tag, ns, need in (("u", w, need_u), ("s", w + "::s", need_s)):
        # classes that others derive from have to be registered by the replacement
        reg = "".join("pybind11::class_<%s::%s, std::shared_ptr<%s::%s>%s>(m, \"%s\");" % (ns, k, ns, k, ", %s::A" % w if k == "B" and shape == "entered twice" else "", k) for k in need)
        probe += "inline void b%s(pybind11::module &m) { pb::ns(\"nb%d%s\", m); %s }\ninline void a%s(pybind11::module &m) { pb::ns(\"na%d%s\", m); }\n" % (tag, i, tag, reg, tag, i, tag)
    probe += "}\n"
    inc = "probe%d.hpp" % i
    if how == "include":
        cfg.append("+include <%s>" % inc)
    for tag, ns, d, contents, need in (("u", w, du, own, need_u), ("s", w + "::s", ds, inner, need_s)):
        if how == "namespace" and d != "none":
            cfg.append("+include_for_namespace %s <%s>" % (ns, inc))
        if d in ("binder", "both"):
            cfg.append("+binder_for_namespace %s u%d::b%s" % (ns, i, tag))
        if d in ("add-on", "both"):
            cfg.append("+add_on_binder_for_namespace %s u%d::a%s" % (ns, i, tag))
        py = ns.replace("::", ".")
        empty = not contents
        custom, addon = d in ("binder", "both") and not empty, d == "add-on" and not empty
        asks.append(("nscalls('nb%d%s')" % (i, tag), ["m." + py] if custom else []))
        asks.append(("nscalls('na%d%s')" % (i, tag), ["m." + py] if addon else []))
        asks.append(("before('na%d%s')" % (i, tag), [[]] if addon else []))
        asks.append(("content(%r)" % py, sorted((need if custom else contents) + (["by_user"] if custom or addon else []))))
    it = Item("%s: outer %s, inner %s, %s" % (shape, du, ds, how), "", asks, config=["+namespace " + w] + cfg, outside="namespace %s { %s }" % (w, text))
    it.headers = {inc: probe, "probe.hpp": PROBE}
    return it


LAYOUTS = {"one file": ["--single-file"], "several files": [], "small files": ["--max-file-size", "1"], "flat": ["--flat", "--max-file-size", "1"], "flat large": ["--flat"]}


def body(c):
    for lname, args in LAYOUTS.items():
        items = []
        n = lambda: len(items) + 1
        names = sorted(kinds(0))
        for k in names:
            for d in DIRECTIVES:
                hows = ("include", "class", "namespace") if c.thorough or lname == "small files" else ("include",) if d != "add-on" else ("class",)
                for how in hows:
                    if d == "none" and how != "include":
                        continue
                    if how == "class" and (k.startswith("nested")):
                        pass
                    items.append(class_item(n(), k, d, "space", how))
        if lname == "one file" or c.thorough:
            for s in SEPARATORS:
                for d in DIRECTIVES[1:]:
                    for k in ("plain", "template"):
                        for tail in ("", " ", "  \t"):
                            items.append(class_item(n(), k, d, s, "include", tail))
        items.append(binder_name(n()))
        ns = []
        for sh in NSHAPES:
            for du, ds in itertools.product(DIRECTIVES, repeat=2):
                for how in (("include", "namespace") if c.thorough or lname in ("one file", "small files") else ("include",)):
                    i = len(items) + 1
                    items.append(namespace_item(i, sh, du, ds, how))
        packs.explore(c, items, pre="#pragma once\n#include <string>\n", per=24, args=args, label=lname + ": ", prelude=PY)


main("C16", body, rule="every kind of class x directive x layout and every assignment of namespace directives: exactly the promised calls of the custom functions, once each, with the right module, types and names, at the right time, and nothing else changed")
