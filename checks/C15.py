"""C15: class template instances.

Every kind of template argument (types of every shape, values of every kind, packs, defaults, templates) x kind of template (plain, with virtual functions, with base,
nested classes, partially and explicitly specialised ...) x way the program uses the instance: exactly one Python class appears under its name, it is the right C++ class
(it reports the argument it was made for), values pass both ways, and virtual functions can be overridden.
"""
import itertools

from common import *
from vf import packs
from vf.packs import Item

PRE = r"""#include <string>
#include <vector>
#include <array>
#include <functional>
#include <memory>
#include <cstddef>
namespace n {
struct P { int x = 0; int m() { return 1; } struct N { int q = 0; }; enum PE { pe = 1 }; };
struct P2 { int x = 0; };
enum E { ea, eb }; enum class EC { ea, eb };
template<class T> struct T1 { int z = 0; template<class U> struct In { int w = 0; }; struct Pl { int w = 0; }; };
template<class T, class U> struct T2 { int z = 0; };
template<int I> struct I1 { int z = 0; };
namespace s { struct R { int x = 0; }; template<class T> struct T3 { int z = 0; }; }
inline namespace il { struct L { int x = 0; }; }
inline int gi = 3; constexpr int gi_c = 7; inline int gf(int) { return 1; }
typedef int Int; using Str = std::string; template<class T> using A1 = T1<T>;
}
"""
# argument as written -> (parameter, what follows the template's name in the Python name)
ARGS = {
    "int": ("class", "int"), "bool": ("class", "bool"), "char": ("class", "char"), "signed char": ("class", "signed_char"), "unsigned char": ("class", "unsigned_char"), "short": ("class", "short"), "unsigned": ("class", "unsigned_int"),
    "long": ("class", "long"), "unsigned long": ("class", "unsigned_long"), "long long": ("class", "long_long"), "unsigned long long": ("class", "unsigned_long_long"), "float": ("class", "float"), "double": ("class", "double"), "long double": ("class", "long_double"),
    "wchar_t": ("class", "wchar_t"), "void": ("class", "void"), "std::nullptr_t": ("class", "std_nullptr_t"),
    "int *": ("class", "int__star_"), "int &": ("class", "int__ref_"), "int &&": ("class", "int__ref__ref_"), "const int": ("class", "const_int"), "volatile int": ("class", "volatile_int"), "const int *": ("class", "const_int__star_"), "int * const": ("class", "int__star_const"),
    "int const * const *": ("class", "const_int__star_const__star_"), "int[3]": ("class", "int[3]"), "int[]": ("class", "int[]"), "int(int)": ("class", "int_(int)"), "int(*)(int, char)": ("class", "int_(_star_)(int_char)"), "void(int *)": ("class", "void_(int__star_)"),
    "int(&)[3]": ("class", "int_(_ref_)[3]"), "int(int, ...)": ("class", "int_(int_...)"), "int(int) const": ("class", "int_(int)_const"), "int() noexcept": ("class", "int_()_noexcept"), "void *": ("class", "void__star_"),
    "P": ("class", "n_P"), "P const &": ("class", "const_n_P__ref_"), "P *": ("class", "n_P__star_"), "P::N": ("class", "n_P_N"), "P::PE": ("class", "n_P_PE"), "E": ("class", "n_E"), "EC": ("class", "n_EC"), "s::R": ("class", "n_s_R"), "L": ("class", "n_L"),
    "T1<int>": ("class", "n_T1_int"), "T1<P>": ("class", "n_T1_n_P"), "T1<T1<int>>": ("class", "n_T1_n_T1_int"), "T1<T1<P *>> const &": ("class", "const_n_T1_n_T1_n_P__star___ref_"), "T2<int, P>": ("class", "n_T2_int_n_P"), "I1<3>": ("class", "n_I1_3"), "s::T3<s::R>": ("class", "n_s_T3_n_s_R"),
    "T1<int>::Pl": ("class", "n_T1_int_Pl"), "Int": ("class", "int"), "Str": ("class", "std_string"), "A1<int>": ("class", "n_T1_int"),
    "std::string": ("class", "std_string"), "std::vector<int>": ("class", "std_vector_int"), "std::vector<std::string>": ("class", "std_vector_std_string"), "std::vector<P>": ("class", "std_vector_n_P"), "std::function<int(int)>": ("class", "std_function_int_(int)"), "std::size_t": ("class", "unsigned_long"),
    "1": ("int", "1"), "0": ("int", "0"), "-1": ("int", "-1"), "2147483647": ("int", "2147483647"), "-2147483647 - 1": ("int", "-2147483648"), "sizeof(char)": ("int", "1"), "gi_c": ("int", "7"),
    "'a'": ("char", "'a'"), "'\\\\'": ("char", "'\\\\'"), "'\"'": ("char", "'\"'"), "'\\n'": ("char", "'\\n'"), "'\\''": ("char", "'\\''"), "'('": ("char", "'('"), "'%'": ("char", "'%'"), "'{'": ("char", "'{'"), "'0'": ("char", "'0'"),
    "true": ("bool", "true"), "false": ("bool", "false"), "(1 > 0)": ("bool", "true"), "ea": ("E", "n_ea"), "eb": ("E", "n_eb"), "EC::eb": ("EC", "n_EC_eb"), "P::pe": ("P::PE", "n_P_pe"),
    "&gi": ("int *", "_ref_n_gi"), "nullptr": ("int *", "nullptr"), "&gf": ("int (*)(int)", "_ref_n_gf"), "gi": ("int &", "n_gi"), "&P::x": ("int P::*", "_ref_n_P_x"),
    "5ll": ("long long", "5LL"), "-5l": ("long", "-5L"), "5u": ("unsigned", "5U"), "5ul": ("unsigned long", "5UL"), "(short)5": ("short", "(short)5"), "(unsigned char)65": ("unsigned char", "(unsigned_char)'A'"), "L'x'": ("wchar_t", "L'x'"), "u'x'": ("char16_t", "u'x'"),
}


def param(p, name="V"):
    return p.replace("(*)", "(*%s)" % name) if "(*)" in p else p + " " + name


# kind of template -> (definition with {p}: parameter, {a}: argument, {i}: number; questions about the class C with its name in Python)
def q(*asks):
    return [*asks]


KINDS = {
    "plain": ("template<{p}> struct Q{i} { int v = {r}; int f(int x) { return {r} + x; } static int s() { return {r}; } };", [("C().v", "{r}"), ("C().f(1)", "{r}+1"), ("C.s()", "{r}")]),
    "virtual": ("template<{p}> struct Q{i} { int v = {r}; virtual int f(int x) { return {r} + x; } virtual ~Q{i}() {} int call(int x) { return f(x); } };",
                [("C().f(1)", "{r}+1"), ("type('D', (C,), dict(f=lambda self, x: x * 100))().call(3)", "300"), ("C().call(2)", "{r}+2")]),
    "abstract": ("template<{p}> struct Q{i} { int v = {r}; virtual int f(int x) = 0; virtual ~Q{i}() {} int call(int x) { return f(x); } };",
                 [("type('D', (C,), dict(f=lambda self, x: x * 100))().call(3)", "300")]),
    "base": ("struct B{i} { int b = {r}; };\ntemplate<{p}> struct Q{i} : B{i} { int v = {r}; };", [("C().b", "{r}"), ("issubclass(C, m.n.B{i})", "True")]),
    "nested": ("template<{p}> struct Q{i} { int v = {r}; struct N { int w = {r}; }; enum E { a = {r}, b }; enum class S { c = {r} }; N n() { return N(); } int e(E x) { return x; } };\ntemplate struct Q{i}<{a}>;",
               [("C.N().w", "{r}"), ("C().n().w", "{r}"), ("C().e(C.E.a)", "{r}"), ("int(C.b)", "{r}+1"), ("int(C.S.c)", "{r}")]),
    "constructors": ("template<{p}> struct Q{i} { int v; Q{i}(int x = {r}) : v(x) {} Q{i}(P const &x, int y) : v(x.x + y) {} };", [("C().v", "{r}"), ("C(4).v", "4"), ("C(m.n.P(), 5).v", "5")]),
    "operators": ("template<{p}> struct Q{i} { int v = {r}; bool operator==(Q{i} const &) const { return true; } Q{i} operator+(int x) const { Q{i} r; r.v += x; return r; } };", [("C() == C()", "True"), ("(C() + 2).v", "{r}+2")]),
    "member template": ("template<{p}> struct Q{i} { int v = {r}; template<class Z> int f(Z) { return {r} + sizeof(Z); } int use() { return f('a'); } };\ntemplate struct Q{i}<{a}>;", [("C().f('x')", "{r}+1")]),
    "private base": ("template<{p}> class Q{i} : P2 { public: int v = {r}; using P2::x; };", [("C().x", "0"), ("issubclass(C, m.n.P2)", "False")]),
    "derived": ("template<{p}> struct Q{i} { int v = {r}; };\nstruct D{i} : Q{i}<{a}> { };", [("m.n.D{i}().v", "{r}"), ("issubclass(m.n.D{i}, C)", "True")]),
    "derived template": ("template<{p}> struct R{i} { int b = {r}; };\ntemplate<{p}> struct Q{i} : R{i}<V> { int v = {r}; };", [("C().b", "{r}")]),
    "explicit specialisation": ("template<{p}> struct Q{i} { int no; };\ntemplate<> struct Q{i}<{a}> { int v = {r}; };", [("C().v", "{r}"), ("hasattr(C, 'no')", "False")]),
    "class": ("template<{p}> class Q{i} { int h = {r}; public: int v = {r}; int f() { return h; } };", [("C().f()", "{r}")]),
    "declared first": ("template<{p}> struct Q{i};\nstruct W{i} { Q{i}<{a}> *p(); };\ntemplate<{p}> struct Q{i} { int v = {r}; };\ninline Q{i}<{a}> *W{i}::p() { return new Q{i}<{a}>; }", [("m.n.W{i}().p().v", "{r}")]),
    "methods outside": ("template<{p}> struct Q{i} { int v = {r}; int f(int); };\ntemplate<{p}> int Q{i}<V>::f(int x) { return {r} + x; }", [("C().f(3)", "{r}+3")]),
    "documented": ("template<{p}> struct Q{i} { int v = {r}; /** text */ int f() { return {r}; } };", [("C().f()", "{r}")]),
}
# way the program uses the instance -> (text, questions)
USES = {
    "reference": ("inline int u{i}(Q{i}<{a}> &x) { return x.v; }", [("m.n.u{i}(C())", "{r}")]),
    "const reference": ("inline int u{i}(Q{i}<{a}> const &x) { return x.v; }", [("m.n.u{i}(C())", "{r}")]),
    "value": ("inline int u{i}(Q{i}<{a}> x) { return x.v; }", [("m.n.u{i}(C())", "{r}")]),
    "pointer": ("inline int u{i}(Q{i}<{a}> *x) { return x->v; }", [("m.n.u{i}(C())", "{r}")]),
    "shared pointer": ("inline int u{i}(std::shared_ptr<Q{i}<{a}>> x) { return x->v; }", [("m.n.u{i}(C())", "{r}")]),
    "returned": ("inline Q{i}<{a}> u{i}() { return Q{i}<{a}>(); }", [("m.n.u{i}().v", "{r}"), ("type(m.n.u{i}()) is C", "True")]),
    "returned pointer": ("inline Q{i}<{a}> *u{i}() { return new Q{i}<{a}>; }", [("m.n.u{i}().v", "{r}")]),
    "explicit instantiation": ("template struct Q{i}<{a}>;", [("C().v", "{r}")]),
    "alias": ("using L{i} = Q{i}<{a}>; inline int u{i}(L{i} const &x) { return x.v; }", [("m.n.u{i}(C())", "{r}")]),
    "typedef": ("typedef Q{i}<{a}> L{i}; typedef L{i} LL{i}; inline int u{i}(LL{i} const &x) { return x.v; }", [("m.n.u{i}(C())", "{r}")]),
    "method parameter": ("struct W{i} { int u(Q{i}<{a}> const &x) { return x.v; } };", [("m.n.W{i}().u(C())", "{r}")]),
    "constructor parameter": ("struct W{i} { int y; W{i}(Q{i}<{a}> const &x) : y(x.v) {} };", [("m.n.W{i}(C()).y", "{r}")]),
    "default argument": ("inline int u{i}(int z, Q{i}<{a}> const &x = Q{i}<{a}>()) { return x.v + z; }", [("m.n.u{i}(1)", "{r}+1"), ("m.n.u{i}(1, C())", "{r}+1")]),
    "virtual parameter": ("struct W{i} { virtual int u(Q{i}<{a}> const &x) { return x.v; } virtual ~W{i}() {} };\ninline int k{i}(W{i} &w) { return w.u(Q{i}<{a}>()); }", [("m.n.W{i}().u(C())", "{r}"), ("m.n.k{i}(type('D', (m.n.W{i},), dict(u=lambda s, x: x.v * 10))())", "{r}*10")]),
    "argument of another": ("template<class X> struct Z{i} { X x; int g() { return x.v; } }; inline int u{i}(Z{i}<Q{i}<{a}>> &x) { return x.g(); }", [("m.n.u{i}(getattr(m.n, [x for x in dir(m.n) if x.startswith('Z{i}_')][0])())", "{r}")]),
    "friend": ("inline int u{i}(Q{i}<{a}> &x, Q{i}<{a}> &y) { return x.v + y.v; }", [("m.n.u{i}(C(), C())", "2*{r}")]),
}


def build(i, tmpl, targs, name, kind, use, key):
    """tmpl: parameter list; targs: argument list as written; name: what follows in the Python name."""
    r = 10 + i
    d, asks = KINDS[kind]
    u, uasks = USES[use]
    if "template struct" in d and use == "explicit instantiation":
        return None
    if kind == "abstract":
        if use in ("value", "returned", "returned pointer", "default argument", "virtual parameter", "argument of another", "declared first"):
            return None
        uasks = []
    fill = lambda s: s.replace("{p}", tmpl).replace("{a}", targs).replace("{i}", str(i)).replace("{r}", str(r))
    py = "Q%d_%s" % (i, name)
    out = [("[x for x in dir(m.n) if x.startswith('Q%d_')] == [%r]" % (i, py), True)]
    for e, w in [*asks, *uasks]:
        out.append(("(lambda C: %s)(getattr(m.n, %r))" % (fill(e), py), eval(fill(w))))
    text = fill(d) + "\n" + fill(u)
    return Item(key, text, out)


FEW = ["int", "P", "T1<P>", "int const * const *", "std::string", "std::vector<int>", "int(int)", "3", "-1", "'\"'", "true", "EC::eb", "&gi"]
ARGS["3"] = ("int", "3")


OTHER = {
    # parameter list, arguments, Python name
    "empty pack": ("class... V", "", "t"),
    "pack of one": ("class... V", "int", "int_t"),
    "pack of two": ("class... V", "int, P", "int_n_P_t"),
    "pack of three": ("class... V", "T1<int>, P, int *", "n_T1_int_n_P_int__star__t"),
    "pack of values": ("int... V", "1, -2, 3", "1_-2_3_t"),
    "empty pack of values": ("int... V", "", "t"),
    "one and empty pack": ("class H, class... V", "int", "int_t"),
    "one and pack": ("class H, class... V", "int, P, char", "int_n_P_char_t"),
    "default": ("class H, class V = P", "int", "int_n_P_t"),
    "default given": ("class H, class V = P", "int, char", "int_char_t"),
    "dependent default": ("class H, class V = T1<H>", "int", "int_n_T1_int_t"),
    "all default": ("class V = int", "", "int_t"),
    "default value": ("class H, int V = 4", "P", "n_P_4_t"),
    "template": ("template<class> class V", "T1", "n_T1_t"),
    "template and type": ("template<class> class V, class H", "T1, int", "n_T1_int_t"),
    "library template": ("template<class...> class V", "std::vector", "std_vector_t"),
    "template alias argument": ("class V", "A1<A1<P>>", "n_T1_n_T1_n_P_t"),
    "mixed": ("class V, int I, bool B, EC C", "P, 3, true, EC::ea", "n_P_3_true_n_EC_ea_t"),
    "dependent value": ("class T, T V", "int, 3", "int_3_t"),
    "dependent char": ("class T, T V", "char, 'x'", "char_'x'_t"),
    "auto int": ("auto V", "3", "3_t"),
    "auto char": ("auto V", "'x'", "'x'_t"),
    "auto bool": ("auto V", "true", "true_t"),
    "auto long": ("auto V", "3l", "3L_t"),
    "auto enum": ("auto V", "ea", "n_ea_t"),
    "unnamed": ("class, int", "int, 2", "int_2_t"),
    "pack expansion type": ("class V", "T2<int, T2<P, char>>", "n_T2_int_n_T2_n_P_char_t"),
    "array of class": ("class V", "std::array<P, 3>", "std_array_n_P_3_t"),
}


def items(c):
    out, i = [], 0

    def add(*a):
        nonlocal i
        it = build(i, *a)
        if it:
            out.append(it)
        i += 1
    for a, (p, name) in ARGS.items():
        for kind in KINDS if c.thorough or a in FEW else ("virtual", "nested"):
            for use in USES if a in FEW and (c.thorough or kind == "plain" and a in FEW[2::5]) else ("reference",):
                add(param(p), a, name + "_t", kind, use, "%s | %s | %s" % (a, kind, use))
    NOV = ("derived template", "methods outside")      # they name the parameter
    for k, (p, a, name) in OTHER.items():
        for kind in KINDS if c.thorough else ("virtual", "nested", "plain"):
            if kind in NOV or kind == "declared first" and "=" in p or kind == "explicit specialisation" and "..." in p and not a:
                continue
            for use in USES if c.thorough or kind == "plain" and k in ("empty pack", "default", "one and pack") else ("const reference",):
                add(p, a, name, kind, use, "%s | %s | %s" % (k, kind, use))
    # several instances of one template side by side: each reports its own argument
    fams = {}
    for a, (p, name) in ARGS.items():
        fams.setdefault(p, {}).setdefault(name, a)
    for p, f in fams.items():
        for virt in (False, True):
            d = "template<%s> struct Q%d { int v = 0; %sint f() { return v; } };\n" % (param(p), i, "virtual " if virt else "")
            asks = []
            for j, (name, a) in enumerate(f.items()):
                d += "inline Q%d<%s> *u%d_%d() { auto r = new Q%d<%s>; r->v = %d; return r; } inline int w%d_%d(Q%d<%s> &x) { return x.v; }\n" % (i, a, i, j, i, a, 50 + j, i, j, i, a)
                asks += [("type(m.n.u%d_%d()).__name__" % (i, j), "Q%d_%s_t" % (i, name)), ("m.n.u%d_%d().f()" % (i, j), 50 + j), ("m.n.w%d_%d(m.n.u%d_%d())" % (i, j, i, j), 50 + j)]
                k = (j + 1) % len(f)
                if k != j:
                    asks.append(("m.n.w%d_%d(m.n.u%d_%d())" % (i, j, i, k), "TypeError"))
            asks.append(("len([x for x in dir(m.n) if x.startswith('Q%d_')])" % i, len(f)))
            out.append(Item("family of %s%s" % (p, " virtual" if virt else ""), d, asks))
            i += 1
    return out


def body(c):
    packs.explore(c, items(c), PRE, per=40, label="")


main("C15", body, rule="template arguments x kinds of template x uses; families of instances side by side")
