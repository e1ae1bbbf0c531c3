"""C10: which functions and methods are exposed, and that each reaches its own C++ function.

Three families, every member compiled with the real pybind11 and called from Python:
 members:    kind of member function x place (class kind, access, nesting, templates, inheritance, lifting by using-declarations, hiding)
 functions:  kind of free function x place (namespaces, inline and anonymous ones, extern "C")
 signatures: type x parameter or return x way of naming it x kind of function; a function whose signature cannot be expressed is left out, alone
"""
from common import *
from vf import packs
from vf.packs import Item

PRE = """#include <string>
#include <memory>
#include <utility>
#include <tuple>
#include <functional>
#include <cstddef>
namespace n {
struct X { int v = 3; X() {} X(int i) : v(i) {} };
struct Y { int v = 4; };
enum E { e1 = 1, e2 = 2 };
enum class S { s1 = 1, s2 = 2 };
template<class T> struct T1 { T t = T(); };
template struct T1<int>; template struct T1<X>; template struct T1<T1<int>>;
union U { int a; };
struct Ab { virtual int f() = 0; virtual ~Ab() {} };
struct Inc;
namespace { struct Hid { int v; }; enum HE { he }; enum class HS { hs }; }
class Prot { protected: struct In { int v; }; enum PE { pe }; private: struct Pr {}; public: Prot() {} int q = 1; };
struct Out { struct Pub { int v = 5; }; enum PubE { pube = 3 }; };
}
"""

# kind -> (declaration of f and companions inside the class; {r}: number the function returns), calls: argument text -> offset, or None when nothing is bound
MEMBERS = {
    "plain": ("int f(int a) { return {r} + a; }", {"1": 1}),
    "const": ("int f(int a) const { return {r} + a; }", {"1": 1}),
    "static": ("static int f(int a) { return {r} + a; }", {"1": 1}),
    "noexcept": ("int f(int a) noexcept { return {r} + a; }", {"1": 1}),
    "const noexcept": ("int f(int a) const noexcept { return {r} + a; }", {"1": 1}),
    "static noexcept": ("static int f(int a) noexcept { return {r} + a; }", {"1": 1}),
    "constexpr": ("constexpr int f(int a) const { return {r} + a; }", {"1": 1}),
    "static constexpr": ("static constexpr int f(int a) { return {r} + a; }", {"1": 1}),
    "lvalue": ("int f(int a) & { return {r} + a; }", {"1": 1}),
    "const lvalue": ("int f(int a) const & { return {r} + a; }", {"1": 1}),
    "rvalue": ("int f(int a) && { return {r} + a; }", None),
    "volatile": ("int f(int a) volatile { return {r} + a; }", None),
    "const volatile": ("int f(int a) const volatile { return {r} + a; }", None),
    "volatile pair": ("int f(int a) volatile { return 9; } int f(int a) { return {r} + a; }", {"1": 1}),
    "virtual volatile": ("virtual int f(int a) volatile { return {r} + a; }", None),
    "lvalue and rvalue": ("int f(int a) const & { return {r} + a; } int f(int a) && { return 9; }", {"1": 1}),
    "lvalue const pair": ("int f(int a) const & { return 9; } int f(int a) & { return {r} + a; }", {"1": 1}),
    "virtual": ("virtual int f(int a) { return {r} + a; }", {"1": 1}),
    "virtual const": ("virtual int f(int a) const { return {r} + a; }", {"1": 1}),
    "virtual lvalue": ("virtual int f(int a) & { return {r} + a; }", {"1": 1}),
    "virtual noexcept": ("virtual int f(int a) noexcept { return {r} + a; }", {"1": 1}),
    "virtual noexcept(true)": ("virtual int f(int a) noexcept(true) { return {r} + a; }", {"1": 1}),
    "virtual noexcept(false)": ("virtual int f(int a) noexcept(false) { return {r} + a; }", {"1": 1}),
    "deleted": ("int f(int) = delete;", None),
    "deleted overload": ("int f(int a) { return {r} + a; } int f(X const &) = delete;", {"1": 1, "m.n.X()": "TypeError"}),
    "protected enum parameter": ("protected: enum PE { pe }; public: int f(int, PE) { return 9; }", None),
    "protected scoped enum parameter": ("protected: enum class PE { pe }; public: int f(int, PE) { return 9; }", None),
    "protected class parameter": ("protected: struct PE { int z; }; public: int f(int, PE &) { return 9; }", None),
    "protected union parameter": ("protected: union PE { int z; }; public: int f(int, PE const &) { return 9; }", None),
    "protected enum returned": ("protected: enum PE { pe }; public: PE f(int) { return pe; }", None),
    "protected class returned": ("protected: struct PE { int z; }; public: PE f(int) { return PE(); }", None),
    "protected class pointer returned": ("protected: struct PE { int z; }; public: PE *f(int) { return nullptr; }", None),
    "static protected enum parameter": ("protected: enum PE { pe }; public: static int f(PE) { return 9; }", None),
    "protected typedef": ("protected: typedef int PE; public: int f(PE a) { return {r} + a; }", {"1": 1}),
    "private enum parameter": ("private: enum PE { pe }; public: int f(int, PE) { return 9; }", None),
    "private scoped enum parameter": ("private: enum class PE { pe }; public: int f(int, PE) { return 9; }", None),
    "private class parameter": ("private: struct PE { int z; }; public: int f(int, PE &) { return 9; }", None),
    "private union parameter": ("private: union PE { int z; }; public: int f(int, PE const &) { return 9; }", None),
    "private enum returned": ("private: enum PE { pe }; public: PE f(int) { return pe; }", None),
    "private class returned": ("private: struct PE { int z; }; public: PE f(int) { return PE(); }", None),
    "private class pointer returned": ("private: struct PE { int z; }; public: PE *f(int) { return nullptr; }", None),
    "static private enum parameter": ("private: enum PE { pe }; public: static int f(PE) { return 9; }", None),
    "private typedef": ("private: typedef int PE; public: int f(PE a) { return {r} + a; }", {"1": 1}),
    "deleted static": ("static int f(int) = delete;", None),
    "uninstantiated template": ("template<class Q> int f(Q) { return 9; }", None),
    "template": ("template<class Q> int f(Q a) { return {r} + (int)sizeof(Q); } int use() { return f('a'); }", {"'x'": 1, "'xy'": "ValueError"}),
    "static template": ("template<class Q> static int f(Q a) { return {r} + (int)sizeof(Q); } int use() { return f('a'); }", {"'x'": 1}),
    "overloads": ("int f(int a) { return {r} + a; } int f(X const &x) { return {r} + x.v; } int f(int a, int b) { return {r} + a + b; } int f(Y *) { return {r} + 50; } int f() { return {r} + 60; }",
                  {"1": 1, "m.n.X(7)": 7, "1, 2": 3, "m.n.Y()": 50, "": 60}),
    "overloads by type": ("int f(X &) { return {r}; } int f(Y &) { return {r} + 1; } int f(E) { return {r} + 2; } int f(S) { return {r} + 3; } int f(std::string const &) { return {r} + 4; }",
                          {"m.n.X()": 0, "m.n.Y()": 1, "m.n.E.e1": 2, "m.n.S.s1": 3, "'a'": 4}),
    "const pair": ("int f(int a) const { return 9; } int f(int a) { return {r} + a; }", {"1": 1}),
    "const pair, other order": ("int f(int a) { return {r} + a; } int f(int a) const { return 9; }", {"1": 1}),
    "const pair, other return": ("double f(int a) const { return 9; } int f(int a) { return {r} + a; }", {"1": 1}),
    "const pair, deleted": ("int f(int a) = delete; int f(int a) const { return {r} + a; }", {"1": 1}),
    "const pair, not bindable": ("int **f(int a) { return 0; } int f(int a) const { return {r} + a; }", {"1": 1}),
    "const overload, other parameters": ("int f(int a, int b) { return {r} + a + b; } int f(int a) const { return {r} + a; }", {"1": 1, "1, 1": 2}),
    "auto": ("auto f(int a) { return {r} + a; }", {"1": 1}),
    "trailing": ("auto f(int a) -> int { return {r} + a; }", {"1": 1}),
    "const return": ("const int f(int a) { return {r} + a; }", {"1": 1}),
    "reference return": ("int k_ = 0; int &f(int a) { k_ = {r} + a; return k_; }", {"1": 1}),
    "attribute": ("[[nodiscard]] int f(int a) { return {r} + a; }", {"1": 1}),
    "deprecated": ("[[deprecated]] int f(int a) { return {r} + a; }", {"1": 1}),
    "unnamed parameter": ("int f(int) { return {r} + 1; }", {"1": 1}),
    "many parameters": ("int f(int a, int b, int c, int d, int e, int g, int h) { return {r} + a - b + c - d + e - g + h; }", {"1, 2, 3, 4, 5, 6, 7": 4}),
    "typedef": ("typedef int T_; T_ f(T_ a) { return {r} + a; }", {"1": 1}),
    "nested types": ("struct N_ { int v = 2; }; int f(N_ const &x) { return {r} + x.v; }", {"K.N_()": 2}),
}
VIRTUAL = {k for k in MEMBERS if k.startswith("virtual")}
# place -> how
PLACES = ["struct", "class", "private", "protected", "template", "two arguments", "nested", "nested template", "derived", "derived twice", "template base", "plain base of template", "template base of class", "lifted", "lifted from private base",
          "lifted twice", "lifted from template", "protected using", "virtual class", "union", "hidden by derived", "using with overload", "final class", "out of line", "private section of derived", "virtual base", "second base", "abstract"]


def place(i, where, kind, r):
    """text, python class, may be constructed, may call"""
    d, calls = MEMBERS[kind]
    d = d.replace("{r}", str(r))
    C = "C%d" % i
    if where == "struct":
        return "struct %s { %s };" % (C, d), C, calls
    if where == "class":
        return "class %s { int h_; public: %s private: int z_; };" % (C, d), C, calls
    if where == "private":
        return "class %s { %s };" % (C, d), C, None
    if where == "protected":
        return "struct %s { protected: %s };" % (C, d), C, None
    if where == "template":
        return "template<class A> struct %s { A q_ = 1; %s }; inline int u%d(%s<int> &c) { return sizeof(c); } template struct %s<int>;" % (C, d, i, C, C), C + "_int_t", calls
    if where == "two arguments":
        return "template<class A, int B> struct %s { A q_ = B; %s }; template struct %s<char, 3>; inline int u%d(%s<char, 3> &c) { return sizeof(c); }" % (C, d, C, i, C), C + "_char_3_t", calls
    if where == "nested":
        return "struct O%d { struct %s { %s }; };" % (i, C, d), "O%d.%s" % (i, C), calls
    if where == "nested template":
        return "struct O%d { template<class A> struct %s { %s }; int u(%s<int> &c) { return sizeof(c); } }; template struct O%d::%s<int>;" % (i, C, d, C, i, C), "O%d.%s_int_t" % (i, C), calls
    if where == "derived":
        return "struct B%d { %s }; struct %s : public B%d { };" % (i, d, C, i), C, calls
    if where == "derived twice":
        return "struct B%d { %s }; struct D%d : B%d { int o_ = 1; }; struct %s : public D%d { };" % (i, d, i, i, C, i), C, calls
    if where == "second base":
        return "struct A%d { int o_ = 1; }; struct B%d { int p_ = 2; %s }; struct %s : A%d, B%d { };" % (i, i, d, C, i, i), C, calls
    if where == "virtual base":
        return "struct B%d { %s }; struct %s : virtual public B%d { int o_ = 1; };" % (i, d, C, i), C, calls
    if where == "template base":
        return "template<class A> struct B%d { %s }; template<class A> struct %s : public B%d<A> { }; template struct B%d<int>; template struct %s<int>; inline int u%d(%s<int> &c) { return sizeof(c); }" % (i, d, C, i, i, C, i, C), C + "_int_t", calls
    if where == "plain base of template":
        return "struct B%d { %s }; template<class A> struct %s : public B%d { A o_ = 1; }; inline int u%d(%s<int> &c) { return sizeof(c); }" % (i, d, C, i, i, C), C + "_int_t", calls
    if where == "template base of class":
        return "template<class A> struct B%d { %s }; template struct B%d<int>; struct %s : public B%d<int> { };" % (i, d, i, C, i), C, calls
    if where == "lifted":
        return "class B%d { protected: %s }; struct %s : public B%d { using B%d::f; };" % (i, d, C, i, i), C, calls
    if where == "lifted from private base":
        return "class B%d { public: %s }; class %s : private B%d { public: using B%d::f; };" % (i, d, C, i, i), C, calls
    if where == "lifted twice":
        return "class B%d { protected: %s }; struct D%d : public B%d { protected: using B%d::f; }; struct %s : public D%d { using D%d::f; };" % (i, d, i, i, i, C, i, i), C, calls
    if where == "lifted from template":
        return "template<class A> class B%d { protected: %s }; template class B%d<int>; struct %s : public B%d<int> { using B%d<int>::f; };" % (i, d, i, C, i, i), C, calls
    if where == "protected using":
        return "class B%d { protected: %s }; struct %s : public B%d { protected: using B%d::f; };" % (i, d, C, i, i), C, None
    if where == "virtual class":
        return "struct %s { virtual ~%s() {} virtual int vf() { return 1; } %s };" % (C, C, d), C, calls
    if where == "abstract":
        return "struct B%d { virtual ~B%d() {} virtual int vf() = 0; %s }; struct %s : B%d { int vf() override { return 1; } };" % (i, i, d, C, i), C, calls
    if where == "union":
        return "union %s { int q_; %s };" % (C, d), C, calls
    if where == "hidden by derived":
        return "struct B%d { %s }; struct %s : public B%d { int f(int *, int *, int *) { return 1; } };" % (i, d, C, i), C, "hidden"
    if where == "using with overload":
        return "struct B%d { %s }; struct %s : public B%d { using B%d::f; int f(int *, int *, int *) { return 1; } };" % (i, d, C, i, i), C, calls
    if where == "final class":
        return "struct %s final { %s };" % (C, d), C, calls
    if where == "out of line":
        if "(int a) " not in d or "auto" in d or "constexpr" in kind or kind not in ("plain", "const", "noexcept", "const noexcept", "lvalue", "const lvalue"):
            return None
        sig = d[4:d.index(" {")]
        return "struct %s { int %s; }; inline int %s::%s %s" % (C, sig, C, sig, d[d.index("{"):]), C, calls
    if where == "private section of derived":
        return "struct B%d { %s }; class %s : public B%d { int f_; };" % (i, d, C, i), C, calls


def members(thorough):
    i = 0
    for pi, where in enumerate(PLACES):
        for ki, kind in enumerate(MEMBERS):
            i += 1
            if where == "union" and kind in VIRTUAL:
                continue
            if kind.endswith(" typedef") and where in ("private", "protected", "protected using"):
                continue
            if kind == "static template" and where == "using with overload" or kind in ("static", "static noexcept", "static constexpr", "deleted static") and where == "using with overload":
                continue        # pybind11 has no overload sets with static and other methods
            if "template" in kind and ("lifted" in where or where == "using with overload"):
                continue        # see DESIGN: templates named by using-declarations
            if kind == "nested types" and (where in ("lifted from private base", "protected", "private", "protected using", "lifted", "lifted twice", "lifted from template", "derived", "derived twice", "template base", "plain base of template",
                                                     "template base of class", "virtual base", "second base", "abstract", "private section of derived", "using with overload")):
                continue
            if not thorough and where not in ("struct", "template", "lifted", "derived", "lifted from private base") and (pi + ki) % 2:
                continue
            p = place(i, where, kind, 1000 + 100 * (i % 80))
            if p is None:
                continue
            text, cls, calls = p
            r = 1000 + 100 * (i % 80)
            path = "n." + cls
            if MEMBERS[kind][1] is None:
                calls = None if where != "hidden by derived" else "hidden"
                if where == "using with overload":
                    continue
            if calls == "hidden":
                asks = [("has('%s.f')" % path, True)]
                for a, off in (MEMBERS[kind][1] or {}).items():
                    if a != "K.N_()":
                        asks.append(("m.%s().f(%s)" % (path, a), "TypeError"))
            elif calls is None:
                asks = [("has('%s')" % path, True), ("has('%s.f')" % path, False)]
            else:
                asks = [("has('%s.f')" % path, True)]
                for a, off in calls.items():
                    a = a.replace("K.", "m.%s." % path)
                    want = r + off if isinstance(off, int) else off
                    asks.append(("m.%s().f(%s)" % (path, a), want))
                    if "static" in kind:
                        asks.append(("m.%s.f(%s)" % (path, a), want))
            yield Item("%s in %s" % (kind, where), text, asks)
    # the non-const function of a pair is excluded by its signature
    for where in ("struct", "class", "nested", "final class", "virtual class", "derived"):
        i += 1
        C = "C%d" % i
        d = "int f(int a) { return 9; } int f(int a) const { return %d + a; }" % i
        owner = C
        if where == "derived":
            text, owner, path = "struct B%s { %s }; struct %s : B%s { };" % (C, d, C, C), "B" + C, C
        elif where == "nested":
            text, owner, path = "struct O%s { struct %s { %s }; };" % (C, C, d), "O%s::%s" % (C, C), "O%s.%s" % (C, C)
        else:
            text, path = {"struct": "struct %s { %s };", "class": "class %s { public: %s };", "final class": "struct %s final { %s };", "virtual class": "struct %s { virtual void vf() {} %s };"}[where] % (C, d), C
        for sig in ("f(int)", "f"):
            yield Item("const pair in %s, -function %s" % (where, sig), text.replace(C, C + sig[1:2].replace("(", "s")), [("m.n.%s().f(1)" % path.replace(C, C + sig[1:2].replace("(", "s")), i + 1 if sig != "f" else "AttributeError")],
                       config=["-function n::%s::%s" % (owner.replace(C, C + sig[1:2].replace("(", "s")), sig)])


FUNCS = {
    "inline": ("inline int {f}(int a) { return {r} + a; }", {"1": 1}),
    "static": ("static int {f}(int a) { return {r} + a; }", {"1": 1}),
    "constexpr": ("constexpr int {f}(int a) { return {r} + a; }", {"1": 1}),
    "noexcept": ("inline int {f}(int a) noexcept { return {r} + a; }", {"1": 1}),
    "deleted": ("int {f}(int) = delete;", None),
    "deleted overload": ("inline int {f}(int a) { return {r} + a; } int {f}(X const &) = delete;", {"1": 1, "m.n.X()": "TypeError"}),
    "declared, then defined": ("int {f}(int); int {f}(int b); inline int {f}(int a) { return {r} + a; }", {"1": 1}),
    "redeclared": ("inline int {f}(int a) { return {r} + a; } int {f}(int);", {"1": 1}),
    "auto": ("inline auto {f}(int a) { return {r} + a; }", {"1": 1}),
    "trailing": ("inline auto {f}(int a) -> int { return {r} + a; }", {"1": 1}),
    "decltype(auto)": ("inline decltype(auto) {f}(int a) { return {r} + a; }", {"1": 1}),
    "attribute": ("[[nodiscard]] inline int {f}(int a) { return {r} + a; }", {"1": 1}),
    "const return": ("inline const int {f}(int a) { return {r} + a; }", {"1": 1}),
    "friend only": ("struct F{f} { friend int {f}(F{f} const &) { return 9; } };", None),
    "friend of template only": ("template<class A> struct F{f} { friend int {f}(F{f} const &) { return 9; } }; template struct F{f}<int>;", None),
    "friend and declared": ("struct F{f} { int v = 1; friend int {f}(F{f} const &); }; inline int {f}(F{f} const &a) { return {r} + a.v; }", {"m.n.{p}F{f}()": 1}),
    "declared, then friend": ("struct F{f}; int {f}(F{f} const &); struct F{f} { int v = 1; friend int {f}(F{f} const &a) { return {r} + a.v; } };", {"m.n.{p}F{f}()": 1}),
    "local declaration": ("inline int g{f}() { int {f}(int); return 1; }", None),
    "local and other declaration": ("inline int g{f}() { int {f}(int); return 1; } inline int {f}(int a) { return {r} + a; }", {"1": 1}),
    "uninstantiated template": ("template<class Q> int {f}(Q) { return 9; }", None),
    "template, explicit": ("template<class Q> int {f}(Q a) { return {r} + (int)sizeof(Q); } template int {f}<int>(int);", {"1": 4, "m.n.X()": "TypeError"}),
    "template, used": ("template<class Q> int {f}(Q a) { return {r} + (int)sizeof(Q); } inline int g{f}() { return {f}(X()); }", {"m.n.X()": 4, "1": "TypeError"}),
    "template, specialized": ("template<class Q> int {f}(Q a) { return 9; } template<> inline int {f}<int>(int a) { return {r} + a; }", {"1": 1}),
    "template, two instances": ("template<class Q> int {f}(Q a) { return {r} + (int)sizeof(Q); } template int {f}<double>(double); template int {f}<X>(X);", {"1.5": 8, "m.n.X()": 4, "'a'": "TypeError"}),
    "template, not deduced": ("template<class Q, class R> Q {f}(R a) { return Q({r} + a); } template int {f}<int, int>(int);", {"1": 1}),
    "template, value": ("template<int Q> int {f}(X) { return {r} + Q; } template int {f}<3>(X);", {"m.n.X()": 3}),
    "template, value and type": ("template<class R, int Q, bool Z> int {f}(R) { return {r} + Q; } template int {f}<int, 3, true>(int);", {"1": 3}),
    "template, pack": ("template<class... R> int {f}(R... r) { return {r} + sizeof...(R); } inline int g{f}() { return {f}(1, X()) + {f}(1) + {f}(); }", {"1, m.n.X()": 2, "1": 1, "": 0, "1, 2": "TypeError"}),
    "template, default argument": ("template<class R, class Q = int> int {f}(R) { return {r} + (int)sizeof(Q); } template int {f}<int>(int);", {"1": 4}),
    "template of class template": ("template<class R> int {f}(T1<R> const &t) { return {r} + (int)sizeof(t); } template int {f}<int>(T1<int> const &);", {"m.n.T1_int_t()": 4}),
    "template overloads": ("template<class R> int {f}(R) { return {r} + 1; } template<class R> int {f}(R, R) { return {r} + 2; } template int {f}<int>(int); template int {f}<int>(int, int);", {"1": 1, "1, 2": 2}),
    "template and plain": ("template<class R> int {f}(R) { return {r} + 1; } inline int {f}(X) { return {r} + 2; } template int {f}<int>(int);", {"1": 1, "m.n.X()": 2}),
    "overloads": ("inline int {f}(int a) { return {r} + a; } inline int {f}(X const &x) { return {r} + x.v; } inline int {f}(int a, int b) { return {r} + a + b; } inline int {f}(Y *) { return {r} + 50; } inline int {f}() { return {r} + 60; }",
                  {"1": 1, "m.n.X(7)": 7, "1, 2": 3, "m.n.Y()": 50, "": 60}),
    "overloads by type": ("inline int {f}(X &) { return {r}; } inline int {f}(Y &) { return {r} + 1; } inline int {f}(E) { return {r} + 2; } inline int {f}(S) { return {r} + 3; } inline int {f}(std::string const &) { return {r} + 4; }",
                          {"m.n.X()": 0, "m.n.Y()": 1, "m.n.E.e1": 2, "m.n.S.s1": 3, "'a'": 4}),
    "one overload not bindable": ("inline int {f}(int **) { return 9; } inline int {f}(int a) { return {r} + a; } inline X &&{f}(Y) { throw 1; } inline int {f}(Inc *) { return 9; } inline int {f}(X) { return {r} + 2; }",
                                  {"1": 1, "m.n.X()": 2, "None": "TypeError", "m.n.Y()": "TypeError"}),
    "literal operator": ("inline int operator\"\" _{f}(unsigned long long) { return 9; }", None),
    "used by a local class": ("inline int {f}(int a) { struct L { int q; int f() { return q; } }; L l; l.q = a; return {r} + l.f(); }", {"1": 1}),
    "with a lambda": ("inline int {f}(int a) { auto g = [](int x) { return x; }; return {r} + g(a); }", {"1": 1}),
    "with a local enum": ("inline int {f}(int a) { enum L { l = 0 }; enum class M { k }; return {r} + a + l; }", {"1": 1}),
    "named like a Python keyword": ("inline int lambda(int a, X const &, T1<char[{r}]> * = nullptr) { return {r} + a; }", None),
    "default arguments": ("inline int {f}(int a, int b = 5) { return {r} + a + b; }", {"1": 6, "1, 2": 3}),
    "void": ("inline void {f}(X &x) { x.v = {r}; }", {"m.n.X()": None}),
}
WHERE = {"namespace": ("", "%s"), "nested namespace": ("k.", "namespace k { %s }"), "inline namespace": ("", "inline namespace v1 { %s }"), "extern C++": ("", 'extern "C++" { %s }'), "anonymous": (None, "namespace { %s }"),
         "anonymous in nested": (None, "namespace k { namespace { %s } }"), "extern C": ("", 'extern "C" { %s }'), "reopened": ("", "inline int other%d() { return 1; } } namespace n { %s"), "inside anonymous": (None, "namespace { namespace k2 { %s } }"),
         "excluded namespace": (None, "namespace ex { %s }"), "global": (False, "} %s namespace n {")}


def functions(thorough):
    i = 0
    for wi, (where, (path, wrap)) in enumerate(WHERE.items()):
        for ki, (kind, (d, calls)) in enumerate(FUNCS.items()):
            i += 1
            if where == "extern C" and (kind not in ("inline", "static", "noexcept", "declared, then defined", "redeclared", "attribute", "const return", "friend only", "local declaration", "default arguments", "void", "trailing", "auto")):
                continue
            if where == "inline namespace" and kind in ("with a lambda",):
                pass
            if kind == "named like a Python keyword":
                continue
            if where == "global" and ("X" in d or "Y" in d or "T1" in d or kind.startswith("deleted overload")):
                continue
            f = "f%d" % i
            r = 1000 + 100 * (i % 80)
            text = d.replace("{f}", f).replace("{r}", str(r))
            if where == "reopened":
                text = wrap % (i, text)
            else:
                text = wrap % text
            p = "" if path is None or path is False else path
            full = ("n." + p + f)
            asks = []
            if calls is None or path is None or path is False:
                asks.append(("[has('%s'), has('n.%s'), has('%s'), has('n.operator_%s'), has('n.k.%s'), has('n.ex.%s')]" % (full, f, f, f, f, f), [False] * 6))
            else:
                asks.append(("has('%s')" % full, True))
                for a, off in calls.items():
                    a = a.replace("{p}", p).replace("{f}", f)
                    asks.append(("m.%s(%s)" % (full, a), r + off if isinstance(off, int) else off))
            yield Item("%s in %s" % (kind, where), text, asks, config=["-namespace n::ex"] if where == "excluded namespace" else [])


# type -> bound as (parameter, return)
TYPES = {
    "int": (1, 1), "int *": (1, 1), "int &": (1, 1), "const int &": (1, 1), "const int *": (1, 1), "int * const": (1, 1), "const int": (1, 1), "bool": (1, 1), "bool &": (1, 1), "double": (1, 1), "float &": (1, 1), "unsigned long long": (1, 1), "signed char": (1, 1),
    "unsigned char &": (1, 1), "long double": (1, 1), "const char *": (1, 1), "char *": (1, 1), "char &": (1, 1), "const char &": (1, 1), "void *": (1, 1), "const void *": (1, 1), "std::size_t": (1, 1), "std::nullptr_t": (1, 1), "wchar_t": (1, 1), "char16_t": (1, 1), "const wchar_t *": (1, 1),
    "X": (1, 1), "X &": (1, 1), "X const &": (1, 1), "X *": (1, 1), "X const *": (1, 1), "X const * const": (1, 1), "X const": (1, 1), "E": (1, 1), "E &": (1, 1), "E *": (1, 1), "E const &": (1, 1), "S": (1, 1), "S &": (1, 1), "const S *": (1, 1), "U": (1, 1), "U &": (1, 1),
    "Ab &": (1, 1), "Ab *": (1, 1), "Ab const &": (1, 1), "T1<int>": (1, 1), "T1<X> &": (1, 1), "T1<T1<int> > *": (1, 1), "Out::Pub": (1, 1), "Out::Pub const &": (1, 1), "Out::PubE": (1, 1),
    "std::string": (1, 1), "std::string &": (1, 1), "std::string const &": (1, 1), "std::shared_ptr<X>": (1, 1), "std::shared_ptr<X> const &": (1, 1), "std::shared_ptr<X const>": None, "std::unique_ptr<X>": None, "std::pair<int, int>": (1, 1), "const std::pair<int, int> &": (1, 1), "std::tuple<int, X>": (1, 1), "const std::tuple<int> &": (1, 1),
    "std::function<int(int)>": (1, 1), "std::function<void(X &)> const &": (1, 1),
    "X * const &": (1, 1), "int * const &": (1, 1),
    "int **": (0, 0), "X **": (0, 0), "X * const *": (0, 0), "char **": (0, 0), "void **": (0, 0), "int ***": (0, 0), "int *&": (0, 1), "X *&": (0, 1), "void *&": (0, 1), "int &&": (0, 0), "X &&": (0, 0), "const X &&": (0, 0), "std::string &&": (0, 0),
    "int (*)(int)": (0, 0), "void (*)()": (0, 0), "X &(*)(X &)": (0, 0), "int (*&)(int)": None, "int (&)(int)": (None, 0), "int X::*": (0, 0), "int (X::*)(int)": (0, 0), "void (X::*)() const": (0, 0), "int X::* const &": (0, 0),
    "int (*)[3]": (0, 0), "int (&)[3]": (0, 0), "const int (&)[3]": (0, 0), "X (*)[2]": (0, 0), "X (&)[2]": (0, 0), "char (&)[8]": (0, 0),
    "Inc *": (0, 0), "Inc &": (0, 0), "Inc const &": (0, 0), "Hid": (0, 0), "Hid &": (0, 0), "Hid const *": (0, 0), "HE": (0, 0), "HE &": (0, 0), "HE *": (0, 0), "HS": (0, 0), "HS const &": (0, 0), "T1<Hid> &": (0, 0),
    "std::pair<int, int> &": (0, 0), "std::pair<int, int> *": (0, 0), "std::pair<X, int> const *": (0, 0), "std::tuple<int> &": (0, 0), "std::tuple<int> *": (0, 0), "std::tuple<int> const *": (0, 0), "std::pair<int, int> * const": (0, 0), "std::tuple<X> const * const": (0, 0), "T1<Y> *": (0, 0),
}
ROLES = ["function", "method", "const method", "static method", "constructor", "virtual", "template method", "second parameter", "default argument", "lifted"]
NAMINGS = ["direct", "typedef", "typedef of typedef", "template alias", "typedef in class"]


def spell(t, name):
    """Declares `name` with type t, also for types that wrap around the name."""
    for w in ("(*&)", "(*)", "(&)", "X::*)"):
        if w in t:
            return t.replace(w, w[:-1] + " " + name + ")", 1)
    return t + " " + name


def signatures(thorough):
    i = 0
    for ti, (t, ok) in enumerate(TYPES.items()):
        if ok is None:
            continue
        for ri, role in enumerate(ROLES):
            for ni, naming in enumerate(NAMINGS):
                if not thorough and (ri or ni) and (ti + 3 * ri + 2 * ni) % (10 if ri and ni else 4):
                    continue
                for pos in (0, 1):
                    if pos and role in ("constructor", "second parameter", "default argument"):
                        continue
                    if pos and naming == "direct" and role == "const method" and spell(t, "q") != t + " q":
                        continue
                    if t in ("T1<Y> *",) and naming != "direct":
                        continue
                    if t == "T1<Y> *" and (role == "template method"):
                        continue
                    if role == "default argument" and "int (&)(int)" == t:
                        continue
                    i += 1
                    pre, d = "", t
                    if naming == "typedef":
                        pre, d = "typedef %s; " % spell(t, "Y%d" % i), "Y%d" % i
                    elif naming == "typedef of typedef":
                        pre, d = "using Z%d = %s; using Y%d = Z%d; " % (i, t, i, i), "Y%d" % i
                    elif naming == "template alias":
                        pre, d = "template<class A> using Y%d = %s; " % (i, t), "Y%d<int>" % i
                    elif naming == "typedef in class":
                        pre, d = "struct Y%d { typedef %s; }; " % (i, spell(t, "type")), "Y%d::type" % i
                    if ok[pos] is None:
                        continue
                    want = bool(ok[pos]) and not (pos and role == "virtual" and t.endswith("*&"))
                    if pos:
                        if naming == "direct" and spell(t, "q") != t + " q":
                            sig, bodyt = spell(t, "f%d(int)" % i), "{ throw 1; }"
                        else:
                            sig, bodyt = "%s f%d(int)" % (d, i), "{ throw 1; }"
                    else:
                        a = spell(t, "a") if naming == "direct" else d + " a"
                        sig, bodyt = "int f%d(%s)" % (i, a), "{ return 1; }"
                    f = "f%d" % i
                    C = "C%d" % i
                    asks = []
                    if role == "function":
                        text, path = "inline %s %s" % (sig, bodyt), "n." + f
                    elif role == "method":
                        text, path = "struct %s { %s %s };" % (C, sig, bodyt), "n.%s.%s" % (C, f)
                    elif role == "const method":
                        text, path = "struct %s { %s const %s };" % (C, sig, bodyt), "n.%s.%s" % (C, f)
                    elif role == "static method":
                        text, path = "struct %s { static %s %s };" % (C, sig, bodyt), "n.%s.%s" % (C, f)
                    elif role == "virtual":
                        if t in ("std::pair<int, int>",) or "std::" in t:
                            continue
                        text, path = "struct %s { virtual %s %s virtual ~%s() {} };" % (C, sig, bodyt, C), "n.%s.%s" % (C, f)
                    elif role == "lifted":
                        text, path = "class B%s { protected: %s %s }; struct %s : B%s { using B%s::%s; };" % (C, sig, bodyt, C, C, C, f), "n.%s.%s" % (C, f)
                    elif role == "template method":
                        text, path = "template<class A> struct %s { A q_ = 1; %s %s }; template struct %s<int>; inline int u%d(%s<int> &) { return 1; }" % (C, sig, bodyt, C, i, C), "n.%s_int_t.%s" % (C, f)
                    elif role == "second parameter":
                        text, path = "inline int %s(int, %s, X *) { return 1; }" % (f, spell(t, "a") if naming == "direct" else d + " a"), "n." + f
                    elif role == "default argument":
                        text, path = "inline int %s(%s, int = 3) { return 1; }" % (f, spell(t, "a") if naming == "direct" else d + " a"), "n." + f
                    elif role == "constructor":
                        text = "struct %s { %s(char *, %s) {} %s(E, E, E) {} };" % (C, C, spell(t, "a") if naming == "direct" else d + " a", C)
                        asks = [("m.n.%s.__init__.__doc__.count('self:')" % C, 2 if want else 1)]
                        path = None
                    if path:
                        asks = [("has('%s')" % path, want)]
                        if "." in path[2:]:
                            asks.append(("has('%s')" % path.rsplit(".", 1)[0], True))
                    yield Item("%s, %s, %s, %s" % (t, "returned" if pos else "taken", naming, role), pre + text, asks)


def body(c):
    ms, fs, ss = list(members(c.thorough)), list(functions(c.thorough)), list(signatures(c.thorough))
    c.bounds.update({"member functions": len(ms), "free functions": len(fs), "signatures": len(ss), "kinds of member functions": list(MEMBERS), "places": PLACES, "kinds of functions": list(FUNCS), "places of functions": list(WHERE),
                     "types": [t for t in TYPES if TYPES[t]], "roles": ROLES, "ways of naming a type": NAMINGS})
    packs.explore(c, ms, PRE, per=60, label="member: ")
    packs.explore(c, fs, PRE, per=60, label="function: ")
    packs.explore(c, ss, PRE, per=90, label="signature: ")


main("C10", body, rule="every kind of function x place, and every type x role x naming: present exactly if promised, and every call reaches its own C++ function")
