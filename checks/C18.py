"""C18: module-wide settings.

All combinations of return value policies, call guard, module-local rules, buffer protocol, static prefix, holder, custom trampoline functions, smart holder, pybind11
header and --include-pybind11-stl within the bounds, over every form in which a function or class can be bound; modules are compiled with the real pybind11 and used
from Python, so that the effect of a setting is observed, not its spelling (smart_holder apart: no pybind11 that has it is installed).
"""
import itertools
import json
import re
from common import *

# ---------------------------------------------------------------------------------------------------------------- return value policies
POLICY_H = """#pragma once
#include <memory>
namespace n {
struct X { int v = 1; static int dead; static X *last; X() {} X(X const &o) : v(o.v) {} ~X() { ++dead; } };
inline int X::dead = 0; inline X *X::last = nullptr;
typedef X *XP; typedef X &XR; typedef XP XPP;
inline X *mk() { return X::last = new X(); }
inline bool same(X &x) { return &x == X::last; }
inline int dead() { return X::dead; }
inline X *fp() { return mk(); }
inline const X *fcp() { return mk(); }
inline XP ftp() { return mk(); }
inline XPP fttp(int = 3) { return mk(); }
inline X &fr() { return *mk(); }
inline X const &fcr(int a, int b = 1) { return *mk(); }
inline XR ftr() { return *mk(); }
template<class T> X *tp(T) { return mk(); } template<class T> X &tr(T) { return *mk(); }
inline void use() { tp(1); tr(1); }
inline X fv() { return *mk(); }
inline std::shared_ptr<X> fs() { return std::shared_ptr<X>(mk()); }
struct A {
	static X *sp() { return mk(); } static X &sr(int = 1) { return *mk(); } static const X *scp(int = 1) { return mk(); } static XR str() { return *mk(); } static X sv() { return *mk(); }
	X *mp() { return mk(); } const X *mcp() const { return mk(); } XP mtp(int a, int = 1) { return mk(); } X &mr() { return *mk(); } X const &mcr() const { return *mk(); } XR mtr() { return *mk(); } X mv() { return *mk(); }
	X &operator[](int) { return *mk(); } X *operator()(int) { return mk(); } X &operator+(int) { return *mk(); }
	template<class T> X *mt(T) { return mk(); } template<class T> X &mtl(T) { return *mk(); }
	struct N { X *np() { return mk(); } X &nr() { return *mk(); } static X *nsp() { return mk(); } };
};
inline void use2(A &a) { a.mt(1); a.mtl(1); }
class B { protected: X *lp() { return mk(); } X &lr() { return *mk(); } static X *lsp() { return mk(); } };
struct D : B { using B::lp; using B::lr; using B::lsp; };
template<class T> struct TB { T *bp() { return mk(); } T &br() { return *mk(); } static T *bsp() { return mk(); } };
template<class T> struct TT : TB<T> { T *ttp() { return mk(); } T &ttr() { return *mk(); } static T &tts() { return *mk(); } };
inline TT<X> tt() { return TT<X>(); }
struct V { virtual ~V() {} virtual X *vp() { return mk(); } virtual X &vr() { return *mk(); } };
}
"""
PFORMS = {  # call -> directive that governs it
    "m.n.fp()": "static_pointer", "m.n.fcp()": "static_pointer", "m.n.ftp()": "static_pointer", "m.n.fttp()": "static_pointer", "m.n.fttp(1)": "static_pointer", "m.n.fr()": "static_lvalue", "m.n.fcr(1)": "static_lvalue", "m.n.fcr(1, 2)": "static_lvalue", "m.n.ftr()": "static_lvalue",
    "m.n.tp(1)": "static_pointer", "m.n.tr(1)": "static_lvalue", "m.n.fv()": None, "m.n.A.sp()": "static_pointer", "m.n.A.sr()": "static_lvalue", "m.n.A.sr(2)": "static_lvalue", "m.n.A.scp()": "static_pointer", "m.n.A.scp(1)": "static_pointer", "m.n.A.str()": "static_lvalue", "m.n.A.sv()": None,
    "a.mp()": "member_pointer", "a.mcp()": "member_pointer", "a.mtp(1)": "member_pointer", "a.mtp(1, 2)": "member_pointer", "a.mr()": "member_lvalue", "a.mcr()": "member_lvalue", "a.mtr()": "member_lvalue", "a.mv()": None, "a[1]": "member_lvalue", "a(1)": "member_pointer", "a + 1": "member_lvalue",
    "a.mt(1)": "member_pointer", "a.mtl(1)": "member_lvalue", "m.n.A.N().np()": "member_pointer", "m.n.A.N().nr()": "member_lvalue", "m.n.A.N.nsp()": "static_pointer", "d.lp()": "member_pointer", "d.lr()": "member_lvalue", "m.n.D.lsp()": "static_pointer",
    "t.bp()": "member_pointer", "t.br()": "member_lvalue", "type(t).bsp()": "static_pointer", "t.ttp()": "member_pointer", "t.ttr()": "member_lvalue", "type(t).tts()": "static_lvalue", "m.n.V().vp()": "member_pointer", "m.n.V().vr()": "member_lvalue",
}
# (is it the C++ object itself, is an object destroyed with the Python object)
EFFECT = {("pointer", None): (True, True), ("pointer", "automatic"): (True, True), ("pointer", "take_ownership"): (True, True), ("pointer", "reference"): (True, False), ("pointer", "copy"): (False, True), ("lvalue", None): (False, True), ("lvalue", "automatic"): (False, True), ("lvalue", "copy"): (False, True),
          ("lvalue", "reference"): (True, False), ("lvalue", "take_ownership"): (True, True), ("pointer", "reference_internal"): (True, False), ("lvalue", "reference_internal"): (True, False), ("pointer", "automatic_reference"): (True, False), ("lvalue", "automatic_reference"): (False, True)}
DIRS = ("static_pointer", "static_lvalue", "member_pointer", "member_lvalue")


def policies(c):
    values = (None, "reference", "copy")
    combos = list(itertools.product(values, repeat=4))
    for d in range(4):
        for v in ("automatic", "take_ownership") + (("reference_internal",) if d > 1 else ("automatic_reference",)):
            combos.append(tuple(v if i == d else None for i in range(4)))
    if not c.thorough:
        combos = [x for i, x in enumerate(combos) if i >= 81 or len({y for y in x if y is not None}) > 1 or sum(y is not None for y in x) == 1 or not any(x)]
        combos = [x for i, x in enumerate(combos) if sum(y is None for y in x) >= 1 or i % 3 == 0]
    jobs = []
    for x in combos:
        cfg = ["+namespace n"]
        for d, v in zip(DIRS, x):
            if v:
                cfg.append("+default_%s_return_value_policy pybind11::return_value_policy::%s" % (d.replace("lvalue", "lvalue_reference"), v))
        script = "import json, os, m\na = m.n.A(); d = m.n.D(); t = m.n.tt()\nres = []\n"
        for e in PFORMS:
            script += "o = %s\ns = m.n.same(o); n0 = m.n.dead(); del o\nres.append([s, m.n.dead() > n0])\n" % e
        script += "print(json.dumps(res), flush=True)\nos._exit(0)\n"
        want = []
        for e, k in PFORMS.items():
            if k is None:
                want.append([False, True])
            else:
                want.append(list(EFFECT[(k.split("_")[1], dict(zip(DIRS, x))[k])]))
        jobs.append(("policies %s" % dict(zip(DIRS, x)), Case({"a.hpp": POLICY_H}, config=cfg, args=["--single-file"]), script, list(zip(PFORMS, want)), None))
    return jobs


# ---------------------------------------------------------------------------------------------------------------- call guard
GUARD_H = """#pragma once
#include <string>
namespace vf_g { struct G { static int depth, count; G() { ++depth; ++count; } ~G() { --depth; } }; struct H { H() { G::depth += 10; } ~H() { G::depth -= 10; } }; inline int G::depth = 0; inline int G::count = 0; }
namespace n {
inline int d() { return vf_g::G::depth; }
inline int f() { return d(); } inline int f1(int, int = 1) { return d(); } template<class T> int ft(T) { return d(); } template int ft<int>(int); inline int fv(int, ...) { return d(); }
struct A { int mf() { return d(); } int mc(int = 1) const { return d(); } static int sf(int = 1) { return d(); } int operator()(int) { return d(); } int operator[](int) { return d(); } template<class T> int mt(T) { return d(); } struct N { int nf() { return d(); } };
 int operator-() { return d(); } };
template int A::mt<int>(int);
class B { protected: int lf() { return d(); } }; struct D : B { using B::lf; };
template<class T> struct TB { int bf() { return d(); } }; template<class T> struct TT : TB<T> { int tf(T) { return d(); } }; template struct TT<int>; inline TT<int> tt() { return TT<int>(); }
struct V { virtual ~V() {} virtual int vf() { return d(); } };
}
"""
GFORMS = ["m.n.f()", "m.n.f1(1)", "m.n.f1(1, 2)", "m.n.ft(1)", "m.n.fv(1)", "a.mf()", "a.mc()", "a.mc(2)", "m.n.A.sf()", "m.n.A.sf(3)", "a(1)", "a[1]", "a.mt(1)", "m.n.A.N().nf()", "-a", "m.n.D().lf()", "m.n.tt().bf()", "m.n.tt().tf(1)", "m.n.V().vf()"]


def guards(c):
    out = []
    for name, lines, depth in (("none", [], 0), ("one", ["+default_call_guard vf_g::G"], 1), ("other", ["+default_call_guard vf_g::H"], 10), ("two types", ["+default_call_guard vf_g::G, vf_g::H"], 11), ("later line", ["+default_call_guard vf_g::H", "+default_call_guard vf_g::G"], 1)):
        script = "import json, m\na = m.n.A()\nprint(json.dumps([%s, m.n.d() ]))\n" % ", ".join(GFORMS)
        out.append(("call guard " + name, Case({"a.hpp": GUARD_H}, config=["+namespace n"] + lines, args=["--single-file"]), script, [(e, depth) for e in GFORMS + ["m.n.d()"]], None))
    return out


# ---------------------------------------------------------------------------------------------------------------- module local
LOCAL_H = """#pragma once
#include <vector>
namespace n {
struct A { int x = 1; struct I { int y = 1; enum IE { ie }; }; enum E { e }; enum class S { s }; }; enum E { e1 }; enum class S { s1 };
template<class T> struct T1 { T t; struct J { int j = 1; }; }; inline T1<int> ft() { return T1<int>(); } inline T1<int>::J fj() { return T1<int>::J(); } struct V { virtual ~V() {} virtual int f() { return 1; } }; struct D : A { int z = 1; };
namespace a { struct B { int x = 1; struct I { int y = 1; }; }; enum E { e2 }; }
namespace ab { struct C { int x = 1; }; }
}
namespace n2 { struct A { int x = 1; }; }
"""
LOCAL = {"m.n.A": "n", "m.n.A.I": "n", "m.n.A.I.IE": "n", "m.n.A.E": "n", "m.n.A.S": "n", "m.n.E": "n", "m.n.S": "n", "m.n.T1_int_t": "n", "m.n.T1_int_t.J": "n", "m.n.V": "n", "m.n.D": "n", "m.n.a.B": "n::a", "m.n.a.B.I": "n::a", "m.n.a.E": "n::a", "m.n.ab.C": "n::ab", "m.n2.A": "n2"}


def local(c):
    out = []
    sites = ("@all_namespaces", "n", "n::a")
    for combo in itertools.product("0+-b", repeat=3):
        if combo[0] in "-b":
            continue
        lines = []
        for s, v in zip(sites, combo):
            if v in "+b":
                lines.append("+module_local_namespace " + s)
            if v in "-b":
                lines.append("-module_local_namespace " + s)
        rules = dict(zip(sites, combo))

        def want(ns):
            v = rules.get(ns, "0")
            if rules["@all_namespaces"] == "+":
                return v not in "-b"
            return "reject" if v == "b" else v == "+"
        w = {e: want(ns) for e, ns in LOCAL.items()}
        for rev in ((False, True) if c.thorough else (False,)):
            script = "import json, m\ndef l(c): return any(k.startswith('__pybind11_module_local') for k in vars(c))\nprint(json.dumps([%s]))\n" % ", ".join("l(%s)" % e for e in LOCAL)
            case = Case({"a.hpp": LOCAL_H}, config=["+namespace n", "+namespace n2"] + (lines[::-1] if rev else lines), args=["--single-file"])
            out.append(("module local %s%s" % (" ".join(lines) or "none", " (reversed)" if rev else ""), case, script, [(e, w[e]) for e in LOCAL], "reject" if "reject" in w.values() else None))
    return out


# ---------------------------------------------------------------------------------------------------------------- buffer protocol, static prefix
BUF_H = "#pragma once\nnamespace n { struct A { int x = 1; struct I { int y = 1; }; }; struct AA { int x = 1; }; template<class T> struct T1 { T t; }; inline void f(T1<int>, T1<double>) {} namespace a { struct A { int x = 1; }; } struct V { virtual ~V() {} virtual int f() { return 1; } }; struct D : A { int z = 1; }; }\n"
BUF = {"n::A": ["m.n.A"], "n::A::I": ["m.n.A.I"], "n::T1": ["m.n.T1_int_t", "m.n.T1_double_t"], "n::a::A": ["m.n.a.A"], "n::V": ["m.n.V"]}


def buffers(c):
    out = []
    for k in range(len(BUF) + 1):
        for sub in itertools.combinations(BUF, k):
            if not c.thorough and k not in (0, 1, 2, 5):
                continue
            script = """import json, m
def b(k):
    try: memoryview(k())
    except BufferError: return True
    except TypeError: return False
print(json.dumps([%s]))
""" % ", ".join("b(%s)" % e for v in BUF.values() for e in v + ["m.n.AA"])
            out.append(("buffer protocol " + (" ".join(sub) or "none"), Case({"a.hpp": BUF_H}, config=["+namespace n"] + ["+buffer_protocol " + s for s in sub], args=["--single-file"]), script,
                        [(e, e != "m.n.AA" and s in sub) for s, v in BUF.items() for e in v + ["m.n.AA"]], None))
    return out


PREFIX_H = """#pragma once
namespace n {
inline int f() { return 1; } inline int g(int = 1) { return 2; }
struct A { static int s1() { return 3; } static int s2(int a, int b = 2) { return a * 10 + b; } static int s3(int) { return 4; } static int s3(double) { return 5; } int m1() { return 6; } int m2(int = 1) const { return 7; } template<class T> static int st(T) { return 8; } template<class T> int mt(T) { return 9; }
 struct N { static int ns() { return 10; } int nm() { return 11; } }; int operator()(int) { return 12; } static int both(int) { return 13; } virtual int both() { return 14; } virtual ~A() {} int x = 15; };
template int A::st<int>(int); template int A::mt<int>(int);
class B { protected: static int ls() { return 16; } int lm() { return 17; } }; struct D : B { using B::ls; using B::lm; };
template<class T> struct TB { static int bs() { return 18; } int bm() { return 19; } }; template<class T> struct TT : TB<T> { static int ts() { return 20; } int tm() { return 21; } }; template struct TT<int>; inline TT<int> tt() { return TT<int>(); }
}
"""
STATIC = [("m.n.A", "s1", "()", 3), ("m.n.A", "s2", "(1)", 12), ("m.n.A", "s2", "(1, 5)", 15), ("m.n.A", "s3", "(1)", 4), ("m.n.A", "s3", "(1.5)", 5), ("m.n.A", "st", "(1)", 8), ("m.n.A.N", "ns", "()", 10), ("m.n.D", "ls", "()", 16), ("m.n.TT_int_t", "bs", "()", 18), ("m.n.TT_int_t", "ts", "()", 20), ("m.n.A", "both", "(1)", 13)]
OTHER = [("m.n", "f", "()", 1), ("m.n", "g", "()", 2), ("m.n.A()", "m1", "()", 6), ("m.n.A()", "m2", "()", 7), ("m.n.A()", "mt", "(1)", 9), ("m.n.A.N()", "nm", "()", 11), ("m.n.A()", "__call__", "(1)", 12), ("m.n.A()", "x", "", 15), ("m.n.D()", "lm", "()", 17), ("m.n.tt()", "bm", "()", 19), ("m.n.tt()", "tm", "()", 21), ("m.n.A()", "both", "()", 14)]


def prefix(c):
    out = []
    for p in ("", "s_", "static", "_"):
        # without a prefix pybind11 itself refuses a static and another member function of one name
        st, ot, h = STATIC, OTHER, PREFIX_H
        if not p:
            h = h.replace("static int both(int) { return 13; } virtual int both() { return 14; }", "")
            st, ot = [x for x in st if x[1] != "both"], [x for x in ot if x[1] != "both"]
        asks = [("getattr(%s, %r)%s" % (o, p + n, a), w) for o, n, a, w in st] + [("getattr(%s, %r)%s" % (o, n, a), w) for o, n, a, w in ot]
        if p:
            asks += [("hasattr(%s, %r)" % (o, n), False) for o, n, a, w in st if n != "both"] + [("hasattr(%s, %r)" % (o, p + n), False) for o, n, a, w in ot if n != "both"]
        out.append(("static prefix %r" % p, Case({"a.hpp": h}, config=["+namespace n"] + (["+prefix_for_static_member_functions " + p] if p else []), args=["--single-file"]), "import json, m\nprint(json.dumps([%s]))\n" % ", ".join(e for e, _ in asks), asks, None))
    return out


# ---------------------------------------------------------------------------------------------------------------- holder
HOLDER_H = """#pragma once
#include <memory>
#include <utility>
namespace hp {
template<class T> struct Ptr { std::shared_ptr<T> p; static int made; Ptr() {} explicit Ptr(T *t) : p(t) { ++made; } Ptr(Ptr const &) = default; template<class U> Ptr(Ptr<U> const &o) : p(o.p) {} T *get() const { return p.get(); } T &operator*() const { return *p; } T *operator->() const { return p.get(); } long uses() const { return p.use_count(); } };
template<class T> int Ptr<T>::made = 0;
template<> struct Ptr<void> { std::shared_ptr<void> p; };
}
namespace n {
struct X { int v = 1; X() {} X(int i) : v(i) {} virtual ~X() {} virtual int w() { return v; } }; struct D : X { D() : X(5) {} };
struct O { int q = 1; struct I { int r = 4; }; };
inline @P@<X> make(int i) { return @P@<X>(new X(i)); }
inline @P@<X> same(@P@<X> x) { return x; }
inline int val(@P@<X> const &x) { return x->w(); }
inline int plain(X &x) { return x.w(); }
struct K { @P@<X> x; void set(@P@<X> y) { x = y; } @P@<X> get() const { return x; } int call() { return x->w(); } };
inline @P@<O::I> inner() { return @P@<O::I>(new O::I()); } inline int innerv(@P@<O::I> i) { return i->r; }
template<class T> struct T1 { T t; T1() : t(3) {} }; inline @P@<T1<int>> tmake() { return @P@<T1<int>>(new T1<int>()); } inline int tval(@P@<T1<int>> t) { return t->t; }
}
"""


def holder(c):
    asks = [("m.n.make(3).v", 3), ("m.n.val(m.n.X(4))", 4), ("m.n.val(m.n.D())", 5), ("m.n.same(x) is x", True), ("m.n.plain(m.n.make(6))", 6), ("(k.set(x), k.call(), k.get() is x)[1:]", [9, True]), ("(k.set(m.n.X(8)), gc.collect(), k.call())[2]", 8), ("(k.set(p), k.call())[1]", 77), ("m.n.innerv(m.n.inner())", 4),
            ("m.n.innerv(m.n.O.I())", 4), ("m.n.tval(m.n.tmake())", 3), ("k.x.w()", 77)]
    script = "import json, gc, m\nclass P(m.n.X):\n    def w(self): return 77\nk = m.n.K(); x = m.n.X(9); p = P()\nprint(json.dumps([%s]))\n" % ", ".join(e for e, _ in asks)
    out = []
    for name, lines in (("std::shared_ptr", []), ("hp::Ptr", ["+custom_shared hp::Ptr"]), ("std::shared_ptr", ["+custom_shared std::shared_ptr"])):
        for args in (["--single-file"], []):
            out.append(("holder %s %s %s" % (name, lines, args), Case({"a.hpp": HOLDER_H.replace("@P@", name)}, config=["+namespace n"] + lines, args=args), script, asks, None))
    return out


# ---------------------------------------------------------------------------------------------------------------- custom trampoline functions
TRAMP_H = """#pragma once
#include <string>
namespace n {
struct A { virtual ~A() {} virtual int f() { return 1; } virtual int g(int a, std::string const &b) const { return 2; } virtual int h() { return 3; } virtual int p(int) = 0; };
struct B : A { int p(int) override { return 4; } virtual int f() override { return 5; } };
struct O { struct I { virtual ~I() {} virtual int f() { return 6; } }; };
template<class T> struct T1 { virtual ~T1() {} virtual int f(T t) { return 7; } }; template struct T1<int>; inline T1<int> t1() { return T1<int>(); }
inline int cf(A &a) { return a.f(); } inline int cg(A const &a) { return a.g(1, "x"); } inline int ch(A &a) { return a.h(); } inline int cp(A &a) { return a.p(1); } inline int ci(O::I &a) { return a.f(); } inline int ct(T1<int> &a) { return a.f(1); }
}
"""
TRAMP_U = """#pragma once
#include <string>
#include <a.hpp>
namespace vf_u { template<class C, class P, class...A> int u(P const *, std::string const &cn, std::string const &fn, A const &...a) { return 100 * (1 + sizeof...(a)) + int(fn[0] - 'a'); }
template<class C, class P, class...A> int w(P const *, std::string const &cn, std::string const &fn, A const &...a) { return 1000 + int(fn[0] - 'a'); } }
"""
SITES = {"n::A::f": [("m.n.cf(a)", 105)], "n::A::g": [("m.n.cg(a)", 306), ("m.n.cg(b)", 306)], "n::A::p": [("m.n.cp(a)", 215)], "n::B::f": [("m.n.cf(b)", 105)], "n::O::I::f": [("m.n.ci(i)", 105)], "n::T1::f": [("m.n.ct(t)", 205)]}
TDEF = {"m.n.cf(a)": 1, "m.n.cg(a)": 2, "m.n.cg(b)": 2, "m.n.ch(a)": 3, "m.n.ch(b)": 3, "m.n.cf(b)": 5, "m.n.cp(b)": 4, "m.n.ci(i)": 6, "m.n.ct(t)": 7, "m.n.cf(o)": 55}


def tramp(c):
    out = []
    for k in range(len(SITES) + 1):
        for sub in itertools.combinations(SITES, k):
            if not c.thorough and k not in (0, 1, 2, 6):
                continue
            for fn in ("u",) if not c.thorough and k != 1 else ("u", "w"):
                want = dict(TDEF)
                for s in sub:
                    for e, v in SITES[s]:
                        want[e] = v if fn == "u" else 1000 + v % 100
                # the call-back structure of B takes functions it inherits from A with A's custom function
                if "n::A::f" in sub:
                    want["m.n.cf(o)"] = 105 if fn == "u" else 1005
                if "n::A::p" not in sub:
                    want.pop("m.n.cp(a)", None)
                script = """import json, m
class PA(m.n.A): pass
class PB(m.n.B): pass
class PI(m.n.O.I): pass
class PT(m.n.T1_int_t): pass
class PO(m.n.A):
    def f(self): return 55
a, b, i, t, o = PA(), PB(), PI(), PT(), PO()
print(json.dumps([%s]))
""" % ", ".join(want)
                cfg = ["+namespace n", "+include <u.hpp>"] + ["+trampoline_member_function_binder %s vf_u::%s" % (s, fn) for s in sub]
                out.append(("custom trampoline %s %s" % (fn, " ".join(sub) or "none"), Case({"a.hpp": TRAMP_H, "u.hpp": TRAMP_U}, config=cfg, args=["--single-file"], inp="#include <a.hpp>\n"), script, list(want.items()), None))
    return out


# ---------------------------------------------------------------------------------------------------------------- --include-pybind11-stl
STL_H = """#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <array>
#include <optional>
#include <variant>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
namespace n {
struct X { int v = 3; };
inline int v(std::vector<int> const &x) { int r = 0; for( int i : x ) r = r * 10 + i; return r; } inline std::vector<int> rv() { return {1, 2}; } inline std::vector<X> rx() { return std::vector<X>(2); } inline int vx(std::vector<X> const &x) { return x.size(); }
inline std::map<std::string, int> rm() { return {{"a", 1}}; } inline int mm(std::map<std::string, std::vector<int>> const &x) { return x.at("k").size(); } inline std::set<int> rs() { return {2}; } inline std::list<int> rl() { return {3}; } inline std::deque<int> rd() { return {4}; } inline std::array<int, 2> ra() { return {{5, 6}}; }
inline std::optional<int> ro(bool b) { return b ? std::optional<int>(7) : std::nullopt; } inline std::variant<int, std::string> rvar(bool b) { if( b ) return 8; return std::string("s"); } inline std::unordered_map<int, int> rum() { return {{9, 10}}; } inline std::unordered_set<int> rus() { return {11}; } inline std::valarray<int> rva() { return {12}; }
struct A { std::vector<int> q = {1}; std::vector<int> const &m(std::vector<int> const &x = {}) { q = x; return q; } A() {} A(std::vector<int> const &x) : q(x) {} virtual ~A() {} virtual std::vector<int> w() { return {13}; } int cw() { return w().size(); } };
template<class T> struct T1 { std::vector<T> t; T1() : t(2) {} std::vector<T> get() { return t; } }; inline T1<int> t1() { return T1<int>(); }
}
"""


def stl(c):
    asks = [("m.n.v([1, 2, 3])", 123), ("m.n.rv()", [1, 2]), ("[x.v for x in m.n.rx()]", [3, 3]), ("m.n.vx([m.n.X()])", 1), ("m.n.rm()", {"a": 1}), ("m.n.mm({'k': [1, 2]})", 2), ("sorted(m.n.rs())", [2]), ("m.n.rl()", [3]), ("m.n.rd()", [4]), ("m.n.ra()", [5, 6]), ("m.n.ro(True)", 7), ("m.n.ro(False)", None), ("m.n.rvar(True)", 8),
            ("m.n.rvar(False)", "s"), ("m.n.rum()[9]", 10), ("sorted(m.n.rus())", [11]), ("m.n.rva()", [12]), ("m.n.A([4]).q", [4]), ("m.n.A().m([5, 6])", [5, 6]), ("m.n.A().m()", []), ("P().cw()", 3), ("m.n.A().cw()", 1), ("m.n.t1().get()", [0, 0]), ("hasattr(m, 'std')", False), ("sorted(k for k in vars(m) if k[0] != '_')", ["n"])]
    script = "import json, m\nclass P(m.n.A):\n    def w(self): return [1, 2, 3]\nprint(json.dumps([%s]))\n" % ", ".join(e for e, _ in asks)
    out = [("pybind11 stl %s" % a, Case({"a.hpp": STL_H}, config=["+namespace n"], args=["--include-pybind11-stl"] + a), script, asks, None) for a in ([], ["--single-file"], ["--max-file-size", "1"], ["--flat"])]
    # a container that is declared not to be a built-in is bound again
    a2 = [("m.n.ro(True)", 7), ("type(m.n.rl()).__module__", "m.std"), ("m.n.rs() == {2}", True)]
    h = "#pragma once\n#include <list>\n#include <set>\n#include <optional>\nnamespace n { inline std::list<int> rl() { return {3}; } inline std::set<int> rs() { return {2}; } inline std::optional<int> ro(bool b) { return b ? std::optional<int>(7) : std::nullopt; } }\n"
    out.append(("pybind11 stl without list", Case({"a.hpp": h}, config=["+namespace n", "-python_builtin std::list"], args=["--include-pybind11-stl"]), "import json, m\nprint(json.dumps([%s]))" % ", ".join(e for e, _ in a2[1:2]), a2[1:2], "generated"))
    return out


# ---------------------------------------------------------------------------------------------------------------- what can only be read
def text(c):
    def names(r):
        return {n: t for n, t in r.files.items() if n.endswith(".cpp")}
    cases = []
    for k, args in itertools.product((None, "my/pb.hpp", "pybind11/smart_holder.h"), ([], ["--single-file"], ["--max-file-size", "1"], ["--flat"])):
        cases.append(Case({"a.hpp": BUF_H}, config=["+namespace n"] + (["+pybind11_include_file " + k] if k else []), args=args, key="pybind11 header %s %s" % (k, args), data=k or "pybind11/pybind11.h"))

    def judge(case, r):
        if not r.ok:
            return failed(case, r)
        p = []
        for n, t in names(r).items():
            inc = {x for x in re.findall(r"#include <([^>]*)>", t) if "pb.hpp" in x or x.startswith("pybind11/")}
            if inc != {case.data}:
                p.append("%s includes %s instead of <%s>" % (n, sorted(inc), case.data))
        return Verdict(p, outcome=str(sorted(names(r))))
    c.explore(cases, judge, label="header ")

    cases = []
    for k in range(len(BUF) + 1):
        for sub in itertools.combinations(BUF, k):
            cases.append(Case({"a.hpp": BUF_H}, config=["+namespace n"] + ["+smart_holder " + s for s in sub], args=["--single-file"], key="smart holder %s" % (" ".join(sub) or "none"), data=sub))
    spelled = {"n::A": ["n::A"], "n::A::I": ["n::A::I"], "n::T1": ["n::T1<int>", "n::T1<double>"], "n::a::A": ["n::a::A"], "n::V": ["n::V"]}

    def judge2(case, r):
        if not r.ok:
            return failed(case, r)
        t = r.files["m.cpp"]
        got = [norm(x) for x in re.findall(r"PYBIND11_TYPE_CASTER_BASE_HOLDER\(([^;]*?)\)\s*\n", t)]
        want = [norm("%s , std::shared_ptr<%s>" % (s, s)) for k in case.data for s in spelled[k]]
        p = diff("smart holder declarations", want, got)
        for x in want:
            s = x.split(",")[0].strip()
        return Verdict(p, outcome=str(got))
    c.explore(cases, judge2, label="smart holder ")


def body(c):
    run.exe()
    pyb.pch()
    jobs = policies(c) + guards(c) + local(c) + buffers(c) + prefix(c) + holder(c) + tramp(c) + stl(c)

    def work(job):
        key, case, script, asks, mode = job
        case.key = key
        if mode in ("reject", "generated"):
            r = run.run(case)
            if mode == "reject":
                return key, case, ["contradictory rules were accepted"] if r.ok else [], 1, "rejected"
            ok = r.ok and any("std::list<int" in t and "class_<" in t for t in r.files.values())
            return key, case, [] if ok else ["-python_builtin std::list does not bind std::list"], 1, "generated"
        py, r = pyb.check_module(case, script)
        if py.stage != "done":
            e = [l for l in py.out.split("\n") if "rror" in l][:3] or [py.out[-600:]]
            return key, case, ["%s failed: %s" % (py.stage, e)], 1, py.stage
        bad = []
        got = py.data
        for (e, w), g in zip(asks, got):
            w = json.loads(json.dumps(w))
            if g != w:
                bad.append("%s gives %s instead of %s" % (e, json.dumps(g), json.dumps(w)))
        return key, case, bad, len(asks), json.dumps(got)

    for key, case, bad, n, out in run.pmap(work, jobs):
        c.traces += 1
        c.transitions += n
        c.states.add(key)
        c.outcomes.add(out)
        if bad:
            c.violation(key, bad[:5], case.describe())
    for j in (jobs[0], jobs[len(jobs) // 2], jobs[-1]):
        c.sample({"setting": j[0], "config": j[1].config, "asked": j[3][:6]})
    text(c)


main("C18", body, rule="every combination of settings within the bounds: the compiled module behaves as the setting promises for every form of function and class, and for no other")
