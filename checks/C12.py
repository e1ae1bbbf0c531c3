"""C12: data members.

Every combination of type x declaration x place within the bounds is bound, compiled with the real pybind11 and used from Python: whether the attribute is
there, whether it can be assigned, that reading gives the C++ value and that assigning changes exactly this member as C++ sees it. Whether a type can be
assigned is asked of the C++ compiler itself (std::is_copy_assignable).
"""
import itertools
import json
import re
from common import *

PRE = """#include <string>
#include <memory>
#include <type_traits>
namespace vf_d {}
namespace n {
struct X { int v = 3; X() {} X(int i) : v(i) {} };
enum E { e1 = 1, e2 = 2 };
enum class S { s1 = 1, s2 = 2 };
struct DelA { int v = 3; DelA() {} DelA(DelA const &) = default; DelA &operator=(DelA const &) = delete; };
class PrivA { public: int v = 3; PrivA() {} PrivA(PrivA const &) = default; private: PrivA &operator=(PrivA const &); };
class ProtA { public: int v = 3; ProtA() {} ProtA(ProtA const &) = default; protected: ProtA &operator=(ProtA const &); };
struct ConstM { int v = 3; const int c = 1; };
struct RefM { int v = 3; int &c = v; };
struct DerA : public DelA { };
struct HasA { int v = 3; DelA a; };
struct ArrA { int v = 3; DelA a[2]; };
struct UserA { int v = 3; UserA() {} UserA(UserA const &) {} UserA &operator=(UserA const &o) { v = o.v; return *this; } const int c = 1; };
template<class T> struct TmplA { T v = 3; TmplA() {} TmplA(TmplA const &) {} TmplA &operator=(TmplA const &) = delete; };
template<class T> struct TmplB { T v = 3; };
typedef DelA DelT; typedef X XT; typedef const int CI; typedef int I; typedef int *IP; typedef int IA[2]; typedef int &IR; using TT = TmplA<int>; typedef const X CX; typedef DelT DelTT;
namespace { struct Hid { int v = 3; }; }
class Prot { protected: struct In { int v = 3; }; public: static int k; };
}
"""
# type, printed by, new value in Python, what is shown before / after; None: not bound at all
SCALARS = {
    "int": ("3", "7", "7"), "I": ("3", "7", "7"), "double": ("1.5", "2.5", "2.5"), "bool": ("false", "True", "1"), "char": ("'a'", "'b'", "b"), "unsigned long": ("5", "6", "6"),
    "std::string": ('"s"', "'t'", "t"), "E": ("e1", "m.n.E.e2", "2"), "S": ("S::s1", "m.n.S.s2", "2"), "float": ("1", "0.5", "0.5"), "signed char": ("3", "4", "4"), "long long": ("3", "-4", "-4"),
}
CLASSES = ["X", "XT", "n::X", "DelA", "DelT", "DelTT", "n::DelA", "PrivA", "ProtA", "ConstM", "RefM", "DerA", "HasA", "ArrA", "UserA", "TmplA<int>", "TT", "TmplB<int>", "TmplB<long>"]
NOT = {  # declarations that are never bound
    "pointer": "int *f = nullptr;", "typedef pointer": "IP f = nullptr;", "array": "int f[2];", "typedef array": "IA f;", "reference": "int &f;", "typedef reference": "IR f;", "class pointer": "X *f = nullptr;",
    "function pointer": "void (*f)(int) = nullptr;", "bit-field": "int f : 3;", "rvalue reference": "int &&f;", "hidden type": "Hid f;", "static": "static int f;", "static const": "static const int f = 3;", "array of class": "X f[3];",
    "const pointer": "int * const f = nullptr;", "pointer to const": "const X *f = nullptr;", "two dimensions": "int f[2][2];", "pointer to pointer": "int **f = nullptr;", "unnamed bit-field": "int : 3;",
    "unnamed type": "struct { int q; } f;",
}


class K:
    def __init__(self, i, key, text, cpp, py, fields, extra=""):
        self.i, self.key, self.text, self.cpp, self.py, self.fields, self.extra = i, key, text, cpp, py, fields, extra
        self.config = []


QUAL = ("", "const", "mutable", "typedef const")


def decl(t, q, name, init):
    """Declaration of one field."""
    if q == "const":
        return "const %s %s%s;" % (t, name, init)
    if q == "typedef const":
        return "typedef %s const %s_c; %s_c %s%s;" % (t, name, name, name, init)
    if q == "mutable":
        return "mutable %s %s%s;" % (t, name, init)
    return "%s %s%s;" % (t, name, init)


PLACES = ["struct", "class", "template", "nested", "lifted", "lifted template", "template base", "template base 2", "anonymous union", "anonymous struct", "anonymous nested", "union", "virtual", "protected", "private", "derived", "nested template",
          "private lifted", "protected lifted", "protected using", "two arguments"]


def place(i, where, d):
    """Text, C++ class, Python class, whether the member is accessible through the class itself."""
    C, sa, sb = "C%d" % i, "int s0 = 11;", "int s1 = 12;"
    ctor = ""
    if where == "struct":
        return "struct %s { %s %s %s };" % (C, sa, d, sb), "n::" + C, C, True
    if where == "class":
        return "class %s { int hidden = 1; public: %s %s %s };" % (C, sa, d, sb), "n::" + C, C, True
    if where == "virtual":
        return "struct %s { virtual ~%s() {} %s virtual int vf() { return 1; } %s %s };" % (C, C, sa, d, sb), "n::" + C, C, True
    if where == "template":
        return "template<class A> struct %s { A s0 = 11; %s %s }; inline int u%d(%s<int> &c) { return sizeof(c); }" % (C, d, sb, i, C), "n::%s<int>" % C, C + "_int_t", True
    if where == "nested":
        return "struct O%d { struct %s { %s %s %s }; };" % (i, C, sa, d, sb), "n::O%d::%s" % (i, C), "O%d.%s" % (i, C), True
    if where == "nested template":
        return "struct O%d { template<class A> struct %s { %s %s %s }; int u(%s<int> &c) { return sizeof(c); } };" % (i, C, sa, d, sb, C), "n::O%d::%s<int>" % (i, C), "O%d.%s_int_t" % (i, C), True
    if where == "lifted":
        return "struct B%d { protected: %s }; struct %s : public B%d { %s using B%d::f; %s };" % (i, d, C, i, sa, i, sb), "n::" + C, C, True
    if where == "private lifted":
        return "struct B%d { %s }; struct %s : private B%d { %s using B%d::f; %s };" % (i, d, C, i, sa, i, sb), "n::" + C, C, True
    if where == "protected lifted":
        return "struct B%d { %s }; struct D%d : protected B%d { }; struct %s : public D%d { %s using B%d::f; %s };" % (i, d, i, i, C, i, sa, i, sb), "n::" + C, C, True
    if where == "two arguments":
        return "template<class A, class B> struct %s { A s0 = 11; %s %s }; inline int u%d(%s<int, double> &c) { return sizeof(c); }" % (C, d, sb, i, C), "n::%s<int,double>" % C, C + "_int_double_t", True
    if where == "protected using":
        return "struct B%d { protected: %s }; struct %s : public B%d { %s %s protected: using B%d::f; };" % (i, d, C, i, sa, sb, i), "n::" + C, C, False
    if where == "lifted template":
        return "template<class A> struct B%d { protected: %s }; struct %s : public B%d<int> { %s using B%d<int>::f; %s };" % (i, d, C, i, sa, i, sb), "n::" + C, C, True
    if where == "template base":
        return "template<class A> struct B%d { %s }; template<class A> struct %s : public B%d<A> { %s %s }; inline int u%d(%s<int> &c) { return sizeof(c); }" % (i, d, C, i, sa, sb, i, C), "n::%s<int>" % C, C + "_int_t", True
    if where == "template base 2":
        return ("template<class A> struct A%d { %s }; template<class A> struct B%d : public A%d<A> { }; template<class A> struct %s : public B%d<A> { %s %s }; inline int u%d(%s<int> &c) { return sizeof(c); }"
                % (i, d, i, i, C, i, sa, sb, i, C)), "n::%s<int>" % C, C + "_int_t", True
    if where == "derived":
        return "struct B%d { %s }; struct %s : public B%d { %s %s };" % (i, d, C, i, sa, sb), "n::" + C, C, True
    if where == "anonymous union":
        return "struct %s { %s union { %s }; %s };" % (C, sa, d, sb), "n::" + C, C, True
    if where == "anonymous struct":
        return "struct %s { %s struct { %s }; %s };" % (C, sa, d, sb), "n::" + C, C, True
    if where == "anonymous nested":
        return "struct %s { %s union { struct { %s int s3; }; int s4; }; %s };" % (C, sa, d.replace(" = ", " = "), sb), "n::" + C, C, True
    if where == "union":
        return "union %s { %s int s0; };" % (C, d), "n::" + C, C, True
    if where == "protected":
        return "struct %s { %s protected: %s public: %s };" % (C, sa, d, sb), "n::" + C, C, False
    if where == "private":
        return "class %s { %s public: %s %s };" % (C, d, sa, sb), "n::" + C, C, False


def classes(thorough):
    i = 0
    trivial = {"int", "I", "double", "bool", "char", "unsigned long", "E", "S", "float", "signed char", "long long"}
    for pi, where in enumerate(PLACES):
        anon = where in ("anonymous nested", "union", "anonymous union")
        for ti, (t, (init, new, shown)) in enumerate(SCALARS.items()):
            for q in QUAL:
                if where == "anonymous struct" and "const" in q:
                    continue            # clang 14 does not delete the copy assignment of such classes
                if anon and (t not in trivial or "const" in q or (q == "mutable" and where == "union")):
                    continue
                if not thorough and where not in ("struct", "lifted") and (ti + pi) % 4 != QUAL.index(q):
                    continue
                i += 1
                text, cpp, py, acc = place(i, where, decl(t, q, "f", "{%s}" % init if where != "anonymous nested" else ""))
                yield K(i, "%s %s in %s" % (q, t, where), text, cpp, py, ("scalar", acc, "const" not in q, new, shown))
        for ti, t in enumerate(CLASSES):
            for q in QUAL:
                if anon or (where == "anonymous struct" and ("const" in q or t in ("DelA", "DelT", "DelTT", "n::DelA", "PrivA", "ProtA", "ConstM", "RefM", "DerA", "HasA", "ArrA", "TmplA<int>", "TT"))):
                    continue
                if not thorough and where not in ("struct", "lifted") and (ti + pi) % 4 != QUAL.index(q):
                    continue
                i += 1
                text, cpp, py, acc = place(i, where, decl(t, q, "f", "{}"))
                yield K(i, "%s %s in %s" % (q, t, where), text, cpp, py, ("class", acc, "const" not in q, t, None))
        for nk, d in NOT.items():
            if anon and (nk in ("reference", "typedef reference", "rvalue reference", "hidden type", "static", "static const", "array of class", "unnamed type", "unnamed bit-field")):
                continue
            if where in ("lifted", "lifted template", "private lifted", "protected lifted", "protected using") and nk in ("unnamed bit-field", "static", "static const"):
                continue
            if where == "anonymous struct" and nk in ("static", "static const", "reference", "typedef reference", "rvalue reference", "const pointer"):
                continue
            i += 1
            text, cpp, py, acc = place(i, where, d)
            yield K(i, "%s in %s" % (nk, where), text, cpp, py, ("not", False, False, None, None))
    # excluded by -field: the field alone disappears
    for pi, where in enumerate(PLACES):
        if where in ("protected", "private", "protected using", "anonymous nested", "anonymous union", "anonymous struct"):
            continue
        i += 1
        text, cpp, py, acc = place(i, where, "int f; ")
        k = K(i, "excluded int in %s" % where, text, cpp, py, ("not", False, False, None, None))
        owner = {"lifted": "n::B%d", "lifted template": "n::B%d<int>", "template base": "n::B%d<int>", "template base 2": "n::A%d<int>", "derived": "n::B%d", "nested": "n::O%d::C%d", "nested template": "n::O%d::C%d<int>", "template": "n::C%d<int>", "private lifted": "n::B%d", "protected lifted": "n::B%d", "two arguments": "n::C%d<int, double>"}.get(where, "n::C%d")
        k.config = ["-field %s::f" % owner.replace("%d", str(i))]
        yield k


def body(c):
    ks = list(classes(c.thorough))
    c.bounds["members"] = len(ks)
    c.bounds["places"] = PLACES
    c.bounds["types"] = list(SCALARS) + CLASSES
    per = 44
    packs = [ks[j:j + per] for j in range(0, len(ks), per)]

    def header(g):
        return PRE + "namespace n {\n" + "\n".join(k.text for k in g) + "\n}\n"

    def module(g):
        cfg = ["+namespace n"] + [l for k in g for l in k.config]
        case = Case(header(g), config=cfg, args=["--single-file"], key=g[0].key + (" ..." if len(g) > 1 else ""))
        cpp = ["#include <sstream>", "namespace vf_x { typedef int yes;",
               "template<class T> std::string str(T const &t) { std::ostringstream s; s << t; return s.str(); }",
               "template<class T> std::enable_if_t<std::is_enum<T>::value, std::string> show(T const &t) { return str((int)t); }",
               "template<class T> std::enable_if_t<!std::is_enum<T>::value, std::string> show(T const &t) { return str(t); }", "inline std::string show(signed char t) { return str((int)t); }",
               "}", "PYBIND11_MODULE(vfx, M) {", 'M.def("assignable", [](std::string const &t) -> int {']
        script = ["import json, m, sys, importlib.util, importlib.machinery",
                  "def ext(name, path):\n    l = importlib.machinery.ExtensionFileLoader(name, path); s = importlib.util.spec_from_loader(name, l); x = importlib.util.module_from_spec(s); l.exec_module(x); return x",
                  "vfx = ext('vfx', m.__file__)", "res = {}",
                  "def get(py):", "    o = m.n", "    for p in py.split('.'): o = getattr(o, p)", "    return o",
                  "def setf(o, v):", "    try: o.f = v", "    except (AttributeError, TypeError) as e: return type(e).__name__", "    return 'ok'"]
        defs = []
        for k in g:
            kind, acc, w, a, b = k.fields
            if kind == "class":
                cpp.append('if( t == "%d" ) return std::is_copy_assignable<n::%s>::value;' % (k.i, a.replace("n::", "")))
            if kind == "scalar" and acc:
                defs.append('M.def("show%d", [](%s const &o) { return vf_x::show(o.f) + "," + vf_x::show(%s); });' % (k.i, k.cpp, "o.s0" if "union" == k.key.split(" in ")[1] else "o.s0) + vf_x::show(o.s1"))
            if kind == "class" and acc:
                defs.append('M.def("show%d", [](%s const &o) { return vf_x::show(o.f.v) + "," + vf_x::show(o.s0) + vf_x::show(o.s1); });' % (k.i, k.cpp))
            script.append("cls = get('%s')" % k.py)
            if kind == "not" or not acc:
                script.append("res['%d'] = [hasattr(cls, 'f'), hasattr(cls, 's0')]" % k.i)
            elif kind == "scalar":
                script.append("o = cls(); p = cls()")
                script.append("try:\n    v0 = str(o.f); st = setf(o, %s); res['%d'] = [st, str(o.f), vfx.show%d(o), vfx.show%d(p), v0]\nexcept Exception as e: res['%d'] = repr(e)" % (a, k.i, k.i, k.i, k.i))
            else:
                script.append("o = cls(); p = cls()")
                script.append("try:\n    o.f.v = 8; a1 = vfx.show%d(o); p.f.v = 9; st = setf(o, p.f); res['%d'] = [a1, st, vfx.show%d(o), vfx.show%d(p), vfx.assignable('%d'), o.f.v]\nexcept Exception as e: res['%d'] = repr(e)"
                              % (k.i, k.i, k.i, k.i, k.i, k.i))
        cpp += ["return -1; });"] + defs + ["}"]
        script.append("print(json.dumps(res))")
        # one shared object with two entry points, so that the second module sees the registered classes
        py, r = pyb.check_module(case, "\n".join(script) + "\n", extra_cpp={"probe.cpp": '#include <a.hpp>\n' + "\n".join(cpp) + "\n"})
        return case, py, r

    def judge(g, py, r):
        if py.stage != "done":
            return None
        bad = {}
        for k in g:
            kind, acc, w, a, b = k.fields
            got = py.data.get(str(k.i))
            if kind == "not" or not acc:
                if got != [False, True]:
                    bad[k] = ["%s: attribute f present: %s, other members present: %s" % ((k.py,) + tuple(got))]
                continue
            if isinstance(got, str):
                bad[k] = ["%s: %s" % (k.py, got)]
                continue
            sent = "1112"
            if kind == "scalar":
                st, now, so, sp, v0 = got
                union = k.key.endswith(" in union")
                if w and st != "ok":
                    bad[k] = ["%s.f cannot be assigned: %s" % (k.py, st)]
                elif not w and st == "ok":
                    bad[k] = ["%s.f is const, but can be assigned" % k.py]
                elif w and so.split(",")[0] != b:
                    bad[k] = ["%s.f: after assigning %s C++ sees %s" % (k.py, a, so)]
                elif not union and (so.split(",")[1] != sent or sp.split(",")[1] != sent or (w and sp.split(",")[0] == b)):
                    bad[k] = ["%s.f: assigning changed something else: %s %s" % (k.py, so, sp)]
                elif w and now == v0:
                    bad[k] = ["%s.f: reading gives the old value %s" % (k.py, now)]
            else:
                a1, st, so, sp, assignable, now = got
                want = w and assignable
                c8 = "8," + sent
                if not w:       # a const member cannot be changed by C++; pybind11 hands out a reference to it that Python may write to
                    pass
                elif a1 != c8:
                    bad[k] = ["%s.f.v = 8 is not seen by C++: %s" % (k.py, a1)]
                if k in bad:
                    continue
                if bool(want) != (st == "ok"):
                    bad[k] = ["%s.f %s be assigned: %s" % (k.py, "can not" if want else "can", st)]
                elif want and (so != "9," + sent or now != 9):
                    bad[k] = ["%s.f: after assigning, C++ sees %s, Python %s" % (k.py, so, now)]
                elif sp.split(",")[1] != sent:
                    bad[k] = ["%s.f: assigning changed something else %s" % (k.py, sp)]
        return bad

    def work(ks):
        out, todo, outc, steps = [], [ks], [], 0
        while todo and len(out) < 4:
            g = todo.pop()
            case, py, r = module(g)
            bad = judge(g, py, r)
            if bad is not None:
                out += list(bad.items())
                steps += len(g)
                outc.append(sorted({json.dumps(v) for v in py.data.values()}))
            elif len(g) > 1:
                todo += [g[len(g) // 2:], g[:len(g) // 2]]
            else:
                e = [l for l in py.out.split("\n") if "error" in l][:2] or [py.out[-700:]]
                out.append((g[0], ["%s failed: %s" % (py.stage, e)]))
        return ks, out, steps, outc

    for g, bad, steps, outc in run.pmap(work, packs):
        c.traces += 1
        c.transitions += steps
        for k in g:
            c.states.add(k.key)
        for o in outc:
            for x in o:
                c.outcomes.add(x)
        for k, p in bad:
            c.violation(k.key, p, {"header": header([k]), "config": k.config, "class": k.cpp})
    for k in (ks[0], ks[len(ks) // 2], ks[-1]):
        c.sample({"member": k.key, "text": k.text, "config": k.config})


main("C12", body, rule="every type x declaration x place within the bounds: present exactly if promised, assignable exactly if C++ can assign it, and reading and assigning reach exactly that member")
