"""C17: includes.

Part 1: every way in which a bound entity can refer to a type that is only declared where it is used (role x kind of type x arrangement of headers) and every library
type of the list: each generated file is compiled on its own.
Part 2: every subset of include directives x layout: the includes of every generated file are compared with the reference model, and nothing else changes.
"""
import itertools
import re
import shutil
import subprocess
from common import *

STD = "#include <string>\n#include <vector>\n#include <map>\n#include <functional>\n#include <optional>\n#include <tuple>\n#include <memory>\n#include <ostream>\n#include <initializer_list>\n"
# what a header says that has only seen a declaration of X (struct) resp. E (enum); N is the namespace of the item
ROLES = {
    "const reference": "void f(X const &);", "reference": "void f(X &);", "pointer": "void f(X *);", "pointer to const": "void f(const X *);", "value": "void f(X);", "returns value": "X f();",
    "returns reference": "X &f();", "returns pointer": "X *f();", "returns const reference": "X const &f();", "const value": "void f(X const);", "second parameter": "void f(int, X const &);", "default argument": "void f(X const &, int = 3);",
    "variadic": "void f(X const &, ...);", "shared pointer": "void f(std::shared_ptr<X>);", "reference to shared pointer": "void f(std::shared_ptr<X> const &);", "returns shared pointer": "std::shared_ptr<X> f();",
    "shared pointer to vector": "void f(std::shared_ptr<std::vector<X>>);", "vector": "void f(std::vector<X> const &);", "vector of pointers": "void f(std::vector<X*> const &);", "vector of shared pointers": "void f(std::vector<std::shared_ptr<X>> const &);",
    "vector of vectors": "void f(std::vector<std::vector<X>> const &);", "map": "void f(std::map<int, X> const &);", "pair": "void f(std::pair<int, X> const &);", "tuple": "void f(std::tuple<int, X> const &);", "last of tuple": "void f(std::tuple<int, int, int, X> const &);",
    "optional": "void f(std::optional<X> const &);", "function": "void f(std::function<void(X const &)>);", "initializer list": "void f(std::initializer_list<X>);",
    "template": "template<class A> struct T { int a; }; void f(T<X> &); void g(T<X>);", "template of pointer": "template<class A> struct T { int a; }; void g(T<X*>);", "template of template": "template<class A> struct T { int a; }; void g(T<T<X>>);",
    "template member": "template<class A> struct T { int a; void q(A &); A *r(A const *); }; void g(T<X>);", "template default": "template<class A, class B = X> struct T { int a; void q(B &); }; void g(T<int>);",
    "template of function": "template<class A> struct T { int a; }; void g(T<void(X)>);", "template of reference": "template<class A> struct T { int a; void q(A); }; void g(T<X const &>);", "template of array": "template<class A> struct T { int a; }; void g(T<X[3]>);",
    "template of typedef": "typedef X XT; template<class A> struct T { int a; void q(A &); }; void g(T<XT>);", "pack": "template<class...A> struct T { int a; void q(A const &...); }; void g(T<int, X>);", "pack first": "template<class...A> struct T { int a; void q(A const &...); }; void g(T<X, int>);",
    "typedef": "typedef X XT; void f(XT const &);", "typedef of pointer": "typedef X *XP; void f(XP);", "typedef of reference": "typedef X const &XP; void f(XP);", "typedef of typedef of pointer": "typedef X *XP; typedef XP XPP; void f(XPP const &);", "alias template": "template<class A> using AT = A const &; void f(AT<X>);",
    "typedef of shared pointer": "typedef std::shared_ptr<X> XOP; void f(XOP); XOP g();", "typedef returned": "typedef X *XP; XP f();", "member typedef": "struct U { typedef X *P; P f(P); };",
    "method": "struct U { void f(X const &); };", "static method": "struct U { static void f(X const &); };", "const method": "struct U { void f(int, X const &, int = 2) const; };", "method returns": "struct U { X *f(); };", "constructor": "struct U { U(X const &); };", "constructor with default": "struct U { U(X const &, int = 3); };",
    "operator": "struct U { bool operator==(X const &) const; };", "subscript": "struct U { X &operator[](int); };", "call": "struct U { X operator()(X const &) const; };", "assignment": "struct U { U &operator=(X const &); };", "conversion": "struct U { operator X() const; };",
    "virtual": "struct U { virtual ~U(); virtual void f(X const &); };", "pure virtual": "struct U { virtual ~U() {} virtual X f() = 0; };", "virtual returns pointer": "struct U { virtual ~U(); virtual X *f(); };", "virtual of base": "struct B { virtual ~B(); virtual void f(X const &); virtual X *g(); }; struct U : B { };",
    "protected virtual": "struct U { virtual ~U(); protected: virtual void f(X const &); virtual X g() = 0; };", "nested": "struct U { struct V { void f(X const &); V(X *); }; };", "nested virtual": "struct U { struct V { virtual ~V(); virtual X f(X const &); }; };",
    "nested twice": "struct U { struct V { struct W { void f(X const &); W(X const &, int = 1); }; }; };", "lifted": "class B { protected: void f(X const &); }; struct U : B { using B::f; };", "lifted from private base": "struct B { void f(X const &); }; class U : B { public: using B::f; };",
    "inherited constructor": "struct B { B(X const &); }; struct U : B { using B::B; };", "template base": "template<class A> struct TB { void q(A const &); A *r(); }; struct U : TB<X> { };",
    "base of template": "template<class A> struct TB { void q(X const &); X *r(); std::shared_ptr<X> m; }; template<class A> struct U : TB<A> { }; void g(U<int>);",
    "base of base of template": "template<class A> struct TC { void q(X const &); X *r(); }; template<class A> struct TB : TC<A> { }; template<class A> struct U : TB<A> { }; void g(U<int>);",
    "virtual template": "template<class A> struct U { virtual ~U() {} virtual A *q(A const &) { return nullptr; } }; void g(U<X>);", "function template": "template<class A> void f(int); template<> void f<X>(int);", "deduced function template": "template<class A> void f(A const &) {} inline void k(X const &x) { f(x); }",
    "member function template": "struct U { template<class A> void f(A const &) {} }; inline void k(U &u, X const &x) { u.f(x); }", "shared pointer member": "struct U { std::shared_ptr<X> p; };", "pair member": "struct U { std::pair<int, std::shared_ptr<X>> p; };", "tuple member": "struct U { std::tuple<int, std::shared_ptr<X>> p; };",
    "member of anonymous structure": "struct U { struct { std::shared_ptr<X> p; }; };", "lifted member": "struct B { std::shared_ptr<X> p; }; class U : B { public: using B::p; };", "nested member": "struct U { struct V { std::shared_ptr<X> p; }; };", "vector member": "struct U { std::vector<X*> p; };", "union": "union U { int a; void f(X const &); };",
    "static shared pointers": "struct U { static X *f(std::shared_ptr<X> const &); };",
}
ENUM = {"const reference": "void f(E const &);", "value": "void f(E);", "returns": "E f();", "template": "template<class A> struct T { int a; void q(A); }; void g(T<E>);", "typedef": "typedef E ET; void f(ET);", "vector": "void f(std::vector<E> const &);",
        "virtual": "struct U { virtual ~U(); virtual E f(E); };", "template value": "template<E e> struct T { int a; }; void g(T<(E)0>);", "method": "struct U { E f(E) const; static E g(E); };", "constructor": "struct U { U(E, int = 1); };", "pair": "void f(std::pair<int, E> const &);",
        "nested": "struct U { struct V { void f(E); }; };", "shared pointer": "void f(std::shared_ptr<std::pair<int, E>>);" if False else "E const &f(E &);"}
LIB = {"vector": ["std::vector<int>", "std::vector<std::string>", "std::vector<bool>", "std::vector<std::vector<int>>", "std::vector<std::shared_ptr<n::Y>>"], "list": ["std::list<int>"], "deque": ["std::deque<int>"], "set": ["std::set<int>", "std::multiset<int>"], "map": ["std::map<int,int>", "std::map<std::string,std::vector<int>>", "std::multimap<int,int>"],
       "unordered_map": ["std::unordered_map<int,int>"], "unordered_set": ["std::unordered_set<int>"], "array": ["std::array<int,3>"], "optional": ["std::optional<int>"], "variant": ["std::variant<int,double>"], "functional": ["std::function<int(int)>"], "chrono": ["std::chrono::milliseconds", "std::chrono::system_clock::time_point"],
       "complex": ["std::complex<double>"], "bitset": ["std::bitset<8>"], "thread": ["std::thread", "std::thread::id"], "mutex": ["std::mutex", "std::unique_lock<std::mutex>"], "atomic": ["std::atomic<int>"], "future": ["std::future<int>"],
       "random": ["std::mt19937", "std::random_device", "std::uniform_int_distribution<int>"], "ostream": ["std::ostream"], "istream": ["std::istream"], "sstream": ["std::stringstream", "std::ostringstream"], "fstream": ["std::ifstream", "std::fstream"], "stdexcept": ["std::runtime_error", "std::exception"], "locale": ["std::locale"],
       "valarray": ["std::valarray<int>"], "filesystem": ["std::filesystem::path"], "system_error": ["std::error_code"], "memory": ["std::weak_ptr<n::Y>", "std::shared_ptr<n::Y>"], "utility": ["std::pair<int,n::Y> const"], "tuple": ["std::tuple<int,double> const"], "any": ["std::any"], "string_view": ["std::string_view"],
       "queue": ["std::queue<int>", "std::priority_queue<int>"], "stack": ["std::stack<int>"], "forward_list": ["std::forward_list<int>"], "string": ["std::string", "std::wstring"], "ctime": ["std::tm"], "iterator": ["std::vector<int>::iterator"], "ios": ["std::ios"], "streambuf": ["std::streambuf"], "regex": ["std::regex"],
       "condition_variable": ["std::condition_variable"], "typeindex": ["std::type_index"]}
SLOW = {"regex", "filesystem", "locale", "fstream", "ctime", "future", "unordered_set", "priority_queue", "thread", "condition_variable", "random", "sstream", "istream"}


def small_pch():
    """A precompiled header with pybind11 alone, so that no library header is there by accident."""
    d = build.BUILD + "/pch"
    os.makedirs(d, exist_ok=True)
    h = d + "/vf_min.hpp"
    import fcntl
    with open(d + "/.lock2", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(h + ".pch"):
            with open(h, "w") as f:
                f.write("#include <pybind11/pybind11.h>\n")
            p = subprocess.run([pyb.CXX, *pyb.FLAGS, *pyb.includes(), "-x", "c++-header", "-Xclang", "-fpch-instantiate-templates", h, "-o", h + ".pch.tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise build.BuildError(p.stdout[-1500:])
            os.replace(h + ".pch.tmp", h + ".pch")
    return h + ".pch"


def arrangements(u, x):
    """Three ways in which the same headers reach the input file."""
    a, b = "#include <u.hpp>\n", "#include <x.hpp>\n"
    base = {"u.hpp": u, "x.hpp": x}
    yield "use first", base, a + b
    yield "definition first", base, b + a
    yield "through another header", dict(base, **{"w.hpp": "#pragma once\n" + a + b}), "#include <w.hpp>\n"


def part1(c, pch):
    cases = []

    def add(key, u, x, which=None):
        for n, h, inp in arrangements("#pragma once\n" + STD + "namespace n { %s }\n" % u, "#pragma once\n" + STD + "namespace n { %s }\n" % x):
            if which is None or n in which:
                cases.append(Case(h, bind="n", args=["--max-file-size", "1"], key="%s, %s" % (key, n), inp=inp))

    quick = None if c.thorough else ("use first", "through another header")
    for k, t in ROLES.items():
        add("class as " + k, "struct X; " + t, "struct X { int q = 1; X() {} };", quick)
        if c.thorough:
            add("derived class as " + k, "class X; " + t, "struct B0 { int b = 1; }; class X : public B0 { public: int q = 1; X() {} };")
    for k, t in ENUM.items():
        add("enum as " + k, "enum class E : int; " + t, "enum class E : int { e0 };", quick)
        add("unscoped enum as " + k, "enum E : int; " + t, "enum E : int { e0 };", quick if c.thorough else ("use first",))
    add("printing operator elsewhere", "struct U { int x; };", "struct U; std::ostream &operator<<(std::ostream &o, U const &);")
    add("printing template elsewhere", "template<class A> struct U { int x; }; void q(U<int>);", "template<class A> struct U; template<class A> std::ostream &operator<<(std::ostream &o, U<A> const &) { return o; }")
    add("class template elsewhere", "template<class A> struct T; struct Y; void g(T<Y> const &); void g2(T<Y>);", "template<class A> struct T { int a = 1; }; struct Y { int q = 1; };")
    add("template template argument", "template<class A> struct X; template<template<class> class A> struct T { int a; }; void g(T<X>);", "template<class A> struct X { int q; };")
    add("address argument", "extern int gv; template<int *P> struct T { int a; }; void g(T<&gv>);", "extern int gv; struct X { int q; };")
    for hd, ts in LIB.items():
        for t in ts:
            if not c.thorough and any(s in t or s == hd for s in SLOW):
                continue
            h = {"u.hpp": "#pragma once\n#include <%s>\n#include <string>\n#include <vector>\n#include <memory>\nnamespace n { struct Y { int q = 1; }; inline void f(%s &) {} struct U { void g(%s &) {} }; }\n" % (hd, t, t)}
            cases.append(Case(h, bind="n", args=["--max-file-size", "1"], key="library type " + t, inp="#include <u.hpp>\n"))

    def work(case):
        r = run.run(case, keep=True)
        try:
            if not r.ok:
                return case, ["binder failed: " + r.out[-400:]], 0, ""
            bad, n, out = [], 0, []
            for f in sorted(r.files):
                if not f.endswith(".cpp") or f == "m.cpp":
                    continue
                n += 1
                p = subprocess.run([pyb.CXX, *pyb.FLAGS, "-include-pch", pch, *pyb.includes(), "-I" + r.dir + "/inc", "-fsyntax-only", os.path.join(r.dir, case.prefix, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                out.append("%s:%d" % (re.sub(r"_\d+", "", f), p.returncode))
                if p.returncode:
                    e = [l for l in p.stdout.replace(r.dir, "@").split("\n") if "error" in l][:2] or [p.stdout[-500:]]
                    bad.append("%s does not compile on its own: %s; its includes: %s" % (f, e, [l for l in r.files[f].split("\n") if l.startswith("#include")]))
            return case, bad, n, " ".join(out)
        finally:
            shutil.rmtree(r.dir, ignore_errors=True)

    for case, bad, n, out in run.pmap(work, cases):
        c.traces += 1
        c.transitions += n
        c.states.add(case.key)
        c.outcomes.add(out)
        if bad:
            c.violation(case.key, bad, case.describe())
    for k in (0, len(cases) // 2, -1):
        c.sample(cases[k].describe())


HEAD = {
    "h1.hpp": "#pragma once\nnamespace n { struct A { int x = 1; struct I { int y = 2; }; }; struct A2 { int x = 1; }; }\n",
    "h2.hpp": "#pragma once\n#include <h1.hpp>\nnamespace n { template<class Q> struct T { Q q; }; namespace a { struct B : A { int z = 1; }; inline int f(T<int>, A2 const &) { return 1; } enum class E { e }; } }\n",
    "h3.hpp": "#pragma once\n#include <h2.hpp>\nnamespace n { namespace ab { struct C : a::B { }; inline void g(T<A> &, T<A>) {} } inline a::E k(ab::C const &, T<int>) { return a::E::e; } struct D : ab::C { }; }\n",
}
DIRECTIVES = {
    "+include 1": "+include <i1.hpp>", "+include 2": '+include "i2.hpp"', "-include": "-include <h2.hpp>", "-include unused": "-include <h2.h>", "class A": "+include_for_class n::A <c1.hpp>", "class T": "+include_for_class n::T <c2.hpp>",
    "class I": "+include_for_class n::A::I <c3.hpp>", "second for A": "+include_for_class n::A <c4.hpp>", "namespace n": "+include_for_namespace n <d1.hpp>", "namespace a": "+include_for_namespace n::a <d2.hpp>", "second for a": '+include_for_namespace n::a "d3.hpp"',
}
LAYOUTS = {"several files": [], "small files": ["--max-file-size", "1"], "one file": ["--single-file"], "flat": ["--flat", "--max-file-size", "1"], "annotated": ["--annotate-includes", "--max-file-size", "1"]}


def parts(files, layout):
    """Binding files (or the parts of the single file) by name."""
    if layout == "one file":
        out = {}
        for p in files["m.cpp"].split("// File: ")[1:]:
            name, _, rest = p.partition("\n")
            out[name] = rest.split("\n#include <map>\n#include <algorithm>\n#include <functional>")[0]
        return out
    return {f: t for f, t in files.items() if f.endswith(".cpp") and f != "m.cpp"}


def shape(text):
    """(includes in order, everything else) of a part."""
    inc, rest = [], []
    for l in text.split("\n"):
        if l.startswith("#include"):
            inc.append(re.sub(r"\s*//.*", "", l[8:]).strip())
        elif l.strip():
            rest.append(l)
    return inc, rest


def part2(c):
    for layout, args in LAYOUTS.items():
        base = run.run(Case(HEAD, config=["+namespace n"], args=args, key="base", inp="#include <h3.hpp>\n"))
        bp = {k: shape(v) for k, v in parts(base.files, layout).items()}
        # what each part registers, read from the run without directives
        regs = {k: {"A": any('"A"' in l and "class_" in l for l in rest), "T": any("class_<n::T<" in l for l in rest), "I": any('"I"' in l and "class_" in l for l in rest), "ns": {x for l in rest for x in re.findall(r'M\("([^"]*)"\)', l)}} for k, (inc, rest) in bp.items()}
        seen = {x: sum(bool(v[x]) for v in regs.values()) for x in ("A", "T", "I")}
        if min(seen.values()) < 1 or not base.ok:
            c.violation("include directives: %s" % layout, ["the program could not be read: %s" % seen], {"headers": HEAD, "args": args, "output": base.out[-500:]})
            continue
        names = list(DIRECTIVES)
        cases = []
        sizes = range(len(names) + 1) if c.thorough or layout in ("small files", "one file") else (0, 1, 2, len(names))
        for k in sizes:
            for sub in itertools.combinations(names, k):
                for rev in ((False, True) if k > 1 and (c.thorough or k == 2) else (False,)):
                    ls = [DIRECTIVES[s] for s in sub]
                    cases.append(Case(HEAD, config=["+namespace n"] + (ls[::-1] if rev else ls), args=args, key="%s: %s%s" % (layout, ", ".join(sub) or "none", " (reversed)" if rev else ""), inp="#include <h3.hpp>\n", data=(sub, rev)))

        def judge(case, r, layout=layout, bp=bp, regs=regs):
            if not r.ok:
                return failed(case, r)
            sub, rev = case.data
            got = {k: shape(v) for k, v in parts(r.files, layout).items()}
            probs = diff("parts", list(bp), list(got))
            if probs:
                return Verdict(probs)
            adds = [DIRECTIVES[s].split(" ", 1)[1] for s in (sub[::-1] if rev else sub) if s.startswith("+include")]
            for k, (inc, rest) in got.items():
                want = set(bp[k][0])
                if "-include" in sub:
                    want.discard("<h2.hpp>")
                for s, d in DIRECTIVES.items():
                    if s not in sub:
                        continue
                    h = d.rsplit(" ", 1)[1]
                    if s.startswith("+include"):
                        want.add(h)
                    elif s in ("class A", "second for A") and regs[k]["A"] or s == "class T" and regs[k]["T"] or s == "class I" and regs[k]["I"]:
                        want.add(h)
                    elif s == "namespace n" and "n" in regs[k]["ns"] or s in ("namespace a", "second for a") and "n::a" in regs[k]["ns"]:
                        want.add(h)
                probs += diff("includes of " + k, sorted(want), sorted(set(inc)))
                if [i for i in inc if i in adds] != adds:
                    probs.append("%s: +include gives %s instead of %s" % (k, [i for i in inc if i in adds], adds))
                if rest != bp[k][1]:
                    probs.append("%s: the directives changed more than includes: %s" % (k, [l for l in rest if l not in bp[k][1]][:3]))
            return Verdict(probs, outcome=str(sorted((k, tuple(v[0])) for k, v in got.items())))
        c.explore(cases, judge, label="directives ")


def body(c):
    run.exe()
    part1(c, small_pch())
    part2(c)


main("C17", body, rule="every role x kind x arrangement: each generated file compiles on its own; every subset of include directives x layout: exactly the promised includes in exactly the right files, nothing else changed")
