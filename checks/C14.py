"""C14: documentation comments reach Python unchanged, and the options that only add comments, trace output or messages change nothing else.

Documentation: kind of entity x style of comment x text (among them every pair of punctuation characters), and neighbours without comment; the module is
compiled with the real pybind11 and its __doc__ strings are compared with the text that was written.
Options: every subset of --annotate-includes --annotate-functions --trace -v --skip-line-number on each program; the generated code, without comments and
trace output, is the same for all subsets, and the module with all of them compiles, imports and offers the same.
"""
import itertools
import json
import re

from common import *
from vf import packs
from vf.packs import Item

PRE = "#include <string>\n#include <vector>\n"
# how a text of several lines is written as a comment; None: not a documentation comment
STYLES = {
    "///": lambda ls: "".join("/// %s\n" % l for l in ls),
    "//!": lambda ls: "".join("//! %s\n" % l for l in ls),
    "/** */": lambda ls: "/** %s */\n" % "\n".join(ls),
    "/*! */": lambda ls: "/*! %s */\n" % "\n".join(ls),
    "/** stars */": lambda ls: "/**\n" + "".join(" * %s\n" % l for l in ls) + " */\n",
    "/*! stars */": lambda ls: "/*!\n" + "".join(" * %s\n" % l for l in ls) + " */\n",
    "/// tight": lambda ls: "".join("///%s\n" % l for l in ls),
    "/// and blank line": lambda ls: "".join("/// %s\n" % l for l in ls) + "\n",
    "/// CRLF": lambda ls: "".join("/// %s\r\n" % l for l in ls),
    "after plain": lambda ls: "// not this\n\n" + "".join("/// %s\n" % l for l in ls),
}
NONE = {
    "nothing": lambda ls: "",
    "//": lambda ls: "".join("// %s\n" % l for l in ls),
    "/* */": lambda ls: "/* %s */\n" % "\n".join(ls),
}
# kind -> (text with {d}: the comment, {i}: number; path asked; one doc per overload / class doc)
ENTITIES = {
    "function": ("{d}inline int f{i}(int a) { return a; }", "f{i}", "f"),
    "function void": ("{d}inline void f{i}() {}", "f{i}", "f"),
    "function two arguments": ("{d}inline int f{i}(int a, std::string const & b) { return a; }", "f{i}", "f"),
    "function declared": ("{d}int f{i}(int a);\ninline int f{i}(int a) { return a; }", "f{i}", "f"),
    "function in nested namespace": ("namespace s {\n{d}inline int f{i}(int a) { return a; }\n}", "s.f{i}", "f"),
    "function template": ("{d}template<class T> int f{i}(T a) { return 1; }\ntemplate int f{i}<int>(int);", "f{i}", "f"),
    "noexcept function": ("{d}inline int f{i}(int a) noexcept { return a; }", "f{i}", "f"),
    "class": ("{d}struct A{i} { int x; };", "A{i}", "c"),
    "class keyword": ("{d}class A{i} { public: int x; };", "A{i}", "c"),
    "empty class": ("{d}struct A{i} {};", "A{i}", "c"),
    "derived class": ("struct B{i} { int y; };\n{d}struct A{i} : B{i} { int x; };", "A{i}", "c"),
    "final class": ("{d}struct A{i} final { int x; };", "A{i}", "c"),
    "virtual class": ("{d}struct A{i} { virtual int f() { return 1; } virtual ~A{i}() {} };", "A{i}", "c"),
    "abstract class": ("{d}struct A{i} { virtual int f() = 0; virtual ~A{i}() {} };", "A{i}", "c"),
    "explicit specialisation": ("template<class T> struct A{i} {};\n{d}template<> struct A{i}<int> { int x; };\ninline int u{i}(A{i}<int> &a) { return a.x; }", "A{i}_int_t", "c"),
    "nested class": ("struct O{i} {\n{d}struct A { int x; };\n};", "O{i}.A", "c"),
    "class in nested namespace": ("namespace s {\n{d}struct A{i} { int x; };\n}", "s.A{i}", "c"),
    "enum": ("{d}enum E{i} { e{i} };", "E{i}", "e"),
    "enum class": ("{d}enum class E{i} { e };", "E{i}", "e"),
    "nested enum": ("struct O{i} {\n{d}enum E { e };\n};", "O{i}.E", "e"),
    "method": ("struct O{i} {\n{d}int f(int a) { return a; }\n};", "O{i}.f", "f"),
    "const method": ("struct O{i} {\n{d}int f(int a) const { return a; }\n};", "O{i}.f", "f"),
    "static method": ("struct O{i} {\n{d}static int f(int a) { return a; }\n};", "O{i}.f", "f"),
    "virtual method": ("struct O{i} {\n{d}virtual int f(int a) { return a; }\nvirtual ~O{i}() {}\n};", "O{i}.f", "f"),
    "pure virtual method": ("struct O{i} {\n{d}virtual int f(int a) = 0;\nvirtual ~O{i}() {}\n};", "O{i}.f", "f"),
    "override": ("struct P{i} { virtual int f(int a) { return a; } virtual ~P{i}() {} };\nstruct O{i} : P{i} {\n{d}int f(int a) override { return a; }\n};", "O{i}.f", "f"),
    "method defined outside": ("struct O{i} {\n{d}int f(int a);\n};\ninline int O{i}::f(int a) { return a; }", "O{i}.f", "f"),
    "method of a nested class": ("struct O{i} { struct N {\n{d}int f(int a) { return a; }\n}; };", "O{i}.N.f", "f"),
    "operator": ("struct O{i} {\n{d}O{i} & operator+=(int a) { return *this; }\n};", "O{i}.__iadd__", "f"),
    "method after fields": ("struct O{i} {\nint x;\nint y;\n{d}int f(int a) { return a; }\n};", "O{i}.f", "f"),
    "method after access specifier": ("class O{i} {\nint x;\npublic:\n{d}int f(int a) { return a; }\n};", "O{i}.f", "f"),
    # overloads: the comment belongs to one of them
    "overload first": ("{d}inline int f{i}(int a) { return a; }\ninline int f{i}(std::string const & a) { return 1; }", "f{i}", "f1"),
    "overload second": ("inline int f{i}(int a) { return a; }\n{d}inline int f{i}(std::string const & a) { return 1; }", "f{i}", "f2"),
    "method overload second": ("struct O{i} {\nint f(int a) { return a; }\n{d}int f(std::string const & a) { return 1; }\n};", "O{i}.f", "f2"),
    "default argument": ("{d}inline int f{i}(int a, int b = 1) { return a; }", "f{i}", "f2"),
    # the comment belongs to something else: the entity asked has none
    "function after documented function": ("{d}inline int g{i}(int a) { return a; }\ninline int f{i}(int a) { return a; }", "f{i}", "f-"),
    "function before documented function": ("inline int f{i}(int a) { return a; }\n{d}inline int g{i}(int a) { return a; }", "f{i}", "f-"),
    "method of documented class": ("{d}struct O{i} { int f(int a) { return a; } };", "O{i}.f", "f-"),
    "override of documented method": ("struct P{i} {\n{d}virtual int f(int a) { return a; }\nvirtual ~P{i}() {} };\nstruct O{i} : P{i} { int f(int a) override { return a; } };", "O{i}.f", "f-"),
    "class derived from documented class": ("{d}struct P{i} { int y; };\nstruct A{i} : P{i} { int x; };", "A{i}", "c-"),
    "class of documented method": ("struct A{i} {\n{d}int f(int a) { return a; }\n};", "A{i}", "c-"),
    "method after documented field": ("struct O{i} {\n{d}int x;\nint f(int a) { return a; }\n};", "O{i}.f", "f-"),
    "enum with documented enumerator": ("enum E{i} {\n{d}e{i}\n};", "E{i}", "e-"),
    "function in documented namespace": ("{d}namespace s {\ninline int f{i}(int a) { return a; }\n}", "s.f{i}", "f-"),
    "function after documented macro": ("{d}#define M{i} 1\ninline int f{i}(int a) { return a; }", "f{i}", "f-"),
    "class after documented typedef": ("{d}typedef int T{i};\nstruct A{i} { int x; };", "A{i}", "c-"),
    "class after documented forward declaration": ("struct A{i};\n{d}struct B{i};\nstruct A{i} { int x; };", "A{i}", "c-"),
}
PUNCT = [c for c in map(chr, range(0x21, 0x7f)) if not c.isalnum() and c not in "\\@<&"]
TEXTS = {
    "word": ["word"],
    "sentence": ["Returns the value, or 0 when there is none."],
    "two lines": ["first line", "second line"],
    "paragraphs": ["first paragraph", "", "second paragraph", "goes on"],
    "three paragraphs": ["one", "", "two", "", "three"],
    "quotes": ["say \"hello\" and 'bye' and `code`"],
    "only quote": ['"'],
    "format": ["100% {0} {} {{x}} %s %d ${v}"],
    "C++ code": ["f(a, b); /* not */ // this" , "x = y[3] ? z : 'c';"],
    "end of literal": [')" ; )doc" R"( "doc" \\\\n'],
    "trigraphs": ["??/ ??= ??( ??)"],
    "unicode": ["größer als ∑ 日本語 🙂"],
    "long": ["word%d" % i for i in range(300)],
    "long line": [" ".join("word%d" % i for i in range(800))],
    "numbers": ["0x41 \\\\x41 \\\\101 \\\\u0041"],
    "backslashes": ["a \\\\ b \\\\\\\\ c \\\\n \\\\t \\\\0 d"],
    "at": ["me @@ home"],
    "comparison": ["a > b >= c, a -> b"],
    "tab": ["a\tb"],
}
BLOCK = lambda s: s.startswith("/*")


def want(lines):
    t = " ".join(" ".join(lines).split())
    return t.replace("\\\\", "\\").replace("@@", "@")


def item(i, e, sname, style, lines):
    text, path, what = ENTITIES[e]
    d = style(lines)
    path = "n." + path.replace("{i}", str(i))
    w = want(lines) if sname in STYLES else ""
    t = text.replace("{d}", d).replace("{i}", str(i))
    if what[0] == "f":
        docs = {"f": [w], "f1": [w, ""], "f2": ["", w], "f-": [""]}[what]
        asks = [("docs(%r)" % path, docs)]
    else:
        if what.endswith("-"):
            w = ""
        asks = [("text(%r, %r)" % (path, what[0]), w)]
    return Item("%s | %s | %s" % (e, sname, " ".join(lines)[:40]), t, asks)


PRELUDE = r'''
import re
def docs(p):
    d = dig(m, p).__doc__
    r = re.findall(r"-> [^\n]*\n\n(.*?)C\+\+: ", d, re.S)
    if "Overloaded function." in d:
        r = []
        for part in re.split(r"\n\d+\. \w+\([^\n]*\) -> [^\n]*\n", d)[1:]:
            r.append(part.split("C++: ")[0])
    return [" ".join(x.split()) for x in r]
def text(p, k):
    d = dig(m, p).__doc__ or ""
    if k == "e": d = d.split("Members:")[0]
    return " ".join(d.split())
'''


def items(full):
    r = []
    i = 0

    def add(*a):
        nonlocal i
        r.append(item(i, *a))
        i += 1
    alls = {**STYLES, **NONE}
    for e, (s, f) in itertools.product(ENTITIES, alls.items()):
        for t in ("sentence", "paragraphs") if full else ("paragraphs",):
            add(e, s, f, TEXTS[t])
    for e in ("function", "class", "enum", "static method", "nested class", "overload second", "default argument") if full else ("function", "class", "enum"):
        for t, l in TEXTS.items():
            for s in ("///", "/** stars */", "/*! */"):
                if BLOCK(s) and t in ("C++ code",):
                    continue
                add(e, s, STYLES[s], l)
    for e in ("function", "class", "enum"):
        for p in PUNCT + ["\\\\"]:
            for s in ("///", "/** */"):
                ls = []
                for q in PUNCT + ["\\\\", "x"]:
                    if s != "///" and p == "*" and q == "/":
                        continue
                    ls.append("w %s%s w" % (p, q))
                add(e, s, STYLES[s], ls)
    return r


PROGRAMS = {
    "classes": r'''namespace n { struct B { virtual int f(int a) { return a; } virtual ~B() {} }; struct D : B { D(int, int = 3); int f(int a) override { return a + 1; } int x; D &operator=(D const &) = default; };
inline D::D(int, int) {} struct C { C() = default; C(C const &) {} enum E { a, b }; struct I { int i; }; I i; static int s() { return 1; } }; }''',
    "functions": r'''namespace n { inline int f(int a, int b = 2, char const *s = "x\"*/ //") { return a; } /** doc */ inline int g(std::string const &) { return 1; } template<class T> int t(T) { return 1; } template int t<int>(int);
inline int h(int /* c */ a, char c = '"') { return 1; } namespace m1 { inline int f() { return 1; } namespace m2 { inline int f() { return 2; } } } int v(int, ...); inline int v(int, ...) { return 1; } }''',
    "templates": r'''namespace n { template<class T> struct A { T t; int f(T) { return 1; } }; struct X { int x; }; inline int a(A<int>) { return 1; } inline int b(A<A<X>> &) { return 1; } template<char c> struct Q { int v = c; };
inline int q1(Q<'"'>) { return 1; } inline int q2(Q<'\\'>) { return 1; } inline int q3(Q<'\n'>) { return 1; } template<char c> int ft() { return c; } template int ft<'"'>(); template<int i> struct N { virtual int f() { return i; } }; inline int w(N<-1> &) { return 1; } }''',
    "library": r'''namespace n { inline int a(std::vector<int> const &v) { return v.size(); } inline int b(std::vector<std::string> const &v) { return v.size(); } struct S { std::vector<int> v; S(std::vector<int> const & = {}) {} friend std::ostream &operator<<(std::ostream &s, S const &) { return s << "S"; } }; }''',
    "enumerations": r'''namespace n { /// doc
enum E { e1, e2 }; enum class F : char { f = '"' }; inline E x(E e = e1, F = F::f) { return e; } struct P { P(E = e2) {} E e = e1; }; }''',
    "operators": r'''namespace n { struct A { int v = 0; A operator*(A const &) const { return *this; } A operator/(A const &) const { return *this; } bool operator==(A const &) const { return true; } A &operator++() { return *this; } int operator[](int i) const { return i; } int operator()(int, int = 1) { return 1; } };
inline A operator+(A const &a, A const &) { return a; } inline std::ostream &operator<<(std::ostream &s, A const &) { return s; } }''',
    "global": r'''struct G { int x; }; namespace n { inline int f(G &g) { return g.x; } } inline int gf(n::X *) { return 1; }'''.replace("inline int gf(n::X *) { return 1; }", "inline int gf(G *) { return 1; }"),
    "two headers": r'''#include <b.hpp>
namespace n { struct A : o::B { int f(o::B &) { return 1; } }; inline int g(o::E e = o::E::a) { return 1; } }''',
    "forward": r'''namespace n { struct B; struct A { B *b(); void s(B &); int i = 0; }; struct B { A *a() { return nullptr; } int j = 0; }; inline B *A::b() { return nullptr; } inline void A::s(B &) {} }''',
}
OPTS = ["--annotate-includes", "--annotate-functions", "--trace", "-v", "--skip-line-number", "--suppress-errors"]
BHPP = "#pragma once\nnamespace o { struct B { virtual ~B() {} virtual int v(int a) { return a; } }; enum class E { a, b }; }\n"


def canon(files):
    """Generated code without comments, trace output and the header it needs."""
    out = {}
    for n, t in files.items():
        if not n.endswith(".cpp"):
            out[n] = t
            continue
        toks, incs, dup, i = [], [], set(), 0
        ts = parse.tokens(t)
        while i < len(ts):
            k, x = ts[i]
            if k == "pp":
                x = " ".join(re.sub(r"//.*|/\*.*?\*/", "", x).split())
                if x.startswith("#include"):
                    if x.replace(" ", "") not in ("#include<iostream>",):
                        incs.append(x)
                    i += 1
                    continue
            if (k, x) == ("id", "std") and [y for _, y in ts[i:i + 4]] == ["std", "::", "cout", "<"] or [y for _, y in ts[i:i + 3]] == ["std", "::", "cout"]:
                while ts[i][1] != ";":
                    i += 1
                i += 1
                continue
            toks.append(x)
            i += 1
        out[n] = (sorted(set(incs)), toks)
    return out


def body(c):
    packs.explore(c, items(c.thorough), PRE, per=60, prelude=PRELUDE, label="doc | ")

    cases = []
    for (p, t), layout in itertools.product(PROGRAMS.items(), ([], ["--single-file"])):
        h = {"a.hpp": "#include <string>\n#include <vector>\n#include <ostream>\n" + t}
        if "b.hpp" in t:
            h["b.hpp"] = BHPP
        for k in range(len(OPTS) + 1):
            for o in itertools.combinations(OPTS, k):
                if layout and 0 < k < len(OPTS) and not c.thorough:
                    continue
                cases.append(Case(h, config=["+namespace " + x for x in ("n", "o")] + (["+class G", "+function gf"] if p == "global" else []), args=[*layout, *o], key="options | %s | %s" % (p, " ".join([*layout, *o])),
                                  inp="#include <a.hpp>\n", data=(p, tuple(layout))))
    plain = {}
    for x in cases:
        if len(x.args) == len(x.data[1]):
            r = run.run(x)
            plain[x.data] = canon(r.files) if r.ok else None

    def judge(case, r):
        if not r.ok:
            return failed(case, r)
        got, ref = canon(r.files), plain[case.data]
        if ref is None:
            return Verdict(["binder fails on this program without any option"])
        p = []
        for n in sorted(set(got) | set(ref)):
            if n not in got or n not in ref:
                p.append("file %s is written only %s the options" % (n, "with" if n in got else "without"))
            elif got[n] != ref[n]:
                if isinstance(got[n], tuple) and got[n][1] != ref[n][1]:
                    a, b = ref[n][1], got[n][1]
                    j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                    p.append("%s: code differs: without the options %r, with them %r" % (n, " ".join(a[max(0, j - 6):j + 12]), " ".join(b[max(0, j - 6):j + 12])))
                else:
                    p.append("%s: includes differ: %s / %s" % (n, ref[n][0] if isinstance(ref[n], tuple) else ref[n], got[n][0] if isinstance(got[n], tuple) else got[n]))
        if "--trace" in case.args and "std::cout" not in "".join(r.files.values()):
            p.append("--trace adds no output")
        return Verdict(p, steps=sum(len(v[1]) for v in got.values() if isinstance(v, tuple)))
    c.explore(cases, judge, "options")

    # --suppress-errors: what clang could not make sense of changes nothing elsewhere, and the run succeeds
    wrong = {"missing header": "#include <not_there.hpp>", "undeclared type": "namespace z { void f(NotThere &); }", "undeclared name in a body": "namespace z { inline int f() { return not_there; } }",
             "missing semicolon": "namespace z { struct Q { int a } ; }", "unknown base": "namespace z { struct Q : NotThere { int a; }; }", "redefinition": "namespace z { struct Q {}; struct Q {}; }", "error directive": "#error no"}
    ecases = []
    for (p, t), (w, bad), where, layout in itertools.product(PROGRAMS.items(), wrong.items(), ("before", "after", "input", "last"), ([], ["--single-file"])):
        if layout and not c.thorough:
            continue
        h = {"a.hpp": "#include <string>\n#include <vector>\n#include <ostream>\n" + t}
        inp = "#include <a.hpp>\n"
        if where in ("before", "after"):
            h["z.hpp"] = bad + "\n"
            inp = "#include <z.hpp>\n" + inp if where == "before" else inp + "#include <z.hpp>\n"
        else:
            inp = bad + "\n" + inp if where == "input" else inp + bad + "\n"
        if "b.hpp" in t:
            h["b.hpp"] = BHPP
        if where in ("before", "input") and w == "missing header":
            continue                    # fatal: clang reads nothing that comes later
        ecases.append(Case(h, config=["+namespace " + x for x in ("n", "o")] + (["+class G", "+function gf"] if p == "global" else []), args=[*layout, "--suppress-errors"], key="errors | %s | %s | %s | %s" % (p, w, where, " ".join(layout)),
                           inp=inp, data=(p, tuple(layout))))
    c.explore(ecases, judge, "errors elsewhere")

    # with everything switched on the module compiles and offers the same
    def work(x):
        out = []
        for args in (["--single-file"], ["--single-file", *OPTS], ["--single-file", "--trace"], ["--max-file-size=200", *OPTS]):
            h = {"a.hpp": "#include <string>\n#include <vector>\n#include <ostream>\n" + PROGRAMS[x]}
            if "b.hpp" in PROGRAMS[x]:
                h["b.hpp"] = BHPP
            case = Case(h, config=["+namespace n", "+namespace o"] + (["+class G", "+function gf"] if x == "global" else []), args=args, inp="#include <a.hpp>\n")
            py, r = pyb.check_module(case, SURFACE)
            out.append((args, py.stage, py.data if py.stage == "done" else py.out[:900]))
        return x, out
    for x, out in run.pmap(work, list(PROGRAMS)):
        c.states.add("module | " + x)
        for args, stage, data in out:
            c.transitions += 1
            if stage != "done":
                c.violation("module | %s | %s" % (x, " ".join(args)), ["%s failed: %s" % (stage, data)], {"program": PROGRAMS[x]})
            elif data != out[0][2]:
                c.violation("module | %s | %s" % (x, " ".join(args)), ["the module differs from the one without options: %s / %s" % (json.dumps(out[0][2])[:300], json.dumps(data)[:300])], {"program": PROGRAMS[x]})


SURFACE = r'''import json, m, inspect
seen = {}
def walk(p, o):
    for k in sorted(vars(o)):
        if k.startswith("__") and k not in ("__init__", "__doc__"): continue
        v = getattr(o, k)
        seen[p + "." + k] = (v.__doc__ or "") if callable(v) or inspect.isclass(v) else type(v).__name__ if k != "__doc__" else v
        if inspect.isclass(v) or inspect.ismodule(v): walk(p + "." + k, v)
walk("m", m)
print(json.dumps(seen))
'''

main("C14", body, rule="entities x comment styles x texts (all punctuation pairs); all subsets of the five presentation options")
