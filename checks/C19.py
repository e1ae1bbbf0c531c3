"""C19: the config file says what its directives say, however it is laid out.

Metamorphic model: a config file is a set of directives. Every layout of the same directives - spaces and tabs between the parts, trailing blanks, CRLF,
a last line without newline, comments and empty lines anywhere, any order, a line given twice, long names - produces the same output as the plain file; every
directive of the vocabulary has an effect; rules given on the command line and in the file are the same rules; a file with a line that is not a directive,
and a file that does not exist, are rejected and nothing is generated.
"""
import itertools
import re

from common import *

LONG = "x" * 300
H = {"a.hpp": r'''
namespace n { struct A { int x = 1; int y = 2; virtual ~A() {} virtual int f(int a, int b) { return 1; } static int s() { return 1; } struct I { int z = 1; }; };
enum E { e }; inline int f(int a, int b) { return 1; } inline int f() { return 2; } template<class T, class U> struct T2 { T t; U u; };
inline void g(T2<int, double>, T2<int, A>) {} inline void g2(T2<unsigned int, A *>) {}
inline A *fp() { return 0; } inline A &fr() { static A a; return a; } A &&fx(); struct M { A *mp() { return 0; } A &mr() { static A a; return a; } A &&mx(); };
namespace q { struct B { int b = 1; }; enum E { e }; inline int h() { return 1; } } }
namespace w { struct C { int c = 1; }; inline void k() {} inline void k(int) {} enum class E { e }; template<class X> struct V { X x; }; inline int p(V<int>, V<double>) { return 0; } }
namespace n { inline int r(w::V<char>) { return 1; } }
namespace ''' + LONG + ''' { struct L { int l; }; inline void l() {} }
'''}
BASE = ["+namespace n"]
# every directive of the vocabulary, with names of every shape
D = ["+namespace w", "-namespace n::q", "-namespace n", "+namespace " + LONG, "-class n::A", "-class n::A::I", "+class w::C", "-class n::T2<int,double>", "-class n::T2<unsigned int,n::A *>", "-class n::T2", "-class w::V<char>",
     "-enum n::E", "-enum n::q::E", "+enum w::E", "-function n::f", "-function n::f(int, int)", "-function n::A::f", "-function n::A::s()", "+function w::k", "+function w::k(int)", "+function " + LONG + "::l",
     "-field n::A::x", "+python_builtin w::V", "+include <i.hpp>", '+include "j.hpp"', "+include <" + LONG + ".hpp>", "-include <a.hpp>",
     "+include_for_class n::A <c.hpp>", "+include_for_namespace n::q <d.hpp>", "+buffer_protocol n::A", "+module_local_namespace n", "+module_local_namespace @all_namespaces",
     "+binder n::A b::a", "+add_on_binder n::A b::a", "+binder_for_namespace n::q b::q", "+add_on_binder_for_namespace n::q b::q", "+binder n::T2 b::t2", "+custom_shared sp::P", "+smart_holder n::A",
     "+pybind11_include_file pp/x.h", "+default_static_pointer_return_value_policy P::a", "+default_static_lvalue_reference_return_value_policy P::b", "+default_static_rvalue_reference_return_value_policy P::e",
     "+default_member_pointer_return_value_policy P::c", "+default_member_lvalue_reference_return_value_policy P::d", "+default_member_rvalue_reference_return_value_policy P::g", "+default_call_guard G::g",
     "+prefix_for_static_member_functions s_", "+trampoline_member_function_binder n::A::f cc::f"]
TWO = ("include_for_class", "include_for_namespace", "binder", "add_on_binder", "binder_for_namespace", "add_on_binder_for_namespace", "trampoline_member_function_binder")
TOKENS = sorted({d.split()[0][1:] for d in D})


def token(d):
    return d.split()[0][1:]


def target(d):
    """What a directive is about: directives with the same target may contradict each other."""
    return (token(d), d.split()[1] if token(d) in TWO else None) if token(d) in TWO else d


def lines_of(d):
    """Every way to write the line of a directive."""
    t, _, r = d.partition(" ")
    two = token(d) in TWO
    seps = [" ", "  ", "\t", " \t", "\t ", "\t\t", " " * 40]
    for s in seps:
        for e in ("", " ", "\t", " \t ", "\r", " \r", "\t\r"):
            if two:
                a, b = r.split(" ")
                for m in seps if s == " " or e == "" else [" ", "\t"]:
                    yield (s, m, e), t + s + a + m + b + e
            else:
                yield (s, e), t + s + r + e
    if not two and ("," in r or "<" in r or "(" in r or "::" in r):
        # blanks do not belong to a name
        for m in ("", " ", "\t", "  "):
            for w in (", ", "( ", ") ", "< "):
                if w[0] in r:
                    yield ("inner", m, w), t + " " + re.sub(r"%s *" % re.escape(w[0]), lambda k: w[0] + m, r).rstrip()
            if "," in r:
                yield ("inner before", m), t + " " + re.sub(r" *,", m + ",", r)


BLANK = {"empty": "", "empty CR": "\r", "comment": "# a comment", "comment CR": "# a comment\r", "bare #": "#", "bare # CR": "#\r", "commented directive": "#-namespace n", "commented directive 2": "# +namespace w",
         "two #": "##", "long comment": "#" + "-class n::A " * 100, "comment with sign": "#+", "comment tab": "#\t+class w::C"}
BAD = {"no sign": "namespace w", "leading space": " +namespace w", "leading tab": "\t+namespace w", "other sign": "*namespace w", "slash comment": "// text", "semicolon": "; text", "no name": "+namespace", "no name class": "-class",
       "only plus": "+", "only minus": "-", "plus and space": "+ namespace w", "unknown": "+thing w", "unknown minus": "-thing w", "equals": "+namespace=w", "colon": "+namespace: w", "quoted": '"+namespace w"',
       "include_for_class -": "-include_for_class n::A <c.hpp>", "include_for_namespace -": "-include_for_namespace n <c.hpp>", "BOM": "\ufeff+namespace w"}
for _t in TWO:
    BAD["one part " + _t] = "+%s n::A" % _t
for _t in TOKENS:
    for _k, _v in (("short", _t[:-1]), ("long", _t + "s"), ("upper", _t.upper()), ("capital", _t.capitalize()), ("first", _t[1:]), ("dash", _t.replace("_", "-")), ("twice", _t + _t)):
        if _v not in TOKENS and _v != _t:
            BAD["%s %s" % (_k, _t)] = "+%s n::A n::B" % _v


def text(lines, end="\n", last=True):
    s = end.join(lines)
    return s + end if last else s


def body(c):
    base = run.run(Case(H, config=BASE))
    if not base.ok:
        c.violation("base", ["binder rejects the base program: " + base.out[-500:]], {})
        return
    ref = {}

    def need(cases):
        todo = sorted({case.data for case in cases if isinstance(case.data, tuple) and case.data not in ref})

        def one(k):
            # directives in the order of the vocabulary, one space, no decoration
            r = run.run(Case(H, config=BASE + [d for d in D if d in k]))
            return (r.files if r.ok else "rejected: " + r.out[-300:])
        for k, v in zip(todo, run.pmap(one, todo, chunk=4)):
            ref[k] = v
            c.traces += 1

    def judge(case, r):
        want = ref[case.data]
        if isinstance(want, str):
            return Verdict(["a plain list of directives is " + want]) if not r.ok else Verdict(["accepted in this layout, but as a plain list it is " + want])
        if not r.ok:
            return failed(case, r)
        if r.files == want:
            return Verdict(steps=1, outcome=case.data)
        what = "as if the directives were not there" if r.files == base.files else "different output"
        fs = [f for f in sorted(set(want) | set(r.files)) if want.get(f) != r.files.get(f)]
        p = ["the same directives in another layout give %s; files that differ: %s" % (what, fs[:4])]
        for f in fs[:1]:
            import difflib
            p += list(difflib.unified_diff((want.get(f) or "").splitlines(), (r.files.get(f) or "").splitlines(), "plain", "this layout", lineterm="", n=0))[:8]
        return Verdict(p)

    def go(cases, label):
        need(cases)
        c.explore(cases, judge, label)

    # 1. every directive has an effect
    need([Case(H, data=(d,)) for d in D])
    for d in D:
        if ref[(d,)] == base.files and "rvalue" not in d:      # functions that return rvalue references are not bound at all
            c.violation(("no effect", d), ["the directive changes nothing in a program it names something of"], {"headers": H, "config": BASE + [d]})
        elif isinstance(ref[(d,)], str):
            # the only contradiction in the vocabulary: the base rule itself
            if d != "-namespace n":
                c.violation(("rejected", d), [ref[(d,)]], {"headers": H, "config": BASE + [d]})
        c.step()
    # (a rule and its opposite for the same namespace contradict each other: binder says so)
    usable = [d for d in D if d != "-namespace n"]
    if isinstance(ref[("-namespace n",)], dict):
        c.violation(("contradiction",), ["+namespace n and -namespace n are accepted together"], {"headers": H, "config": BASE + ["-namespace n"]})

    # 2. every way to write a line
    cases = []
    for d in usable:
        for k, l in lines_of(d):
            cases.append(Case(H, config=text(BASE + [l]), data=(d,), key=("line", d, k)))
    seen = set()
    cases = [x for x in cases if not (x.config in seen or seen.add(x.config))]
    go(cases, "line layouts")

    # 3. files: comments and empty lines at every place, line ends, end of file
    lists = [["-class n::A"], ["-function n::f(int, int)", "+include <i.hpp>"], ["+class w::C", "-enum n::E", "+binder n::A b::a"]]
    if c.thorough:
        lists += [[a, b] for a, b in itertools.combinations(usable[::4], 2)]
    cases = []
    for ds in lists:
        full = BASE + ds
        for k in range(len(full) + 1):
            for name, b in BLANK.items():
                for end in ("\n", "\r\n"):
                    for last in (True, False):
                        ls = full[:k] + [b.rstrip("\r") if end == "\r\n" else b] + full[k:]
                        if not last and k == len(full) and b == "":
                            continue
                        cases.append(Case(H, config=text(ls, end, last), data=tuple(ds), key=("blank", tuple(ds), k, name, end, last)))
        for (n1, b1), (n2, b2) in itertools.product(BLANK.items(), repeat=2):
            cases.append(Case(H, config=text([b1] + full[:1] + [b1, b2] + full[1:] + [b2, b1]), data=tuple(ds), key=("blanks", tuple(ds), n1, n2)))
        for end in ("\n", "\r\n"):
            for last in (True, False):
                cases.append(Case(H, config=text(full, end, last), data=tuple(ds), key=("file", tuple(ds), end, last)))
    for d in usable:      # each directive as the last line, with and without newline, and as the first
        for end in ("\n", "\r\n"):
            cases.append(Case(H, config=text(BASE + [d], end, False), data=(d,), key=("last", d, end)))
            cases.append(Case(H, config=text([d] + BASE, end, False), data=(d,), key=("first", d, end)))
    go(cases, "file layouts")

    # 4. order and repetition: pairs of directives in either order
    ok = [d for d in usable]
    cases = []
    for a, b in itertools.combinations(ok, 2):
        if token(a) == token(b) and token(a) in ("include", "python_builtin"):
            continue       # the order of includes is the order of the file
        if target(a) == target(b) or (token(a) == token(b) == "module_local_namespace"):
            continue
        for o in ([a, b], [b, a]) if c.thorough or (ok.index(a) + ok.index(b)) % 3 == 0 else ([b, a],):
            cases.append(Case(H, config=text(BASE + o), data=tuple(d for d in D if d in o), key=("pair", *o)))
        if c.thorough:
            cases.append(Case(H, config=text([b] + BASE + [a]), data=tuple(d for d in D if d in (a, b)), key=("pair around", a, b)))
    for d in ok:
        if token(d) not in ("include", "include_for_class", "include_for_namespace"):
            cases.append(Case(H, config=text(BASE + [d, d]), data=(d,), key=("twice", d)))
            cases.append(Case(H, config=text(BASE + [d] + BASE), data=(d,), key=("base twice", d)))
    go(cases, "order")
    # all of them at once, in every rotation
    most = [d for d in ok if d not in ("-class n::A", "+binder n::A b::a", "+smart_holder n::A", "-include <a.hpp>") and not d.startswith("+module_local_namespace @") and token(d) != "include"]
    cases = [Case(H, config=text(BASE + most[k:] + most[:k]), data=tuple(most), key=("rotation", k)) for k in range(0, len(most), 1 if c.thorough else 3)]
    cases += [Case(H, config=text((BASE + most)[::-1], e, l), data=tuple(most), key=("reverse", e, l)) for e in ("\n", "\r\n") for l in (True, False)]
    go(cases, "rotations")

    # 5. namespace rules on the command line are the same rules
    cases = []
    for ns, args in [(["-namespace n::q"], ["--skip", "n::q"]), (["+namespace w"], ["--bind", "w"]), (["+namespace w", "-namespace n::q"], ["--bind", "w", "--skip", "n::q"])]:
        for d in [None] + [x for x in ok if token(x) != "namespace"]:
            cfg = BASE + ([d] if d else [])
            want = tuple(ns + ([d] if d else []))
            cases.append(Case(H, config=text(cfg), args=args, data=want, key=("command line", tuple(ns), d)))
            cases.append(Case(H, config=text([d] if d else ["# none"]), args=["--bind", "n"] + args, data=want, key=("command line all", tuple(ns), d)))
    go(cases, "command line")

    # 6. what is not a config file
    def rejected(case, r):
        if r.timed_out:
            return Verdict(["does not end"])
        if r.rc == 0:
            return Verdict(["a config file with the line %r is accepted%s" % (case.data, " and the line ignored" if r.files == base.files else "")])
        if r.files:
            return Verdict(["rejected, but files are left behind: %s" % sorted(r.files)[:4]])
        return Verdict(steps=1, outcome=("rejected", r.rc))
    cases = []
    rest = ["-class n::A", "+include <i.hpp>"]
    for name, l in BAD.items():
        for k in range(4):
            full = BASE + rest
            for end, last in (("\n", True), ("\n", False), ("\r\n", True)):
                if (k, last) == (3, True) or last:
                    cases.append(Case(H, config=text(full[:k] + [l] + full[k:], end, last), data=l, key=("bad", name, k, end, last)))
                elif k == 3:
                    cases.append(Case(H, config=text(full[:k] + [l] + full[k:], end, last), data=l, key=("bad", name, k, end, last)))
    c.explore(cases, rejected, "rejected lines")

    def missing(case, r):
        return Verdict(["config file %s does not exist, but binder reports success" % case.data]) if r.rc == 0 or r.files else Verdict(steps=1, outcome="missing")
    c.explore([Case(H, bind="n", args=["--config", p], data=p, key=("missing", p)) for p in ("nothere", "./nothere.cfg", "/nonexistent/x.cfg", "no such file")], missing, "missing files")
    c.bounds = {"directives": len(D), "tokens": len(TOKENS), "blank kinds": len(BLANK), "malformed lines": len(BAD), "pairs": "all pairs of directives"}


main("C19", body, rule="state: a config file; exhaustive over the grammar of layouts, oracle: the output for the plain layout of the same directives")
