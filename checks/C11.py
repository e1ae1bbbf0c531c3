"""C11: constructors, destructors, holders.

Every class of the enumerated space (own constructors x destructor x how a sub-object can be initialized x form of class) is bound, compiled with the real
pybind11, and constructed from Python in every candidate way. The oracle is the C++ compiler itself: std::is_constructible and the constructor that really
runs when the same expression is evaluated in C++ (each constructor logs its name).
"""
import itertools
import re
from common import *

PRE = """#include <string>
namespace vf_t { inline std::string &log() { static std::string s; return s; } inline void T(char const *c) { log() += c; log() += ';'; } }
namespace z { using vf_t::T; struct NF { NF(int) {} }; template<class Q> struct W { Q q; }; }
namespace n { using vf_t::T; using z::W; using z::NF;
"""
FORMS = ["plain", "tmpl", "nested", "virtual", "pure"]

# -- sub-objects -------------------------------------------------------------------------------------------------
# kind -> text with @N for the name, @C for the class that uses it
SUBS = {
    "implicit": "struct @N { int v = 1; };",
    "public": "struct @N { @N() { T(\"@N\"); } };",
    "explicit": "struct @N { explicit @N() { T(\"@N\"); } };",
    "defaulted": "struct @N { @N() = default; int v; };",
    "defargs": "struct @N { @N(int = 3) { T(\"@N i\"); } };",
    "none": "struct @N { @N(int) { T(\"@N i\"); } };",
    "deleted": "struct @N { @N() = delete; @N(int) { T(\"@N i\"); } };",
    "protected": "struct @N { @N(int) {} protected: @N() { T(\"@N\"); } };",
    "private": "class @N { @N() { T(\"@N\"); } public: @N(int) {} };",
    "friend": "class @N { @N() { T(\"@N\"); } @F public: @N(int) {} };",
    "privdtor": "struct @N { @N() {} private: ~@N() {} };",
    "protdtor": "struct @N { @N() {} protected: ~@N() {} };",
    "deldtor": "struct @N { @N() {} ~@N() = delete; };",
    "reference": "struct @N { int &r; };",
    "constant": "struct @N { const int r; };",
    "constinit": "struct @N { const int r = 3; };",
    "deep": "struct @NX { @NX(int) {} }; struct @NY { @NX x; }; struct @N { @NY y[2]; };",
    "nocopy": "struct @N { @N() { T(\"@N\"); } @N(@N const &) = delete; };",
    "privcopy": "struct @N { @N() { T(\"@N\"); } private: @N(@N const &); };",
    "vmember": "struct @N { @N() { T(\"@N\"); } virtual int nf() { return 1; } };",
    "bindef": "struct @NX { @NX(int) {} }; struct @N : @NX { @N() : @NX(1) { T(\"@N\"); } };",
    "template": "template<class A> struct @NX { A a; @NX(A x) : a(x) { T(\"@N t\"); } }; typedef @NX<int> @N;",
    "template2": "template<class A> struct @NX { A a; @NX() : a() { T(\"@N t\"); } }; typedef @NX<int> @N;",
}
USES = {
    "field": ("", "@N f;"), "init": ("", "@N f = @N(1);"), "array": ("", "@N f[2];"), "const": ("", "const @N f;"), "pointer": ("", "@N *f;"), "static": ("", "static @N f;"),
    "base": (" : public @N", ""), "private base": (" : private @N", ""), "protected base": (" : protected @N", ""), "virtual base": (" : public virtual @N", ""),
    "indirect virtual base": (" : public @C_M", ""), "anonymous union": ("", "union { @N f; int g; };"), "wrapped": ("", "W<@N> f;"), "reference": ("", "@N &f;"),
    "mutable": ("", "mutable @N f;"), "private field": ("", "private: @N f;"), "base and field": (" : public @C_E", "@N f;"), "anonymous struct": ("", "struct { @N f; };"),
    "initialized virtual base": (" : public virtual @N", "@C() : @N(1) { T(\"()\"); }"), "initialized base": (" : public @N", "@C() : @N(1) { T(\"()\"); }"),
}


def wrap(i, form, bases, members, extra="", pre=""):
    """Text of class Ci in the given form, and its C++ and Python names."""
    C = "C%d" % i
    body = members.replace("@C", C)
    if form == "virtual":
        body += " public: virtual int vf() { return 1; }"
    if form == "pure":
        body += " public: virtual int vf() = 0;"
    d = "struct %s%s { public: %s };" % (C, bases.replace("@C", C), body)
    pre = pre.replace("@C", C)
    if "struct @N" in pre or "class @N" in pre:
        pre = "} %s namespace z { %s } namespace n { " % ("namespace n { %s } " % extra if extra else "", pre)
    if form == "tmpl":
        return pre + "template<class A> struct %s; template<class A> %s inline int u%d(%s<int> &c) { return sizeof(c); }" % (C, d, i, C), "n::%s<int>" % C, "%s_int_t" % C
    if form == "nested":
        return pre + "struct O%d { %s };" % (i, d), "n::O%d::%s" % (i, C), "O%d.%s" % (i, C)
    return pre + d, "n::" + C, C


class K:
    """One class: text, names, which argument lists are tried and what is known beforehand."""

    def __init__(self, i, key, form, text, cpp, py, tries, forced=None):
        self.i, self.key, self.form, self.text, self.cpp, self.py, self.tries, self.forced = i, key, form, text, cpp, py, tries, forced or {}


def sub_classes(thorough):
    i = 0
    for (nk, nt), (uk, (ub, um)), form in itertools.product(SUBS.items(), USES.items(), FORMS):
        if not thorough and form != "plain" and (list(SUBS).index(nk) + list(USES).index(uk)) % 2 == FORMS.index(form) % 2:
            continue                    # each combination as plain class, and in two of the four other forms
        if uk.startswith("init") and nk not in ("none", "defargs", "deleted", "protected", "private", "friend"):
            continue
        if uk == "anonymous struct" and form == "tmpl":
            continue
        if nk in ("implicit", "constinit") and uk == "const":
            continue                    # compilers do not agree on these (CWG 253)
        if nk == "friend" and (form == "tmpl" or uk == "anonymous struct"):
            continue                    # friendship of templates and of enclosing classes is not claimed
        i += 1
        N, C = "N%d" % i, "C%d" % i
        fr = {"tmpl": "template<class A> friend struct n::@C;"}.get(form, "friend struct n::@C;")
        if nk == "friend" and form == "nested":
            continue                    # a nested class cannot be named before its enclosing class
        extra = "struct %s;" % C if nk == "friend" else ""
        pre = nt.replace("@F", fr)
        if uk == "indirect virtual base":
            pre += " struct @C_M : public virtual @N { };"
        if uk == "base and field":
            pre += " struct @C_E { int e; };"
        d, cpp, py = wrap(i, form, ub.replace("@N", "z::" + N).replace("@C", "z::" + C), um.replace("@N", "z::" + N), extra=extra, pre=pre)
        t = d.replace("@N", N)
        yield K(i, "%s as %s in %s" % (nk, uk, form), form, t, cpp, py, ["", "i"])


# -- own constructors --------------------------------------------------------------------------------------------
DEFAULT = {"-": "", "public": "@C() { T(\"()\"); }", "protected": "protected: @C() { T(\"()\"); } public:", "private": "private: @C() { T(\"()\"); } public:", "deleted": "@C() = delete;",
           "defaulted": "@C() = default;", "explicit": "explicit @C() { T(\"()\"); }",
           "arguments": "@C(int i = 5, std::string const &s = \"w\") { T((\"(\" + std::to_string(i) + s + \")\").c_str()); }"}
INT = {"-": "", "public": "@C(int) { T(\"(i)\"); }", "explicit": "explicit @C(int) { T(\"(i)\"); }", "protected": "protected: @C(int) { T(\"(i)\"); } public:",
       "private": "private: @C(int) { T(\"(i)\"); } public:", "deleted": "@C(int) = delete;"}
TWO = {"-": "", "public": "@C(int, std::string const &s) { T((\"(i,\" + s + \")\").c_str()); }", "default": "@C(std::string const &s, int i = 9) { T((\"(\" + s + \",\" + std::to_string(i) + \")\").c_str()); }",
       "template": "template<class Z> @C(Z *, Z *) { T(\"(t)\"); }"}
COPY = {"-": "", "public": "@C(@C const &) { T(\"(c)\"); }", "nonconst": "@C(@C &) { T(\"(nc)\"); }", "private": "private: @C(@C const &) { T(\"(c)\"); } public:", "deleted": "@C(@C const &) = delete;",
        "protected": "protected: @C(@C const &) { T(\"(c)\"); } public:", "move": "@C(@C &&) { T(\"(m)\"); }", "both": "@C(@C const &) { T(\"(c)\"); } @C(@C &&) { T(\"(m)\"); }", "extra": "@C(@C const &, int = 1) { T(\"(ce)\"); }",
        "defaulted": "@C(@C const &) = default;"}
DTOR = {"-": "", "public": "~@C() {}", "protected": "protected: ~@C() {} public:", "private": "private: ~@C() {} public:", "deleted": "~@C() = delete;", "virtual": "virtual ~@C() {}",
        "protected virtual": "protected: virtual ~@C() {} public:"}
PROT = {"": "default", "i": "int"}


def own_classes(thorough):
    i = 10000
    for form in FORMS:
        for d, a, t, c, x in itertools.product(DEFAULT, INT, TWO, COPY, DTOR):
            k = (d != "-") + (a != "-") + (t != "-") + (c != "-") + (x != "-")
            if k > (3 if thorough else 2):
                continue
            if not thorough and k == 2 and FORMS.index(form) not in (0, (len(d) + len(a) + len(t) + len(c) + len(x)) % 4 + 1):
                continue                # pairs as plain class, and in one of the four other forms
            if c == "extra" and form == "pure" or d == "arguments" and (a != "-" or t != "-"):
                continue
            i += 1
            text, cpp, py = wrap(i, form, "", DEFAULT[d] + INT[a] + TWO[t] + COPY[c] + DTOR[x])
            forced = {}
            if form == "pure":
                if d == "protected":
                    forced[""] = "no"
                if a == "protected":
                    forced["i"] = "no"
                if x not in ("-", "public", "virtual", "protected", "protected virtual"):
                    forced = {q: "no" for q in ("", "i", "is", "s", "si")}
            yield K(i, "default %s, int %s, two %s, copy %s, destructor %s in %s" % (d, a, t, c, x, form), form, text.replace("@C", "C%d" % i), cpp, py, ["", "i", "is", "s", "si", "copy"],
                    dict(forced, copy_declared=c in ("public", "nonconst", "both", "defaulted")))


# -- inherited constructors --------------------------------------------------------------------------------------
BCT = {"i": "@B(int) { T(\"B(i)\"); }", "d": "@B(std::string const &s, int i = 9) { T((\"B(\" + s + \",\" + std::to_string(i) + \")\").c_str()); }", "0": "@B() { T(\"B()\"); }",
       "p": "protected: @B(int, std::string const &) { T(\"B(is)\"); } public:", "x": "@B(int, std::string const &) = delete;", "c": "@B(@B const &) { T(\"B(c)\"); }",
       "a": "@B(int i = 5, std::string const &s = \"w\") { T((\"B(\" + std::to_string(i) + s + \")\").c_str()); }"}
OWN = {"-": "", "int": "@C(int) : @B(@I) { T(\"(i)\"); }", "default": "@C() : @B(@I) { T(\"()\"); }", "deleted int": "@C(int) = delete;", "field": "NF f;", "string": "@C(std::string const &) : @B(@I) { T(\"(s)\"); }"}


def inherited_classes(thorough):
    i = 30000
    for form in FORMS:
        for n in range(1, 4 if thorough else 3):
            for bs in itertools.combinations("id0pxca", n):
                if "a" in bs and set(bs) - set("ac"):
                    continue
                if "p" in bs and "x" in bs:
                    continue
                if not set(bs) & set("id0a"):
                    continue
                for ok, ot in OWN.items():
                    if "a" in bs and ok == "deleted int":
                        continue        # a call with one int is ambiguous or deleted in C++; such overloads are not claimed
                    for lvl in (1, 2):
                        if lvl == 2 and (ok != "-" or "c" in bs or n > 2):
                            continue
                        i += 1
                        B = "B%d" % i
                        init = '"z", 1' if "d" in bs else "1" if "i" in bs or "a" in bs else ""
                        bt = "struct %s { %s };" % (B, "".join(BCT[b] for b in bs).replace("@B", B))
                        base = B
                        if lvl == 2:
                            bt += " struct %sX : public %s { using %s::%s; };" % (B, B, B, B)
                            base = B + "X"
                        if form == "tmpl":
                            memb = "using %s::%s; " % (base, base)
                        else:
                            memb = "using %s::%s; " % (base, base)
                        t, cpp, py = wrap(i, form, " : public " + base, memb + ot.replace("@B", base).replace("@I", init), pre=bt + " ")
                        yield K(i, "inherits %s, own %s, level %d in %s" % ("".join(bs), ok, lvl, form), form, t.replace("@C", "C%d" % i), cpp, py, ["", "i", "is", "s", "si"])


CPPARGS = {"": [], "i": ["int(7)"], "is": ["int(7)", 'std::string("q")'], "s": ['std::string("q")'], "si": ['std::string("q")', "int(7)"]}
PYARGS = {"": "()", "i": "(7,)", "is": "(7, 'q')", "s": "('q',)", "si": "('q', 7)"}


def main_body(c):
    packs = []
    per = 40
    groups = [("sub-objects", list(sub_classes(c.thorough))), ("own constructors", list(own_classes(c.thorough))), ("inherited constructors", list(inherited_classes(c.thorough)))]
    for label, ks in groups:
        c.bounds[label] = len(ks)
        packs += [(label, ks[j:j + per]) for j in range(0, len(ks), per)]
    step = 1
    one = {}

    def header(ks):
        return PRE + "" + "\n".join(k.text for k in ks) + "\n}\n"

    def module(ks):
        case = Case(header(ks), bind="n", args=["--single-file"], key="; ".join(k.key for k in ks[:2]) + (" ..." if len(ks) > 2 else ""))
        cpp = ["#include <type_traits>", "namespace {",
               "template<class C, class... A> std::string probe(A... a) { if constexpr( std::is_constructible<C, A...>::value ) { vf_t::log().clear(); new C(a...); return \"ok \" + vf_t::log(); } else return \"no\"; }",
               "template<class C> std::string copies() { return std::is_constructible<C, C const &>::value ? \"ok\" : std::is_constructible<C, C &>::value ? \"nc\" : \"no\"; }"]
        body = []
        script = ["import json, m, ctypes", "lib = ctypes.CDLL(m.__file__)", "lib.vf_probe.restype = lib.vf_log.restype = ctypes.c_char_p",
                  "def get(py):", "    o = m.n", "    for p in py.split('.'): o = getattr(o, p)", "    return o",
                  "def make(cls, a):", "    lib.vf_clear()", "    try: x = cls(*a)", "    except TypeError as e: return None, 'no'", "    return x, 'ok ' + lib.vf_log().decode()", "res = {}", "keep = []"]
        for k in ks:
            t = k.cpp
            if k.form == "pure":
                cpp.append("struct T%d : public %s { using %s::%s; int vf() override { return 1; } };" % (k.i, t, t, "C%d" % k.i))
                t = "T%d" % k.i
            for a in k.tries:
                if a == "copy":
                    body.append('s += "%d copy=" + copies<%s>() + "\\n";' % (k.i, t))
                else:
                    body.append('s += "%d %s=" + probe<%s>(%s) + "\\n";' % (k.i, a, t, ", ".join(CPPARGS[a])))
            script.append("cls = get('%s'); inst = None" % k.py)
            if k.form in ("virtual", "pure"):
                script.append("class P(cls): pass")
            for a in k.tries:
                if a == "copy":
                    script.append("res['%d copy'] = make(cls, (inst,))[1] if inst is not None else 'none'" % k.i)
                else:
                    script.append("x, r = make(cls, %s); res['%d %s'] = r; inst = inst or x; keep.append(x)" % (PYARGS[a], k.i, a))
                    if k.form in ("virtual", "pure"):
                        script.append("x, r = make(P, %s); res['%d %s sub'] = r; keep.append(x)" % (PYARGS[a], k.i, a))
        cpp += ["}", 'extern "C" {', "__attribute__((visibility(\"default\"))) char const *vf_log() { return vf_t::log().c_str(); }", "__attribute__((visibility(\"default\"))) void vf_clear() { vf_t::log().clear(); }",
                "__attribute__((visibility(\"default\"))) char const *vf_probe() { static std::string s; s.clear();"] + body + ["return s.c_str(); } }"]
        # objects are kept, and the process leaves without destroying them: destruction is not what is compared here
        script.append("for l in lib.vf_probe().decode().splitlines():\n    k, v = l.split('=', 1); res['C ' + k] = v")
        script.append("import os, sys\nprint(json.dumps(res)); sys.stdout.flush(); os._exit(0)")
        py, r = pyb.check_module(case, "\n".join(script) + "\n", extra_cpp={"probe.cpp": '#include <a.hpp>\n' + "\n".join(cpp) + "\n"})
        return case, py, r

    def judge(ks, py, r):
        """Problems per class; None if the pack has to be split."""
        if py.stage != "done":
            return None
        m = r.model()
        bad = {}
        for k in ks:
            p = []
            for a in k.tries:
                g = py.data["%d %s" % (k.i, a)]
                w = py.data["C %d %s" % (k.i, a)]
                if a in k.forced:
                    w = k.forced[a]
                if a == "copy":
                    if g == "none":
                        continue
                    if g == "no" and k.forced["copy_declared"] and w != "no":
                        p.append("the declared copy constructor is not available")
                    if g != "no" and w == "no":
                        p.append("a copy constructor is available that C++ does not have")
                    continue
                if g != w:
                    p.append("%s%s: from Python %r, in C++ %r" % (k.py, PYARGS[a], g, w))
                if k.form in ("virtual", "pure"):
                    s = py.data["%d %s sub" % (k.i, a)]
                    if s != w:
                        p.append("Python subclass of %s%s: %r, in C++ %r" % (k.py, PYARGS[a], s, w))
            cl = m.cls(k.cpp)
            if cl is None:
                p.append("class is not registered")
            if p:
                bad[k] = p
        return bad

    def work(pk):
        label, ks = pk
        case, py, r = module(ks)
        bad = judge(ks, py, r)
        if bad is None:                  # find the classes that do not compile (or import) on their own
            out = []
            todo = [ks]
            while todo and len(out) < 4:
                g = todo.pop()
                if g is not ks:
                    case, py, r = module(g)
                    bad = judge(g, py, r)
                if bad is not None:
                    out += list(bad.items())
                elif len(g) > 1:
                    todo += [g[len(g) // 2:], g[:len(g) // 2]]
                else:
                    e = [l for l in py.out.split("\n") if "error" in l][:2] or [py.out[-500:]]
                    out.append((g[0], ["%s failed: %s" % (py.stage, e)]))
            if not out:
                out.append((ks[0], ["%s failed for the group: %s" % (py.stage, py.out[:1500])]))
            return label, ks, out, 0, None
        return label, ks, list(bad.items()), sum(len(k.tries) for k in ks), sorted(set(py.data.values()))

    for label, ks, bad, steps, outc in run.pmap(work, packs):
        c.traces += 1
        c.transitions += steps
        for k in ks:
            c.states.add(k.key)
        c.outcomes.add(str(outc))
        for k, p in bad:
            c.violation(k.key, p, {"header": header([k]), "class": k.cpp})
    c.sample({"class": packs[0][1][0].key, "text": packs[0][1][0].text})
    c.sample({"class": packs[-1][1][-1].key, "text": packs[-1][1][-1].text})
    c.bounds["argument lists"] = list(PYARGS.values()) + ["(instance)"]


main("C11", main_body, rule="every class within the bounds x every argument list: construction from Python (and of a Python subclass) succeeds exactly if C++ can construct the class that way, and runs the same constructor")
