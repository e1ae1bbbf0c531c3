"""C13: enumerations.

Every enumeration over kind x underlying type x enumerators x place x form of declaration within the bounds is bound, compiled with the real pybind11 and
used from Python: which names exist where, the value of every enumerator (asked of C++), passing to and returning from C++, and what kind of object it is.
"""
from common import *
from vf import packs
from vf.packs import Item

PRE = """#include <string>
namespace n {
enum Other { oa = 1, ob = 2 };
enum class OtherS { sa = 1, sb = 2 };
}
"""
KINDS = ["enum", "enum class", "enum struct"]
UNDER = {"": (-2147483648, 2147483647), "int": (-2147483648, 2147483647), "char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned": (0, 4294967295), "long long": (-9223372036854775808, 9223372036854775807),
         "unsigned long long": (0, 18446744073709551615), "bool": (0, 1), "signed char": (-128, 127)}
LISTS = {
    "plain": [("a{i}", None), ("b{i}", None), ("c{i}", None)],
    "one": [("a{i}", None)],
    "given": [("a{i}", 1), ("b{i}", 0), ("c{i}", None)],
    "alias": [("a{i}", 1), ("b{i}", 1), ("c{i}", 0)],
    "extremes": [("a{i}", "max"), ("b{i}", "min"), ("c{i}", 0)],
    "empty": [],
    "expression": [("a{i}", "=1 + 0"), ("b{i}", "=a{i} - 1"), ("c{i}", "='\\1'")],
    "Python words": [("None_{i}", None), ("lambda{i}", None)],
    "trailing comma": [("a{i}", None), ("b{i}", None), ("", ",")],
    "documented": [("a{i}", None), ("b{i}", None)],
    "many": [("e%d_{i}" % j, j % 2) for j in range(70)],
}
PLACES = ["namespace", "nested namespace", "class", "second section", "nested class", "template", "template two arguments", "nested in template", "union", "derived", "virtual class", "protected", "private", "anonymous namespace", "local", "inline namespace", "anonymous in class", "anonymous",
          "private class", "final class", "excluded", "excluded in class", "typedef"]
FORMS = ["defined", "opaque before", "opaque after", "opaque twice", "defined out of class"]


def values(lst, under, i):
    """(text, [(name, value)])"""
    lo, hi = UNDER[under]
    out, txt, nxt = [], [], 0
    env = {}
    for n, v in lst:
        n = n.replace("{i}", str(i))
        if v == ",":
            txt.append("")
            continue
        if isinstance(v, str) and v.startswith("="):
            t = v[1:].replace("{i}", str(i))
            val = {"1 + 0": 1, "'\\1'": 1}.get(t)
            if val is None:
                val = out[0][1] - 1
        elif v == "max":
            val, t = hi, "%d%s" % (hi, "ull" if hi > 1 << 62 and lo == 0 else "")
        elif v == "min":
            val, t = lo, ("(%d - 1)" % (lo + 1) if lo < -100000 else str(lo)).replace("(-2147483647 - 1)", "(-2147483647 - 1)").replace("-9223372036854775807 ", "-9223372036854775807ll ")
        elif v is None:
            val, t = nxt, None
        else:
            val, t = v, str(v)
        if under == "bool" and val > 1:
            return None
        out.append((n, val))
        txt.append(n + (" = " + t if t is not None else ""))
        nxt = val + 1
    if under == "bool" and any(v not in (0, 1) for _, v in out):
        return None
    return ", ".join(txt), out


def make(i, kind, under, lname, where, form):
    vs = values(LISTS[lname], under, i)
    if vs is None:
        return None
    body, vals = vs
    E = "E%d" % i
    head = "%s %s%s" % (kind, E, " : " + under if under else "")
    opaque_ok = under or kind != "enum"
    d = head + " { " + body + " };"
    if lname == "documented":
        d = "/// documented\n" + d
    if form != "defined":
        if not opaque_ok or where in ("local", "anonymous", "anonymous in class", "typedef"):
            return None
        if "template" in where:
            return None         # clang 14 finds such enumerators ambiguous
        if form == "opaque before":
            d = head + "; " + d
        elif form == "opaque after":
            if where in ("class", "second section", "nested class", "template", "template two arguments", "nested in template", "union", "derived", "virtual class", "protected", "private", "private class", "final class", "excluded in class"):
                return None     # not valid C++
            d = d + " " + head + ";"
        elif form == "opaque twice":
            if where in ("class", "second section", "nested class", "template", "template two arguments", "nested in template", "union", "derived", "virtual class", "protected", "private", "private class", "final class", "excluded in class"):
                return None
            d = head + "; " + head + "; " + d
        elif form == "defined out of class":
            if where not in ("class", "nested class", "virtual class", "second section"):
                return None
    C = "C%d" % i
    use = "static int in(%s e) { return (int)e; } static %s out(int v) { return (%s)v; } static int val(std::string const &s) { %s return -777; }"
    scoped = kind != "enum"
    pre = "%s::" % E if scoped else ""

    def helpers(q, tail=""):
        # functions that take and return the enumeration, and a conversion of every enumerator that C++ itself does
        return ("inline int in%d(%s e) { return (int)e; } inline %s out%d(bool z) { return z ? (%s)1 : (%s)0; } inline std::string val%d() { std::string r; %s return r; }%s"
                % (i, q, q, i, q, q, i, " ".join("r += std::to_string(static_cast<std::underlying_type<%s>::type>(%s::%s)) + \" \";" % (q, q, n) for n, _ in vals), tail))
    cfg, h = [], ""
    if where == "namespace":
        text, path, scope, h = d, "n." + E, "n", helpers("n::" + E)
    elif where == "nested namespace":
        text, path, scope, h = "namespace k { %s }" % d, "n.k." + E, "n.k", helpers("n::k::" + E)
    elif where == "inline namespace":
        text, path, scope, h = "inline namespace v1 { %s }" % d, "n." + E, "n", helpers("n::v1::" + E)
    elif where in ("class", "second section", "virtual class", "final class", "union"):
        inner = d if form != "defined out of class" else head + ";"
        text = {"class": "class %s { public: %s };", "second section": "class %s { int x_; public: int y_; private: int z_; public: %s };", "virtual class": "struct %s { virtual ~" + C + "() {} %s virtual int vf() { return 1; } };", "final class": "struct %s final { %s };",
                "union": "union %s { %s int q; };"}[where] % (C, inner)
        if form == "defined out of class":
            text += " %s %s::%s { %s };" % (head.split(" E")[0], C, head.split(" ", 2 if scoped else 1)[-1], body)
        path, scope, h = "n.%s.%s" % (C, E), "n." + C, helpers("n::%s::%s" % (C, E))
    elif where == "nested class":
        inner = d if form != "defined out of class" else head + ";"
        text = "struct O%d { struct %s { %s }; };" % (i, C, inner)
        if form == "defined out of class":
            text += " %s O%d::%s::%s { %s };" % (head.split(" E")[0], i, C, head.split(" ", 2 if scoped else 1)[-1], body)
        path, scope, h = "n.O%d.%s.%s" % (i, C, E), "n.O%d.%s" % (i, C), helpers("n::O%d::%s::%s" % (i, C, E))
    elif where == "template":
        text = "template<class T> struct %s { T t_; %s }; template struct %s<int>; inline int u%d(%s<int> &c) { return sizeof(c); }" % (C, d, C, i, C)
        path, scope, h = "n.%s_int_t.%s" % (C, E), "n.%s_int_t" % C, helpers("n::%s<int>::%s" % (C, E))
    elif where == "template two arguments":
        text = "template<class T, int I> struct %s { T t_; %s }; template struct %s<char, 3>; inline int u%d(%s<char, 3> &c) { return sizeof(c); }" % (C, d, C, i, C)
        path, scope, h = "n.%s_char_3_t.%s" % (C, E), "n.%s_char_3_t" % C, helpers("n::%s<char, 3>::%s" % (C, E))
    elif where == "nested in template":
        text = "template<class T> struct O%d { struct %s { T t_; %s }; %s c_; }; template struct O%d<int>; inline int u%d(O%d<int> &c) { return sizeof(c); }" % (i, C, d, C, i, i, i)
        path, scope, h = "n.O%d_int_t.%s.%s" % (i, C, E), "n.O%d_int_t.%s" % (i, C), helpers("n::O%d<int>::%s::%s" % (i, C, E))
    elif where == "derived":
        text = "struct %s { %s }; struct D%d : %s { };" % (C, d, i, C)
        path, scope, h = "n.D%d.%s" % (i, E), "n.D%d" % i, helpers("n::%s::%s" % (C, E))
    elif where == "protected":
        text, path, scope = "class %s { protected: %s public: int q; };" % (C, d), "n.%s.%s" % (C, E), None
    elif where == "private":
        text, path, scope = "class %s { %s public: int q; };" % (C, d), "n.%s.%s" % (C, E), None
    elif where == "private class":
        text, path, scope = "class O%d { struct %s { %s }; public: int q; };" % (i, C, d), "n.O%d.%s.%s" % (i, C, E), None
    elif where == "anonymous namespace":
        text, path, scope = "namespace { %s }" % d, "n." + E, None
    elif where == "local":
        text, path, scope = "inline int g%d() { %s return 1; }" % (i, d), "n." + E, None
    elif where == "anonymous":
        if scoped or form != "defined":
            return None
        text, path, scope = d.replace(E, ""), "n." + E, None
    elif where == "anonymous in class":
        if scoped:
            return None
        text, path, scope = "struct %s { %s int q; };" % (C, d.replace(E, "")), "n.%s.%s" % (C, E), None
    elif where == "typedef":
        text, path, scope, h = "typedef %s T%d;" % (d.rstrip(";").replace("/// documented\n", ""), i) if kind == "enum" else d + " typedef %s T%d;" % (E, i), "n." + E, "n", helpers("n::T%d" % i)
    elif where == "excluded":
        text, path, scope = d, "n." + E, None
        cfg = ["-enum n::" + E]
    elif where == "excluded in class":
        text, path, scope = "struct %s { %s int q; };" % (C, d), "n.%s.%s" % (C, E), None
        cfg = ["-enum n::%s::%s" % (C, E)]
    asks = []
    if scope is None:
        asks.append(("has('%s')" % path, False))
        for n, _ in vals[:2]:
            asks.append(("[has('%s.%s'), has('n.%s')]" % (path.rsplit(".", 1)[0], n, n), [False, False]))
        return Item("%s%s, %s, %s, %s" % (kind, " : " + under if under else "", lname, where, form), text, asks, cfg)
    uniq = {}
    names = [n for n, _ in vals]
    asks.append(("has('%s')" % path, True))
    asks.append(("list(dig(m, '%s').__members__)" % path, names))
    asks.append(("[int(getattr(m.%s, n)) for n in %r]" % (path, names), [v for _, v in vals]))
    asks.append(("[int(x) for x in m.n.val%d().split()]" % i, [v for _, v in vals]))
    asks.append(("[has('%s.' + n) for n in %r]" % (scope, names), [not scoped] * len(names)))
    if not scoped:
        asks.append(("[getattr(m.%s, n) is getattr(m.%s, n) or getattr(m.%s, n) == getattr(m.%s, n) for n in %r]" % (scope, path, scope, path, names), [True] * len(names)))
    asks.append(("[m.n.in%d(getattr(m.%s, n)) for n in %r if -2**31 <= int(getattr(m.%s, n)) < 2**31]" % (i, path, names, path), [v for _, v in vals if -2 ** 31 <= v < 2 ** 31]))
    asks.append(("[type(m.n.out%d(True)) is m.%s, int(m.n.out%d(True)), int(m.n.out%d(False))]" % (i, path, i, i), [True, 1, 0]))
    asks.append(("m.n.in%d(m.n.Other.oa)" % i, "TypeError"))
    asks.append(("m.n.in%d(m.n.OtherS.sa)" % i, "TypeError"))
    if names and not scoped:
        asks.append(("[m.{p}.{a} == {v}, m.{p}.{a} | 0 if {v} >= 0 else {v}]".format(p=path, a=names[0], v=vals[0][1]), [True, vals[0][1]]))
    elif names:
        asks.append(("m.{p}.{a} == {v}".format(p=path, a=names[0], v=vals[0][1]), False))
        asks.append(("m.{p}.{a} | 0".format(p=path, a=names[0]), "TypeError"))
    return Item("%s%s, %s, %s, %s" % (kind, " : " + under if under else "", lname, where, form), text + "\n" + h, asks, cfg)


def body(c):
    items, i = [], 0
    for ki, kind in enumerate(KINDS):
        for ui, under in enumerate(UNDER):
            for li, lname in enumerate(LISTS):
                for wi, where in enumerate(PLACES):
                    for fi, form in enumerate(FORMS):
                        # quick: all pairs of (kind, place, form) and of (kind, type, list), the rest rotated
                        if not c.thorough and not ((where == "namespace" and fi == 0) or ((ui * 5 + li) % 55 == (wi * 7 + fi * 3 + ki) % 55)):
                            continue
                        if c.thorough and (ui + li + wi + fi) % 3 and where != "namespace":
                            continue
                        if kind == "enum" and under == "" and lname == "empty":
                            continue
                        i += 1
                        it = make(i, kind, under, lname, where, form)
                        if it:
                            items.append(it)
    c.bounds.update({"enumerations": len(items), "kinds": KINDS, "underlying types": list(UNDER), "lists": list(LISTS), "places": PLACES, "forms": FORMS})
    packs.explore(c, items, PRE, per=60)


main("C13", body, rule="every enumeration within the bounds: names, values, scope of the names, conversions and arithmetic as in C++")
