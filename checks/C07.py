"""C07: overriding virtual functions in Python.

Structural part: all small class hierarchies (chains, two bases, diamonds; every access, kind, const-ness, final, exclusion); the generated
call-back structure must override exactly the virtual functions that are in effect in the class and can be overridden, and each override must
fall back on the function that C++ itself would call. Behavioural part: hierarchies compiled with the real pybind11; every class is subclassed in
Python with and without an override and called through C++.
"""
import itertools
import re
from common import *


class M:
    """A virtual member function of one class."""

    def __init__(self, name, kind="virtual", const=False, access="public", params=("int",), ret="int", extra=""):
        self.name, self.kind, self.const, self.access, self.params, self.ret, self.extra = name, kind, const, access, tuple(params), ret, extra

    def key(self):
        return (self.name, tuple(tnorm(p) for p in self.params), self.const)

    def text(self):
        virt = "virtual " if self.kind in ("virtual", "pure") else ""
        post = {"pure": " = 0", "override": " override", "final": " final"}.get(self.kind, "")
        return "%s: %s%s %s(%s)%s%s%s;" % (self.access, virt, self.ret, self.name, ", ".join(self.params), " const" if self.const else "", self.extra, post)


class K:
    def __init__(self, name, bases=(), methods=(), final=False):
        self.name, self.bases, self.methods, self.final = name, list(bases), list(methods), final   # bases: [(access, virtual?, name)]


class World:
    def __init__(self, classes, skip=()):
        self.c = {k.name: k for k in classes}
        self.order, self.skip = classes, set(skip)

    def text(self):
        t = "namespace n {\nstruct Hidden;\n"
        for k in self.order:
            t += "struct %s%s%s {\n" % (k.name, " final" if k.final else "", (" : " + ", ".join("%s %s%s" % (a, "virtual " if v else "", b) for a, v, b in k.bases)) if k.bases else "")
            t += "\n".join(m.text() for m in k.methods) + "\npublic: int own_%s; };\n" % k.name
        return t + "}\n"

    def ancestors(self, n):
        r = []
        for _, _, b in self.c[n].bases:
            r += [b] + self.ancestors(b)
        return r

    def accessible(self, n):
        """classes reachable through non-private inheritance (paths)"""
        r = [n]
        for a, _, b in self.c[n].bases:
            if a != "private":
                r += self.accessible(b)
        return r

    def in_effect(self, n):
        """{key: (class, method)}: the final overrider of every virtual function of class n, as C++ defines it"""
        cand = {}
        for x in [n] + self.ancestors(n):
            for m in self.c[x].methods:
                cand.setdefault(m.key(), {})[x] = m
        r = {}
        for key, by in cand.items():
            if not any(m.kind != "plain" for m in by.values()):
                continue
            top = [x for x in by if not any(x in self.ancestors(y) for y in by if y != x)]
            if len(top) != 1:
                raise RuntimeError("ambiguous " + repr(key))
            r[key] = (top[0], by[top[0]])
        return r

    def unbindable(self, m):
        return any("**" in p or "[" in p or "&&" in p for p in m.params + (m.ret,))

    def const_overload(self, x, m):
        return m.const and any(o.name == m.name and o.key()[1] == m.key()[1] and not o.const and o.access == m.access for o in self.c[x].methods)

    def can(self, n, x, m):
        return m.access != "private" and not self.unbindable(m) and ("n::%s::%s" % (x, m.name)) not in self.skip and not self.const_overload(x, m) and x in self.accessible(n)

    def abstract(self, n):
        return any(m.kind == "pure" for _, m in self.in_effect(n).values())

    def expect(self, n):
        """-> (methods {key: (class, pure?)}, constructible: True/False/None (either))"""
        e = self.in_effect(n)
        meth = {k: (x, m.kind == "pure") for k, (x, m) in e.items() if self.can(n, x, m) and m.kind != "final"}
        if self.c[n].final:
            return {}, not self.abstract(n)
        if not self.abstract(n):
            return meth, True
        bad = any(m.kind == "pure" and not self.can(n, x, m) for x, m in e.values())
        if bad:
            return {}, False
        # binder may decline an abstract class if one of its bases, on its own, could not be completed in Python
        for b in set(self.ancestors(n)):
            for x, m in self.in_effect(b).values():
                if m.kind == "pure" and not self.can(b, x, m):
                    return meth, None
        for a, _, b in [y for x in [n] + self.ancestors(n) for y in self.c[x].bases]:
            if a == "private" and self.abstract(b):
                return meth, None
        return meth, True


def judge(case, r):
    w = case.data
    if not r.ok:
        return failed(case, r)
    out = r.model()
    tr, cl, problems, steps, seen = {}, {}, [], 0, []
    for f in out.files.values():
        for t in f.tramp_list:
            if t.name in tr:
                problems.append("%s is defined twice" % t.name)
            tr[t.name] = t
    for c in out.classes():
        cl[tnorm(c.type)] = c
    for n in w.c:
        q = "n::" + n
        c = cl.get(q)
        if c is None:
            problems.append("%s is not registered" % q)
            continue
        want, con = w.expect(n)
        alias = [a for a in c.args if a in tr]
        mine = tr[alias[0]] if alias else None
        if mine is not None and tnorm(mine.base) != q:
            problems.append("call-back structure %s of %s derives from %s" % (mine.name, q, mine.base))
        inits = len(c.init())
        steps += 1
        if con is None and mine is None:
            if inits:
                problems.append("%s: abstract, no call-back structure, but constructors are registered" % q)
            continue
        if con is False:
            if mine is not None or inits:
                problems.append("%s: a call-back structure cannot complete this class, but one is registered (or a constructor is)" % q)
            continue
        if inits == 0:
            problems.append("%s: no constructor" % q)
        if w.c[n].final and mine is not None:
            problems.append("%s: final, but has a call-back structure" % q)
        got = {}
        for m in (mine.methods if mine else []):
            ps = [re.match(r"(.*?)\s*\ba(\d+)$", p) for p in m["params"]]
            if None in ps or [int(p[2]) for p in ps] != list(range(len(ps))):
                problems.append("%s: parameters of %s: %s" % (q, m["name"], m["params"]))
                continue
            key = (m["name"], tuple(tnorm(p[1]) for p in ps), "const" in m["quals"])
            if key in got:
                problems.append("%s: overrides %s twice" % (q, key))
            got[key] = m
        problems += diff("%s: functions overridden for Python" % q, list(want), list(got))
        for key, (x, pure) in want.items():
            if key not in got:
                continue
            steps += 1
            b = got[key]["body"]
            args = ", ".join("a%d" % i for i in range(len(key[1])))
            mm = re.search(r'get_over(?:load|ride)\(static_cast<const ([\w:]+) \*>\(this\), "([^"]*)"\)', b)
            if not mm or mm[1] != q or mm[2] != key[0]:
                problems.append("%s::%s: does not look up the Python override of this object: %s" % (q, key[0], b[:200]))
            if "(" + args + ")" not in b:
                problems.append("%s::%s: arguments are not passed on: %s" % (q, key[0], b[:300]))
            m2 = re.search(r"return (\w+)::(\w+)\(([^()]*)\);$", b)
            if pure:
                if m2 or "pybind11_fail" not in b:
                    problems.append("%s::%s is pure, but the call-back does not fail: %s" % (q, key[0], b[-200:]))
            elif not m2 or (m2[1], m2[2], m2[3]) != (x, key[0], args):
                problems.append("%s::%s must fall back on %s::%s: %s" % (q, key[0], x, key[0], b[-200:]))
        seen.append((n, sorted(map(str, want)), con))
    return Verdict(problems, steps, seen)


def cases_single():
    """one class, one function"""
    for kind, acc, const, params, ret, extra in itertools.product(["virtual", "pure"], ["public", "protected", "private"], [False, True], [(), ("int",), ("double", "int *", "const char *"), ("int",) * 12],
                                                                  ["int", "void", "double"], ["", " noexcept"]):
        yield "single/%s/%s/%s/%d/%s/%s" % (kind, acc, const, len(params), ret, extra.strip()), [K("A", [], [M("m", kind, const, acc, params, ret, extra)])], []
    for kind, bad in itertools.product(["virtual", "pure"], ["int **", "int (&)[3]", "int &&"]):
        p = bad if "[" not in bad else "int **"
        yield "unbindable/%s/%s" % (kind, bad), [K("A", [], [M("m", kind, params=(p,)), M("ok")]), K("B", [("public", False, "A")], [M("z")])], []


def cases_pairs():
    """one class, two functions: overloads by type, by const, by access"""
    opts = [(n, p, c, a, k) for n in ("m", "k") for p in ((), ("int",)) for c in (False, True) for a in ("public", "protected") for k in ("virtual", "pure")]
    for i, (x, y) in enumerate(itertools.combinations(opts, 2)):
        if x[:3] == y[:3]:
            continue
        ms = [M(n, k, c, a, p) for n, p, c, a, k in (x, y)]
        for fin in (False, True):
            yield "pair/%d/%s" % (i, fin), [K("A", [], ms, final=fin)], []


def cases_chain(thorough):
    """three levels"""
    for k0, k1, k2 in itertools.product(["virtual", "pure"], [None, "override", "pure", "final"], [None, "override", "pure", "final"]):
        if k1 == "final" and k2:
            continue
        for b1, b2 in itertools.product(["public", "protected", "private"], repeat=2):
            for a0, a1, a2 in itertools.product(["public", "protected", "private"], repeat=3):
                if (k1 is None and a1 != "public") or (k2 is None and a2 != "public"):
                    continue
                if not thorough and len({a0, a1, a2, b1, b2}) == 3:
                    continue
                for extra in ((None, "m") if not thorough else (None, "m", "other")):
                    cs = [K("A", [], [M("m", k0, False, a0)])]
                    cs.append(K("B", [(b1, False, "A")], ([M("m", k1, False, a1)] if k1 else []) + ([M("z")] if extra == "other" else [])))
                    cs.append(K("C", [(b2, False, "B")], ([M("m", k2, False, a2)] if k2 else []) + ([M("m", "virtual", False, "public", ("double",))] if extra == "m" else [])))
                    yield "chain/%s-%s-%s/%s-%s/%s-%s-%s/%s" % (k0, k1, k2, b1, b2, a0, a1, a2, extra), cs, []


def cases_const():
    """three levels with const and non-const versions of one function at each level"""
    lv = [(), ("c",), ("n",), ("c", "n")]
    for l0, l1, l2 in itertools.product(lv[1:], lv, lv):
        for k0 in ("virtual", "pure"):
            def mk(l, first):
                return [M("m", k0 if first else "virtual", x == "c", "public") for x in l]
            yield "const/%s/%s/%s/%s" % ("".join(l0), "".join(l1), "".join(l2), k0), [K("A", [], mk(l0, True)), K("B", [("public", False, "A")], mk(l1, False) + [M("z")]), K("C", [("public", False, "B")], mk(l2, False))], []


def cases_multi():
    """two bases, and diamonds with a virtual base"""
    for ka, kb, kd, ke in itertools.product(["virtual", "pure"], ["virtual", "pure"], [None, "override", "final"], [None, "override", "pure"]):
        for aa, ab in itertools.product(["public", "protected", "private"], repeat=2):
            yield "two/%s-%s-%s-%s/%s-%s" % (ka, kb, kd, ke, aa, ab), [K("A", [], [M("ma", ka)]), K("B", [], [M("mb", kb)]), K("D", [(aa, False, "A"), (ab, False, "B")],
                                                                       ([M("ma", kd)] if kd else []) + ([M("mb", ke)] if ke else []) + [M("md")])], []
    for ka, kb, kc, kd in itertools.product(["virtual", "pure"], [None, "override"], [None, "override", "final"], [None, "override"]):
        if (kb and kc and not kd) or (kc == "final" and kd):
            continue
        yield "diamond/%s-%s-%s-%s" % (ka, kb, kc, kd), [K("A", [], [M("m", ka)]), K("B", [("public", True, "A")], ([M("m", kb)] if kb else []) + [M("b")]),
                                                         K("C", [("public", True, "A")], ([M("m", kc)] if kc else []) + [M("c")]), K("D", [("public", False, "B"), ("public", False, "C")], [M("m", kd)] if kd else [])], []


def cases_skip():
    for k0, k1 in itertools.product(["virtual", "pure"], [None, "override", "pure"]):
        for sk in itertools.product([0, 1], repeat=3):
            names = [x for x, s in zip(["n::A::m", "n::B::m", "n::A::k"], sk) if s]
            yield "skip/%s-%s/%s" % (k0, k1, ",".join(names)), [K("A", [], [M("m", k0), M("k")]), K("B", [("public", False, "A")], ([M("m", k1)] if k1 else []) + [M("z")])], names


def cases_deep():
    for depth in (5, 8):
        for at in range(depth):
            for kind in ("override", "final", "pure"):
                cs = [K("A0", [], [M("m", "virtual"), M("k", "pure")])]
                for i in range(1, depth):
                    cs.append(K("A%d" % i, [("public", False, "A%d" % (i - 1))], ([M("m", kind)] if i == at else []) + ([M("k", "override")] if i == depth // 2 else [])))
                yield "deep/%d/%d/%s" % (depth, at, kind), cs, []


# -- behaviour --------------------------------------------------------------------------------------------------------
SIGS = [  # (ret, params, call arguments in C++, body returning a value that tells level L, observe(result) in C++, python override)
    ("int", "", "", "return {L};", "{R}", "return 50"),
    ("int", "int a", "7", "return {L} * 100 + a;", "{R}", "return 5000 + a"),
    ("void", "n::X &x", "x", "x.v = {L};", "({R}, x.v)", "x.v = 50"),
    ("double", "double d, int i", "0.5, 3", "return {L} + d + i;", "(int)({R} * 10)", "return 5 * d + i"),
    ("bool", "bool b", "true", "return ({L} % 2 == 0) == b;", "(int){R}", "return b"),
    ("std::string", "const std::string &s", '"ab"', "return s + std::to_string({L});", "({R} == \"abpy\" ? 50 : (int)({R}.back() - '0'))", "return s + 'py'"),
    ("n::X &", "n::X &x", "x", "x.v = {L}; return x;", "(&({R}) == &x ? x.v : -1)", "x.v = 50; return x"),
    ("n::X *", "n::X *x", "&x", "x->v = {L}; return x;", "(({R}) == &x ? x.v : -1)", "x.v = 50; return x"),
    ("n::X", "const n::X &x", "x", "n::X y; y.v = x.v + {L}; return y;", "({R}.v)", "return m.n.mk(x.v + 50)"),
    ("long", "int a, int b, int c, int d, int e, int f, int g, int h", "1, 2, 3, 4, 5, 6, 7, 8", "return {L} * 1000000L + a * 1000 + h * 10 + d;", "(long){R}", "return 77 + a * 1000 + h * 10 + d"),
    ("n::E", "n::E e", "n::E::e2", "return {L} % 2 ? e : n::E::e1;", "(int){R}", "return m.n.E.e3"),
    ("n::T2<int, n::X>", "n::X const &x", "x", "n::T2<int, n::X> t; t.a = {L}; t.b = x; return t;", "({R}.a)", "t = m.n.T2_int_n_X_t(); t.a = 50; return t"),
    ("n::T2<n::X, int> &", "n::T2<n::X, int> &t", "tt_", "t.b = {L}; return t;", "(&({R}) == &tt_ ? tt_.b : -1)", "t.b = 50; return t"),
    ("n::T2<n::X, int> const *", "n::T2<n::X, int> *t", "&tt_", "t->b = {L}; return t;", "(({R}) == &tt_ ? tt_.b : -1)", "t.b = 50; return t"),
    ("unsigned char", "unsigned char c, short s", "'a', 3", "return {L} + s;", "(int){R}", "return 50 + s"),
]
NPY = [a.split() for a in ("", "a", "x", "d i", "b", "s", "x", "x", "x", "a b c d e f g h", "e", "x", "t", "t", "c s")]
SHAPES = [(k0, k1, k2) for k0 in ("virtual", "pure") for k1 in (None, "override", "pure", "final") for k2 in (None, "override") if not (k1 == "final" and k2)]


def hierarchy(i, shape, sig, const, access, name="m", noexcept=False):
    ret, params, args, body, obs, py = SIGS[sig]
    t = ""
    levels = []
    for L, k in enumerate(shape):
        base = "" if L == 0 else " : public H%dL%d" % (i, L - 1)
        fn = ""
        if k:
            fn = "%s: %s%s %s(%s)%s%s%s" % (access if L == 0 else "public" if access == "public" else "protected", "virtual " if k in ("virtual", "pure") else "", ret, name, params, " const" if const else "",
                                            " noexcept" if noexcept else "", {"override": " override", "final": " final"}.get(k, ""))
            fn += " = 0;" if k == "pure" else " { %s }" % body.format(L=L + 2)
        extra = "virtual ~H%dL0() {} n::T2<n::X, int> tt_; long call(n::X &x) { return %s; }" % (i, obs.format(R="%s(%s)" % ("this->" + name if not name.startswith("operator") else "this->" + name, args))) if L == 0 else ""
        t += "struct H%dL%d%s { %s public: %s int own%d = 0; };\n" % (i, L, base, fn, extra, L)
        cur = k or levels[-1][0] if L else k
        lvl = L if k else levels[-1][1]
        fin = (k == "final") or (L and levels[-1][2])
        levels.append((cur, lvl, fin))
    return t, levels


PYNAME = {"operator()": "__call__", "operator[]": "__getitem__", "operator==": "__eq__", "operator+": "__add__"}


def behaviour(c):
    specs = []
    for si in range(len(SIGS)):
        for hi, shape in enumerate(SHAPES):
            for const, access in itertools.product([False, True], ["public", "protected"]):
                if not c.thorough and (const, access) != [(False, "public"), (True, "public"), (False, "protected"), (True, "protected")][(si + hi) % 4]:
                    continue
                specs.append((shape, si, const, access, "m", False))
    for op, si in (("operator()", 9), ("operator()", 1), ("operator[]", 1), ("operator==", 4), ("operator+", 3)):
        for shape in SHAPES:
            if op == "operator+" and si == 3:
                si = 1
            specs.append((shape, si, False, "public", op, False))
    for shape in SHAPES:
        specs.append((shape, 1, False, "public", "m", True))
    per = 24
    packs = [list(enumerate(specs))[i:i + per] for i in range(0, len(specs), per)]

    def module(pack):
        H = "#include <string>\nnamespace n { struct X { int v = 1; }; enum class E { e1 = 11, e2 = 12, e3 = 13 }; inline X mk(int v) { X x; x.v = v; return x; } template<class A, class B> struct T2 { A a; B b; }; inline T2<int, X> t2a() { return {}; } inline T2<X, int> t2b() { return {}; }\n"
        script = ["import json, m", "res = {}", "def call(o):", "    try: return o.call(m.n.X())", "    except Exception as e: return type(e).__name__ + ': ' + str(e)[:60]"]
        want = {}
        for i, (shape, si, const, access, name, nx) in pack:
            t, levels = hierarchy(i, shape, si, const, access, name, nx)
            H += t
            pyn = PYNAME.get(name, name)
            args = NPY[si]
            for L, (kind, lvl, fin) in enumerate(levels):
                cn = "H%dL%d" % (i, L)
                abstract = kind == "pure"
                script.append("class P(m.n.%s):\n    pass" % cn)
                script.append("class Q(m.n.%s):\n    def %s(self%s): %s" % (cn, pyn, "".join(", " + a for a in args), SIGS[si][5]))
                script.append("class R(Q):\n    pass")
                script.append("class S(P):\n    def %s(self%s): %s" % (pyn, "".join(", " + a for a in args), SIGS[si][5]))
                for p in "PQRS":
                    script.append("res['%s.%s'] = call(%s())" % (cn, p, p))
                if abstract and not nx:
                    want[cn + ".P"] = "RuntimeError"
                elif not abstract:
                    want[cn + ".P"] = cpp(si, lvl + 2)
                    script.append("res['%s.N'] = call(m.n.%s())" % (cn, cn))
                    want[cn + ".N"] = cpp(si, lvl + 2)
                    if access == "public":
                        script.append("class T(m.n.%s):\n    def %s(self%s): return super().%s(%s)" % (cn, pyn, "".join(", " + a for a in args), pyn, ", ".join(args)))
                        script.append("res['%s.T'] = call(T())" % cn)
                        want[cn + ".T"] = cpp(si, lvl + 2)
                else:
                    # a pure noexcept function cannot throw: leave that call out
                    script[-4] = "res['%s.P'] = 'left out'" % cn
                    want[cn + ".P"] = "left out"
                for p in "QRS":
                    want[cn + "." + p] = cpp(si, lvl + 2) if fin else pyval(si)
        H += "}\n"
        script.append("print(json.dumps(res))")
        case = Case(H, bind="n", args=["--single-file"], key="behaviour/%d-%d" % (pack[0][0], pack[-1][0]))
        py, r = pyb.check_module(case, "\n".join(script) + "\n")
        return case, py, want

    def cpp(si, L):
        return [L, L * 100 + 7, L, int((L + .5 + 3) * 10), int((L % 2 == 0) is True), L, L, L, 1 + L, L * 1000000 + 1000 + 80 + 4, 12 if L % 2 else 11, L, L, L, L + 3][si]

    def pyval(si):
        return [50, 5007, 50, 55, 1, 50, 50, 50, 51, 77 + 1000 + 80 + 4, 13, 50, 50, 50, 53][si]
    n = 0
    for case, py, want in run.pmap(module, packs):
        c.traces += 1
        c.states.add(case.key)
        if py.stage != "done":
            c.violation(case.key, ["%s failed: %s" % (py.stage, py.out[:2500])], case.describe())
            continue
        n += len(want)
        bad = []
        for k, v in want.items():
            c.transitions += 1
            g = py.data.get(k)
            ok = (isinstance(g, str) and g.startswith("RuntimeError")) if v == "RuntimeError" else g == v
            if not ok:
                bad.append("%s (%s): called through C++ gives %r, expected %r" % (k, specs[int(re.match(r"H(\d+)", k)[1])], g, v))
        for b in bad[:3]:
            pass
        if bad:
            c.violation(case.key, bad[:8], case.describe())
        c.outcomes.add(str(sorted(py.data.items()))[:2000])
    c.extra["hierarchies_compiled"] = len(specs)
    c.extra["calls_through_cpp"] = n


# every subset of virtual functions whose results differ in kind, in one class and spread over a derived class, with and without a Python override
FUNCS = {  # name -> (declaration, body for level L, how C++ reads the result, python result, value in C++ at level L, value from Python)
    "a": ("T2<int, X> a()", "T2<int, X> t; t.a = {L}; return t;", "o.a().a", "t = m.n.T2_int_n_X_t(); t.a = 50; return t"),
    "b": ("T2<X, int> b() const", "T2<X, int> t; t.b = {L}; return t;", "o.b().b", "t = m.n.T2_n_X_int_t(); t.b = 50; return t"),
    "c": ("T2<int, int> const &c(int)", "static T2<int, int> t; t.b = {L}; return t;", "o.c(1).b", "self.keep = m.n.T2_int_int_t(); self.keep.b = 50; return self.keep"),
    "d": ("std::string d(T2<int, X> const &t, T2<X, int> *)", "return std::string({L} + t.a, 'x');", "int(o.d(T2<int, X>{}, nullptr).size())", "return 'x' * 50"),
    "e": ("@R *e()", "static @R r; r.v = {L}; return &r;", "o.e()->v", "self.ke = m.n.Y(); self.ke.v = 50; return self.ke"),
    "f": ("@R &f(int k = 2)", "static @R r; r.v = {L}; return r;", "o.f().v", "self.kf = m.n.Y(); self.kf.v = 50; return self.kf"),
}


def results(c):
    sel = [s for k in range(1, 7) for s in itertools.combinations(FUNCS, k)]
    if not c.thorough:
        sel = [s for s in sel if len(s) in (1, 2, 6)]
    jobs = []
    for s in sel:
        for mask in sorted({0, (1 << len(s)) - 1, 1, 2 if len(s) > 1 else 0, 21 & ((1 << len(s)) - 1)}):
            for pure in (False, True):
                jobs.append((s, mask, pure))
    packs_ = [jobs[i:i + 16] for i in range(0, len(jobs), 16)]

    def work(js):
        h = "#include <string>\nnamespace n { struct X { int v = 1; virtual ~X() {} }; struct Y : X { int w = 2; }; template<class A, class B> struct T2 { A a; B b; }; inline int t2(T2<int, X> a, T2<X, int> b, T2<int, int> d) { return 0; }\n"
        script = ["import json, m", "bad = []", "def run(o, f, want, what):", "    try: r = f(o)", "    except RuntimeError as e: r = 'raises'", "    if r != want: bad.append('%s gives %r instead of %r' % (what, r, want))"]
        for k, (s, mask, pure) in enumerate(js):
            base, der = "", ""
            for j, f in enumerate(s):
                d, b, read, py = FUNCS[f]
                base += "virtual %s%s " % (d.replace("@R", "X"), " = 0;" if pure else " { %s }" % b.replace("{L}", "2").replace("@R", "X"))
                if mask >> j & 1:
                    der += "%s override { %s } " % (d.replace("@R", "Y").replace(" = 2", ""), b.replace("{L}", "3").replace("@R", "Y"))
            h += "struct A%d { virtual ~A%d() {} %s};\nstruct B%d : public A%d { int z = 1; %s};\nstruct C%d : public B%d { int y = 1; };\n" % (k, k, base, k, k, der, k, k)
            for f in s:
                h += "inline int call%d%s(A%d &o) { return %s; }\n" % (k, f, k, FUNCS[f][2])
            for cls in "ABC":
                val = {f: 3 if mask >> j & 1 and cls != "A" else "raises" if pure else 2 for j, f in enumerate(s)}
                script.append("class P(m.n.%s%d):\n    def __init__(self): super().__init__()" % (cls, k))
                for f in s:
                    script.append("run(P(), m.n.call%d%s, %r, %r)" % (k, f, val[f], "%s%d %s (%s, mask %d, pure %s)" % (cls, k, f, "".join(s), mask, pure)))
                for g in s:
                    script.append("class Q(m.n.%s%d):\n    def __init__(self): super().__init__()\n    def %s(self, *a): %s" % (cls, k, g, FUNCS[g][3]))
                    for f in s:
                        script.append("run(Q(), m.n.call%d%s, %r, %r)" % (k, f, 50 if f == g else val[f], "%s%d %s, %s overridden in Python (%s, mask %d, pure %s)" % (cls, k, f, g, "".join(s), mask, pure)))
        h += "}\n"
        script.append("print(json.dumps(bad))")
        case = Case(h, bind="n", args=["--single-file"], key="results/%s-%s" % ("".join(js[0][0]), "".join(js[-1][0])))
        py, r = pyb.check_module(case, "\n".join(script) + "\n")
        return case, py, sum(3 * (1 + len(s)) * len(s) for s, _, _ in js)
    for case, py, n in run.pmap(work, packs_):
        c.traces += 1
        c.states.add(case.key)
        if py.stage != "done":
            c.violation(case.key, ["%s failed: %s" % (py.stage, py.out[:2500])], case.describe())
            continue
        c.transitions += n
        c.outcomes.add((case.key, n))
        if py.data:
            c.violation(case.key, py.data[:8], case.describe())
    c.bounds["results"] = len(jobs)


def body(c):
    allc = []
    for label, gen in (("single", cases_single()), ("pairs", cases_pairs()), ("chain", cases_chain(c.thorough)), ("const", cases_const()), ("multiple bases", cases_multi()), ("skip", cases_skip()), ("deep", cases_deep())):
        cases = []
        for key, classes, skip in gen:
            w = World(classes, skip)
            cases.append(Case(w.text(), config=["+namespace n"] + ["-function " + s for s in skip], args=["--single-file"], key=key, data=w))
        c.bounds[label] = len(cases)
        c.explore(cases, judge, label)
    if not c.violations:
        behaviour(c)
        results(c)


main("C07", body, rule="every hierarchy within the bounds; the functions a call-back structure overrides, and what each falls back on, are compared with C++'s own rules; compiled hierarchies are driven from Python")
