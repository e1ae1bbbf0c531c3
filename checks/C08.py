"""C08: calls with fewer arguments, argument names, argument positions.

Structural part: every function of the enumerated space (kind of function x parameter types x number of defaults x names) must be registered once for
every number of arguments C++ accepts, each registration taking exactly the leading parameters, under their C++ names, and passing them on in order to
the very same function. Behavioural part: compiled with the real pybind11 and called from Python with every number of arguments, by position, by name
and mixed; what the C++ function receives is compared with what C++ itself would make of that call.
"""
import itertools
import re
from common import *

# type, default expression, what the default shows as, Python value, what that shows as
TYPES = [
    ("int", "41", "41", "7", "7"),
    ("double", "2.5", "2.5", "0.25", "0.25"),
    ("bool", "true", "true", "False", "false"),
    ("const std::string &", '"dflt"', "dflt", "'abc'", "abc"),
    ("std::string", '"dv"', "dv", "'xyz'", "xyz"),
    ("const char *", '"cs"', "cs", "'qrs'", "qrs"),
    ("n::X", "n::X(8)", "X8", "m.n.X(3)", "X3"),
    ("const n::X &", "n::X(9)", "X9", "m.n.X(4)", "X4"),
    ("n::X &", "n::X::global()", "X77", "m.n.X(5)", "X5"),
    ("n::X *", "nullptr", "null", "m.n.X(6)", "X6"),
    ("const n::X *", "nullptr", "null", "None", "null"),
    ("n::E", "n::e2", "E2", "m.n.E.e3", "E3"),
    ("n::S", "n::S::s2", "S2", "m.n.S.s1", "S1"),
    ("const int", "13", "13", "14", "14"),
    ("const int &", "15", "15", "16", "16"),
    ("unsigned long", "17", "17", "18", "18"),
    ("char", "'c'", "c", "'d'", "d"),
    ("float", "0.5f", "0.5", "1.5", "1.5"),
    ("const std::shared_ptr<n::X> &", "nullptr", "null", "m.n.X(2)", "X2"),
    ("long long", "-5", "-5", "-6", "-6"),
]
NAMES = ["a", "b", "from", "self", "o", "a0", "value", "lambda_", "cl", "M"]
PRELUDE = """#include <string>
#include <memory>
#include <sstream>
#include <cstdarg>
namespace n {
struct X { int v; X(int v_) : v(v_) {} static X &global() { static X x(77); return x; } };
enum E { e1 = 1, e2 = 2, e3 = 3 };
enum class S { s1 = 1, s2 = 2 };
}
namespace vf_d {
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(char c) { return std::string(1, c); }
inline std::string show(std::string const &s) { return s; }
inline std::string show(char const *s) { return s; }
inline std::string show(n::X const &x) { return "X" + std::to_string(x.v); }
inline std::string show(n::X const *x) { return x ? show(*x) : std::string("null"); }
inline std::string show(std::shared_ptr<n::X> const &x) { return x ? show(*x) : std::string("null"); }
inline std::string show(n::E e) { return "E" + std::to_string((int)e); }
inline std::string show(n::S e) { return "S" + std::to_string((int)e); }
template<class T> std::string num(T t) { std::ostringstream s; s << t; return s.str(); }
inline std::string show(int t) { return num(t); }
inline std::string show(double t) { return num(t); }
inline std::string show(float t) { return num(t); }
inline std::string show(unsigned long t) { return num(t); }
inline std::string show(long long t) { return num(t); }
}
"""
KINDS = ["free", "static", "method", "const", "virtual", "template", "tmethod", "lifted", "variadic", "vmethod", "ctor", "vctor", "actor", "varctor", "reqd", "inherited", "ctmpl", "ctctor"]
RETS = ["void", "int", "n::X &", "const n::X &", "n::X *", "const n::X *", "n::X", "n::E", "n::S", "const n::S", "bool", "const char *", "std::shared_ptr<n::X>", "const std::string &", "n::E &", "double *"]


class F:
    """One function: kind, parameter type indexes, number of defaults, names."""

    def __init__(self, i, kind, ts, d, names, ret="std::string"):
        self.i, self.kind, self.ts, self.d, self.names, self.ret = i, kind, ts, d, names, ret
        self.n = len(ts)

    @property
    def is_ctor(self):
        return self.kind in ("ctor", "vctor", "actor", "varctor", "inherited", "ctctor")

    @property
    def cls(self):
        return "n::C%d" % self.i + ("<int>" if self.kind in ("ctmpl", "ctctor") else "")

    @property
    def py(self):
        return "m.n.C%d" % self.i + ("_int_t" if self.kind in ("ctmpl", "ctctor") else "")

    def params(self):
        r = []
        for j, t in enumerate(self.ts):
            dflt = " = " + TYPES[t][1] if j >= self.n - self.d else ""
            r.append("%s %s%s" % (TYPES[t][0], self.names[j], dflt))
        return ", ".join(r)

    def body(self):
        return 'return std::string("%s:")%s;' % (self.tag(), "".join(' + vf_d::show(%s) + ","' % n if n else ' + "?,"' for n in self.names[:self.n]))

    def tag(self):
        return "f%d" % self.i

    def text(self):
        t = self.text_()
        if self.ret != "std::string":       # structure only: declared, not defined
            t = re.sub(r"(inline )?std::string (?=f\d+\()", lambda m: self.ret + " ", t)
            t = re.sub(r"\{ return std::string.*?; \}", ";", t)
        return t

    def text_(self):
        p, b, i = self.params(), self.body(), self.i
        k = self.kind
        if k == "inherited":
            return "struct B%d { std::string got; B%d(%s) { %s } };\nstruct C%d : public B%d { using B%d::B%d; };" % (i, i, p, b.replace("return ", "got = ", 1), i, i, i, i)
        if k == "ctmpl":
            return "template<class T> struct C%d { std::string f%d(%s) { %s } };\ntemplate struct C%d<int>; inline void use%d(C%d<int> &) {}" % (i, i, p, b, i, i, i)
        if k == "ctctor":
            return "template<class T> struct C%d { std::string got; C%d(%s) { %s } };\ntemplate struct C%d<int>; inline void use%d(C%d<int> &) {}" % (i, i, p, b.replace("return ", "got = ", 1), i, i, i)
        if k == "free":
            return "inline std::string f%d(%s) { %s }" % (i, p, b)
        if k == "variadic":
            return "inline std::string f%d(%s, ...) { %s }" % (i, p, b)
        if k == "template":
            return "template<class T> std::string f%d(%s) { %s }\ntemplate std::string f%d<int>(%s);" % (i, p, b, i, ", ".join(TYPES[t][0] for t in self.ts))
        if k == "reqd":   # declared with defaults, defined later under other names
            p2 = ", ".join("%s z%d" % (TYPES[t][0], j) for j, t in enumerate(self.ts))
            b2 = 'return std::string("%s:")%s;' % (self.tag(), "".join(' + vf_d::show(z%d) + ","' % j if self.names[j] else ' + "?,"' for j in range(self.n)))
            return "std::string f%d(%s);\ninline std::string f%d(%s) { %s }" % (i, p, i, p2, b2)
        if self.is_ctor:
            p = p + (", ..." if k == "varctor" else "")
            extra = {"vctor": "virtual int vm() { return 1; }", "actor": "virtual int vm() = 0;"}.get(k, "")
            b = b.replace("return ", "got = ", 1)
            return "struct C%d { std::string got; C%d(%s) { %s } %s };" % (i, i, p, b, extra)
        if k == "static":
            return "struct C%d { static std::string f%d(%s) { %s } };" % (i, i, p, b)
        if k in ("method", "const"):
            return "struct C%d { std::string f%d(%s)%s { %s } };" % (i, i, p, " const" if k == "const" else "", b)
        if k == "virtual":
            return "struct C%d { virtual std::string f%d(%s) { %s } };" % (i, i, p, b)
        if k == "vmethod":
            return "struct C%d { std::string f%d(%s, ...) { %s } };" % (i, i, p, b)
        if k == "tmethod":
            return "struct C%d { template<class T> std::string f%d(%s) { %s } };\ntemplate std::string C%d::f%d<int>(%s);" % (i, i, p, b, i, i, ", ".join(TYPES[t][0] for t in self.ts))
        if k == "lifted":
            return "struct B%d { protected: std::string f%d(%s) { %s } };\nstruct C%d : B%d { using B%d::f%d; };" % (i, i, p, b, i, i, i, i)
        raise KeyError(k)


def expect_args(f):
    return [(k, list(f.names[:k])) for k in range(f.n - f.d, f.n + 1)]


def strip_decl(p):
    """'const & a0' -> (type, name)"""
    m = re.match(r"(.*?)\s*\b(\w+)$", p, re.S)
    return tnorm(m[1]), m[2]


def value_type(t):
    """type with one level of const& removed"""
    t = tnorm(t)
    t = re.sub(r"^const (.*) &$", r"\1", t)
    t = re.sub(r"^(.*) const &$", r"\1", t)
    t = re.sub(r"^const (?!.*[*&])", "", t)
    return t.replace(" const &", "").strip()


def judge(case, r):
    if not r.ok:
        return failed(case, r)
    out = r.model()
    problems, steps = [], 0
    fns = {}
    for ns, d in out.fdefs():
        fns.setdefault(d.name, []).append(d)
    cl = {tnorm(c.type): c for c in out.classes()}
    seen = []
    for f in case.data:
        q = "n::f%d" % f.i
        if f.kind in ("free", "variadic", "template", "reqd"):
            ds = fns.get("f%d" % f.i, [])
        else:
            c = cl.get(f.cls)
            if c is None:
                problems.append("%s is not registered" % f.cls)
                continue
            q = "%s::f%d" % (f.cls, f.i)
            if f.is_ctor:
                ds = [d for d in c.init() if not copylike(d, f.i, f)]
            else:
                ds = c.named("f%d" % f.i)
        want = expect_args(f)
        got = [(d.arity, list(d.args)) for d in ds]
        label = "%s f%d(%s)" % (f.kind, f.i, f.params())
        if f.kind == "inherited" and f.d == f.n and got.count((0, [])) == 2:     # the implicit default constructor of the derived class itself
            got.remove((0, []))
        if sorted(map(repr, want)) != sorted(map(repr, got)):
            problems.append("%s: registered with (number of arguments, names) %s, expected %s" % (label, got, want))
            continue
        for d in ds:
            steps += 1
            k = d.arity
            if f.kind == "static" and d.kind != "def_static" or f.kind not in ("static",) and d.kind != "def":
                problems.append("%s: registered with %s" % (label, d.kind))
            t = d.target
            wantt = [tnorm(TYPES[x][0]) for x in f.ts[:k]]
            ret = tnorm(t[5]) if t[0] == "ptr" else tnorm(t[1].ret) if t[0] == "lambda" else tnorm(f.ret)
            if ret != tnorm(f.ret):
                problems.append("%s: returns %s, the registration with %d arguments returns %s" % (label, f.ret, k, ret))
            if t[0] == "ptr":
                if [value_eq(x) for x in t[4]] != [value_eq(x) for x in wantt]:
                    problems.append("%s: pointer type takes (%s)" % (label, ", ".join(t[4])))
                if not (t[2] == q or t[2].startswith(q + "<int")):
                    problems.append("%s: points to %s" % (label, t[2]))
                if (t[6].strip() == "const") != (f.kind == "const"):
                    problems.append("%s: const-ness of %s" % (label, t[1]))
            elif t[0] == "init":
                if [value_eq(x) for x in t[1]] != [value_eq(x) for x in wantt]:
                    problems.append("%s: init<%s>" % (label, ", ".join(t[1])))
            else:
                lams = [t[1]] if t[0] == "lambda" else t[1]
                for lam in lams:
                    ps = [strip_decl(p) for p in lam.params]
                    obj = None
                    if t[0] == "lambda" and d.kind == "def" and d.owner == "class":
                        obj = ps.pop(0)
                        if obj[0] not in (f.cls + " &", f.cls + " const &", "const " + f.cls + " &"):
                            problems.append("%s: object of type %s" % (label, obj[0]))
                        if ("const" in obj[0]) != (f.kind == "const"):
                            problems.append("%s: const-ness of object %s" % (label, obj[0]))
                    if [value_type(x) for x, _ in ps] != [value_type(x) for x in wantt]:
                        problems.append("%s: lambda takes (%s)" % (label, ", ".join(lam.params)))
                    for (pt, _), w in zip(ps, wantt):
                        if w[-1] in "*&" and pt != w:
                            problems.append("%s: lambda parameter %s instead of %s" % (label, pt, w))
                    call = ", ".join(x for _, x in ps)
                    callee = ("%s.f%d" % (obj[1], f.i)) if obj else q
                    if t[0] == "lambda":
                        if not re.fullmatch(r"return %s(<int>)?\(%s\);" % (re.escape(callee), re.escape(call)), lam.body):
                            problems.append("%s: lambda calls %s" % (label, lam.body))
                    else:
                        m = re.fullmatch(r"return new ([\w:<>]+)\(%s\);" % re.escape(call), lam.body)
                        if not m:
                            problems.append("%s: factory %s" % (label, lam.body))
                if t[0] == "initf":
                    made = [re.search(r"new ([\w:<>]+)", x.body)[1] for x in lams]
                    tramp = [a for a in cl[f.cls].args if a.startswith("PyCallBack_")]
                    w = {"vctor": [f.cls] + tramp, "actor": tramp}.get(f.kind, [f.cls])
                    if made != w:
                        problems.append("%s: factories make %s, expected %s" % (label, made, w))
        seen.append((f.kind, got))
    return Verdict(problems, steps, seen)


def value_eq(t):
    """top-level const of a parameter does not matter in a function type"""
    t = tnorm(t)
    return re.sub(r"^const (?!.*[*&])", "", t)


def copylike(d, i, f):
    t = d.target
    own = re.compile(r"^(const )?(n::C%d(<int>)?|PyCallBack_\w+)( const)? &" % i)
    if t[0] == "init":
        return len(t[1]) == 1 and bool(own.match(tnorm(t[1][0])))
    return len(t[1][0].params) == 1 and bool(own.match(tnorm(t[1][0].params[0])))


def space(thorough):
    """parameter lists"""
    nt = len(TYPES)
    yield ()
    for a in range(nt):
        yield (a,)
    for a in range(nt):
        for b in range(nt):
            if thorough or (b - a) % 3 == 0 or a == 0:
                yield (a, b)
    for a in range(nt):
        yield (a, (a * 3 + 1) % nt, (a + 5) % nt)
    for a in range(0, nt, 1 if thorough else 3):
        yield tuple((a + 7 * j) % nt for j in range(4))
    for a in range(0, nt, 2 if thorough else 6):
        yield tuple((a + j) % nt for j in range(6))
    yield tuple(range(nt))[:10]
    if thorough:
        for a, b, x in itertools.product(range(0, nt), range(0, nt, 2), range(1, nt, 3)):
            yield (a, b, x)


def legal(kind, ts, d):
    if kind in ("variadic", "vmethod", "varctor") and len(ts) == 0:
        return False
    n = len(ts)
    return True


def functions(thorough):
    i = 0
    for ts in space(thorough):
        n = len(ts)
        for d in range(n + 1):
            if n > 4 and d not in (0, 1, 2, n // 2, n):
                continue
            for ki, kind in enumerate(KINDS):
                if not legal(kind, ts, d):
                    continue
                if n >= 2 and not thorough and (sum(ts) + d * 3 + ki) % 3 and kind not in ("free", "method"):
                    continue
                if kind in ("ctor", "vctor", "actor", "varctor", "inherited", "ctctor") and n == 0:
                    continue
                names = list((NAMES * 2)[(sum(ts) + n) % 5:][:n])
                if (i % 7) == 3 and n:
                    names[i % n] = ""
                yield F(i, kind, ts, d, names)
                i += 1
    for ret, kind, (ts, d) in itertools.product(RETS, ["free", "static", "method", "const", "virtual", "lifted", "ctmpl", "variadic"], [((), 0), ((0,), 0), ((0,), 1), ((3, 6), 0), ((3, 6), 1), ((3, 6), 2)]):
        if legal(kind, ts, d):
            yield F(i, kind, ts, d, ["p", "q"][:len(ts)], ret)
            i += 1


def program(fs):
    return PRELUDE + "namespace n {\n" + "\n".join(f.text() for f in fs) + "\n}\n"


def call_plan(f):
    """[(python arguments, expected)]"""
    r = []
    vals = [TYPES[t][3] for t in f.ts]
    for k in range(0, f.n + 2):
        if k < f.n - f.d or k > f.n:
            v = (vals + ["1"] * 3)[:k]
            r.append((", ".join(v), None))
            continue
        exp = "%s:" % f.tag() + "".join(((TYPES[t][4] if j < k else TYPES[t][2]) if f.names[j] else "?") + "," for j, t in enumerate(f.ts))
        r.append((", ".join(vals[:k]), exp))
        named = all(f.names[:k]) and "self" not in f.names[:k]
        if k and named:
            r.append(("**{" + ", ".join("%r: %s" % (f.names[j], vals[j]) for j in reversed(range(k))) + "}", exp))
            if k > 1:
                r.append((vals[0] + ", **{" + ", ".join("%r: %s" % (f.names[j], vals[j]) for j in range(1, k)) + "}", exp))
    return r


def behaviour(c, fs):
    per = 40
    packs = [fs[i:i + per] for i in range(0, len(fs), per)]

    def module(pack):
        script = ["import json, m", "res = []", "def t(f):", "    try: return f()", "    except TypeError: return None", "    except Exception as e: return repr(e)"]
        want = []
        for f in pack:
            for args, exp in call_plan(f):
                if f.kind in ("free", "variadic", "template", "reqd"):
                    e = "m.n.f%d(%s)" % (f.i, args)
                elif f.is_ctor:
                    e = "%s(%s).got" % (f.py, args)
                    if f.kind == "vctor":
                        want.append((f, "sub" + e, exp))
                        script += ["class Sub(m.n.C%d): pass" % f.i, "res.append(t(lambda: Sub(%s).got))" % args]
                elif f.kind == "static":
                    e = "%s.f%d(%s)" % (f.py, f.i, args)
                else:
                    e = "%s().f%d(%s)" % (f.py, f.i, args)
                script.append("res.append(t(lambda: %s))" % e)
                want.append((f, e, exp))
        script.append("print(json.dumps(res))")
        case = Case(program(pack), bind="n", args=["--single-file"], key="behaviour/%d-%d" % (pack[0].i, pack[-1].i))
        py, r = pyb.check_module(case, "\n".join(script) + "\n")
        return case, py, want
    n = 0
    for case, py, want in run.pmap(module, packs):
        c.traces += 1
        c.states.add(case.key)
        if py.stage != "done":
            c.violation(case.key, ["%s failed: %s" % (py.stage, py.out[:2500])], case.describe())
            continue
        bad = []
        for (f, e, exp), g in zip(want, py.data):
            n += 1
            c.transitions += 1
            if g != exp:
                bad.append("%s declared (%s)%s: %s gives %r, C++ would give %r" % (f.kind, f.params(), "", e, g, exp))
        if bad:
            c.violation(case.key, bad[:6], case.describe())
        c.outcomes.add(str(py.data)[:3000])
    c.extra["functions_compiled"] = len(fs)
    c.extra["calls_from_python"] = n


def judge_fnref(case, r):
    if not r.ok:
        return failed(case, r)
    want, problems = case.data, []
    ds = [d for _, d in r.model().fdefs() if d.name == "f"] + [d for c in r.model().classes() for d in c.named("f")]
    got = [(d.arity, d.target[0]) for d in ds]
    problems += diff("registrations of a function that takes a function", [(want, "ptr")], got)
    return Verdict(problems, 1, got)


def body(c):
    fs = list(functions(c.thorough))
    per = 60
    cases = []
    for i in range(0, len(fs), per):
        pack = fs[i:i + per]
        cases.append(Case(program(pack), bind="n", args=["--single-file"], key="pack/%d" % i, data=pack))
    c.bounds["functions"] = len(fs)
    c.bounds["kinds"] = KINDS
    c.explore(cases, judge, "structure")
    for f in fs:
        c.states.add((f.kind, f.ts, f.d, tuple(f.names), f.ret))
    cases = []
    for i, (n, at, d, meth) in enumerate(itertools.product((1, 2, 3, 4), range(4), range(4), (False, True))):
        if at >= n or d > n:
            continue
        ps = ", ".join(("int (&g)(int)" + (" = dg" if j >= n - d else "")) if j == at else "int a%d%s" % (j, " = 1" if j >= n - d else "") for j in range(n))
        cases.append(Case("namespace n { int dg(int); %s }" % ("struct C { void f(%s); };" % ps if meth else "void f(%s);" % ps), bind="n", args=["--single-file"], key="fnref/%d" % i, data=n))
    c.explore(cases, judge_fnref, "functions as arguments")
    if not c.violations:
        # every kind at every list of length <= 1, and a cover of the longer ones
        bf = [f for f in fs if f.ret == "std::string"]
        bf = [f for f in bf if f.n <= 1 or c.thorough and f.n <= 4 or (f.n >= 2 and (f.i % 7 == 0 or f.n >= 4))]
        if not c.thorough:
            bf = bf[::2] if len(bf) > 900 else bf
        behaviour(c, bf)


main("C08", body, rule="every function within the bounds, every number of arguments; arity, names, types, callee compared with C++'s own rules; compiled functions are called from Python and report what they received")
