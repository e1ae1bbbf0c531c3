"""C09: operators and printing.

Structural part: every operator of C++ that can be a member function, in every form (number of parameters, const, virtual, access, deleted, overloads,
class template, inherited by using), and as a non-member; the names registered must be those of the documented table. Every place and form an insertion
operator can have, for every kind of class. Behavioural part: compiled classes used with Python's own operators and str().
"""
import itertools
import re
from common import *

TABLE = {  # C++ operator -> {number of parameters: Python name}
    "+": {0: "__pos__", 1: "__add__"}, "-": {0: "__neg__", 1: "__sub__"}, "*": {0: "dereference", 1: "__mul__"}, "/": {1: "__truediv__"}, "%": {1: "__mod__"},
    "~": {0: "__invert__"}, "|": {1: "__or__"}, "&": {1: "__and__"}, "^": {1: "__xor__"}, "<<": {1: "__lshift__"}, ">>": {1: "__rshift__"},
    "+=": {1: "__iadd__"}, "-=": {1: "__isub__"}, "*=": {1: "__imul__"}, "/=": {1: "__itruediv__"}, "%=": {1: "__imod__"}, "|=": {1: "__ior__"}, "&=": {1: "__iand__"},
    "^=": {1: "__ixor__"}, "<<=": {1: "__ilshift__"}, ">>=": {1: "__irshift__"},
    "()": {0: "__call__", 1: "__call__", 2: "__call__", 3: "__call__"}, "==": {1: "__eq__"}, "!=": {1: "__ne__"}, "[]": {1: "__getitem__"}, "=": {1: "assign"},
    "++": {0: "pre_increment", 1: "post_increment"}, "--": {0: "pre_decrement", 1: "post_decrement"}, "->": {0: "arrow"},
}
NOMAP = {"!": [0], "&&": [1], "||": [1], "<": [1], ">": [1], "<=": [1], ">=": [1], ",": [1], "->*": [1]}
FORMS = [(op, k, n) for op, m in TABLE.items() for k, n in m.items()] + [(op, k, None) for op, ks in NOMAP.items() for k in ks]


def params(op, k, t="int"):
    if op in ("++", "--"):
        return "int" if k else ""
    return ", ".join([t + " a", "double b", "bool c"][:k])


def decl(op, k, quals="", ret="int", pre="", post=";", t="int", cls="A"):
    if op == "->":
        ret = cls + " *"
    if op == "=":
        ret = cls + " &"
    return "%s%s operator%s(%s)%s%s" % (pre, ret, op, params(op, k, t), quals, post)


def judge_members(case, r):
    if not r.ok:
        return failed(case, r)
    problems, steps = [], 0
    cl = {tnorm(c.type): c for c in r.model().classes()}
    seen = []
    for q, want, cppname in case.data:
        c = cl.get(q)
        if c is None:
            problems.append("%s is not registered" % q)
            continue
        steps += 1
        got = []
        for d in c.defs:
            if d.name == "assign" and d.target[0] == "ptr" and tnorm(d.target[4][0]) in (tnorm("const %s &" % q), q + " &"):
                continue    # the implicit copy assignment
            if d.target[0] in ("init", "initf", "member"):
                continue
            got.append((d.name, d.arity))
            if want and d.target[0] == "ptr" and "operator" in d.target[2] and cppname and not d.target[2].endswith(norm(cppname)):
                problems.append("%s.%s calls %s" % (q, d.name, d.target[2]))
        problems += diff("operators of %s" % q, want, got)
        seen.append((q, sorted(got)))
    fns = [d.name for _, d in r.model().fdefs()]
    if fns != ["anchor"]:
        problems.append("functions registered in the namespace: %s, expected only 'anchor'" % fns)
    return Verdict(problems, steps, seen)


def member_cases(c):
    """each case: a namespace with one class per form"""
    variants = [
        ("public", "struct A%d { %s };", {}), ("const", "struct A%d { %s };", {"quals": " const"}), ("virtual", "struct A%d { %s };", {"pre": "virtual "}),
        ("private", "struct A%d { int z; private: %s };", {}), ("protected", "struct A%d { int z; protected: %s };", {}), ("deleted", "struct A%d { int z; %s };", {"post": " = delete;"}),
        ("class", "class A%d { int z; public: %s };", {}), ("inline", "struct A%d { %s };", {"pre": "inline "}), ("noexcept", "struct A%d { %s };", {"quals": " noexcept"}),
    ]
    for vn, text, kw in variants:
        t, data = "", []
        for i, (op, k, py) in enumerate(FORMS):
            if op == "=" and vn in ("deleted", "private", "protected"):
                pass
            t += text % (i, decl(op, k, cls="A%d" % i, **kw)) + "\n"
            ok = py is not None and vn not in ("private", "protected", "deleted")
            data.append(("n::A%d" % i, [(py, k)] if ok else [], "operator" + op))
        yield Case("namespace n {\n%s\ninline void anchor() {}\n}" % t, bind="n", args=["--single-file"], key="member/" + vn, data=data)
    # overloads by type, and unary and binary form of one operator together
    t, data = "", []
    for i, (op, k, py) in enumerate(FORMS):
        if op in ("++", "--", "->"):
            continue
        k2 = k or 1
        if k == 0 and op in ("~", "!"):
            continue
        if k == 0:
            ms = decl(op, 0, cls="A%d" % i) + " " + decl(op, 1, cls="A%d" % i)
            w = [(TABLE[op][0], 0), (TABLE[op][1], 1)] if op in TABLE else []
        else:
            ms = decl(op, k, cls="A%d" % i) + " " + decl(op, k, t="const char *", cls="A%d" % i)
            w = [(py, k)] * 2 if py else []
        t += "struct A%d { %s };\n" % (i, ms)
        data.append(("n::A%d" % i, w, "operator" + op))
    yield Case("namespace n {\n%s\ninline void anchor() {}\n}" % t, bind="n", args=["--single-file"], key="overloads", data=data)
    # pairs of operators in one class
    names = sorted({op for op, _, _ in FORMS})
    step = 1 if c.thorough else 3
    pairs = list(itertools.combinations(range(len(FORMS)), 2))[::step]
    for j in range(0, len(pairs), 60):
        t, data = "", []
        for i, (x, y) in enumerate(pairs[j:j + 60]):
            a, b = FORMS[x], FORMS[y]
            t += "struct A%d { %s %s };\n" % (i, decl(a[0], a[1], cls="A%d" % i), decl(b[0], b[1], cls="A%d" % i))
            data.append(("n::A%d" % i, [(f[2], f[1]) for f in (a, b) if f[2]], None))
        yield Case("namespace n {\n%s\ninline void anchor() {}\n}" % t, bind="n", args=["--single-file"], key="pairs/%d" % j, data=data)
    # class template, lifted by using, nested
    t, data = "", []
    for i, (op, k, py) in enumerate(FORMS):
        if op == "=":
            continue
        w = [(py, k)] if py else []
        t += "template<class T> struct T%d { T t; %s };\ninline void useT%d();\n" % (i, decl(op, k, cls="T%d<T>" % i), i) if False else "template<class T> struct T%d { T t; %s };\ntemplate struct T%d<int>;\n" % (i, decl(op, k, cls="T%d<T>" % i), i)
        data.append(("n::T%d<int>" % i, w, None))
        t += "struct B%d { int z; protected: %s };\nstruct L%d : public B%d { using B%d::operator%s; };\n" % (i, decl(op, k, cls="B%d" % i), i, i, i, op)
        data.append(("n::B%d" % i, [], None))
        data.append(("n::L%d" % i, w, None))
        t += "struct N%d { struct I { %s }; };\n" % (i, decl(op, k, cls="I"))
        data.append(("n::N%d::I" % i, w, None))
    anchor = "struct Holder { void h(%s); };" % ", ".join("T%d<int> &" % i for i, (op, _, _) in enumerate(FORMS) if op != "=")
    data.append(("n::Holder", [("h", len(FORMS) - 1)], None))
    yield Case("namespace n {\n%s\n%s\ninline void anchor() {}\n}" % (t, anchor), bind="n", args=["--single-file"], key="templates, lifted, nested", data=data)
    # non-members are not registered
    t, data = "", []
    for i, (op, k, py) in enumerate(FORMS):
        if op in ("()", "[]", "=", "->"):
            continue
        ps = "A%d &x%s" % (i, ", int y" if k else "")
        t += "struct A%d { int z; };\nint operator%s(%s);\nstruct F%d { int z; friend int operator%s(%s); };\n" % (i, op, ps, i, op, ps.replace("A%d" % i, "F%d" % i))
        data += [("n::A%d" % i, [], None), ("n::F%d" % i, [], None)]
    yield Case("namespace n {\n%s\ninline void anchor() {}\n}" % t, bind="n", args=["--single-file"], key="non-members", data=data)
    # conversion operators and literals are not registered
    yield Case("namespace n { struct A { operator int(); operator bool() const; explicit operator double(); void *operator new(decltype(sizeof(0))); void operator delete(void *); }; \ninline void anchor() {}\n}",
               bind="n", args=["--single-file"], key="conversions", data=[("n::A", [], None)])
    # excluded by name or by signature
    for sk in range(2):
        t, data, cfg = "", [], ["+namespace n"]
        for i, (op, k, py) in enumerate(FORMS):
            if op in ("=", ","):        # a comma separates nothing in a directive, but keep to names without it
                continue
            t += "struct A%d { %s int keep(); };\n" % (i, decl(op, k, cls="A%d" % i))
            if sk == 0 or i % 2:
                cfg.append("-function n::A%d::operator%s" % (i, op) + ("" if sk == 0 else "(%s)" % ", ".join(re.sub(r" [abc]\b", "", p) for p in params(op, k).split(", "))))
                w = []
            else:
                w = [(py, k)] if py else []
            data.append(("n::A%d" % i, w + [("keep", 0)], None))
        yield Case("namespace n {\n%s\ninline void anchor() {}\n}" % t, config=cfg, args=["--single-file"], key="skip/%d" % sk, data=data)


# -- printing ---------------------------------------------------------------------------------------------------------
CLASSES = {  # name -> (text with %s for members, C++ type, forward declaration)
    "struct": ("struct A { int v = 5; %s };", "n::A", "struct A;"),
    "class": ("class A { public: int v = 5; %s };", "n::A", "class A;"),
    "union": ("union A { int v; float w; A() { v = 5; } %s };", "n::A", "union A;"),
    "nested struct": ("struct O { int z = 0; struct A { int v = 5; %s }; };", "n::O::A", None),
    "nested class": ("class O { public: int z = 0; class A { public: int v = 5; %s }; };", "n::O::A", None),
    "instance": ("template<class T> struct A { T v = T(5); %s };", "n::A<int>", "template<class T> struct A;"),
    "class instance": ("template<class T, class U> class A { public: T v = T(5); %s };", "n::A<int, double>", "template<class T, class U> class A;"),
    "final": ("struct A final { int v = 5; %s };", "n::A", "struct A;"),
    "virtual": ("struct A { int v = 5; virtual ~A() {} virtual int f() { return 1; } %s };", "n::A", "struct A;"),
}
PLACES = ["none", "after", "before", "friend inline", "friend declared", "global", "parent", "elsewhere", "other class", "member"]
FORMS2 = ["const &", "&", "value", "const *", "void", "wostream"]


def printer(cls, place, form):
    """-> (header text, prints?) """
    text, typ, fwd = CLASSES[cls]
    tmpl = "instance" in cls
    arg = {"const &": "%s const &x", "&": "%s &x", "value": "%s x", "const *": "%s const *x", "void": "%s const &x", "wostream": "%s const &x"}[form]
    ret = "void" if form == "void" else "std::wostream &" if form == "wostream" else "std::ostream &"
    st = "std::wostream" if form == "wostream" else "std::ostream"
    body = "{ o << %s\"<\" << x%sv << \">\"; %s}" % ("L" if form == "wostream" else "", "->" if "*" in form else ".", "" if form == "void" else "return o; ")
    spell = typ
    head = "inline "
    if tmpl and place not in ("friend inline",):
        args = ["T"] if cls == "instance" else ["T", "U"]
        head = "template<%s> " % ", ".join("class " + a for a in args)
        spell = "n::A<%s>" % ", ".join(args)
    op = lambda sp=spell, h=head, b=body: "%s%s operator<<(%s &o, %s) %s" % (h, ret, st, arg % sp, b)
    pre = mid = post = members = ""
    inn = "A" if "nested" not in cls else "A"
    if place == "after":
        mid = op()
    elif place == "before":
        if not fwd or "value" in form:
            return None
        pre = fwd + "\n" + op(spell.replace("n::", ""), b=";")
        mid = op(spell.replace("n::", ""))
    elif place == "friend inline":
        members = "friend %s operator<<(%s &o, %s) %s" % (ret, st, arg % "A", body)
    elif place == "friend declared":
        if tmpl:
            return None
        members = "friend %s operator<<(%s &o, %s);" % (ret, st, arg % "A")
        mid = op()
    elif place in ("global", "parent", "elsewhere"):
        post = op()
    elif place == "other class":
        mid = "struct Z { int v = 9; };\ninline std::ostream &operator<<(std::ostream &o, Z const &x) { return o << x.v; }\n"
    elif place == "member":
        members = "std::ostream &operator<<(std::ostream &o) const { return o; }"
    use = "inline void use(%s &, int) { }\n" % typ
    inst = ""
    if tmpl:
        inst = "template %s;\ninline int inst() { %s a; return 0; }\n" % (("class " if cls.startswith("class") else "struct ") + typ.replace("n::", ""), typ)
    ns = "namespace n {\n%s\n%s\n%s\n%s\n}\n" % (pre, text % members, mid, inst + use)
    if place == "global":
        t = ns + post
    elif place == "parent":
        ns = ns.replace("n::", "w::n::")
        t = "namespace w {\n%s\n%s\n}\n" % (ns, post.replace("n::", "w::n::"))
        typ = "w::" + typ
    elif place == "elsewhere":
        t = ns + "namespace e {\n%s\n}\n" % post
    else:
        t = ns
    prints = place not in ("none", "other class", "member") and form == "const &"
    return "#include <ostream>\n" + t, typ, prints


def judge_str(case, r):
    if not r.ok:
        return failed(case, r)
    typ, prints = case.data[:2]
    got = {tnorm(c.type): len(c.named("__str__")) for c in r.model().classes()}
    problems = []
    if tnorm(typ) not in got:
        return Verdict(["%s is not registered: %s" % (typ, sorted(got))])
    if got[tnorm(typ)] != int(prints):
        problems.append("%s has __str__ %d times, expected %d" % (typ, got[tnorm(typ)], int(prints)))
    for k, v in got.items():
        if k not in (tnorm(typ), "n::Z") and v:
            problems.append("%s has __str__, but nothing prints it" % k)
    return Verdict(problems, 1, sorted(got.items()))


def light(t):
    """declarations only: much cheaper to parse"""
    t = t.replace("#include <ostream>", "#include <iosfwd>")
    return re.sub(r"(operator<<\([^{};]*\)(?: const)?) \{[^{}]*\}", r"\1;", t)


def str_cases():
    for cls, place, form in itertools.product(CLASSES, PLACES, FORMS2):
        if place in ("none", "other class", "member") and form != "const &":
            continue
        p = printer(cls, place, form)
        if p is None:
            continue
        t, typ, prints = p
        t = light(t)
        bind = ["w" if place == "parent" else "n"]
        yield Case(t, bind=bind, args=["--single-file"], key="str/%s/%s/%s" % (cls, place, form), data=(typ, prints, cls, place))
        if prints:
            name = re.sub(r"<.*", "", typ)
            for sk, spell in enumerate([name + "::__str__", typ + "::__str__", "n::Other::__str__"]):
                yield Case(t, config=["+namespace " + bind[0], "-function " + spell], args=["--single-file"], key="str-skip/%s/%s/%d" % (cls, place, sk), data=(typ, sk == 2, cls, place))


def judge_same(case, r):
    """classes of one name in two namespaces"""
    if not r.ok:
        return failed(case, r)
    got = {tnorm(c.type): len(c.named("__str__")) for c in r.model().classes()}
    problems = diff("classes with __str__", [k for k, v in case.data.items() if v], [k for k, v in got.items() if v])
    return Verdict(problems, len(got), sorted(got.items()))


def same_cases():
    for tmpl in (False, True):
        for has in itertools.product([0, 1], repeat=3):
            for order in itertools.permutations("abc", 3):
                t, want = "#include <ostream>\n", {}
                for x, hs in zip("abc", has):
                    pass
                for x in order:
                    hs = has["abc".index(x)]
                    if tmpl:
                        t += "namespace %s { template<class T> struct A { T v; };\n%s\ntemplate struct A<int>; inline void use(A<int> &) {} }\n" % (
                            x, "template<class T> std::ostream &operator<<(std::ostream &o, A<T> const &x) { return o; }" if hs else "")
                        want["%s::A<int>" % x] = hs
                    else:
                        t += "namespace %s { struct A { int v; };\n%s\n }\n" % (x, "std::ostream &operator<<(std::ostream &o, A const &x);" if hs else "")
                        want["%s::A" % x] = hs
                yield Case(light(t), bind=list("abc"), args=["--single-file"], key="same/%s/%s/%s" % (tmpl, "".join(map(str, has)), "".join(order)), data=want)


# -- behaviour --------------------------------------------------------------------------------------------------------
def behaviour(c):
    jobs = []
    # Python's operators
    py = {"+": "a + 3", "-": "a - 3", "*": "a * 3", "/": "a / 3", "%": "a % 3", "|": "a | 3", "&": "a & 3", "^": "a ^ 3", "<<": "a << 3", ">>": "a >> 3", "==": "a == 3", "!=": "a != 3"}
    H = "namespace n {\nstruct V { int v = 0; };\nstruct O { int last = 0; O() {}\n"
    script = ["import json, m", "r = {}", "a = m.n.O()"]
    want = {}
    for i, (op, e) in enumerate(py.items()):
        H += " int operator%s(int x) { last = %d; return %d + x; } int operator%s(double x) const { return %d; }\n" % (op, i, 100 * i, op, -1000 - i)
        script += ["r[%r] = %s" % (op, e), "r[%r] = %s" % (op + "d", e.replace("3", "0.5"))]
        want[op], want[op + "d"] = 100 * i + 3, -1000 - i
    for i, (op, e) in enumerate({"+": "+a", "-": "-a", "~": "~a"}.items()):
        H += " int operator%s() { return %d; }\n" % (op, 5000 + i)
        script.append("r['u%s'] = %s" % (op, e))
        want["u" + op] = 5000 + i
    for i, op in enumerate(["+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="]):
        H += " O &operator%s(int x) { last = %d + x; return *this; }\n" % (op, 7000 + 10 * i)
        script += ["b = m.n.O()", "keep = b", "b %s 4" % op, "r[%r] = [b.last, keep.last]" % op]
        want[op] = [7000 + 10 * i + 4] * 2
    H += " int operator()() { return 1; } int operator()(int x) { return 10 + x; } int operator()(int x, int y) { return 100 * x + y; }\n int operator[](int i) { return i * 2; }\n"
    H += " int operator*() { return 81; } V *operator->() { V *v = new V; v->v = 82; return v; } int operator++() { return 83; } int operator++(int) { return 84; } int operator--() { return 85; } int operator--(int) { return 86; }\n};\n"
    H += "struct Asg { int v = 0; Asg &operator=(int x) { v = x; return *this; } };\n}\n"
    script += ["r['call'] = [a(), a(5), a(2, 3)]", "r['get'] = a[21]", "r['deref'] = a.dereference()", "r['arrow'] = a.arrow().v", "r['inc'] = [a.pre_increment(), a.post_increment(0), a.pre_decrement(), a.post_decrement(0)]",
               "s = m.n.Asg(); s.assign(9); r['assign'] = s.v", "print(json.dumps(r))"]
    want.update({"call": [1, 15, 203], "get": 42, "deref": 81, "arrow": 82, "inc": [83, 84, 85, 86], "assign": 9})
    jobs.append((Case(H, bind="n", args=["--single-file"], key="run/operators"), "\n".join(script) + "\n", want))
    # printing: each class with each place of the operator in one module (several per module)
    packs = []
    for cls, place in itertools.product(CLASSES, PLACES):
        p = printer(cls, place, "const &")
        if p:
            packs.append((cls, place) + p)
    per = 12
    for j in range(0, len(packs), per):
        headers, script, want, bind = {}, ["import json, m", "r = {}", "def s(f):", "    try: return str(f())", "    except Exception as e: return repr(e)"], {}, []
        for i, (cls, place, t, typ, prints) in enumerate(packs[j:j + per]):
            nn = "n%d" % i
            top = "w%d" % i if place == "parent" else nn
            t = re.sub(r"\bn\b", nn, t)
            t = re.sub(r"\bw\b", "w%d" % i, t)
            t = re.sub(r"\be\b", "e%d" % i, t) if place == "elsewhere" else t
            # the operator lives in a header of its own where it can
            headers["h%d.hpp" % i] = t
            bind.append(top)
            path = re.sub(r"\bn\b", nn, typ).replace("::", ".")
            path = re.sub(r"\bw\b", "w%d" % i, path)
            path = path.replace("A<int, double>", "A_int_double_t").replace("A<int>", "A_int_t")
            script.append("r[%r] = s(lambda: m.%s())" % ("%s/%s" % (cls, place), path))
            want["%s/%s" % (cls, place)] = "<5>" if prints else None
        script.append("print(json.dumps(r))")
        jobs.append((Case(headers, bind=bind, key="run/print%d" % j), "\n".join(script) + "\n", want))

    def go(job):
        case, s, want = job
        p, r = pyb.check_module(case, s, split=False)
        return case, p, want
    n = 0
    for case, p, want in run.pmap(go, jobs):
        c.traces += 1
        c.states.add(case.key)
        if p.stage != "done":
            c.violation(case.key, ["%s failed: %s" % (p.stage, p.out[:2500])], case.describe())
            continue
        bad = []
        for k, v in want.items():
            n += 1
            c.transitions += 1
            g = p.data.get(k)
            if v is None and isinstance(g, str) and re.match(r"<m\..* object at ", g):
                continue
            if g != v:
                bad.append("%s gives %r, expected %r" % (k, g, v if v is not None else "the default text"))
        if bad:
            c.violation(case.key, bad[:8], case.describe())
        c.outcomes.add(str(sorted(p.data.items()))[:2000])
    c.extra["evaluated_in_python"] = n


def body(c):
    c.bounds["operator forms"] = len(FORMS)
    c.explore(list(member_cases(c)), judge_members, "member operators")
    c.explore(list(str_cases()), judge_str, "printing")
    c.explore(list(same_cases()), judge_same, "same name in several namespaces")
    for f in FORMS:
        c.states.add(("form",) + f)
    if not c.violations:
        behaviour(c)


main("C09", body, rule="every operator form and every place of an insertion operator within the bounds; registered names compared with the documented table, compiled classes used with Python's operators and str()")
