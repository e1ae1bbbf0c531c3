"""Reads the C++ that binder wrote back into a model of what that code registers.

The reader works on tokens, so white space, comments and line breaks carry no meaning, and it follows the
structure of the code (blocks, statements, calls), not any particular line layout.
"""
import re

TOK = re.compile(r'''
   (?P<pp>^[ \t]*\#(?:[^\n\\]|\\\n|\\.)*)
 | (?P<ws>\n|[^\S\n]+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*.*?\*/)
 | (?P<raw>R"(?P<d>[^()\s\\]{0,16})\(.*?\)(?P=d)")
 | (?P<str>"(?:\\.|[^"\\\n])*")
 | (?P<chr>'(?:\\.|[^'\\\n])*')
 | (?P<id>[A-Za-z_]\w*)
 | (?P<num>\.?\d(?:[\w.]|[eEpP][+-])*)
 | (?P<op>::|->|\.\.\.|&&|<<=|[-+*/%&|^=!<>]=|.)
''', re.X | re.S | re.M)


class ParseError(Exception):
    pass


def tokens(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k == "d":
            k = "raw"
        if k in ("ws", "lc", "bc"):
            continue
        out.append((k, m.group(0)))
    return out


ESC = {"n": "\n", "t": "\t", "\\": "\\", '"': '"', "'": "'", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "?": "?"}


def unquote(s):
    """Value of a C++ string literal."""
    if s.startswith("R"):
        d = s[2:s.index("(")]
        return s[3 + len(d):-2 - len(d)]
    if not (len(s) >= 2 and s[0] == '"' and s[-1] == '"'):
        raise ParseError("not a string literal: " + s)
    out, i, b = [], 1, len(s) - 1
    while i < b:
        if s[i] == "\\":
            c = s[i + 1]
            if c == "x":
                m = re.compile(r"[0-9a-fA-F]+").match(s, i + 2)
                out.append(chr(int(m[0], 16)))
                i = m.end()
            elif c in "01234567":
                m = re.compile(r"[0-7]{1,3}").match(s, i + 1)
                out.append(chr(int(m[0], 8)))
                i = m.end()
            else:
                out.append(ESC.get(c, c))
                i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def join(toks):
    """Canonical text: a space only between two word-like tokens, after commas, and around & * when needed."""
    out = ""
    prev = ""
    for k, t in toks:
        if out:
            word = lambda s: bool(re.match(r"[\w\"']", s))
            pw, cw = bool(re.search(r"[\w\"']$", prev)), word(t)
            if pw and cw:
                out += " "
            elif prev == ",":
                out += " "
            elif t in "&*" and (pw or prev == ">"):
                out += " "
            elif t == "&&" and (pw or prev == ">"):
                out += " "
            elif prev in ("&", "*", "&&", ">", ")") and cw and t not in ("::",):
                out += " "
        out += t
        prev = t
    return out


def norm(text):
    """Canonical spelling of a C++ type or expression given as text."""
    return join(tokens(text))


def tnorm(text):
    """Canonical spelling of a type: elaborated-type keywords dropped, white space canonical."""
    return join([t for t in tokens(text) if not (t[0] == "id" and t[1] in ("class", "struct", "enum", "union", "typename"))])


OPEN = {"(": ")", "[": "]", "{": "}"}


def split_args(toks, angle=True):
    """Splits a token list at top-level commas; template angle brackets count as brackets."""
    out, cur, depth, ang = [], [], 0, 0
    name = False        # within the name of an operator: operator<<
    for i, (k, t) in enumerate(toks):
        if (k, t) == ("id", "operator"):
            name = True
        elif not (k == "op" and t in ("<", ">")):
            name = False
        elif name:
            cur.append((k, t))
            continue
        if t in OPEN and k == "op":
            depth += 1
        elif t in (")", "]", "}") and k == "op":
            depth -= 1
        elif angle and k == "op" and depth == 0 and t == "<":
            ang += 1
        elif angle and k == "op" and depth == 0 and t == ">" and ang > 0:
            ang -= 1
        if k == "op" and t == "," and depth == 0 and ang == 0:
            out.append(cur)
            cur = []
        else:
            cur.append((k, t))
    if cur or out:
        out.append(cur)
    return out


def close(toks, i):
    """Index of the bracket that closes toks[i]."""
    o = toks[i][1]
    c = OPEN[o]
    d = 0
    for j in range(i, len(toks)):
        k, t = toks[j]
        if k == "op":
            if t == o:
                d += 1
            elif t == c:
                d -= 1
                if d == 0:
                    return j
    raise ParseError("unbalanced " + o + " in: " + join(toks[i:i + 40]))


def close_angle(toks, i):
    """Index of the > that closes the < at toks[i] (template argument list)."""
    d, j = 0, i
    while j < len(toks):
        k, t = toks[j]
        if k == "op":
            if t in OPEN:
                j = close(toks, j)
            elif t == "<":
                d += 1
            elif t == ">":
                d -= 1
                if d == 0:
                    return j
        j += 1
    raise ParseError("unbalanced < in: " + join(toks[i:i + 40]))


class Lambda:
    def __init__(self, params, ret, body):
        self.params, self.ret, self.body = params, ret, body

    def __repr__(self):
        return "[](%s)->%s{%s}" % (", ".join(self.params), self.ret, self.body)


class Def:
    """One .def/.def_static/.def_readwrite/.def_readonly call."""

    def __init__(self):
        self.kind = self.name = self.doc = None
        self.target = None          # ('ptr', fn-pointer type, &name) | ('lambda', Lambda) | ('init', types) | ('initf', [Lambda]) | ('member', name)
        self.args, self.policies, self.guards, self.other = [], [], [], []

    def __repr__(self):
        return "%s %r %r args=%r pol=%r guard=%r" % (self.kind, self.name, self.target, self.args, self.policies, self.guards)

    def sig(self):
        t = self.target
        return (self.kind, self.name, repr(t), self.doc, tuple(self.args), tuple(self.policies), tuple(self.guards), tuple(self.other))

    @property
    def arity(self):
        """Number of parameters, not counting the object."""
        t = self.target
        if t[0] == "init":
            return len(t[1])
        if t[0] == "initf":
            return len(t[1][0].params)
        if t[0] == "ptr":
            return t[3]
        if t[0] == "lambda":
            return len(t[1].params) - (1 if self.kind == "def" and self.owner == "class" else 0)
        return 0


class Enum:
    def __init__(self):
        self.scope = self.type = self.name = self.doc = None
        self.values, self.export, self.extras = [], False, []


class Class:
    def __init__(self):
        self.scope = self.type = self.name = self.doc = None
        self.args, self.extras, self.defs, self.enums, self.nested, self.calls, self.macros = [], [], [], [], [], [], []
        self.parent = None
        self.file = None

    def all(self):
        yield self
        for n in self.nested:
            yield from n.all()

    def init(self):
        return [d for d in self.defs if d.target and d.target[0] in ("init", "initf")]

    def named(self, n):
        return [d for d in self.defs if d.name == n]


class File:
    def __init__(self, name):
        self.name = name
        self.includes, self.events, self.tramps, self.funcs, self.macros, self.decls = [], [], {}, [], [], []
        self.text = ""
        self.module = None
        self.tramp_list = []


class Output:
    def __init__(self):
        self.files = {}
        self.order = []
        self.root = None
        self.decls, self.calls, self.submodules = [], [], []
        self.module_name = None
        self.sources = self.modules = None

    def events(self):
        """Registrations in the order in which importing the module performs them."""
        by = {}
        for f in self.files.values():
            for n, ev in f.funcs:
                by.setdefault(n, []).append(ev)
        for c in self.calls:
            for ev in by.get(c, [[]])[0]:
                yield ev

    def classes(self, top=False):
        for ev in self.events():
            if isinstance(ev, Class):
                if top:
                    yield ev
                else:
                    yield from ev.all()

    def cls(self, t):
        t = tnorm(t)
        r = [c for c in self.classes() if tnorm(c.type) == t]
        return r[0] if r else None

    def functions(self, ns=None):
        return [d for n, d in self.fdefs() if ns is None or n == ns]

    def fdefs(self):
        for ev in self.events():
            if isinstance(ev, tuple) and ev[0] == "fn":
                yield ev[1], ev[2]

    def enums(self):
        for ev in self.events():
            if isinstance(ev, Enum):
                yield ev
            elif isinstance(ev, Class):
                for c in ev.all():
                    yield from c.enums


def parse_lambda(toks):
    # [] ( params ) [-> ret] { body }
    if not toks or toks[0][1] != "[":
        return None
    j = close(toks, 0)
    i = j + 1
    params = []
    if i < len(toks) and toks[i][1] == "(":
        j = close(toks, i)
        params = [join(p) for p in split_args(toks[i + 1:j])]
        i = j + 1
    ret = None
    b = i
    while b < len(toks) and not (toks[b] == ("op", "{")):
        b += 1
    if b == len(toks):
        return None
    mid = toks[i:b]
    if mid and mid[0][1] == "->":
        ret = join(mid[1:])
    e = close(toks, b)
    if e != len(toks) - 1:
        return None
    return Lambda(params, ret, join(toks[b + 1:e]))


def fn_ptr(toks):
    """( R (C::*)(args) const ) &name  ->  ('ptr', type text, name text, number of arguments, [argument types], return type)"""
    if toks and toks[0] == ("op", "("):
        j = close(toks, 0)
        typ = toks[1:j]
        rest = toks[j + 1:]
        if rest and rest[0][1] == "&":
            # find the "(... *)" group: the first parenthesis whose content ends with *
            i = 0
            while i < len(typ):
                if typ[i] == ("op", "<"):
                    try:
                        i = close_angle(typ, i) + 1
                        continue
                    except ParseError:
                        pass
                if typ[i] == ("op", "("):
                    e = close(typ, i)
                    if typ[e - 1][1] == "*" and e + 1 < len(typ) and typ[e + 1][1] == "(":
                        a = close(typ, e + 1)
                        args = [join(x) for x in split_args(typ[e + 2:a])]
                        return ("ptr", join(typ), join(rest[1:]), len(args), args, join(typ[:i]), join(typ[a + 1:]))
                    i = e
                i += 1
    return None


def parse_def(kind, toks, owner):
    """toks: the tokens between the parentheses of .def( ... )"""
    d = Def()
    d.kind, d.owner = kind, owner
    parts = split_args(toks)
    # a function pointer type may hold operator< and the like; angle brackets inside parentheses are not split, so
    # only a top-level '<' can mislead us: retry without them when nothing sensible came out
    if not parts:
        raise ParseError("empty def")
    if kind in ("def_readwrite", "def_readonly", "def_readwrite_static", "def_readonly_static"):
        d.name = unquote(parts[0][0][1])
        d.target = ("member", join(parts[1][1:]) if parts[1][0][1] == "&" else join(parts[1]))
        d.other = [join(p) for p in parts[2:]]
        return d
    rest = parts
    if parts[0][0][0] in ("str", "raw"):
        d.name = unquote(parts[0][0][1])
        t = parts[1]
        lam = parse_lambda(t)
        if lam:
            d.target = ("lambda", lam)
        else:
            p = fn_ptr(t)
            d.target = p if p else ("expr", join(t))
        rest = parts[2:]
    else:
        t = join(parts[0])
        tk = parts[0]
        if t.startswith("pybind11::init<"):
            e = close_angle(tk, 3)
            d.name = "__init__"
            d.target = ("init", [join(x) for x in split_args(tk[4:e])])
        elif t.startswith("pybind11::init("):
            e = close(tk, 3)
            d.name = "__init__"
            lams = [parse_lambda(x) for x in split_args(tk[4:e])]
            if None in lams:
                raise ParseError("init factory: " + t)
            d.target = ("initf", lams)
        else:
            d.target = ("expr", t)
        rest = parts[1:]
    for p in rest:
        t = join(p)
        if p[0][0] in ("str", "raw"):
            d.doc = (d.doc or "") + "".join(unquote(x[1]) for x in p if x[0] in ("str", "raw"))
        elif t.startswith("pybind11::arg("):
            d.args.append(unquote(p[4][1]))
        elif "return_value_policy" in t:
            d.policies.append(t)
        elif t.startswith("pybind11::call_guard<"):
            d.guards.append(t[len("pybind11::call_guard<"):t.rindex(">")])
        else:
            d.other.append(t)
    return d


def statements(toks):
    """Splits a block body: ('block', toks) for { } statements, ('stmt', toks) otherwise."""
    i, cur = 0, []
    while i < len(toks):
        k, t = toks[i]
        if k == "pp":
            if not cur:
                i += 1
                continue
        if k == "op" and t == "{" and not cur:
            j = close(toks, i)
            yield "block", toks[i + 1:j]
            i = j + 1
            continue
        if k == "op" and t in OPEN:
            j = close(toks, i)
            cur += toks[i:j + 1]
            i = j + 1
            continue
        if k == "op" and t == ";":
            if cur:
                yield "stmt", cur
            cur = []
            i += 1
            continue
        cur.append((k, t))
        i += 1
    if cur:
        yield "stmt", cur


def chain(toks):
    """obj.a(...).b(...): -> (prefix tokens, [(method, argument tokens)])"""
    i = len(toks)
    calls = []
    while i > 0 and toks[i - 1] == ("op", ")"):
        # matching (
        d = 0
        j = i - 1
        while j >= 0:
            if toks[j][0] == "op" and toks[j][1] in (")", "]", "}"):
                d += 1
            elif toks[j][0] == "op" and toks[j][1] in ("(", "[", "{"):
                d -= 1
                if d == 0:
                    break
            j -= 1
        if j < 2 or toks[j - 1][0] != "id" or toks[j - 2] != ("op", "."):
            break
        calls.insert(0, (toks[j - 1][1], toks[j + 1:i - 1]))
        i = j - 2
    return toks[:i], calls


def parse_scope(toks):
    t = join(toks)
    m = re.fullmatch(r'M\((".*")\)', t)
    if m:
        return ("M", unquote(m[1]))
    return ("var", t)


def parse_enum(toks, calls):
    # pybind11::enum_<E>(scope, "name", ..., "doc")
    e = Enum()
    a = close_angle(toks, 3)
    e.type = join(toks[4:a])
    b = close(toks, a + 1)
    parts = split_args(toks[a + 2:b])
    e.scope = parse_scope(parts[0])
    e.name = unquote(parts[1][0][1])
    for p in parts[2:]:
        if p[0][0] in ("str", "raw"):
            e.doc = unquote(p[0][1])
        else:
            e.extras.append(join(p))
    for n, c in calls:
        if n == "value":
            ps = split_args(c)
            e.values.append((unquote(ps[0][0][1]), join(ps[1]), "".join(unquote(x[1]) for x in ps[2] if x[0] == "str") if len(ps) > 2 else None))
        elif n == "export_values":
            e.export = True
        else:
            e.extras.append(n)
    return e


MACRO = re.compile(r"[A-Z][A-Z0-9_]+$")


def strip_macros(toks, sink):
    """PYBIND11_TYPE_CASTER_BASE_HOLDER(...) has no semicolon of its own."""
    while len(toks) > 2 and toks[0][0] == "id" and toks[0][1].startswith("PYBIND11_") and toks[1] == ("op", "(") and toks[0][1] not in ("PYBIND11_MODULE", ):
        j = close(toks, 1)
        sink.append((toks[0][1], [join(x) for x in split_args(toks[2:j])]))
        toks = toks[j + 1:]
    return toks


def parse_body(toks, cl, fname):
    """Events of a function body (cl None) or of a class block (cl: list holding the Class being built)."""
    events = []
    for kind, st in statements(toks):
        if kind == "block":
            sub = parse_body(st, [None], fname)
            cs = [x for x in sub if isinstance(x, Class)]
            if cl is not None and cl[0] is not None:
                for c in cs:
                    c.parent = cl[0]
                    cl[0].nested.append(c)
                for x in sub:
                    if isinstance(x, Enum):
                        cl[0].enums.append(x)
                    elif isinstance(x, tuple):
                        # members of an anonymous struct/union belong to the enclosing class
                        if x[0] == "member":
                            cl[0].defs.append(x[1])
                        else:
                            cl[0].calls.append(x)
            else:
                events += sub
            continue
        macros = []
        st = strip_macros(st, macros)
        if not st:
            for m in macros:
                events.append(("macro",) + m)
            continue
        text = join(st)
        if text.startswith("pybind11::class_<"):
            a = close_angle(st, 3)
            c = Class()
            c.file = fname
            c.macros = macros
            parts = split_args(st[4:a])
            c.type = join(parts[0])
            c.args = [join(p) for p in parts[1:]]
            i = a + 1
            if st[i][0] == "id":
                i += 1
            b = close(st, i)
            ps = split_args(st[i + 1:b])
            c.scope = parse_scope(ps[0])
            c.name = unquote(ps[1][0][1])
            for p in ps[2:]:
                if p[0][0] in ("str", "raw"):
                    c.doc = (c.doc or "") + "".join(unquote(x[1]) for x in p)
                else:
                    c.extras.append(join(p))
            if cl is not None and cl[0] is None:
                cl[0] = c
            events.append(c)
            continue
        for m in macros:
            events.append(("macro",) + m)
        if text.startswith("pybind11::enum_<"):
            head, calls = chain(st)
            e = parse_enum(head, calls)
            e.file = fname
            if cl is not None and cl[0] is not None:
                cl[0].enums.append(e)
            else:
                events.append(e)
            continue
        head, calls = chain(st)
        h = join(head)
        if calls and h == "cl":
            for n, a in calls:
                d = parse_def(n, a, "class")
                if cl is not None and cl[0] is not None:
                    cl[0].defs.append(d)
                else:
                    events.append(("member", d))
            continue
        m = re.fullmatch(r'M\((".*")\)', h)
        if calls and m:
            for n, a in calls:
                d = parse_def(n, a, "module")
                events.append(("fn", unquote(m[1]), d))
            continue
        if text.startswith("auto &enclosing_class") or text.startswith("auto & enclosing_class"):
            continue
        if text.startswith("std::cout"):
            events.append(("trace", text))
            continue
        m = re.fullmatch(r"([\w:]+(?:<.*>)?)\((.*)\)", text, re.S)
        if m:
            args = [x.strip() for x in [join(p) for p in split_args(st[len(tokens(m[1])) + 1:-1])]]
            ev = ("call", norm(m[1]), args)
            if cl is not None and cl[0] is not None:
                cl[0].calls.append(ev)
            else:
                events.append(ev)
            continue
        events.append(("other", text))
    return events


class Tramp:
    def __init__(self, name, base):
        self.name, self.base = name, base
        self.methods, self.usings = [], []


def parse_struct(toks):
    # struct N : public B { ... }
    i = 0
    while toks[i] != ("op", "{"):
        i += 1
    head = toks[:i]
    j = close(toks, i)
    name = head[1][1]
    base = ""
    if len(head) > 2 and head[2][1] == ":":
        base = join([t for t in head[3:] if t[1] not in ("public",)])
    t = Tramp(name, base)
    body = toks[i + 1:j]
    k = 0
    cur = []
    while k < len(body):
        if body[k] == ("op", ";"):
            if cur and cur[0][1] == "using":
                t.usings.append(join(cur[1:]))
            cur = []
        elif body[k] == ("op", "("):
            # parameters of a method unless this is operator()
            e = close(body, k)
            if cur and cur[-1][1] == "operator":
                cur += body[k:e + 1]
                k = e + 1
                continue
            # a '(' right after a name is the parameter list; otherwise part of the return type (function pointer)
            params = split_args(body[k + 1:e])
            n = e + 1
            quals = []
            while n < len(body) and body[n] != ("op", "{") and body[n] != ("op", ";"):
                if body[n] == ("op", "("):
                    ee = close(body, n)
                    quals.append(join(body[n:ee + 1]))
                    n = ee + 1
                    continue
                quals.append(body[n][1])
                n += 1
            if n < len(body) and body[n] == ("op", "{"):
                ee = close(body, n)
                # name: last identifier, or operator...
                ops = [x for x, tt in enumerate(cur) if tt[1] == "operator"]
                ni = ops[-1] if ops else len(cur) - 1
                t.methods.append({"name": join(cur[ni:]), "ret": join(cur[:ni]), "params": [join(p) for p in params], "quals": quals,
                                  "body": join(body[n + 1:ee])})
                cur = []
                k = ee + 1
                continue
            cur += body[k:e + 1]
            k = e + 1
            continue
        else:
            cur.append(body[k])
        k += 1
    return t


def parse_file(name, text):
    f = File(name)
    f.text = text
    toks = tokens(text)
    for k, t in toks:
        if k == "pp":
            m = re.match(r"\s*#\s*include\s*([<\"][^>\"]*[>\"])", t)
            if m:
                f.includes.append(m[1])
    toks = [x for x in toks if x[0] != "pp"]
    i = 0
    while i < len(toks):
        k, t = toks[i]
        if t == "struct":
            j = i
            while toks[j][1] not in ("{", ";"):
                j += 1
            if toks[j][1] == "{":
                e = close(toks, j)
                tr = parse_struct(toks[i:e + 1])
                f.tramps[tr.name] = tr
                f.tramp_list.append(tr)
                i = e + 1
                continue
            i = j + 1
            continue
        if t == "void" and toks[i + 1][0] == "id" and toks[i + 2][1] == "(":
            e = close(toks, i + 2)
            if toks[e + 1][1] == ";":
                f.decls.append(toks[i + 1][1])
                i = e + 2
                continue
            if toks[e + 1][1] == "{":
                b = close(toks, e + 1)
                f.funcs.append((toks[i + 1][1], parse_body(toks[e + 2:b], None, name)))
                i = b + 1
                continue
        if t == "PYBIND11_MODULE":
            e = close(toks, i + 1)
            b = close(toks, e + 1)
            f.module = (toks[i + 2][1], toks[e + 2:b])
            i = b + 1
            continue
        if k == "id" and t.startswith("PYBIND11_") and toks[i + 1][1] == "(":
            e = close(toks, i + 1)
            f.macros.append((t, [join(x) for x in split_args(toks[i + 2:e])]))
            i = e + 1
            continue
        if t == "using" or t == "typedef":
            while toks[i][1] != ";":
                if toks[i][1] in OPEN:
                    i = close(toks, i)
                i += 1
            i += 1
            continue
        if t == ";":
            i += 1
            continue
        raise ParseError("%s: unexpected top-level code: %s" % (name, join(toks[i:i + 30])))
    return f


def parse_module(toks, out):
    sub = None
    for i in range(len(toks) - 1):
        if toks[i] == ("id", "sub_modules") and toks[i + 1] == ("op", "{"):
            e = close(toks, i + 1)
            sub = []
            for p in split_args(toks[i + 2:e]):
                if p:
                    xs = split_args(p[1:-1])
                    sub.append((unquote(xs[0][0][1]), unquote(xs[1][0][1])))
            break
    out.submodules = sub if sub is not None else []
    for kind, st in statements(toks):
        if kind == "stmt":
            m = re.fullmatch(r"(\w+)\(M\)", join(st))
            if m:
                out.calls.append(m[1])


def parse_output(files, root):
    """files: relative name -> text of everything binder wrote."""
    out = Output()
    rn = root + ".cpp"
    if rn not in files:
        raise ParseError("no root module file " + rn)
    text = files[rn]
    secs = re.split(r"^// File: (.*)\n", text, flags=re.M)
    cpp = {}
    if len(secs) > 1:
        for n, body in zip(secs[1::2], secs[2::2]):
            if n in cpp:
                raise ParseError("section %s appears twice" % n)
            cpp[n] = body
        last = secs[-2]
        m = re.search(r"^#include <map>\n#include <algorithm>", cpp[last], re.M)
        cut = m.start() if m else cpp[last].index("using ModuleGetter")
        root_text = cpp[last][cut:]
        cpp[last] = cpp[last][:cut]
        cpp = {"<root>": root_text, **cpp}
    else:
        cpp = {n: t for n, t in files.items() if n.endswith(".cpp")}
    if not any(n.endswith(".sources") for n in files):
        m = re.search(r"^// Source list file: .*\n((?:// .*\n)*)", text, re.M)
        out.sources = [x[3:] for x in m[1].splitlines()] if m else None
        m = re.search(r"^// Modules list file: .*\n// ?(.*)$", text, re.M)
        out.modules = m[1].split() if m else None
    else:
        out.sources = files.get(root + ".sources", "").splitlines()
        out.modules = files.get(root + ".modules", "").split()
    for n, t in cpp.items():
        f = parse_file(n, t)
        out.files[n] = f
        if f.module:
            if out.root:
                raise ParseError("two module definitions")
            out.root = f
            out.module_name = f.module[0]
            out.decls = f.decls
            parse_module(f.module[1], out)
    if not out.root:
        raise ParseError("no module definition")
    return out
