"""Reference model: which entities of a small C++ program binder has to register, given its directives.

The model is written from the documentation (config.rst, options) and is independent of binder's code. A program is a
list of Cls/Fn/Enm records; render() turns it into a header, expect() computes the registrations as a least fixpoint
(what was asked for, plus everything a bound signature or a base clause needs, minus what was excluded)."""
import re
from .parse import tnorm, norm


class Fn:
    def __init__(self, name, ret="void", params=(), pre="", body=None, quals="", spell=None):
        self.name, self.ret, self.params, self.pre, self.body, self.quals = name, ret, list(params), pre, body, quals
        self.owner = ""
        self.spell = spell          # parameter types as directives have to spell them

    @property
    def q(self):
        return (self.owner + "::" if self.owner else "") + self.name

    def sig(self):
        return (self.q + "(" + ",".join(self.spell or self.params) + ")" + (self.quals if "const" in self.quals else "")).replace(" ", "")

    def types(self):
        return [self.ret] + self.params


class Enm:
    def __init__(self, name, values=("a",), scoped=False):
        self.name, self.values, self.scoped = name, values, scoped
        self.owner = ""

    @property
    def q(self):
        return (self.owner + "::" if self.owner else "") + self.name


class Cls:
    """spec: template arguments as text ('' for an ordinary class); tdeps: class types among them."""

    def __init__(self, name, bases=(), ctors=None, methods=(), fields=(), nested=(), enums=(), spec="", tdeps=(), raw=None, key="struct", fwd=False, vbases=()):
        self.name, self.bases, self.ctors, self.methods = name, list(bases), ctors, list(methods)
        self.fields, self.nested, self.enums = list(fields), list(nested), list(enums)
        self.spec, self.tdeps, self.raw, self.key, self.fwd, self.vbases = spec, list(tdeps), raw, key, fwd, set(vbases)
        self.owner = ""
        self.outer = None

    @property
    def q(self):
        return (self.owner + "::" if self.owner else "") + self.name

    @property
    def full(self):
        return self.q + self.spec

    def ctor_fns(self):
        r = []
        for p in self.ctors or ():
            f = Fn(self.name, "", p)
            f.owner = self.full
            r.append(f)
        return r


def strip(t):
    """Class or enum a type refers to through pointers, references and const."""
    t = re.sub(r"\b(const|struct|class|enum)\b", "", t)
    return t.replace("&", "").replace("*", "").replace(" ", "")


class Program:
    def __init__(self, items):
        """items: [(namespace, entity)] in order of declaration."""
        self.items = items
        self.classes, self.enums, self.fns = {}, {}, []
        self.all_classes = {}
        for ns, e in items:
            if isinstance(e, str):
                continue
            e.owner = ns
            e.ns = ns
            if isinstance(e, Cls):
                self.classes[e.full.replace(" ", "")] = e
                self._members(e, ns)
            elif isinstance(e, Enm):
                self.enums[e.q] = e
            elif isinstance(e, Fn):
                self.fns.append(e)

    def _members(self, c, ns):
        self.all_classes[c.full.replace(" ", "")] = c
        c.ns = ns
        for m in c.methods:
            m.owner = c.full
            m.cq = c.q
        for e in c.enums:
            e.owner = c.full
            e.ns = ns
        for n in c.nested:
            n.owner = c.full
            n.outer = c
            self._members(n, ns)

    # -- rendering -----------------------------------------------------------------------------------------------
    def cls_text(self, c, ind="", name=None):
        if c.raw is not None:
            return c.raw
        if c.fwd:
            return "%s%s %s;\n" % (ind, c.key, c.name)
        t = "%s%s %s%s {\n" % (ind, c.key, name or c.name, (" : " + ", ".join("public " + ("virtual " if b in c.vbases else "") + "::" + b for b in c.bases)) if c.bases else "")
        if c.key == "class":
            t += "public:\n"
        for e in c.enums:
            t += ind + "\tenum %s%s { %s };\n" % ("class " if e.scoped else "", e.name, ", ".join(e.values))
        for n in c.nested:
            t += self.cls_text(n, ind + "\t")
        for p in c.ctors or ():
            t += ind + "\t%s(%s);\n" % (c.name, ", ".join("::" + x if x[0].islower() and "::" in x.split("<")[0].split(" ")[0] else x for x in p))
        for m in c.methods:
            t += ind + "\t%s%s %s(%s)%s;\n" % (m.pre + " " if m.pre else "", m.ret, m.name, ", ".join(m.params), (" " + m.quals) if m.quals else "")
        for f in c.fields:
            t += ind + "\t%s %s;\n" % f
        return t + ind + "};\n"

    def render(self):
        out = ""
        for ns, e in self.items:
            if isinstance(e, Cls):
                b = self.cls_text(e)
            elif isinstance(e, Enm):
                b = "enum %s%s { %s };\n" % ("class " if e.scoped else "", e.name, ", ".join(e.values))
            elif isinstance(e, Fn):
                b = "%s%s %s(%s)%s\n" % (e.pre + " " if e.pre else "", e.ret, e.name, ", ".join(e.params), " " + e.body if e.body else ";")
            else:
                b = e
            out += "namespace %s {\n%s}\n" % (ns, b) if ns else b
        return out


class Directives:
    def __init__(self, lines, templates=True):
        """lines: config lines; all of '+x y' / '-x y'."""
        self.d = {}
        self.templates = templates
        for l in lines:
            k, v = l.split(" ", 1)
            self.d.setdefault(k, set()).add(v.replace(" ", ""))

    def has(self, kind, name):
        return name.replace(" ", "") in self.d.get(kind, ())

    def ns(self, n):
        def best(rules):
            b = -1
            for r in rules:
                if r == "" or n == r or n.startswith(r + "::"):
                    b = max(b, len(r))
            return b
        b, s = best(self.d.get("+namespace", ())), best(self.d.get("-namespace", ()))
        return "bind" if b > s else "skip" if s > b else None


class Expect:
    def __init__(self, p, d):
        self.p, self.d = p, d
        self.bound_c, self.bound_e, self.bound_f = set(), set(), []
        self.run()

    # excluded?
    def enclosing(self, c):
        while c is not None:
            yield c
            c = c.outer

    def class_asked(self, c):
        return self.d.has("+class", c.full) or self.d.has("+class", c.q)

    def member_of_asked(self, c):
        return any(self.class_asked(x) for x in self.enclosing(c) if x is not None)

    def skip_class(self, c):
        d = self.d
        if d.has("-class", c.full):
            return True
        if d.has("+class", c.full):
            return False
        if d.has("-class", c.q):
            return True
        if d.has("+class", c.q):
            return False
        if d.ns(c.ns) == "skip" and not (c.outer is not None and self.member_of_asked(c.outer)):
            return True
        return any(self.skip_type(t) for t in c.tdeps)

    def skip_type(self, t):
        c = self.p.all_classes.get(strip(t))
        return c is not None and self.skip_class(c)

    def ask_type(self, t):
        c = self.p.all_classes.get(strip(t))
        return c is not None and self.ask_class(c)

    def ask_class(self, c):
        if self.class_asked(c):
            return True
        if c.spec and not self.d.templates:
            return False
        return self.d.ns(c.ns) == "bind" and not any(self.skip_type(t) for t in c.tdeps)

    def builtin(self, c):
        return self.d.has("+python_builtin", c.q) and not self.d.has("-python_builtin", c.q)

    def skip_fn(self, f, c=None):
        d = self.d
        names = [f.q] + ([c.q + "::" + f.name] if c is not None and c.spec else [])
        if d.has("-function", f.sig()):
            return True
        if d.has("+function", f.sig()):
            return False
        if any(d.has("-function", n) for n in names):
            return True
        if any(d.has("+function", n) for n in names):
            return False
        ns = c.ns if c is not None else f.ns
        if d.ns(ns) == "skip" and not (c is not None and self.member_of_asked(c)):
            return True
        return any(self.skip_type(t) for t in f.types())

    def ask_fn(self, f):
        return self.d.has("+function", f.sig()) or self.d.has("+function", f.q) or self.d.ns(f.ns) == "bind" or any(self.ask_type(t) for t in f.types())

    def skip_enum(self, e, c=None):
        if self.d.has("-enum", e.q):
            return True
        if self.d.has("+enum", e.q):
            return False
        return self.d.ns(e.ns) == "skip" and not (c is not None and self.member_of_asked(c))

    def nested_in(self, c):
        return [n for n in c.nested if not self.d.has("-class", n.full) and not self.d.has("-class", n.q)]

    def bases_of(self, c):
        r = []
        for b in c.bases:
            x = self.p.all_classes.get(b.replace(" ", ""))
            if x is not None and not any(self.skip_class(y) for y in self.enclosing(x)):
                r.append(x)
        return r

    def methods_of(self, c):
        return [m for m in c.methods if not self.skip_fn(m, c)]

    def ctors_of(self, c):
        return [f for f in c.ctor_fns() if not self.skip_fn(f, c)]

    def run(self):
        p = self.p
        todo = []

        def want_class(c):
            while c.outer is not None:
                return          # nested classes come with their outermost class
            if c.full in self.bound_c or self.skip_class(c) or self.builtin(c) or c.fwd:
                return
            self.bound_c.add(c.full)
            todo.append(c)

        def want_type(t):
            s = strip(t)
            if s in p.all_classes and not self.skip_class(p.all_classes[s]):
                want_class(p.all_classes[s])
            if s in p.enums and not self.skip_enum(p.enums[s]):
                self.bound_e.add(s)
        for c in p.classes.values():
            if not self.skip_class(c) and self.ask_class(c):
                want_class(c)
        for e in p.enums.values():
            if not self.skip_enum(e) and (self.d.has("+enum", e.q) or self.d.ns(e.ns) == "bind"):
                self.bound_e.add(e.q)
        for f in p.fns:
            if not self.skip_fn(f) and self.ask_fn(f):
                self.bound_f.append(f)
                for t in f.types():
                    want_type(t)
        while todo:
            c = todo.pop()
            for x in self.walk(c):
                for b in self.bases_of(x):
                    y = b
                    while y.outer is not None:
                        y = y.outer
                    want_class(y)
                for f in self.ctors_of(x) + self.methods_of(x):
                    for t in f.types():
                        want_type(t)

    def walk(self, c):
        yield c
        for n in self.nested_in(c):
            yield from self.walk(n)

    # -- comparable form -----------------------------------------------------------------------------------------
    def facts(self):
        r = []
        for q in self.bound_c:
            for c in self.walk(self.p.classes[q.replace(" ", "")]):
                n = tnorm(c.full)
                r.append(("class", n, tuple(sorted(tnorm(b.full) for b in self.bases_of(c)))))
                for m in self.methods_of(c):
                    r.append(("method", n, m.name, tuple(tnorm(x) for x in m.params)))
                if c.ctors is not None:
                    for m in self.ctors_of(c):
                        r.append(("ctor", n, tuple(tnorm(x) for x in m.params)))
                for t, f in c.fields:
                    if not self.d.has("-field", c.full + "::" + f):
                        r.append(("field", n, f))
                for e in c.enums:
                    if not self.skip_enum(e, c):
                        r.append(("enum", tnorm(e.q)))
        r += [("enum", tnorm(e)) for e in self.bound_e]
        r += [("fn", f.ns, f.name, tuple(tnorm(x) for x in f.params)) for f in self.bound_f]
        return r


def facts(m, implicit=("assign",)):
    """The same facts read back from what binder wrote. Implicit members (operator=) are left out."""
    r = []
    for c in m.classes():
        n = tnorm(c.type)
        tr = set()
        for f in m.files.values():
            tr |= set(f.tramps)
        bases = [tnorm(a) for a in c.args if a not in tr and not re.match(r"(std::shared_ptr|std::unique_ptr)<", a) and tnorm(a) != n + " *"]
        r.append(("class", n, tuple(sorted(bases))))
        for d in c.defs:
            if d.target[0] == "member":
                r.append(("field", n, d.name))
            elif d.target[0] == "init":
                r.append(("ctor", n, tuple(tnorm(x) for x in d.target[1])))
            elif d.target[0] == "initf":
                r.append(("ctor", n, tuple(tnorm(re.sub(r"\w+$", "", x)) for x in d.target[1][0].params)))
            elif d.name in implicit:
                continue
            elif d.target[0] == "ptr":
                r.append(("method", n, d.name, tuple(tnorm(x) for x in d.target[4])))
            else:
                r.append(("method", n, d.name, "lambda"))
    for e in m.enums():
        r.append(("enum", tnorm(e.type)))
    for ns, d in m.fdefs():
        r.append(("fn", ns, d.name, tuple(tnorm(x) for x in d.target[4]) if d.target[0] == "ptr" else "lambda"))
    return r
