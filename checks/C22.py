"""C22: ownership of objects shared between Python and C++.

Stateless exploration of histories on compiled modules: every sequence of operations up to the bound (create in Python, by C++, by a Python subclass, by value; hand to C++, get back,
let go on either side, take from inside with shared_from_this, take a member of an object) is executed, and after each operation the number of objects that are alive, their identity and
which of them each variable names is compared with a reference model (who holds whom).
"""
import json

from common import *

PRE = r"""#pragma once
#include <memory>
#include <string>
#include <vector>
namespace n {
inline int &next() { static int i = 0; return i; }
inline void restart() { next() = 0; }
"""
# counting part of a class @C
CNT = "int id; static int &count() { static int c = 0; return c; } int who() const { return id; } "
CTOR = "@C() : id(++next()) { ++count(); } @C(@C const &) : id(++next()) { ++count(); } "
# kind -> (text; @C is the class, @B another name to use for bases, python class, base class name or None, features)
# features: v: returned by value, e: shared_from_this, d: may be derived from in Python and has virtual f, n: destructor not public, b: put into a holder of the base as well
KINDS = {
    "plain": ("struct @C { " + CNT + CTOR + "~@C() { --count(); } };", "v"),
    "virtual": ("struct @C { " + CNT + CTOR + "virtual ~@C() { --count(); } virtual int f() const { return 1; } };", "vd"),
    "only virtual function": ("struct @C { " + CNT + CTOR + "~@C() { --count(); } virtual int f() const { return 1; } };", "vd"),
    "derived": ("struct @B { int q = 0; virtual ~@B() {} virtual int g() const { return 5; } }; struct @C : public @B { " + CNT + CTOR + "~@C() { --count(); } int g() const override { return 6; } };", "vb"),
    "derived, plain": ("struct @B { int q = 0; int g() const { return 6; } }; struct @C : public @B { " + CNT + CTOR + "~@C() { --count(); } };", "v"),   # not polymorphic: a holder of the base gives back a base
    "second base": ("struct @A { int z = 3; virtual ~@A() {} }; struct @B { int q = 0; virtual ~@B() {} virtual int g() const { return 5; } }; struct @C : public @A, public @B { " + CNT + CTOR + "~@C() { --count(); } int g() const override { return 6; } };", "vb"),
    "virtual base": ("struct @B { int q = 0; virtual ~@B() {} virtual int g() const { return 5; } }; struct @C : virtual public @B { " + CNT + CTOR + "~@C() { --count(); } int g() const override { return 6; } };", "vb"),
    "shared from this": ("struct @C : public std::enable_shared_from_this<@C> { " + CNT + CTOR + "~@C() { --count(); } std::shared_ptr<@C> me() { return shared_from_this(); } };", "ve"),
    "shared from this, virtual": ("struct @C : public std::enable_shared_from_this<@C> { " + CNT + CTOR + "virtual ~@C() { --count(); } virtual int f() const { return 1; } std::shared_ptr<@C> me() { return shared_from_this(); } };", "ved"),
    "base is shared from this": ("struct @B : public std::enable_shared_from_this<@B> { virtual ~@B() {} virtual int g() const { return 5; } }; struct @C : public @B { " + CNT + CTOR + "~@C() { --count(); } int g() const override { return 6; } std::shared_ptr<@C> me() { return std::static_pointer_cast<@C>(shared_from_this()); } };", "veb"),
    "second base is shared from this": ("struct @A { int z = 4; virtual ~@A() {} }; struct @B : public std::enable_shared_from_this<@B> { virtual ~@B() {} virtual int g() const { return 5; } }; struct @C : public @A, public @B { " + CNT + CTOR + "~@C() { --count(); } int g() const override { return 6; } std::shared_ptr<@C> me() { return std::static_pointer_cast<@C>(shared_from_this()); } };", "veb"),
    "template": ("template<class T> struct @T { T t; " + CNT.replace("@C", "@T") + CTOR.replace("@C", "@T") + "~@T() { --count(); } }; typedef @T<int> @C;", "vt"),
    "template, shared from this": ("template<class T> struct @T : public std::enable_shared_from_this<@T<T>> { T t; " + CNT.replace("@C", "@T") + CTOR.replace("@C", "@T") + "~@T() { --count(); } std::shared_ptr<@T<T>> me() { return this->shared_from_this(); } }; typedef @T<int> @C;", "vte"),
    "nested": ("struct @O { struct @C { " + CNT + CTOR + "~@C() { --count(); } }; }; typedef @O::@C @Q;", "vo"),
    "no copy": ("struct @C { " + CNT + "@C() : id(++next()) { ++count(); } @C(@C const &) = delete; ~@C() { --count(); } };", ""),
    "move only": ("struct @C { " + CNT + "@C() : id(++next()) { ++count(); } @C(@C &&o) : id(++next()) { ++count(); } ~@C() { --count(); } };", "v"),
    "abstract": ("struct @C { " + CNT + CTOR + "virtual ~@C() { --count(); } virtual int f() const = 0; }; struct @CI : @C { int f() const override { return 1; } };", "da"),
    "abstract, shared from this": ("struct @C : public std::enable_shared_from_this<@C> { " + CNT + CTOR + "virtual ~@C() { --count(); } virtual int f() const = 0; std::shared_ptr<@C> me() { return shared_from_this(); } }; struct @CI : @C { int f() const override { return 1; } };", "dae"),
    "private destructor": ("struct @C { " + CNT + CTOR + "static void destroy(@C *c) { delete c; } private: ~@C() { --count(); } };", "n"),
    "protected destructor": ("struct @C { " + CNT + CTOR + "static void destroy(@C *c) { delete c; } protected: ~@C() { --count(); } };", "n"),
    "protected virtual destructor": ("struct @C { " + CNT + CTOR + "virtual int f() const { return 1; } static void destroy(@C *c) { delete c; } protected: virtual ~@C() { --count(); } };", "n"),
    "shared from this, protected destructor": ("struct @C : public std::enable_shared_from_this<@C> { " + CNT + CTOR + "static void destroy(@C *c) { delete c; } protected: ~@C() { --count(); } };", "n"),
    "template with private destructor": ("template<class T> struct @T { T t; " + CNT.replace("@C", "@T") + CTOR.replace("@C", "@T") + "static void destroy(@T *c) { delete c; } private: ~@T() { --count(); } }; typedef @T<int> @C;", "nt"),
}


def name(i):
    return "K%d" % i


def text(i, kind):
    t, feat = KINDS[kind]
    C = name(i)
    for a, b in (("@C", C), ("@B", "B%d" % i), ("@A", "A%d" % i), ("@T", "T%d" % i), ("@O", "O%d" % i), ("@Q", C)):
        t = t.replace(a, b)
    if "o" in feat:
        t = t.replace("typedef O%d::%s %s;" % (i, C, C), "typedef O%d::%s Q%d;" % (i, C, i))
        C = "Q%d" % i
    if "t" in feat:
        pyc = "T%d_int_t" % i
    elif "o" in feat:
        pyc = "O%d.K%d" % (i, i)
    else:
        pyc = name(i)
    f = "inline int live%d() { return %s::count(); }\n" % (i, C)
    if "n" in feat:
        f += "inline std::vector<{C} *> &store{i}_() {{ static std::vector<{C} *> s; return s; }}\n".format(C=C, i=i)
        f += "inline {C} *inst{i}() {{ store{i}_().push_back(new {C}()); return store{i}_().back(); }}\n".format(C=C, i=i)
        f += "inline {C} *again{i}() {{ return store{i}_().empty() ? nullptr : store{i}_().back(); }}\n".format(C=C, i=i)
        f += "inline int use{i}({C} const &c) {{ return c.id; }}\ninline void end{i}() {{ for( auto c : store{i}_() ) {C}::destroy(c); store{i}_().clear(); }}\n".format(C=C, i=i)
    else:
        f += "inline std::shared_ptr<{C}> &slot{i}_() {{ static std::shared_ptr<{C}> s; return s; }}\n".format(C=C, i=i)
        f += "inline void put{i}(std::shared_ptr<{C}> p) {{ slot{i}_() = p; }}\ninline std::shared_ptr<{C}> get{i}() {{ return slot{i}_(); }}\ninline void clear{i}() {{ slot{i}_().reset(); }}\n".format(C=C, i=i)
        f += "inline std::shared_ptr<{C}> make{i}() {{ return std::make_shared<{I}>(); }}\n".format(C=C, i=i, I=C + ("I" if "a" in feat else ""))
        f += "inline int use{i}({C} const &c) {{ return c.id; }}\ninline int held{i}() {{ return slot{i}_() ? slot{i}_()->id : 0; }}\n".format(C=C, i=i)
        f += "inline void swap{i}(std::shared_ptr<{C}> const &p) {{ std::shared_ptr<{C}> q = p; slot{i}_().swap(q); }}\n".format(C=C, i=i)
        if "v" in feat:
            f += "inline {C} value{i}() {{ return {C}(); }}\n".format(C=C, i=i)
        if "a" not in feat:
            f += "struct W{i} {{ {C} k; std::shared_ptr<{C}> s; static int &count() {{ static int c = 0; return c; }} W{i}() {{ ++count(); }} W{i}(W{i} const &) = delete; ~W{i}() {{ --count(); }} }}; inline int wlive{i}() {{ return W{i}::count(); }}\n".format(C=C, i=i)
        if "b" in feat:
            f += "inline std::shared_ptr<B{i}> &bslot{i}_() {{ static std::shared_ptr<B{i}> s; return s; }}\ninline void bput{i}(std::shared_ptr<B{i}> p) {{ bslot{i}_() = p; }}\ninline std::shared_ptr<B{i}> bget{i}() {{ return bslot{i}_(); }}\ninline void bclear{i}() {{ bslot{i}_().reset(); }}\n".format(i=i)
        if "d" in feat:
            f += "inline int call{i}() {{ return slot{i}_() ? slot{i}_()->f() : -1; }}\n".format(i=i)
    return t + "\n" + f, pyc, feat


PY = r"""
import gc, itertools, json, m
gc.disable()
problems, steps, states, hist = [], 0, set(), 0
def fn(f, i): return getattr(m.n, f + str(i))
class Stop(Exception): pass

# ---- the model. Objects are numbered in order of their creation; a wrapper is a Python object. Variables p, q name wrappers; C++ slots s, b hold objects.
class Model:
    def __init__(self):
        self.n, self.live, self.var, self.slot = 0, set(), {'p': None, 'q': None}, {'s': 0, 'b': 0}
        self.wrap = {}          # object -> set of variables is derived; objects with no holder die
        self.py = set()         # objects that belong to an instance of a Python subclass that is still alive
        self.owner = {}         # member object -> number of the W it is part of
        self.w = {}             # W -> variables naming it, W is alive while named or while one of its members is named
    def new(self):
        self.n += 1; self.live.add(self.n); return self.n
    def settle(self):
        named = {v for v in self.var.values() if v}
        self.py = {o for o in self.py if o in named}
        held = named | {v for v in self.slot.values() if v}
        self.live = {o for o in self.live if o in held}

def explore(i, pyc, feat, depth):
    global steps, hist
    cls = m.n
    for x in pyc.split('.'): cls = getattr(cls, x)
    live, who = fn('live', i), fn('use', i)
    if 'd' in feat:
        class Py(cls):
            def f(self): return 70
        def f(o):
            try: return o.f()
            except RuntimeError: return -1      # pure, and the Python part of the object is gone
    ops = {}
    def both(name, f):
        ops[name + ' p'] = lambda R, M: f(R, M, 'p')
        ops[name + ' q'] = lambda R, M: f(R, M, 'q')
    def create(R, M, v):
        R[v] = None; M.var[v] = None; M.settle()
        R[v] = cls(); M.var[v] = M.new()
    def subclass(R, M, v):
        R[v] = None; M.var[v] = None; M.settle()
        R[v] = Py(); M.var[v] = M.new(); M.py.add(M.var[v])
    def make(R, M, v):
        R[v] = None; M.var[v] = None; M.settle()
        R[v] = fn('make', i)(); M.var[v] = M.new()
    def value(R, M, v):
        R[v] = None; M.var[v] = None; M.settle()
        R[v] = fn('value', i)()
        M.n = who(R[v]); M.live.add(M.n); M.var[v] = M.n     # copies and moves may or may not be elided
    def put(R, M, v):
        fn('put', i)(R[v]); M.slot['s'] = M.var[v] or 0
    def swap(R, M, v):
        fn('swap', i)(R[v]); M.slot['s'] = M.var[v] or 0
    def get(R, M, v):
        R[v] = fn('get', i)(); M.var[v] = M.slot['s'] or None
    def bput(R, M, v):
        fn('bput', i)(R[v]); M.slot['b'] = M.var[v] or 0
    def bget(R, M, v):
        R[v] = fn('bget', i)(); M.var[v] = M.slot['b'] or None
    def drop(R, M, v):
        R[v] = None; M.var[v] = None
    def me(R, M, v):
        if M.var[v]:
            o = 'q' if v == 'p' else 'p'
            R[o] = R[v].me(); M.var[o] = M.var[v]
    def same(R, M, v):
        o = 'q' if v == 'p' else 'p'
        R[o] = R[v]; M.var[o] = M.var[v]
    if 'a' not in feat: both('create', create)
    if 'd' in feat: both('subclass', subclass)
    both('make', make)
    if 'v' in feat: both('value', value)
    both('put', put)
    both('get', get)
    both('drop', drop)
    if 'e' in feat: both('me', me)
    if 'b' in feat:
        both('bput', bput); both('bget', bget)
        ops['bclear'] = lambda R, M: (fn('bclear', i)(), M.slot.__setitem__('b', 0))
    ops['swap p'] = lambda R, M: swap(R, M, 'p')
    ops['clear'] = lambda R, M: (fn('clear', i)(), M.slot.__setitem__('s', 0))
    names = list(ops)
    def check(seq, R, M):
        M.settle()
        if live() != len(M.live): bad(seq, '%d objects are alive instead of %d' % (live(), len(M.live)))
        for v in 'pq':
            if (R[v] is None) != (M.var[v] is None): bad(seq, '%s is %r' % (v, R[v]))
            elif R[v] is not None:
                if not isinstance(R[v], cls): bad(seq, '%s is a %s' % (v, type(R[v]).__name__))
                elif who(R[v]) != M.var[v] or R[v].id != M.var[v]: bad(seq, '%s is object %d instead of %d' % (v, who(R[v]), M.var[v]))
                elif 'd' in feat and (f(R[v]) == 70) != (M.var[v] in M.py): bad(seq, '%s.f() gives %d' % (v, f(R[v])))
        if R['p'] is not None and R['q'] is not None and (R['p'] is R['q']) != (M.var['p'] == M.var['q']): bad(seq, 'p is q: %s' % (R['p'] is R['q']))
        h = fn('held', i)()
        if h != M.slot['s']: bad(seq, 'C++ holds %d instead of %d' % (h, M.slot['s']))
        if 'd' in feat and M.slot['s'] and M.slot['s'] in M.py and fn('call', i)() != 70: bad(seq, 'C++ does not reach the override')
        states.add((pyc, tuple(sorted(M.live)), M.var['p'], M.var['q'], M.slot['s'], M.slot['b']))
    def bad(seq, what):
        if len(problems) < 10: problems.append('%s: %s: %s' % (pyc, ', '.join(seq), what))
        raise Stop
    # every operation that names an empty variable does the same as others: leave the first of a history to creations
    def go(prefix):
        global steps, hist
        for o in names:
            seq = prefix + (o,)
            R, M = {'p': None, 'q': None}, Model()
            m.n.restart()
            hist += 1
            try:
                for k, x in enumerate(seq):
                    steps += 1
                    ops[x](R, M)
                    M.settle()
                check(seq, R, M)
            except Stop:
                pass
            R.clear(); fn('clear', i)()
            if 'b' in feat: fn('bclear', i)()
            if live() != 0:
                if len(problems) < 10: problems.append('%s: %s: %d objects are left at the end' % (pyc, ', '.join(seq), live()))
                return
            if len(seq) < depth: go(seq)
    go(())
    if 'a' in feat: return
    # members of an object: attribute of class type keeps the whole object alive, an attribute that is a shared pointer does not
    W = fn('W', i)
    def steps_w():
        w = W(); yield 'w = W()', 1, 1
        k = w.k; yield 'k = w.k', 1, 1
        if k is not w.k: problems.append('%s: w.k is another object each time' % pyc)
        w = None; yield 'del w', 1, 1
        if who(k) == 0: problems.append('member is gone')
        k2 = k; k = None; yield 'del k', 1, 1
        k2 = None; yield 'del k2', 0, 0
        w = W(); w.s = cls(); yield 'w.s = C()', 1, 2
        s = w.s; ident = who(s); yield 's = w.s', 1, 2
        w = None; yield 'del w', 0, 1
        if who(s) != ident: problems.append('%s: shared member is another object' % pyc)
        s = None; yield 'del s', 0, 0
        c = cls(); w = W(); w.s = c; w2 = W(); w2.s = w.s; yield 'two share', 2, 3
        if w.s is not c or w2.s is not c: problems.append('%s: shared member loses identity' % pyc)
        w = None; c = None; yield 'one goes', 1, 2
        w2.s = None; yield 's = None', 1, 1
        w2 = None; yield 'all gone', 0, 0
    for what, wl, kl in steps_w():
        steps += 1
        if (fn('wlive', i)(), live()) != (wl, kl): problems.append('%s: after %s %r are alive instead of %r' % (pyc, what, (fn('wlive', i)(), live()), (wl, kl)))

def explore_n(i, pyc, depth):
    # the destructor cannot be called by anybody but the class: Python never destroys, never constructs
    global steps, hist
    cls = m.n
    for x in pyc.split('.'): cls = getattr(cls, x)
    try: cls(); problems.append(pyc + ' can be constructed')
    except TypeError: pass
    ops = ['inst p', 'inst q', 'again p', 'again q', 'drop p', 'drop q', 'copy', 'end']
    for k in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=k):
            R, n, ids, V = {'p': None, 'q': None}, 0, [], {'p': 0, 'q': 0}
            m.n.restart(); hist += 1
            for x in seq:
                steps += 1
                a, v = (x + ' p').split()[:2]
                if a == 'inst': R[v] = fn('inst', i)(); n += 1; ids.append(n); V[v] = n
                elif a == 'again': R[v] = fn('again', i)(); V[v] = ids[-1] if ids else 0
                elif a == 'drop': R[v] = None; V[v] = 0
                elif a == 'copy': R['q'] = R['p']; V['q'] = V['p']
                elif a == 'end': R = {'p': None, 'q': None}; V = {'p': 0, 'q': 0}; fn('end', i)(); ids = []
                got = (fn('live', i)(), [R[v] and fn('use', i)(R[v]) for v in 'pq'])
                want = (len(ids), [V[v] or None for v in 'pq'])
                states.add((pyc, tuple(ids), V['p'], V['q']))
                if got != want:
                    if len(problems) < 10: problems.append('%s: %s: %r instead of %r' % (pyc, ', '.join(seq), got, want))
                    break
            R.clear(); fn('end', i)()
"""
END = "\nprint(json.dumps({'problems': problems, 'steps': steps, 'states': len(states), 'histories': hist}))\n"


def body(c):
    run.exe()
    pyb.pch()
    ks = [k for k in KINDS if k != "shared from this, protected destructor"]
    configs = [("", ["+namespace n"], 5 if c.thorough else 4)]
    configs += [("custom holder ", ["+namespace n", "+custom_shared std::shared_ptr"], 3)]
    jobs = []
    for label, cfg, depth in configs:
        for g in range(0, len(ks), 3):
            jobs.append((label, cfg, depth, [(g + j, k) for j, k in enumerate(ks[g:g + 3])]))
        if c.thorough and not label:
            jobs.append((label + "all together ", cfg, 3, list(enumerate(ks))))
    jobs.append(("", configs[0][1], 3, [(len(ks), "shared from this, protected destructor")]))   # by itself: see known_findings.json
    jobs.append(("multiple files ", ["+namespace n"], 3, list(enumerate(ks))))

    def work(j):
        label, cfg, depth, kinds = j
        h, s = PRE, PY
        for i, k in kinds:
            t, pyc, feat = text(i, k)
            h += t
            s += ("explore_n(%d, %r, %d)\n" % (i, pyc, depth)) if "n" in feat else ("explore(%d, %r, %r, %d)\n" % (i, pyc, feat, depth))
        case = Case({"a.hpp": h + "}\n"}, config=cfg, args=[] if "files" in label else ["--single-file"], inp="#include <a.hpp>\n", key=label + ", ".join(k for _, k in kinds))
        py, r = pyb.check_module(case, s + END)
        return case, py.stage, py.out, py.data

    for case, stage, out, data in run.pmap(work, jobs):
        c.traces += 1
        if data is None:
            err = [l for l in out.split("\n") if "error" in l or "Error" in l][:3]
            c.violation(case.key, ["%s fails: %s" % (stage, (err or [out[-600:]]))], case.describe())
            continue
        c.transitions += data["steps"]
        c.extra["histories"] = c.extra.get("histories", 0) + data["histories"]
        for k in range(data["states"]):
            c.states.add((case.key, k))
        c.outcomes.add((case.key, data["states"]))
        if data["problems"]:
            c.violation(case.key, data["problems"], case.describe())
    c.sample({"kinds of class": ks})
    c.bounds = {"kinds of class": len(ks), "operations in a history": 5 if c.thorough else 4}


main("C22", body, rule="every history of operations up to the bound on two Python variables and one or two C++ holders, per kind of class; number of live objects, identity and contents compared with the model after the history")
