"""C20: containers of the standard library.

Explicit-state exploration of container objects in compiled modules: states are the contents up to the bound, operations are those Python has on the class; every operation
is applied in every state (built in Python, by C++, and shared with a C++ object), result, exception and new contents are compared with the model (a Python list, dict or
set), and C++ is asked what it sees. Two ways of binding: source/stl_binders.hpp (`+binder std::vector binder::vector_binder`, `+binder std::map binder::map_binder`)
and the classes binder generates itself.
"""
import json
import os

from common import *

INC = "#include <array>\n#include <deque>\n#include <list>\n#include <map>\n#include <memory>\n#include <set>\n#include <string>\n#include <vector>\n#include <functional>\n#include <sstream>\n#include <utility>\n"
COMMON = r"""
namespace n {
struct A { int x = 0; A() {} A(int x_) : x(x_) {} bool operator<(A const &o) const { return x < o.x; } bool operator==(A const &o) const { return x == o.x; } bool operator!=(A const &o) const { return x != o.x; } };
struct P { int x = 0; P() {} P(int x_) : x(x_) {} };                       // nothing to compare or print with
struct V { int x = 0; V() {} V(int x_) : x(x_) {} virtual ~V() {} virtual int f() const { return x; } };
enum E { e0, e1, e2 };
enum class S { s0 = 5, s1, s2 };
template<class T> struct T1 { T t; T1() : t() {} T1(T a) : t(a) {} bool operator==(T1 const &o) const { return t == o.t; } };
inline T1<int> t1() { return T1<int>(); }
struct Less { bool operator()(int a, int b) const { return a > b; } };
}
namespace vf {
template<class T> struct Show;
template<class T> std::string show(T const &t) { return Show<T>::go(t); }
template<> struct Show<int> { static std::string go(int v) { return std::to_string(v); } };
template<> struct Show<long> { static std::string go(long v) { return std::to_string(v); } };
template<> struct Show<unsigned char> { static std::string go(unsigned char v) { return std::to_string(v); } };
template<> struct Show<bool> { static std::string go(bool v) { return v ? "True" : "False"; } };
template<> struct Show<double> { static std::string go(double v) { std::ostringstream s; s << v; return s.str(); } };
template<> struct Show<std::string> { static std::string go(std::string const &v) { return v; } };
template<> struct Show<n::A> { static std::string go(n::A const &v) { return "A" + std::to_string(v.x); } };
template<> struct Show<n::P> { static std::string go(n::P const &v) { return "P" + std::to_string(v.x); } };
template<> struct Show<n::E> { static std::string go(n::E v) { return "E" + std::to_string(int(v)); } };
template<> struct Show<n::S> { static std::string go(n::S v) { return "S" + std::to_string(int(v)); } };
template<class T> struct Show<n::T1<T>> { static std::string go(n::T1<T> const &v) { return "T" + show(v.t); } };
template<> struct Show<n::V> { static std::string go(n::V const &v) { return "V" + std::to_string(v.f()); } };
template<class T> struct Show<std::shared_ptr<T>> { static std::string go(std::shared_ptr<T> const &v) { return v ? "*" + show(*v) : "null"; } };
template<class T> struct Show<T *> { static std::string go(T *v) { return v ? "*" + show(*v) : "null"; } };
template<class K, class T> struct Show<std::pair<K, T>> { static std::string go(std::pair<K, T> const &v) { return "(" + show(v.first) + ":" + show(v.second) + ")"; } };
template<class C> std::string all(C const &c) { std::string r; for( auto const &v : c ) { r += show(std::remove_const_t<std::remove_reference_t<decltype(v)>>(v)); r += " "; } return r; }
template<class T, class A> struct Show<std::vector<T, A>> { static std::string go(std::vector<T, A> const &v) { std::string r = "["; for( std::size_t i = 0; i < v.size(); ++i ) r += show(T(v[i])) + " "; return r + "]"; } };
template<class K, class T, class C, class A> struct Show<std::map<K, T, C, A>> { static std::string go(std::map<K, T, C, A> const &v) { std::string r = "{"; for( auto const &e : v ) r += show(e.first) + ":" + show(e.second) + " "; return r + "}"; } };
}
"""
PY = r"""
import json, sys, m
problems, steps, states = [], 0, 0
def bad(*a):
    if len(problems) < 12: problems.append(' '.join(str(x) for x in a))
def show(v):
    if v is None: return 'null'
    if isinstance(v, (bool, int, str)): return str(v)
    if isinstance(v, float): return '%g' % v
    k = type(v).__name__
    if k in ('A', 'P'): return k + str(v.x)
    if k == 'E' or k == 'S': return k + str(int(v))
    if k.startswith('T1'): return 'T' + show(v.t)
    if isinstance(v, m.n.V): return 'V' + str(v.f())
    if hasattr(v, 'items'): return '{' + ''.join('%s:%s ' % (show(a), show(b)) for a, b in v.items()) + '}'
    if hasattr(v, '__iter__'): return '[' + ''.join(show(x) + ' ' for x in v) + ']'
    return repr(v)
def attempt(f):
    try: return ('value', f())
    except (IndexError, KeyError, ValueError, TypeError, RuntimeError) as e: return ('raises', type(e).__name__)
"""
# C++ type -> (three values in Python, prefix in the dump, values of other types that must not be accepted, can be compared)
def elements():
    return {
        "int": ("[10, -2, 0]", "", ["'a'", "1.5", "None", "[]"], True),
        "bool": ("[True, False]", "", ["'a'", "m.n.A(1)"], True),
        "double": ("[0.5, -2.0, 1.0]", "", ["'a'", "None"], True),
        "unsigned char": ("[0, 255, 7]", "", ["'a'", "256", "-1"], True),
        "std::string": ("['', 'ab', 'b']", "", ["1", "None", "m.n.A(1)"], True),
        "n::A": ("[m.n.A(0), m.n.A(1), m.n.A(2)]", "", ["'a'", "m.n.P(1)", "1.5"], True),
        "n::P": ("[m.n.P(0), m.n.P(1), m.n.P(2)]", "", ["'a'", "m.n.A(1)"], False),
        "n::E": ("[m.n.E.e0, m.n.E.e1, m.n.E.e2]", "", ["'a'", "m.n.S.s0"], True),
        "n::S": ("[m.n.S.s0, m.n.S.s1, m.n.S.s2]", "", ["'a'", "m.n.E.e0", "1"], True),
        "n::T1<int>": ("[m.n.T1_int_t(0), m.n.T1_int_t(1)]", "", ["'a'", "m.n.A(1)"], True),
        "std::shared_ptr<n::V>": ("[m.n.V(1), Py(2), m.n.V(3)]", "*", ["'a'", "m.n.A(1)"], "identity"),
        "n::V *": ("[KEEP[0], KEEP[1]]", "*", ["'a'", "m.n.A(1)"], "identity"),
        "std::vector<int>": ("[INNER([]), INNER([1]), INNER([2, 3])]", "", ["'a'", "1"], True),
    }


def ident(t):
    return "".join(ch if ch.isalnum() else "_" for ch in t)


# Python name that binder passes on
NAMES = {"int": "int", "bool": "bool", "double": "double", "unsigned char": "unsigned_char", "std::string": "std_string", "n::A": "n_A", "n::P": "n_P", "n::E": "n_E", "n::S": "n_S", "n::T1<int>": "n_T1_int_t",
         "std::shared_ptr<n::V>": "std_shared_ptr_n_V_t", "n::V *": "n_V_*", "std::vector<int>": "std_vector_int_t"}


def vector_functions(i, t):
    v = "std::vector<%s>" % t
    return """
inline std::string dump{i}({v} const &v) {{ return vf::show(v); }}
inline void push{i}({v} &v, {t} const &t) {{ v.push_back(t); }}
inline {v} copy{i}({v} v) {{ return v; }}
inline std::shared_ptr<{v}> shared{i}() {{ return std::make_shared<{v}>(); }}
struct H{i} {{ {v} v; {v} &r() {{ return v; }} std::string dump() const {{ return vf::show(v); }} void put({t} const &t) {{ v.push_back(t); }} }};
""".format(i=i, t=t, v=v)


VEC_PY = r"""
class Py(m.n.V):
    def f(self): return self.x * 10
KEEP = [m.n.V(1), Py(2)]
INNER = getattr(m.std, 'vector_int', list)
def explore(cls, dump, push, copy, H, shared, vals, pre, wrong, cmp, L):
    global steps, states
    def key(xs): return '[' + ''.join(pre + show(x) + ' ' for x in xs) + ']'
    def seq(v): return '[' + ''.join(pre + show(x) + ' ' for x in v) + ']'
    eq = (lambda a, b: a is b) if cmp == 'identity' else (lambda a, b: show(a) == show(b) and type(a) == type(b))
    ops = []
    def op(name, real, model): ops.append((name, real, model))
    for k, x in enumerate(vals):
        op('append(%d)' % k, lambda v, x=x: v.append(x), lambda l, x=x: l.append(x))
        op('C++ push_back(%d)' % k, lambda v, x=x: push(v, x), lambda l, x=x: l.append(x))
        for i in range(0, L + 1):
            op('insert(%d, %d)' % (i, k), lambda v, x=x, i=i: v.insert(i, x) if i <= len(v) else None, lambda l, x=x, i=i: l.insert(i, x) if i <= len(l) else None)
        for i in range(-L - 1, L + 1):
            op('[%d] = %d' % (i, k), lambda v, x=x, i=i: v.__setitem__(i, x), lambda l, x=x, i=i: l.__setitem__(i, x))
        if cmp is True:
            op('count(%d)' % k, lambda v, x=x: v.count(x), lambda l, x=x: sum(eq(x, y) for y in l))
            op('%d in' % k, lambda v, x=x: x in v, lambda l, x=x: any(eq(x, y) for y in l))
            def rem(l, x=x):
                for j, y in enumerate(l):
                    if eq(x, y):
                        del l[j]
                        return
                raise ValueError
            op('remove(%d)' % k, lambda v, x=x: v.remove(x), rem)
    for i in range(-L - 1, L + 1):
        op('[%d]' % i, lambda v, i=i: v[i], lambda l, i=i: l[i])
        op('del [%d]' % i, lambda v, i=i: v.__delitem__(i), lambda l, i=i: l.__delitem__(i))
        op('pop(%d)' % i, lambda v, i=i: v.pop(i), lambda l, i=i: l.pop(i))
        for j in range(-L - 1, L + 2):
            op('[%d:%d]' % (i, j), lambda v, i=i, j=j: seq(v[i:j]), lambda l, i=i, j=j: key(l[i:j]))
            op('del [%d:%d]' % (i, j), lambda v, i=i, j=j: v.__delitem__(slice(i, j)), lambda l, i=i, j=j: l.__delitem__(slice(i, j)))
    op('pop()', lambda v: v.pop(), lambda l: l.pop())
    op('[::-1]', lambda v: seq(v[::-1]), lambda l: key(l[::-1]))
    op('[::2]', lambda v: seq(v[::2]), lambda l: key(l[::2]))
    op('len', len, len)
    op('bool', bool, bool)
    op('empty', lambda v: v.empty(), lambda l: not l)
    op('list', lambda v: seq(list(v)), lambda l: key(l))
    op('clear', lambda v: v.clear(), lambda l: l.clear())
    op('extend([])', lambda v: v.extend([]), lambda l: None)
    op('extend(list)', lambda v: v.extend(list(vals)), lambda l: l.extend(vals))
    op('extend(same class)', lambda v: v.extend(cls(vals)), lambda l: l.extend(vals))
    op('extend(generator)', lambda v: v.extend(x for x in vals), lambda l: l.extend(vals))
    op('copy', lambda v: seq(cls(v)), lambda l: key(l))
    op('C++ copy', lambda v: seq(copy(v)), lambda l: key(l))
    def other(v): w = cls(v); w.append(vals[0]); w.clear(); return len(w)
    op('changing a copy', other, lambda l: 0)
    def other2(v): w = copy(v); w.append(vals[0]); return len(w)
    op('changing a C++ copy', other2, lambda l: len(l) + 1)
    op('reserve(50)', lambda v: (v.reserve(50), v.capacity() >= 50)[1], lambda l: True)
    op('reserve(0)', lambda v: (v.reserve(0), v.capacity() >= len(v))[1], lambda l: True)
    op('capacity', lambda v: v.capacity() >= len(v), lambda l: True)
    op('max_size', lambda v: v.max_size() > 1000000, lambda l: True)
    op('shrink_to_fit', lambda v: (v.shrink_to_fit(), v.capacity() >= len(v))[1], lambda l: True)
    for ws in ([], [0], [1, 0, 1]):
        ws = [vals[w] for w in ws]
        def sw(v, ws=ws): w = cls(ws); v.swap(w); return seq(w)
        def swl(l, ws=ws): k = key(l); l[:] = ws; return k
        op('swap(%s)' % key(ws), sw, swl)
        if cmp is True:
            op('== %s' % key(ws), lambda v, ws=ws: v == cls(ws), lambda l, ws=ws: len(l) == len(ws) and all(eq(a, b) for a, b in zip(l, ws)))
            op('!= %s' % key(ws), lambda v, ws=ws: v != cls(ws), lambda l, ws=ws: not (len(l) == len(ws) and all(eq(a, b) for a, b in zip(l, ws))))
    op('swap with itself', lambda v: v.swap(v), lambda l: None)
    def same(v): return v == cls(v)
    if cmp is True: op('== copy', same, lambda l: True)
    for k, w in enumerate(wrong):
        op('append wrong %d' % k, lambda v, w=w: v.append(w), lambda l: (_ for _ in ()).throw(TypeError))
        op('extend wrong %d' % k, lambda v, w=w: v.extend([vals[0], w]), lambda l: (_ for _ in ()).throw(TypeError if True else 0))
        op('insert wrong %d' % k, lambda v, w=w: v.insert(0, w), lambda l: (_ for _ in ()).throw(TypeError))
        op('construct wrong %d' % k, lambda v, w=w: cls([w]), lambda l: (_ for _ in ()).throw(TypeError))
    # the sources of the object: built in Python, member of a C++ object by attribute and by reference, a C++ shared pointer
    def build(ws, how):
        if how == 'list': v = cls(ws); return v, lambda: dump(v)
        if how == 'append':
            v = cls()
            for w in ws: v.append(w)
            return v, lambda: dump(v)
        if how == 'shared':
            v = shared(); v.extend(ws); return v, lambda: dump(v)
        h = H()
        for w in ws: h.put(w)
        if how == 'attribute': return h.v, h.dump
        v = h.r(); return v, lambda: dump(v)   # return value policy automatic: a copy
    todo, seen = [()], {()}
    while todo:
        st = todo.pop()
        states += 1
        ws = [vals[i] for i in st]
        for how in ('list', 'append', 'attribute', 'reference', 'shared'):
            if how != 'list' and len(st) > 2: continue
            for name, real, model in ops:
                steps += 1
                v, view = build(ws, how)
                if view() != key(ws): bad(cls.__name__, how, key(ws), 'C++ sees', view(), 'at the start'); break
                l = list(ws)
                want = attempt(lambda: model(l))
                if want[0] == 'raises': l = list(ws)
                got = attempt(lambda: real(v))
                a, b = (show(got[1]), show(want[1])) if want[0] == got[0] == 'value' else (got[1], want[1])
                if got[0] != want[0] or a != b and not (want[0] == 'raises' and 'wrong' in name):
                    bad(cls.__name__, how, 'in state', key(ws), ':', name, 'gives', got[0], a, 'instead of', want[0], b)
                elif cmp == 'identity' and want[0] == 'value' and isinstance(want[1], m.n.V) and got[1] is not want[1]:
                    bad(cls.__name__, how, 'in state', key(ws), ':', name, 'gives another object')
                if seq(v) != key(l): bad(cls.__name__, how, 'in state', key(ws), ':', name, 'leaves', seq(v), 'instead of', key(l))
                elif view() != key(l): bad(cls.__name__, how, 'in state', key(ws), ':', name, 'leaves', view(), 'in C++ instead of', key(l))
        if len(st) < L:
            for i in range(len(vals)):
                if st + (i,) not in seen:
                    seen.add(st + (i,)); todo.append(st + (i,))
"""

MAP_PY = r"""
def explore_map(cls, dump, put, H, keys, vals, kwrong, vwrong, order, L):
    global steps, states
    def norm(d): return {k: d[k] for k in sorted(d, key=order)}
    def key(d): return show(norm(d))
    ops = []
    def op(name, real, model): ops.append((name, real, model))
    for k in keys:
        op('[%r]' % (k,), lambda v, k=k: v[k], lambda d, k=k: d[k])
        op('del [%r]' % (k,), lambda v, k=k: v.__delitem__(k), lambda d, k=k: d.__delitem__(k))
        op('%r in' % (k,), lambda v, k=k: k in v, lambda d, k=k: k in d)
        for i, x in enumerate(vals):
            op('[%r] = %d' % (k, i), lambda v, k=k, x=x: v.__setitem__(k, x), lambda d, k=k, x=x: d.__setitem__(k, x))
            op('C++ [%r] = %d' % (k, i), lambda v, k=k, x=x: put(v, k, x), lambda d, k=k, x=x: d.__setitem__(k, x))
    op('len', len, len)
    op('bool', bool, bool)
    op('iteration', lambda v: [k for k in v], lambda d: list(norm(d)))
    op('keys', lambda v: list(v.keys()), lambda d: list(norm(d)))
    op('values', lambda v: [show(x) for x in v.values()], lambda d: [show(x) for x in norm(d).values()])
    op('items', lambda v: [[k, show(x)] for k, x in v.items()], lambda d: [[k, show(x)] for k, x in norm(d).items()])
    op('in keys', lambda v: [k in v.keys() for k in keys], lambda d: [k in d for k in keys])
    op('len of views', lambda v: [len(v.keys()), len(v.values()), len(v.items())], lambda d: [len(d)] * 3)
    for w in kwrong:
        op('wrong key %r' % (w,), lambda v, w=w: v.__setitem__(w, vals[0]), lambda d: (_ for _ in ()).throw(TypeError))
        op('wrong key in %r' % (w,), lambda v, w=w: w in v, lambda d: False)
    for w in vwrong:
        op('wrong value %r' % (w,), lambda v, w=w: v.__setitem__(keys[0], w), lambda d: (_ for _ in ()).throw(TypeError))
    def build(d, how):
        if how == 'python':
            v = cls()
            for k, x in d.items(): v[k] = x
            return v, lambda: dump(v)
        h = H()
        for k, x in d.items(): h.put(k, x)
        if how == 'attribute': return h.m, h.dump
        v = h.r(); return v, lambda: dump(v)
    import itertools
    for n in range(L + 1):
        for ks in itertools.combinations(keys, n):
            for xs in itertools.product(range(len(vals)), repeat=n):
                states += 1
                d0 = {k: vals[x] for k, x in zip(ks, xs)}
                for how in ('python', 'attribute', 'reference'):
                    for name, real, model in ops:
                        steps += 1
                        v, view = build(d0, how)
                        if view() != key(d0): bad(cls.__name__, how, key(d0), 'C++ sees', view(), 'at the start'); break
                        d = dict(d0)
                        want = attempt(lambda: model(d))
                        got = attempt(lambda: real(v))
                        a, b = (show(got[1]), show(want[1])) if want[0] == got[0] == 'value' else (got[1], want[1])
                        if got[0] != want[0] or a != b: bad(cls.__name__, how, 'in state', key(d0), ':', name, 'gives', got[0], a, 'instead of', want[0], b)
                        if show(v) != key(d): bad(cls.__name__, how, 'in state', key(d0), ':', name, 'leaves', show(v), 'instead of', key(d))
                        elif view() != key(d): bad(cls.__name__, how, 'in state', key(d0), ':', name, 'leaves', view(), 'in C++ instead of', key(d))
"""
END = "\nprint(json.dumps({'problems': problems, 'steps': steps, 'states': states}))\n"


def stl_header():
    with open(os.path.join(build.REPO, "source", "stl_binders.hpp")) as f:
        return f.read()


def binders_part(c):
    jobs = []
    el = elements()
    L = 3 if c.thorough else 2
    for i, t in enumerate(el):
        vals, pre, wrong, cmp = el[t]
        more = "\ninline int uses_inner(std::vector<int> v) { return v.size(); }" if t == "std::vector<int>" else ""
        h = COMMON + "namespace n {%s%s\n}\n" % (vector_functions(i, t), more)
        s = PY + VEC_PY + "C = getattr(m.std, 'vector_' + %r)\nif type(m.n.copy%d(C())) is not C: bad('C++ returns', type(m.n.copy%d(C())))\n" % (NAMES[t], i, i)
        s += "if sorted(k for k in dir(m.std) if k.startswith('vector')) != sorted({'vector_' + %r%s}): bad('classes', dir(m.std))\n" % (NAMES[t], ", 'vector_int'" if t == "std::vector<int>" else "")
        s += "explore(C, m.n.dump{i}, m.n.push{i}, m.n.copy{i}, m.n.H{i}, m.n.shared{i}, {v}, {p!r}, [{w}], {c!r}, {L})\n".format(i=i, v=vals, p=pre, w=", ".join(wrong), c=cmp, L=L)
        jobs.append(("vector_binder " + t, h, s + END, ["+include <stl_binders.hpp>", "+namespace n", "+binder std::vector binder::vector_binder"], []))
    maps = {
        "std::map<int, std::string>": ("map_int_std_string", "[1, -5, 30]", "['', 'a']", "['a', None]", "[1, None]", "lambda k: k", "int", "std::string"),
        "std::map<std::string, int>": ("map_std_string_int", "['', 'b', 'ab']", "[0, 7]", "[1]", "['a', None]", "lambda k: k", "std::string", "int"),
        "std::map<std::string, n::A>": ("map_std_string_n_A", "['', 'b', 'ab']", "[m.n.A(1), m.n.A(2)]", "[1]", "['a', None, m.n.P(1)]", "lambda k: k", "std::string", "n::A"),
        "std::map<int, n::P>": ("map_int_n_P", "[3, 2, 1]", "[m.n.P(1), m.n.P(2)]", "['a']", "['a', m.n.A(1)]", "lambda k: k", "int", "n::P"),
        "std::map<n::E, double>": ("map_n_E_double", "[m.n.E.e2, m.n.E.e0, m.n.E.e1]", "[0.5, 2.0]", "['a', m.n.S.s0]", "['a']", "int", "n::E", "double"),
        "std::map<int, int, n::Less>": ("map_int_int_n_Less", "[1, -5, 30]", "[0, 7]", "['a', None]", "['a']", "lambda k: -k", "int", "int"),
        "std::map<int, int, std::greater<int>>": ("map_int_int_std_greater_int_t", "[1, -5, 30]", "[0, 7]", "['a', None]", "['a']", "lambda k: -k", "int", "int"),
        "std::map<bool, unsigned char>": ("map_bool_unsigned_char", "[True, False]", "[0, 255]", "['a']", "['a', 256]", "lambda k: k", "bool", "unsigned char"),
        "std::map<int, std::shared_ptr<n::V>>": ("", "[1, 2]", "[m.n.V(4), m.n.V(5)]", "['a']", "['a', m.n.A(1)]", "lambda k: k", "int", "std::shared_ptr<n::V>"),
    }
    for i, (t, (name, keys, vals, kw, vw, order, kt, vt)) in enumerate(maps.items()):
        h = COMMON + """namespace n {{ inline std::string dump{i}({t} const &m) {{ return vf::show(m); }} inline void put{i}({t} &m, {k} const &a, {v} const &b) {{ m[a] = b; }}
struct H{i} {{ {t} m; {t} &r() {{ return m; }} std::string dump() const {{ return vf::show(m); }} void put({k} const &a, {v} const &b) {{ m[a] = b; }} }}; }}
""".format(i=i, t=t, k=kt, v=vt)
        if "shared_ptr" in t:
            h = h.replace('return v ? "*" + show(*v)', "return v ? show(*v)")
        s = PY + MAP_PY + "K = type(m.n.H%d().m)\nif %r and K is not getattr(m.std, %r or K.__name__, None): bad('class is called', K.__name__)\nexplore_map(K, m.n.dump%d, m.n.put%d, m.n.H%d, %s, %s, %s, %s, %s, %d)\n" % (i, name, name, i, i, i, keys, vals, kw, vw, order, 3 if c.thorough else 2)
        jobs.append(("map_binder " + t, h, s + END, ["+include <stl_binders.hpp>", "+namespace n", "+binder std::map binder::map_binder"], []))
    return jobs


ALLOC = '''namespace n { template<class T> struct %s { using value_type = T; %s() {} template<class U> %s(%s<U> const &) {} T *allocate(std::size_t k) { return std::allocator<T>().allocate(k); } void deallocate(T *p, std::size_t k) { std::allocator<T>().deallocate(p, k); } bool operator==(%s const &) const { return true; } bool operator!=(%s const &) const { return false; } }; }
'''


def families_part(c):
    # instances that differ in one argument only stand side by side in one module
    al = "".join(ALLOC % ((n,) * 6) for n in ("Al", "Bl"))
    less = ["", "std::less<int>", "std::less<void>", "std::greater<int>", "std::greater<void>", "n::Less", "std::less_equal<>"]
    maps = ["std::map<int, int%s>" % (", " + l if l else "") for l in less if l != "std::less<int>"]
    maps += ["std::map<int, int, std::less<int>, n::%s<std::pair<const int, int>>>" % a for a in ("Al", "Bl")]
    maps += ["std::map<int, int, n::Less, n::Al<std::pair<const int, int>>>", "std::map<std::string, int>", "std::map<std::string, int, std::greater<std::string>>",
             "std::map<std::string, int, std::less<>>", "std::map<int, std::vector<int>>", "std::map<int, std::map<int, int>>", "std::map<int, std::shared_ptr<n::V>>", "std::map<n::E, n::E>", "std::map<n::E, n::S>"]
    vectors = ["std::vector<%s%s>" % (t, a % t if a else "") for t in ("int", "n::A", "std::string", "std::shared_ptr<n::V>", "std::vector<int>") for a in ("", ", n::Al<%s>", ", n::Bl<%s>")]
    vectors += ["std::vector<long>", "std::vector<unsigned>", "std::vector<n::P>", "std::vector<n::V *>", "std::vector<n::V const *>", "std::vector<std::vector<n::A>>", "std::vector<std::vector<int, n::Al<int>>>", "std::vector<std::map<int, int>>"]
    jobs = []
    for label, ts in (("maps", maps), ("vectors", vectors)) + ((("both", maps + vectors),) if c.thorough else ()):
        h = COMMON + al + "namespace n {\n" + "".join("inline %s f%d(%s x) { return x; } inline int s%d(%s const &x) { return int(x.size()) + 100 * %d; }\n" % (t, i, t, i, t, i) for i, t in enumerate(ts)) + "}\n"
        s = PY + "import itertools\nTS = %r\nsub = [k for k in dir(m.std) if not k.startswith('_')]\nfound = {}\n" % ts
        s += '''for i, t in enumerate(TS):
    hits = []
    for k in sub:
        cls = getattr(m.std, k)
        if not (isinstance(cls, type) and k.startswith('vector_' if 'vector' in t[:11] else 'map_')): continue
        steps += 1
        if attempt(lambda: getattr(m.n, 's%d' % i)(cls())) == ('value', 100 * i): hits.append(k)
    states += 1
    if len(hits) != 1: bad(t, 'is accepted from', hits)
    elif type(getattr(m.n, 'f%d' % i)(getattr(m.std, hits[0])())).__name__ != hits[0]: bad(t, 'comes back as another class')
    elif hits[0] in found: bad(t, 'and', found[hits[0]], 'are one class')
    else: found[hits[0]] = t
for k, v in (('vector_int', 'std::vector<int>'), ('vector_n_A', 'std::vector<n::A>'), ('vector_std_string', 'std::vector<std::string>'), ('map_int_int', 'std::map<int, int>'), ('map_std_string_int', 'std::map<std::string, int>'), ('map_int_int_n_Less', None)):
    if v in TS and found.get(k) != v: bad(v, 'is not called', k)
'''
        jobs.append(("family of " + label, h, s + END, ["+include <stl_binders.hpp>", "+namespace n", "+binder std::vector binder::vector_binder", "+binder std::map binder::map_binder"], []))
    return jobs


# -- classes that binder generates itself ----------------------------------------------------------------------------------------
GEN_PY = r"""
class Py(m.n.V):
    def f(self): return self.x * 10
KEEP = [m.n.V(1), Py(2)]
def run(cls, dump, copy, H, vals, pre, ops, fresh, L, wrong, ordered):
    global steps, states
    def key(xs): return ''.join(pre + show(x) + ' ' for x in xs)
    todo, seen = [()], {()}
    while todo:
        st = todo.pop()
        states += 1
        ws = [vals[i] for i in st]
        for how in ('python', 'attribute', 'reference', 'C++ copy'):
            for name, real, model, need in ops:
                if need and not ws: continue
                steps += 1
                if how == 'python':
                    v = cls(); [fresh(v, w) for w in ws]; view = lambda: dump(v)
                elif how == 'C++ copy':
                    u = cls(); [fresh(u, w) for w in ws]; v = copy(u); view = lambda: dump(v)
                else:
                    h = H(); [h.put(w) for w in ws]; v = h.v if how == 'attribute' else h.r(); view = h.dump if how == 'attribute' else lambda: dump(v)
                l = list(ws)
                if not ordered: l = ordered_(l)
                want = attempt(lambda: model(l))
                got = attempt(lambda: real(v))
                a, b = (show(got[1]), show(want[1])) if want[0] == got[0] == 'value' else (got[1], want[1])
                if got[0] != want[0] or a != b: bad(cls.__name__, how, 'in state', key(ws), ':', name, 'gives', got[0], a, 'instead of', want[0], b)
                if not ordered: l = ordered_(l)
                if view() != key(l): bad(cls.__name__, how, 'in state', key(ws), ':', name, 'leaves', view(), 'instead of', key(l))
                if how == 'C++ copy' and dump(u) != key(ws if ordered else ordered_(list(ws))): bad(cls.__name__, name, 'on a copy changes the original')
        if len(st) < L:
            for i in range(len(vals)):
                t = st + (i,)
                if t not in seen: seen.add(t); todo.append(t)
ops = []
def op(name, real, model, need=False): ops.append((name, real, model, need))
def raiser(e): raise e
"""
SEQ_OPS = {
    "push_back": "for k, x in enumerate(vals): op('push_back %d' % k, lambda v, x=x: v.push_back(x), lambda l, x=x: l.append(x))",
    "push_front": "for k, x in enumerate(vals): op('push_front %d' % k, lambda v, x=x: v.push_front(x), lambda l, x=x: l.insert(0, x))",
    "pop_back": "op('pop_back', lambda v: v.pop_back(), lambda l: (l.pop(), None)[1], True)",
    "pop_front": "op('pop_front', lambda v: v.pop_front(), lambda l: (l.pop(0), None)[1], True)",
    "front": "op('front', lambda v: v.front(), lambda l: l[0], True)",
    "back": "op('back', lambda v: v.back(), lambda l: l[-1], True)",
    "size": "op('size', lambda v: v.size(), len)",
    "empty": "op('empty', lambda v: v.empty(), lambda l: not l)",
    "clear": "op('clear', lambda v: v.clear(), lambda l: l.clear())",
    "at": "for i in range(L + 2): op('at(%d)' % i, lambda v, i=i: v.at(i), lambda l, i=i: l[i])",
    "__getitem__": "for i in range(L): op('[%d]' % i, lambda v, i=i: v[i] if i < v.size() else None, lambda l, i=i: l[i] if i < len(l) else None)",
    "resize": "for i in range(L + 1):\n for k, x in enumerate(vals): op('resize(%d, %d)' % (i, k), lambda v, i=i, x=x: v.resize(i, x), lambda l, i=i, x=x: l.__setitem__(slice(0, len(l)), (l + [x] * i)[:i]))",
    "assign": "for i in range(3):\n for k, x in enumerate(vals): op('assign(%d, %d)' % (i, k), lambda v, i=i, x=x: v.assign(i, x), lambda l, i=i, x=x: l.__setitem__(slice(0, len(l)), [x] * i))",
    "swap": "def sw(v):\n    w = cls(); fresh(w, vals[0]); v.swap(w); return dump(w)\ndef swl(l):\n    k = ''.join(pre + show(x) + ' ' for x in l); l[:] = [vals[0]]; return k\nop('swap', sw, swl)",
    "reverse": "op('reverse', lambda v: v.reverse(), lambda l: l.reverse())",
    "max_size": "op('max_size', lambda v: v.max_size() > 100000, lambda l: True)",
    "copy": "op('construct copy', lambda v: dump(cls(v)), lambda l: ''.join(pre + show(x) + ' ' for x in l))",
}
KINDS = {
    "std::vector": ["push_back", "pop_back", "front", "back", "size", "empty", "clear", "at", "__getitem__", "resize", "assign", "swap", "max_size", "copy"],
    "std::deque": ["push_back", "push_front", "pop_back", "pop_front", "front", "back", "size", "empty", "clear", "at", "__getitem__", "resize", "assign", "swap", "max_size", "copy"],
    "std::list": ["push_back", "push_front", "pop_back", "pop_front", "front", "back", "size", "empty", "clear", "resize", "assign", "swap", "reverse", "max_size", "copy"],
}


def generated_part(c):
    jobs = []
    el = elements()
    L = 3 if c.thorough else 2
    gname = {"int": "int", "double": "double", "std::string": "std_string", "n::A": "n_A", "n::P": "n_P", "n::E": "n_E", "n::S": "n_S", "n::T1<int>": "n_T1_int_t", "std::shared_ptr<n::V>": "std_shared_ptr_n_V_t", "n::V *": "n_V__star__t", "unsigned char": "unsigned_char", "std::vector<int>": "std_vector_int_t"}
    for kind, opnames in KINDS.items():
        for t in el:
            if t in ("bool",) or t == "std::vector<int>":
                continue
            if kind == "std::list" and t in ("n::P", "n::T1<int>"):   # sort, merge, unique, remove do not compile: binder binds every member of a template it meets
                continue
            if kind != "std::vector" and not c.thorough and t in ("double", "n::S", "unsigned char", "n::T1<int>"):
                continue
            vals, pre, wrong, cmp = el[t]
            C = "%s<%s>" % (kind, t)
            name = (kind[5:] + "_" + gname[t]) + ("" if gname[t].endswith("_t") else "_t")
            h = COMMON + """namespace n {{ inline std::string dump({C} const &c) {{ return vf::all(c); }} inline {C} copy({C} c) {{ return c; }} struct H {{ {C} v; {C} &r() {{ return v; }} std::string dump() const {{ return vf::all(v); }} void put({t} const &t) {{ v.push_back(t); }} }}; }}
""".format(C=C, t=t)
            s = PY + GEN_PY + "cls, vals, pre, L = m.std.%s, %s, %r, %d\ndump = m.n.dump\ndef fresh(v, w): v.push_back(w)\n" % (name, vals, pre, L)
            for o in opnames:
                s += SEQ_OPS[o] + "\n"
            for k, w in enumerate(wrong):
                s += "op('push_back wrong %d', lambda v: v.push_back(%s), lambda l: raiser(TypeError))\n" % (k, w)
            s += "run(cls, dump, m.n.copy, m.n.H, vals, pre, ops, fresh, L, [], True)\n"
            jobs.append(("generated " + C, h, s + END, ["+namespace n"], []))
    for t, vals in (("int", "[3, -1, 7]"), ("std::string", "['b', '', 'ab']"), ("n::E", "[m.n.E.e1, m.n.E.e0, m.n.E.e2]")):
        C = "std::set<%s>" % t
        h = COMMON + """namespace n {{ inline std::string dump({C} const &c) {{ return vf::all(c); }} inline {C} copy({C} c) {{ return c; }} inline void put({C} &c, {t} const &t) {{ c.insert(t); }} struct H {{ {C} v; {C} &r() {{ return v; }} std::string dump() const {{ return vf::all(v); }} void put({t} const &t) {{ v.insert(t); }} }}; }}
""".format(C=C, t=t)
        s = PY + GEN_PY + "cls, vals, pre, L = m.std.set_%s_t, %s, '', %d\ndump = m.n.dump\nfresh = m.n.put\ndef ordered_(l): return sorted({show(x): x for x in l}.values(), key=lambda x: int(x) if not isinstance(x, str) else x)\n" % (gname[t], vals, L + 1)
        s += "for o in [0]:\n pass\n" + "\n".join(SEQ_OPS[o] for o in ("size", "empty", "clear", "swap", "max_size", "copy")) + "\n"
        s += "for k, x in enumerate(vals):\n op('count %d' % k, lambda v, x=x: v.count(x), lambda l, x=x: int(x in l))\n op('erase %d' % k, lambda v, x=x: v.erase(x), lambda l, x=x: (l.remove(x), 1)[1] if x in l else 0)\n"
        s += "run(cls, dump, m.n.copy, m.n.H, vals, pre, ops, fresh, L, [], False)\n"
        jobs.append(("generated " + C, h, s + END, ["+namespace n"], []))
    return jobs


def body(c):
    run.exe()
    pyb.pch()
    jobs = binders_part(c) + families_part(c) + generated_part(c)
    only = os.environ.get("VF_ONLY")
    if only:
        jobs = [j for j in jobs if only in j[0]]
    sb = stl_header()

    def work(j):
        name, h, script, cfg, args = j
        case = Case({"a.hpp": "#pragma once\n" + INC + h, "stl_binders.hpp": sb}, config=cfg, args=["--single-file"] + args, inp="#include <a.hpp>\n", key=name)
        py, r = pyb.check_module(case, script)
        return case, py.stage, py.out, py.data

    for case, stage, out, data in run.pmap(work, jobs):
        c.traces += 1
        if data is None:
            err = [l for l in out.split("\n") if "error" in l or "Error" in l][:3]
            c.violation(case.key, ["%s fails: %s" % (stage, (err or [out[-600:]]))], case.describe())
            continue
        c.transitions += data["steps"]
        for k in range(data["states"]):
            c.states.add((case.key, k))
        c.outcomes.add((case.key, data["steps"]))
        if data["problems"]:
            c.violation(case.key, data["problems"], case.describe())
    c.sample({"container classes": [j[0] for j in jobs]})
    c.bounds = {"classes": len(jobs), "length": 3 if c.thorough else 2, "values": "2 or 3 per element type"}


main("C20", body, rule="all contents up to the bound x all operations x origin of the object (Python, member, reference, pointer, shared pointer, copy); model: list, dict, set; C++ reports its own view after every operation")
