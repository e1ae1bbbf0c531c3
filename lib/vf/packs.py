"""Many small programs ("items") put into one module, compiled with the real pybind11 and asked questions from Python.

An item is a piece of C++ (inside namespace n), the config lines it needs, and questions: Python expressions with the answer the reference model expects.
Items of a pack that fails as a whole are tried in halves until the failing ones are found.
"""
import json

from . import pyb, run
from .run import Case

PRELUDE = '''import json, sys, m
res = {}
def ask(k, *fs):
    out = []
    for f in fs:
        try: out.append(f())
        except AttributeError: out.append("AttributeError")
        except BaseException as e: out.append(type(e).__name__)
    res[k] = out
def dig(o, path):
    for p in path.split('.'):
        o = getattr(o, p, None)
        if o is None: return None
    return o
def has(path): return dig(m, path) is not None
def kids(path, prefix):
    o = dig(m, path)
    return [] if o is None else sorted(x for x in dir(o) if x.startswith(prefix))
def own(path): return sorted(x for x in vars(dig(m, path)) if not x.startswith('_'))
'''


class Item:
    def __init__(self, key, text, asks, config=(), outside="", extra="", headers=None):
        self.key, self.text, self.asks, self.config, self.outside, self.extra = key, text, asks, list(config), outside, extra
        self.headers = headers or {}
        self.i = None


def explore(c, items, pre="", per=40, args=("--single-file",), bind=("+namespace n",), prelude="", wrap=True, label="", limit=4, std="c++17", strict=True):
    """Runs all items; every differing answer is a violation."""
    items = list(items)
    for i, it in enumerate(items):
        it.i = i

    def header(g):
        return pre + "".join(k.outside + "\n" for k in g if k.outside) + ("namespace n {\n" if wrap else "") + "\n".join(k.text for k in g) + ("\n}\n" if wrap else "\n")

    def module(g):
        h = {"a.hpp": header(g)}
        for k in g:
            h.update(k.headers)
        case = Case(h, config=list(bind) + [l for k in g for l in k.config], args=list(args), key=g[0].key, inp='#include <a.hpp>\n', std=std)
        script = PRELUDE + prelude + "\n" + "\n".join("ask('%d', %s)" % (k.i, ", ".join("lambda: (%s)" % e for e, _ in k.asks)) for k in g) + "\nprint(json.dumps(res))\n"
        x = "\n".join(k.extra for k in g if k.extra)
        return case, *pyb.check_module(case, script, extra_cpp={"probe.cpp": "#include <a.hpp>\n" + x} if x else None)

    def judge(g, py):
        bad = []
        for k in g:
            got = py.data[str(k.i)]
            for (e, want), v in zip(k.asks, got):
                if callable(want):
                    ok, want = want(v), want.__doc__ or "another answer"
                else:
                    want = json.loads(json.dumps(want))
                    ok = v == want
                if not ok:
                    bad.append((k, "%s gives %s instead of %s" % (e, json.dumps(v), json.dumps(want))))
        return bad

    def work(ks):
        out, todo, steps, outc = [], [ks], 0, set()
        while todo and len(out) < limit:
            g = todo.pop()
            case, py, r = module(g)
            if py.stage == "done":
                out += judge(g, py)
                steps += sum(len(k.asks) for k in g)
                for v in py.data.values():
                    outc.add(json.dumps(v)[:200])
            elif len(g) > 1:
                todo += [g[len(g) // 2:], g[:len(g) // 2]]
            else:
                e = [l for l in py.out.split("\n") if "rror" in l or "undefined" in l][:2] or [py.out[-700:]]
                out.append((g[0], "%s failed: %s" % (py.stage, " | ".join(e)[:900])))
        return [k.i for k in ks], [(k.i, p) for k, p in out], steps, outc

    n = max(1, min(per, (len(items) + 7) // 8))
    packs = [items[j:j + n] for j in range(0, len(items), n)]
    for g, bad, steps, outc in run.pmap(work, packs):
        c.traces += 1
        c.transitions += steps
        for i in g:
            c.states.add(label + items[i].key)
        for x in outc:
            c.outcomes.add(x)
        seen = {}
        for i, p in bad:
            seen.setdefault(i, (items[i], []))[1].append(p)
        for k, ps in seen.values():
            c.violation(label + k.key, ps[:4], {"header": header([k]), "config": list(bind) + k.config, "extra headers": k.headers, "args": list(args)})
    if items:
        for k in (items[0], items[len(items) // 2], items[-1]):
            c.sample({"item": label + k.key, "text": k.text, "config": k.config, "questions": [(e, w if not callable(w) else "…") for e, w in k.asks]})
