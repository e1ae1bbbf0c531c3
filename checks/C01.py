"""C01: which namespaces are bound.

State: a set of namespace rules over a fixed namespace forest (names chosen so that one is a textual prefix of another).
All assignments rule-site -> {absent, bind, skip} are enumerated; each is delivered in several ways (config file in
declaration order, config file in reverse order, command line, split between both). The reference model is one line: the
rule with the longest matching namespace decides.
"""
import itertools
from common import *

SITES = ["", "a", "a::b", "a::b::c", "ab", "a::bc"]
CHAIN = ["p", "p::q", "p::q::p", "p::q::p::q", "p::q::p::q::r"]


def header(nss):
    t = "struct S_root { int v; void m(); struct In {}; };\nenum E_root { e_root };\nvoid f_root();\n"
    for n in nss:
        if n:
            tag = n.replace("::", "_")
            t += "namespace %s { struct S_%s { int v; void m(); struct In {}; }; enum E_%s { e_%s }; enum class K_%s { k }; void f_%s(); template<class T> struct T_%s { T t; }; inline T_%s<int> u_%s() { return {}; } }\n" \
                 % ((n,) + (tag,) * 8)
    return t


def decide(ns, bind, skip):
    """True / False / 'conflict' / None (no rule)."""
    def match(rule):
        r = rule.split("::") if rule else []
        return ns.split("::")[:len(r)] == r if ns or not r else False
    b = [len(x.split("::")) if x else 0 for x in bind if match(x)]
    s = [len(x.split("::")) for x in skip if x and match(x)]
    B, S = max(b, default=-1), max(s, default=-1)
    if B == S == -1:
        return None
    if B == S:
        return "conflict"
    return B > S


def judge(case, r):
    bind, skip, nss = case.data
    want = {n: decide(n, bind, skip) for n in nss}
    steps = len(nss)
    if "conflict" in want.values():
        if r.rc == 0:
            return Verdict(["rules %s contradict each other for %s, but binder reports success" % (case.key, [n for n in nss if want[n] == "conflict"])], steps)
        return Verdict([], steps, "conflict")
    if not r.ok:
        return failed(case, r)
    m = r.model()
    w, g = [], []
    for n in nss:
        if want[n] is True:
            tag = n.replace("::", "_") or "root"
            q = n + "::" if n else ""
            w += [("class", n, q + "S_" + tag, "S_" + tag), ("enum", n, q + "E_" + tag), ("fn", n, "f_" + tag), ("nested", q + "S_" + tag + "::In")]
            if n:
                w += [("enum", n, q + "K_" + tag), ("fn", n, "u_" + tag), ("class", n, q + "T_" + tag + "<int>", "T_" + tag + "_int_t")]
    for c in m.classes():
        if c.parent is None:
            g.append(("class", c.scope[1] if c.scope[0] == "M" else c.scope, tnorm(c.type), c.name))
        else:
            g.append(("nested", tnorm(c.type)))
    for e in m.enums():
        g.append(("enum", e.scope[1], tnorm(e.type)))
    for n, d in m.fdefs():
        g.append(("fn", n, d.name))
    return Verdict(diff("bindings", w, g), steps, sorted(w))


def rules_case(nss, assign, mode, key):
    bind = [n for n, a in assign.items() if "+" in a]
    skip = [n for n, a in assign.items() if "-" in a]
    lines = []
    for n, a in assign.items():
        if n:
            lines += [x + "namespace " + n for x in a]
    cli = ["--bind=" + n for n in bind if n == ""]
    if mode == "config":
        cfg, args = lines, cli
    elif mode == "reversed":
        cfg, args = lines[::-1], cli
    elif mode == "cli":
        cfg, args = None, ["--bind=" + n for n in bind] + ["--skip=" + n for n in skip]
    elif mode == "cli-reversed":
        cfg, args = None, (["--bind=" + n for n in bind] + ["--skip=" + n for n in skip])[::-1]
    else:   # split: bind rules on the command line, skip rules in the config
        cfg, args = ["-namespace " + n for n in skip], ["--bind=" + n for n in bind]
    return Case(header(nss), config=cfg, args=args + ["--single-file"], key=key, data=(bind, skip, nss))


def body(c):
    cases = []
    modes = ["config", "reversed", "cli", "cli-reversed", "split"]
    for i, combo in enumerate(itertools.product(["", "+"], *[["", "+", "-"]] * (len(SITES) - 1))):
        assign = dict(zip(SITES, combo))
        for mode in (modes if c.thorough else [modes[0], modes[1 + i % 4]]):
            cases.append(rules_case(SITES, assign, mode, "forest/%s/%s" % (mode, ",".join(a + n if a else "." for n, a in assign.items()))))
    c.bounds["forest"] = "all 2*3^5 assignments over %s" % SITES
    c.explore(cases, judge, "forest")
    # a chain of nested namespaces whose components repeat
    cases = []
    for combo in itertools.product(["", "+", "-"], repeat=len(CHAIN)):
        assign = dict(zip(CHAIN, combo))
        cases.append(rules_case(CHAIN, assign, "config", "chain/" + ",".join(a + n if a else "." for n, a in assign.items())))
    c.bounds["chain"] = "all 3^5 assignments over %s" % CHAIN
    c.explore(cases, judge, "chain")
    # both rules for one namespace, within and across channels, alone and with a decision above/below it
    cases = []
    nss = ["a", "a::b", "a::b::c"]
    for combo in itertools.product(["", "+", "-", "+-"], repeat=3):
        assign = dict(zip(nss, combo))
        for mode in ("config", "cli", "split"):
            cases.append(rules_case(nss, assign, mode, "conflict/%s/%s" % (mode, ",".join(a + n if a else "." for n, a in assign.items()))))
    c.bounds["conflict"] = "all 4^3 assignments {none,+,-,+ and -} over %s, three delivery modes" % nss
    c.explore(cases, judge, "conflict")
    # spelling of the rule line: blanks inside the name are ignored, repeated rules change nothing, anonymous and inline namespaces
    H = "namespace a { namespace { void hidden(); struct Hid {}; enum HE { he }; } namespace b { void g(); } void f(); } namespace { void hidden2(); struct H2 {}; }\n"
    def plain(case, r):
        if not r.ok:
            return failed(case, r)
        m = r.model()
        g = [n + "." + d.name for n, d in m.fdefs()] + [x.name for x in m.classes()] + [x.name for x in m.enums()]
        return Verdict(diff("bindings", case.data, g), 1, sorted(g))
    cases = []
    for i, (cfg, bind, want) in enumerate([
            (["+namespace a"], None, ["a.f", "a::b.g"]), (["+namespace  a"], None, ["a.f", "a::b.g"]), (["+namespace a :: b"], None, ["a::b.g"]),
            (["+namespace a::b", "+namespace a::b"], None, ["a::b.g"]), (["+namespace a", "-namespace a::b", "-namespace a::b"], None, ["a.f"]),
            ([], "", ["a.f", "a::b.g"]), (["-namespace a"], "", []), (["-namespace b"], "", ["a.f", "a::b.g"]), (["+namespace b"], None, []), (["+namespace a::"[:-2] + "a"], None, []), ([], None, [])]):
        cases.append(Case(H, config=cfg, bind=bind, args=["--single-file"], key="plain/%d" % i, data=want))
    c.explore(cases, plain, "anonymous and spelling")


main("C01", body, rule="every assignment of bind/skip/none to the rule sites, each run through the real binder; the model decides by longest matching namespace")
