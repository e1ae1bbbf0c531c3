"""Counting, verdicts, evidence, replay files, known findings."""
import hashlib
import json
import os
import sys
import time
import traceback

from . import build, run

HERE = build.HERE
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


class Verdict:
    """What judging one execution gave: problems, number of model steps compared, observed outcome."""

    def __init__(self, problems=None, steps=0, outcome=None, extra=None):
        self.problems, self.steps, self.outcome, self.extra = problems or [], steps, outcome, extra


class Check:
    def __init__(self, pid, level="model_checking", rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.tier = "thorough" if TIER == "thorough" or "thorough" in sys.argv[1:] else "quick"
        self.states, self.transitions, self.traces, self.imports = set(), 0, 0, 0
        self.samples, self.outcomes, self.violations, self.bounds = [], set(), [], {}
        self.assumptions, self.known_hit, self.extra = [], {}, {}
        self.exhaustive = True
        self.max_report = int(os.environ.get("VERIF_REPORT", "5"))
        self.stop_after = 12
        try:
            with open(HERE + "/known_findings.json") as f:
                kf = json.load(f)
        except FileNotFoundError:
            kf = {"findings": []}
        self.known = {k["key"]: k for k in kf["findings"] if k["property"] == pid and k["status"] == "known"}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def step(self, n=1):
        self.transitions += n

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, key, problem, replay):
        key = str(key)
        if key in self.known:
            self.known_hit[key] = problem
            return
        self.violations.append({"key": key, "problem": problem, "replay": replay})

    # -- exploring executions of binder ------------------------------------------------------------------------
    def explore(self, cases, judge, label=""):
        """Runs binder on every case and judges it. judge(case, result) -> Verdict."""
        t0 = time.time()
        n = 0

        def one(case):
            r = run.run(case)
            return _judge(judge, case, r)

        if len(self.violations) >= self.stop_after:
            return 0
        cases = list(cases)
        keys = set()
        for c in cases:
            if c.key in keys:
                raise RuntimeError("case key used twice: %r" % (c.key,))
            keys.add(c.key)
        for case, v in zip(cases, run.pmap(one, cases, chunk=4 if len(cases) > 200 else 1)):
            n += 1
            self.traces += 1
            self.transitions += v.steps
            self.states.add(h((case.headers, case.config, case.argv(), case.std, case.root, case.inp)))
            if v.outcome is not None:
                self.outcomes.add(h(v.outcome))
            if n in (1, len(cases) // 2):
                self.sample({"case": case.describe(), "outcome": str(v.outcome)[:600]})
            if v.problems:
                # replay alone before reporting
                case.timeout *= 4
                v2 = _judge(judge, case, run.run(case))
                if v2.problems:
                    self.violation(case.key, v2.problems[:6], case.describe())
                    if len(self.violations) >= self.stop_after:     # a broken tree need not be explored to the end
                        self.exhaustive = False
                        break
        self.extra.setdefault("parts", []).append({"part": label, "executions": n, "wall_s": round(time.time() - t0, 1)})
        return n

    # -- the end -----------------------------------------------------------------------------------------------
    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": {
                "states": len(self.states), "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "distinct_outcomes": len(self.outcomes), "samples": self.samples, "exhaustive": self.exhaustive,
                "bounds": self.bounds, "rule": self.rule, **self.extra,
                "binder_build": run.INFO,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        if self.level == "fault_enumeration":
            ev["coverage"]["evaluations"] = self.traces
            ev["coverage"]["distinct_nontrivial"] = len(self.outcomes)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        lines = []
        for k, p in sorted(self.known_hit.items()):
            lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]["what"]))
        for i, v in enumerate(self.violations[:self.max_report]):
            p = HERE + "/evidence/%s-replay-%d.json" % (self.pid, i)
            with open(p, "w") as f:
                json.dump({"property": self.pid, **v}, f, indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, p))
            lines.append("  case %s" % v["key"])
            for q in v["problem"] if isinstance(v["problem"], list) else [v["problem"]]:
                lines.append("    " + str(q)[:1500])
        if len(self.violations) > self.max_report:
            lines.append("... %d violations in all" % len(self.violations))
        tmp = HERE + "/evidence/.%s.tmp" % self.pid
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, HERE + "/evidence/%s.json" % self.pid)
        lines.append("%s %s: %d states, %d transitions, %d executions of the real code, %d distinct outcomes, %d violations, %.1f s"
                     % (self.pid, self.tier, len(self.states), self.transitions, self.traces, len(self.outcomes), len(self.violations), time.time() - self.t0))
        print("\n".join(lines), flush=True)
        return 1 if self.violations else 0


def _judge(judge, case, r):
    if r.timed_out:
        return Verdict(["binder did not finish within %d s" % case.timeout])
    try:
        return judge(case, r)
    except Exception:
        tb = traceback.format_exc()
        return Verdict(["what binder wrote could not be interpreted (exit status %d):\n%s\n--- output\n%s" % (r.rc, tb[-1500:], r.out[-600:])])


def main(pid, body, level="model_checking", rule=""):
    """Entry point of every check script."""
    c = Check(pid, level, rule)
    try:
        run.exe()
        body(c)
        rc = c.finish()
    except build.BuildError as e:
        print("ERROR: /repo does not build:\n" + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
        if c.violations:        # what was found before the trouble still counts
            rc = c.finish()
    finally:
        run.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
