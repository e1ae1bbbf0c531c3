import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import build, parse, pyb, report, run  # noqa: E402,F401
from vf.parse import norm, tnorm  # noqa: E402,F401
from vf.report import Verdict, main  # noqa: E402,F401
from vf.run import Case  # noqa: E402,F401


def failed(case, r):
    """Verdict for a run that had to succeed but did not."""
    return Verdict(["binder exited with status %s on a program it has to accept: %s" % (r.rc, r.out[-800:].strip())])


def diff(what, want, got):
    """Problems from comparing two collections (as multisets)."""
    from collections import Counter
    w, g = Counter(want), Counter(got)
    p = []
    for x in (w - g):
        p.append("%s: expected but missing: %s" % (what, x))
    for x in (g - w):
        p.append("%s: present but not expected: %s (x%d, expected x%d)" % (what, x, g[x], w[x]))
    return p
