"""Executable contracts, run on the real code under the repository's own interpreter.

This is the replay / falsification side: when an obligation fails, the same contract clauses are evaluated on
concrete executions of /repo to look for a failing input.  It is bounded and is never counted as proof.
"""
import contextlib
import importlib
import io
import math
import os
import pkgutil
import random
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")


class Script:
    """distribution object that returns the values of a script (cyclically)"""

    def __init__(self, values):
        self.values = list(values)
        self.i = 0
        self.drawn = []
        self.params = [1.0, 1.0, 1.0]
        self.type = "Script"
        self.f = [1.0, 2.0, 6.0]

    def generate(self, *a, **k):
        v = self.values[self.i % len(self.values)]
        self.i += 1
        self.drawn.append(v)
        return v


@contextlib.contextmanager
def scripted():
    """every create_distribution(params, ...) whose params is a Script returns that script"""
    import most_queue.sim.utils.distribution_utils as du
    orig = du.create_distribution

    def create(params, *a, **k):
        return params if isinstance(params, Script) else orig(params, *a, **k)
    saved = []
    mods = [m for n, m in list(sys.modules.items()) if n.startswith("most_queue") and m is not None]
    for m in mods:
        if getattr(m, "create_distribution", None) is orig:
            saved.append(m)
            m.create_distribution = create
    try:
        yield
    finally:
        for m in saved:
            m.create_distribution = orig


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def close(a, b, tol=1e-6, scale=None):
    try:
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= tol * max(scale if scale is not None else 1.0, abs(a), abs(b))
    except TypeError:
        return False


def rel(a, b, tol=1e-6):
    try:
        return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300
    except TypeError:
        return False


class Report:
    """violations found, by property"""

    def __init__(self, props=None):
        self.props = set(props) if props else None
        self.viol = []
        self.runs = 0
        self.distinct = set()
        self.samples = []

    def add(self, prop, what, data):
        if self.props is None or prop in self.props:
            self.viol.append({"property": prop, "what": what, "input": data})

    def full(self):
        return len(self.viol) >= 5


def limited(q, steps):
    """run() may not go on for ever in a check"""
    step, left = q.run_one_step, [steps]

    def one():
        left[0] -= 1
        if left[0] < 0:
            raise RuntimeError(f"no end after {steps} events")
        return step()
    q.run_one_step = one
