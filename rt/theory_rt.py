"""Executable contracts of the analytical part: random inputs, independent oracles, tolerance comparison (bounded)."""
import inspect
import math
import random
import time
import traceback

from common import rel, quiet

CLAUSES = {}


class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def same(got, want, msg, tol=1e-7, scale=0.0):
    ok = False
    try:
        ok = abs(got - want) <= tol * max(abs(want), abs(got), scale) + 1e-300
    except TypeError:
        pass
    if not ok:
        raise Bad(f"{msg}: got {got!r}, expected {want!r}")


def sames(got, want, msg, tol=1e-7, scale=0.0):
    need(len(got) == len(want), f"{msg}: {len(got)} values instead of {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, f"{msg}[{i}]", tol, scale)


def clause(prop, gen, name=None):
    """gen(rng) -> dict of JSON-able inputs"""
    def deco(f):
        CLAUSES.setdefault(prop, {})[name or f.__name__] = (gen, f)
        return f
    return deco


def run_clause(prop, name, inputs, rep, key=None):
    f = CLAUSES[prop][name][1]
    try:
        quiet(f, **inputs)
    except Bad as e:
        rep.add(prop, f"{name}: {e}; inputs {inputs}", {"driver": "theory", "prop": prop, "clause": name, "inputs": inputs})
        return False
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}" if tb else ""
        rep.add(prop, f"{name}: {type(e).__name__}: {e} at {where}; inputs {inputs}", {"driver": "theory", "prop": prop, "clause": name, "inputs": inputs})
        return False
    return True


def battery(props, seed, budget, rep):
    for prop in props:
        cl = CLAUSES.get(prop, {})
        if not cl:
            continue
        t_end = time.time() + budget
        rng = random.Random(f"{seed}/{prop}")
        bad, n = set(), 0
        while time.time() < t_end and n < 3000 and len(bad) < len(cl):
            for name, (gen, f) in cl.items():
                if name in bad or (n and time.time() > t_end):
                    continue
                inputs = gen(rng)
                rep.runs += 1
                rep.distinct.add((name, repr(inputs)))
                if len(rep.samples) < 3 and rng.random() < .3:
                    rep.samples.append({"clause": name, "inputs": inputs})
                if not run_clause(prop, name, inputs, rep):
                    bad.add(name)
            n += 1


def replay(data, rep):
    for v in data.get("failing_inputs", []):
        d = v.get("input") or {}
        if d.get("driver") == "theory":
            rep.runs += 1
            run_clause(d["prop"], d["clause"], d["inputs"], rep)


# ---------------------------------------------------------------------------------------------- generators
def u(rng, a, b):
    """mostly ordinary values, sometimes the ends, integers and round values"""
    r = rng.random()
    if r < .1 and math.ceil(a) <= math.floor(b):
        return float(rng.randint(math.ceil(a), math.floor(b)))
    if r < .2:
        return round(rng.uniform(a, b), 1) or a
    return rng.uniform(a, b)


def mix_moments(rng, n):
    """raw moments of a positive random variable (a mixture of two points and an exponential)"""
    xs = [u(rng, .05, 4) for _ in range(3)]
    ps = [rng.random() for _ in range(3)]
    s = sum(ps)
    ps = [p / s for p in ps]
    return [ps[0] * xs[0] ** k + ps[1] * xs[1] ** k + ps[2] * math.factorial(k) * xs[2] ** k for k in range(1, n + 1)]


def gamma_moments(mean, coev, n):
    al = 1 / coev ** 2
    mu = al / mean
    out, p = [], 1.0
    for k in range(n):
        p *= (al + k) / mu
        out.append(p)
    return out


def central(m):
    return m[1] - m[0] ** 2


from theory_clauses import *  # noqa: E402,F401,F403
