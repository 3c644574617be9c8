"""C29: Student quantiles and confidence intervals (theory/utils/student_stat.py); the oracle is scipy.stats."""
from fractions import Fraction
from scipy import stats
from contracts.theory import *

F = "theory/utils/student_stat.py"
SIZES = list(range(5, 21)) + [25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120]
LEVELS = (0.95, 0.99, 0.999)
TOL = 0.012


def rv(x):
    return z3.RealVal(repr(float(x)))


def quantile(level, size):
    """two-sided quantile; size None = normal law"""
    p = (1 + level) / 2
    return stats.norm.ppf(p) if size is None else stats.t.ppf(p, size - 1)


def nearest(n, s):
    """s is a tabulated size nearest to n"""
    return z3.And(*[z3.If(n >= s, n - s, s - n) <= z3.If(n >= o, n - o, o - n) for o in SIZES])


def unit(what):
    t = T(what)
    n = z3.Int("n")
    if what == "quantiles":
        for level in LEVELS:
            st = t.st(n >= 5)
            for s, v in t.call(F, "get_ty", st, [Fraction(repr(level)), n], what=f"get_ty({level}, n)"):
                t.chk(s, v is not None, f"quantile at {level}: a number for every n >= 5")
                if v is None:
                    continue
                v = zr(v)
                alts = [z3.And(n <= 120, nearest(n, z), v >= rv(quantile(level, z) - TOL), v <= rv(quantile(level, z) + TOL)) for z in SIZES]
                alts.append(z3.And(n > 120, v >= rv(quantile(level, None) - TOL), v <= rv(quantile(level, 121) + TOL)))
                t.chk(s, z3.Or(*alts), f"quantile at {level}: Student's at the tabulated size nearest n")
    else:
        ty = z3.Real("ty")
        m, sd = t.reals("mean std")
        for level in LEVELS:
            st = t.st(n >= 5, sd >= 0, ty > 0)
            seen = []
            t.vc.contracts = {"get_ty": lambda vc, s, recv, a, kw: (seen.append((list(a), kw)), [(s, ty)])[1]}
            for s, v in t.call(F, "get_conf_intervals", st, [Fraction(repr(level)), n, m, sd], what=f"get_conf_intervals({level})"):
                for a, kw in seen:
                    full = dict(zip(("gamma", "n"), a))
                    full.update(kw)
                    t.chk(s, z3.And(zr(full["gamma"]) == rv(level), zr(full["n"]) == z3.ToReal(n)), "interval: quantile of the same level and sample size")
                lo, hi = tuple(v) if isinstance(v, tuple) else t.items(s, v)
                w1, w2 = (m - zr(lo)), (zr(hi) - m)
                t.eq(s, w1, w2, "interval: symmetric around the mean")
                t.chk(s, z3.And(w1 >= 0, w1 * w1 * z3.ToReal(n) == ty * ty * sd * sd), "interval: half-width squared = ty^2 std^2 / n")
    return t.vc


UNITS = ("quantiles", "interval")
