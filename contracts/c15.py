"""C15: theoretical raw moments of the distributions (rand_distribution.py)."""
from math import comb, factorial

from contracts.theory import *

F = "rand_distribution.py"
ORDERS = (1, 2, 3, 4, 5, 6)


def raw_uniform(m, h, k):
    """E[(m + h U)^k], U uniform on [-1, 1]: E[U^j] = 1/(j+1) for even j, 0 for odd j"""
    return sum(comb(k, j) * ipow(m, k - j) * ipow(h, j) / (j + 1) for j in range(0, k + 1, 2))


def rising(a, k):
    r = z3.RealVal(1)
    for j in range(k):
        r = r * (a + j)
    return r


def raw_exp(mu, k):
    return factorial(k) / ipow(mu, k)


def raw_cox(y, m1, m2, k):
    """A + B with probability y, A otherwise; A, B exponential and independent"""
    return raw_exp(m1, k) + y * sum(comb(k, j) * raw_exp(m1, k - j) * raw_exp(m2, j) for j in range(1, k + 1))


def any_order(t, st, r, n, law, what):
    """postcondition for a symbolic number of moments: length and every element"""
    t.chk(st, zi(t.vc.length(st, r)) == n, f"{what}: as many moments as asked for, any number")
    i = z3.Int("i")
    s = st.fork()
    s.assume(z3.And(i >= 0, i < n))
    x = t.vc.getitem(s, r, i)
    t.chk(s, law(s, zr(x), i), f"{what}: moment of any order")


def unit(what):
    t = T(what)
    n = z3.Int("num")
    if what == "uniform":
        m, h = t.reals("mean half")
        pre = [h > 0]
        for k in ORDERS:
            st = t.st(*pre)
            for s, r in t.call(F, "Uniform_dist.calc_theory_moments", st, [m, h], {"num": k}):
                x = t.items(s, r)
                t.chk(s, len(x) == k, f"uniform: {k} moments")
                for i in range(k):
                    t.eq(s, x[i], raw_uniform(m, h, i + 1), f"uniform: moment {i + 1} of {k}")
        st = t.st(*pre, n >= 1)
        for s, r in t.call(F, "Uniform_dist.calc_theory_moments", st, [m, h, n]):
            any_order(t, s, r, n, lambda s, x, i: x * (2 * h * z3.ToReal(i + 2)) == POWI(m + h, i + 2) - POWI(m - h, i + 2), "uniform")
    elif what == "H2":
        y, a, b = t.reals("y1 m1 m2")
        pre = [a > 0, b > 0]
        for k in ORDERS:
            st = t.st(*pre)
            for s, r in t.call(F, "H2_dist.calc_theory_moments", st, [y, a, b], {"num": k}):
                x = t.items(s, r)
                t.chk(s, len(x) == k, f"H2: {k} moments")
                for i in range(k):
                    t.eq(s, x[i], y * raw_exp(a, i + 1) + (1 - y) * raw_exp(b, i + 1), f"H2: moment {i + 1} of {k}")
        st = t.st(*pre, n >= 1)
        for s, r in t.call(F, "H2_dist.calc_theory_moments", st, [y, a, b, n]):
            any_order(t, s, r, n, lambda s, x, i: x == z3.ToReal(FACT(i + 1)) * (y / POWI(a, i + 1) + (1 - y) / POWI(b, i + 1)), "H2")
    elif what in ("Erlang", "Gamma", "Exp"):
        mu = z3.Real("mu")
        if what == "Erlang":
            sh, pre = z3.Int("r"), [z3.Int("r") >= 1]
            fn, args, shr = "Erlang_dist.calc_theory_moments", [sh, mu], z3.ToReal(sh)
        elif what == "Gamma":
            shr = z3.Real("alpha")
            fn, args, pre = "Gamma.calc_theory_moments", [mu, shr], [shr > 0]
        else:
            shr, pre = z3.RealVal(1), []
            fn, args = "Exp_dist.calc_theory_moments", [mu]
        pre = pre + [mu > 0]
        for k in ORDERS:
            st = t.st(*pre)
            for s, r in t.call(F, fn, st, args, {"count": k}):
                x = t.items(s, r)
                t.chk(s, len(x) == k, f"{what}: {k} moments")
                for i in range(k):
                    t.eq(s, x[i], rising(shr, i + 1) / ipow(mu, i + 1), f"{what}: moment {i + 1} of {k}")
        st = t.st(*pre, n >= 1)
        for s, r in t.call(F, fn, st, args + [n]):
            def law(s, x, i):
                p = loops.sum_term(t.vc, s, lambda j: shr + z3.ToReal(j), 0, i + 1, kind="prod")
                return x * POWI(mu, i + 1) == p
            any_order(t, s, r, n, law, what)
    elif what == "Cox":
        y, a, b = t.reals("y1 m1 m2")
        st = t.st(a > 0, b > 0)
        for s, r in t.call(F, "Cox_dist.calc_theory_moments", st, [y, a, b]):
            x = t.items(s, r)
            t.chk(s, len(x) == 3, "Cox: three moments")
            for i in range(3):
                t.eq(s, x[i], raw_cox(y, a, b, i + 1), f"Cox: moment {i + 1}")
    elif what == "Pareto":
        a, k = t.reals("a k")
        for num in ORDERS:
            st = t.st(a > 0, k > 0)
            for s, r in t.call(F, "Pareto_dist.calc_theory_moments", st, [a, k], {"max_number": num}):
                x = t.items(s, r)
                # finite moments only: E[X^i] is finite exactly when a > i
                t.chk(s, len(x) <= num, f"Pareto: at most {num} moments")
                for i in range(1, num + 1):
                    t.chk(s, (a > i) if len(x) >= i else (a <= i), f"Pareto: order {i} of {num} returned exactly when finite ({len(x)} returned)")
                for i in range(len(x)):
                    t.chk(s, zr(x[i]) * (a - (i + 1)) == a * ipow(k, i + 1), f"Pareto: moment {i + 1} of {num} ({len(x)} returned)")
    return t.vc


UNITS = ("uniform", "H2", "Erlang", "Gamma", "Exp", "Cox", "Pareto")
