"""C25: Poisson arrivals during a random time (theory/utils/q_poisson_arrival_calc.py)."""
from math import factorial

from contracts.theory import *
from contracts.c17 import deriv

F = "theory/utils/q_poisson_arrival_calc.py"


def pois(l, t, j):
    return ipow(l * t, j) / factorial(j) * EXP(-(l * t))


def unit(what):
    t = T(what)
    l, mu, al, m, h, K = t.reals("l mu alpha mean half K")
    n = z3.Int("num")
    if what == "gamma":
        # integral of (l t)^j/j! e^(-lt) against the Gamma density = Gamma(al+j)/(Gamma(al) j!) (mu/(mu+l))^al (l/(mu+l))^j
        pre = [l > 0, mu > 0, al > 0]
        for num in (1, 2, 3, 5, 7):
            st = t.st(*pre)
            for s, r in t.call(F, "get_q_Gamma", st, [l, mu, al, num]):
                q = t.items(s, r)
                t.chk(s, len(q) == num, f"Gamma num={num}: number of probabilities")
                rise = z3.RealVal(1)
                for j in range(len(q)):
                    t.eq(s, q[j], POWR(mu / (mu + l), al) * rise / factorial(j) * ipow(l / (mu + l), j), f"Gamma num={num}: probability of {j} arrivals")
                    rise = rise * (al + j)
        st = t.st(*pre, n >= 1)
        for s, r in t.call(F, "get_q_Gamma", st, [l, mu, al, n]):
            t.chk(s, zi(t.vc.length(s, r)) == n, "Gamma: number of probabilities, any number")
            t.eq(s, t.vc.getitem(s, r, 0), POWR(mu / (mu + l), al), "Gamma: probability of no arrival")
            j = z3.Int("j")
            s2 = s.fork()
            s2.assume(z3.And(j >= 1, j < n))
            a, b = zr(t.vc.getitem(s2, r, j)), zr(t.vc.getitem(s2, r, j - 1))
            jr = z3.ToReal(j)
            t.chk(s2, a * ((l + mu) * jr) == b * l * (al + jr - 1), "Gamma: ratio of neighbouring probabilities, any number")
        # special case: exponential service (alpha = 1) gives the geometric law
        st = t.st(l > 0, mu > 0)
        t.vc.contracts = {}
        for s, r in t.call(F, "get_q_Gamma", st, [l, mu, 1, 5], what="get_q_Gamma(alpha=1)"):
            for j, x in enumerate(t.items(s, r)):
                t.eq(s, x, mu / (mu + l) * ipow(l / (mu + l), j), f"exponential service: geometric law, {j} arrivals", rules=[(POWR(mu / (mu + l), z3.RealVal(1)), mu / (mu + l))])
    elif what == "uniform":
        pre = [l > 0, h > 0, m >= h]
        u = z3.Real("u")
        for j in range(6):
            # antiderivative of the Poisson probability
            G = -(1 / l) * EXP(-(l * u)) * sum(ipow(l * u, i) / factorial(i) for i in range(j + 1))
            st = t.st(l > 0)
            t.eq(st, deriv(G, u), pois(l, u, j), f"lemma: antiderivative of the Poisson probability of {j} arrivals")
        for num in (1, 2, 4, 6):
            st = t.st(*pre)
            for s, r in t.call(F, "get_q_uniform", st, [l, m, h, num]):
                q = t.items(s, r)
                t.chk(s, len(q) == num, f"uniform num={num}: number of probabilities")
                for j in range(len(q)):
                    Gj = lambda v: -(1 / l) * EXP(-(l * v)) * sum(ipow(l * v, i) / factorial(i) for i in range(j + 1))
                    a, b = z3.simplify(m - h), z3.simplify(m + h)
                    ea, eb = EXP(-(l * (m - h))), EXP(-(l * (m + h)))
                    S = lambda v: sum(ipow(l * v, i) / factorial(i) for i in range(j + 1))
                    t.eq(s, q[j], (ea * S(m - h) - eb * S(m + h)) / (2 * h * l), f"uniform num={num}: probability of {j} arrivals is the mean of the Poisson probability over the interval")
    elif what == "pareto":
        pre = [l > 0, al > 0, K > 0]
        G0 = z3.Real("upper_gamma_minus_alpha")
        t.vc.contracts = {"Gamma.get_minus_gamma": lambda vc, s, recv, a, kw: [(s, z3.Function("minus_gamma", R, R)(zr(recv if recv is not None else a[0])))],
                          "Gamma.get_gamma_small": lambda vc, s, recv, a, kw: [(s, z3.Function("gamma_small", R, R, R)(*[zr(x) for x in (([recv] if recv is not None else []) + list(a))[:2]]))]}
        t.vc.assumptions.add("Gamma.get_minus_gamma(a) = Gamma(-a) and Gamma.get_gamma_small(x, z) = lower incomplete Gamma function (bounded numeric check)")
        base = z3.Function("minus_gamma", R, R)(al) - z3.Function("gamma_small", R, R, R)(-al, l * K)
        z = l * K
        for num in (1, 2, 3, 5):
            st = t.st(*pre)
            for s, r in t.call(F, "get_q_Pareto", st, [l, al, K, num]):
                q = t.items(s, r)
                t.chk(s, len(q) == num, f"Pareto num={num}: number of probabilities")
                g = base
                for j in range(len(q)):
                    if j:
                        g = (j - al - 1) * g + POWR(z, j - al - 1) * EXP(-z)
                    t.eq(s, q[j], al * POWR(z, al) * g / factorial(j), f"Pareto num={num}: probability of {j} arrivals through the incomplete Gamma function")
    return t.vc


UNITS = ("gamma", "uniform", "pareto")
