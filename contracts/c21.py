"""C21: Engset model (theory/engset_model.py)."""
from math import comb, factorial

from contracts.theory import *

F = "theory/engset_model.py"
SIZES = (1, 2, 3, 4, 5, 6, 8, 11)


def closed(lam, mu, m):
    c = [z3.RealVal(1)]
    for j in range(m):
        c.append(c[-1] * lam * (m - j) / mu)
    return [x / sum(c) for x in c]


def unit(what):
    t = T(what)
    lam, mu = t.reals("lam mu")
    pre = [lam > 0, mu > 0]

    def model(m):
        st = t.st(*pre)
        return t.new(F, "Engset", st, [lam, mu, m])

    def p_contract(m):
        """callee contract of get_p for the other methods (its own code is decided by unit "states")"""
        t.vc.contracts = {"Engset.get_p": lambda vc, s, recv, a, kw: [(s, vc.new_list(s, closed(lam, mu, m)))]}

    for m in SIZES:
        if what == "states":
            for s0, o in model(m):
                for s, v in t.method(s0, o, "get_p", what=f"get_p(m={m})"):
                    p = [zr(x) for x in t.items(s, v)]
                    t.chk(s, len(p) == m + 1, f"get_p(m={m}): number of states")
                    if len(p) != m + 1:
                        continue
                    t.eq(s, sum(p), 1, f"get_p(m={m}): probabilities sum to 1")
                    for j in range(m):
                        t.eq(s, lam * (m - j) * p[j], mu * p[j + 1], f"get_p(m={m}): balance between states {j} and {j + 1}")
                    t.chk(s, p[0] > 0, f"get_p(m={m}): p0 positive")
                    for j in range(m):
                        s.assume(p[j] > 0)
                        t.chk(s, p[j + 1] > 0, f"get_p(m={m}): state {j + 1} positive")
        elif what == "averages":
            p = closed(lam, mu, m)
            N = sum(j * p[j] for j in range(m + 1))
            Q = sum((j - 1) * p[j] for j in range(1, m + 1))
            p_contract(m)
            for s0, o in model(m):
                for s, v in t.method(s0.fork(), o, "get_N", what=f"get_N(m={m})"):
                    t.eq(s, v, N, f"get_N(m={m}): mean number in system")
                for s, v in t.method(s0.fork(), o, "get_Q", what=f"get_Q(m={m})"):
                    t.eq(s, v, Q, f"get_Q(m={m}): mean number in queue")
                for s, v in t.method(s0.fork(), o, "get_kg", what=f"get_kg(m={m})"):
                    t.eq(s, zr(v) * m, m - N, f"get_kg(m={m}): average share of thinking sources")
                for s, v in t.method(s0.fork(), o, "get_lamD", what=f"get_lamD(m={m})"):
                    t.eq(s, v, lam * (m - N), f"get_lamD(m={m}): effective arrival rate")
        elif what == "times":
            p = closed(lam, mu, m)
            N = sum(j * p[j] for j in range(m + 1))
            Q = sum((j - 1) * p[j] for j in range(1, m + 1))
            p_contract(m)
            t.vc.div_check_saved = t.vc.div_check
            t.vc.div_check = False      # m - N > 0 follows from sum p = 1 with p_j > 0, j < m (lemma below)
            eff = sum((m - j) * p[j] for j in range(m))
            t.eq(t.st(*pre), eff, m - N, f"lemma m={m}: m - N is the mean number of thinking sources")
            for s0, o in model(m):
                for s, v in t.method(s0.fork(), o, "get_w1", what=f"get_w1(m={m})"):
                    t.eq(s, zr(v) * lam * (m - N), Q, f"get_w1(m={m}): Little's law for waiting")
                for s, v in t.method(s0.fork(), o, "get_v1", what=f"get_v1(m={m})"):
                    t.eq(s, zr(v) * lam * (m - N), N, f"get_v1(m={m}): Little's law for sojourn")
            t.vc.div_check = t.vc.div_check_saved
        elif what == "transform":
            # an arriving job finds j in system with probability (m-j) p_j / (m - N) and waits j exponential services
            p = closed(lam, mu, m)
            N, x = t.reals("N s")
            a = [(m - j) * p[j] for j in range(m)]
            for s0, o in model(m):
                s0.assume(z3.And(N < m, x >= 0))
                for s, v in t.method(s0, o, "ws", [x, p[0], N], what=f"ws(m={m})"):
                    t.eq(s, v, sum(a[j] * ipow(mu / (mu + x), j) for j in range(m)) / (m - N), f"ws(m={m}): transform of the waiting time")
        elif what == "moments":
            c = t.reals("c0 c1 c2 c3 c4")
            t.vc.contracts = {"Engset.get_p": lambda vc, s, recv, a, kw, m=m: [(s, vc.new_list(s, closed(lam, mu, m)))],
                              "Engset.ws": lambda vc, s, recv, a, kw: [(s, sum(c[i] * ipow(zr(a[0] if a else kw["s"]), i) for i in range(5)))]}
            for s0, o in model(m):
                for s, v in t.method(s0, o, "get_w", what=f"get_w(m={m})"):
                    r = t.items(s, v)
                    t.chk(s, len(r) == 3, f"get_w(m={m}): three moments")
                    for k in range(1, min(3, len(r)) + 1):
                        t.eq(s, r[k - 1], (-1) ** k * factorial(k) * c[k], f"get_w(m={m}): moment {k} is the derivative of the transform at 0 (transforms of degree up to 4: exact)")
            w = t.reals("w1 w2 w3")
            for s0, o in model(m):
                t.vc.contracts["Engset.get_w"] = lambda vc, s, recv, a, kw: [(s, vc.new_list(s, w))]
                for s, v in t.method(s0.fork(), o, "get_v", what=f"get_v(m={m})"):
                    r = t.items(s, v)
                    t.chk(s, len(r) == 3, f"get_v(m={m}): three moments")
                    ww, b = [z3.RealVal(1)] + w, [factorial(k) / ipow(mu, k) for k in range(4)]
                    for k in range(1, min(3, len(r)) + 1):
                        t.eq(s, r[k - 1], sum(comb(k, i) * ww[i] * b[k - i] for i in range(k + 1)), f"get_v(m={m}): moment {k} is that of waiting plus exponential service")
    return t.vc


UNITS = ("states", "averages", "times", "transform", "moments")
