"""C20: M/M/n/r (theory/mmnr_calc.py)."""
from math import comb, factorial

from contracts.theory import *

F = "theory/mmnr_calc.py"
C = "MMnr_calc."
GRID = [(n, r) for n in (1, 2, 3, 5) for r in (0, 1, 2, 4)] + [(4, 7), (7, 3)]


def fall(j, k):
    r = 1
    for i in range(k):
        r *= j - i
    return r


def probs(t, st, l, mu, n, r):
    """get_p by its code"""
    outs = t.call(F, C + "get_p", st, [l, mu, n, r], what=f"get_p({n},{r})")
    return outs


def closed(l, mu, n, r):
    """the stationary distribution of the birth-death chain (unit "states": get_p satisfies balance and sums to 1, which determines it)"""
    c = [z3.RealVal(1)]
    for j in range(n + r):
        c.append(c[-1] * l / (min(j + 1, n) * mu))
    return [x / sum(c) for x in c]


def p_contract(t):
    """callee contract of get_p for the other methods"""
    def contract(vc, s, recv, args, kw):
        a = list(args) + [kw[x] for x in ("l", "mu", "n", "r")[len(args):]]
        if isz(a[2]) or isz(a[3]):
            raise Unsupported("get_p called with a symbolic size")
        return [(s, vc.new_list(s, closed(zr(a[0]), zr(a[1]), a[2], a[3])))]
    t.vc.contracts = {"MMnr_calc.get_p": contract}


def unit(what):
    t = T(what)
    l, mu = t.reals("l mu")
    pre = [l > 0, mu > 0]
    if what == "states":
        for n, r in GRID:
            st = t.st(*pre)
            for s, v in probs(t, st, l, mu, n, r):
                p = [zr(x) for x in t.items(s, v)]
                tag = f"get_p(n={n}, r={r})"
                t.chk(s, len(p) == n + r + 1, f"{tag}: number of states")
                if len(p) != n + r + 1:
                    continue
                t.eq(s, sum(p), 1, f"{tag}: probabilities sum to 1")
                for j in range(n + r):
                    t.eq(s, l * p[j], min(j + 1, n) * mu * p[j + 1], f"{tag}: balance between states {j} and {j + 1}")
                t.chk(s, p[0] > 0, f"{tag}: p0 positive")
                for j in range(n + r):      # the rest follows from balance
                    t.chk(s, z3.Implies(z3.And(p[0] > 0), p[j] >= 0), f"{tag}: state {j} non-negative")
    elif what == "states any n r":
        n, r = t.ints("n r")
        st = t.st(*pre, n >= 1, r >= 0)
        for s, v in probs(t, st, l, mu, n, r):
            t.chk(s, zi(t.vc.length(s, v)) == n + r + 1, "get_p: number of states, any n and r")
            j = z3.Int("j")
            s1 = s.fork()
            s1.assume(z3.And(j >= 0, j + 1 < n))
            a, b = zr(t.vc.getitem(s1, v, j)), zr(t.vc.getitem(s1, v, j + 1))
            t.chk(s1, l * a == z3.ToReal(j + 1) * mu * b, "get_p: balance below n, any n and r")
            s2 = s.fork()
            s2.assume(z3.And(j >= n - 1, j + 1 <= n + r, j >= 0))
            a, b = zr(t.vc.getitem(s2, v, j)), zr(t.vc.getitem(s2, v, j + 1))
            t.chk(s2, l * a == z3.ToReal(n) * mu * b, "get_p: balance from n on, any n and r")
    elif what == "loss":
        p_contract(t)
        for n, r in GRID:
            st = t.st(*pre)
            for s, v in t.call(F, C + "getPI", st, [l, mu, n, r], what=f"getPI({n},{r})"):
                t.eq(s, v, closed(l, mu, n, r)[n + r], f"getPI(n={n}, r={r}): probability of the full system")
    elif what == "queue":
        p_contract(t)
        for n, r in GRID:
            p = closed(l, mu, n, r)
            for s, v in t.call(F, C + "getQ", t.st(*pre), [l, mu, n, r], what=f"getQ({n},{r})"):
                t.eq(s, v, sum((j - n) * p[j] for j in range(n, n + r + 1)), f"getQ(n={n}, r={r}): mean number waiting")
            for qn in (1, 3, 4):
                for s, v in t.call(F, C + "get_qs", t.st(*pre), [l, mu, n, r], {"q_num": qn}, what=f"get_qs({n},{r},{qn})"):
                    q = t.items(s, v)
                    t.chk(s, len(q) == qn, f"get_qs(n={n}, r={r}): {qn} values")
                    for k in range(len(q)):
                        t.eq(s, q[k], sum(fall(j, k + 1) * p[n + j] for j in range(k + 1, r + 1)), f"get_qs(n={n}, r={r}): factorial moment {k + 1} of {qn}")
    elif what == "times":
        p_contract(t)
        for n, r in GRID:
            p = closed(l, mu, n, r)
            Q = [sum(fall(j, k) * p[n + j] for j in range(k, r + 1)) for k in range(5)]
            for num in (1, 2, 3, 4):
                for s, v in t.call(F, C + "get_w", t.st(*pre), [l, mu, n, r], {"num": num}, what=f"get_w({n},{r},{num})"):
                    w = t.items(s, v)
                    t.chk(s, len(w) == num, f"get_w: {num} moments")
                    for k in range(len(w)):
                        t.eq(s, zr(w[k]) * ipow(l, k + 1), Q[k + 1], f"get_w(n={n}, r={r}): Little's law (factorial moment {k + 1} of the queue)")
            for s, v in t.call(F, C + "get_v", t.st(*pre), [l, mu, n, r], what=f"get_v({n},{r})"):
                x = t.items(s, v)
                t.chk(s, len(x) == 3, "get_v: three moments")
                b = [factorial(k) / ipow(mu, k) for k in range(4)]
                ww = [z3.RealVal(1)] + [Q[k] / ipow(l, k) for k in (1, 2, 3)]
                for k in range(1, min(3, len(x)) + 1):
                    t.eq(s, x[k - 1], sum(comb(k, i) * ww[i] * b[k - i] for i in range(k + 1)), f"get_v(n={n}, r={r}): moment {k} is that of waiting plus exponential service")
    return t.vc


UNITS = ("states", "loss", "queue", "times")
