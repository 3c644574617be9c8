"""C22: M/M/1 with impatience (theory/impatience_calc.py) and with batch arrivals (theory/batch_mm1.py)."""
from contracts.theory import *

A = "theory/impatience_calc.py"
B = "theory/batch_mm1.py"


def unit(what):
    t = T(what)
    l, mu, g, tol = t.reals("l mu gamma tol")
    if what == "impatience states":
        # the lists stop where the terms fall below the tolerance; each truncation is a path of the code
        p0 = z3.Real("p0")
        t.vc.contracts = {"get_p0": lambda vc, s, recv, a, kw: [(s, p0)]}
        for mx in (1, 2, 3, 5, 8):
            st = t.st(l > 0, mu > 0, g > 0, tol > 0, p0 > 0)
            for s, v in t.call(A, "get_p", st, [l, mu, g, tol], {"max_num": mx}, what=f"get_p(max_num={mx})"):
                p = [zr(x) for x in t.items(s, v)]
                t.eq(s, p[0], p0, f"get_p: empty system ({len(p)} of {mx} states)")
                for j in range(len(p) - 1):
                    t.eq(s, l * p[j], (mu + j * g) * p[j + 1], f"get_p: balance between states {j} and {j + 1} ({len(p)} of {mx} states)")
                t.chk(s, len(p) <= max(mx, 1), f"get_p: at most {mx} states")
                if len(p) < mx:
                    t.chk(s, z3.And(p[-1] < tol, l < mu + (len(p) - 1) * g), f"get_p: stops only when the terms are below the tolerance and decreasing ({len(p)} of {mx} states)")
    elif what == "impatience means":
        for n in (1, 2, 3, 5, 8):
            p = t.reals(" ".join(f"p{i}" for i in range(n)))
            seen = []

            def gp(vc, s, recv, a, kw, p=p):
                args = list(a) + [kw[x] for x in ("l", "mu", "gamma", "tol")[len(a):] if x in kw]
                for x, y, nm in zip(args, (l, mu, g, tol), ("arrival rate", "service rate", "patience rate", "tolerance")):
                    vc.check(s, zr(x) == y, f"{nm} passed on")
                return [(s, vc.new_list(s, p))]
            t.vc.contracts = {"get_p": gp}
            pre = [l > 0, mu > 0, g > 0, tol > 0]
            N = sum(i * p[i] for i in range(n))
            Q = sum((i - 1) * p[i] for i in range(1, n))
            for fn, want in (("get_N", N), ("get_Q", Q), ("get_w1", Q / l), ("get_v1", N / l)):
                for s, v in t.call(A, fn, t.st(*pre), [l, mu, g, tol], what=f"{fn} ({n} states)"):
                    t.eq(s, v, want, f"{fn}: the average over {n} states" + (" by Little's law" if fn[-1] == "1" else ""))
    elif what == "batch states":
        for K in (1, 2, 3, 4):
            q = t.reals(" ".join(f"q{i}" for i in range(1, K + 1)))
            q[-1] = z3.simplify(1 - sum(q[:-1], z3.RealVal(0)))          # the batch sizes have total probability 1
            pre = [l > 0, mu > 0, tol > 0] + [x >= 0 for x in q]
            EL = sum((i + 1) * q[i] for i in range(K))
            pre.append(l * EL < mu)
            tail = [sum(q[j:], z3.RealVal(0)) for j in range(K)]          # P(batch > j)
            for num in (1, 2, 3, 5, 7):
                st = t.st(*pre)
                for s0, o in t.new(B, "BatchMM1", st, [l, mu, t.list(st, q)], {"p_num": num, "tol": tol}):
                    for s, v in t.method(s0, o, "get_p", what=f"get_p(batch up to {K}, {num} states)"):
                        p = [zr(x) for x in t.items(s, v)]
                        tag = f"get_p (batches up to {K}, {len(p)} of {num} states)"
                        t.eq(s, p[0], 1 - l * EL / mu, f"{tag}: p0 = 1 - load")
                        t.chk(s, len(p) <= num, f"{tag}: at most p_num states")
                        for i in range(1, len(p)):
                            # flow across the cut {0..i-1} | {i..}
                            up = sum(p[j] * tail[i - j - 1] for j in range(i) if i - j - 1 < K)
                            t.eq(s, mu * p[i], l * up, f"{tag}: flow balance across the cut below {i}")
                        if len(p) < num:
                            t.chk(s, p[-1] < tol, f"{tag}: stops only below the tolerance")
    elif what == "batch means":
        for K in (1, 2, 3, 5):
            q = t.reals(" ".join(f"q{i}" for i in range(1, K + 1)))
            L1 = sum((i + 1) * q[i] for i in range(K))
            L2 = sum((i + 1) ** 2 * q[i] for i in range(K))
            pre = [l > 0, mu > 0, L1 >= 1, l * L1 < mu]
            st = t.st(*pre)
            N = l * (L1 + L2) / (2 * (mu - l * L1))
            for s0, o in t.new(B, "BatchMM1", st, [l, mu, t.list(st, q)]):
                for fn, want in (("calc_l", L1), ("get_N", N), ("get_Q", N - l * L1 / mu), ("get_v1", N / (l * L1)), ("get_w1", (N - l * L1 / mu) / (l * L1))):
                    for s, v in t.method(s0.fork(), o, fn, what=f"{fn} (batches up to {K})"):
                        t.eq(s, v, want, f"{fn} (batches up to {K}): value implied by the balance equations")
                for s, v in t.method(s0.fork(), o, "calc_l_moments"):
                    m = t.items(s, v)
                    t.chk(s, len(m) == 2, "calc_l_moments: two moments")
                    t.eq(s, m[0], L1, f"calc_l_moments: mean batch ({K})")
                    t.eq(s, m[1], L2, f"calc_l_moments: second moment ({K})")
    elif what == "batch lemma":
        # the mean number follows from the flow equations: multiply equation i by i and sum; closed algebra of the transform
        # P(z) = p0 + (l/mu) z P(z) sum_j tail_j z^j;  P(1) = 1, N = P'(1)
        N, p0 = t.reals("N p0")
        for K in (1, 2, 3, 5):
            q = t.reals(" ".join(f"q{i}" for i in range(1, K + 1)))
            one = 1 - sum(q[:-1], z3.RealVal(0))
            qq = q[:-1] + [one]
            tail = [sum(qq[j:], z3.RealVal(0)) for j in range(K)]
            T1 = sum(tail)                                  # T(1)
            D1 = sum((j + 1) * tail[j] for j in range(K))   # (z T)'(1)
            L1 = sum((i + 1) * qq[i] for i in range(K))
            L2 = sum((i + 1) ** 2 * qq[i] for i in range(K))
            st = t.st(l > 0, mu > 0, mu > l * L1)
            t.eq(st, 1, (1 - l * L1 / mu) + l / mu * T1, f"lemma ({K}): total probability 1 with p0 = 1 - load")
            n = l * (L1 + L2) / (2 * (mu - l * L1))
            t.eq(st, n, l / mu * (n * T1 + D1), f"lemma ({K}): the mean number solves the differentiated transform equation")
    return t.vc


UNITS = ("impatience states", "impatience means", "batch states", "batch means", "batch lemma")
