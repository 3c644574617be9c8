"""C18: M/G/1 (theory/mg1_calc.py)."""
from math import comb

from contracts.theory import *

F = "theory/mg1_calc.py"
Q = "theory/utils/q_poisson_arrival_calc.py"


def unit(what):
    t = T(what)
    l = z3.Real("l")
    if what in ("wait", "sojourn"):
        for nb in (2, 3, 4, 5, 6, 7):
            b = [z3.Real(f"b{i}") for i in range(1, nb + 1)]
            for num in ((1, 2, 3, 4, 6) if what == "wait" else (1, 2, 3, 5)):
                m = min(nb - 1, num)
                st = t.st(l > 0, b[0] > 0, l * b[0] < 1)
                fn = "get_w" if what == "wait" else "get_v"
                for s, r in t.call(F, fn, st, [l, t.list(st, b)], {"num": num}):
                    tag = f"{fn}(len(b)={nb}, num={num})"
                    if what == "wait":
                        w = [z3.RealVal(1)] + t.items(s, r)
                        t.chk(s, len(w) == m + 1, f"{tag}: number of moments")
                        for k in range(1, min(m, len(w) - 1) + 1):
                            t.eq(s, zr(w[k]) * (1 - l * b[0]), l * sum(comb(k, j) * b[j] / (j + 1) * zr(w[k - j]) for j in range(1, k + 1)),
                                 f"{tag}: Takacs recurrence of order {k}")
                    else:
                        v = t.items(s, r)
                        m3 = min(m, 3)
                        t.chk(s, len(v) == m3, f"{tag}: number of moments")
                        for s2, rw in t.call(F, "get_w", s, [l, t.list(s, b), num], cover=False):
                            w = [z3.RealVal(1)] + [zr(x) for x in t.items(s2, rw)]
                            bb = [z3.RealVal(1)] + b
                            for k in range(1, min(m3, len(v)) + 1):
                                t.eq(s2, v[k - 1], sum(comb(k, j) * w[j] * bb[k - j] for j in range(k + 1)),
                                     f"{tag}: moment {k} of waiting plus an independent service")
        st = t.st(l > 0, z3.Real("b1") > 0, l * z3.Real("b1") < 1)
    elif what == "states":
        b = t.reals("b1 b2")
        var = b[1] - b[0] * b[0]
        for dist, callee in (("Gamma", "get_q_Gamma"), ("Uniform", "get_q_uniform"), ("Pa", "get_q_Pareto")):
            for num in (1, 2, 3, 4, 5, 6, 7, 12, 17):
                seen = []
                q = [z3.Real(f"q{i}") for i in range(num)]

                def contract(vc, s, recv, args, kw, seen=seen, q=q):
                    seen.append((s.fork(), args, kw))
                    return [(s, vc.new_list(s, q))]
                t.vc.contracts = {callee: contract}
                t.vc.assumptions.discard("")
                st = t.st(l > 0, b[0] > 0, var > 0, l * b[0] < 1, q[0] > 0)
                for s, r in t.call(F, "get_p", st, [l, t.list(st, b)], {"num": num, "dist_type": dist}, what=f"get_p({dist},{num})"):
                    tag = f"get_p({dist},{num})"
                    t.chk(s, len(seen) == 1, f"{tag}: the arrival probabilities of the {dist} law are used")
                    if not seen:
                        continue
                    s0, args, kw = seen[0]
                    al, n = args[0], args[3] if len(args) > 3 else kw.get("num", 100)
                    t.eq(s0, al, l, f"{tag}: arrival rate passed on")
                    t.chk(s0, zi(n) >= num if isz(n) else n >= num, f"{tag}: enough arrival probabilities")
                    x, y = zr(args[1]), zr(args[2])
                    if dist == "Gamma":
                        mom = (y / x, y * (y + 1) / (x * x))
                    elif dist == "Uniform":
                        mom = (x, x * x + y * y / 3)
                    else:
                        mom = (x * y / (x - 1), x * y * y / (x - 2))
                    for k in (0, 1):
                        t.eq(s0, mom[k], b[k], f"{tag}: service law fitted to moment {k + 1}")
                    p = [zr(z) for z in t.items(s, r)]
                    t.chk(s, len(p) == num, f"{tag}: number of probabilities")
                    if len(p) == num:
                        t.eq(s, p[0], 1 - l * b[0], f"{tag}: p0 = 1 - load")
                        for i in range(num - 1):
                            t.eq(s, p[i], p[0] * q[i] + sum(p[j] * q[i - j + 1] for j in range(1, i + 2)), f"{tag}: balance of state {i}")
    return t.vc


UNITS = ("wait", "sojourn", "states")
