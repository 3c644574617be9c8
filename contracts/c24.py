"""C24: numerical differentiation, cumulants, sums of recurrent flows (theory/utils/diff5dots.py, flow_sum.py)."""
from math import comb, factorial

from contracts.theory import *

D = "theory/utils/diff5dots.py"
F = "theory/utils/flow_sum.py"
S = "SummatorNumeric."


def cumulants(m):
    """k_n = m_n - sum_{i=1..n-1} C(n-1, i-1) k_i m_{n-i}"""
    k = []
    for n in range(1, len(m) + 1):
        k.append(m[n - 1] - sum(comb(n - 1, i - 1) * k[i - 1] * m[n - i - 1] for i in range(1, n)))
    return k


def unit(what):
    t = T(what)
    if what == "differences":
        h = z3.Real("h")
        x0 = z3.Real("x0")
        for cnt, deg in ((3, 2), (4, 3), (5, 4)):
            c = t.reals(" ".join(f"c{i}" for i in range(deg + 1)))
            st = t.st(h != 0)
            f = [sum(c[i] * ipow(x0 + j * h, i) for i in range(deg + 1)) for j in range(cnt)]
            for s, v in t.call(D, "diff5dots", st, [t.list(st, f), h], what=f"diff5dots({cnt} values)"):
                r = t.items(s, v)
                t.chk(s, len(r) == 3, f"diff5dots({cnt} values): three derivatives")
                for k in range(1, min(3, len(r)) + 1):
                    want = sum(c[i] * factorial(i) / factorial(i - k) * ipow(x0, i - k) for i in range(k, deg + 1)) if deg >= k else z3.RealVal(0)
                    t.eq(s, r[k - 1], want, f"diff5dots({cnt} values): derivative {k} at the first point, polynomials of degree up to {deg}")
    elif what == "cumulants":
        for n in (1, 2, 3, 4):
            a = t.reals(" ".join(f"a{i}" for i in range(1, n + 1)))
            pre = [a[0] != 0]
            opts = dict(ring_only=True)
            st = t.st(*pre)
            for s, v in t.call(F, S + "get_k", st, [t.list(st, a)], what=f"get_k({n})"):
                k = t.items(s, v)
                t.chk(s, len(k) == n, f"get_k({n}): as many cumulants as moments")
                for i, w in enumerate(cumulants(a)):
                    if i < len(k):
                        t.eq(s, k[i], w, f"get_k({n}): cumulant {i + 1}", **opts)
                s1 = s.fork()
                for s2, v2 in t.call(F, S + "get_a", s1, [t.list(s1, k)], what=f"get_a(get_k({n}))"):
                    b = t.items(s2, v2)
                    t.chk(s2, len(b) == n, f"get_a({n}): as many moments as cumulants")
                    for i in range(min(n, len(b))):
                        t.eq(s2, b[i], a[i], f"get_a(get_k(a))[{i}] = a[{i}] ({n} moments)", **opts)
            st = t.st(*pre)
            for s, v in t.call(F, S + "get_v", st, [t.list(st, a)], what=f"get_v({n})"):
                k = t.items(s, v)
                t.chk(s, len(k) == n, f"get_v({n}): as many values")
                want = [1 / a[0]] + ([a[1] / ipow(a[0], 3)] if n > 1 else [])
                if n > 2:
                    want.append(3 * a[1] * a[1] / ipow(a[0], 5) - a[2] / ipow(a[0], 4))
                if n > 3:
                    want.append(a[3] / ipow(a[0], 5) - 10 * a[1] * a[2] / ipow(a[0], 6) + 15 * ipow(a[1], 3) / ipow(a[0], 7))
                for i in range(min(n, len(k))):
                    t.eq(s, k[i], want[i], f"get_v({n}): rate of cumulant {i + 1} of the number of events of a renewal flow", **opts)
                s1 = s.fork()
                for s2, v2 in t.call(F, S + "get_k_by_v", s1, [t.list(s1, k)], what=f"get_k_by_v(get_v({n}))"):
                    b = t.items(s2, v2)
                    t.chk(s2, len(b) == n, f"get_k_by_v({n}): as many cumulants")
                    for i in range(min(n, len(b))):
                        t.eq(s2, b[i], a[i], f"get_k_by_v(get_v(k))[{i}] = k[{i}] ({n} values)", **opts)
            if n > 1:
                st = t.st(*pre)
                for s, v in t.call(F, S + "get_residual_distr_moments", st, [t.list(st, a)], what=f"get_residual_distr_moments({n})"):
                    r = t.items(s, v)
                    t.chk(s, len(r) == n - 1, f"get_residual_distr_moments({n}): one moment less")
                    for i in range(min(n - 1, len(r))):
                        t.eq(s, r[i], a[i + 1] / ((i + 2) * a[0]), f"get_residual_distr_moments({n}): moment {i + 1}", **opts)
    elif what == "flows":
        x, y = t.reals("l1 l2")
        for n in (1, 2, 3, 4):
            st = t.st(x > 0, y > 0)
            a1 = [factorial(k) / ipow(x, k) for k in range(1, n + 1)]
            a2 = [factorial(k) / ipow(y, k) for k in range(1, n + 1)]
            for s, v in t.call(F, S + "sum_2_flows_semiinvariants", st, [t.list(st, a1), t.list(st, a2)], what=f"sum_2_flows_semiinvariants({n})"):
                r = t.items(s, v)
                t.chk(s, len(r) == n, f"sum of two Poisson flows: {n} moments")
                for i in range(min(n, len(r))):
                    t.eq(s, r[i], factorial(i + 1) / ipow(x + y, i + 1), f"sum of two Poisson flows is a Poisson flow: moment {i + 1} of {n}")
            # sums of any two flows: rates of the cumulants of the numbers of events add
            a, b = t.reals(" ".join(f"a{i}" for i in range(1, n + 1))), t.reals(" ".join(f"b{i}" for i in range(1, n + 1)))
            st = t.st(a[0] > 0, b[0] > 0)
            for s, v in t.call(F, S + "sum_2_flows_semiinvariants", st, [t.list(st, a), t.list(st, b)], what=f"sum_2_flows_semiinvariants({n}), any flows"):
                r = [zr(z) for z in t.items(s, v)]

                def rates(m):
                    k = cumulants(m)
                    out = [1 / k[0]]
                    if len(k) > 1:
                        out.append(k[1] / ipow(k[0], 3))
                    if len(k) > 2:
                        out.append(3 * k[1] * k[1] / ipow(k[0], 5) - k[2] / ipow(k[0], 4))
                    return out
                if n <= 3:
                    for i, (p, q, w) in enumerate(zip(rates(a), rates(b), rates(r))):
                        t.eq(s, w, p + q, f"sum of two flows ({n} moments): rate of cumulant {i + 1} of the number of events adds", ring_only=True)
    elif what == "superposition":
        # H2 flows: the next event is the earlier of a full interval of one flow and a residual interval of the other
        C = [[z3.Real(f"{v}{i}") for v in ("y", "m", "n")] for i in (1, 2)]
        calls = []

        def fit(vc, s, recv, args, kw):
            m = [zr(z) for z in vc.items(s, args[0])]
            i = 0 if m[0].eq(A1[0]) else 1
            return [(s, vc.new_list(s, C[i]))]
        t.vc.contracts = {"H2_dist.get_params_clx": fit}
        n = 3
        def h2(c, k):
            return factorial(k) * (c[0] / ipow(c[1], k) + (1 - c[0]) / ipow(c[2], k))
        A1, A2 = [h2(C[0], k) for k in range(1, n + 1)], [h2(C[1], k) for k in range(1, n + 1)]
        st = t.st(*[C[i][j] > 0 for i in (0, 1) for j in (0, 1, 2)], *[C[i][0] < 1 for i in (0, 1)])
        for s, v in t.call(F, S + "sum_2_H2_flows", st, [t.list(st, A1), t.list(st, A2)], what="sum_2_H2_flows"):
            r = t.items(s, v)
            t.chk(s, len(r) == n, "sum_2_H2_flows: as many moments")
            for k in range(1, min(n, len(r)) + 1):
                tot = 0
                l1, l2 = 1 / A1[0], 1 / A2[0]
                for ca, cb, la in ((C[0], C[1], l1), (C[1], C[0], l2)):
                    mb = cb[0] / cb[1] + (1 - cb[0]) / cb[2]
                    for ya, ma in ((ca[0], ca[1]), (1 - ca[0], ca[2])):
                        for yb, nb in ((cb[0] / cb[1] / mb, cb[1]), ((1 - cb[0]) / cb[2] / mb, cb[2])):
                            tot = tot + la * ya * yb * factorial(k) / ipow(ma + nb, k)
                t.eq(s, r[k - 1], tot / (l1 + l2), f"sum_2_H2_flows: moment {k} of the interval of the superposition", ring_only=True)
    return t.vc


UNITS = ("differences", "cumulants", "flows", "superposition")
