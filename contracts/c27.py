"""C27: moments of the maximum and fork-join approximations (theory/fj_calc.py).

Arrival and service rates, moments and the values of the distribution function are arbitrary reals; numbers of branches are concrete.
The laws' parameter fits and distribution functions are taken by contract (C16, C17): some parameters, and a value in [0, 1] per node."""
import math
from math import comb, factorial
from fractions import Fraction

from contracts.theory import *

F = "theory/fj_calc.py"
NS = (1, 2, 3, 4, 5)


def H(n):
    return z3.RealVal(sum((Fraction(1, i) for i in range(1, n + 1)), Fraction(0)))


def V(n):
    s = Fraction(0)
    for i in range(1, n + 1):
        s += comb(n, i) * (-1) ** (i - 1) * sum(Fraction(comb(i, j) * factorial(j - 1), i ** (j + 1)) for j in range(1, i + 1))
    return z3.RealVal(s)


def W(n, k, i):
    return (-1) ** (i - k) * comb(i - 1, k - 1) * comb(n, i)


def num(e):
    """float value of a closed term (exp of constants evaluated)"""
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_app(e):
        k, a = e.decl().kind(), [num(x) for x in e.children()]
        if e.decl().eq(EXP):
            return math.exp(a[0])
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            return math.prod(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
    raise Unsupported(f"not a constant: {e}")


def subst_const(e, pairs):
    return z3.substitute(e, *pairs)


class Law:
    """contract of the laws' parameter fits and distribution functions: per node one value in [0, 1]; negative nodes give 0"""

    def __init__(self, t, b, delta=None):
        self.t, self.b, self.nodes, self.fits = t, b, {}, []
        self.delta = delta
        t.vc.contracts = dict(t.vc.contracts)
        for c, m in (("H2_dist", "get_params"), ("Erlang_dist", "get_params"), ("Gamma", "get_mu_alpha")):
            t.vc.contracts[f"{c}.{m}"] = self.fit(c)
            t.vc.contracts[f"{c}.get_cdf"] = self.cdf(c)

    def fit(self, c):
        def f(vc, s, recv, a, kw):
            xs = self.t.items(s, a[0])
            ok = len(xs) >= 2
            self.fits.append((c, xs))
            self.t.chk(s, z3.And(*[zr(x) == y for x, y in zip(xs, self.b)]) if ok else False, f"{c}: fitted to the given moments")
            return [(s, vc.new_list(s, [z3.FreshReal("par0"), z3.FreshReal("par1")]))]
        return f

    def cdf(self, c):
        def f(vc, s, recv, a, kw):
            x = zr(a[-1])
            key = (c, x.sexpr())
            if key not in self.nodes:
                self.nodes[key] = (x, z3.FreshReal("F"))
            v = self.nodes[key][1]
            s.assume(z3.And(v >= 0, v <= 1))
            return [(s, v)]
        return f


def lag(n):
    import numpy as np
    return np.polynomial.laguerre.laggauss(n)


def max_moments(t, kind, n, N, nmom, fn="getMaxMoments", delta=None):
    b = t.reals("b0 b1 b2 b3")[:N]
    var = b[1] - b[0] * b[0]
    st = t.st(b[0] > 0, var > 0, *({"erl": [var < b[0] * b[0]], "h2": [var >= b[0] * b[0]]}.get(kind, [])))
    law = Law(t, b)
    d = z3.Real("delta")
    if delta == "sym":
        st.assume(d > 0)
    args = [n, t.list(st, b)] + ([nmom] if nmom else [])
    if fn == "getMaxMomentsDelta":
        args = [n, t.list(st, b), nmom, {"none": None, "zero": 0, "sym": d}[delta]]
    tag = f"{fn}(n={n}, {N} moments{', ' + kind if kind else ''}{', delta ' + delta if delta else ''})"
    for s, r in t.call(F, fn, st, args, what=tag):
        f = [zr(x) for x in t.items(s, r)]
        want = min(nmom or N, N) if fn == "getMaxMoments" else nmom
        t.chk(s, len(f) == want, f"{tag}: number of moments")
        if len(f) != want or not law.nodes:
            t.chk(s, bool(law.nodes), f"{tag}: distribution function is used")
            continue
        cls = {"erl": "Erlang_dist", "h2": "H2_dist"}.get(kind, "Gamma")
        t.chk(s, all(c == cls for c, _ in law.nodes), f"{tag}: the law fits the moments given")
        nodes = [v for v in law.nodes.values()]
        rep = [(b[0], z3.RealVal(1)), (d, z3.RealVal(0))]
        if delta == "sym":
            groups = {}
            for x, v in nodes:
                groups.setdefault(str(z3.simplify(subst_const(x, rep))), []).append((x, v))
            for c, g in groups.items():
                cz = z3.simplify(subst_const(g[0][0], rep))
                ok = len(g) == n
                t.chk(s, ok, f"{tag}: {n} branches at every node")
                for i, (x, v) in enumerate(g):
                    t.eq(s, x, cz * b[0] - i * d, f"{tag}: branch {i} is late by {i} delays")
            gl = [(z3.simplify(subst_const(g[0][0], rep)), [v for _, v in g]) for g in groups.values()]
        else:
            gl = []
            for x, v in nodes:
                cz = z3.simplify(subst_const(x, rep))
                t.eq(s, x, cz * b[0], f"{tag}: nodes are multiples of the mean")
                gl.append((cz, [v] * n))
        xs, ws = lag(len(gl))
        cs = [num(c) for c, _ in gl]
        order = sorted(range(len(gl)), key=lambda i: cs[i])
        t.chk(s, all(abs(cs[o] - xs[i]) <= 1e-6 * xs[i] for i, o in enumerate(order)), f"{tag}: nodes of the Gauss-Laguerre rule")
        wsym = []
        for o in order:
            rep2 = [(b[0], z3.RealVal(1))] + [(v, z3.RealVal(0 if i == o else 1)) for i, (c, vs) in enumerate(gl) for v in set(vs)]
            wsym.append(z3.simplify(subst_const(f[0], rep2)))
        wn = [num(w) for w in wsym]
        ok = all(abs(wn[i] * math.exp(-cs[o]) - ws[i]) <= 1e-6 * ws[i] for i, o in enumerate(order))
        t.chk(s, ok, f"{tag}: weights of the Gauss-Laguerre rule")
        one = []
        for o in order:
            p = z3.RealVal(1)
            for v in gl[o][1]:
                p = p * v
            one.append(1 - p)
        for i in range(len(f)):
            tot = sum((wsym[q] * ipow(gl[o][0], i) * one[q] for q, o in enumerate(order)), z3.RealVal(0))
            t.eq(s, f[i], (i + 1) * ipow(b[0], i + 1) * tot, f"{tag}: moment {i} is the integral of {i + 1} x^{i} (1 - F^n)")


def unit(what, *a):
    t = T(what)
    l, mu = t.reals("l mu")
    pre = [l > 0, mu > 0, l < mu]
    ro = l / mu
    if what == "maximum":
        kind, n = a[0], int(a[1])
        N = 2 if kind == "gamma" else 3
        max_moments(t, kind, n, N, None)
        if n == 2:
            max_moments(t, kind, n, N, 2)
            max_moments(t, kind, n, N, 1)
            max_moments(t, kind, n, N, 5)
            if kind != "gamma":
                max_moments(t, kind, n, 4, None)
    elif what == "maximum delta":
        n = int(a[0])
        for delta in ("none", "zero", "sym"):
            max_moments(t, "", n, 2, 3, "getMaxMomentsDelta", delta)
    elif what == "monotone":
        # lemma over the contract of getMaxMoments: more branches, larger moments (per node), one branch: the law itself
        F1, w = z3.Reals("F w")
        for n in NS:
            st = t.st(F1 >= 0, F1 <= 1, w > 0)
            p = ipow(F1, n)
            st.assume(z3.And(p >= 0, p <= 1))
            t.chk(st, w * (1 - p * F1) >= w * (1 - p), f"a node adds no less with {n + 1} branches than with {n}")
            t.chk(st, p * F1 <= p, f"F^{n + 1} <= F^{n}")
    elif what == "combinatorics":
        for n in range(0, 8):
            for s, v in t.call(F, "factorial", t.st(), [n], what=f"factorial({n})"):
                t.eq(s, v, factorial(n), f"factorial({n})")
            for s, v in t.call(F, "get_Hn", t.st(), [n], what=f"get_Hn({n})"):
                t.eq(s, v, H(n), f"get_Hn({n}) is the harmonic number")
            for i in range(0, n + 1):
                for s, v in t.call(F, "combination", t.st(), [n, i], what=f"combination({n},{i})"):
                    t.eq(s, v, comb(n, i), f"combination({n},{i})")
        for n in NS:
            for s, v in t.call(F, "get_V", t.st(), [n], what=f"get_V({n})"):
                t.eq(s, v, V(n), f"get_V({n})")
            for k in range(1, n + 1):
                for i in range(k, n + 1):
                    for s, v in t.call(F, "get_W", t.st(), [n, k, i], what=f"get_W({n},{k},{i})"):
                        t.eq(s, v, W(n, k, i), f"get_W({n},{k},{i}): weight of the maximum of {i} in the {k}-th of {n}")
    elif what == "approximations":
        for s, v in t.call(F, "get_v1_fj2", t.st(*pre), [l, mu]):
            t.eq(s, v, (12 - ro) / (8 * (mu - l)), "exact two-server mean")
        for n in NS:
            for s, v in t.call(F, "get_v1_fj_varma", t.st(*pre), [l, mu, n], what=f"get_v1_fj_varma({n})"):
                t.eq(s, v, (H(n) + (V(n) - H(n)) * ro) / (mu - l), f"Varma (n={n})")
                if n == 1:
                    t.eq(s, v, 1 / (mu - l), "Varma (n=1) is M/M/1")
                if n == 2:
                    t.eq(s, v, (12 - ro) / (8 * (mu - l)), "Varma (n=2) is exact")
            for s, v in t.call(F, "get_v1_fj_nelson_tantawi", t.st(*pre), [l, mu, n], what=f"get_v1_fj_nelson_tantawi({n})"):
                t.eq(s, v, (H(n) / z3.RealVal("3/2") + z3.RealVal("4/11") * (1 - H(n) / z3.RealVal("3/2")) * ro) * (12 - ro) / (8 * (mu - l)), f"Nelson-Tantawi (n={n})")
                if n == 2:
                    t.eq(s, v, (12 - ro) / (8 * (mu - l)), "Nelson-Tantawi (n=2) is exact")
            for s, v in t.call(F, "get_v1_fj_varki_merchant", t.st(*pre), [l, mu, n], what=f"get_v1_fj_varki_merchant({n})"):
                s1 = sum((1 / (i - ro) for i in range(1, n + 1)), z3.RealVal(0))
                s2 = sum((1 / (i * (i - ro)) for i in range(1, n + 1)), z3.RealVal(0))
                t.eq(s, v, (H(n) + ro / (2 * (1 - ro)) * (s1 + (1 - 2 * ro) * s2)) / mu, f"Varki-Merchant (n={n})")
                if n == 1:
                    t.eq(s, v, 1 / (mu - l), "Varki-Merchant (n=1) is M/M/1")
    elif what == "n k":
        NT = lambda n: (H(n) / z3.RealVal("3/2") + z3.RealVal("4/11") * (1 - H(n) / z3.RealVal("3/2")) * ro) * (12 - ro) / (8 * (mu - l))
        VA = lambda n: (H(n) + (V(n) - H(n)) * ro) / (mu - l)
        for n in NS:
            for k in range(1, n + 1):
                for s, v in t.call(F, "get_v1_varma_nk", t.st(*pre), [l, mu, n, k], what=f"get_v1_varma_nk({n},{k})"):
                    t.eq(s, v, sum((W(n, k, i) * VA(i) for i in range(k, n + 1)), z3.RealVal(0)), f"Varma (n={n}, k={k}): k-th of n from the maxima")
                for s, v in t.call(F, "get_v1_fj_nelson_nk", t.st(*pre), [l, mu, n, k], what=f"get_v1_fj_nelson_nk({n},{k})"):
                    mx = lambda i: 1 / (mu - l) if i == 1 else NT(i)
                    t.eq(s, v, sum((W(n, k, i) * mx(i) for i in range(k, n + 1)), z3.RealVal(0)), f"Nelson (n={n}, k={k}): k-th of n from the maxima")
    elif what == "invariant":
        FV = z3.Function("mmnr_v", R, R, I, I, R)
        r_ = z3.Int("r")
        fj2 = (12 - ro) / (8 * (mu - l))
        calls = []

        def mm_v(vc, s, recv, a, kw):
            x = list(a) + [None] * 4
            ll, mm, nn, rr = [kw.get(nm, x[i]) for i, nm in enumerate(("l", "mu", "n", "r"))]
            v = FV(zr(ll), zr(mm), zi(nn), zi(rr))
            s.assume(v > 0)
            return [(s, vc.new_list(s, [v]))]
        for n in (1, 2, 3, 4):
            t.vc.contracts = {"MMnr_calc.get_v": mm_v}
            for s, v in t.call(F, "get_v1_fj_invar", t.st(*pre, r_ >= 0), [l, mu, n, r_], what=f"get_v1_fj_invar({n})"):
                t.chk(s, zr(v) * FV(l, mu / 2, z3.IntVal(2), r_) == fj2 * FV(l, mu / n, z3.IntVal(n), r_), f"invariant (n={n}): two-server mean scaled by M/M/n over M/M/2")
                if n == 2:
                    t.chk(s, zr(v) == fj2, "invariant (n=2) is exact")
        for n in (1, 2, 3, 4):
            MX = [z3.Function(f"max_m{i}", I, R, R, R, R) for i in range(3)]
            WW = z3.Function("mg1_w", R, R, R, R)

            def mm(vc, s, recv, a, kw):
                b = [zr(x) for x in t.items(s, a[1])]
                if len(b) != 3:
                    raise Unsupported("moments")
                return [(s, vc.new_list(s, [m(zi(a[0]), *b) for m in MX]))]

            def gw(vc, s, recv, a, kw):
                b = [zr(x) for x in t.items(s, a[1])]
                v = WW(zr(a[0]), b[0], b[1])
                s.assume(v > 0)
                return [(s, vc.new_list(s, [v, z3.FreshReal("w"), z3.FreshReal("w")]))]
            t.vc.contracts = {"getMaxMoments": mm, "get_w": gw}
            ex = lambda q: [q, 2 * q * q, 6 * q * q * q]
            at = lambda k: WW(l, *[MX[i](z3.IntVal(k), *ex(z3.RealVal(k) / mu)) for i in range(2)])
            for s, v in t.call(F, "get_v1_fj_invar_sj", t.st(*pre), [l, mu, n], what=f"get_v1_fj_invar_sj({n})"):
                t.chk(s, zr(v) * at(2) == fj2 * at(n), f"split-join invariant (n={n}): two-server mean scaled by the waits of the maxima")
                if n == 2:
                    t.chk(s, zr(v) == fj2, "split-join invariant (n=2) is exact")
    elif what == "invariant general":
        b = t.reals("b0 b1 b2")
        var = b[1] - b[0] * b[0]
        for n in (1, 3, 4):
            made = []
            ws = {}

            def init(vc, s, recv, a, kw):
                made.append((a[0], a[1], t.items(s, a[2]), recv))
                vc.setattr(s, recv, "n_", a[0]) if hasattr(vc, "setattr") else None
                return [(s, None)]

            def get_w(vc, s, recv, a, kw):
                q = [m for m in made if m[3] is recv or m[3] == recv]
                k = q[-1][0]
                ws.setdefault(k, [z3.FreshReal(f"w{k}_{i}") for i in range(3)])
                for x in ws[k]:
                    s.assume(x > 0)
                return [(s, vc.new_list(s, ws[k]))]
            t.vc.contracts = {"MGnCalc.__init__": init, "MGnCalc.run": lambda vc, s, recv, a, kw: [(s, None)], "MGnCalc.get_w": get_w}
            st = t.st(l > 0, b[0] > 0, var > 0, l * b[0] < 1)
            x = l * b[0]
            for s, v in t.call(F, "get_v_fj_invar_tt", st, [l, t.list(st, b), n], what=f"get_v_fj_invar_tt({n})"):
                r = [zr(q) for q in t.items(s, v)]
                ok = len(r) == 3 and sorted(m[0] for m in made) == sorted((2, n))
                t.chk(s, ok, f"general invariant (n={n}): the two-server and the n-server system are solved, three values")
                if not ok:
                    continue
                cv2 = var / (b[0] * b[0])
                for k, ll, bb, _ in made:
                    t.eq(s, ll, l, f"general invariant (n={n}): arrival rate of the {k}-server system")
                    m = k * b[0]
                    bb = [zr(q) for q in bb]
                    t.eq(s, bb[0], m, f"general invariant (n={n}): mean of the {k}-server system")
                    t.eq(s, bb[1], m * m * (cv2 + 1), f"general invariant (n={n}): second moment of the {k}-server system", ring_first=True)
                    t.eq(s, bb[2], m * m * m * (cv2 + 1) * (1 + 2 * cv2), f"general invariant (n={n}): third moment of the {k}-server system (Gamma)")
                f2 = (12 - x) / (8 * (1 / b[0] - l))
                for i in range(3):
                    t.eq(s, r[i] * ws[2][i], f2 * ws[n][i], f"general invariant (n={n}): value {i} is the two-server mean scaled by the waits")
    elif what == "branch maximum":
        b = t.reals("b0 b1 b2 b3")
        for N in (2, 3):
            seen = []
            vv = [z3.Real(f"v{i}") for i in range(N)]
            mm = [z3.Real(f"m{i}") for i in range(N)]

            def gv(vc, s, recv, a, kw):
                seen.append(("v", a[0], t.items(s, a[1]), a[2] if len(a) > 2 else kw.get("num", 3)))
                return [(s, vc.new_list(s, vv))]

            def gm(vc, s, recv, a, kw):
                k = a[2] if len(a) > 2 else kw.get("num", len(vv))
                seen.append(("m", a[0], t.items(s, a[1]), k))
                return [(s, vc.new_list(s, mm[:min(k, len(vv))]))]
            t.vc.contracts = {"get_v": gv, "getMaxMoments": gm}
            st = t.st(l > 0)
            nz = z3.Int("n")
            for s, v in t.call(F, "get_v_fj_max", st, [l, t.list(st, b[:N + 1]), nz, N], what=f"get_v_fj_max({N})"):
                r = t.items(s, v)
                ok = len(seen) == 2 and seen[0][0] == "v" and seen[1][0] == "m"
                t.chk(s, ok, f"maximum of branches ({N}): sojourn of one branch, then the maximum")
                if ok:
                    t.chk(s, z3.And(seen[0][1] == l, *[zr(x) == y for x, y in zip(seen[0][2], b)]), f"maximum of branches ({N}): sojourn of the branch")
                    t.chk(s, z3.And(zi(seen[1][1]) == nz, *[zr(x) == y for x, y in zip(seen[1][2], vv)]) if len(seen[1][2]) == N else False, f"maximum of branches ({N}): maximum of n branches")
                    t.chk(s, z3.And(*[zr(x) == y for x, y in zip(r, mm)]) if len(r) == N - 1 else False, f"maximum of branches ({N}): moments of the maximum")
    else:
        raise ValueError(what)
    return t.vc
