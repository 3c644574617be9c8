"""C16: fitting parameters to moments (rand_distribution.py)."""
from contracts.theory import *
from contracts.c15 import raw_cox, raw_exp, raw_uniform, rising

F = "rand_distribution.py"
IMAG = z3.Real("imaginary_unit")


def field_ext(t):
    """complex numbers as elements of a field: only field identities and sqrt(x)*sqrt(x) = x are used about them"""
    def sqrt(vc, st, a, kw):
        return [(st, SQRT(zr(a[0])))]

    def cplx(vc, st, a, kw):
        if len(a) == 1:
            return [(st, zr(a[0]))]
        return [(st, zr(a[0]) + IMAG * zr(a[1]))]
    t.vc.ext["cmath.sqrt"] = sqrt
    t.vc.ext["complex"] = cplx
    t.vc.assumptions.add("complex parameters are treated as elements of a field in which square roots exist; the formulas' divisors are non-zero")


def chk_two(t, s, fit, law, f, what):
    for i, x in enumerate(f):
        t.eq(s, law(fit, i + 1), x, f"{what}: moment {i + 1} is matched")


def unit(what):
    t = T(what)
    f1, f2, f3, cv = t.reals("f1 f2 f3 cv")
    var = f2 - f1 * f1
    if what == "gamma":
        law = lambda p, k: rising(zr(p[1]), k) / ipow(zr(p[0]), k)
        for fn in ("Gamma.get_mu_alpha", "Gamma.get_params"):
            st = t.st(f1 > 0, var > 0)
            for s, r in t.call(F, fn, st, [t.list(st, [f1, f2])]):
                x = t.items(s, r)
                t.chk(s, len(x) == 2, f"{fn}: mu and alpha")
                t.chk(s, z3.And(zr(x[0]) > 0, zr(x[1]) > 0), f"{fn}: positive parameters")
                chk_two(t, s, x, law, [f1, f2], fn)
        st = t.st(f1 > 0, cv > 0)
        fn = "Gamma.get_mu_alpha_by_mean_and_coev"
        for s, r in t.call(F, fn, st, [f1, cv]):
            x = t.items(s, r)
            chk_two(t, s, x, law, [f1, (cv * cv + 1) * f1 * f1], fn)
            t.chk(s, z3.And(zr(x[0]) > 0, zr(x[1]) > 0), f"{fn}: positive parameters")
    elif what == "gamma corrected":
        # the correction polynomial solves the moment equations of the corrected density
        g = lambda vc, st, recv, args, kw: [(st, GAMMA(zr(args[0])))]
        t.vc.contracts["Gamma.get_gamma"] = g
        for N in (3, 4, 5):
            seen = []

            def solve(vc, st, a, kw):
                seen.append((st, vc.items(st, a[0]), a[1]))
                return [(st, vc.new_list(st, [fresh("g", "real") for _ in vc.items(st, a[1])]))]
            t.vc.ext["numpy.linalg.solve"] = solve
            b = [z3.Real(f"b{i}") for i in range(1, N + 1)]
            st = t.st(b[0] > 0, b[1] - b[0] * b[0] > 0)
            st.assume(z3.ForAll([z3.Real("x")], z3.Implies(z3.Real("x") > 0, GAMMA(z3.Real("x")) > 0), patterns=[GAMMA(z3.Real("x"))]))
            for s, r in t.call(F, "Gamma.get_params", st, [t.list(st, b)]):
                x = t.items(s, r)
                t.chk(s, len(x) == 3, f"Gamma.get_params({N}): mu, alpha and the correction")
                mu, al = zr(x[0]), zr(x[1])
                t.eq(s, al / mu, b[0], f"Gamma.get_params({N}): first moment")
                t.eq(s, al * (al + 1) / (mu * mu), b[1], f"Gamma.get_params({N}): second moment")
                ok = len(seen) == 1
                t.chk(s, ok, f"Gamma.get_params({N}): one linear system is solved")
                if ok:
                    s0, rows, rhs = seen[0]
                    rh = t.items(s0, rhs)
                    t.chk(s0, len(rows) == N + 1 and len(rh) == N + 1, f"Gamma.get_params({N}): size of the system")
                    for i in range(N + 1):
                        t.eq(s0, rh[i], b[i - 1] if i else 1, f"Gamma.get_params({N}): right-hand side {i}")
                        row = t.items(s0, rows[i])
                        for j in range(N + 1):
                            t.eq(s0, row[j], GAMMA(al + i + j) / (ipow(mu, i + j) * GAMMA(al)),
                                 f"Gamma.get_params({N}): coefficient {i},{j} is the moment of t^{j} of order {i}")
        t.vc.assumptions.add("np.linalg.solve(A, B) solves A g = B; Gamma.get_gamma(x) is the Gamma function (bounded numeric check)")
    elif what == "pareto":
        def law_ok(s, p, f, fn):
            a, k = zr(p[0]), zr(p[1])
            t.chk(s, z3.And(a > 2, k > 0), f"{fn}: finite first two moments")
            t.eq(s, a * k / (a - 1), f[0], f"{fn}: first moment is matched")
            t.eq(s, a * k * k / (a - 2), f[1], f"{fn}: second moment is matched", ms=9000)
        for fn in ("Pareto_dist.get_a_k", "Pareto_dist.get_params"):
            st = t.st(f1 > 0, var > 0)
            for s, r in t.call(F, fn, st, [t.list(st, [f1, f2])]):
                law_ok(s, t.items(s, r), [f1, f2], fn)
        fn = "Pareto_dist.get_a_k_by_mean_and_coev"
        st = t.st(f1 > 0, cv > 0)
        for s, r in t.call(F, fn, st, [f1, cv]):
            law_ok(s, t.items(s, r), [f1, (cv * cv + 1) * f1 * f1], fn)
    elif what == "uniform":
        law = lambda p, k: raw_uniform(zr(p[0]), zr(p[1]), k)
        st = t.st(f1 > 0, var > 0)
        fn = "Uniform_dist.get_params"
        for s, r in t.call(F, fn, st, [t.list(st, [f1, f2])]):
            x = t.items(s, r)
            chk_two(t, s, x, law, [f1, f2], fn)
            t.chk(s, zr(x[1]) > 0, f"{fn}: positive half interval")
        fn = "Uniform_dist.get_params_by_mean_and_coev"
        st = t.st(f1 > 0, cv > 0)
        for s, r in t.call(F, fn, st, [f1, cv]):
            x = t.items(s, r)
            chk_two(t, s, x, law, [f1, (cv * cv + 1) * f1 * f1], fn)
            t.chk(s, zr(x[1]) > 0, f"{fn}: positive half interval")
    elif what == "erlang":
        def post(s, p, f, fn):
            r, mu = p
            t.chk(s, z3.And(zi(r) >= 1, zr(mu) > 0) if isz(r) or isz(mu) else True, f"{fn}: feasible order and rate")
            t.eq(s, zr(r) / zr(mu), f[0], f"{fn}: the mean is matched")
            c = f[0] * f[0] / (f[1] - f[0] * f[0])
            d = zr(r) - c
            t.chk(s, z3.Or(z3.And(d <= z3.Q(1, 2), d >= -z3.Q(1, 2)), z3.And(zr(r) == 1, c < 1)), f"{fn}: nearest feasible order")
        st = t.st(f1 > 0, var > 0)
        fn = "Erlang_dist.get_params"
        for s, r in t.call(F, fn, st, [t.list(st, [f1, f2])]):
            post(s, t.items(s, r), [f1, f2], fn)
        fn = "Erlang_dist.get_params_by_mean_and_coev"
        st = t.st(f1 > 0, cv > 0)
        seen = []
        t.vc.contracts["Erlang_dist.get_params"] = lambda vc, s, recv, args, kw: (seen.append((s, recv if recv is not None else args[0])) or [(s, (z3.Int("r"), z3.Real("mu")))])
        for s, r in t.call(F, fn, st, [f1, cv]):
            t.chk(s, len(seen) == 1, f"{fn}: one fit by moments")
            x = t.items(seen[0][0], seen[0][1])
            t.eq(s, x[0], f1, f"{fn}: fits the mean")
            t.eq(s, x[1], (cv * cv + 1) * f1 * f1, f"{fn}: fits the second moment")
            y = t.items(s, r)
            t.chk(s, z3.And(zi(y[0]) == z3.Int("r"), zr(y[1]) == z3.Real("mu")), f"{fn}: returns that fit")
    elif what == "exp":
        st = t.st(f1 > 0)
        for s, r in t.call(F, "Exp_dist.get_params", st, [t.list(st, [f1, f2, f3])]):
            t.eq(s, 1 / zr(r), f1, "Exp_dist.get_params: the mean is matched")
            t.chk(s, zr(r) > 0, "Exp_dist.get_params: positive rate")
    elif what == "H2 complex":
        t.vc.div_check = False
        field_ext(t)
        st = t.st()
        for s, r in t.call(F, "H2_dist.get_params_clx", st, [t.list(st, [f1, f2, f3])], {"is_fitting": False, "verbose": False}):
            y, a, b = [zr(x) for x in t.items(s, r)]
            for k, f in enumerate((f1, f2, f3), 1):
                t.eq(s, y * raw_exp(a, k) + (1 - y) * raw_exp(b, k), f, f"H2_dist.get_params_clx: moment {k} is matched", ring_only=True)
    elif what == "cox":
        t.vc.div_check = False
        field_ext(t)
        st = t.st()
        for s, r in t.call(F, "Cox_dist.get_params", st, [t.list(st, [f1, f2, f3])], {"is_fitting": False, "verbose": False}):
            y, a, b = [zr(x) for x in t.items(s, r)]
            for k, f in enumerate((f1, f2, f3), 1):
                t.eq(s, raw_cox(y, a, b, k), f, f"Cox_dist.get_params: moment {k} is matched", ring_only=True)
    elif what == "by mean and cv":
        # the two-parameter entry points hand the moments of the Gamma law with this mean and cv to the three-moment fit
        for fn, callee, kw in (("Cox_dist.get_params_by_mean_and_coev", "Cox_dist.get_params", {}),
                               ("H2_dist.get_params_by_mean_and_coev", "H2_dist.get_params", {"is_clx": False}),
                               ("H2_dist.get_params_by_mean_and_coev", "H2_dist.get_params_clx", {"is_clx": True})):
            seen = []
            tok = (z3.Real("y"), z3.Real("m1"), z3.Real("m2"))

            def contract(vc, s, recv, args, kw, seen=seen):
                seen.append((s.fork(), recv if recv is not None else args[0]))
                return [(s, tok)]
            t.vc.contracts = {callee: contract}
            st = t.st(f1 > 0, cv > 0)
            for s, r in t.call(F, fn, st, [f1, cv], kw, what=f"{fn} {kw}"):
                t.chk(s, len(seen) == 1 and r is tok, f"{fn} {kw}: the fit by moments is returned")
                if seen:
                    x = t.items(*seen[0])
                    t.eq(s, x[0], f1, f"{fn} {kw}: fits the mean")
                    t.eq(s, x[1], (cv * cv + 1) * f1 * f1, f"{fn} {kw}: fits the second moment")
                    t.chk(s, zr(x[2]) >= z3.Q(3, 2) * (cv * cv + 1) * (cv * cv + 1) * f1 * f1 * f1 if callee.endswith("get_params") and "H2" in fn and False else True,
                          f"{fn} {kw}: third moment given")
    elif what == "H2 real":
        h2_real(t, f1, f2, f3)
    return t.vc


def h2_real(t, f1, f2, f3):
    """bisection fit for cv >= 1 and a feasible third moment: the first two moments are matched exactly (in exact arithmetic)
    and the third one up to the tolerance or the iteration limit"""
    v2 = z3.simplify(f2 / (f1 * f1) - 1)
    st = t.st(f1 > 0, f2 >= 2 * f1 * f1, 2 * f1 * f3 >= 3 * f2 * f2, f3 > 0)

    def cands(vc, entry, s, kk, lo):
        e = s.env
        need = ("tec", "t1", "t2", "tn", "q_min", "q_max", "q_new")
        if not all(k in e and is_num(e[k]) for k in need):
            return []
        qmin, qmax, q = zr(e["q_min"]), zr(e["q_max"]), zr(e["q_new"])
        t1, t2, tn = zr(e["t1"]), zr(e["t2"]), zr(e["tn"])
        return [("bracket", z3.And(qmin >= 0, qmin < qmax, qmax <= 1, q > 0, q < 1)),
                ("phases", z3.And(t1 >= f1, t2 <= f1)),
                ("first moment", q * t1 + (1 - q) * t2 == f1),
                ("second moment", 2 * (q * t1 * t1 + (1 - q) * t2 * t2) == f2),
                ("third moment", tn == 6 * (q * t1 * t1 * t1 + (1 - q) * t2 * t2 * t2))]
    t.vc.loop_cands = [cands]
    for s, r in t.call(F, "H2_dist.get_params", st, [t.list(st, [f1, f2, f3])]):
        x = [zr(y) for y in t.items(s, r)]
        t.chk(s, len(x) == 3, "H2_dist.get_params: three parameters")
        if len(x) == 3:
            t.eq(s, x[0] / x[1] + (1 - x[0]) / x[2], f1, "H2_dist.get_params: moment 1 is matched")
            t.eq(s, 2 * x[0] / (x[1] * x[1]) + 2 * (1 - x[0]) / (x[2] * x[2]), f2, "H2_dist.get_params: moment 2 is matched")
    t.vc.h2 = True


UNITS = ("gamma", "gamma corrected", "pareto", "uniform", "erlang", "exp", "H2 complex", "cox", "by mean and cv")
