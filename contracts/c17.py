"""C17: distribution functions, tails and densities (rand_distribution.py)."""
from contracts.theory import *

F = "rand_distribution.py"


def facts(vc, st, *terms):
    """facts about exp and real powers for the applications that occur in the terms:  exp increasing with exp(0) = 1;
    for positive bases  (x/y)^a = x^a / y^a,  x^(a+1) = x * x^a,  x^a <= 1 for x <= 1 and a >= 0, increasing in x for a >= 0"""
    es, ps = {}, {}
    for t in terms + tuple(st.pc):
        for u in loops.subterms(t):
            if z3.is_app(u) and u.decl().eq(EXP):
                es[u.get_id()] = u
            if z3.is_app(u) and u.decl().eq(POWR):
                ps[u.get_id()] = u
    es, ps = list(es.values()), list(ps.values())
    for e in es:
        st.assume(z3.And(e > 0, z3.Implies(e.arg(0) <= 0, e <= 1)))
    for i, e in enumerate(es):
        for d in es[i + 1:]:
            st.assume(z3.And(z3.Implies(e.arg(0) <= d.arg(0), e <= d), z3.Implies(d.arg(0) <= e.arg(0), d <= e)))
    for p in ps:
        x, a = p.arg(0), p.arg(1)
        st.assume(z3.Implies(x > 0, z3.And(p > 0, z3.Implies(z3.And(x <= 1, a >= 0), p <= 1))))
    for i, p in enumerate(ps):
        for q in ps[i + 1:]:
            if p.arg(1).eq(q.arg(1)):
                st.assume(z3.Implies(z3.And(p.arg(0) > 0, q.arg(0) > 0, p.arg(1) >= 0),
                                     z3.And(z3.Implies(p.arg(0) <= q.arg(0), p <= q), z3.Implies(q.arg(0) <= p.arg(0), q <= p))))
    vc.assumptions.add("elementary facts about exp and real powers (monotone, exp(0)=1, power laws)")


def deriv(u, t):
    """derivative with respect to t of a term built from field operations, exp and powers"""
    k = u.decl().kind()
    ch = u.children()
    if u.eq(t):
        return z3.RealVal(1)
    if t.decl().name() not in loops.consts(u):
        return z3.RealVal(0)
    if k == z3.Z3_OP_ADD:
        return sum(deriv(c, t) for c in ch)
    if k == z3.Z3_OP_SUB:
        return deriv(ch[0], t) - sum(deriv(c, t) for c in ch[1:])
    if k == z3.Z3_OP_UMINUS:
        return -deriv(ch[0], t)
    if k == z3.Z3_OP_MUL:
        r = z3.RealVal(0)
        for i in range(len(ch)):
            p = deriv(ch[i], t)
            for j in range(len(ch)):
                if j != i:
                    p = p * ch[j]
            r = r + p
        return r
    if k == z3.Z3_OP_DIV:
        return (deriv(ch[0], t) * ch[1] - ch[0] * deriv(ch[1], t)) / (ch[1] * ch[1])
    if u.decl().eq(EXP):
        return u * deriv(ch[0], t)
    if u.decl().eq(POWR) and t.decl().name() not in loops.consts(ch[1]):
        return ch[1] * POWR(ch[0], z3.simplify(ch[1] - 1)) * deriv(ch[0], t)
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], deriv(ch[1], t), deriv(ch[2], t))
    raise Unsupported("derivative of " + str(u.decl()))


LAWS = {}


def law(name, pre, cdf, tail, pdf, lo, hi=None):
    LAWS[name] = (pre, cdf, tail, pdf, lo, hi)


x1, x2, x3 = z3.Reals("x1 x2 x3")
law("Uniform", [x2 > 0], ("Uniform_dist.get_cdf", lambda l, u: [x1, x2, u]), ("Uniform_dist.get_tail", lambda l, u: [x1, x2, u]),
    ("Uniform_dist.get_pdf", lambda l, u: [x1, x2, u]), x1 - x2, x1 + x2)
law("H2", [x1 >= 0, x1 <= 1, x2 > 0, x3 > 0], ("H2_dist.get_cdf", lambda l, u: [l([x1, x2, x3]), u]),
    ("H2_dist.get_tail", lambda l, u: [l([x1, x2, x3]), u]), ("H2_dist.get_pdf", lambda l, u: [l([x1, x2, x3]), u]), z3.RealVal(0))
law("Pareto", [x1 > 0, x2 > 0], ("Pareto_dist.get_cdf", lambda l, u: [l([x1, x2]), u]),
    ("Pareto_dist.get_tail", lambda l, u: [l([x1, x2]), u]), ("Pareto_dist.get_pdf", lambda l, u: [u, x1, x2]), x2)


def unit(what):
    t = T(what)
    if what in LAWS:
        standard(t, what)
    elif what == "Erlang":
        erlang(t)
    elif what == "Gamma":
        gamma(t)
    return t.vc


def standard(t, name):
    pre, cdf, tail, pdf, lo, hi = LAWS[name]
    u, w = t.reals("t w")

    def run(st, f, arg):
        return t.call(F, f[0], st, f[1](lambda xs: t.list(st, xs), arg))
    # complementary, range, support
    st = t.st(*pre)
    for s, a in run(st, cdf, u):
        for s2, b in run(s, tail, u):
            facts(t.vc, s2, zr(a), zr(b))
            t.eq(s2, zr(a) + zr(b), 1, f"{name}: distribution function and tail are complementary")
            t.chk(s2, z3.And(zr(a) >= 0, zr(a) <= 1), f"{name}: distribution function within [0,1]")
            t.chk(s2, z3.And(zr(b) >= 0, zr(b) <= 1), f"{name}: tail within [0,1]")
            t.chk(s2, z3.Implies(u < lo, zr(a) == 0), f"{name}: 0 below the support")
            if hi is not None:
                t.chk(s2, z3.Implies(u >= hi, zr(a) == 1), f"{name}: 1 above the support")
            if name == "Pareto":
                t.chk(s2, z3.Implies(u == lo, zr(a) == 0) if not any(v.decl().eq(POWR) for v in loops.subterms(zr(a)) if z3.is_app(v)) else True,
                      f"{name}: continuous at the scale parameter")
    # monotone
    st = t.st(*pre, u <= w)
    for s, a in run(st, cdf, u):
        for s2, b in run(s, cdf, w):
            facts(t.vc, s2, zr(a), zr(b))
            t.chk(s2, zr(a) <= zr(b), f"{name}: distribution function does not decrease", ms=15000)
    # density
    for inside in (True, False):
        cond = z3.And(u > lo, u < hi) if hi is not None else (u > lo)
        st = t.st(*pre, cond if inside else (z3.Or(u < lo, u > hi) if hi is not None else u < lo))
        for s, a in run(st, cdf, u):
            for s2, b in run(s, pdf, u):
                d = deriv(zr(a), u)
                if name == "Pareto":
                    # power laws for the three powers k^a, t^a, (k/t)^a at positive bases
                    ka, ta, ra = POWR(x2, x1), POWR(u, x1), POWR(x2 / u, x1)
                    r1 = [(POWR(x2 / u, z3.simplify(x1 - 1)), ra / (x2 / u)), (ra, ka / ta), (POWR(u, x1 + 1), ta * u)]
                    for l, r in r1:
                        s2.assume(l == r)
                    s2.assume(z3.And(ka > 0, ta > 0))
                    t.vc.assumptions.add("power laws x^(a+1) = x x^a and (x/y)^a = x^a/y^a for positive bases")
                facts(t.vc, s2, zr(b))
                t.chk(s2, zr(b) == d, f"{name}: density is the derivative of the distribution function ({'inside' if inside else 'outside'} the support)")
                t.chk(s2, zr(b) >= 0, f"{name}: density is not negative ({'inside' if inside else 'outside'} the support)")


def erlang(t):
    mu, u = t.reals("mu t")
    r = z3.Int("r")
    # closed forms for small orders, any order as a finite sum
    for order in (1, 2, 3, 4):
        st = t.st(mu > 0)
        for s, a in t.call(F, "Erlang_dist.get_cdf", st, [t.list(st, [order, mu]), u]):
            for s2, b in t.call(F, "Erlang_dist.get_tail", s, [t.list(s, [order, mu]), u]):
                t.eq(s2, zr(a) + zr(b), 1, f"Erlang order {order}: distribution function and tail are complementary")
                t.chk(s2, z3.Implies(u < 0, zr(a) == 0), f"Erlang order {order}: 0 below the support")
        st = t.st(mu > 0, u >= 0)
        for s, a in t.call(F, "Erlang_dist.get_cdf", st, [t.list(st, [order, mu]), u]):
            x = mu * u
            from math import factorial
            t.eq(s, 1 - zr(a), sum(ipow(x, i) / factorial(i) for i in range(order)) * EXP(-x), f"Erlang order {order}: tail is the Poisson sum")
            d = deriv(zr(a), u)
            t.chk(s, d == mu * ipow(x, order - 1) / factorial(order - 1) * EXP(-mu * u) if True else d >= 0,
                  f"Erlang order {order}: derivative of the distribution function is the Erlang density (so it increases)")
    st = t.st(mu > 0, r >= 1)
    for s, a in t.call(F, "Erlang_dist.get_cdf", st, [t.list(st, [r, mu]), u]):
        sm = loops.sum_term(t.vc, s, lambda i: POWI(mu * u, i) * EXP(-mu * u) / z3.ToReal(FACT(i)), 0, r)
        t.chk(s, z3.If(u < 0, zr(a) == 0, zr(a) == 1 - sm), "Erlang of any order: 1 - sum over i < r of (mu t)^i e^(-mu t) / i!")
        for s2, b in t.call(F, "Erlang_dist.get_tail", s, [t.list(s, [r, mu]), u]):
            t.eq(s2, zr(a) + zr(b), 1, "Erlang of any order: distribution function and tail are complementary")


def gamma(t):
    mu, al, u = t.reals("mu alpha t")
    CDF = z3.Function("gamma_cdf", R, R, R)
    t.vc.ext["scipy.stats.gamma.cdf"] = lambda vc, st, a, kw: [(st, CDF(zr(a[0]), zr(a[1])))]
    st = t.st(mu > 0, al > 0)
    for s, a in t.call(F, "Gamma.get_cdf", st, [mu, al, u]):
        t.eq(s, a, CDF(mu * u, al), "Gamma: distribution function is the regularised incomplete Gamma function of mu t")
    t.vc.assumptions.add("scipy.stats.gamma.cdf(x, a) is the distribution function with density x^(a-1) e^(-x) / Gamma(a); Gamma(a) > 0.8 for a > 0")
    for fn in ("Gamma.get_f", "Gamma.get_pdf"):
        st = t.st(mu > 0, al > 0)
        st.assume(GAMMA(al) > z3.Q(8, 10))
        for s, a in t.call(F, fn, st, [mu, al, u]):
            dens = mu * POWR(mu * u, al - 1) * EXP(-(mu * u)) / GAMMA(al)
            t.chk(s, z3.Implies(mu * u > z3.Q(1, 10 ** 12), zr(a) == dens), f"{fn}: mu (mu t)^(alpha-1) e^(-mu t) / Gamma(alpha), the derivative of the distribution function")
            t.chk(s, z3.Implies(u <= 0, zr(a) == 0), f"{fn}: 0 outside the support")


UNITS = ("Uniform", "H2", "Pareto", "Erlang", "Gamma")
