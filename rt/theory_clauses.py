import cmath
import math

import numpy as np
from scipy import integrate, special, stats

from theory_rt import clause, need, same, sames, u, mix_moments, gamma_moments, Bad
from common import quiet

import most_queue.rand_distribution as rd
import most_queue.general_utils.conv as conv
import most_queue.theory.mg1_calc as mg1
import most_queue.theory.utils.q_poisson_arrival_calc as qp


# ================================================================================ C14 moments of sums and differences
def binom_sum(a, b, n):
    a, b = [1] + list(a), [1] + list(b)
    return [sum(math.comb(k, j) * a[j] * b[k - j] for j in range(k + 1)) for k in range(1, n + 1)]


def g_two(rng):
    return dict(a=mix_moments(rng, 3), b=mix_moments(rng, 3), num=rng.choice([1, 2, 3, 3, 3]))


@clause("C14", g_two)
def conv_sum(a, b, num):
    a0, b0 = list(a), list(b)
    r = conv.get_moments(a, b, num)
    sames(r, binom_sum(a, b, num), "moments of the sum")
    sames(conv.get_moments(b, a, num), r, "symmetry")
    need(a == a0 and b == b0, "the moments passed in were changed")
    sames(conv.get_moments(a, b), binom_sum(a, b, 3), "moments of the sum (default number)")
    sames(conv.get_moments(a, [0, 0, 0], num), a[:num], "adding 0")


@clause("C14", g_two)
def conv_difference(a, b, num):
    s = conv.get_moments(a, b, 3)
    s0, b0 = list(s), list(b)
    sames(conv.get_moments_minus(s, b, num), a[:num], "difference undoes the sum", tol=1e-6, scale=max(s))
    need(s == s0 and b == b0, "the moments passed in were changed")
    sames(conv.get_moments_minus(s, b), a, "difference undoes the sum (default number)", tol=1e-6, scale=max(s))


@clause("C14", lambda rng: dict(a=[u(rng, -3, 3) for _ in range(3)], b=[u(rng, -3, 3) for _ in range(3)], num=rng.choice([1, 2, 3])))
def conv_inverse_any(a, b, num):
    sames(conv.get_moments(conv.get_moments_minus(a, b, num), b, num), a[:num], "sum undoes the difference", tol=1e-6, scale=200)


@clause("C14", lambda rng: dict(b=mix_moments(rng, 3), n=rng.choice([0, rng.randint(1, 9), rng.randint(1, 9), rng.randint(10, 60)]), num=rng.choice([1, 2, 3])))
def conv_self(b, n, num):
    want = [0.0] * 3
    for _ in range(n):
        want = binom_sum(want, b, 3)
    b0 = list(b)
    sames(conv.get_self_conv_moments(b, n, num), want[:num], f"{n}-fold convolution")
    sames(conv.get_self_conv_moments(b, n), want, f"{n}-fold convolution (default number)")
    need(b == b0, "the moments passed in were changed")


# ================================================================================ C15 theoretical moments
def raw(dist, n):
    return [float(dist.moment(k)) for k in range(1, n + 1)]


@clause("C15", lambda rng: dict(m=u(rng, -3, 6), h=u(rng, .05, 5), num=rng.randint(1, 6)))
def uniform_moments(m, h, num):
    want = [((m + h) ** (k + 1) - (m - h) ** (k + 1)) / ((k + 1) * 2 * h) for k in range(1, num + 1)]
    want2 = [integrate.quad(lambda x: x ** k / (2 * h), m - h, m + h)[0] for k in range(1, num + 1)]
    sc = (abs(m) + h) ** num
    got = rd.Uniform_dist.calc_theory_moments(m, h, num)
    sames(got, want, "uniform moments", 1e-6, sc)
    sames(got, want2, "uniform moments (integrated)", 1e-6, sc)
    need(len(rd.Uniform_dist.calc_theory_moments(m, h)) == 3, "three moments by default")


@clause("C15", lambda rng: dict(y=u(rng, 0, 1), a=u(rng, .05, 9), b=u(rng, .05, 9), num=rng.randint(1, 7)))
def h2_moments(y, a, b, num):
    want = [math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in range(1, num + 1)]
    sames(rd.H2_dist.calc_theory_moments(y, a, b, num), want, "H2 moments")
    sames(rd.H2_dist.calc_theory_moments(y, a, b), [math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in (1, 2, 3)], "H2 moments (default)")


@clause("C15", lambda rng: dict(y=[u(rng, -2, 2), u(rng, -2, 2)], a=[u(rng, .3, 3), u(rng, -2, 2)], b=[u(rng, .3, 3), u(rng, -2, 2)], num=rng.randint(1, 5)))
def h2_moments_complex(y, a, b, num):
    y, a, b = complex(*y), complex(*a), complex(*b)
    want = [math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in range(1, num + 1)]
    sames(rd.H2_dist.calc_theory_moments(y, a, b, num), want, "H2 moments (complex parameters)", 1e-6, max(abs(w) for w in want))


@clause("C15", lambda rng: dict(r=rng.randint(1, 9), mu=u(rng, .05, 9), num=rng.randint(1, 7)))
def erlang_moments(r, mu, num):
    sames(rd.Erlang_dist.calc_theory_moments(r, mu, num), raw(stats.gamma(r, scale=1 / mu), num), "Erlang moments")
    sames(rd.Erlang_dist.calc_theory_moments(r, mu), raw(stats.gamma(r, scale=1 / mu), 3), "Erlang moments (default)")


@clause("C15", lambda rng: dict(mu=u(rng, .05, 9), num=rng.randint(1, 7)))
def exp_moments(mu, num):
    sames(rd.Exp_dist.calc_theory_moments(mu, num), [math.factorial(k) / mu ** k for k in range(1, num + 1)], "exponential moments")
    sames(rd.Exp_dist.calc_theory_moments(mu), [1 / mu, 2 / mu ** 2, 6 / mu ** 3], "exponential moments (default)")


@clause("C15", lambda rng: dict(al=u(rng, .05, 9), mu=u(rng, .05, 9), num=rng.randint(1, 7)))
def gamma_moments_(al, mu, num):
    sames(rd.Gamma.calc_theory_moments(mu, al, num), raw(stats.gamma(al, scale=1 / mu), num), "Gamma moments", 1e-6)
    sames(rd.Gamma.calc_theory_moments(mu, al), raw(stats.gamma(al, scale=1 / mu), 3), "Gamma moments (default)", 1e-6)


def cox_want(y, a, b):
    e = lambda m, k: math.factorial(k) / m ** k
    return [e(a, k) + y * sum(math.comb(k, j) * e(a, k - j) * e(b, j) for j in range(1, k + 1)) for k in (1, 2, 3)]


@clause("C15", lambda rng: dict(y=u(rng, 0, 1), a=u(rng, .05, 9), b=u(rng, .05, 9)))
def cox_moments(y, a, b):
    sames(rd.Cox_dist.calc_theory_moments(y, a, b), cox_want(y, a, b), "Cox moments")


@clause("C15", lambda rng: dict(a=u(rng, .3, 8), k=u(rng, .05, 5), num=rng.randint(1, 6)))
def pareto_moments(a, k, num):
    for n, got in ((num, rd.Pareto_dist.calc_theory_moments(a, k, num)), (3, rd.Pareto_dist.calc_theory_moments(a, k))):
        sames(got, [a * k ** i / (a - i) for i in range(1, n + 1) if i < a], "Pareto moments (the finite ones)")


# ================================================================================ C16 fits
def g_mean_coev(lo, hi):
    return lambda rng: dict(f1=u(rng, .05, 9), c=rng.choice([lo + (hi - lo) * rng.random(), u(rng, lo, hi), 1.0 if lo <= 1 <= hi else hi]))


def two(f1, c):
    return [f1, f1 * f1 * (1 + c * c)]


@clause("C16", lambda rng: dict(f1=u(rng, .05, 20), extra=[rng.random() * 9 for _ in range(rng.randint(0, 3))]))
def exp_fit(f1, extra):
    mu = rd.Exp_dist.get_params([f1] + extra)
    same(rd.Exp_dist.calc_theory_moments(mu)[0], f1, "exponential fit keeps the mean")


@clause("C16", g_mean_coev(.05, 3))
def gamma_fit(f1, c):
    m = two(f1, c)
    m0 = list(m)
    for what, p in (("get_mu_alpha", rd.Gamma.get_mu_alpha(m)), ("get_params", rd.Gamma.get_params(m)), ("by mean and coev", rd.Gamma.get_mu_alpha_by_mean_and_coev(f1, c))):
        sames(rd.Gamma.calc_theory_moments(p[0], p[1], 2), m, f"Gamma fit ({what})", 1e-6)
    need(m == m0, "the moments passed in were changed")


@clause("C16", lambda rng: dict(m=gamma_moments(u(rng, .2, 3), rng.uniform(.4, 1.6), rng.choice([3, 4])), bump=[rng.uniform(.9, 1.1), rng.uniform(.9, 1.1)]))
def gamma_corrected_fit(m, bump):
    m = list(m)
    for i in range(2, len(m)):
        m[i] *= bump[i - 2]
    mu, al, g = rd.Gamma.get_params(m)
    mom = lambda k: special.gamma(al + k) / (special.gamma(al) * mu ** k)
    got = [sum(g[j] * mom(i + j) for j in range(len(g))) for i in range(len(m) + 1)]
    sames(got, [1] + m, "moments of the corrected Gamma density", 1e-5)


@clause("C16", g_mean_coev(.05, 3))
def pareto_fit(f1, c):
    m = two(f1, c)
    for what, p in (("get_a_k", rd.Pareto_dist.get_a_k(m)), ("get_params", rd.Pareto_dist.get_params(m)), ("by mean and coev", rd.Pareto_dist.get_a_k_by_mean_and_coev(f1, c))):
        sames(rd.Pareto_dist.calc_theory_moments(p[0], p[1], 2), m, f"Pareto fit ({what})", 1e-6)


@clause("C16", g_mean_coev(.05, 3))
def uniform_fit(f1, c):
    m = two(f1, c)
    for what, p in (("get_params", rd.Uniform_dist.get_params(m)), ("by mean and coev", rd.Uniform_dist.get_params_by_mean_and_coev(f1, c))):
        sames(rd.Uniform_dist.calc_theory_moments(p[0], p[1], 2), m, f"uniform fit ({what})", 1e-6)
        need(p[1] > 0, "positive half interval")


@clause("C16", g_mean_coev(.1, 3))
def erlang_fit(f1, c):
    m = two(f1, c)
    for what, p in (("get_params", rd.Erlang_dist.get_params(m)), ("by mean and coev", rd.Erlang_dist.get_params_by_mean_and_coev(f1, c))):
        r, mu = p
        need(isinstance(r, int) and r >= 1, f"Erlang order {r!r}")
        same(rd.Erlang_dist.calc_theory_moments(r, mu)[0], f1, f"Erlang fit keeps the mean ({what})")
        need(abs(r - 1 / c ** 2) <= .5 + 1e-6 or (r == 1 and c > 1), f"Erlang order {r} is not the nearest to {1 / c ** 2}")


@clause("C16", lambda rng: dict(y=rng.uniform(.03, .97), a=u(rng, .05, 9), b=u(rng, .05, 9)))
def h2_real_fit(y, a, b):
    if abs(a - b) < 1e-3 * a:
        b = a * 2
    m = [math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in (1, 2, 3)]
    m0 = list(m)
    p = rd.H2_dist.get_params(m)
    need(m == m0, "the moments passed in were changed")
    need(-1e-9 <= p[0] <= 1 + 1e-9 and p[1] > 0 and p[2] > 0, f"H2 parameters {p}")
    sames(rd.H2_dist.calc_theory_moments(*p), m, "H2 fit", 1e-5)


@clause("C16", lambda rng: dict(f1=u(rng, .05, 9), c=rng.choice([1.0, 1.0, 1 + rng.random() * .05, u(rng, 1, 4)])))
def h2_real_fit_coev(f1, c):
    p = rd.H2_dist.get_params_by_mean_and_coev(f1, c)
    m = rd.H2_dist.calc_theory_moments(*p)
    sames(m[:2], two(f1, c), "H2 fit by mean and coefficient of variation", 1e-5)
    same(m[2], f1 ** 3 * (1 + c * c) * (1 + 2 * c * c), "H2 fit by mean and coefficient of variation, third moment", 1e-5)


@clause("C16", lambda rng: dict(f1=u(rng, .05, 9), c=rng.uniform(1.1, 3), s=rng.uniform(.75, .98)))
def h2_low_third(f1, c, s):
    m = two(f1, c) + [s * 1.5 * (1 + c * c) ** 2 * f1 ** 3]
    sames(rd.H2_dist.calc_theory_moments(*rd.H2_dist.get_params(m))[:2], m[:2], "H2 fit, third moment too small", 1e-5)


def away(c):
    """away from the coefficients of variation where the complex fits deliberately perturb the moments"""
    for x in (1.0, 1 / math.sqrt(2), math.sqrt(.5), 1 / math.sqrt(3)):
        if abs(c - x) < .03:
            return x + .06
    return c


@clause("C16", lambda rng: dict(f1=u(rng, .3, 6), c=rng.uniform(.3, 2.5), t=rng.uniform(.9, 1.2)))
def h2_complex_fit(f1, c, t):
    c = away(c)
    m = gamma_moments(f1, c, 3)
    m[2] *= t
    m0 = list(m)
    for fit in (True, False):
        p = rd.H2_dist.get_params_clx(m, verbose=False, is_fitting=fit)
        sames(rd.H2_dist.calc_theory_moments(*p), m, f"H2 complex fit (is_fitting={fit})", 1e-5)
    need(m == m0, "the moments passed in were changed")
    p = rd.H2_dist.get_params_by_mean_and_coev(f1, c, is_clx=True)
    sames(rd.H2_dist.calc_theory_moments(*p), gamma_moments(f1, c, 3), "H2 complex fit by mean and coefficient of variation", 1e-5)


@clause("C16", lambda rng: dict(f1=u(rng, .3, 6), c=rng.uniform(.3, 2.5), t=rng.uniform(.9, 1.2)))
def cox_fit(f1, c, t):
    c = away(c)
    m = gamma_moments(f1, c, 3)
    m3 = list(m)
    m3[2] *= t
    f = [m3[i] / math.factorial(i + 1) for i in range(3)]
    if abs(f[1] ** 2 - f[0] * f[2]) < 1e-2 * f[1] ** 2 or abs(m[1] - m[0] ** 2) < 5e-3 or abs(m[1] - 1.5 * m[0] ** 2) < 5e-3:
        m3 = m
        if abs(m[1] - m[0] ** 2) < 5e-3 or abs(m[1] - .75 * m[0] ** 2) < 5e-3:
            return
    m0 = list(m3)
    for fit in (True, False):
        p = rd.Cox_dist.get_params(m3, verbose=False, is_fitting=fit)
        sames(cox_want(*p), m3, f"Cox fit (is_fitting={fit})", 1e-4)
        sames(rd.Cox_dist.calc_theory_moments(*p), m3, f"theoretical moments of the Cox fit (is_fitting={fit})", 1e-4)
    need(m3 == m0, "the moments passed in were changed")
    p = rd.Cox_dist.get_params_by_mean_and_coev(f1, c)
    sames(cox_want(*p), m, "Cox fit by mean and coefficient of variation", 1e-4)


# ================================================================================ C17 distribution functions
def consistent(cdf, tail, pdf, pts, lo, jumps=(), tol=1e-7, lowpdf=True):
    prev = None
    for t in sorted(pts):
        F, G = float(cdf(t)), (float(tail(t)) if tail else None)
        need(-1e-12 <= F <= 1 + 1e-12, f"distribution function {F} at {t}")
        if tail:
            need(-1e-12 <= G <= 1 + 1e-12, f"tail {G} at {t}")
            same(F + G, 1.0, f"tail and distribution function at {t}", 1e-9)
        if t < lo - 1e-9:
            need(abs(F) < 1e-12 and (not tail or abs(G - 1) < 1e-12), f"below the support ({t}): cdf {F}")
            if pdf:
                need(abs(float(pdf(t))) < 1e-12, f"density {pdf(t)} below the support ({t})")
        if prev is not None:
            need(F >= prev - 1e-10, f"distribution function decreases at {t}")
        prev = F
        if pdf and all(abs(t - j) > 1e-3 for j in jumps):
            h = 1e-5 * max(1.0, abs(t))
            d = (float(cdf(t + h)) - float(cdf(t - h))) / (2 * h)
            same(float(pdf(t)), d, f"density is the derivative of the distribution function at {t}", 2e-4, 1e-2)
            if pdf:
                need(float(pdf(t)) >= 0, f"negative density at {t}")


def pts_gen(lo, hi):
    return lambda rng: [u(rng, lo, hi) for _ in range(6)] + [0.0, -1.0, rng.uniform(-2, 0)]


@clause("C17", lambda rng: dict(m=u(rng, -2, 5), h=u(rng, .1, 4), pts=pts_gen(-8, 12)(rng)))
def uniform_functions(m, h, pts):
    U = rd.Uniform_dist
    pts = pts + [m - h, m + h, m, m - h - .5, m + h + .5, m + h / 2]
    consistent(lambda t: U.get_cdf(m, h, t), lambda t: U.get_tail(m, h, t), lambda t: U.get_pdf(m, h, t), pts, m - h, (m - h, m + h))
    for t in pts:
        same(U.get_cdf(m, h, t), float(stats.uniform.cdf(t, m - h, 2 * h)), f"uniform cdf at {t}", 1e-9, 1)


@clause("C17", lambda rng: dict(y=u(rng, 0, 1), a=u(rng, .05, 6), b=u(rng, .05, 6), pts=pts_gen(-2, 9)(rng)))
def h2_functions(y, a, b, pts):
    p = [y, a, b]
    consistent(lambda t: rd.H2_dist.get_cdf(p, t), lambda t: rd.H2_dist.get_tail(p, t), lambda t: rd.H2_dist.get_pdf(p, t), pts, 0, (0,))
    for t in pts:
        if t >= 0:
            same(rd.H2_dist.get_tail(p, t), y * math.exp(-a * t) + (1 - y) * math.exp(-b * t), f"H2 tail at {t}", 1e-9, 1)
    need(p == [y, a, b], "the parameters passed in were changed")


@clause("C17", lambda rng: dict(a=u(rng, .2, 6), k=u(rng, .05, 4), pts=pts_gen(-2, 9)(rng)))
def pareto_functions(a, k, pts):
    p = [a, k]
    pts = pts + [k, k * .9, k * 1.1, k * 3]
    consistent(lambda t: rd.Pareto_dist.get_cdf(p, t), lambda t: rd.Pareto_dist.get_tail(p, t), lambda t: rd.Pareto_dist.get_pdf(t, a, k), pts, k, (k,))
    for t in pts:
        same(rd.Pareto_dist.get_tail(p, t), float(stats.pareto.sf(t, a, scale=k)), f"Pareto tail at {t}", 1e-9, 1)


@clause("C17", lambda rng: dict(r=rng.randint(1, 7), mu=u(rng, .05, 6), pts=pts_gen(-2, 9)(rng)))
def erlang_functions(r, mu, pts):
    p = [r, mu]
    consistent(lambda t: rd.Erlang_dist.get_cdf(p, t), lambda t: rd.Erlang_dist.get_tail(p, t), None, pts, 0)
    for t in pts:
        same(rd.Erlang_dist.get_cdf(p, t), float(stats.gamma.cdf(t, r, scale=1 / mu)), f"Erlang cdf at {t}", 1e-8, 1)


@clause("C17", lambda rng: dict(al=u(rng, .1, 6), mu=u(rng, .05, 6), pts=pts_gen(-2, 9)(rng)))
def gamma_functions(al, mu, pts):
    consistent(lambda t: rd.Gamma.get_cdf(mu, al, t), None, lambda t: rd.Gamma.get_pdf(mu, al, t), [t for t in pts if t <= 0 or t > .05], 0, (0,))
    for t in pts:
        same(float(rd.Gamma.get_cdf(mu, al, t)), float(stats.gamma.cdf(t, al, scale=1 / mu)), f"Gamma cdf at {t}", 1e-8, 1)
        if t > .01:
            same(rd.Gamma.get_f(mu, al, t), float(stats.gamma.pdf(t, al, scale=1 / mu)), f"Gamma density at {t}", 1e-6, 1e-6)


# ================================================================================ C18 M/G/1
def g_mg1(nmin=2, nmax=6):
    def g(rng):
        b = mix_moments(rng, rng.randint(nmin, nmax))
        return dict(l=rng.uniform(.05, .95) / b[0], b=b, num=rng.randint(1, 6))
    return g


def takacs(l, b, n):
    """E W^k = l/(1-ro) sum_{i=1..k} C(k,i) b_{i+1}/(i+1) E W^{k-i}"""
    w = [1.0]
    for k in range(1, n + 1):
        w.append(l / (1 - l * b[0]) * sum(math.comb(k, i) * b[i] / (i + 1) * w[k - i] for i in range(1, k + 1)))
    return w[1:]


@clause("C18", g_mg1())
def mg1_wait(l, b, num):
    b0 = list(b)
    got = mg1.get_w(l, b, num)
    n = min(num, len(b) - 1)
    sames(got, takacs(l, b, n), "waiting-time moments")
    same(got[0], l * b[1] / (2 * (1 - l * b[0])), "Pollaczek-Khinchine mean")
    sames(mg1.get_w(l, b), takacs(l, b, min(3, len(b) - 1)), "waiting-time moments (default number)")
    need(b == b0, "the moments passed in were changed")


@clause("C18", g_mg1())
def mg1_sojourn(l, b, num):
    for kw in ({"num": num}, {}):
        n = min(kw.get("num", 3), len(b) - 1, 3)
        w = takacs(l, b, n)
        sames(mg1.get_v(l, b, **kw), binom_sum(w, b, n), "sojourn-time moments")


def g_states(kind):
    def g(rng):
        f1 = u(rng, .2, 3)
        c = rng.uniform(.4, 1.3) if kind == "Gamma" else (rng.uniform(.1, .57) if kind == "Uniform" else rng.uniform(.3, .9))
        return dict(f1=f1, c=c, ro=rng.uniform(.1, .85), num=rng.choice([rng.randint(2, 14), rng.randint(2, 14), 45, 100]), kind=kind)
    return g


def q_of(kind, l, m, n):
    """arrivals during a service time, by numeric integration over the service density"""
    f1, D = m[0], m[1] - m[0] ** 2
    if kind == "Gamma":
        al, sc = f1 * f1 / D, D / f1
        d, a, b = (lambda t: stats.gamma.pdf(t, al, scale=sc)), 0, f1 + 60 * math.sqrt(D)
        r = l * sc / (1 + l * sc)
        return [math.exp(special.gammaln(al + j) - special.gammaln(al) - special.gammaln(j + 1)) * (1 - r) ** al * r ** j for j in range(n)]
    if kind == "Uniform":
        h = math.sqrt(3 * D)
        return [integrate.quad(lambda t: math.exp(-l * t) * (l * t) ** j / math.factorial(j) / (2 * h), f1 - h, f1 + h, limit=200)[0] for j in range(n)]
    a = 1 + math.sqrt(1 + f1 * f1 / D)
    k = (a - 1) * f1 / a
    out = []
    for j in range(n):
        f = lambda x: math.exp(-l * k / x) * (l * k / x) ** j / math.factorial(j) * a * x ** (a - 1) if x > 0 else 0.0   # t = k/x
        out.append(integrate.quad(f, 0, 1, limit=400, epsabs=1e-13)[0])
    return out


def states(l, m, kind, num):
    q = q_of(kind, l, m, num)
    p = [1 - l * m[0]]
    for i in range(1, num):
        p.append((p[i - 1] - p[0] * q[i - 1] - sum(p[j] * q[i - j] for j in range(1, i))) / q[0])
    return p


def mg1_states(f1, c, ro, num, kind):
    m = two(f1, c)
    l = ro / f1
    key = "Pa" if kind == "Pareto" else kind
    m0 = list(m)
    p = mg1.get_p(l, m, num=num, dist_type=key)
    need(m == m0, "the moments passed in were changed")
    need(len(p) == num, f"{len(p)} probabilities instead of {num}")
    same(p[0], 1 - ro, "p0 = 1 - load")
    tol = 1e-5 if kind != "Gamma" else 1e-6
    n = num if kind == "Gamma" else min(num, 7)
    sames(p[:n], states(l, m, kind, n), f"state probabilities, {kind} service", tol, .05)
    need(all(x > -1e-6 for x in p[:n]), f"negative probability in {p}")


for _k in ("Gamma", "Uniform", "Pareto"):
    clause("C18", g_states(_k), f"mg1_states_{_k}")(mg1_states)


@clause("C18", lambda rng: dict(f1=u(rng, .2, 3), ro=rng.uniform(.1, .6)))
def mg1_states_mm1(f1, ro):
    p = mg1.get_p(ro / f1, [f1, 2 * f1 * f1], num=30)
    sames(p, [(1 - ro) * ro ** k for k in range(30)], "exponential service gives the M/M/1 law", 1e-6, 1e-4)


# ================================================================================ C25 arrivals during a service time
@clause("C25", lambda rng: dict(l=u(rng, .05, 5), mu=u(rng, .1, 5), al=u(rng, .1, 6), num=rng.choice([rng.randint(1, 12), rng.randint(1, 12), 60, 130])))
def q_gamma(l, mu, al, num):
    got = qp.get_q_Gamma(l, mu, al, num)
    sames(got, q_of("Gamma", l, [al / mu, al * (al + 1) / mu ** 2], num), "arrivals during a Gamma time", 1e-7, 1e-9)
    if al >= 1 and num <= 4:
        want = [integrate.quad(lambda t: math.exp(-l * t) * (l * t) ** j / math.factorial(j) * stats.gamma.pdf(t, al, scale=1 / mu), 0, al / mu * 60, limit=300)[0] for j in range(num)]
        sames(got, want, "arrivals during a Gamma time (integrated)", 1e-4, 1e-3)


@clause("C25", lambda rng: dict(l=u(rng, .05, 4), mu=u(rng, .1, 5)))
def q_exponential(l, mu):
    sames(qp.get_q_Gamma(l, mu, 1, 12), [mu / (l + mu) * (l / (l + mu)) ** j for j in range(12)], "geometric law", 1e-7)
    need(len(qp.get_q_Gamma(l, mu, 1)) == 100 and len(qp.get_q_uniform(l, 1 / mu, .5 / mu)) == 100, "100 probabilities by default")


@clause("C25", lambda rng: (lambda m: dict(l=u(rng, .1, 4), m=m, h=m * rng.choice([1.0, rng.uniform(.05, 1)]), num=rng.randint(1, 8)))(u(rng, .2, 4)))
def q_uniform(l, m, h, num):
    want = [integrate.quad(lambda t: math.exp(-l * t) * (l * t) ** j / math.factorial(j) / (2 * h), m - h, m + h, limit=200)[0] for j in range(num)]
    sames(qp.get_q_uniform(l, m, h, num), want, "arrivals during a uniform time", 1e-6, 1e-3)


@clause("C25", lambda rng: dict(l=u(rng, .1, 4), m=u(rng, .2, 3)))
def q_narrow_uniform(l, m):
    want = [math.exp(-l * m) * (l * m) ** j / math.factorial(j) for j in range(6)]
    sames(qp.get_q_uniform(l, m, m * 1e-3, 6), want, "almost deterministic time: Poisson law", 1e-4, 1e-2)


@clause("C25", lambda rng: dict(l=u(rng, .1, 2), al=rng.choice([2, 3, 2.5]) + rng.uniform(.1, .9) * .45 + .03, k=rng.uniform(.1, 1.5), num=rng.choice([rng.randint(1, 6), rng.randint(1, 6), 12])))
def q_pareto(l, al, k, num):
    al = al if abs(al - round(al)) > .02 else al + .05
    want = []
    for j in range(num):
        f = lambda x: math.exp(-l * k / x) * (l * k / x) ** j / math.factorial(j) * al * x ** (al - 1) if x > 0 else 0.0
        want.append(integrate.quad(f, 0, 1, limit=400, epsabs=1e-13)[0])
    sames(qp.get_q_Pareto(l, al, k, num), want, "arrivals during a Pareto time", 1e-4, 1e-2)


# ================================================================================ C20 M/M/n/r
def birth_death(up, down):
    """stationary distribution from the cut equations"""
    lg = [0.0]
    for a, b in zip(up, down):
        lg.append(lg[-1] + math.log(a) - math.log(b))
    c = [math.exp(x - max(lg)) for x in lg]
    return [x / math.fsum(c) for x in c]


def g_mmnr(rng):
    n, mu = rng.randint(1, 7), u(rng, .1, 4)
    l = rng.choice([n * mu, mu, u(rng, .05, 2) * n * mu, u(rng, .05, .95) * n * mu])
    return dict(l=l, mu=mu, n=n, r=rng.choice([0, 0, 1, 2, rng.randint(0, 25), rng.randint(0, 25), rng.randint(26, 130)]), num=rng.randint(1, 4))


@clause("C20", g_mmnr)
def mmnr(l, mu, n, r, num):
    from most_queue.theory.mmnr_calc import MMnr_calc as C
    p = birth_death([l] * (n + r), [min(j + 1, n) * mu for j in range(n + r)])
    got = C.get_p(l, mu, n, r)
    sames(got, list(p), "state probabilities", 1e-7, 1e-4)
    same(sum(got), 1, "total probability", 1e-9)
    same(C.getPI(l, mu, n, r), p[n + r], "probability of refusal", 1e-6, 1e-6)
    Q = sum((j - n) * p[j] for j in range(n, n + r + 1))
    same(C.getQ(l, mu, n, r), Q, "mean number waiting", 1e-6, 1e-6)

    def fm(k):
        return sum(math.perm(j, k) * p[n + j] for j in range(k, r + 1))
    sames(C.get_qs(l, mu, n, r, num), [fm(k) for k in range(1, num + 1)], "factorial moments of the queue", 1e-6, 1e-6)
    need(len(C.get_qs(l, mu, n, r)) == 3 and len(C.get_w(l, mu, n, r)) == 3, "three values by default")
    w = [fm(k) / l ** k for k in range(1, num + 1)]
    sames(C.get_w(l, mu, n, r, num), w, "waiting moments (Little's law)", 1e-6, 1e-6)
    w = [fm(k) / l ** k for k in range(1, 4)]
    sames(C.get_v(l, mu, n, r), binom_sum(w, [1 / mu, 2 / mu ** 2, 6 / mu ** 3], 3), "sojourn moments", 1e-6)


# ================================================================================ C21 Engset
@clause("C21", lambda rng: (lambda mu: dict(lam=rng.choice([u(rng, .02, 3), mu, u(rng, .01, .2) * mu]), mu=mu, m=rng.choice([rng.randint(1, 14), rng.randint(1, 14), rng.randint(15, 60)])))(u(rng, .3, 5)))
def engset(lam, mu, m):
    from most_queue.theory.engset_model import Engset
    e = Engset(lam, mu, m)
    p = birth_death([lam * (m - j) for j in range(m)], [mu] * m)
    sames(e.get_p(), list(p), "state probabilities", 1e-7, 1e-4)
    N = sum(j * p[j] for j in range(m + 1))
    Q = sum((j - 1) * p[j] for j in range(1, m + 1))
    eff = sum(lam * (m - j) * p[j] for j in range(m))
    same(e.get_N(), N, "mean number in system", 1e-7)
    same(e.get_Q(), Q, "mean number in queue", 1e-6, 1e-6)
    same(e.get_kg(), (m - N) / m, "readiness", 1e-6, 1e-3)
    same(e.get_lamD(), eff, "effective arrival rate", 1e-6, 1e-3)
    same(e.get_w1(), Q / eff, "mean waiting time", 1e-5, 1e-3)
    same(e.get_v1(), N / eff, "mean sojourn time", 1e-5, 1e-3)
    a = [lam * (m - j) * p[j] / eff for j in range(m)]
    for s in (0.0, .3, 1.7):
        same(e.ws(s, e.get_p()[0], e.get_N()), sum(a[j] * (mu / (mu + s)) ** j for j in range(m)), f"transform of the waiting time at {s}", 1e-6, 1e-3)
    # moments of a random sum of exponential services; the code differentiates numerically with step 0.01
    w = [sum(a[j] * math.prod(range(j, j + k)) / mu ** k for j in range(m)) for k in (1, 2, 3)]
    if m / mu <= 12:
        got = e.get_w()
        need(len(got) == 3, "three moments")
        for k, tol in ((0, .003), (1, .03), (2, .12)):
            same(got[k], w[k], f"waiting moment {k + 1}", tol, 1 / mu ** (k + 1) * .3)
        b = [1 / mu, 2 / mu ** 2, 6 / mu ** 3]
        sames(e.get_v(), binom_sum(got, b, 3), "sojourn moments = waiting plus service", 1e-7)


# ================================================================================ C22 impatience and batches
@clause("C22", lambda rng: dict(l=u(rng, .05, 6), mu=u(rng, .1, 3), gamma=rng.choice([u(rng, .1, 3), u(rng, .4, 1)])))
def impatience(l, mu, gamma):
    import most_queue.theory.impatience_calc as im
    n = 60
    while l > .3 * (mu + n * gamma):
        n *= 2
    p = birth_death([l] * n, [mu + j * gamma for j in range(n)])
    got = im.get_p(l, mu, gamma)
    need(len(got) > 1, "at least two states")
    sames(got, list(p[:len(got)]), "state probabilities", 1e-6, 1e-6)
    same(im.get_p0(l, mu, gamma), p[0], "probability of an empty system", 1e-7)
    same(sum(got), 1, "total probability", 1e-7)
    N = sum(j * x for j, x in enumerate(p))
    Q = sum((j - 1) * x for j, x in enumerate(p) if j)
    same(im.get_N(l, mu, gamma), N, "mean number in system", 1e-6)
    same(im.get_Q(l, mu, gamma), Q, "mean number waiting", 1e-6, 1e-5)
    same(im.get_w1(l, mu, gamma), Q / l, "mean waiting time", 1e-6, 1e-5)
    same(im.get_v1(l, mu, gamma), N / l, "mean sojourn time", 1e-6)


def g_batch(rng):
    K = rng.randint(1, 5)
    q = [rng.random() + .02 for _ in range(K)]
    if K > 2 and rng.random() < .4:
        q[rng.randrange(K - 1)] = 0.0
    s = sum(q)
    q = [x / s for x in q]
    mu = u(rng, .3, 4)
    return dict(lam=rng.uniform(.05, .75) * mu / sum((i + 1) * x for i, x in enumerate(q)), mu=mu, probs=q)


@clause("C22", g_batch)
def batches(lam, mu, probs):
    from most_queue.theory.batch_mm1 import BatchMM1
    L1 = sum((i + 1) * x for i, x in enumerate(probs))
    L2 = sum((i + 1) ** 2 * x for i, x in enumerate(probs))
    q0 = list(probs)
    b = BatchMM1(lam, mu, probs, p_num=400)
    p = b.get_p()
    need(probs == q0, "the batch probabilities passed in were changed")
    ro = lam * L1 / mu
    same(p[0], 1 - ro, "p0 = 1 - load", 1e-9)
    for i in range(min(len(p) - 1, 120)):      # global balance of state i
        inn = (mu * p[i + 1]) + sum(lam * probs[k - 1] * p[i - k] for k in range(1, len(probs) + 1) if i - k >= 0)
        same((lam + (mu if i else 0)) * p[i], inn, f"global balance of state {i}", 1e-6, 1e-7)
    if len(p) < 400:
        same(sum(p), 1, "total probability", 1e-6)
        N = sum(i * x for i, x in enumerate(p))
        same(b.get_N(), N, "mean number in system", 1e-5)
        same(b.get_Q(), N - ro, "mean number waiting", 1e-5, 1e-4)
        same(b.get_v1(), N / (lam * L1), "mean sojourn time", 1e-5)
        same(b.get_w1(), (N - ro) / (lam * L1), "mean waiting time", 1e-5, 1e-4)
    same(b.calc_l(), L1, "mean batch size", 1e-9)
    sames(b.calc_l_moments(), [L1, L2], "moments of the batch size", 1e-9)


# ================================================================================ C24 numerical differentiation, cumulants, flows
@clause("C24", lambda rng: dict(c=[u(rng, -2, 2) for _ in range(5)], x0=u(rng, -2, 2), h=rng.choice([.01, .1, .5, u(rng, .05, 1)]), cnt=rng.choice([3, 4, 5])))
def differences(c, x0, h, cnt):
    from most_queue.theory.utils.diff5dots import diff5dots
    P = np.polynomial.Polynomial(c[:cnt])
    f = [float(P(x0 + j * h)) for j in range(cnt)]
    f0 = list(f)
    got = diff5dots(f, h)
    need(f == f0, "the table passed in was changed")
    need(len(got) == 3, "three derivatives")
    for k in (1, 2, 3):
        want = float(P.deriv(k)(x0)) if k < cnt else 0.0
        same(got[k - 1], want, f"derivative {k} from {cnt} values", 1e-6, 1e-9 / h ** k * max(abs(x) for x in f + [1]) / 1e-6)


def flows():
    import matplotlib
    old, matplotlib.use = matplotlib.use, lambda *a, **k: None
    try:
        from most_queue.theory.utils.flow_sum import SummatorNumeric as S
    finally:
        matplotlib.use = old
    return S


@clause("C24", lambda rng: dict(a=mix_moments(rng, 4), n=rng.choice([1, 2, 3, 4, 4])))
def cumulants(a, n):
    S = flows()
    a = a[:n]
    a0 = list(a)
    k = S.get_k(a)
    full = [1] + a
    want = []
    for j in range(1, n + 1):
        want.append(full[j] - sum(math.comb(j - 1, i - 1) * want[i - 1] * full[j - i] for i in range(1, j)))
    sc = max(1, abs(a[0])) ** n * 20
    sames(k, want, "cumulants", 1e-7, sc)
    sames(S.get_a(k), a, "moments of the cumulants", 1e-7, sc)
    if n >= 2:
        sames(S.get_k_by_v(S.get_v(k)), k, "cumulants of the renewal cumulants", 1e-6, sc * 1e-3)
        sames(S.get_residual_distr_moments(a), [a[i + 1] / ((i + 2) * a[0]) for i in range(n - 1)], "residual moments")
    need(a == a0, "the moments passed in were changed")


@clause("C24", lambda rng: dict(k=rng.randint(1, 4), mu=u(rng, .2, 3)))
def renewal_cumulants(k, mu):
    """asymptotic cumulant rates of the number of events of an Erlang renewal process, from the perturbed root of the transform equation"""
    S = flows()
    a = [math.prod(range(k, k + j)) / mu ** j for j in range(1, 5)]
    # E exp(theta N(t)) ~ exp(t s(theta)) with exp(theta) (mu/(mu+s))^k = 1: s = mu (exp(theta/k) - 1); its derivatives at 0 are mu / k^j
    sames(S.get_v(S.get_k(a)), [mu / k ** j for j in range(1, 5)], "renewal cumulants of an Erlang flow", 1e-7, mu * 1e-3)


def h2_raw(p, n):
    return [math.factorial(j) * (p[0] / p[1] ** j + (1 - p[0]) / p[2] ** j) for j in range(1, n + 1)]


@clause("C24", lambda rng: dict(p=[rng.uniform(.1, .9), u(rng, .2, 2), u(rng, 2.5, 6)], q=[rng.uniform(.1, .9), u(rng, .2, 2), u(rng, 2.5, 6)], n=rng.choice([3, 4])))
def superposition(p, q, n):
    S = flows()
    a, b = h2_raw(p, 4), h2_raw(q, 4)

    def res(c):
        m = c[0] / c[1] + (1 - c[0]) / c[2]
        return [c[0] / c[1] / m, c[1], c[2]]
    la, lb = 1 / a[0], 1 / b[0]

    def tail(c, x):
        return c[0] * math.exp(-c[1] * x) + (1 - c[0]) * math.exp(-c[2] * x)
    f = lambda k: integrate.quad(lambda x: k * x ** (k - 1) * (la * tail(p, x) * tail(res(q), x) + lb * tail(q, x) * tail(res(p), x)) / (la + lb), 0, 400, limit=500, points=[1, 5, 20])[0]
    got = S.sum_2_H2_flows(a[:3], b[:3])
    need(len(got) == 3, "as many moments")
    for k in (1, 2, 3):
        same(complex(got[k - 1]), complex(f(k)), f"moment {k} of the interval of the superposition", 1e-4)
    x, y = p[1], q[2]
    po = lambda l, n: [math.factorial(k) / l ** k for k in range(1, n + 1)]
    sames(S.sum_2_flows_semiinvariants(po(x, n), po(y, n)), po(x + y, n), "two Poisson flows: Poisson", 1e-6)
    r = S.sum_2_flows_semiinvariants(a[:n], b[:n])
    same(1 / r[0], la + lb, "rates add", 1e-9)
    ga, gb, gr = (S.get_v(S.get_k(m)) for m in (a[:n], b[:n], r))
    sames(gr, [s + t for s, t in zip(ga, gb)], "cumulant rates add", 1e-6, max(abs(v) for v in ga + gb) * 1e-2)


# ================================================================================ C28 load factors
KINDS = ("M", "H", "E", "Gamma", "C", "Pa", "Uniform", "Norm", "D")


def g_law(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    if kind in ("M", "D"):
        return kind, u(rng, .1, 5)
    if kind == "H":
        return kind, [rng.uniform(.05, .95), u(rng, .2, 3), u(rng, .2, 6)]
    if kind == "C":
        return kind, [rng.uniform(.05, .95), u(rng, .2, 3), u(rng, .2, 6)]
    if kind == "E":
        return kind, [rng.randint(1, 6), u(rng, .2, 5)]
    if kind == "Gamma":
        return kind, [u(rng, .2, 4), u(rng, .2, 5)]
    if kind == "Pa":
        return kind, [u(rng, 1.6, 6), u(rng, .2, 4)]
    m = u(rng, .3, 4)
    return kind, [m, rng.uniform(.05, .9) * m]


def mean_of(kind, p):
    if kind == "M":
        return integrate.quad(lambda x: math.exp(-p * x), 0, math.inf)[0]
    if kind == "D":
        return p
    if kind == "H":
        return integrate.quad(lambda x: p[0] * math.exp(-p[1] * x) + (1 - p[0]) * math.exp(-p[2] * x), 0, math.inf)[0]
    if kind == "C":
        return 1 / p[1] + p[0] / p[2]
    if kind == "E":
        return stats.gamma.mean(p[0], scale=1 / p[1])
    if kind == "Gamma":
        return stats.gamma.mean(p[1], scale=1 / p[0])
    if kind == "Pa":
        return stats.pareto.mean(p[0], scale=p[1])
    return p[0]


@clause("C28", lambda rng: dict(zip(("kind", "par", "skind", "spar", "n"), (*g_law(rng), *g_law(rng), rng.randint(1, 7)))))
def load(kind, par, skind, spar, n):
    from most_queue.sim.utils.distribution_utils import calc_qs_load
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    want = mean_of(skind, spar) / mean_of(kind, par) / n
    same(calc_qs_load(kind, par, skind, spar, n), want, f"load of {kind}/{skind}/{n}", 1e-6)
    q = QueueingSystemSimulator(n, verbose=False)
    q.set_sources(par, kind)
    q.set_servers(spar, skind)
    same(q.calc_load(), want, f"load of the simulator {kind}/{skind}/{n}", 1e-6)


@clause("C28", lambda rng: dict(par=[g_law(rng) for _ in range(rng.randint(1, 4))], srv=[g_law(rng) for _ in range(4)], n=rng.randint(1, 4)))
def load_priority(par, srv, n):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    k = len(par)
    q = PriorityQueueSimulator(n, k, "PR")
    q.set_sources([{"type": a, "params": b} for a, b in par])
    q.set_servers([{"type": a, "params": b} for a, b in srv[:k]])
    same(q.calc_load(), sum(mean_of(*s) / mean_of(*p) / n for p, s in zip(par, srv)), "load of the priority simulator", 1e-6)


# ================================================================================ C29 Student quantiles
TABLE = list(range(5, 21)) + [25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120]


@clause("C29", lambda rng: dict(gamma=rng.choice([.95, .99, .999]), n=rng.choice([rng.randint(5, 24), rng.randint(5, 130), rng.choice(TABLE), rng.randint(120, 100000)]),
                                mean=u(rng, -5, 5), std=u(rng, 0, 3)))
def student(gamma, n, mean, std):
    from most_queue.theory.utils.student_stat import get_ty, get_conf_intervals
    p = (1 + gamma) / 2
    d = min(abs(n - z) for z in TABLE)
    sizes = [z for z in TABLE if abs(n - z) == d]
    ty = get_ty(gamma, n)
    if n <= 120:
        need(any(abs(ty - stats.t.ppf(p, z - 1)) <= .0121 for z in sizes), f"quantile {ty}, Student's at {sizes}: {[stats.t.ppf(p, z - 1) for z in sizes]}")
    else:
        need(stats.norm.ppf(p) - .0121 <= ty <= stats.t.ppf(p, 120) + .0121, f"quantile {ty}, normal {stats.norm.ppf(p)}")
    lo, hi = get_conf_intervals(gamma, n, mean, std)
    sames([lo, hi], [mean - ty * std / math.sqrt(n), mean + ty * std / math.sqrt(n)], "confidence interval", 1e-9, 1)


# ================================================================================ C27 maxima and fork-join approximations
import most_queue.theory.fj_calc as fjc


def exp_max(n, mean, k):
    """raw moments of the maximum of n exponential times, by inclusion and exclusion"""
    return [sum((-1) ** (i + 1) * math.comb(n, i) * math.factorial(r) * (mean / i) ** r for i in range(1, n + 1)) for r in range(1, k + 1)]


@clause("C27", lambda rng: dict(n=rng.randint(1, 6), mean=10 ** u(rng, -3, 3), num=rng.choice([None, 1, 2, 3]), N=rng.choice([2, 3, 4])))
def maximum_exponential(n, mean, num, N):
    b = [math.factorial(k) * mean ** k for k in range(1, N + 1)]
    b0 = list(b)
    r = fjc.getMaxMoments(n, b, num)
    want = exp_max(n, mean, min(N, num or N))
    sames(r, want, f"maximum of {n} exponential times of mean {mean}", tol=2e-3)
    need(b == b0, "the moments passed in were changed")
    for d in (0, None, 0.0):
        sames(fjc.getMaxMomentsDelta(n, b[:2], 3, d), exp_max(n, mean, 3), f"maximum of {n} exponential times, no delay", tol=2e-3)


def max_by_quad(cdf, n, k, scale, delta=0.0):
    def tail(x):
        p = 1.0
        for i in range(n):
            p *= cdf(x - i * delta) if x > i * delta else 0.0
        return 1 - p
    edges = [0] + [delta * i for i in range(1, n)] + [scale * q + delta * (n - 1) for q in (.5, 1, 2, 4, 8, 16, 40, 90)]
    edges = sorted(set(edges))
    return [sum(integrate.quad(lambda x: (r + 1) * x ** r * tail(x), a, b, limit=200)[0] for a, b in zip(edges, edges[1:])) for r in range(k)]


@clause("C27", lambda rng: dict(n=rng.randint(1, 5), mean=10 ** u(rng, -2, 2), coev=rng.uniform(.8, 1.4)))
def maximum_gamma(n, mean, coev):
    b = gamma_moments(mean, coev, 2)
    al = 1 / coev ** 2
    want = max_by_quad(lambda x: stats.gamma.cdf(x, al, scale=mean / al), n, 2, mean)
    sames(fjc.getMaxMoments(n, b), want, "maximum of gamma times", tol=1e-2)
    sames(fjc.getMaxMomentsDelta(n, b, 2, 0), want, "maximum of gamma times, no delay", tol=1e-2)


@clause("C27", lambda rng: dict(n=rng.randint(1, 5), mean=10 ** u(rng, -2, 2), coev=rng.choice([0.71, 1.1, 1.3, 1.6])))
def maximum_one_and_more(n, mean, coev):
    b = gamma_moments(mean, coev, 3)
    if coev > 1:
        y = rd.H2_dist.get_params_by_mean_and_coev(mean, coev)
        b = [complex(x).real for x in rd.H2_dist.calc_theory_moments(*y, 3)]
    else:
        b = [mean, 1.5 * mean ** 2, 3 * mean ** 3]      # Erlang of order 2
    one = fjc.getMaxMoments(1, b)
    sames(one, b[:3], "maximum of one time is the time", tol=1e-2)
    prev = one
    for k in range(2, n + 1):
        cur = fjc.getMaxMoments(k, b)
        need(all(c >= p for c, p in zip(cur, prev)), f"the maximum decreases from {k - 1} to {k} times: {prev} {cur}")
        prev = cur
    s = 7.0
    sames(fjc.getMaxMoments(n, [b[i] * s ** (i + 1) for i in range(3)]), [x * s ** (i + 1) for i, x in enumerate(fjc.getMaxMoments(n, b))], "scaled times", tol=1e-6)


@clause("C27", lambda rng: dict(n=rng.randint(1, 4), mean=10 ** u(rng, -1, 1), coev=rng.uniform(.8, 1.2), part=rng.uniform(.02, .3)))
def maximum_delayed(n, mean, coev, part):
    b = gamma_moments(mean, coev, 2)
    al, d = 1 / coev ** 2, part * mean
    got = fjc.getMaxMomentsDelta(n, b, 2, d)
    want = max_by_quad(lambda x: stats.gamma.cdf(x, al, scale=mean / al), n, 2, mean, d)
    sames(got, want, "maximum of delayed times", tol=4e-2)
    xs, ws = np.polynomial.laguerre.laggauss(10)
    ref = [0.0, 0.0]
    for x, w in zip(xs, ws):
        p = 1.0
        for i in range(n):
            y = x * mean - i * d
            p *= stats.gamma.cdf(y, al, scale=mean / al) if y > 0 else 0.0
        for r in range(2):
            ref[r] += w * math.exp(x) * mean ** (r + 1) * x ** r * (1 - p) * (r + 1)
    sames(got, ref, "maximum of delayed times against the same quadrature", tol=1e-6)


@clause("C27", lambda rng: dict(mu=10 ** u(rng, -2, 2), rho=rng.uniform(.05, .95), n=rng.randint(1, 7)))
def fj_means(mu, rho, n):
    l = rho * mu
    h = sum(1 / i for i in range(1, n + 1))
    two = (12 - rho) / (8 * (mu - l))
    vn = sum(math.comb(n, i) * (-1) ** (i - 1) * sum(math.comb(i, j) * math.factorial(j - 1) / i ** (j + 1) for j in range(1, i + 1)) for i in range(1, n + 1))
    same(fjc.get_v1_fj2(l, mu), two, "two servers")
    same(fjc.get_v1_fj_varma(l, mu, n), (h + (vn - h) * rho) / (mu - l), "Varma")
    same(fjc.get_v1_fj_varma(l, mu, 1), 1 / (mu - l), "Varma, one server")
    same(fjc.get_v1_fj_varma(l, mu, 2), two, "Varma, two servers")
    nt = lambda m: (sum(1 / i for i in range(1, m + 1)) / 1.5 * (1 - 4 * rho / 11) + 4 * rho / 11) * two
    same(fjc.get_v1_fj_nelson_tantawi(l, mu, n), nt(n), "Nelson-Tantawi")
    same(fjc.get_v1_fj_varki_merchant(l, mu, 1), 1 / (mu - l), "Varki-Merchant, one server")
    s1, s2 = sum(1 / (i - rho) for i in range(1, n + 1)), sum(1 / (i * (i - rho)) for i in range(1, n + 1))
    same(fjc.get_v1_fj_varki_merchant(l, mu, n), (h + rho / (2 * (1 - rho)) * (s1 + (1 - 2 * rho) * s2)) / mu, "Varki-Merchant")
    for k in range(1, n + 1):
        w = [(-1) ** (i - k) * math.comb(i - 1, k - 1) * math.comb(n, i) for i in range(k, n + 1)]
        sc = sum(abs(x) for x in w) / (mu - l)
        same(fjc.get_v1_varma_nk(l, mu, n, k), sum(x * fjc.get_v1_fj_varma(l, mu, i) for x, i in zip(w, range(k, n + 1))), f"Varma, {k} of {n}", scale=sc)
        same(fjc.get_v1_fj_nelson_nk(l, mu, n, k), sum(x * (nt(i) if i > 1 else 1 / (mu - l)) for x, i in zip(w, range(k, n + 1))), f"Nelson, {k} of {n}", scale=sc)
    same(fjc.get_Hn(n), h, "harmonic number")


@clause("C27", lambda rng: dict(mu=10 ** u(rng, -2, 2), rho=rng.uniform(.05, .6), n=rng.randint(1, 5)))
def fj_invariant(mu, rho, n):
    l = rho * mu
    two = (12 - rho) / (8 * (mu - l))
    same(fjc.get_v1_fj_invar(l, mu, 2), two, "invariant, two servers")

    def mmn_v(m, k):     # M/M/k by Erlang's formula
        a = l / m
        c = a ** k / math.factorial(k) / (1 - a / k)
        c = c / (sum(a ** i / math.factorial(i) for i in range(k)) + c)
        return 1 / m + c / (k * m - l)
    same(fjc.get_v1_fj_invar(l, mu, n), two * mmn_v(mu / n, n) / mmn_v(mu / 2, 2), "invariant", tol=1e-6)


@clause("C27", lambda rng: dict(mu=10 ** u(rng, -2, 2), n=rng.randint(1, 5), rho=rng.uniform(.05, .3)))
def fj_invariant_sj(mu, n, rho):
    l = rho * mu / (n * 2.5)
    two = (12 - l / mu) / (8 * (mu - l))
    wait = lambda k: l * exp_max(k, k / mu, 2)[1] / 2 / (1 - l * exp_max(k, k / mu, 1)[0])
    same(fjc.get_v1_fj_invar_sj(l, mu, n), two * wait(n) / wait(2), "split-join invariant", tol=2e-2)
    same(fjc.get_v1_fj_invar_sj(l, mu, 2), two, "split-join invariant, two servers")


@clause("C27", lambda rng: dict(mean=10 ** u(rng, -1, 1), coev=rng.choice([.8, 1.2, 1.4]), n=rng.randint(1, 3), rho=rng.uniform(.2, .6)))
def fj_invariant_general(mean, coev, n, rho):
    l = rho / mean
    two = (12 - rho) / (8 * (1 / mean - l))
    b = gamma_moments(mean, coev, 3)
    r = fjc.get_v_fj_invar_tt(l, b, n)
    need(len(r) == 3, "three values")
    from most_queue.theory.mgn_tt import MGnCalc
    ws = []
    for k in (2, n):
        q = MGnCalc(k, l, gamma_moments(mean * k, coev, 3))
        q.run()
        ws.append(q.get_w())
    sames(r, [two * ws[1][i] / ws[0][i] for i in range(3)], "general invariant", tol=1e-6)
    sames(fjc.get_v_fj_invar_tt(l, b, 2), [two] * 3, "general invariant, two servers")


@clause("C27", lambda rng: dict(mu=10 ** u(rng, -2, 2), rho=rng.uniform(.05, .9), n=rng.randint(1, 5)))
def fj_branches(mu, rho, n):
    l = rho * mu
    b = [math.factorial(k) / mu ** k for k in range(1, 5)]
    r = fjc.get_v_fj_max(l, b, n)
    need(len(r) == 2, "two moments")
    sames(r, exp_max(n, 1 / (mu - l), 2), "maximum of independent M/M/1 branches", tol=2e-3)


# ================================================================================ C19 priorities in M/G/1
import most_queue.theory.priority_calc as prc

ORD = 6


def s_mul(x, y):
    r = [0.0] * ORD
    for i, p in enumerate(x):
        for j in range(ORD - i):
            r[i + j] += p * y[j]
    return r


def s_div(x, y):
    r = []
    for k in range(ORD):
        r.append((x[k] - sum(r[i] * y[k - i] for i in range(k))) / y[0])
    return r


def s_comp(f, arg):
    """f(arg(s)), arg(0) = 0"""
    r, p = [0.0] * ORD, [1.0] + [0.0] * (ORD - 1)
    for c in f:
        r = [x + c * y for x, y in zip(r, p)]
        p = s_mul(p, arg)
    return r


def s_law(b):
    """transform's series from raw moments"""
    r = [1.0] + [(-1) ** k * m / math.factorial(k) for k, m in enumerate(b, 1)]
    return (r + [0.0] * ORD)[:ORD]


def s_moments(f, n):
    return [(-1) ** k * f[k] * math.factorial(k) for k in range(1, n + 1)]


def s_arg(l, p):
    """s + l - l p(s)"""
    r = [-l * x for x in p]
    r[0] = 0.0
    r[1] += 1
    return r


def s_busy(l, f):
    p = list(f)
    for _ in range(4000):
        q = s_comp(f, s_arg(l, p))
        if max(abs(x - y) / (abs(x) + 1e-300) for x, y in zip(q, p)) < 1e-14:
            break
        p = q
    return q


def g_classes(rng, kmax=4, M=5):
    K = rng.randint(1, kmax)
    unit_ = 10 ** rng.choice([-2, -1, 0, 0, 1, 2])
    b = [gamma_moments(unit_ * rng.uniform(.2, 3), rng.uniform(.4, 1.8), M) for _ in range(K)]
    w = [rng.uniform(.1, 1) for _ in range(K)]
    load = rng.uniform(.1, .9)
    tot = sum(x * y[0] for x, y in zip(w, b))
    return dict(l=[x * load / tot for x in w], b=b)


def unchanged(f, l, b, *a, **kw):
    l0, b0 = list(l), [list(x) for x in b]
    r = f(l, b, *a, **kw)
    need(l == l0 and b == b0, "the rates or moments passed in were changed")
    return r


@clause("C19", lambda rng: g_classes(rng))
def priority_means(l, b):
    K = len(l)
    R = [sum(l[i] * b[i][0] for i in range(j)) for j in range(K + 1)]
    S = [sum(l[i] * b[i][1] for i in range(j)) for j in range(K + 1)]
    np_ = [S[K] / 2 / (1 - R[j]) / (1 - R[j + 1]) for j in range(K)]
    pr = [S[j + 1] / 2 / (1 - R[j]) / (1 - R[j + 1]) + b[j][0] * R[j] / (1 - R[j]) for j in range(K)]
    sames(unchanged(prc.get_w1_np, l, b), np_, "non-preemptive means")
    sames(unchanged(prc.get_w1_pr, l, b), pr, "preemptive means")
    c = prc.climov_w_pr_calc(l, b)
    for j in range(K):
        same(c[j][0], S[j + 1] / 2 / (1 - R[j]) / (1 - R[j + 1]), f"mean time to the start of service, class {j}")
    r = unchanged(prc.calc_pr1, l, b)
    sames([x[0] for x in r["w_with_pr"]], pr, "preemptive means (moments)", tol=1e-6, scale=max(x[0] for x in b))


@clause("C19", lambda rng: g_classes(rng))
def preemptive_moments(l, b):
    K = len(l)
    r = prc.calc_pr1(l, b)
    cl = prc.climov_w_pr_calc(l, b)
    mix, L = None, 0.0
    for j in range(K):
        f = s_law(b[j])
        if j == 0:
            h, pi, up = f, None, [0.0] * ORD
        else:
            h = s_comp(f, s_arg(L, pi))
            up = [L * (1 if i == 0 else 0) - L * x for i, x in enumerate(pi)]
        # W = c (s + L - L pi) / (s - l + l h), both divided by s
        top = [(1 if i == 0 else 0) + (up[i + 1] if i + 1 < ORD else 0.0) for i in range(ORD)]
        bot = [(1 if i == 0 else 0) + (l[j] * h[i + 1] if i + 1 < ORD else 0.0) for i in range(ORD)]
        w = s_div(top, bot)
        w = [x / w[0] for x in w]
        sc = b[j][0]
        for nm, got, want, n in (("wait", r["w"][j], w, 3), ("active time", r["h"][j][:3], h, 3), ("sojourn", r["v"][j], s_mul(w, h), 3)):
            want = s_moments(want, n)
            need(len(got) >= n, f"{nm} of class {j}: {len(got)} moments")
            for i in range(n):
                same(got[i], want[i], f"{nm} of class {j}, moment {i + 1}", tol=1e-6)
        sames(cl[j], s_moments(w, 2), f"wait to the start of service of class {j}", tol=1e-6)
        # busy period of the classes up to j
        new = s_law([sum(l[i] * b[i][m] for i in range(j + 1)) / sum(l[:j + 1]) for m in range(len(b[0]))])
        L = sum(l[:j + 1])
        pi = s_busy(L, new)
        sames(r["pnz"][j][:3], s_moments(pi, 3), f"busy period of the classes up to {j}", tol=1e-6)
    if K > 1:
        less = prc.calc_pr1(l[:-1], b[:-1])
        for nm in ("v", "w", "w_with_pr"):
            for j in range(K - 1):
                sames(r[nm][j], less[nm][j], f"{nm} of class {j} without the lowest class")


@clause("C19", lambda rng: g_classes(rng, 1))
def single_class(l, b):
    w = mg1.get_w(l[0], b[0], 3)
    sames(prc.calc_pr1(l, b)["w"][0], w, "one class, preemptive")
    sames(prc.calc_pr1(l, b, 2)["w"][0], w[:2], "one class, preemptive, two moments")
    y = .001 * w[0] / b[0][0]
    for i, (g, x) in enumerate(zip(prc.get_w_np(l, b)[0], w)):
        same(g, x, f"one class, non-preemptive, moment {i + 1}", tol=(1e-5 + 300 * y ** 4, 1e-3 + 200 * y ** 3, 5e-2 + 300 * y ** 2)[i], scale=b[0][i])
    sames(prc.get_w_mg1_bp(l, b)[0], w, "one class, no priorities")
    same(prc.get_w1_np(l, b)[0], w[0], "one class, mean")
    same(prc.get_w1_pr(l, b)[0], w[0], "one class, mean")
    x = s_busy(l[0], s_law(b[0]))
    sames(prc.ppnz_calc(l[0], b[0]), s_moments(x, 5), "busy period", tol=1e-6)


@clause("C19", lambda rng: dict(warm=gamma_moments(10 ** rng.uniform(-1, 1), rng.uniform(.4, 1.5), 5), **g_classes(rng, 1)))
def busy_with_warm_up(l, b, warm):
    p = prc.ppnz_calc(l[0], b[0])
    x = s_comp(s_law(warm), s_arg(l[0], s_law(p)))
    sames(prc.ppnz_calc_warm_up(l[0], warm, p), s_moments(x, 5), "busy period opened by another time", tol=1e-6)


@clause("C19", lambda rng: g_classes(rng, 4, 4))
def non_preemptive_moments(l, b):
    K = len(l)
    w = unchanged(prc.get_w_np, l, b)
    need(len(w) == K, "one entry per class")
    means = prc.get_w1_np(l, b)
    tot = sum(x * y[0] for x, y in zip(l, b))
    gam = lambda m: s_law(gamma_moments(m[0], math.sqrt(m[1] - m[0] ** 2) / m[0], ORD))
    for j in range(K):
        x = .001 * means[j] * sum(l) / tot      # the derivatives are numerical: their error grows with the step over the scale of the wait
        tol = 1e-5 + 300 * x ** 4, 1e-3 + 200 * x ** 3, 5e-2 + 300 * x ** 2
        same(w[j][0], means[j], f"mean wait of class {j}", tol=tol[0])
        la, lb = sum(l[:j]), sum(l[j + 1:])
        sig = [0.0, 1.0] + [0.0] * (ORD - 2)
        if j:
            m = [sum(l[i] * b[i][q] for i in range(j)) / la for q in range(2)]
            sig = s_arg(la, gam([m[0] / (1 - la * m[0]), m[1] / (1 - la * m[0]) ** 3]))
        top = [(1 - tot) * x for x in sig]
        if lb:
            low = s_comp(gam([sum(l[i] * b[i][q] for i in range(j + 1, K)) / lb for q in range(2)]), sig)
            top = [x - lb * y for x, y in zip(top, low)]
            top[0] = 0.0
        bot = [l[j] * x for x in s_comp(gam(b[j]), sig)]
        bot[0] = 0.0
        bot[1] += 1
        want = s_moments(s_div(top[1:] + [0.0], bot[1:] + [0.0]), 3)
        for i in (1, 2):
            same(w[j][i], want[i], f"moment {i + 1} of the wait of class {j}", tol=tol[i], scale=want[0] ** (i + 1) + b[j][i])
    v = prc.get_v_np(l, b)
    for j in range(K):
        sames(v[j], binom_sum(w[j], b[j], 3), f"sojourn of class {j}", tol=1e-9)


@clause("C19", lambda rng: dict(n=rng.randint(1, 3), **g_classes(rng, 3, 4)))
def no_priorities(l, b, n):
    K, L = len(l), sum(l)
    mix = [sum(x * y[i] for x, y in zip(l, b)) / L for i in range(4)]
    w = mg1.get_w(L, mix, 3)
    r, v = unchanged(prc.get_w_mg1_bp, l, b), unchanged(prc.get_v_mg1_bp, l, b)
    need(len(r) == K and len(v) == K, "one entry per class")
    for j in range(K):
        sames(r[j], w, f"wait of class {j} without priorities")
        sames(v[j], binom_sum(w, b[j], 3), f"sojourn of class {j} without priorities")


@clause("C19", lambda rng: dict(n=rng.randint(1, 3), kind=rng.choice(["NP", "PR"]), load=rng.uniform(.2, .7), cv=rng.uniform(1.1, 1.5), mean=rng.uniform(.3, 3),
                                parts=[rng.uniform(.1, 1) for _ in range(rng.randint(1, 3))]))
def priorities_in_many_channels(n, kind, load, cv, mean, parts):
    from most_queue.theory.mgn_tt import MGnCalc
    K = len(parts)
    b = [gamma_moments(mean * (1 + k), cv, 4) for k in range(K)]
    tot = sum(p * x[0] for p, x in zip(parts, b))
    l = [p * load * n / tot for p in parts]
    w = unchanged(prc.get_w_prty_invar, l, b, n, kind)
    b1 = [[x / n ** (i + 1) for i, x in enumerate(y)] for y in b]
    one = prc.get_w_np(l, b1) if kind == "NP" else prc.calc_pr1(l, b1)["w_with_pr"]
    L = sum(l)
    mix = [sum(x * y[i] for x, y in zip(l, b)) / L for i in range(4)]
    q = MGnCalc(n, L, mix)
    q.run()
    qn = sum((i - n) * p for i, p in enumerate(q.get_p()) if i > n)
    q1 = L * mg1.get_w(L, [x / n ** (i + 1) for i, x in enumerate(mix)], 3)[0]
    for k in range(K):
        sames(w[k], [x * qn / q1 for x in one[k]], f"{kind}: wait of class {k} in {n} channels", tol=3e-3)
    v = prc.get_v_prty_invar(l, b, n, kind)
    for k in range(K):
        sames(v[k], binom_sum(w[k], b[k], 3), f"{kind}: sojourn of class {k}", tol=1e-9)
    if kind == "NP":
        x = prc.get_v_MxGn_no_pr(l, b, n)
        ww = prc.get_w_MxGn_no_pr(l, b, n)
        for k in range(K):
            sames(ww[k], q.get_w(), f"wait of class {k} in {n} channels without priorities", tol=1e-6)
            sames(x[k], binom_sum(ww[k], b[k], 3), f"sojourn of class {k} without priorities", tol=1e-9)


# ================================================================================ C26 network calculation
import most_queue.theory.network_calc as nwc


def g_routes(rng, n):
    """a transition matrix (n + 1) x (n + 1) from which every job leaves; some nodes may be out of reach"""
    reach = [rng.random() < .8 for _ in range(n)]
    if not any(reach):
        reach[rng.randrange(n)] = True
    R = []
    for i in range(n + 1):
        row = [rng.random() if reach[j] and rng.random() < .6 else 0.0 for j in range(n)] + [rng.uniform(.2, 1) if i else 0.0]
        if i == 0 and not any(row):
            row[rng.choice([j for j in range(n) if reach[j]])] = 1.0
        t = sum(row)
        R.append([x / t for x in row])
    return R


def traffic(L, R):
    n = len(R) - 1
    Q = np.array(R)[1:, :n]
    return np.linalg.solve(np.eye(n) - Q.T, L * np.array(R)[0, :n])


@clause("C26", lambda rng: dict(L=u(rng, .05, 20), R=g_routes(rng, rng.randint(1, 6))))
def balance(L, R):
    M = np.array(R)
    l = nwc.balance_equation(L, M)
    need(M.tolist() == R, "the matrix passed in was changed")
    n = len(R) - 1
    sames(list(map(float, l)), traffic(L, R).tolist(), "arrival rate of the node", tol=1e-7, scale=L)
    same(sum(l[i] * R[i + 1][n] for i in range(n)), L, "flow leaving = flow entering", tol=1e-7)


def g_net(rng):
    n, K = rng.randint(1, 3), rng.randint(1, 3)
    L = [u(rng, .1, 2) for _ in range(K)]
    while True:         # a node which no class visits has no sojourn times: every node is visited by some class
        R = [g_routes(rng, n) for _ in range(K)]
        if all(any(traffic(1.0, r)[m] > 1e-6 for r in R) for m in range(n)):
            break
    num = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
    lam = [traffic(L[k], R[k]).tolist() for k in range(K)]
    b = [[None] * n for _ in range(K)]
    unit_ = 10 ** rng.choice([-1, 0, 0, 1, 2])
    L = [x / unit_ for x in L]
    lam = [[x / unit_ for x in r] for r in lam]
    for m in range(n):
        w = [rng.uniform(.2, 1) for _ in range(K)]
        tot = sum(w[k] * lam[k][m] for k in range(K))
        load = rng.uniform(.2, .75)
        for k in range(K):
            mean = w[k] * load * num[m] / tot if tot > 1e-9 else unit_
            b[k][m] = gamma_moments(mean, rng.uniform(1.05, 1.5) if num[m] > 1 else rng.uniform(.5, 1.5), 4)
    perm = []
    for m in range(n):
        o = list(range(K))
        rng.shuffle(o)
        perm.append(o)
    return dict(R=R, b=b, n=num, L=L, prty=[rng.choice(["PR", "NP"]) for _ in range(n)], perm=perm)


@clause("C26", g_net)
def network(R, b, n, L, prty, perm):
    K, N = len(L), len(n)
    lam = [[max(0.0, x) for x in traffic(L[k], R[k])] for k in range(K)]
    b0, L0, perm0 = [[list(x) for x in r] for r in b], list(L), [list(x) for x in perm]
    res = quiet(nwc.network_prty_calc, [np.array(r) for r in R], b, n, L, prty, perm)
    need(b == b0 and L == L0 and perm == perm0, "the arguments were changed")
    need(len(res["v"]) == K and len(res["v_node"]) == N and len(res["loads"]) == N, "shape of the result")
    v_node = []
    for m in range(N):
        same(res["loads"][m], sum(lam[k][m] * b[k][m][0] for k in range(K)) / n[m], f"load of node {m}", tol=1e-7, scale=1e-3)
        slot = [perm[m].index(p) for p in range(K)]
        want = quiet(prc.get_v_prty_invar, [lam[c][m] for c in slot], [b[c][m] for c in slot], n[m], prty[m])
        v_node.append([want[perm[m][c]] for c in range(K)])
        for k in range(K):
            if lam[k][m] > 1e-9:
                sames(list(res["v_node"][m][k])[:3], list(v_node[m][k])[:3], f"sojourn of class {k} in node {m}", tol=1e-5)
    for k in range(K):
        g = [gamma_fit_moments(v_node[m][k]) for m in range(N)]
        a = [np.array([x[j] for x in g]) for j in range(3)]
        Q, P = np.array(R[k])[1:, :N], np.array(R[k])[0, :N]
        inv = np.linalg.inv(np.eye(N) - Q)
        m1 = inv @ a[0]
        m2 = inv @ (a[1] + 2 * a[0] * (Q @ m1))
        m3 = inv @ (a[2] + 3 * a[1] * (Q @ m1) + 3 * a[0] * (Q @ m2))
        x = max(1.0, max(v_node[m][k][0] for m in range(N)) / float(P @ m1))      # numerical derivatives: rounding grows when a slow node is off the way
        for i, (m, tol) in enumerate(((m1, 1e-5), (m2, 1e-3), (m3, 5e-2))):
            if tol * x ** (i + 1) < .3:
                same(res["v"][k][i], float(P @ m), f"moment {i + 1} of the sojourn of class {k} in the network", tol=tol * x ** (i + 1))


def gamma_fit_moments(v):
    d = v[1] - v[0] ** 2
    al, mu = v[0] ** 2 / d, v[0] / d
    return [al / mu, al * (al + 1) / mu ** 2, al * (al + 1) * (al + 2) / mu ** 3]
