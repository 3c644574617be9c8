"""C14: moments of sums and differences of independent variables (general_utils/conv.py)."""
from contracts.theory import *

F = "general_utils/conv.py"


def conv(a, b, k):
    """k-th raw moment of the sum of two independent variables, by the binomial theorem"""
    from math import comb
    m = lambda x, i: z3.RealVal(1) if i == 0 else x[i - 1]
    return sum(comb(k, i) * m(a, i) * m(b, k - i) for i in range(k + 1))


def nfold(b, n, k):
    """k-th raw moment of the sum of n independent copies, from the binomial theorem (see lemma below)"""
    n = z3.ToReal(n)
    return [n * b[0], n * b[1] + n * (n - 1) * b[0] * b[0],
            n * b[2] + 3 * n * (n - 1) * b[0] * b[1] + n * (n - 1) * (n - 2) * b[0] * b[0] * b[0]][k - 1]


def unit(what):
    t = T(what)
    a, b, c = [[z3.Real(f"{x}{i}") for i in (1, 2, 3)] for x in "abc"]
    if what == "sum":
        for num in (1, 2, 3, 4, 7):
            st = t.st()
            for s, r in t.call(F, "get_moments", st, [t.list(st, a), t.list(st, b)], {"num": num}):
                x = t.items(s, r)
                t.chk(s, len(x) == min(num, 3), f"get_moments(num={num}): number of moments")
                for k in range(min(num, 3, len(x))):
                    t.eq(s, x[k], conv(a, b, k + 1), f"get_moments(num={num}): moment {k + 1} of the sum")
        st = t.st()
        for s, r in t.call(F, "get_moments", st, [t.list(st, a), t.list(st, [0, 0, 0])]):
            for k, x in enumerate(t.items(s, r)):
                t.eq(s, x, a[k], f"get_moments: adding zero keeps moment {k + 1}")
        st = t.st()
        la, lb = t.list(st, a), t.list(st, b)
        for s, r in t.call(F, "get_moments", st, [la, lb]):
            for s2, q in t.call(F, "get_moments", s, [lb, la]):
                for k, (x, y) in enumerate(zip(t.items(s2, r), t.items(s2, q))):
                    t.eq(s2, x, y, f"get_moments: symmetric in moment {k + 1}")
                for nm, l, v in (("a", la, a), ("b", lb, b)):
                    for k, x in enumerate(t.items(s2, l)):
                        t.eq(s2, x, v[k], f"get_moments: argument {nm} untouched {k + 1}")
    elif what == "difference":
        for num in (1, 2, 3, 5):
            st = t.st()
            c_ = t.list(st, [conv(a, b, k) for k in (1, 2, 3)])
            for s, r in t.call(F, "get_moments_minus", st, [c_, t.list(st, b)], {"num": num}):
                x = t.items(s, r)
                t.chk(s, len(x) == min(num, 3), f"get_moments_minus(num={num}): number of moments")
                for k in range(min(num, 3, len(x))):
                    t.eq(s, x[k], a[k], f"get_moments_minus(num={num}): inverse of the sum in moment {k + 1}")
        st = t.st()
        lb = t.list(st, b)
        for s, r in t.call(F, "get_moments_minus", st, [t.list(st, c), lb]):
            for s2, q in t.call(F, "get_moments", s, [r, lb]):
                for k, x in enumerate(t.items(s2, q)):
                    t.eq(s2, x, c[k], f"get_moments after get_moments_minus: identity in moment {k + 1}")
    elif what == "self":
        for num in (1, 2, 3, 5):
            n = z3.Int("n")
            st = t.st(n >= 0)
            m = min(num, 3)

            def cands(vc, entry, s, kk, lo):
                ls = [o for o, d in s.heap.items() if d.get("k") == "c" and len(d["items"]) == m and "res" in s.env
                      and getattr(s.env["res"], "oid", None) == o]
                if not ls or kk is None:
                    return []
                it = s.heap[ls[0]]["items"]
                return [(f"moment {k}", zr(it[k - 1]) == nfold(b, kk, k)) for k in range(1, m + 1)]
            t.vc.loop_cands = [cands]
            for s, r in t.call(F, "get_self_conv_moments", st, [t.list(st, b), n], {"num": num}):
                x = t.items(s, r)
                t.chk(s, len(x) == m, f"get_self_conv_moments(num={num}): number of moments")
                for k in range(min(m, len(x))):
                    t.eq(s, x[k], nfold(b, n, k + 1), f"get_self_conv_moments(num={num}): moment {k + 1} of the n-fold sum")
        # the closed form is the one that the binomial theorem gives by induction
        n = z3.Int("n")
        st = t.st(n >= 0)
        for k in (1, 2, 3):
            t.eq(st, nfold(b, z3.IntVal(0), k), 0, f"lemma n-fold sum: base, moment {k}")
            t.eq(st, nfold(b, n + 1, k), conv([nfold(b, n, j) for j in (1, 2, 3)], b, k), f"lemma n-fold sum: step, moment {k}")
    return t.vc
