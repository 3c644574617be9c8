"""Shared specification vocabulary for the simulators: counting free channels, total credited time, ghosts."""
import z3
from pyvc.core import *
from pyvc.core import Obl
from pyvc.interp import VC, OptV

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AB, AR, AI = z3.ArraySort(I, B), z3.ArraySort(I, R), z3.ArraySort(I, I)


class Count:
    """cnt(a) = number of i in [0,n) with a[i]; axioms are the lemmas proved by induction in count_lemmas()"""

    def __init__(self, name, n, sort=AB, pred=lambda x: x):
        """number of i in [0,n) with pred(a[i])"""
        self.n, self.sort, self.pred = n, sort, pred
        self.f = z3.Function(name, sort, I)
        self.w = z3.Function(name + "_some", sort, I)
        self.u = z3.Function(name + "_none", sort, I)

    def axioms(self):
        a = z3.Const("a!cnt", self.sort)
        p = self.pred
        i = z3.Int("i!cnt")
        n, f, w, u = self.n, self.f, self.w, self.u
        return [
            z3.ForAll([a], z3.And(f(a) >= 0, f(a) <= n,
                                  z3.Implies(f(a) >= 1, z3.And(w(a) >= 0, w(a) < n, p(z3.Select(a, w(a))))),
                                  z3.Implies(f(a) <= n - 1, z3.And(u(a) >= 0, u(a) < n, z3.Not(p(z3.Select(a, u(a))))))),
                      patterns=[f(a)]),
            z3.ForAll([a, i], z3.Implies(z3.And(i >= 0, i < n),
                                         z3.And(z3.Implies(p(z3.Select(a, i)), f(a) >= 1),
                                                z3.Implies(z3.Not(p(z3.Select(a, i))), f(a) <= n - 1))),
                      patterns=[z3.MultiPattern(f(a), z3.Select(a, i))]),
        ]

    def on_store(self, vc, st, old, idx, new, val):
        n, f = self.n, self.f
        b = lambda x: z3.If(self.pred(x), 1, 0)
        st.assume(z3.Implies(z3.And(idx >= 0, idx < n), f(new) == f(old) - b(z3.Select(old, idx)) + b(val)))


def count_lemmas(check, sort=AB, pred=lambda x: x):
    """induction proofs of the counting lemmas over the recursive definition c(a,0)=0, c(a,k+1)=c(a,k)+[a[k]]"""
    c = z3.Function("c", sort, I, I)
    a = z3.Const("a", sort)
    k, i = z3.Ints("k i")
    v = z3.Const("v", sort.range())
    b = lambda x: z3.If(pred(x), 1, 0)
    df = lambda a, k: [c(a, 0) == 0, z3.Implies(k >= 0, c(a, k + 1) == c(a, k) + b(z3.Select(a, k)))]
    st = z3.Store(a, i, v)
    upd = lambda k: c(st, k) == c(a, k) + z3.If(z3.And(i >= 0, i < k), b(v) - b(z3.Select(a, i)), 0)
    check("lemma count update: base", df(a, k) + df(st, k), upd(z3.IntVal(0)))
    check("lemma count update: step", df(a, k) + df(st, k) + [k >= 0, upd(k)], upd(k + 1))
    rng = lambda k: z3.And(c(a, k) >= 0, c(a, k) <= k)
    check("lemma count range: base", df(a, k), rng(z3.IntVal(0)))
    check("lemma count range: step", df(a, k) + [k >= 0, rng(k)], rng(k + 1))
    pw = lambda k: z3.Implies(z3.And(i >= 0, i < k), z3.And(z3.Implies(pred(z3.Select(a, i)), c(a, k) >= 1),
                                                            z3.Implies(z3.Not(pred(z3.Select(a, i))), c(a, k) <= k - 1)))
    check("lemma count pointwise: base", df(a, k), pw(z3.IntVal(0)))
    check("lemma count pointwise: step", df(a, k) + [k >= 0, pw(k), rng(k)], pw(k + 1))
    j = z3.Int("j")
    none = lambda k: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(pred(z3.Select(a, j))))), c(a, k) == 0)
    alle = lambda k: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), pred(z3.Select(a, j)))), c(a, k) == k)
    check("lemma count none: base", df(a, k), none(z3.IntVal(0)))
    check("lemma count none: step", df(a, k) + [k >= 0, none(k)], none(k + 1))
    check("lemma count all: base", df(a, k), alle(z3.IntVal(0)))
    check("lemma count all: step", df(a, k) + [k >= 0, alle(k)], alle(k + 1))


class Total:
    """total(a) = sum of a[i] over the index range of a list; updated on every store"""

    def __init__(self, name, lo, hi):
        self.f = z3.Function(name, AR, R)
        self.lo, self.hi = lo, hi

    def on_store(self, vc, st, old, idx, new, val):
        st.assume(z3.Implies(z3.And(idx >= self.lo, idx < self.hi), self.f(new) == self.f(old) - z3.Select(old, idx) + val))


def total_lemmas(check):
    c = z3.Function("s", AR, I, R)
    a = z3.Const("a", AR)
    k, i = z3.Ints("k i")
    v = z3.Real("v")
    df = lambda a, k: [c(a, 0) == 0, z3.Implies(k >= 0, c(a, k + 1) == c(a, k) + z3.Select(a, k))]
    st = z3.Store(a, i, v)
    upd = lambda k: c(st, k) == c(a, k) + z3.If(z3.And(i >= 0, i < k), v - z3.Select(a, i), 0)
    check("lemma total update: base", df(a, k) + df(st, k), upd(z3.IntVal(0)))
    check("lemma total update: step", df(a, k) + df(st, k) + [k >= 0, upd(k)], upd(k + 1))
    K = z3.K(I, z3.RealVal(0))
    z = lambda k: c(K, k) == 0
    check("lemma total of zeros: base", df(K, k), z(z3.IntVal(0)))
    check("lemma total of zeros: step", df(K, k) + [k >= 0, z(k)], z(k + 1))


def lemma_unit(fs):
    vc = VC(name="lemmas")
    vc.covers = []
    for f in fs:
        f(lambda name, hyps, goal: vc.obls.append(Obl(name, list(hyps), goal, "lemmas")))
    return vc
