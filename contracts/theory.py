"""Shared scaffolding for the contracts of the analytical part (numbers are exact reals)."""
import z3
from pyvc.core import *
from pyvc.interp import VC, POWI, POWR, EXP, LOG, GAMMA, FACT, BINOM, SQRT
from pyvc import loops, prove

I, R = z3.IntSort(), z3.RealSort()
MQ = "most_queue/"


class T:
    """one proof unit: symbolic arguments, calls into the real code, postconditions"""

    def __init__(self, name, div_check=True, **opts):
        o = {"ring_inv": True, "bounds": True}
        o.update(opts)
        self.vc = VC(name=name, div_check=div_check, opts=o, contracts=o.pop("contracts", None), feas_ms=o.pop("feas_ms", 60))
        self.vc.covers = []
        self.vc.ext = dict(self.vc.ext)

    def st(self, *pre):
        s = St()
        for p in pre:
            s.assume(p)
        return s

    def reals(self, names):
        return [z3.Real(n) for n in names.split()]

    def ints(self, names):
        return [z3.Int(n) for n in names.split()]

    def list(self, st, xs):
        return self.vc.new_list(st, xs)

    def slist(self, st, name, n, w="real", nonneg=False):
        l = self.vc.new_slist(st, w, name, length=n, arr=z3.Array(name, I, R if w == "real" else I))
        return l

    def arr(self, st, l):
        return self.vc.lcell(st, l)

    def call(self, rel, name, st, args, kw=None, what=None, cover=True):
        """every normal outcome of the call; any exception is an obligation that fails"""
        vc = self.vc
        what = what or name
        if cover:
            vc.covers.append((what, list(st.pc)))
        fn = vc.func(MQ + rel, name)
        st.env = {}
        if fn.cls is not None and fn.name not in fn.cls.static:
            outs = vc.call_func(fn, st, list(args), kw or {}, nocontract=True)
        else:
            outs = vc.call_func(fn, st, list(args), kw or {}, nocontract=True)
        return self.outcomes(what, outs)

    def new(self, rel, cls, st, args, kw=None):
        vc = self.vc
        vc.covers.append((cls, list(st.pc)))
        st.env = {}
        outs = vc.instantiate(vc.cls(MQ + rel, cls), st, list(args), kw or {})
        return self.outcomes(cls + "()", outs)

    def method(self, st, obj, name, args=(), kw=None, what=None):
        vc = self.vc
        r = obj.cls.find(vc, name)
        if not r:
            raise Unsupported("no method " + name)
        st.env = {}
        outs = vc.call_func(FuncV(r[1], r[0].mod, r[0], None, name), st, [obj] + list(args), kw or {}, nocontract=True)
        return self.outcomes(what or f"{obj.cls.name}.{name}", outs)

    def outcomes(self, what, outs):
        vc = self.vc
        for s, nm in vc.pend:
            vc.check(s, False, f"{what}: no exception ({nm})")
        failed, vc.pend = bool(vc.pend), []
        if not outs and not failed:
            raise Unsupported(f"{what}: no normal outcome")
        return outs

    def items(self, st, v):
        return list(self.vc.items(st, v))

    def chk(self, st, goal, name, **opts):
        self.vc.check(st, goal, name, opts or None)

    def eq(self, st, a, b, name, **opts):
        opts.setdefault("ring_first", True)
        self.vc.check(st, zr(a) == zr(b), name, opts)


def ipow(x, n):
    r = z3.RealVal(1)
    for _ in range(n):
        r = r * x
    return r
