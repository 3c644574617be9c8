"""C19: M/G/1 with priority classes (theory/priority_calc.py).

Rates and service moments are arbitrary reals (total load below 1); numbers of classes and moments are concrete."""
import random
from fractions import Fraction
from math import comb, factorial

from contracts.theory import *

F = "theory/priority_calc.py"


def val(e, env):
    """value of a ring term at a rational point; fresh symbols get values on first use"""
    vs, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs.append(x)
        todo += x.children()
    for v in vs:
        if v.sexpr() not in env:
            r = random.Random("c19" + v.sexpr())
            env[v.sexpr()] = Fraction(r.randint(1, 97), 101)
    return z3.simplify(z3.substitute(e, *[(v, z3.RealVal(env[v.sexpr()])) for v in vs])).sexpr() if vs else z3.simplify(e).sexpr()


class Calls:
    """contract stub: every call returns new symbols; the postconditions find the call that has the arguments the formula asks for"""

    def __init__(self, t, tag, nout, pos=True):
        self.t, self.tag, self.nout, self.pos, self.log, self.env = t, tag, nout, pos, [], {}

    def flat(self, s, a):
        out = []
        for x in a:
            if isinstance(x, (int, float, Fraction)) or z3.is_expr(x):
                out.append(zr(x))
            elif x is None:
                continue
            else:
                out.append(tuple(zr(y) for y in self.t.items(s, x)))
        return out

    def __call__(self, vc, s, recv, a, kw):
        if kw:
            raise Unsupported(f"{self.tag}: keyword arguments")
        f = self.flat(s, a)
        kf = self.key(f)
        for g, r in self.log:
            if self.key(g) == kf:       # same arguments, same result
                for p, q in zip(g, f):
                    for x, y in (zip(p, q) if isinstance(p, tuple) else [(p, q)]):
                        if not zr(x).eq(zr(y)):
                            self.t.eq(s, x, y, f"{self.tag}: arguments with equal values")
                return [(s, vc.new_list(s, r))]
        r = [z3.Real(f"{self.tag}{len(self.log)}_{i}") for i in range(self.nout(f))]
        if self.pos:
            for x in r:
                s.assume(x > 0)
        self.log.append((f, r))
        return [(s, vc.new_list(s, r))]

    def key(self, q):
        return [([val(zr(y), self.env) for y in x] if isinstance(x, (tuple, list)) else val(zr(x), self.env)) for x in q]

    def find(self, st, args, name, trim=False):
        """symbols returned by the call with these arguments (proved equal); None if there is none"""
        t = self.t
        want = [x if isinstance(x, (tuple, list)) else zr(x) for x in args]
        key = self.key

        def fits(g):
            kg, kw_ = key(g), key(want)
            if len(kg) != len(kw_):
                return False
            for p, q in zip(kg, kw_):
                if isinstance(p, list) != isinstance(q, list):
                    return False
                if isinstance(p, list):
                    m = min(len(p), len(q))
                    if (p[:m] != q[:m]) or (not trim and len(p) != len(q)):
                        return False
                elif p != q:
                    return False
            return True
        hit = [(g, r) for g, r in self.log if fits(g)]
        t.chk(st, bool(hit), f"{name}: is computed by {self.tag} from the right arguments")
        if not hit:
            return None
        g, r = hit[-1]
        for p, q in zip(g, want):
            for x, y in (zip(p, q) if isinstance(p, tuple) else [(p, q)]):
                if not zr(x).eq(zr(y)):
                    t.eq(st, x, y, f"{name}: argument of {self.tag}")
        return r


def data(t, K, M, l_low=True):
    l = [z3.Real(f"l{k}") for k in range(K)]
    b = [[z3.Real(f"b{k}_{i}") for i in range(M)] for k in range(K)]
    ro = [l[k] * b[k][0] for k in range(K)]
    st = t.st(*[x > 0 for x in l], *[x > 0 for r in b for x in r], sum(ro, z3.RealVal(0)) < 1)
    # facts the solver may use: partial loads are below 1
    acc = z3.RealVal(0)
    for k in range(K):
        acc = acc + ro[k]
        st.assume(z3.And(ro[k] > 0, acc < 1))
    return st, l, b, ro


def lists(t, st, b):
    return t.list(st, [t.list(st, r) for r in b])


def conv2(x, y, n):
    x, y = [z3.RealVal(1)] + list(x), [z3.RealVal(1)] + list(y)
    return [sum((comb(k, j) * x[j] * y[k - j] for j in range(k + 1)), z3.RealVal(0)) for k in range(1, n + 1)]


def pk(l, b, n):
    w = [z3.RealVal(1)]
    for k in range(1, n + 1):
        w.append(l / (1 - l * b[0]) * sum((comb(k, i) * b[i] / (i + 1) * w[k - i] for i in range(1, k + 1)), z3.RealVal(0)))
    return w[1:]


def bell(n, k, x):
    """partial Bell polynomial B_{n,k}(x1, x2, ...)"""
    if n == 0 and k == 0:
        return z3.RealVal(1)
    if n == 0 or k == 0:
        return z3.RealVal(0)
    return sum((comb(n - 1, i - 1) * x[i - 1] * bell(n - i, k - 1, x) for i in range(1, n - k + 2)), z3.RealVal(0))


def compose(f, x, n):
    """n-th raw moment of a law with moments f at s + l - l pi(s), x the moments of the argument"""
    return sum((f[k - 1] * bell(n, k, x) for k in range(1, n + 1)), z3.RealVal(0))


def mkdict(vc, s, kv):
    d = vc.new_list(s, [])
    s.heap[d.oid] = {"k": "d", **{("key", k): v for k, v in kv.items()}}
    return d


def nested(t, s, v):
    return [[zr(x) for x in t.items(s, r)] for r in t.items(s, v)]


def unit(what, *a):
    t = T(what)
    if what == "means":
        K = int(a[0])
        for fn in ("get_w1_pr", "get_w1_np"):
            st, l, b, ro = data(t, K, 3)
            for s, v in t.call(F, fn, st, [t.list(st, l), lists(t, st, b)], what=f"{fn}({K} classes)"):
                w = [zr(x) for x in t.items(s, v)]
                t.chk(s, len(w) == K, f"{fn}({K}): one value per class")
                if len(w) != K:
                    continue
                for j in range(K):
                    R0, R1 = sum(ro[:j], z3.RealVal(0)), sum(ro[:j + 1], z3.RealVal(0))
                    up = K if fn == "get_w1_np" else j + 1
                    x = sum((l[i] * b[i][1] for i in range(up)), z3.RealVal(0)) / (2 * (1 - R0) * (1 - R1))
                    if fn == "get_w1_pr":
                        x = x + b[j][0] * R0 / (1 - R0)
                    t.eq(s, w[j], x, f"{fn}({K}): class {j} has the classical mean")
    elif what == "busy":
        l = z3.Real("l")
        for M in (1, 2, 3, 4, 5):
            b = [z3.Real(f"b{i}") for i in range(M)]
            for num in ({M, 5} if M < 5 else {1, 2, 3, 4, 5, 7}):
                st = t.st(l > 0, *[x > 0 for x in b], l * b[0] < 1)
                for s, v in t.call(F, "ppnz_calc", st, [l, t.list(st, b), num], what=f"ppnz_calc({M} moments, num={num})"):
                    p = [zr(x) for x in t.items(s, v)]
                    t.chk(s, len(p) == min(num, M, 5), f"busy period ({M}, {num}): number of moments")
                    x = [(l * q + (1 if i == 0 else 0)) for i, q in enumerate(p)]
                    for n in range(1, len(p) + 1):
                        t.eq(s, p[n - 1], compose(b, x, n), f"busy period ({M}, {num}): moment {n} solves pi(s) = b(s + l - l pi(s))", ms=9000)
        for M in (1, 2, 3, 4, 5):
            for P in {M, 5, max(1, M - 1)}:
                f = [z3.Real(f"f{i}") for i in range(M)]
                p = [z3.Real(f"p{i}") for i in range(P)]
                for num in {1, 3, 5}:
                    st = t.st(l > 0, *[x > 0 for x in f + p])
                    for s, v in t.call(F, "ppnz_calc_warm_up", st, [l, t.list(st, f), t.list(st, p), num], what=f"ppnz_calc_warm_up({M},{P},{num})"):
                        r = [zr(x) for x in t.items(s, v)]
                        t.chk(s, len(r) == min(num, M, P), f"busy period with warm-up ({M},{P},{num}): number of moments")
                        x = [(l * q + (1 if i == 0 else 0)) for i, q in enumerate(p)]
                        for n in range(1, len(r) + 1):
                            if n <= min(M, P):
                                t.eq(s, r[n - 1], compose(f, x, n), f"busy period with warm-up ({M},{P},{num}): moment {n} is that of f(s + l - l pi(s))")
    elif what == "preemptive":
        K, num = int(a[0]), int(a[1])
        M = num + 1
        st, l, b, ro = data(t, K, M + (int(a[2]) if len(a) > 2 else 0))
        bp = Calls(t, "pnz", lambda f: min(5, len(f[1])))
        wu = Calls(t, "warm", lambda f: min(5, len(f[1]), len(f[2])))
        t.vc.contracts = {"ppnz_calc": bp, "ppnz_calc_warm_up": wu}
        # that the active time loads the server with less than 1 follows from the total load; the callee contracts do not say so
        t.vc.div_check = K == 1
        for s, v in t.call(F, "calc_pr1", st, [t.list(st, l), lists(t, st, b), num], what=f"calc_pr1({K} classes, {num} moments)"):
            tag = f"preemptive ({K} classes, {num} moments)"
            get = {k: nested(t, s, t.vc.getitem(s, v, k)) for k in ("v", "w", "h", "pnz", "w_with_pr")}
            t.chk(s, all(len(x) == K for x in get.values()), f"{tag}: one entry per class")
            if any(len(x) != K for x in get.values()):
                continue
            L = [sum(l[:j + 1], z3.RealVal(0)) for j in range(K)]
            pi = bp.find(s, [l[0], tuple(b[0])], f"{tag}: busy period of class 0")
            if pi is None:
                continue
            exp = {"h": [list(b[0])], "pnz": [pi], "w": [pk(l[0], b[0], num)]}
            each = [[pi]]
            for j in range(1, K):
                h = wu.find(s, [L[j - 1], tuple(b[j]), tuple(exp["pnz"][j - 1])], f"{tag}: active time of class {j}", trim=True)
                if h is None:
                    break
                own = bp.find(s, [l[j], tuple(h)], f"{tag}: busy period of class {j} itself")
                if own is None:
                    break
                row = []
                for i in range(j):
                    r = wu.find(s, [l[j], tuple(each[j - 1][i]), tuple(own)], f"{tag}: busy period of classes up to {j} opened by class {i}", trim=True)
                    if r is None:
                        break
                    row.append(r)
                if len(row) < j:
                    break
                row.append(own)
                each.append(row)
                exp["h"].append(h)
                p = [sum((l[i] * row[i][m] for i in range(j + 1)), z3.RealVal(0)) / L[j] for m in range(M)]
                exp["pnz"].append(p)
                # W(s) (s - l + l h(s)) = c (s + L - L pi(s)),  c fixed by W(0) = 1
                q = exp["pnz"][j - 1]
                c = (1 - l[j] * h[0]) / (1 + L[j - 1] * q[0])
                w = [z3.RealVal(1)]
                got = get["w"][j]
                if len(got) != num:
                    t.chk(s, False, f"{tag}: number of waiting moments of class {j}")
                    break
                w += got
                for i in range(1, num + 1):
                    lhs = w[i] - l[j] * sum((comb(i, m) * w[m] * h[i - m] / (i - m + 1) for m in range(i + 1)), z3.RealVal(0))
                    t.eq(s, lhs, c * L[j - 1] * q[i] / (i + 1), f"{tag}: waiting moment {i} of class {j} solves the transform equation")
                exp["w"].append(got)
            else:
                for j in range(K):
                    if j == 0:
                        for i in range(num):
                            t.eq(s, get["w"][0][i], exp["w"][0][i], f"{tag}: class 0 waits as in M/G/1 (moment {i + 1})")
                    for nm in ("h", "pnz"):
                        for i in range(min(len(get[nm][j]), M)):
                            t.eq(s, get[nm][j][i], exp[nm][j][i], f"{tag}: {nm} of class {j}, moment {i + 1}")
                        t.chk(s, len(get[nm][j]) >= num, f"{tag}: {nm} of class {j}: number of moments")
                    vv = conv2(get["w"][j], exp["h"][j], num)
                    ok = len(get["v"][j]) == num
                    t.chk(s, ok, f"{tag}: sojourn moments of class {j}")
                    for i in range(num if ok else 0):
                        t.eq(s, get["v"][j][i], vv[i], f"{tag}: sojourn of class {j} is its wait plus its active time (moment {i + 1})")
                    back = conv2(get["w_with_pr"][j], b[j], num)
                    for i in range(num if ok else 0):
                        t.eq(s, back[i], get["v"][j][i], f"{tag}: wait with interruptions of class {j} (moment {i + 1})")
    elif what == "climov":
        K = int(a[0])
        st, l, b, ro = data(t, K, 3)
        for s, v in t.call(F, "climov_w_pr_calc", st, [t.list(st, l), lists(t, st, b)], what=f"climov_w_pr_calc({K} classes)"):
            w = nested(t, s, v)
            ok = len(w) == K and all(len(x) == 2 for x in w)
            t.chk(s, ok, f"start of service under preemption ({K}): two moments per class")
            for k in range(K if ok else 0):
                S = lambda i, q: sum((l[x] * b[x][i] for x in range(q)), z3.RealVal(0))
                r0, r1 = 1 - S(0, k), 1 - S(0, k + 1)
                t.eq(s, w[k][0], S(1, k + 1) / (2 * r0 * r1), f"start of service under preemption ({K}): mean of class {k}")
                t.eq(s, w[k][1], S(2, k + 1) / (3 * r0 * r0 * r1) + S(1, k + 1) * S(1, k + 1) / (2 * r0 * r0 * r1 * r1) + S(1, k + 1) * S(1, k) / (2 * r0 * r0 * r0 * r1),
                     f"start of service under preemption ({K}): second moment of class {k}")
    elif what == "no priority":
        for K in (1, 2, 3):
            st, l, b, ro = data(t, K, 4)
            LS = sum(l, z3.RealVal(0))
            mix = [sum((l[k] * b[k][i] for k in range(K)), z3.RealVal(0)) / LS for i in range(4)]
            w1 = Calls(t, "get_w", lambda f: 3)
            t.vc.contracts = {"get_w": w1}
            for fn in ("get_w_mg1_bp", "get_v_mg1_bp"):
                s0 = st.fork()
                for s, v in t.call(F, fn, s0, [t.list(s0, l), lists(t, s0, b)], what=f"{fn}({K} classes)"):
                    r = nested(t, s, v)
                    w = w1.find(s, [LS, tuple(mix)], f"{fn}({K}): wait in M/G/1 with the mixed service time")
                    ok = len(r) == K and all(len(x) == 3 for x in r)
                    t.chk(s, ok, f"{fn}({K}): three moments per class")
                    for k in range(K if ok and w else 0):
                        for i in range(3):
                            t.eq(s, r[k][i], w[i] if fn == "get_w_mg1_bp" else conv2(w, b[k], 3)[i], f"{fn}({K}): class {k}, moment {i + 1}")
            for n in (2,):
                tn = Calls(t, "MGn", lambda f: 3)
                hold = {}

                def init(vc, s, recv, aa, kw):
                    hold["x"] = tn(vc, s, None, list(aa[:3]), {})[0][1]
                    return [(s, None)]
                t.vc.contracts = {"MGnCalc.__init__": init, "MGnCalc.run": lambda vc, s, recv, aa, kw: [(s, None)],
                                  "MGnCalc.get_w": lambda vc, s, recv, aa, kw: [(s, vc.new_list(s, t.items(s, hold["x"])))]}
                for fn in ("get_w_MxGn_no_pr", "get_v_MxGn_no_pr"):
                    s0 = st.fork()
                    for s, v in t.call(F, fn, s0, [t.list(s0, l), lists(t, s0, b), n], what=f"{fn}({K} classes)"):
                        r = nested(t, s, v)
                        w = tn.find(s, [n, LS, tuple(mix)], f"{fn}({K}): M/G/n with the mixed service time")
                        ok = len(r) == K and all(len(x) == 3 for x in r)
                        t.chk(s, ok, f"{fn}({K}): three moments per class")
                        for k in range(K if ok and w else 0):
                            for i in range(3):
                                t.eq(s, r[k][i], w[i] if fn == "get_w_MxGn_no_pr" else conv2(w, b[k], 3)[i], f"{fn}({K}): class {k}, moment {i + 1}")
    elif what == "non-preemptive":
        K = int(a[0])
        st, l, b, ro = data(t, K, 4)
        PLS = z3.Function("pls", R, R, R, R)
        fit = Calls(t, "gamma", lambda f: 2)
        bp = Calls(t, "pnz", lambda f: min(5, len(f[1])), pos=False)
        dd = []

        def pls(vc, s, recv, aa, kw):
            v = PLS(*[zr(x) for x in aa])
            s.assume(z3.And(v > 0, v <= 1))
            return [(s, v)]

        def diff(vc, s, recv, aa, kw):
            xs = [zr(x) for x in t.items(s, aa[0])]
            r = [z3.FreshReal(f"d{i}") for i in range(3)]
            dd.append((xs, zr(aa[1]), r))
            return [(s, vc.new_list(s, r))]
        t.vc.contracts = {"Gamma.get_mu_alpha": fit, "Gamma.get_pls": pls, "diff5dots": diff, "ppnz_calc": bp}
        t.vc.div_check = False
        for s, v in t.call(F, "get_w_np", st, [t.list(st, l), lists(t, st, b), 3], what=f"get_w_np({K} classes)"):
            w = nested(t, s, v)
            tag = f"non-preemptive ({K})"
            ok = len(w) == K and all(len(x) == 3 for x in w)
            t.chk(s, ok, f"{tag}: three moments per class")
            tot = sum(ro, z3.RealVal(0))
            for j in range(K if ok else 0):
                hit = [d for d in dd if z3.simplify(w[j][1]).eq(z3.simplify(d[2][1]))]
                t.chk(s, bool(hit), f"{tag}: second moment of class {j} is a second derivative")
                if not hit:
                    continue
                xs, h, r = hit[-1]
                t.eq(s, w[j][0], -r[0], f"{tag}: first moment of class {j} is minus the first derivative")
                t.eq(s, w[j][2], -r[2], f"{tag}: third moment of class {j} is minus the third derivative")
                t.chk(s, len(xs) in (3, 4, 5), f"{tag}: number of points of class {j}")
                LS = sum(l, z3.RealVal(0))
                kk = z3.simplify(z3.substitute(h * tot / LS, *[(y, z3.RealVal(Fraction(1, 3 + i))) for i, y in enumerate(l + [z for q in b for z in q])]))
                t.eq(s, h, kk * LS / tot, f"{tag}: step of class {j} is a multiple of the mean service rate")
                t.chk(s, z3.And(kk > 0, kk <= z3.RealVal("1/100")), f"{tag}: step of class {j} is small")
                la, lb = sum(l[:j], z3.RealVal(0)), sum(l[j + 1:], z3.RealVal(0))
                first = xs[0].eq(z3.RealVal(1)) or z3.is_true(z3.simplify(xs[0] == 1))
                t.chk(s, first, f"{tag}: the transform of class {j} is 1 at 0")
                own = fit.find(s, [tuple(b[j])], f"{tag}: law of class {j}")
                low = fit.find(s, [tuple(sum((l[i] * b[i][m] for i in range(j + 1, K)), z3.RealVal(0)) / lb for m in range(4))], f"{tag}: service time of the lower classes of {j}") if j < K - 1 else ()
                nu = ()
                if j:
                    pz = bp.find(s, [la, tuple(sum((l[i] * b[i][m] for i in range(j)), z3.RealVal(0)) / la for m in range(4))], f"{tag}: busy period of the higher classes of {j}")
                    nu = fit.find(s, [tuple(pz)], f"{tag}: law of the busy period above {j}") if pz else None
                if None in (own, low, nu):
                    continue
                for c in range(1, len(xs)):
                    sc = h * c
                    sig = sc + (la - la * PLS(*nu, sc) if j else 0)
                    top = (1 - tot) * sig + (lb * (1 - PLS(*low, sig)) if j < K - 1 else 0)
                    den = l[j] * PLS(*own, sig) - l[j] + sc
                    t.eq(s, xs[c], top / den, f"{tag}: transform of class {j} at point {c}", ring_only=False)
    elif what == "sums":
        for K in (1, 2, 3):
            for num in (1, 2, 3):
                for fn, dep in (("get_v_np", "get_w_np"), ("get_v_prty_invar", "get_w_prty_invar")):
                    st, l, b, ro = data(t, K, 4)
                    w = [[z3.Real(f"w{k}_{i}") for i in range(3)] for k in range(K)]
                    seen = []

                    def dep_(vc, s, recv, aa, kw):
                        seen.append((aa, kw))
                        return [(s, lists(t, s, w))]
                    t.vc.contracts = {dep: dep_}
                    for ty in (("NP", "PR") if fn == "get_v_prty_invar" else (None,)):
                        s0 = st.fork()
                        args = [t.list(s0, l), lists(t, s0, b)] + ([3, ty] if ty else [])
                        del seen[:]
                        for s, v in t.call(F, fn, s0, args, {"num": num}, what=f"{fn}({K} classes, {num}, {ty})"):
                            r = nested(t, s, v)
                            ok = len(r) == K and all(len(x) == num for x in r)
                            t.chk(s, ok, f"{fn}({K}, {num}, {ty}): number of moments")
                            if ty:
                                t.chk(s, len(seen) == 1 and list(seen[0][0][2:4]) + [seen[0][1].get("n"), seen[0][1].get("type")] in ([3, ty, None, None],), f"{fn}({K}, {num}, {ty}): channels and kind are passed on")
                            for k in range(K if ok else 0):
                                for i in range(num):
                                    t.eq(s, r[k][i], conv2(w[k], b[k], 3)[i], f"{fn}({K}, {num}, {ty}): sojourn is wait plus service (class {k}, moment {i + 1})")
    elif what == "invariant":
        K = int(a[0])
        for ty in ("NP", "PR"):
            for n in (1, 2, 3):
                N = n + 4
                st, l, b, ro = data(t, K, 4)
                st.assume(z3.And(*[x > 0 for x in l]))
                LS = sum(l, z3.RealVal(0))
                mix = [sum((l[k] * b[k][i] for k in range(K)), z3.RealVal(0)) / LS for i in range(4)]
                w1 = [[z3.Real(f"w{k}_{i}") for i in range(3)] for k in range(K)]
                p1, pn = [[z3.Real(f"{x}{i}") for i in range(N)] for x in ("p1_", "pn_")]
                st.assume(z3.And(*[x > 0 for x in p1 + pn]))
                seen = {}

                def prio(kind):
                    def f(vc, s, recv, aa, kw):
                        seen[kind] = (t.items(s, aa[0]), nested(t, s, aa[1]))
                        v = lists(t, s, w1)
                        if kind == "PR":
                            o = mkdict(vc, s, {"w_with_pr": v})
                            return [(s, o)]
                        return [(s, v)]
                    return f

                def gp(vc, s, recv, aa, kw):
                    seen["p1"] = (aa[0], t.items(s, aa[1]), aa[2])
                    return [(s, vc.new_list(s, p1))]

                def init(vc, s, recv, aa, kw):
                    seen["n"] = (aa[0], aa[1], t.items(s, aa[2]))
                    return [(s, None)]
                t.vc.contracts = {"get_w_np": prio("NP"), "calc_pr1": prio("PR"), "get_p": gp, "MGnCalc.__init__": init,
                                  "MGnCalc.run": lambda vc, s, recv, aa, kw: [(s, None)],
                                  "MGnCalc.get_p": lambda vc, s, recv, aa, kw: [(s, vc.new_list(s, pn))]}
                for s, v in t.call(F, "get_w_prty_invar", st, [t.list(st, l), lists(t, st, b), n, ty, N, 3], what=f"get_w_prty_invar({K} classes, n={n}, {ty})"):
                    tag = f"priority invariant ({K} classes, n={n}, {ty})"
                    r = nested(t, s, v)
                    ok = len(r) == K and all(len(x) == 3 for x in r) and set(seen) == {ty, "p1", "n"}
                    t.chk(s, ok, f"{tag}: single-channel priorities, M/G/1 and M/G/n are computed")
                    if not ok:
                        continue
                    ll, bb = seen[ty]
                    for k in range(K):
                        t.eq(s, ll[k], l[k], f"{tag}: rate of class {k}")
                        for i in range(4):
                            t.eq(s, bb[k][i], b[k][i] / n ** (i + 1), f"{tag}: service of class {k} is n times faster (moment {i + 1})")
                    t.eq(s, seen["p1"][0], LS, f"{tag}: total rate in M/G/1")
                    t.eq(s, seen["n"][1], LS, f"{tag}: total rate in M/G/n")
                    t.chk(s, seen["n"][0] == n and seen["p1"][2] == N, f"{tag}: number of channels and probabilities")
                    for i in range(4):
                        t.eq(s, seen["p1"][1][i], mix[i] / n ** (i + 1), f"{tag}: mixed service time in M/G/1 (moment {i + 1})")
                        t.eq(s, seen["n"][2][i], mix[i], f"{tag}: mixed service time in M/G/n (moment {i + 1})")
                    q1 = sum(((i - 1) * p1[i] for i in range(1, N)), z3.RealVal(0))
                    qn = sum(((i - n) * pn[i] for i in range(n + 1, N)), z3.RealVal(0))
                    for k in range(K):
                        for i in range(3):
                            t.eq(s, r[k][i] * q1, w1[k][i] * qn, f"{tag}: class {k}, moment {i + 1} is scaled by the ratio of the queues")
    elif what == "H2 transform":
        y, m1, m2, x = t.reals("y m1 m2 x")
        st = t.st(m1 > 0, m2 > 0, x >= 0)
        for s, v in t.call(F, "plsH2", st, [t.list(st, [y, m1, m2]), x]):
            t.eq(s, v, y * m1 / (x + m1) + (1 - y) * m2 / (x + m2), "transform of H2")
    else:
        raise ValueError(what)
    return t.vc
