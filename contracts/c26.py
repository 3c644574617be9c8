"""C26: network calculation (theory/network_calc.py)."""
import itertools

from contracts.theory import *
from pyvc import nd

F = "theory/network_calc.py"
EPS = z3.Q(1, 1000000)


def linear_solvers(t, cramer=False):
    """assumed: numpy.linalg.inv / solve give the solution of the linear system (the matrix is regular); with cramer it is written out"""
    vc = t.vc
    vc.assumptions.add("numpy.linalg.inv(A) times B (or numpy.linalg.solve(A, B)) is a solution X of A X = B")
    t.systems = []

    def solution(vc, s, A, B):
        ka, a = nd.data(vc, s, A)
        kb, b = nd.data(vc, s, B)
        if kb == "v":
            xs = [[fresh("sol", "real")] for _ in b]
            bb = [[x] for x in b]
        else:
            xs = [[fresh("sol", "real") for _ in b[0]] for _ in b]
            bb = b
        if len(a) != len(bb) or any(len(r) != len(a) for r in a):
            vc.raised(s, "LinAlgError")
        if cramer:
            a = [[zr(x) for x in r] for r in a]
            d = det(a)
            s.assume(d != 0)
            xs = [[det([[zr(bb[i][c]) if q == j else a[i][q] for q in range(len(a))] for i in range(len(a))]) / d for c in range(len(bb[0]))] for j in range(len(a))]
            return nd.vec(vc, s, [x[0] for x in xs]) if kb == "v" else nd.mat(vc, s, xs)
        for i in range(len(a)):
            for c in range(len(bb[0])):
                s.assume(sum(zr(a[i][j]) * xs[j][c] for j in range(len(a))) == zr(bb[i][c]))
        return nd.vec(vc, s, [x[0] for x in xs]) if kb == "v" else nd.mat(vc, s, xs)

    vc.ext["numpy.linalg.inv"] = lambda vc, s, a, kw: [(s, Opq("inverse", a[0]))]
    vc.ext["numpy.linalg.solve"] = lambda vc, s, a, kw: [(s, solution(vc, s, a[0], a[1]))]
    vc.ext["dot:inverse"] = lambda vc, s, a, b: solution(vc, s, a.data, b)


def matrix(t, st, name, rows, cols, zero=()):
    """transition matrix with the given entries 0, the others at least 1e-6 ("any": 0 or at least 1e-6)"""
    M = []
    for i in range(rows):
        M.append([])
        for j in range(cols):
            if (i, j) in zero:
                M[i].append(0)
            else:
                x = z3.Real(f"{name}{i}{j}")
                st.assume(x >= EPS)
                M[i].append(x)
    return M


def patterns(n):
    """zero patterns: all for one node; for more nodes every choice of unvisited nodes, and some single zeros"""
    cells = [(i, j) for i in range(n + 1) for j in range(n + 1)]
    if n <= 1:
        return [tuple(c for c, z in zip(cells, zs) if z) for zs in itertools.product((0, 1), repeat=len(cells))
                if not all(z for c, z in zip(cells, zs) if c[1] == n)]
    out = []
    for dead in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)):
        base = tuple((i, j) for i in range(n + 1) for j in dead)
        out.append(base)
        for c in cells:
            if c[1] not in dead:
                out.append(base + (c,))
        out.append(base + tuple((0, j) for j in range(n) if j not in dead and j != n - 1))
        out.append(base + tuple((i, i - 1) for i in range(1, n + 1)))
    return sorted(set(out))


def unit_balance(n, part):
    t = T(f"balance{n}", nd=True, feas_ms=30)
    linear_solvers(t)
    pats = patterns(n)
    for z in pats[part::4]:
        st = t.st()
        L = z3.Real("L")
        st.assume(L > 0)
        M = matrix(t, st, "r", n + 1, n + 1, set(z))
        tag = f"balance_equation, {n} nodes, zeros {sorted(set(z))}"
        for s, v in t.call(F, "balance_equation", st, [L, nd.mat(t.vc, st, M)], what=tag, cover=not z):
            l = [zr(x) for x in t.items(s, v)]
            t.chk(s, len(l) == n, f"{tag}: one rate per node")
            if len(l) != n:
                continue
            for j in range(n):
                t.eq(s, l[j], L * M[0][j] + sum(l[i] * M[i + 1][j] for i in range(n)), f"{tag}: traffic balance at node {j}")
    return t.vc


def unit_net(n, k, nums, orders):
    """network_prty_calc over the contracts of its callees"""
    t = T(f"net{n}{k}", nd=True, feas_ms=30)
    vc = t.vc
    linear_solvers(t, True)
    st = t.st()
    Rs, lam = [], []
    solved = []
    for c in range(k):
        M = matrix(t, st, f"r{c}_", n + 1, n + 1)
        Rs.append(M)
    Ls = [z3.Real(f"L{c}") for c in range(k)]
    lam = [[z3.Real(f"lam{c}_{m}") for m in range(n)] for c in range(k)]
    b = [[[z3.Real(f"b{c}_{m}_{j}") for j in range(3)] for m in range(n)] for c in range(k)]
    st.assume(z3.And(*[x > 0 for x in Ls], *[x > 0 for r in lam for x in r], *[x > 0 for r in b for q in r for x in q]))
    mats = [nd.mat(vc, st, M) for M in Rs]
    prty = ["NP" if m % 2 else "PR" for m in range(n)]
    calls = []

    def balance(vc, s, recv, args, kw):
        c = next((c for c in range(k) if args[1].same(mats[c])), None)
        if c is None or not args[0].eq(Ls[c]):
            raise Unsupported("balance_equation is not called for one class with its entry rate and matrix")
        return [(s, vc.new_list(s, lam[c]))]

    def node_v(vc, s, recv, args, kw):
        l, bb, num, ty = (list(args) + [kw[x] for x in ("l", "b", "n", "type")[len(args):4]])[:4]
        out = [[z3.Real(f"nodev{len(calls)}_{p}_{j}") for j in range(3)] for p in range(k)]
        for r in out:
            s.assume(z3.And(r[0] > 0, r[1] > r[0] * r[0], r[2] > 0))
        calls.append((vc.items(s, l), [vc.items(s, x) for x in vc.items(s, bb)], num, ty, out))
        return [(s, vc.new_list(s, [vc.new_list(s, r) for r in out]))]

    PLS = z3.Function("gamma_pls", R, R, R, R, R)

    def fit(vc, s, recv, args, kw):
        m = vc.items(s, args[0])
        return [(s, (Opq("gammapar", (zr(m[0]), zr(m[1]), 0)), Opq("gammapar", (zr(m[0]), zr(m[1]), 1))))]

    def pls(vc, s, recv, args, kw):
        p, q, x = args
        if not (isinstance(p, Opq) and isinstance(q, Opq) and p.data[2] == 0 and q.data[2] == 1 and p.data[0].eq(q.data[0]) and p.data[1].eq(q.data[1])):
            raise Unsupported("get_pls without fitted parameters")
        y = PLS(p.data[0], p.data[1], zr(x), z3.RealVal(0))
        s.assume(z3.And(y > 0, y <= 1))
        return [(s, y)]

    diffs = []

    def diff(vc, s, recv, args, kw):
        f = vc.items(s, args[0])
        out = [z3.Real(f"diff{len(diffs)}_{j}") for j in range(3)]
        diffs.append((f, args[1], out))
        return [(s, vc.new_list(s, out))]

    vc.contracts = {"balance_equation": balance, "get_v_prty_invar": node_v, "Gamma.get_mu_alpha": fit, "Gamma.get_pls": pls, "diff5dots": diff}
    args = [vc.new_list(st, mats), vc.new_list(st, [vc.new_list(st, [vc.new_list(st, q) for q in r]) for r in b]),
            vc.new_list(st, nums), vc.new_list(st, Ls), vc.new_list(st, prty), vc.new_list(st, [vc.new_list(st, o) for o in orders])]
    tag = f"network_prty_calc, {n} nodes, {k} classes"
    outs = t.call(F, "network_prty_calc", st, args, what=tag)
    t.chk(outs[0][0], len(calls) >= n, f"{tag}: every node is solved once")
    for s, v in outs:
        get = lambda key: vc.getitem(s, v, key)
        vn = [[vc.items(s, x) for x in vc.items(s, r)] for r in vc.items(s, get("v_node"))]
        loads = t.items(s, get("loads"))
        vs = [vc.items(s, x) for x in vc.items(s, get("v"))]
        t.chk(s, len(vn) == n and len(loads) == n and len(vs) == k, f"{tag}: shape of the result")
        for m in range(n):
            l, bb, num, ty, out = calls[m]
            t.eq(s, loads[m], sum(lam[c][m] * b[c][m][0] for c in range(k)) / nums[m], f"{tag}: load of node {m}")
            t.chk(s, num == nums[m] and ty == prty[m], f"{tag}: node {m} is solved with its channels and discipline")
            for c in range(k):
                p = orders[m][c]          # priority of the class in the node
                t.eq(s, l[p], lam[c][m], f"{tag}: node {m} is solved with the rate of class {c} at its priority")
                for j in range(3):
                    t.eq(s, bb[p][j], b[c][m][j], f"{tag}: node {m} is solved with moment {j} of class {c} at its priority")
                    t.eq(s, vn[m][c][j], out[p][j], f"{tag}: moment {j} of node {m} is reported for class {c}")
        for c in range(k):
            if c >= len(diffs):
                t.chk(s, False, f"{tag}: no transform for class {c}")
                continue
            f, h, out = diffs[c]
            t.chk(s, zr(h) > 0, f"{tag}: positive step, class {c}")
            t.chk(s, len(f) >= 4, f"{tag}: at least four values of the transform, class {c}")
            t.eq(s, f[0], 1, f"{tag}: transform at 0, class {c}")
            for i in range(1, len(f)):
                N = [PLS(zr(vn[m][c][0]), zr(vn[m][c][1]), zr(h) * i, z3.RealVal(0)) for m in range(n)]
                # y_m: transform of the remaining time from the entry to node m; the transform of the network is sum of entries R0m y_m
                sol = transform(n, N, Rs[c])
                num_, den = sol
                t.eq(s, zr(f[i]), num_ / den, f"{tag}: transform at {i}h, class {c}")
            t.eq(s, vs[c][0], -out[0], f"{tag}: first moment, class {c}")
            t.eq(s, vs[c][1], out[1], f"{tag}: second moment, class {c}")
            t.eq(s, vs[c][2], -out[2], f"{tag}: third moment, class {c}")
    return vc


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


def transform(n, N, M):
    """Cramer: y = (I - diag(N) Q)^-1 diag(N) T; numerator and denominator of sum R0m y_m"""
    A = [[(1 if i == j else 0) - N[i] * M[i + 1][j] for j in range(n)] for i in range(n)]
    d = det(A)
    num = 0
    for m in range(n):
        Am = [[(N[i] * M[i + 1][n]) if j == m else A[i][j] for j in range(n)] for i in range(n)]
        num = num + M[0][m] * det(Am)
    return num, d


def unit_nodev(k):
    """get_v_prty_invar: wait plus own service, moment algebra"""
    t = T(f"nodev{k}")
    vc = t.vc
    st = t.st()
    w = [[z3.Real(f"w{c}_{j}") for j in range(3)] for c in range(k)]
    b = [[z3.Real(f"b{c}_{j}") for j in range(3)] for c in range(k)]
    l = [z3.Real(f"l{c}") for c in range(k)]
    seen = []

    def wait(vc, s, recv, args, kw):
        a = list(args) + [kw[x] for x in ("l", "b", "n", "type")[len(args):4]]
        seen.append((vc.items(s, a[0]), [vc.items(s, x) for x in vc.items(s, a[1])], a[2], a[3]))
        return [(s, vc.new_list(s, [vc.new_list(s, r) for r in w]))]
    vc.contracts = {"get_w_prty_invar": wait}
    for ty in ("PR", "NP"):
        for num in (1, 2, 3):
            seen.clear()
            s0 = st.fork()
            args = [vc.new_list(s0, l), vc.new_list(s0, [vc.new_list(s0, r) for r in b]), 2, ty]
            for s, v in t.call("theory/priority_calc.py", "get_v_prty_invar", s0, args, {"num": num}, what=f"get_v_prty_invar {ty} {num}"):
                tag = f"get_v_prty_invar({ty}, num={num})"
                rows = [vc.items(s, x) for x in t.items(s, v)]
                ok = len(seen) == 1 and seen[0][2] == 2 and seen[0][3] == ty and len(rows) == k
                t.chk(s, ok, f"{tag}: waits of the same system")
                for c in range(k if ok else 0):
                    W, B = w[c], b[c]
                    want = [W[0] + B[0], W[1] + 2 * W[0] * B[0] + B[1], W[2] + 3 * W[1] * B[0] + 3 * W[0] * B[1] + B[2]]
                    t.chk(s, len(rows[c]) == num, f"{tag}: number of moments")
                    for j in range(min(num, len(rows[c]))):
                        t.eq(s, rows[c][j], want[j], f"{tag}: moment {j} of class {c}")
    return vc


def unit(what, *a):
    if what == "balance":
        return unit_balance(*[int(x) for x in a])
    if what == "net":
        return unit_net(*NETS[int(a[0])])
    if what == "nodev":
        return unit_nodev(int(a[0]))
    raise Unsupported(what)


NETS = [(1, 1, [1], [[0]]), (1, 2, [3], [[1, 0]]), (2, 1, [2, 1], [[0], [0]]), (2, 2, [1, 2], [[1, 0], [0, 1]]),
        (2, 3, [2, 3], [[1, 2, 0], [2, 0, 1]])]
