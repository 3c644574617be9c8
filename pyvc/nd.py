"""Small numpy arrays (1-D and 2-D, concrete shape, symbolic real entries): a heap list of entries or of row lists, marked "nd"."""
import ast

from .core import *

EXT = {}


def is_nd(vc, st, v):
    return isinstance(v, Lst) and bool(st.heap[v.oid].get("nd"))


def is_row(vc, st, v):
    return isinstance(v, (Lst, tuple, list, FLst))


def vec(vc, st, xs):
    l = vc.new_list(st, list(xs))
    st.heap[l.oid] = {**st.heap[l.oid], "nd": True}
    return l


def mat(vc, st, rows):
    return vec(vc, st, [vec(vc, st, r) for r in rows])


def data(vc, st, v):
    """-> ("s", x) | ("v", [..]) | ("m", [[..]])"""
    if is_num(v) or not isinstance(v, (Lst, tuple, list)):
        return "s", v
    its = vc.items(st, v)
    if its and all(isinstance(x, (Lst, tuple, list)) for x in its):
        return "m", [vc.items(st, x) for x in its]
    return "v", its


def build(vc, st, k, d):
    return d if k == "s" else vec(vc, st, d) if k == "v" else mat(vc, st, d)


def shape(vc, st, v):
    k, d = data(vc, st, v)
    return (len(d),) if k == "v" else (len(d), len(d[0]))


def lift(vc, st, f, a, b):
    ka, da = data(vc, st, a)
    kb, db = data(vc, st, b)
    if ka == "s" and kb == "s":
        return f(da, db)
    if ka == "s":
        return build(vc, st, kb, [f(da, y) for y in db] if kb == "v" else [[f(da, y) for y in r] for r in db])
    if kb == "s":
        return build(vc, st, ka, [f(x, db) for x in da] if ka == "v" else [[f(x, db) for x in r] for r in da])
    if ka == "v" and kb == "v":
        if len(da) != len(db):
            vc.raised(st, "ValueError")
        return vec(vc, st, [f(x, y) for x, y in zip(da, db)])
    if ka == kb:
        if len(da) != len(db) or any(len(x) != len(y) for x, y in zip(da, db)):
            raise Unsupported("broadcasting")
        return mat(vc, st, [[f(x, y) for x, y in zip(r, q)] for r, q in zip(da, db)])
    raise Unsupported("broadcasting")


def prod(vc, st, xs, ys):
    if len(xs) != len(ys):
        vc.raised(st, "ValueError")
    r = 0
    for x, y in zip(xs, ys):
        r = n_add(r, n_mul(x, y))
    return r


def dot(vc, st, a, b):
    if isinstance(a, Opq) and "dot:" + a.kind in vc.ext:
        return vc.ext["dot:" + a.kind](vc, st, a, b)
    if isinstance(b, Opq):
        raise Unsupported("product with " + b.kind)
    ka, da = data(vc, st, a)
    kb, db = data(vc, st, b)
    if ka == "s" or kb == "s":
        return lift(vc, st, n_mul, a, b)
    cols = [list(c) for c in zip(*db)] if kb == "m" else None
    if ka == "v" and kb == "v":
        return prod(vc, st, da, db)
    if ka == "v":
        return vec(vc, st, [prod(vc, st, da, c) for c in cols])
    if kb == "v":
        return vec(vc, st, [prod(vc, st, r, db) for r in da])
    return mat(vc, st, [[prod(vc, st, r, c) for c in cols] for r in da])


def const(x):
    def f(vc, st, a, kw):
        sh = a[0]
        sh = tuple(vc.items(st, sh)) if isinstance(sh, (tuple, list, Lst)) else (sh,)
        sh = tuple(conc(y) for y in sh)
        if not all(isinstance(y, int) for y in sh) or len(sh) > 2:
            raise Unsupported("numpy array of a symbolic shape")
        return [(st, vec(vc, st, [x] * sh[0]) if len(sh) == 1 else mat(vc, st, [[x] * sh[1] for _ in range(sh[0])]))]
    return f


def eye(vc, st, a, kw):
    n = conc(a[0])
    if not isinstance(n, int) or len(a) > 1:
        raise Unsupported("numpy.eye")
    return [(st, mat(vc, st, [[int(i == j) for j in range(n)] for i in range(n)]))]


def array(vc, st, a, kw):
    k, d = data(vc, st, a[0])
    if k == "s":
        raise Unsupported("numpy.array of a scalar")
    return [(st, build(vc, st, k, d))]


def attr(vc, st, v, name):
    k, d = data(vc, st, v)
    if name == "shape":
        return shape(vc, st, v)
    if name == "T":
        return v if k == "v" else mat(vc, st, [list(c) for c in zip(*d)])
    if name == "size":
        return len(d) if k == "v" else len(d) * len(d[0])
    if name == "ndim":
        return 1 if k == "v" else 2
    return None


def total(xs):
    r = 0
    for x in xs:
        r = n_add(r, x)
    return r


def method(vc, st, v, name, args, kw):
    """-> result list or None"""
    if name == "dot":
        return [(st, dot(vc, st, v, args[0]))]
    if name == "copy":
        return array(vc, st, [v], {})
    if name == "tolist":
        k, d = data(vc, st, v)
        return [(st, vc.new_list(st, d if k == "v" else [vc.new_list(st, r) for r in d]))]
    if name == "transpose" and not args:
        return [(st, attr(vc, st, v, "T"))]
    if name in ("flatten", "ravel") and not args:
        k, d = data(vc, st, v)
        return [(st, vec(vc, st, d if k == "v" else [x for r in d for x in r]))]
    if name == "sum":
        k, d = data(vc, st, v)
        ax = conc(kw.get("axis", args[0] if args else None)) if (args or kw) else None
        if k == "v":
            return [(st, total(d))]
        if ax is None:
            return [(st, total([x for r in d for x in r]))]
        return [(st, vec(vc, st, [total(r) for r in (d if ax == 1 else zip(*d))]))]
    return None


def index(vc, st, v, i):
    """v[i], v[i, j] with integers or slices; None if not an nd access handled here"""
    ix = i if isinstance(i, tuple) else (i,)
    if not any(isinstance(x, slice) for x in ix):
        return None
    k, d = data(vc, st, v)
    if len(ix) == 1:
        return build(vc, st, k, d[ix[0]])
    if k != "m":
        raise Unsupported("two indices into a vector")
    if isinstance(ix[0], slice) and isinstance(ix[1], slice):
        return mat(vc, st, [r[ix[1]] for r in d[ix[0]]])
    if isinstance(ix[0], slice):
        return vec(vc, st, [r[conc(ix[1])] for r in d[ix[0]]])
    return vec(vc, st, d[conc(ix[0])][ix[1]])


def assign_slice(vc, st, v, ix, val):
    k, d = data(vc, st, v)
    kv, dv = data(vc, st, val)
    rows = vc.items(st, v)
    if k == "v":
        pos = list(range(len(d)))[ix[0]]
        for n, p in enumerate(pos):
            vc.setitem(st, v, p, dv if kv == "s" else dv[n])
        return
    ri = list(range(len(d)))[ix[0]] if isinstance(ix[0], slice) else [conc(ix[0])]
    c = ix[1] if len(ix) > 1 else slice(None)
    ci = list(range(len(d[0])))[c] if isinstance(c, slice) else [conc(c)]
    for a, r in enumerate(ri):
        for b, q in enumerate(ci):
            if kv == "s":
                x = dv
            elif kv == "m":
                x = dv[a][b]
            else:
                x = dv[b] if (isinstance(c, slice)) else dv[a]
            vc.setitem(st, rows[r], q, x)


EXT.update({
    "numpy.zeros": const(0), "numpy.ones": const(1), "numpy.eye": eye, "numpy.identity": eye,
    "numpy.dot": lambda vc, st, a, kw: [(st, dot(vc, st, a[0], a[1]))], "numpy.matmul": lambda vc, st, a, kw: [(st, dot(vc, st, a[0], a[1]))],
    "numpy.array": array, "numpy.asarray": array, "numpy.transpose": lambda vc, st, a, kw: [(st, attr(vc, st, a[0], "T"))],
    "numpy.copy": array,
})
OPS = {ast.Add: n_add, ast.Sub: n_sub, ast.Mult: n_mul}
