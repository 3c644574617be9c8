"""pyvc - a deductive verifier for the Python subset used by most_queue.

The source of the functions under contract is parsed with `ast` from /repo on every run (nothing is
copied or re-written by hand), executed symbolically over z3 terms path by path, and every contract
clause becomes a proof obligation (a z3 validity query).  Loops over ranges with known bounds are
unrolled completely; all other loops are cut at an inductive invariant, found by Houdini from semantic
templates (independent of names and of the way the loop is written) and the clauses supplied by the
contract.  Calls to functions under contract use the contract; calls to other repository functions are
executed from their source (so an extracted helper is still seen).

Semantics: int -> mathematical integer, float -> mathematical real, exact; division by zero, a failed
index, None dereference etc. end the path as an exception (partial correctness unless a contract asks for
exception freedom).
"""
import ast
import os
from fractions import Fraction

import z3

REPO = os.environ.get("PYVC_REPO", "/repo")
NULL = -1


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------------------------------------- values
class Ref:
    """reference to an instance of a class kept in class heaps (field arrays indexed by reference)"""
    __slots__ = ("cls", "t")

    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def same(self, o):
        return isinstance(o, Ref) and o.cls == self.cls and same(self.t, o.t)

    def __repr__(self):
        return f"Ref({self.cls},{self.t})"


class Obj:
    """object with concrete identity"""
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid = oid
        self.cls = cls

    def same(self, o):
        return isinstance(o, Obj) and o.oid == self.oid


class Lst:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def same(self, o):
        return isinstance(o, Lst) and o.oid == self.oid


class FLst:
    """list stored in a field of a class-heap object: arrays <field>$a, <field>$lo, <field>$hi"""
    __slots__ = ("cls", "t", "field", "wrap")

    def __init__(self, cls, t, field, wrap):
        self.cls, self.t, self.field, self.wrap = cls, t, field, wrap

    def same(self, o):
        return isinstance(o, FLst) and o.cls == self.cls and o.field == self.field and same(self.t, o.t)


class Row:
    """row of a 2-D symbolic list"""
    __slots__ = ("lst", "idx")

    def __init__(self, lst, idx):
        self.lst, self.idx = lst, idx

    def same(self, o):
        return isinstance(o, Row) and self.lst.same(o.lst) and same(self.idx, o.idx)


class Opq:
    """opaque value; kind selects the assumed contract of its methods"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data

    def same(self, o):
        return isinstance(o, Opq) and o.kind == self.kind and self.data is o.data

    def __repr__(self):
        return f"Opq({self.kind})"


class FuncV:
    __slots__ = ("node", "mod", "cls", "closure", "name")

    def __init__(self, node, mod, cls=None, closure=None, name=None):
        self.node, self.mod, self.cls, self.closure, self.name = node, mod, cls, closure, name

    def same(self, o):
        return isinstance(o, FuncV) and o.node is self.node

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class BoundV:
    __slots__ = ("recv", "fn")

    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn

    def same(self, o):
        return self is o


class ClsV:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def same(self, o):
        return isinstance(o, ClsV) and o.info is self.info


class ExtV:
    """external name such as math.pow or np.argmin"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def same(self, o):
        return isinstance(o, ExtV) and o.name == self.name


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def same(self, o):
        return self is o


class SeqView:
    """lazy iterable: length term + element function (state, index) -> value"""
    __slots__ = ("n", "elem")

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def same(self, o):
        return self is o


class Undef:
    def same(self, o):
        return isinstance(o, Undef)


UNDEF = Undef()


class MaybeDef:
    """local assigned on some iterations of a loop only: flag says whether it is assigned"""
    __slots__ = ("flag", "val")

    def __init__(self, flag, val):
        self.flag, self.val = flag, val

    def same(self, o):
        return isinstance(o, MaybeDef) and same(self.flag, o.flag) and same(self.val, o.val)


def isz(v):
    return isinstance(v, z3.ExprRef)


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if hasattr(a, "same"):
        return a.same(b)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is type(b) or (is_pynum(a) and is_pynum(b)):
        return a == b
    return False


def is_pynum(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def is_num(v):
    return is_pynum(v) or isinstance(v, z3.ArithRef) or isinstance(v, bool)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def zn(v):
    """to z3 arithmetic"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported(f"number expected, got {v!r}")


def zr(v):
    v = zn(v)
    if z3.is_int(v):
        if z3.is_int_value(v):
            return z3.RealVal(v.as_long())
        return z3.ToReal(v)
    return v


def zi(v):
    v = zn(v)
    if z3.is_real(v):
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return z3.IntVal(v.numerator_as_long())
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        raise Unsupported("integer expected, got real term")
    return v


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def conc(v):
    """python value of a term when it is a literal"""
    if isz(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return f
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        s = z3.simplify(v)
        if z3.is_int_value(s) or z3.is_rational_value(s) or z3.is_true(s) or z3.is_false(s):
            return conc(s)
    return v


def both(a, b):
    a, b = zn(a), zn(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return zr(a), zr(b)


def normf(f):
    return f


def n_add(a, b):
    if is_pynum(a) and is_pynum(b):
        return a + b
    if is_pynum(a) and a == 0 and isinstance(b, z3.ArithRef):
        return zr(b) if isinstance(a, Fraction) else b
    if is_pynum(b) and b == 0 and isinstance(a, z3.ArithRef):
        return zr(a) if isinstance(b, Fraction) else a
    x, y = both(a, b)
    return x + y


def n_sub(a, b):
    if is_pynum(a) and is_pynum(b):
        return a - b
    if is_pynum(b) and b == 0 and isinstance(a, z3.ArithRef):
        return zr(a) if isinstance(b, Fraction) else a
    x, y = both(a, b)
    return x - y


def n_mul(a, b):
    if is_pynum(a) and is_pynum(b):
        return a * b
    x, y = both(a, b)
    if is_pynum(a) and a == 1:
        return y
    if is_pynum(b) and b == 1:
        return x
    if (is_pynum(a) and a == 0) or (is_pynum(b) and b == 0):
        return 0 if z3.is_int(x) else Fraction(0)
    return x * y


def n_neg(a):
    if is_pynum(a):
        return -a
    return -zn(a)


def n_div(a, b):
    """caller has already dealt with b == 0"""
    if is_pynum(a) and is_pynum(b):
        return Fraction(a) / Fraction(b)
    if is_pynum(b):
        if b == 1:
            return zr(a)
        return zr(a) * z3.RealVal(1 / Fraction(b))
    return zr(a) / zr(b)


def n_cmp(op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_pynum(a) and is_pynum(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    x, y = both(a, b)
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
            "==": lambda: x == y, "!=": lambda: x != y}[op]()


def b_and(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return z3.And(*[zb(x) for x in xs])


def b_or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*[zb(x) for x in xs])


def b_not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_imp(a, b):
    return b_or(b_not(a), b)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    n = f"{prefix}!{_fresh[0]}"
    if not isinstance(sort, str):
        return z3.Const(n, sort)
    if sort == "int":
        return z3.Int(n)
    if sort == "real":
        return z3.Real(n)
    if sort == "bool":
        return z3.Bool(n)
    return z3.Const(n, sort)


SORTS = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}


def sort_of_wrap(w):
    if w in SORTS:
        return SORTS[w]
    if w.startswith("ref:") or w.startswith("opt:"):
        return z3.IntSort()
    if w.startswith("row:"):
        return z3.ArraySort(z3.IntSort(), sort_of_wrap(w[4:]))
    raise Unsupported("wrap " + w)


def wrap_term(w, t):
    if w in SORTS:
        return t
    if w.startswith("ref:") or w.startswith("opt:"):
        return Ref(w[4:], t)
    raise Unsupported("wrap " + w)


def unwrap(w, v):
    if w == "int":
        return zi(v)
    if w == "real":
        return zr(v)
    if w == "bool":
        return zb(v)
    if w.startswith("ref:") or w.startswith("opt:"):
        if v is None:
            return z3.IntVal(NULL)
        if isinstance(v, Ref):
            return zi(v.t)
        raise Unsupported(f"store {v!r} into {w}")
    raise Unsupported("unwrap " + w)


def infer_wrap(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return "bool"
    if isinstance(v, int) or (isinstance(v, z3.ArithRef) and z3.is_int(v)):
        return "int"
    if isinstance(v, (Fraction,)) or isinstance(v, z3.ArithRef):
        return "real"
    if isinstance(v, Ref):
        return "opt:" + v.cls
    raise Unsupported(f"cannot infer sort of {v!r}")


# ----------------------------------------------------------------------------------------------- modules
class ClassInfo:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods = {}
        self.attrs = {}
        self.static = set()
        self.props = set()
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")
                    if dn in ("staticmethod", "classmethod"):
                        self.static.add(s.name)
                    if dn == "property":
                        self.props.add(s.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value

    def bases(self, vc):
        out = []
        for b in self.node.bases:
            try:
                v = vc.resolve_static(b, self.mod)
            except Unsupported:
                continue
            if isinstance(v, ClsV):
                out.append(v.info)
        return out

    def find(self, vc, name):
        if name in self.methods:
            return self, self.methods[name]
        for b in self.bases(vc):
            r = b.find(vc, name)
            if r:
                return r
        return None

    def find_attr(self, vc, name):
        if name in self.attrs:
            return self, self.attrs[name]
        for b in self.bases(vc):
            r = b.find_attr(vc, name)
            if r:
                return r
        return None

    def isa(self, vc, name):
        return self.name == name or any(b.isa(vc, name) for b in self.bases(vc))


class Module:
    cache = {}

    def __init__(self, rel):
        self.rel = rel
        self.path = os.path.join(REPO, rel)
        with open(self.path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.scan(self.tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    d = os.path.dirname(self.rel).split("/")
                    d = d[:len(d) - (s.level - 1)]
                    base = ".".join(d + ([base] if base else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self.scan(s.body)

    @staticmethod
    def get(rel):
        if rel not in Module.cache:
            Module.cache[rel] = Module(rel)
        return Module.cache[rel]

    @staticmethod
    def by_dotted(name):
        for rel in (name.replace(".", "/") + ".py", name.replace(".", "/") + "/__init__.py"):
            if os.path.exists(os.path.join(REPO, rel)):
                return Module.get(rel)
        return None


# ----------------------------------------------------------------------------------------------- state
class St:
    """symbolic state; forks share nothing mutable"""

    def __init__(self):
        self.pc = []
        self.heap = {}      # oid -> dict
        self.ch = {}        # cls -> {field: z3 array}
        self.wr = {}        # cls -> {field: wrap}
        self.cells = {}     # misc cells: ('cattr', cls, name), ('ghost', name), ('alloc', cls), ('mod',..)
        self.env = {}
        self.trace = []

    def fork(self):
        s = St()
        s.pc = list(self.pc)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.ch = {k: dict(v) for k, v in self.ch.items()}
        s.wr = self.wr
        s.cells = dict(self.cells)
        s.env = dict(self.env)
        s.trace = list(self.trace)
        return s

    def assume(self, c):
        c = zb(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

    def g(self, name):
        return self.cells[("ghost", name)]

    def setg(self, name, v):
        self.cells[("ghost", name)] = v


class Obl:
    __slots__ = ("name", "hyps", "goal", "status", "backend", "time", "model", "where", "opts")

    def __init__(self, name, hyps, goal, where="", opts=None):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where
        self.status, self.backend, self.time, self.model = None, None, 0.0, None
        self.opts = opts or {}


RET, BRK, CNT, EXC = "return", "break", "continue", "raise"


def forall_pat(vs, body, pat):
    """forall with a pattern; without one when the pattern is not admissible (it contains connectives)"""
    todo, ok = [pat], z3.is_app(pat) and pat.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)
    while todo and ok:
        u = todo.pop()
        if z3.is_app(u) and (z3.is_bool(u) or u.decl().kind() == z3.Z3_OP_ITE):
            ok = False
        todo.extend(u.children())
    try:
        return z3.ForAll(vs, body, patterns=[pat]) if ok else z3.ForAll(vs, body)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)
