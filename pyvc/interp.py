"""Symbolic execution of the repository's functions and obligation generation."""
import ast
import os
import time
from fractions import Fraction

import z3

from .core import *
from .core import Obl, St
from . import loops
from . import nd
from . import prove

CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

IGNORED_CALLS = {"print", "init", "colorama.init"}


class VC:
    def __init__(self, heap_classes=(), schemas=None, contracts=None, name="", feas_ms=30, loop_cands=None,
                 hooks=None, max_paths=4000, div_check=False, opts=None):
        self.heap_classes = set(heap_classes)       # classes kept in class heaps
        self.schemas = schemas or {}                # cls -> {field: wrap}
        self.contracts = contracts or {}            # qualified name -> callable(vc, st, recv, args, kwargs)
        self.hooks = hooks or {}                    # qualified name -> callable(vc, pre, post, recv, args, result)
        self.name = name
        self.obls = []
        self.feas_ms = feas_ms
        self.loop_cands = loop_cands or []          # callable(vc, entry, st, k, lo) -> [(name, z3)]
        self.inv_cands = []                         # callable(vc, st) -> [(name, z3)]
        self.max_paths = max_paths
        self.npaths = 0
        self.div_check = div_check
        self.muted = 0
        self.opts = opts or {}
        self.oid = 0
        self.used = {}                              # qualified function -> 'inlined' | 'contract'
        self.touched = set()
        self.depth = 0
        self.mod_globals = {}
        self.ext = dict(EXT)
        self.feas_cache = {}
        self.nq = 0
        self.store_hooks = {}                       # ('ch', cls, field) or ('lst', tag) -> fn(vc, st, old, idx, new_arr, val)
        self.lemmas = []
        self.pend = []                              # exceptional exits of inlined calls, collected by block()
        self.assumptions = set()

    # ------------------------------------------------------------------ helpers
    def new_oid(self):
        self.oid += 1
        return self.oid

    def new_obj(self, st, cls, fields=None):
        o = Obj(self.new_oid(), cls)
        st.heap[o.oid] = dict(fields or {})
        return o

    def new_list(self, st, items):
        l = Lst(self.new_oid())
        st.heap[l.oid] = {"k": "c", "items": tuple(items)}
        return l

    def new_slist(self, st, wrap, name="lst", length=None, lo=None, tag=None, arr=None):
        l = Lst(self.new_oid())
        lo = z3.IntVal(0) if lo is None else lo
        if length is None:
            hi = fresh(name + "_hi", "int")
            st.assume(hi >= lo)
        else:
            hi = zi(n_add(lo, length))
        if arr is None:
            arr = fresh(name, z3.ArraySort(z3.IntSort(), sort_of_wrap(wrap)))
        st.heap[l.oid] = {"k": "s", "arr": arr, "lo": lo, "hi": hi, "w": wrap, "tag": tag}
        return l

    def feasible(self, st, cond=None):
        if cond is False:
            return False
        cs = [c for c in st.pc]
        if cond is not None and cond is not True:
            cs.append(cond)
        self.nq += 1
        s = prove.solver(self.feas_ms)
        s.add(*cs)
        return s.check() != z3.unsat

    def split(self, st, cond):
        """-> list of (state, truth)"""
        c = conc(cond)
        if isinstance(c, bool):
            return [(st, c)]
        out = []
        if self.feasible(st, c):
            t = st.fork()
            t.assume(c)
            out.append((t, True))
        nc = b_not(c)
        if self.feasible(st, nc):
            f = st.fork() if out else st
            f.assume(nc)
            out.append((f, False))
        self.npaths += len(out) - 1
        if self.npaths > self.max_paths:
            raise Unsupported("too many paths")
        return out

    def must(self, st, cond):
        return not self.feasible(st, b_not(conc(cond)))

    def check(self, st, goal, name, opts=None):
        """record a proof obligation"""
        if self.muted:
            return
        goal = conc(goal)
        if goal is True:
            goal = z3.BoolVal(True)
        self.obls.append(Obl(name, list(st.pc), zb(goal), self.name, opts))

    # ------------------------------------------------------------------ name resolution
    def resolve_name(self, name, mod, st=None):
        if ("mod", mod.rel, name) in (st.cells if st else ()):
            return st.cells[("mod", mod.rel, name)]
        if name in mod.funcs:
            return FuncV(mod.funcs[name], mod, None, None, name)
        if name in mod.classes:
            return ClsV(mod.classes[name])
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                m = Module.by_dotted(imp[1])
                if m:
                    return m
                return ExtV({"np": "numpy"}.get(imp[1], imp[1]))
            m = Module.by_dotted(imp[1])
            if m:
                sub = Module.by_dotted(imp[1] + "." + imp[2])
                if imp[2] in m.funcs or imp[2] in m.classes or imp[2] in m.consts or imp[2] in m.imports:
                    return self.resolve_name(imp[2], m, st)
                if sub:
                    return sub
            sub = Module.by_dotted(imp[1] + "." + imp[2]) if imp[1] else Module.by_dotted(imp[2])
            if sub:
                return sub
            return ExtV(imp[1] + "." + imp[2])
        if name in mod.consts:
            key = (mod.rel, name)
            if key not in self.mod_globals:
                s0 = St()
                r = self.ev(mod.consts[name], s0, mod, {})
                if len(r) != 1:
                    raise Unsupported("module constant " + name)
                v = r[0][1]
                if isinstance(v, (Obj, Lst)):
                    raise Unsupported("mutable module constant " + name)
                self.mod_globals[key] = v
            return self.mod_globals[key]
        if name in BUILTINS:
            return ExtV(name)
        raise Unsupported(f"name {name} in {mod.rel}")

    def resolve_static(self, e, mod):
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id, mod)
        if isinstance(e, ast.Attribute):
            v = self.resolve_static(e.value, mod)
            if isinstance(v, Module):
                return self.resolve_name(e.attr, v)
            if isinstance(v, ExtV):
                return ExtV(v.name + "." + e.attr)
        raise Unsupported("static " + ast.dump(e))

    def func(self, rel, name):
        m = Module.get(rel)
        if "." in name:
            c, f = name.split(".")
            info = m.classes[c]
            r = info.find(self, f)
            if r is None:
                raise KeyError(name)
            return FuncV(r[1], r[0].mod, r[0], None, f)
        return FuncV(m.funcs[name], m, None, None, name)

    def cls(self, rel, name):
        return Module.get(rel).classes[name]

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, mod=None, cls=None):
        """-> list of (state, value); mod/cls give the lexical context, the env is st.env"""
        if mod is None:
            mod = st.env["$mod"]
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, st, mod)

    def evs(self, es, st, mod):
        """evaluate several expressions left to right -> list of (state, [values])"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, mod):
                        nxt.append((s2, vs + list(self.items(s2, v))))
                else:
                    for s2, v in self.ev(e, s, mod):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev_Constant(self, e, st, mod):
        v = e.value
        if isinstance(v, float):
            if v == float("inf"):
                return [(st, z3.Real("INF"))]
            v = Fraction(repr(v))
        elif isinstance(v, complex):
            raise Unsupported("complex constant")
        return [(st, v)]

    def ev_JoinedStr(self, e, st, mod):
        return [(st, Opq("str"))]

    def ev_Name(self, e, st, mod):
        if e.id in st.env:
            v = st.env[e.id]
            if v is UNDEF:
                raise Unsupported("possibly undefined local " + e.id)
            if isinstance(v, MaybeDef):
                self.check(st, v.flag, f"local {e.id} is assigned before it is read")
                st.assume(v.flag)
                st.env[e.id] = v = v.val
            return [(st, v)]
        return [(st, self.resolve_name(e.id, mod, st))]

    def ev_Tuple(self, e, st, mod):
        return [(s, tuple(vs)) for s, vs in self.evs(e.elts, st, mod)]

    def ev_List(self, e, st, mod):
        return [(s, self.new_list(s, vs)) for s, vs in self.evs(e.elts, st, mod)]

    def ev_Dict(self, e, st, mod):
        out = []
        for s, ks in self.evs(e.keys, st, mod):
            for s2, vs in self.evs(e.values, s, mod):
                d = Lst(self.new_oid())
                s2.heap[d.oid] = {"k": "d", **{("key", k): v for k, v in zip(ks, vs)}}
                out.append((s2, d))
        return out

    def ev_UnaryOp(self, e, st, mod):
        out = []
        for s, v in self.ev(e.operand, st, mod):
            if isinstance(e.op, ast.USub):
                out.append((s, nd.lift(self, s, n_mul, v, -1) if nd.is_nd(self, s, v) else n_neg(v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                out.append((s, b_not(self.truth(s, v))))
            else:
                raise Unsupported("unary op")
        return out

    def truth(self, st, v):
        if is_bool(v):
            return v
        if v is None:
            return False
        if is_pynum(v):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (Lst, FLst)):
            return n_cmp("!=", self.length(st, v), 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            return v.t != NULL
        if isinstance(v, Obj):
            r = v.cls.find(self, "__len__")
            if r:
                raise Unsupported("truth via __len__")
            return True
        if isinstance(v, (Opq, ClsV, FuncV, BoundV)):
            return True
        raise Unsupported(f"truth of {v!r}")

    def ev_BoolOp(self, e, st, mod):
        """short-circuit; stays unforked when the right operands are pure and single-path"""
        isand = isinstance(e.op, ast.And)

        def go(es, s):
            if len(es) == 1:
                return self.ev(es[0], s, mod)
            out = []
            for s1, v in self.ev(es[0], s, mod):
                t = conc(self.truth(s1, v))
                if isinstance(t, bool):
                    if t != isand:
                        out.append((s1, v))
                    else:
                        out.extend(go(es[1:], s1))
                    continue
                # try pure evaluation of the rest
                probe = s1.fork()
                probe.assume(t if isand else b_not(t))
                n0 = len(self.obls)
                if not self.feasible(probe):
                    out.append((s1, (not isand)) if is_bool(v) else (s1, v))
                    continue
                rest = go(es[1:], probe)
                if len(rest) == 1 and is_bool(v) and is_bool(rest[0][1]) and self.unchanged(probe, rest[0][0]) \
                        and len(self.obls) == n0:
                    r = rest[0][1]
                    out.append((s1, b_and(t, r) if isand else b_or(t, r)))
                else:
                    out.extend(rest)
                    other = s1.fork()
                    other.assume(b_not(t) if isand else t)
                    if self.feasible(other):
                        out.append((other, (not isand) if is_bool(v) else v))
            return out
        return go(e.values, st)

    def unchanged(self, a, b):
        if len(a.pc) != len(b.pc):
            return False
        return not loops.diff_cells(a, b)

    def ev_IfExp(self, e, st, mod):
        out = []
        for s, c in self.ev(e.test, st, mod):
            for s2, t in self.split(s, self.truth(s, c)):
                out.extend(self.ev(e.body if t else e.orelse, s2, mod))
        return out

    def ev_Compare(self, e, st, mod):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, mod):
            r = True
            for op, a, b in zip(e.ops, vs, vs[1:]):
                r = b_and(r, self.compare(s, op, a, b))
            out.append((s, r))
        return out

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)) or ((isinstance(op, (ast.Eq, ast.NotEq))) and (a is None or b is None)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if b is not None and a is None:
                a, b = b, a
            if b is None:
                if a is None:
                    r = True
                elif isinstance(a, Ref):
                    r = conc(zi(a.t) == NULL)
                elif isinstance(a, OptV):
                    r = b_not(a.some)
                else:
                    r = False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = conc(zi(a.t) == zi(b.t)) if a.cls == b.cls else False
            elif is_bool(a) and is_bool(b):
                r = conc(zb(a) == zb(b))
            elif isinstance(a, (Obj, Lst)) and isinstance(b, (Obj, Lst)):
                r = a.same(b)
            elif isinstance(a, ClsV) or isinstance(b, ClsV):
                r = same(a, b)
            else:
                raise Unsupported("is")
            return b_not(r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Lst) and self.lcell(st, b)["k"] == "m":
                r = z3.Select(self.lcell(st, b)["dom"], zi(a))
                return b_not(r) if isinstance(op, ast.NotIn) else r
            items = self.items(st, b)
            r = b_or(*[self.compare(st, ast.Eq(), a, x) for x in items]) if items else False
            return b_not(r) if isinstance(op, ast.NotIn) else r
        o = CMP[type(op)]
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(a, OptV):
                a = a.val
            if isinstance(b, OptV):
                b = b.val
        if is_num(a) and is_num(b):
            return n_cmp(o, a, b)
        if o in ("==", "!="):
            if isinstance(a, str) and isinstance(b, str):
                r = a == b
            elif is_bool(a) and is_bool(b):
                r = conc(zb(a) == zb(b))
            elif is_bool(a) and is_num(b) or is_num(a) and is_bool(b):
                r = conc(zn(a) == zn(b))
            elif isinstance(a, Ref) and isinstance(b, Ref) and a.cls == b.cls:
                r = conc(zi(a.t) == zi(b.t))
            elif isinstance(a, (Lst, FLst)) and isinstance(b, (Lst, FLst)):
                ia, ib = self.items(st, a), self.items(st, b)
                r = len(ia) == len(ib) and b_and(*[self.compare(st, ast.Eq(), x, y) for x, y in zip(ia, ib)])
            elif isinstance(a, str) or isinstance(b, str):
                r = False
            elif isinstance(a, Opq) or isinstance(b, Opq):
                if same(a, b):
                    r = True
                else:
                    raise Unsupported("== on opaque")
            else:
                raise Unsupported(f"== on {a!r}, {b!r}")
            return b_not(r) if o == "!=" else r
        raise Unsupported(f"compare {a!r} {o} {b!r}")

    def ev_BinOp(self, e, st, mod):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st, mod):
            out.extend(self.binop(s, e.op, a, b))
        return out

    def binop(self, st, op, a, b):
        if isinstance(a, OptV):
            a = a.val
        if isinstance(b, OptV):
            b = b.val
        if isinstance(op, ast.MatMult):
            return [(st, nd.dot(self, st, a, b))]
        if nd.is_nd(self, st, a) or nd.is_nd(self, st, b):
            if type(op) in nd.OPS:
                return [(st, nd.lift(self, st, nd.OPS[type(op)], a, b))]
            if isinstance(op, (ast.Div, ast.Pow)):
                return [(st, nd.lift(self, st, lambda x, y: self.binop(st, op, x, y)[0][1], a, b))]
        if isinstance(op, ast.Add):
            if isinstance(a, (Opq, str)) or isinstance(b, (Opq, str)):
                if isinstance(a, str) and isinstance(b, str):
                    return [(st, a + b)]
                return [(st, Opq("str"))]
            if isinstance(a, (Lst, FLst)) and isinstance(b, (Lst, FLst)):
                return [(st, self.new_list(st, list(self.items(st, a)) + list(self.items(st, b))))]
            if isinstance(a, tuple) and isinstance(b, tuple):
                return [(st, a + b)]
            return [(st, n_add(a, b))]
        if isinstance(op, ast.Sub):
            return [(st, n_sub(a, b))]
        if isinstance(op, ast.Mult):
            if isinstance(a, (Lst, FLst)) and is_num(b):
                return [(st, self.repeat(st, a, b))]
            if isinstance(b, (Lst, FLst)) and is_num(a):
                return [(st, self.repeat(st, b, a))]
            if isinstance(a, (str, Opq)):
                return [(st, Opq("str"))]
            return [(st, n_mul(a, b))]
        if isinstance(op, ast.Div):
            return self.div(st, a, b)
        if isinstance(op, ast.Pow):
            return self.power(st, a, b)
        if isinstance(op, ast.Mod):
            if isinstance(a, (str, Opq)):
                return [(st, Opq("str"))]
            if is_pynum(a) and is_pynum(b):
                return [(st, a % b)]
            x, y = both(a, b)
            if z3.is_int(x):
                st.assume(y != 0)
                return [(st, x % y)]     # z3 mod agrees with Python for a positive divisor
            raise Unsupported("real %")
        if isinstance(op, ast.FloorDiv):
            if is_pynum(a) and is_pynum(b):
                return [(st, a // b)]
            x, y = both(a, b)
            if z3.is_int(x):
                if not self.must(st, y > 0):
                    raise Unsupported("// by non-positive")
                return [(st, x / y)]
        raise Unsupported("binop " + type(op).__name__)

    def div(self, st, a, b):
        b = conc(b) if isz(b) else b
        if is_pynum(b) and b == 0:
            return [(self.raised(st, "ZeroDivisionError"), None)]
        if not is_pynum(b):
            nz = zn(b) != 0
            if self.opts.get("div_split"):
                if not self.must(st, nz):
                    self.note_exc(st, b_not(nz), "ZeroDivisionError")
            elif self.div_check:
                self.check(st, nz, "divisor is non-zero")
            st.assume(nz)
        return [(st, n_div(a, b))]

    def raised(self, st, name):
        st.cells[("exc",)] = name
        raise PathExc(st, name)

    def note_exc(self, st, cond, name):
        self.check(st, b_not(cond), "no " + name)

    def power(self, st, a, b):
        b = conc(b)
        if is_pynum(b) and b == int(b) and abs(b) <= 12:
            n = int(b)
            if is_pynum(a) and (a != 0 or n >= 0):
                return [(st, Fraction(a) ** n if n < 0 else a ** n)]
            if n == 0:
                return [(st, 1)]
            r = a
            for _ in range(abs(n) - 1):
                r = n_mul(r, a)
            if n < 0:
                return self.div(st, 1, r)
            return [(st, r)]
        if is_pynum(b) and b == Fraction(1, 2):
            return self.call_ext("math.sqrt", st, [a], {})
        t = self.pow_term(st, a, b)
        if isz(t) and t.decl().eq(POWI):
            x = t.arg(0)
            st.assume(z3.And(z3.Implies(x > 0, t > 0), z3.Implies(x != 0, t != 0), z3.Implies(t.arg(1) == 0, t == 1)))
        elif isz(t) and t.decl().eq(POWR):
            st.assume(z3.Implies(t.arg(0) > 0, t > 0))
        return [(st, t)]

    def pow_term(self, st, a, b):
        if is_pynum(a) and a == 1:
            return 1
        if isinstance(b, z3.ArithRef) and z3.is_int(b) or is_pynum(b) and b == int(b):
            if isinstance(b, z3.ArithRef):
                # normalise pow(x, e + c)
                return POWI(zr(a), b)
            return POWI(zr(a), zi(b))
        return POWR(zr(a), zr(b))

    def repeat(self, st, l, n):
        n = conc(n)
        items = self.items(st, l)
        if is_pynum(n) and n <= 64:
            return self.new_list(st, list(items) * max(0, int(n)))
        if len(items) != 1:
            raise Unsupported("symbolic list repetition")
        v = items[0]
        if isinstance(v, (Lst, FLst, Row)):
            raise Unsupported("repetition of a mutable element")
        w = infer_wrap(v)
        if w == "int":
            w = "real" if not self.opts.get("int_lists") else "int"
        arr = z3.K(z3.IntSort(), unwrap(w, v))
        n = zi(n)
        return self.new_slist(st, w, "rep", length=z3.If(n > 0, n, 0), arr=arr)

    # ---- lists
    def lcell(self, st, l):
        """uniform access: returns (get, set) over dict with k, items | arr, lo, hi, w"""
        if isinstance(l, Lst):
            return st.heap[l.oid]
        if isinstance(l, FLst):
            c = st.ch[l.cls]
            t = l.t
            return {"k": "s", "arr": z3.Select(c[l.field + "$a"], t), "lo": z3.Select(c[l.field + "$lo"], t),
                    "hi": z3.Select(c[l.field + "$hi"], t), "w": l.wrap, "tag": None}
        raise Unsupported(f"list expected: {l!r}")

    def lset(self, st, l, **kw):
        if isinstance(l, Lst):
            d = dict(st.heap[l.oid])
            d.update(kw)
            st.heap[l.oid] = d
            return
        c = st.ch[l.cls]
        for k, f in (("arr", "$a"), ("lo", "$lo"), ("hi", "$hi")):
            if k in kw:
                c[l.field + f] = z3.Store(c[l.field + f], l.t, kw[k])

    def length(self, st, l):
        if isinstance(l, (tuple, list, str)):
            return len(l)
        if isinstance(l, Row):
            n = self.lcell(st, l.lst).get("rowlen")
            if n is None:
                raise Unsupported("row length")
            return n
        if isinstance(l, SeqView):
            return l.n
        if isinstance(l, RangeV):
            if l.step == 1:
                d = n_sub(l.hi, l.lo)
                if is_pynum(d):
                    return max(0, d)
                return z3.If(zi(d) > 0, zi(d), 0)
            if all(is_pynum(x) for x in (l.lo, l.hi, l.step)):
                return len(range(l.lo, l.hi, l.step))
            raise Unsupported("len of stepped range")
        d = self.lcell(st, l)
        if d["k"] == "c":
            return len(d["items"])
        if d["k"] == "s":
            return conc(d["hi"] - d["lo"])
        if d["k"] == "d":
            return len([k for k in d if isinstance(k, tuple)])
        raise Unsupported("len")

    def items(self, st, v):
        """concrete element list of a value or Unsupported"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, (Lst, FLst)):
            d = self.lcell(st, v)
            if d["k"] == "c":
                return list(d["items"])
            if d["k"] == "s":
                n = conc(d["hi"] - d["lo"])
                if isinstance(n, int) and n <= 64:
                    return [self.getitem(st, v, i) for i in range(n)]
        if isinstance(v, RangeV) and all(is_pynum(conc(x)) for x in (v.lo, v.hi, v.step)):
            return list(range(conc(v.lo), conc(v.hi), conc(v.step)))
        if isinstance(v, Row):
            n = self.lcell(st, v.lst).get("rowlen")
            if isinstance(n, int):
                return [self.getitem(st, v, i) for i in range(n)]
        if isinstance(v, SeqView) and isinstance(conc(v.n), int):
            return [v.elem(st, i) for i in range(conc(v.n))]
        raise Unsupported(f"concrete sequence expected: {v!r}")

    def getitem(self, st, v, i):
        if isinstance(v, OptV):
            v = v.val
        if isinstance(v, (tuple, list)):
            i = conc(i)
            if isinstance(i, int):
                if not -len(v) <= i < len(v):
                    self.raised(st, "IndexError")
                return v[i]
            raise Unsupported("symbolic index into tuple")
        if isinstance(v, SeqView):
            return v.elem(st, i)
        if isinstance(v, RangeV):
            return n_add(v.lo, n_mul(i, v.step))
        if isinstance(v, Opq) and v.kind == "dist_params":
            return fresh("param", "real")
        if isinstance(v, Opq) and "getitem:" + v.kind in self.ext:
            return self.ext["getitem:" + v.kind](self, st, v, i)
        if isinstance(v, Row):
            w = self.lcell(st, v.lst)["w"][4:]
            d = self.lcell(st, v.lst)
            row = z3.Select(d["arr"], zi(n_add(d["lo"], v.idx)))
            return wrap_term(w, z3.Select(row, zi(i)))
        d = self.lcell(st, v)
        if d["k"] == "m":
            self.in_map(st, d, i)
            return wrap_term(d["w"], z3.Select(d["arr"], zi(i)))
        i = conc(i)
        if d["k"] == "d":
            if ("key", i) in d:
                return d[("key", i)]
            self.raised(st, "KeyError")
        if d["k"] == "c":
            its = d["items"]
            if isinstance(i, Fraction) and i.denominator == 1:
                i = int(i)
            if isinstance(i, int):
                if not -len(its) <= i < len(its):
                    self.raised(st, "IndexError")
                return its[i]
            if isz(i):
                # case split over a short list
                if all(is_num(x) for x in its) and its:
                    st.assume(z3.And(i >= 0, i < len(its)))
                    r = zn(its[-1])
                    for k in range(len(its) - 2, -1, -1):
                        x, y = both(its[k], r)
                        r = z3.If(i == k, x, y)
                    return r
                if all(isinstance(x, Obj) for x in its):
                    raise Unsupported("symbolic index into object list")
            raise Unsupported("symbolic index into concrete list")
        # symbolic list
        if isinstance(i, int) and i < 0:
            ii = d["hi"] + i
        else:
            ii = zi(n_add(d["lo"], i))
        if self.opts.get("bounds"):
            ok = z3.And(ii >= d["lo"], ii < d["hi"])
            self.check(st, ok, "index in bounds")
            st.assume(ok)
        elif not (isinstance(i, int) and i >= 0 and self.opts.get("trust_idx")):
            st.assume(z3.And(ii >= d["lo"], ii < d["hi"]))
        w = d["w"]
        if w.startswith("row:"):
            return Row(v, n_sub(ii, d["lo"]))
        if d["arr"] is None:      # identity list of references
            return Ref(w[4:], z3.simplify(ii))
        if w.startswith("obj:"):
            raise Unsupported("object list")
        return wrap_term(w, z3.Select(d["arr"], ii))

    def in_map(self, st, d, i):
        """a dictionary with integer keys: arr holds the values, dom the keys present"""
        there = z3.Select(d["dom"], zi(i))
        self.check(st, there, "the key is in the dictionary")
        st.assume(there)

    def del_map(self, st, v, d, i):
        self.lset(st, v, dom=z3.Store(d["dom"], zi(i), z3.BoolVal(False)))

    def setitem(self, st, v, i, val):
        if isinstance(v, Row):
            d = self.lcell(st, v.lst)
            w = d["w"][4:]
            at = zi(n_add(d["lo"], v.idx))
            row = z3.Select(d["arr"], at)
            self.lset(st, v.lst, arr=z3.Store(d["arr"], at, z3.Store(row, zi(i), unwrap(w, val))))
            return
        d = self.lcell(st, v)
        if d["k"] == "m":
            self.lset(st, v, arr=z3.Store(d["arr"], zi(i), unwrap(d["w"], val)), dom=z3.Store(d["dom"], zi(i), z3.BoolVal(True)))
            return
        i = conc(i)
        if d["k"] == "d":
            self.lset(st, v, **{})
            dd = dict(st.heap[v.oid])
            dd[("key", i)] = val
            st.heap[v.oid] = dd
            return
        if d["k"] == "c":
            its = list(d["items"])
            if isinstance(i, Fraction) and i.denominator == 1:
                i = int(i)
            if isinstance(i, int):
                if not -len(its) <= i < len(its):
                    self.raised(st, "IndexError")
                its[i] = val
            else:
                st.assume(z3.And(i >= 0, i < len(its)))
                for k in range(len(its)):
                    x, y = both(val, its[k])
                    its[k] = z3.If(i == k, x, y)
            self.lset(st, v, items=tuple(its))
            return
        if isinstance(i, int) and i < 0:
            ii = d["hi"] + i
        else:
            ii = zi(n_add(d["lo"], i))
        if self.opts.get("bounds"):
            ok = z3.And(ii >= d["lo"], ii < d["hi"])
            self.check(st, ok, "index in bounds")
        st.assume(z3.And(ii >= d["lo"], ii < d["hi"]))
        w = d["w"]
        if w.startswith("row:"):
            if isinstance(val, Row) and val.lst.same(v) and same(conc(zn(val.idx)), conc(zn(i))):
                return
            if isinstance(val, Row):
                if not self.must(st, z3.And(zn(val.idx) == zn(i))) or not val.lst.same(v):
                    raise Unsupported("aliasing row store")
                return
            its = self.items(st, val)
            row = z3.Select(d["arr"], ii)
            for k, x in enumerate(its):
                row = z3.Store(row, k, unwrap(w[4:], x))
            new = row
        else:
            new = unwrap(w, val)
        if d["arr"] is None:
            raise Unsupported("store into identity list")
        na = z3.Store(d["arr"], ii, new)
        self.lset(st, v, arr=na)
        hk = self.store_hooks.get(("lst", d.get("tag")))
        if hk:
            hk(self, st, d["arr"], ii, na, new)

    def ev_Subscript(self, e, st, mod):
        out = []
        if isinstance(e.slice, ast.Slice):
            for s, v in self.ev(e.value, st, mod):
                lo, hi = e.slice.lower, e.slice.upper
                if e.slice.step is not None:
                    raise Unsupported("slice step")
                for s2, bs in self.evs([x for x in (lo, hi) if x is not None], s, mod):
                    bs = [conc(b) for b in bs]
                    l = bs.pop(0) if lo is not None else None
                    h = bs.pop(0) if hi is not None else None
                    if nd.is_nd(self, s2, v):
                        out.append((s2, nd.index(self, s2, v, slice(l, h))))
                        continue
                    its = self.items(s2, v)
                    r = its[l:h]
                    out.append((s2, tuple(r) if isinstance(v, tuple) else self.new_list(s2, r)))
            return out
        for s, (v, i) in self.evs([e.value, e.slice], st, mod):
            if nd.is_nd(self, s, v):
                r = nd.index(self, s, v, i)
                if r is not None:
                    out.append((s, r))
                    continue
            if isinstance(i, tuple) and isinstance(v, Lst):
                x = v
                for k in i:
                    x = self.getitem(s, x, k)
                out.append((s, x))
                continue
            for s2, j in self.cases(s, v, i):
                out.append((s2, self.getitem(s2, v, j)))
        return out

    def ev_Slice(self, e, st, mod):
        """inside a tuple index of a numpy array"""
        if e.step is not None:
            raise Unsupported("slice step")
        outs = []
        for s, bs in self.evs([x for x in (e.lower, e.upper) if x is not None], st, mod):
            bs = [conc(b) for b in bs]
            if not all(isinstance(b, int) for b in bs):
                raise Unsupported("symbolic slice")
            l = bs.pop(0) if e.lower is not None else None
            outs.append((s, slice(l, bs.pop(0) if e.upper is not None else None)))
        return outs

    def cases(self, st, v, i):
        """an arbitrary index into a short list of objects: one case per element"""
        if isinstance(v, Lst) and isz(conc(i)):
            d = self.lcell(st, v)
            if d["k"] == "c" and not all(is_num(x) for x in d["items"]):
                n = len(d["items"])
                return self.enum_split(st, i, n, "index in range")
        return [(st, i)]

    def enum_split(self, st, i, n, what):
        self.check(st, z3.And(i >= 0, i < n), what)
        out = []
        for k in range(n):
            s = st.fork()
            if self.feasible(s, i == k):
                s.assume(i == k)
                out.append((s, k))
        self.npaths += max(0, len(out) - 1)
        return out

    def ev_Attribute(self, e, st, mod):
        out = []
        for s, v in self.ev(e.value, st, mod):
            r = self.getattr(s, v, e.attr)
            if isinstance(r, BoundV) and isinstance(r.fn, FuncV) and r.fn.cls and r.fn.name in r.fn.cls.props:
                out.extend(self.call_func(r.fn, s, [r.recv], {}))
                continue
            w = v.val if isinstance(v, OptV) else v
            n = self.opts.get("enum", {}).get((w.cls, e.attr)) if isinstance(w, Ref) else None
            if n is not None and isz(conc(r)):
                out.extend(self.enum_split(s, r, n, f"{w.cls}.{e.attr} is one of 0..{n - 1}"))
                continue
            out.append((s, r))
        return out

    def getattr(self, st, v, name):
        if isinstance(v, OptV):
            if self.opts.get("none_check"):
                self.check(st, v.some, f".{name}: the object is not None")
                st.assume(v.some)
            v = v.val
        if isinstance(v, Obj):
            d = st.heap[v.oid]
            if name in d:
                return d[name]
            if name == "__class__":
                return ClsV(v.cls)
            r = v.cls.find(self, name)
            if r:
                return BoundV(v, FuncV(r[1], r[0].mod, r[0], None, name))
            ca = self.class_attr(st, v.cls, name)
            if ca is not None:
                return ca
            raise Unsupported(f"attribute {v.cls.name}.{name}")
        if isinstance(v, Ref):
            return self.load(st, v, name)
        if isinstance(v, Module):
            return self.resolve_name(name, v, st)
        if isinstance(v, ClsV):
            r = v.info.find(self, name)
            if r:
                return FuncV(r[1], r[0].mod, r[0], None, name)
            ca = self.class_attr(st, v.info, name)
            if ca is not None:
                return ca
            raise Unsupported(f"class attribute {v.info.name}.{name}")
        if isinstance(v, ExtV):
            if v.name + "." + name in EXT_CONSTS:
                return EXT_CONSTS[v.name + "." + name]
            return ExtV(v.name + "." + name)
        if v is None:
            self.raised(st, "AttributeError")
        if isinstance(v, Opq) and "attr:" + v.kind in self.ext:
            return self.ext["attr:" + v.kind](self, st, v, name)
        if nd.is_nd(self, st, v):
            r = nd.attr(self, st, v, name)
            if r is not None:
                return r
        if is_num(v) and name == "real":
            return v
        if is_num(v) and name == "imag":
            return 0
        return BoundV(v, ExtV("." + name))

    def class_attr(self, st, info, name):
        key = ("cattr", info.name, name)
        if key in st.cells:
            return st.cells[key]
        r = info.find_attr(self, name)
        if r:
            key = ("cattr", r[0].name, name)
            if key not in st.cells:
                vv = self.ev(r[1], st, r[0].mod)
                v = vv[0][1]
                if is_num(v) and not isinstance(v, bool):
                    v = fresh("cattr_" + name, "int")
                st.cells[key] = v
            return st.cells[key]
        return None

    def load(self, st, ref, name):
        cls = ref.cls
        if name == "__class__":
            return ClsV(self.cls_by_name(cls))
        c = st.ch.setdefault(cls, {})
        w = st.wr.setdefault(cls, {})
        if name in w or name in self.schemas.get(cls, {}):
            wr = w.get(name) or self.schemas[cls][name]
            if wr.startswith("list:"):
                return FLst(cls, zi(ref.t), name, wr[5:])
            if wr.startswith("opq:"):
                return Opq(wr[4:], (cls, name, ref))
            if wr.startswith("sub:"):       # embedded object of another heap class with the same index
                return Ref(wr[4:], ref.t)
            if wr.startswith("const:"):
                return eval(wr[6:])
            self.ensure(st, cls, name, wr)
            return wrap_term(wr, z3.Select(c[name], zi(ref.t)))
        info = self.cls_by_name(cls)
        r = info.find(self, name)
        if r:
            return BoundV(ref, FuncV(r[1], r[0].mod, r[0], None, name))
        ca = self.class_attr(st, info, name)
        if ca is not None:
            return ca
        raise Unsupported(f"field {cls}.{name}")

    def ensure(self, st, cls, name, wr):
        c = st.ch.setdefault(cls, {})
        st.wr.setdefault(cls, {})[name] = wr
        if name not in c:
            c[name] = z3.Const(f"{cls}.{name}@0", z3.ArraySort(z3.IntSort(), sort_of_wrap(wr)))

    def cls_by_name(self, name):
        if name in self.opts.get("classes", {}):
            return self.opts["classes"][name]
        raise Unsupported("class " + name)

    def store(self, st, ref, name, val):
        cls = ref.cls
        w = st.wr.setdefault(cls, {})
        wr = w.get(name) or self.schemas.get(cls, {}).get(name)
        if wr is None:
            if isinstance(val, (str, Opq)):
                w[name] = "opq:str"
                return
            if val is None:
                raise Unsupported(f"untyped None store {cls}.{name}")
            wr = infer_wrap(val)
            if wr == "int":
                wr = "real"
        if wr.startswith(("opq:", "sub:", "const:")):
            return
        if wr.startswith("list:"):
            self.copy_into(st, FLst(cls, zi(ref.t), name, wr[5:]), val)
            return
        self.ensure(st, cls, name, wr)
        old = st.ch[cls][name]
        new = unwrap(wr, val)
        na = z3.Store(old, zi(ref.t), new)
        st.ch[cls][name] = na
        hk = self.store_hooks.get(("ch", cls, name))
        if hk:
            hk(self, st, old, zi(ref.t), na, new)

    def copy_into(self, st, fl, val):
        for f, srt in (("$a", z3.ArraySort(z3.IntSort(), sort_of_wrap(fl.wrap))), ("$lo", z3.IntSort()), ("$hi", z3.IntSort())):
            k = fl.field + f
            if k not in st.ch.setdefault(fl.cls, {}):
                st.ch[fl.cls][k] = z3.Const(f"{fl.cls}.{k}@0", z3.ArraySort(z3.IntSort(), srt))
        if isinstance(val, FLst) and val.same(fl):
            return
        its = self.items(st, val)
        arr = z3.K(z3.IntSort(), z3.FreshConst(sort_of_wrap(fl.wrap)))
        for k, x in enumerate(its):
            arr = z3.Store(arr, k, unwrap(fl.wrap, x))
        self.lset(st, fl, arr=arr, lo=z3.IntVal(0), hi=z3.IntVal(len(its)))

    def ev_Lambda(self, e, st, mod):
        return [(st, FuncV(e, mod, None, dict(st.env), "<lambda>"))]

    def ev_ListComp(self, e, st, mod):
        return self.comp(e, st, mod, True)

    def ev_GeneratorExp(self, e, st, mod):
        return self.comp(e, st, mod, False)

    def comp(self, e, st, mod, aslist):
        if len(e.generators) != 1:
            # nested: only concrete
            pass
        outs = []
        saved = dict(st.env)

        def go(gens, s):
            """-> list of (state, [values])"""
            if not gens:
                return [(s2, [v]) for s2, v in self.ev(e.elt, s, mod)]
            g = gens[0]
            res = []
            for s1, it in self.ev(g.iter, s, mod):
                items = self.items(s1, it)
                cur = [(s1, [])]
                for x in items:
                    nxt = []
                    for s2, acc in cur:
                        for s3, _ in self.assign(g.target, x, s2, mod):
                            cs = [(s3, True)]
                            for cond in g.ifs:
                                ncs = []
                                for s4, ok in cs:
                                    if not ok:
                                        ncs.append((s4, False))
                                        continue
                                    for s5, v in self.ev(cond, s4, mod):
                                        ncs.extend(self.split(s5, self.truth(s5, v)))
                                cs = ncs
                            for s4, ok in cs:
                                if ok:
                                    for s5, vs in go(gens[1:], s4):
                                        nxt.append((s5, acc + vs))
                                else:
                                    nxt.append((s4, acc))
                    cur = nxt
                res.extend(cur)
            return res
        try:
            r = go(e.generators, st)
        except Unsupported:
            r = None
        if r is not None:
            for s, vs in r:
                s.env = {**saved}
                outs.append((s, self.new_list(s, vs) if aslist else tuple(vs)))
            return outs
        # symbolic comprehension over one generator without conditions, pure element
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("comprehension over symbolic sequence")
        g = e.generators[0]
        for s, it in self.ev(g.iter, st, mod):
            outs.append((s, loops.symbolic_comp(self, s, mod, g, e.elt, it, saved)))
        return outs

    def ev_Starred(self, e, st, mod):
        raise Unsupported("starred")

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st, mod):
        out = []
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            me = st.env["$self"]
            cls = st.env["$cls"]
            for b in cls.bases(self):
                r = b.find(self, e.func.attr)
                if r:
                    fn = FuncV(r[1], r[0].mod, r[0], None, e.func.attr)
                    for s, args, kw in self.args(e, st, mod):
                        out.extend(self.call_func(fn, s, [me] + args, kw))
                    return out
            raise Unsupported("super()." + e.func.attr)
        for s, f in self.ev(e.func, st, mod):
            if isinstance(f, ExtV) and (f.name in IGNORED_CALLS):
                out.append((s, None))
                continue
            if isinstance(f, ExtV) and f.name.startswith("warnings."):
                out.append((s, None))
                continue
            for s2, args, kw in self.args(e, s, mod):
                out.extend(self.call(f, s2, args, kw))
        return out

    def args(self, e, st, mod):
        outs = []
        for s, vs in self.evs(e.args, st, mod):
            kws = [(s, {})]
            for k in e.keywords:
                nxt = []
                for s1, d in kws:
                    for s2, v in self.ev(k.value, s1, mod):
                        if k.arg is None:
                            dd = self.lcell(s2, v)
                            nxt.append((s2, {**d, **{kk[1]: vv for kk, vv in dd.items() if isinstance(kk, tuple)}}))
                        else:
                            nxt.append((s2, {**d, k.arg: v}))
                kws = nxt
            for s1, d in kws:
                outs.append((s1, vs, d))
        return outs

    def call(self, f, st, args, kw):
        if isinstance(f, BoundV):
            if isinstance(f.fn, FuncV):
                if f.fn.cls and f.fn.name in f.fn.cls.static:
                    return self.call_func(f.fn, st, args, kw)
                return self.call_func(f.fn, st, [f.recv] + args, kw)
            return self.call_method(f.recv, f.fn.name[1:], st, args, kw)
        if isinstance(f, FuncV):
            return self.call_func(f, st, args, kw)
        if isinstance(f, ClsV):
            return self.instantiate(f.info, st, args, kw)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, st, args, kw)
        if isinstance(f, Opq) and ("call:" + f.kind) in self.ext:
            return self.ext["call:" + f.kind](self, st, [f] + args, kw)
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, info, st, args, kw):
        q = info.name
        if q in self.contracts:
            self.used[q] = "contract"
            return self.contracts[q](self, st, None, args, kw)
        if info.isa(self, "Exception") or info.name.endswith("Exception"):
            return [(st, Opq("exception:" + info.name))]
        if info.name in self.heap_classes:
            key = ("alloc", info.name)
            t = st.cells.get(key)
            if t is None:
                t = fresh("alloc_" + info.name, "int")
                st.assume(t >= 0)
            st.cells[key] = z3.simplify(t + 1)
            recv = Ref(info.name, t)
        else:
            recv = self.new_obj(st, info)
        r = info.find(self, "__init__")
        if not r:
            return [(st, recv)]
        fn = FuncV(r[1], r[0].mod, r[0], None, "__init__")
        return [(s, recv) for s, _ in self.call_func(fn, st, [recv] + args, kw)]

    def bind(self, fn, st, args, kw, outer):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if fn.closure:
            env.update(fn.closure)
        if len(args) > len(names) and not a.vararg:
            raise PathExc(st, "TypeError")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k not in names and k not in kwonly:
                if a.kwarg:
                    continue
                raise PathExc(st, "TypeError")
            env[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for n in names + kwonly:
            if n not in env or (fn.closure and n in fn.closure and n not in kw and names.index(n) >= len(args) if n in names else False):
                if n not in defaults:
                    raise PathExc(st, "TypeError")
                r = self.ev(defaults[n], St(), fn.mod)
                v = r[0][1]
                if isinstance(v, (Lst, Obj)):
                    r = self.ev(defaults[n], st, fn.mod)
                    v = r[0][1]
                env[n] = v
        env["$mod"] = fn.mod
        env["$cls"] = fn.cls
        env["$self"] = args[0] if args else None
        return env

    def call_func(self, fn, st, args, kw, nocontract=False):
        """-> list of (state, value); exceptional outcomes are recorded via self.exc_out"""
        q = fn.qual
        meth = fn.cls is not None and fn.name not in fn.cls.static
        if not nocontract:
            for key in ((self.recv_cls(args) + "." + fn.name) if fn.cls and args else q, q, fn.name if fn.cls is None else q):
                if key in self.contracts:
                    self.used[key] = "contract"
                    self.touched.add((fn.mod.rel, q))
                    hk = self.hooks.get(key)
                    if hk:
                        pre = st.fork()
                    outs = self.contracts[key](self, st, args[0] if (meth and args) else None, args[1:] if meth else args, kw)
                    if hk:
                        for s, v in outs:
                            hk(self, pre, s, args[0] if meth else None, args[1:] if meth else args, v)
                    return outs
        self.used.setdefault(q, "inlined")
        self.touched.add((fn.mod.rel, q))
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported("recursion")
        try:
            pre = st.fork() if q in self.hooks else None
            saved = st.env
            env = self.bind(fn, st, args, kw, saved)
            st.env = env
            if isinstance(fn.node, ast.Lambda):
                outs = self.ev(fn.node.body, st, fn.mod)
            else:
                outs = []
                for s, sig in self.block(fn.node.body, st, fn.mod):
                    if sig is None:
                        outs.append((s, None))
                    elif sig[0] == RET:
                        outs.append((s, sig[1]))
                    elif sig[0] == EXC:
                        s.env = dict(saved)
                        self.pend.append((s, sig[1]))
                    else:
                        raise Unsupported("break outside loop")
            res = []
            for s, v in outs:
                s.env = dict(saved)
                if pre is not None:
                    self.hooks[q](self, pre, s, args[0] if meth else None, args[1:] if meth else args, v)
                res.append((s, v))
            return res
        finally:
            self.depth -= 1

    def recv_cls(self, args):
        r = args[0]
        if isinstance(r, Obj):
            return r.cls.name
        if isinstance(r, Ref):
            return r.cls
        return "?"

    # ------------------------------------------------------------------ builtin methods
    def call_method(self, recv, name, st, args, kw):
        if isinstance(recv, OptV):
            recv = recv.val
        if nd.is_nd(self, st, recv):
            r = nd.method(self, st, recv, name, args, kw)
            if r is not None:
                return r
        if isinstance(recv, (Lst, FLst)):
            d = self.lcell(st, recv)
            if d["k"] == "s" and d["w"].startswith("ref:") and self.opts.get("none_check"):
                for n, a in enumerate(args):
                    if isinstance(a, OptV):
                        self.check(st, a.some, f"{name}: the object is not None")
                        st.assume(a.some)
                        args = args[:n] + [a.val] + args[n + 1:]
            if d["k"] == "c":
                its = list(d["items"])
                if name == "append":
                    its.append(args[0])
                    self.lset(st, recv, items=tuple(its))
                    return [(st, None)]
                if name in ("pop", "popleft"):
                    i = 0 if name == "popleft" else (conc(args[0]) if args else -1)
                    if not its:
                        self.raised(st, "IndexError")
                    v = its.pop(i)
                    self.lset(st, recv, items=tuple(its))
                    return [(st, v)]
                if name == "extend":
                    self.lset(st, recv, items=tuple(its + self.items(st, args[0])))
                    return [(st, None)]
                if name == "insert":
                    its.insert(conc(args[0]), args[1])
                    self.lset(st, recv, items=tuple(its))
                    return [(st, None)]
                if name == "copy":
                    return [(st, self.new_list(st, its))]
                if name == "__contains__":
                    return [(st, b_or(*[self.compare(st, ast.Eq(), args[0], x) for x in its]) if its else False)]
                if name == "index":
                    outs, rest = [], st
                    for i, x in enumerate(its):
                        nxt = None
                        for s2, t in self.split(rest, self.compare(rest, ast.Eq(), x, args[0])):
                            if t:
                                outs.append((s2, i))
                            else:
                                nxt = s2
                        if nxt is None:
                            return outs
                        rest = nxt
                    if not outs:
                        self.raised(rest, "ValueError")
                    self.check(rest, False, "no ValueError")
                    return outs
                if name == "reverse":
                    self.lset(st, recv, items=tuple(its[::-1]))
                    return [(st, None)]
                if name == "clear":
                    self.lset(st, recv, items=())
                    return [(st, None)]
            elif d["k"] == "s":
                if name == "append":
                    if d["arr"] is None:
                        raise Unsupported("append to identity list")
                    self.lset(st, recv, arr=z3.Store(d["arr"], d["hi"], unwrap(d["w"], args[0])), hi=z3.simplify(d["hi"] + 1))
                    return [(st, None)]
                if name == "insert" and conc(args[0]) == 0 or name == "appendleft":
                    if d["arr"] is None:
                        raise Unsupported("insert into identity list")
                    at = z3.simplify(d["lo"] - 1)
                    self.lset(st, recv, arr=z3.Store(d["arr"], at, unwrap(d["w"], args[-1])), lo=at)
                    return [(st, None)]
                if name in ("pop", "popleft"):
                    if not self.opts.get("pop_unchecked"):
                        self.check(st, d["hi"] > d["lo"], "pop: the list is not empty")
                    st.assume(d["hi"] > d["lo"])
                    first = name == "popleft" or (args and conc(args[0]) == 0)
                    last = name == "pop" and (not args or conc(args[0]) == -1)
                    if first:
                        v = wrap_term(d["w"], z3.Select(d["arr"], d["lo"]))
                        self.lset(st, recv, lo=z3.simplify(d["lo"] + 1))
                        return [(st, v)]
                    if last:
                        v = wrap_term(d["w"], z3.Select(d["arr"], d["hi"] - 1))
                        self.lset(st, recv, hi=z3.simplify(d["hi"] - 1))
                        return [(st, v)]
                    i = zi(args[0])
                    at = d["lo"] + i
                    st.assume(z3.And(at >= d["lo"], at < d["hi"]))
                    v = wrap_term(d["w"], z3.Select(d["arr"], at))
                    na = fresh("popped", d["arr"].sort())
                    j = z3.Int("j!pop")
                    st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < at, z3.Select(d["arr"], j), z3.Select(d["arr"], j + 1)),
                                        patterns=[z3.Select(na, j)]))
                    self.lset(st, recv, arr=na, hi=z3.simplify(d["hi"] - 1))
                    return [(st, v)]
            elif d["k"] == "m":
                if name == "get":
                    there = z3.Select(d["dom"], zi(args[0]))
                    val = wrap_term(d["w"], z3.Select(d["arr"], zi(args[0])))
                    dflt = args[1] if len(args) > 1 else None
                    if is_num(val) and is_num(dflt):
                        x, y = both(val, dflt)
                        return [(st, z3.If(there, x, y))]
                    return [(s, val if c else dflt) for s, c in self.split(st, there)]
                if name == "pop":
                    if len(args) == 1:
                        self.in_map(st, d, args[0])
                        self.del_map(st, recv, d, args[0])
                        return [(st, wrap_term(d["w"], z3.Select(d["arr"], zi(args[0]))))]
                    out = []
                    for s, c in self.split(st, z3.Select(d["dom"], zi(args[0]))):
                        if c:
                            self.del_map(s, recv, d, args[0])
                        out.append((s, wrap_term(d["w"], z3.Select(d["arr"], zi(args[0]))) if c else args[1]))
                    return out
                if name == "__contains__":
                    return [(st, z3.Select(d["dom"], zi(args[0])))]
                if name == "setdefault" and len(args) == 2:
                    for s, c in (o := self.split(st, z3.Select(d["dom"], zi(args[0])))):
                        if not c:
                            self.setitem(s, recv, args[0], args[1])
                    return [(s, self.getitem(s, recv, args[0])) for s, c in o]
            elif d["k"] == "d":
                if name == "items":
                    return [(st, tuple((k[1], v) for k, v in d.items() if isinstance(k, tuple)))]
                if name == "keys":
                    return [(st, tuple(k[1] for k, v in d.items() if isinstance(k, tuple)))]
                if name == "values":
                    return [(st, tuple(v for k, v in d.items() if isinstance(k, tuple)))]
                if name == "get":
                    return [(st, d.get(("key", args[0]), args[1] if len(args) > 1 else None))]
            raise Unsupported("list." + name)
        if isinstance(recv, Opq):
            key = recv.kind + "." + name
            if key in self.ext:
                return self.ext[key](self, st, [recv] + args, kw)
            if recv.kind in ("str", "pbar", "ignore") or recv.kind.startswith("exception"):
                return [(st, Opq("str"))]
        if isinstance(recv, str):
            return [(st, Opq("str"))]
        raise Unsupported(f"method {recv!r}.{name}")

    def call_ext(self, name, st, args, kw):
        name = name.replace("np.", "numpy.") if name.startswith("np.") else name
        f = self.ext.get(name)
        if f is None:
            raise Unsupported("external " + name)
        return f(self, st, args, kw)

    # ------------------------------------------------------------------ statements
    def block(self, body, st, mod):
        """-> list of (state, signal); signal None = fell through"""
        live = [(st, None)]
        for s in body:
            nxt = []
            for x, sig in live:
                if sig is not None:
                    nxt.append((x, sig))
                    continue
                n0, p0 = self.npaths, len(self.pend)
                try:
                    nxt.extend(self.stmt(s, x, mod))
                except PathExc as pe:
                    # only sound when no path was split off since the statement began
                    if self.npaths != n0 or len(self.pend) != p0:
                        raise Unsupported("exception " + pe.name + " on some paths of a statement")
                    nxt.append((pe.st, (EXC, pe.name)))
                nxt.extend((y, (EXC, nm)) for y, nm in self.pend[p0:])
                del self.pend[p0:]
            live = nxt
        return live

    def stmt(self, s, st, mod):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, st, mod)

    def st_Pass(self, s, st, mod):
        return [(st, None)]

    def st_Expr(self, s, st, mod):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(x, None) for x, _ in self.ev(s.value, st, mod)]

    def st_Assign(self, s, st, mod):
        outs = []
        for x, v in self.ev(s.value, st, mod):
            cur = [x]
            for t in s.targets:
                nxt = []
                for y in cur:
                    nxt.extend(z for z, _ in self.assign(t, v, y, mod))
                cur = nxt
            outs.extend((y, None) for y in cur)
        return outs

    def st_AnnAssign(self, s, st, mod):
        if s.value is None:
            return [(st, None)]
        return [(z, None) for x, v in self.ev(s.value, st, mod) for z, _ in self.assign(s.target, v, x, mod)]

    def assign(self, t, v, st, mod):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(st, v)
            if len(items) != len(t.elts):
                raise PathExc(st, "ValueError")
            cur = [st]
            for e, x in zip(t.elts, items):
                nxt = []
                for y in cur:
                    nxt.extend(z for z, _ in self.assign(e, x, y, mod))
                cur = nxt
            return [(y, None) for y in cur]
        if isinstance(t, ast.Attribute):
            outs = []
            for x, o in self.ev(t.value, st, mod):
                self.setattr(x, o, t.attr, v)
                outs.append((x, None))
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for x, (o, i) in self.evs([t.value, t.slice], st, mod):
                ix = i if isinstance(i, tuple) else (i,)
                if nd.is_nd(self, x, o) and (any(isinstance(k, slice) for k in ix) or (len(ix) == 1 and nd.data(self, x, o)[0] == "m")):
                    nd.assign_slice(self, x, o, ix, v)
                    outs.append((x, None))
                    continue
                if isinstance(i, tuple) and isinstance(o, Lst):
                    for k in i[:-1]:
                        o = self.getitem(x, o, k)
                    i = i[-1]
                self.setitem(x, o, i, v)
                outs.append((x, None))
            return outs
        raise Unsupported("assignment target")

    def setattr(self, st, o, name, v):
        if isinstance(o, OptV):
            if self.opts.get("none_check"):
                self.check(st, o.some, f".{name}: the object is not None")
                st.assume(o.some)
            o = o.val
        if isinstance(o, Obj):
            st.heap[o.oid] = {**st.heap[o.oid], name: v}
        elif isinstance(o, Ref):
            self.store(st, o, name, v)
        elif isinstance(o, ClsV):
            st.cells[("cattr", o.info.name, name)] = v
        elif o is None:
            self.raised(st, "AttributeError")
        elif isinstance(o, Opq) and o.kind == "ignore":
            pass
        else:
            raise Unsupported(f"setattr on {o!r}")

    def st_AugAssign(self, s, st, mod):
        t = s.target
        outs = []
        if isinstance(t, ast.Name):
            for x, v in self.ev(s.value, st, mod):
                cur = self.ev_Name(t, x, mod)[0][1]
                for y, r in self.aug(x, s.op, cur, v):
                    y.env[t.id] = r
                    outs.append((y, None))
        elif isinstance(t, ast.Attribute):
            for x, o in self.ev(t.value, st, mod):
                cur = self.getattr(x, o, t.attr)
                for y, v in self.ev(s.value, x, mod):
                    for z, r in self.aug(y, s.op, cur, v):
                        self.setattr(z, o, t.attr, r)
                        outs.append((z, None))
        elif isinstance(t, ast.Subscript):
            for x, (o, i) in self.evs([t.value, t.slice], st, mod):
                if isinstance(i, tuple) and isinstance(o, Lst) and not any(isinstance(k, slice) for k in i):
                    for k in i[:-1]:
                        o = self.getitem(x, o, k)
                    i = i[-1]
                cur = self.getitem(x, o, i)
                for y, v in self.ev(s.value, x, mod):
                    for z, r in self.aug(y, s.op, cur, v):
                        self.setitem(z, o, i, r)
                        outs.append((z, None))
        else:
            raise Unsupported("augassign")
        return outs

    def aug(self, st, op, cur, v):
        if isinstance(cur, Lst) and isinstance(op, ast.Add):
            d = self.lcell(st, cur)
            if d["k"] == "c":
                self.lset(st, cur, items=tuple(list(d["items"]) + self.items(st, v)))
                return [(st, cur)]
        return self.binop(st, op, cur, v)

    def st_If(self, s, st, mod):
        outs = []
        for x, c in self.ev(s.test, st, mod):
            for y, t in self.split(x, self.truth(x, c)):
                outs.extend(self.block(s.body if t else s.orelse, y, mod))
        return outs

    def st_Return(self, s, st, mod):
        if s.value is None:
            return [(st, (RET, None))]
        return [(x, (RET, v)) for x, v in self.ev(s.value, st, mod)]

    def st_Break(self, s, st, mod):
        return [(st, (BRK,))]

    def st_Continue(self, s, st, mod):
        return [(st, (CNT,))]

    def st_Raise(self, s, st, mod):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = getattr(e, "id", getattr(e, "attr", "Exception"))
        return [(st, (EXC, name))]

    def st_Assert(self, s, st, mod):
        outs = []
        for x, c in self.ev(s.test, st, mod):
            for y, t in self.split(x, self.truth(x, c)):
                outs.append((y, None if t else (EXC, "AssertionError")))
        return outs

    def st_Import(self, s, st, mod):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Module.by_dotted(a.name) or ExtV(a.name)
        return [(st, None)]

    def st_ImportFrom(self, s, st, mod):
        raise Unsupported("local from-import")

    def st_Global(self, s, st, mod):
        raise Unsupported("global")

    def st_FunctionDef(self, s, st, mod):
        st.env[s.name] = FuncV(s, mod, None, dict(st.env), s.name)
        return [(st, None)]

    def st_Delete(self, s, st, mod):
        outs = [st]
        for t in s.targets:
            if not isinstance(t, ast.Subscript):
                raise Unsupported("del")
            nxt = []
            for x in outs:
                for y, (o, i) in self.evs([t.value, t.slice], x, mod):
                    d = self.lcell(y, o) if isinstance(o, (Lst, FLst)) else {"k": None}
                    if d["k"] == "m":
                        self.in_map(y, d, i)
                        self.del_map(y, o, d, i)
                        nxt.append(y)
                    elif d["k"] in ("s", "c") and is_num(i):
                        nxt.extend(z for z, _ in self.call_method(o, "pop", y, [i], {}))
                    else:
                        raise Unsupported("del")
            outs = nxt
        return [(x, None) for x in outs]

    def st_With(self, s, st, mod):
        # progress bars only: the context manager has no effect on the model
        for it in s.items:
            r = self.ev(it.context_expr, st, mod)
            if len(r) != 1 or not isinstance(r[0][1], Opq):
                raise Unsupported("with")
            st = r[0][0]
            if it.optional_vars is not None:
                st = self.assign(it.optional_vars, Opq("pbar"), st, mod)[0][0]
        return self.block(s.body, st, mod)

    def st_Try(self, s, st, mod):
        outs = []
        for x, sig in self.block(s.body, st, mod):
            if sig is not None and sig[0] == EXC:
                handled = False
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = [sig[1]]
                    elif isinstance(h.type, ast.Tuple):
                        names = [getattr(z, "id", getattr(z, "attr", "")) for z in h.type.elts]
                    else:
                        names = [getattr(h.type, "id", getattr(h.type, "attr", ""))]
                    if sig[1] in names or "Exception" in names or "BaseException" in names or \
                            (sig[1] == "ZeroDivisionError" and "ArithmeticError" in names):
                        if h.name:
                            x.env[h.name] = Opq("exception:" + sig[1])
                        outs.extend(self.block(h.body, x, mod))
                        handled = True
                        break
                if not handled:
                    outs.append((x, sig))
            elif sig is None and s.orelse:
                outs.extend(self.block(s.orelse, x, mod))
            else:
                outs.append((x, sig))
        if s.finalbody:
            res = []
            for x, sig in outs:
                for y, sg in self.block(s.finalbody, x, mod):
                    res.append((y, sg if sg is not None else sig))
            outs = res
        return outs

    def st_For(self, s, st, mod):
        outs = []
        for x, it in self.ev(s.iter, st, mod):
            outs.extend(self.for_over(s, x, it, mod))
        return outs

    def for_over(self, s, st, it, mod):
        try:
            items = self.items(st, it)
        except Unsupported:
            items = None
        if items is not None:
            live = [(st, None)]
            done = []
            for v in items:
                nxt = []
                for x, _ in live:
                    for y, _ in self.assign(s.target, v, x, mod):
                        for z, sig in self.block(s.body, y, mod):
                            if sig is None or sig[0] == CNT:
                                nxt.append((z, None))
                            elif sig[0] == BRK:
                                done.append((z, None))
                            else:
                                done.append((z, sig))
                live = nxt
                if not live:
                    break
            for x, _ in live:
                done.extend(self.block(s.orelse, x, mod) if s.orelse else [(x, None)])
            return done
        return loops.for_loop(self, s, st, it, mod)

    def st_While(self, s, st, mod):
        # bounded unrolling when the guard stays literal
        return loops.while_loop(self, s, st, mod)


class PathExc(Exception):
    def __init__(self, st, name, partial=False):
        super().__init__(name)
        self.st, self.name, self.partial = st, name, partial


class OptV:
    """optional value: some (bool term) and the value when present"""
    __slots__ = ("some", "val")

    def __init__(self, some, val):
        self.some, self.val = some, val

    def same(self, o):
        return isinstance(o, OptV) and same(self.some, o.some) and same(self.val, o.val)


# ------------------------------------------------------------------------------------------- externals
POWI = z3.Function("powi", z3.RealSort(), z3.IntSort(), z3.RealSort())
POWR = z3.Function("powr", z3.RealSort(), z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
GAMMA = z3.Function("gamma", z3.RealSort(), z3.RealSort())
FACT = z3.Function("fact", z3.IntSort(), z3.IntSort())
BINOM = z3.Function("binom", z3.IntSort(), z3.IntSort(), z3.IntSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def _pow(vc, st, a, kw):
    return vc.power(st, a[0], a[1])


def _sqrt(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v):
        f = Fraction(v)
        import math
        n, d = math.isqrt(abs(f.numerator)), math.isqrt(f.denominator)
        if f >= 0 and n * n == f.numerator and d * d == f.denominator:
            return [(st, Fraction(n, d))]
    x = zr(v)
    st.assume(x >= 0)
    s = SQRT(x)
    st.assume(z3.And(s >= 0, s * s == x))
    return [(st, s)]


def _exp(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v) and v == 0:
        return [(st, Fraction(1))]
    t = EXP(zr(v))
    st.assume(t > 0)
    return [(st, t)]


def _log(vc, st, a, kw):
    st.assume(zr(a[0]) > 0)
    return [(st, LOG(zr(a[0])))]


def _gamma(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v) and v == int(v) and 0 < v < 30:
        import math
        return [(st, math.factorial(int(v) - 1))]
    t = GAMMA(zr(v))
    return [(st, t)]


def _fact(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v):
        import math
        if v < 0 or v != int(v):
            vc.raised(st, "ValueError")
        return [(st, math.factorial(int(v)))]
    n = zi(v)
    st.assume(n >= 0)
    t = FACT(n)
    st.assume(t >= 1)
    st.assume(z3.Implies(n == 0, t == 1))
    st.assume(z3.Implies(n > 0, t == n * FACT(n - 1)))
    return [(st, t)]


def _abs(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v) or isinstance(v, bool):
        return [(st, abs(v))]
    if is_bool(v):
        return [(st, z3.If(v, z3.IntVal(1), z3.IntVal(0)))]
    x = zn(v)
    return [(st, z3.If(x >= 0, x, -x))]


def _keys(vc, st, xs, key):
    """-> [(state, [key(x) for x in xs])]"""
    cur = [(st, [])]
    for x in xs:
        cur = [(s2, acc + [v]) for s1, acc in cur for s2, v in vc.call(key, s1, [x], {})]
    return cur


def _before(a, b, ismin):
    """strictly better key"""
    if isinstance(a, tuple):
        return b_or(*[b_and(*([b_not(b_or(_before(a[j], b[j], ismin), _before(b[j], a[j], ismin))) for j in range(i)] + [_before(a[i], b[i], ismin)])) for i in range(len(a))])
    if is_pynum(conc(a)) and is_pynum(conc(b)):
        return conc(a) < conc(b) if ismin else conc(a) > conc(b)
    p, q = both(a, b)
    return p < q if ismin else p > q


def _chosen(vc, st, xs, ks, ismin):
    """-> [(state, index)] of the element Python's min/max returns: the first one with the best key"""
    outs = []
    for i in range(len(xs)):
        c = conc(b_and(*([_before(ks[i], ks[j], ismin) for j in range(i)] + [b_not(_before(ks[j], ks[i], ismin)) for j in range(i + 1, len(xs))])))
        if c is True or (c is not False and vc.feasible(st, c)):
            s = st.fork()
            s.assume(c)
            outs.append((s, i))
    vc.npaths += max(0, len(outs) - 1)
    return outs


def _sorted(vc, st, a, kw):
    xs = list(vc.items(st, a[0]))
    rev = conc(kw.get("reverse", False))
    if not isinstance(rev, bool):
        raise Unsupported("sorted with a symbolic order")
    outs = []
    for s0, ks in (_keys(vc, st, xs, kw["key"]) if kw.get("key") is not None else [(st, xs)]):
        cur = [(s0, [], list(range(len(xs))))]
        for _ in xs:
            nxt = []
            for s, done, left in cur:
                for s2, i in _chosen(vc, s, left, [ks[j] for j in left], not rev):
                    nxt.append((s2, done + [left[i]], left[:i] + left[i + 1:]))
            cur = nxt
        outs.extend((s, vc.new_list(s, [xs[j] for j in order])) for s, order, _ in cur)
    return outs


def _next(vc, st, a, kw):
    xs = vc.items(st, a[0])
    if xs:
        return [(st, xs[0])]
    if len(a) > 1:
        return [(st, a[1])]
    vc.raised(st, "StopIteration")


def _minmax(ismin):
    def f(vc, st, a, kw):
        xs = a if len(a) > 1 else vc.items(st, a[0])
        if not xs:
            if "default" in kw:
                return [(st, kw["default"])]
            vc.raised(st, "ValueError")
        if kw.get("key") is not None or any(isinstance(x, (tuple, Obj)) for x in xs):
            return [(s2, xs[i]) for s, ks in (_keys(vc, st, xs, kw["key"]) if kw.get("key") is not None else [(st, list(xs))])
                    for s2, i in _chosen(vc, s, xs, ks, ismin)]
        r = xs[0]
        for x in xs[1:]:
            if is_pynum(conc(r)) and is_pynum(conc(x)):
                r = min(conc(r), conc(x)) if ismin else max(conc(r), conc(x))
            else:
                p, q = both(r, x)
                # Python returns the first of equal arguments
                r = z3.If(q < p, q, p) if ismin else z3.If(q > p, q, p)
        return [(st, r)]
    return f


def _argmin(vc, st, a, kw):
    xs = [zr(x) for x in vc.items(st, a[0])]
    outs = []
    for i, x in enumerate(xs):
        c = b_and(*([x < y for y in xs[:i]] + [x <= y for y in xs[i + 1:]]))
        s = st.fork()
        c = conc(c)
        if c is True or (c is not False and vc.feasible(s, c)):
            s.assume(c)
            outs.append((s, i))
    vc.npaths += len(outs) - 1
    return outs


def _argmax(vc, st, a, kw):
    l = vc.new_list(st, [n_neg(x) for x in vc.items(st, a[0])])
    return _argmin(vc, st, [l], kw)


def _len(vc, st, a, kw):
    v = a[0]
    if isinstance(v, Obj):
        r = v.cls.find(vc, "__len__")
        if r:
            return vc.call_func(FuncV(r[1], r[0].mod, r[0], None, "__len__"), st, [v], {})
        vc.raised(st, "TypeError")
    return [(st, vc.length(st, v))]


def _range(vc, st, a, kw):
    a = [conc(x) for x in a]
    a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    if len(a) == 1:
        return [(st, RangeV(0, a[0], 1))]
    return [(st, RangeV(a[0], a[1], a[2] if len(a) > 2 else 1))]


def _int(vc, st, a, kw):
    v = conc(a[0])
    if isinstance(v, bool):
        return [(st, int(v))]
    if is_pynum(v):
        return [(st, int(v))]
    if isinstance(v, z3.ArithRef):
        if z3.is_int(v):
            return [(st, v)]
        return [(st, z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))]
    raise Unsupported("int()")


def _float(vc, st, a, kw):
    v = conc(a[0])
    if isinstance(v, str):
        if v in ("inf",):
            return [(st, z3.Real("INF"))]
        return [(st, Fraction(v))]
    if is_pynum(v):
        return [(st, Fraction(v))]
    return [(st, zr(v))]


def _sum(vc, st, a, kw):
    try:
        its = vc.items(st, a[0])
    except Unsupported:
        if isinstance(a[0], (Lst, FLst)):
            return [(st, loops.list_sum(vc, st, a[0]))]
        raise
    r = a[1] if len(a) > 1 else 0
    for x in its:
        r = n_add(r, x)
    return [(st, r)]


def _enumerate(vc, st, a, kw):
    v = a[0]
    try:
        return [(st, tuple((i, x) for i, x in enumerate(vc.items(st, v))))]
    except Unsupported:
        return [(st, SeqView(vc.length(st, v), lambda s, i: (i, vc.getitem(s, v, i))))]


def _zip(vc, st, a, kw):
    try:
        return [(st, tuple(zip(*[vc.items(st, x) for x in a])))]
    except Unsupported:
        n = vc.length(st, a[0])
        for x in a[1:]:
            m = vc.length(st, x)
            n = z3.If(zi(n) <= zi(m), zi(n), zi(m))
        return [(st, SeqView(n, lambda s, i: tuple(vc.getitem(s, x, i) for x in a)))]


def _list(vc, st, a, kw):
    if not a:
        return [(st, vc.new_list(st, []))]
    if isinstance(a[0], (Lst,)):
        d = vc.lcell(st, a[0])
        l = Lst(vc.new_oid())
        st.heap[l.oid] = dict(d)
        return [(st, l)]
    return [(st, vc.new_list(st, vc.items(st, a[0])))]


def _array(vc, st, a, kw):
    if vc.opts.get("nd"):
        return nd.array(vc, st, a, kw)
    return _list(vc, st, a, kw)


def _tuple(vc, st, a, kw):
    return [(st, tuple(vc.items(st, a[0])) if a else ())]


def _reversed(vc, st, a, kw):
    try:
        return [(st, tuple(vc.items(st, a[0])[::-1]))]
    except Unsupported:
        n = vc.length(st, a[0])
        v = a[0]
        return [(st, SeqView(n, lambda s, i: vc.getitem(s, v, n_sub(n_sub(n, 1), i))))]


def _isinstance(vc, st, a, kw):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    for c in cs:
        if isinstance(c, ClsV):
            if isinstance(v, Obj) and v.cls.isa(vc, c.info.name):
                return [(st, True)]
            if isinstance(v, Ref) and vc.cls_by_name(v.cls).isa(vc, c.info.name):
                return [(st, True)]
        elif isinstance(c, ExtV):
            if c.name == "dict" and isinstance(v, Lst) and st.heap[v.oid]["k"] == "d":
                return [(st, True)]
            if c.name == "list" and isinstance(v, Lst) and st.heap[v.oid]["k"] != "d":
                return [(st, True)]
            if c.name == "list" and isinstance(v, FLst):
                return [(st, True)]
            if c.name == "tuple" and isinstance(v, tuple):
                return [(st, True)]
            if c.name == "int" and (is_pynum(v) and isinstance(v, int) or isinstance(v, z3.ArithRef) and z3.is_int(v)):
                return [(st, True)]
            if c.name == "float" and (isinstance(v, Fraction) or isinstance(v, z3.ArithRef) and z3.is_real(v)):
                return [(st, True)]
            if c.name == "complex":
                continue
        else:
            raise Unsupported("isinstance")
    return [(st, False)]


def _any(vc, st, a, kw):
    return [(st, b_or(*[vc.truth(st, x) for x in vc.items(st, a[0])]))]


def _all(vc, st, a, kw):
    return [(st, b_and(*[vc.truth(st, x) for x in vc.items(st, a[0])]))]


def _generate(vc, st, a, kw):
    """assumed contract of every distribution's generate(): some non-negative real number"""
    vc.assumptions.add("generate() of every distribution object returns an arbitrary non-negative real (assumed contract)")
    x = fresh("sample", "real")
    st.assume(x >= 0)
    return [(st, x)]


def _copy(vc, st, a, kw):
    return _list(vc, st, a, kw)


def _ignore(kind):
    return lambda vc, st, a, kw: [(st, Opq(kind))]


def _clock(vc, st, a, kw):
    return [(st, fresh("walltime", "real"))]


def _first(vc, st, a, kw):
    return [(st, a[0] if a else Opq("pbar"))]


def _isnan(vc, st, a, kw):
    return [(st, False)]


def _isclose(vc, st, a, kw):
    return [(st, fresh("isclose", "bool"))]


def _trunc(vc, st, a, kw):
    return _int(vc, st, a, kw)


def _round(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v) and len(a) == 1:
        return [(st, round(v))]
    raise Unsupported("round")


def _floor(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v):
        import math
        return [(st, math.floor(v))]
    return [(st, v if z3.is_int(v) else z3.ToInt(v))]


def _ceil(vc, st, a, kw):
    v = conc(a[0])
    if is_pynum(v):
        import math
        return [(st, math.ceil(v))]
    return [(st, v if z3.is_int(v) else -z3.ToInt(-v))]


def _comb(vc, st, a, kw):
    x, y = conc(a[0]), conc(a[1])
    if is_pynum(x) and is_pynum(y):
        import math
        return [(st, math.comb(int(x), int(y)))]
    return [(st, BINOM(zi(x), zi(y)))]


def _complexv(vc, st, a, kw):
    raise Unsupported("complex")


EXT = {
    "math.pow": _pow, "pow": _pow, "numpy.power": _pow, "math.sqrt": _sqrt, "numpy.sqrt": _sqrt, "cmath.sqrt": _sqrt,
    "math.exp": _exp, "numpy.exp": _exp, "math.log": _log, "numpy.log": _log, "math.gamma": _gamma, "scipy.special.gamma": _gamma,
    "math.factorial": _fact, "abs": _abs, "math.fabs": _abs, "numpy.abs": _abs, "min": _minmax(True), "max": _minmax(False),
    "numpy.argmin": _argmin, "numpy.argmax": _argmax, "len": _len, "range": _range, "int": _int, "float": _float,
    "time.sleep": lambda vc, st, a, kw: [(st, None)], "sum": _sum, "numpy.sum": _sum, "enumerate": _enumerate, "zip": _zip, "list": _list, "numpy.array": _array, "tuple": _tuple, "next": _next, "bool": lambda vc, st, a, kw: [(st, vc.truth(st, a[0]) if a else False)], "sorted": _sorted, "iter": _tuple,
    "reversed": _reversed, "isinstance": _isinstance, "any": _any, "all": _all, "dist.generate": _generate,
    "copy.copy": _copy, "copy.deepcopy": _copy, "time.process_time": _clock, "time.time": _clock, "time.perf_counter": _clock,
    "tqdm.tqdm": _first, "str": _ignore("str"), "repr": _ignore("str"), "numpy.random.default_rng": _ignore("rng"),
    "collections.deque": _list, "math.isclose": _isclose, "numpy.isclose": _isclose, "math.isnan": _isnan, "numpy.isnan": _isnan, "math.trunc": _trunc, "round": _round,
    "math.floor": _floor, "math.ceil": _ceil, "math.comb": _comb, "scipy.special.comb": _comb, "complex": _complexv,
    "math.fsum": _sum, "numpy.min": _minmax(True), "numpy.max": _minmax(False),
}
for _k, _v in nd.EXT.items():
    if _k != "numpy.array":
        EXT[_k] = _v
BUILTINS = {"print", "len", "range", "int", "float", "sum", "abs", "min", "max", "enumerate", "zip", "list", "tuple", "dict",
            "isinstance", "pow", "str", "repr", "any", "all", "reversed", "complex", "round", "set", "sorted", "bool",
            "ValueError", "Exception", "TypeError", "NotImplementedError", "ZeroDivisionError", "IndexError", "RuntimeError",
            "super", "object", "map", "filter", "type", "next", "iter"}
EXT_CONSTS = {"math.inf": z3.Real("INF"), "numpy.inf": z3.Real("INF"), "math.pi": z3.Real("PI"),
              "colorama.Fore.GREEN": Opq("str"), "colorama.Style.RESET_ALL": Opq("str")}
for _n in ("GREEN", "MAGENTA", "YELLOW", "LIGHTGREEN_EX", "RED", "CYAN", "BLUE", "WHITE", "RESET"):
    EXT_CONSTS["colorama.Fore." + _n] = Opq("str")
