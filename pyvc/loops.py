"""Loop rule: cut at an inductive invariant found by Houdini from semantic templates."""
import itertools
import re as _re
from fractions import Fraction

import z3

from .core import *
from .core import St
from . import core


# ------------------------------------------------------------------------------------------ state cells
def cells_of(st):
    for oid, d in st.heap.items():
        for f in d:
            yield ("h", oid, f)
    for c, d in st.ch.items():
        for f in d:
            yield ("ch", c, f)
    for k in st.cells:
        yield ("c", k)
    for n in st.env:
        if not n.startswith("$"):
            yield ("e", n)


MISSING = object()


def rd(st, key):
    t = key[0]
    if t == "h":
        return st.heap.get(key[1], {}).get(key[2], MISSING)
    if t == "ch":
        return st.ch.get(key[1], {}).get(key[2], MISSING)
    if t == "c":
        return st.cells.get(key[1], MISSING)
    return st.env.get(key[1], MISSING)


def wrt(st, key, v):
    t = key[0]
    if t == "h":
        st.heap[key[1]] = {**st.heap[key[1]], key[2]: v}
    elif t == "ch":
        st.ch[key[1]][key[2]] = v
    elif t == "c":
        st.cells[key[1]] = v
    else:
        st.env[key[1]] = v


def diff_cells(a, b):
    """keys present in a (or class-heap arrays first touched in b) whose value differs in b"""
    out = []
    for k in cells_of(b):
        if k[0] == "h" and k[1] not in a.heap:
            continue
        va, vb = rd(a, k), rd(b, k)
        if va is MISSING:
            if k[0] in ("e",):
                out.append(k)
            elif k[0] == "ch":
                # first touched in b: array named @0 is its entry value
                base = z3.Const(f"{k[1]}.{k[2]}@0", vb.sort())
                if not vb.eq(base):
                    out.append(k)
            elif k[0] == "c":
                out.append(k)
            elif k[0] == "h":
                out.append(k)
            continue
        if not same(va, vb):
            out.append(k)
    return out


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())


def has_quant(t):
    return any(z3.is_quantifier(x) for x in subterms(t))


def consts(t):
    return {x.decl().name() for x in subterms(t) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def havoc_value(v, hint, name):
    """fresh value of the type of v (entry) / hint (a later value)"""
    from .interp import OptV
    if isinstance(v, OptV) or (v is None and is_num(hint) and not isinstance(hint, bool)):
        x = hint.val if isinstance(hint, OptV) else hint
        x = v.val if isinstance(v, OptV) and isz(v.val) else x
        return OptV(fresh(name + "_some", "bool"), havoc_value(x, x, name))
    if isinstance(v, OptV):
        return OptV(fresh(name + "_some", "bool"), havoc_value(v.val, v.val, name))
    if is_bool(v) and (hint is MISSING or is_bool(hint)):
        return fresh(name, "bool")
    if is_num(v):
        isint = z3.is_int(zn(v)) and (not is_num(hint) or z3.is_int(zn(hint)))
        return fresh(name, "int" if isint else "real")
    if isinstance(v, Ref):
        return Ref(v.cls, fresh(name, "int"))
    if v is None and isinstance(hint, Ref):
        return Ref(hint.cls, fresh(name, "int"))
    if isinstance(v, z3.ArrayRef):
        return fresh(name, v.sort())
    if isz(v):
        return fresh(name, v.sort())
    if isinstance(v, tuple):
        if isinstance(hint, tuple) and len(hint) == len(v):
            return tuple(havoc_value(x, y, name) if not same(x, y) else x for x, y in zip(v, hint))
        raise Unsupported("havoc of tuple of changing length: " + name)
    if isinstance(v, (Opq, str)):
        return Opq("str")
    if v is UNDEF or v is MISSING:
        return UNDEF
    raise Unsupported(f"cannot havoc {name}: {v!r} / {hint!r}")


def references(st, oid):
    """how many cells of the state hold this list"""
    def cnt(v):
        if isinstance(v, Lst):
            return 1 if v.oid == oid else 0
        if isinstance(v, tuple):
            return sum(cnt(x) for x in v)
        return 0
    return sum(cnt(rd(st, k)) for k in cells_of(st))


def havoc_list(vc, G, entry, v, hint, name):
    """a variable rebound to a new list in every iteration: a fresh list of the same shape.  Sound because the list on either
    side is held by this variable alone (checked in go) and because changes made in place to the fresh list make the rule fail."""
    d = entry.heap[v.oid]
    h = getattr(vc, "rebinds", {}).get(hint.oid)
    if h is None or h["k"] != d["k"]:
        raise Unsupported("cannot havoc list " + name)
    l = Lst(vc.new_oid())
    if d["k"] == "c":
        if len(d["items"]) != len(h["items"]) or not all(is_num(x) and is_num(y) for x, y in zip(d["items"], h["items"])):
            raise Unsupported("cannot havoc list " + name)
        G.heap[l.oid] = {"k": "c", "items": tuple(havoc_value(x, y, f"{name}{i}") for i, (x, y) in enumerate(zip(d["items"], h["items"])))}
        return l
    if d["k"] == "s" and d["w"] == h["w"] and d.get("arr") is not None:
        hi = fresh(name + "_hi", "int")
        G.assume(hi >= 0)
        G.heap[l.oid] = {"k": "s", "arr": fresh(name, d["arr"].sort()), "lo": z3.IntVal(0), "hi": hi, "w": d["w"], "tag": None}
        return l
    raise Unsupported("cannot havoc list " + name)


def kname(k):
    return "_".join(str(x) for x in (k[1:] if k[0] != "c" else (k[1] if isinstance(k[1], tuple) else (k[1],))))


def whole(t):
    """does the real term denote an integer for syntactic reasons?"""
    if z3.is_int(t) or z3.is_to_real(t):
        return True
    if z3.is_rational_value(t):
        return t.denominator_as_long() == 1
    return (z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t)) and all(whole(c) for c in t.children())


class Sums:
    """registry of finite sums/products with a symbolic number of terms"""

    def __init__(self):
        self.regs = []
        self.whole = set()

    def get(self, vc, st, body, lo, kind):
        """function F with F(lo)=unit, F(k+1)=F(k) op body(k); shared between equal bodies"""
        j = z3.Int("j!sum")
        t = z3.simplify(zr(body(j)))
        lo = z3.simplify(zi(lo))
        for (kd, l, tt, f) in self.regs:
            if kd == kind and tt.eq(t) and l.eq(lo):
                return f
        for (kd, l, tt, f) in self.regs:
            if kd == kind and l.eq(lo):
                from . import prove
                if prove.quick_valid(st.pc + [j >= lo], tt == t):
                    return f
        n = len(self.regs)
        f = z3.Function(f"{kind}!{n}", z3.IntSort(), z3.RealSort())
        self.regs.append((kind, lo, t, f))
        if whole(t):
            self.whole.add(f.name())
        st.assume(f(lo) == (0 if kind == "sum" else 1))
        return f

    def base(self, st, f, lo, kind):
        st.assume(f(zi(lo)) == (0 if kind == "sum" else 1))
        if f.name() in self.whole:      # whole terms: every partial sum/product is whole (induction on the number of terms)
            j = z3.Int("j!whole")
            st.assume(z3.ForAll([j], z3.Implies(j >= zi(lo), z3.ToReal(z3.ToInt(f(j))) == f(j)), patterns=[f(j)]))

    def step(self, st, f, body, k, kind):
        k = zi(k)
        if kind == "sum":
            st.assume(f(k + 1) == f(k) + zr(body(k)))
        else:
            st.assume(f(k + 1) == f(k) * zr(body(k)))


def registry(vc):
    if not hasattr(vc, "sums"):
        vc.sums = Sums()
    return vc.sums


def sum_term(vc, st, body, lo, hi, kind="sum"):
    """term for Sum_{lo<=j<hi} body(j) (0/1 when empty); with unrolling facts at both visible ends"""
    r = registry(vc)
    f = r.get(vc, st, body, lo, kind)
    lo, hi = z3.simplify(zi(lo)), z3.simplify(zi(hi))
    r.base(st, f, lo, kind)
    return f(hi)


def list_sum(vc, st, l):
    d = vc.lcell(st, l)
    arr = d["arr"]
    return sum_term(vc, st, lambda j: z3.Select(arr, j), d["lo"], d["hi"])


# ------------------------------------------------------------------------------------------ loop rule
def to_symbolic_lists(vc, st, oids, hints):
    for oid in oids:
        d = st.heap[oid]
        if d["k"] != "c":
            continue
        its = d["items"]
        h = [x for x in (list(its) + list(hints.get(oid, ())))]
        if not h:
            raise Unsupported("empty list of unknown element type grows in a loop")
        x = h[-1]
        if isinstance(x, Lst):
            row = vc.items(st, x) if x.oid in st.heap else None
            raise Unsupported("list of lists grows in a symbolic loop")
        w = infer_wrap(x)
        if w == "int" and not vc.opts.get("int_lists"):
            w = "real"
        if any(isinstance(y, (Fraction,)) or (isz(y) and z3.is_real(y)) for y in h):
            w = "real"
        arr = fresh("grow", z3.ArraySort(z3.IntSort(), sort_of_wrap(w)))
        for i, y in enumerate(its):
            arr = z3.Store(arr, i, unwrap(w, y))
        st.heap[oid] = {"k": "s", "arr": arr, "lo": z3.IntVal(0), "hi": z3.IntVal(len(its)), "w": w, "tag": None}


class LoopRule:
    def __init__(self, vc, st, mod, label):
        self.vc, self.entry, self.mod, self.label = vc, st, mod, label

    # subclass hooks: head(G) -> k ; run(G, k) -> (conts, exits, leaves)
    def havoc(self, M):
        G = self.entry.fork()
        names = {}
        for key, hint in M.items():
            v = rd(self.entry, key)
            if v is MISSING:
                if key[0] == "e":
                    try:
                        h = hint.val if isinstance(hint, MaybeDef) else hint
                        if not (is_num(h) or is_bool(h) or isinstance(h, Ref)):
                            raise Unsupported("not a scalar")
                        wrt(G, key, MaybeDef(fresh(key[1] + "_assigned", "bool"), havoc_value(h, h, key[1])))
                    except Unsupported:
                        wrt(G, key, UNDEF)
                    continue
                if key[0] == "ch":
                    f = fresh(kname(key), hint.sort())
                    G.ch.setdefault(key[1], {})[key[2]] = f
                    names[key] = f
                    continue
                if key[0] == "c":
                    f = havoc_value(hint, hint, kname(key))
                    G.cells[key[1]] = f
                    continue
                raise Unsupported(f"loop creates {key}")
            if key[0] == "e" and isinstance(v, Lst) and isinstance(hint, Lst):
                f = havoc_list(self.vc, G, self.entry, v, hint, kname(key))
            else:
                f = havoc_value(v, hint, kname(key))
            wrt(G, key, f)
        return G

    def go(self):
        vc = self.vc
        M = {}
        for rnd in range(16):
            G = self.havoc(M)
            k = self.head(G)
            vc.muted += 1
            try:
                conts, exits, leaves = self.run(G.fork(), k)
            finally:
                vc.muted -= 1
            new = {}
            grow = {}
            for E in conts:
                for key in diff_cells(G, E):
                    if key == ("e", self.target):
                        continue
                    if key[0] == "h" and key[2] == "items":
                        a, b = rd(G, key), rd(E, key)
                        if len(a) != len(b):
                            grow.setdefault(key[1], []).extend(b)
                            continue
                    v1 = rd(E, key)
                    if key[0] == "e" and isinstance(v1, Lst) and isinstance(rd(self.entry, key), Lst):
                        if references(E, v1.oid) != 1 or references(self.entry, rd(self.entry, key).oid) != 1:
                            raise Unsupported("list variable rebound to a shared list in a loop")
                        vc.rebinds = getattr(vc, "rebinds", {})
                        vc.rebinds[v1.oid] = dict(E.heap[v1.oid])
                    if key not in M:
                        new[key] = v1
            if grow:
                to_symbolic_lists(vc, self.entry, grow.keys(), grow)
                M = {k2: v for k2, v in M.items() if not (k2[0] == "h" and k2[1] in grow)}
                continue
            if not new:
                break
            M.update(new)
        else:
            raise Unsupported("loop modification set does not stabilise")
        self.M = M
        cands = self.candidates(G, k, conts)
        # entry check
        todo = []
        for i, (nm, fn) in enumerate(cands):
            try:
                c = fn(self.entry, self.k_entry())
            except Unsupported:
                continue
            if c is not None:
                todo.append((i, zb(c)))
        drop = set()
        self.filter(self.entry.pc, todo, cands, drop)
        ok = {i for i, _ in todo} - drop
        live = [x for i, x in enumerate(cands) if i in ok]
        rounds = 0
        while True:
            rounds += 1
            if rounds > 30:
                raise Unsupported("Houdini does not converge")
            G = self.havoc(M)
            k = self.head(G)
            forms = [(x, x[1](G, k)) for x in live]
            live = [x for x, c in forms if c is None or not z3.is_false(z3.simplify(zb(c)))]      # a form that makes no sense in the general state
            for x, c in forms:
                if c is not None and not z3.is_false(z3.simplify(zb(c))):
                    G.assume(c)
            o0 = len(vc.obls)
            p0 = len(vc.pend)
            conts, exits, leaves = self.run(G.fork(), k)
            drop = set()
            for E in conts:
                todo = [(i, fn(E, self.k_next(E, k))) for i, (nm, fn) in enumerate(live) if i not in drop]
                todo = [(i, zb(c)) for i, c in todo if c is not None]
                self.filter(E.pc, todo, live, drop)
            if not drop:
                break
            del vc.obls[o0:]
            del vc.pend[p0:]
            live = [x for i, x in enumerate(live) if i not in drop]
        self.live = live
        self.consistent(G)
        vc.loop_log = getattr(vc, "loop_log", [])
        vc.loop_log.append((self.label, [n for n, _ in live]))
        return self.finish(G, k, exits, leaves)

    def consistent(self, G):
        """the invariants hold on entry, so the general state must not be contradictory when the entry is not"""
        from . import prove
        s = prove.solver(500)
        s.add(*G.pc)
        if s.check() == z3.unsat:
            s = prove.solver(3000)
            s.add(*self.entry.pc)
            if s.check() != z3.unsat:
                raise Unsupported("contradictory loop invariants")

    def filter(self, hyps, todo, live, drop):
        """adds to drop the indices of the candidates in todo that are not shown valid"""
        from . import prove
        todo = [(i, c) for i, c in todo if not z3.is_true(c)]
        strong = lambda i: live[i][0].startswith(("inv:", "cand:"))
        for rnd in range(8):
            if not todo:
                return
            ok, m = prove.quick_check(hyps, z3.And(*[c for _, c in todo]), ms=400)
            if ok:
                return
            if m is None:
                break
            bad = []
            for i, c in todo:
                if strong(i) or has_quant(c):
                    continue
                try:
                    if z3.is_false(m.eval(c, model_completion=True)):
                        bad.append(i)
                except z3.Z3Exception:
                    pass
            if not bad:
                break
            drop.update(bad)
            todo = [(i, c) for i, c in todo if i not in drop]
        for i, c in todo:
            if not prove.quick_valid(hyps, c, ms=self.vc.opts.get("houdini_ms", 600) if strong(i) else 120):
                if strong(i) and self.vc.opts.get("ring_inv") and prove.ring_try(hyps, c):
                    continue
                if live[i][0].startswith("fill ") and self.fill_valid(hyps, c):
                    continue
                drop.add(i)

    def fill_valid(self, hyps, c):
        """forall lo <= j < hi: body -- split into the newest element and the older ones, stores read through"""
        from . import prove
        if not (z3.is_quantifier(c) and c.num_vars() == 1 and z3.is_implies(c.body()) and z3.is_and(c.body().arg(0))):
            return False
        j0 = fresh("j", z3.IntSort())
        b = z3.substitute_vars(c.body(), j0)
        g, body = b.arg(0), b.arg(1)
        hi = next((x.arg(1) for x in g.children() if z3.is_lt(x)), None)
        if hi is None:
            return False
        last = z3.simplify(hi - 1)
        for hy, bd in ((list(hyps) + [z3.substitute(g, (j0, last))], z3.substitute(body, (j0, last))), (list(hyps) + [g, j0 < last], body)):
            if not prove.array_valid(hy, bd, ms=self.vc.opts.get("houdini_ms", 600)):
                return False
        return True

    def valid(self, hyps, goal, ms=None):
        goal = zb(goal)
        if z3.is_true(goal):
            return True
        from . import prove
        return prove.quick_valid(hyps, goal, ms=ms or self.vc.opts.get("houdini_ms", 600))

    # ------------------------------------------------------------------ candidates
    def candidates(self, G, k, conts):
        vc, M, entry = self.vc, self.M, self.entry
        out = []
        lo = self.k_entry()
        havoced = set()
        for key in M:
            v = rd(G, key)
            for t in self.terms_of(v):
                havoced |= consts(t)
        gpc = {c.get_id() for c in G.pc}
        kc = k.decl().name() if k is not None and z3.is_const(k) else None
        basefresh = core._fresh[0]
        known = set()
        for c in G.pc:
            known |= consts(c)
        for key in cells_of(G):
            for t in self.terms_of(rd(G, key)):
                known |= consts(t)

        if kc:
            known.add(kc)

        def pure(t):
            cs = consts(t)
            return not (cs & (havoced - ({kc} if kc else set()))) and cs <= known

        scal = []
        for key in M:
            v0, v = rd(entry, key), rd(G, key)
            if v0 is MISSING or v is UNDEF or v0 is UNDEF:
                continue
            scal.extend(self.scalar_cands(key, v0, v, out, k, lo))
        ints = [x for x in scal if x[2] == "int"]
        for (a, ga, _), (b, gb, _) in itertools.combinations(ints[:14], 2):
            a0, b0 = ga(entry), gb(entry)
            out.append((f"{a}+{b} const", lambda s, kk, ga=ga, gb=gb, a0=a0, b0=b0: n_cmp("==", n_add(ga(s), gb(s)), n_add(a0, b0))))
            out.append((f"{a}-{b} const", lambda s, kk, ga=ga, gb=gb, a0=a0, b0=b0: n_cmp("==", n_sub(ga(s), gb(s)), n_sub(a0, b0))))
        # facts about past iterations
        if k is not None:
            disj = []
            atoms = []
            for E in conts:
                cs = [c for c in E.pc if c.get_id() not in gpc]
                pc = [c for c in cs if not z3.is_quantifier(c) and pure(c)]
                disj.append(z3.And(*pc) if pc else z3.BoolVal(True))
                atoms.extend(pc)
            if True:
                d = z3.simplify(z3.Or(*disj)) if disj else z3.BoolVal(False)
                if not z3.is_true(d):
                    out.append(("past iterations", lambda s, kk, d=d: self.forall_past(d, k, lo, kk)))
            # min/max scans
            terms = {}
            for E in conts:
                srcs = [c for c in E.pc if c.get_id() not in gpc]
                for key in M:
                    srcs.extend(self.terms_of(rd(E, key)))
                for c in srcs:
                    if z3.is_quantifier(c):
                        continue
                    for t in subterms(c):
                        if z3.is_app(t) and z3.is_arith(t) and t.decl().kind() == z3.Z3_OP_SELECT and kc in consts(t) and pure(t):
                            terms[t.get_id()] = t
            guards = [None]
            seen = set()
            for c in atoms:
                for g in ([c] + ([c.arg(0)] if z3.is_not(c) else [])):
                    if z3.is_bool(g) and kc in consts(g) and g.get_id() not in seen and len(guards) < 7:
                        seen.add(g.get_id())
                        guards.append(g)
                        guards.append(z3.Not(g))
            for (a, ga, srt) in scal[:12]:
                for t in list(terms.values())[:8]:
                    if srt != "bool" and (z3.is_int(t) == (srt == "int")):
                        for g in guards:
                            for rel in ("<=", ">="):
                                body = (lambda x, t=t, rel=rel: n_cmp(rel, x, t))
                                out.append((f"past: {a} {rel} {t} if {g}",
                                            lambda s, kk, ga=ga, body=body, g=g: self.forall_past(
                                                b_imp(g if g is not None else True, body(ga(s))), k, lo, kk)))
                        for (m, gm, ms) in scal[:12]:
                            if ms != "int" or m == a:
                                continue
                            a0, m0 = ga(entry), gm(entry)

                            def wit(s, kk, ga=ga, gm=gm, t=t, a0=a0, m0=m0):
                                mm = zn(gm(s))
                                tm = z3.substitute(t, (k, mm))
                                return z3.Or(z3.And(zb(n_cmp("==", ga(s), a0)), zb(n_cmp("==", mm, m0))),
                                             z3.And(mm >= zi(lo), mm < zi(kk), zb(n_cmp("==", ga(s), tm))))
                            out.append((f"witness {a}={t}@{m}", wit))
                            for g in guards[1:]:
                                def wg(s, kk, gm=gm, g=g, m0=m0):
                                    mm = zn(gm(s))
                                    return z3.Or(mm == zn(m0), z3.substitute(g, (k, mm)))
                                out.append((f"witness guard {g}@{m}", wg))
            # index-valued locals: m == m0 or lo <= m < k
            for (m, gm, ms) in ints[:10]:
                m0 = gm(entry)
                out.append((f"range {m}", lambda s, kk, gm=gm, m0=m0: z3.Or(zn(gm(s)) == zn(m0), z3.And(zn(gm(s)) >= zi(lo), zn(gm(s)) < zi(kk)))))
                for g in guards[1:]:
                    def wg2(s, kk, gm=gm, g=g, m0=m0):
                        mm = zn(gm(s))
                        return z3.Or(mm == zn(m0), z3.substitute(g, (k, mm)))
                    out.append((f"index guard {g}@{m}", wg2))
                    out.append((f"none yet {g}@{m}", lambda s, kk, gm=gm, g=g, m0=m0: z3.Or(zn(gm(s)) != zn(m0), self.forall_past(z3.Not(g), k, lo, kk))))
            self.sum_cands(G, k, conts, out, lo, pure, havoced)
            self.maybe_cands(G, k, conts, out, lo, pure, gpc)
        if self.while_cond_cands:
            out.extend(self.while_cond_cands(G))
        for f in vc.inv_cands:
            names = [n for n, _ in f(vc, entry)]
            for i, n in enumerate(names):
                out.append(("inv:" + n, lambda s, kk, f=f, i=i: f(vc, s)[i][1]))
        for f in vc.loop_cands:
            r = f(vc, entry, entry, lo, lo)
            for i, (n, _) in enumerate(r):
                out.append(("cand:" + n, lambda s, kk, f=f, i=i: f(vc, entry, s, kk, lo)[i][1]))
        return out

    while_cond_cands = None

    def maybe_cands(self, G, k, conts, out, lo, pure, gpc):
        """locals first assigned inside the loop: assigned once an iteration took an assigning path, with that iteration's value"""
        for key in self.M:
            g = rd(G, key)
            if not isinstance(g, MaybeDef):
                continue

            def flag(s, key=key):
                x = rd(s, key)
                return x.flag if isinstance(x, MaybeDef) else z3.BoolVal(x is not MISSING and x is not UNDEF)

            def val(s, key=key):
                x = rd(s, key)
                x = x.val if isinstance(x, MaybeDef) else x
                return x.t if isinstance(x, Ref) else x
            for E in conts:
                x = rd(E, key)
                if isinstance(x, MaybeDef) or x is MISSING or x is UNDEF:
                    continue
                t = x.t if isinstance(x, Ref) else x
                cs = [c for c in E.pc if c.get_id() not in gpc and not z3.is_quantifier(c) and pure(c)]
                d = z3.And(*cs) if cs else z3.BoolVal(True)
                out.append((f"{key[1]} assigned by a past iteration", lambda s, kk, d=d, flag=flag: z3.Or(zb(flag(s)), self.forall_past(z3.Not(d), k, lo, kk))))
                if isz(t) and not pure(t):
                    continue
                at = []
                for c in cs:
                    for u in subterms(c):
                        if (z3.is_eq(u) or z3.is_distinct(u)) and z3.is_int(u.arg(0)):
                            for p, q in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                                m = z3.simplify(q - p + k)
                                if k.decl().name() not in consts(m) and k.decl().name() in consts(p):
                                    at.append(m)
                for m in at:
                    def at_m(s, kk, m=m, t=t, flag=flag, val=val):
                        v = val(s)
                        if v is MISSING or v is UNDEF:
                            return z3.BoolVal(True)
                        tm = z3.substitute(t, (k, m)) if isz(t) else t
                        return z3.Implies(zb(flag(s)), zb(n_cmp("==", v, tm)) if not is_bool(v) else zb(v) == zb(tm))
                    out.append((f"{key[1]} is iteration {m}'s", at_m))

    def forall_past(self, body, k, lo, kk):
        j = z3.Int("j!past")
        base = self.index_base(zb(body), k)
        if base is not None:        # quantify over the position in the list itself: j = base + index
            b = z3.simplify(z3.substitute(zb(body), (k, j - base)))
            return z3.ForAll([j], z3.Implies(z3.And(j >= zi(lo) + base, j < zi(kk) + base), b))
        b = z3.substitute(zb(body), (k, j))
        return z3.ForAll([j], z3.Implies(z3.And(j >= zi(lo), j < zi(kk)), b))

    def index_base(self, body, k):
        """b when the list positions mentioned in the body are all b + k for one symbolic b"""
        base = None
        kn = k.decl().name()
        for t in subterms(body):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and z3.is_int(t.arg(1)) and kn in consts(t.arg(1)) \
                    and not z3.is_app_of(t.arg(1), z3.Z3_OP_SELECT):
                d = z3.simplify(t.arg(1) - k)
                if kn in consts(d) or z3.is_int_value(d) or (base is not None and not base.eq(d)):
                    return None
                base = d
        return base

    def terms_of(self, v):
        from .interp import OptV
        if isz(v):
            return [v]
        if isinstance(v, Ref):
            return [v.t] if isz(v.t) else []
        if isinstance(v, tuple):
            return [t for x in v for t in self.terms_of(x)]
        if isinstance(v, OptV):
            return self.terms_of(v.some) + self.terms_of(v.val)
        if isinstance(v, MaybeDef):
            return self.terms_of(v.flag) + self.terms_of(v.val)
        return []

    def scalar_cands(self, key, v0, v, out, k, lo):
        """adds generic candidates; returns [(name, getter, sort)] for scalar cells"""
        from .interp import OptV
        nm = kname(key)
        res = []

        def add(name, get, v0c):
            if is_bool(v0c):
                res.append((name, get, "bool"))
                out.append((name + " same", lambda s, kk: zb(get(s)) == zb(v0c)))
                return
            srt = "int" if z3.is_int(zn(get(self._probe))) else "real"
            res.append((name, get, srt))
            for op in ("==", ">=", "<="):
                out.append((f"{name} {op} entry", lambda s, kk, op=op: n_cmp(op, get(s), v0c)))
            if srt == "int" and k is not None:
                out.append((name + " tracks index", lambda s, kk: n_cmp("==", n_sub(get(s), v0c), n_sub(kk, lo))))
                out.append((name + " counter-tracks index", lambda s, kk: n_cmp("==", n_sub(v0c, get(s)), n_sub(kk, lo))))
                out.append((name + " at most index", lambda s, kk: n_cmp("<=", n_sub(get(s), v0c), n_sub(kk, lo))))
        self._probe = self._probe_state(key, v)
        if is_num(v0) or is_bool(v0):
            add(nm, lambda s: rd(s, key), v0)
        elif isinstance(v0, Ref):
            add(nm, lambda s: rd(s, key).t if isinstance(rd(s, key), Ref) else NULL, v0.t)
        elif v0 is None and isinstance(v, Ref):
            add(nm, lambda s: rd(s, key).t if isinstance(rd(s, key), Ref) else NULL, NULL)
        elif isinstance(v, OptV):
            def some(s):
                x = rd(s, key)
                return x.some if isinstance(x, OptV) else (x is not None)
            out.append((nm + " some same", lambda s, kk: zb(some(s)) == zb(v0 is not None)))
        elif isinstance(v0, tuple) and key[2:] == ("items",) or isinstance(v0, tuple):
            for i, x in enumerate(v0):
                if (is_num(x) or is_bool(x)) and not same(x, v[i]):
                    self._probe = self._probe_state(key, v)
                    add(f"{nm}[{i}]", lambda s, i=i: rd(s, key)[i], x)
        elif isinstance(v0, z3.ArrayRef):
            j = z3.Int("j!a")

            def arr_same(s, kk, cond):
                a = rd(s, key)
                return forall_pat([j], z3.Implies(cond(kk), z3.Select(a, j) == z3.Select(v0, j)), z3.Select(a, j))
            if k is not None:
                out.append((nm + " future same", lambda s, kk: arr_same(s, kk, lambda kk: j >= zi(kk))))
                out.append((nm + " outside same", lambda s, kk: arr_same(s, kk, lambda kk: z3.Or(j < zi(lo), j >= zi(kk)))))
            out.append((nm + " same", lambda s, kk: arr_same(s, kk, lambda kk: z3.BoolVal(True))))
            if v0.range() == z3.BoolSort() and k is not None:
                for pol in (True, False):
                    out.append((f"{nm} past {pol}", lambda s, kk, pol=pol: forall_pat([j], z3.Implies(
                        z3.And(j >= zi(lo), j < zi(kk)), z3.Select(rd(s, key), j) == pol), z3.Select(rd(s, key), j))))
        return res

    def _probe_state(self, key, v):
        s = self.entry.fork()
        try:
            wrt(s, key, v)
        except KeyError:
            pass
        return s

    # sums, products and element-wise fills
    def sum_cands(self, G, k, conts, out, lo, pure, havoced):
        vc, M, entry = self.vc, self.M, self.entry
        if not conts:
            return
        reg = registry(vc)
        gpc = {c.get_id() for c in G.pc}
        closed = {}     # head const name -> (const, fn(j) closed form)
        closed_i = []
        todo = [key for key in M if isz(rd(G, key)) and z3.is_arith(rd(G, key)) and is_num(rd(entry, key))]
        for key in list(M):
            if key[0] == "h" and key[2] == "items" and isinstance(rd(G, key), tuple) and isinstance(rd(entry, key), tuple) \
                    and len(rd(G, key)) == len(rd(entry, key)):
                for i, x in enumerate(rd(G, key)):
                    if isz(x) and z3.is_arith(x) and not same(x, rd(entry, key)[i]):
                        todo.append((key, i))
        self.closed = closed
        self.forms = {}
        changed = True
        done = set()
        while changed:
            changed = False
            for key in todo:
                if key in done:
                    continue
                get = (lambda s, key=key: rd(s, key)) if not isinstance(key[0], tuple) else (lambda s, key=key: rd(s, key[0])[key[1]])
                v, v0 = get(G), get(entry)
                delta = None
                ok = True
                # merge the paths
                cases = []
                for E in conts:
                    e = zn(get(E))
                    pcs = [c for c in E.pc if c.get_id() not in gpc and not z3.is_quantifier(c)]
                    cases.append((pcs, e))

                def clos(t):
                    subs = [(c, f(k)) for (c, f) in closed.values()]
                    return z3.substitute(t, *subs) if subs else t
                for kind in ("sum", "prod"):
                    if kind == "sum":
                        ds = [z3.simplify(zr(e) - zr(v), som=True) for _, e in cases]
                    else:
                        ds = []
                        for _, e in cases:
                            q = z3.substitute(zr(e), (v, z3.RealVal(1) if z3.is_real(v) else z3.IntVal(1)))
                            from . import prove
                            if v.decl().name() in consts(q) or not prove.ring_zero(zr(e) - zr(v) * q):
                                ds = None
                                break
                            ds.append(z3.simplify(q))
                        if ds is None:
                            continue
                    ds = [clos(d) for d in ds]
                    if not all(pure(d) for d in ds):
                        continue
                    if all(z3.is_rational_value(d) and d.as_fraction() == (0 if kind == "sum" else 1) for d in ds):
                        continue
                    if len(ds) > 1 and not all(d.eq(ds[0]) for d in ds):
                        gs = []
                        for pcs, _ in cases:
                            pp = [clos(c) for c in pcs]
                            if not all(pure(c) for c in pp):
                                gs = None
                                break
                            gs.append(z3.And(*pp) if pp else z3.BoolVal(True))
                        if gs is None:
                            continue
                        d = ds[-1]
                        for g, x in list(zip(gs, ds))[:-1][::-1]:
                            d = z3.If(g, x, d)
                    else:
                        d = ds[0]
                    body = lambda j, d=d: z3.substitute(d, (k, zi(j)))
                    if z3.is_rational_value(d) and kind == "sum":
                        form = lambda s, j, d=d: zr(v0) + d * z3.ToReal(zi(j) - zi(lo))
                        out.append((f"linear {key}", lambda s, kk, get=get, d=d, v0=v0: zr(get(s)) == zr(v0) + d * z3.ToReal(zi(kk) - zi(lo))))
                        cf = lambda j, d=d, v0=v0: zr(v0) + d * z3.ToReal(zi(j) - zi(lo))
                    else:
                        f = reg.get(vc, entry, body, lo, kind)
                        reg.base(entry, f, lo, kind)
                        self.steps.append((f, body, kind))
                        comb = (lambda a, b: a + b) if kind == "sum" else (lambda a, b: a * b)
                        out.append((f"{kind} {key}", lambda s, kk, get=get, f=f, v0=v0, comb=comb: zr(get(s)) == comb(zr(v0), f(zi(kk)))))
                        cf = lambda j, f=f, v0=v0, comb=comb: comb(zr(v0), f(zi(j)))
                    closed[v.decl().name()] = (v, (lambda j, cf=cf: cf(j)) if z3.is_real(v) else (lambda j, cf=cf: z3.ToInt(cf(j))))
                    if z3.is_int(v):
                        # keep integers integer when linear with an integer slope
                        if z3.is_rational_value(d) and d.denominator_as_long() == 1:
                            sl = d.numerator_as_long()
                            closed[v.decl().name()] = (v, lambda j, v0=v0, sl=sl: zi(v0) + sl * (zi(j) - zi(lo)))
                        else:
                            del closed[v.decl().name()]
                    self.forms[out[-1][0]] = (key, z3.is_int(v), cf)
                    changed = True
                    done.add(key)
                    break
        # element-wise fills of arrays
        for key in M:
            A = rd(G, key)
            if not isinstance(A, z3.ArrayRef):
                continue
            stores = []
            ok = True
            for E in conts:
                t = rd(E, key)
                st_ = []
                while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                    st_.append((t.arg(1), t.arg(2)))
                    t = t.arg(0)
                if not t.eq(A):
                    ok = False
                stores.append(st_)
            if not ok or not stores or any(len(x) != 1 for x in stores):
                continue
            subs = lambda t: z3.substitute(t, *[(c, f(k)) for (c, f) in closed.values()]) if closed else t
            idxs = [z3.simplify(subs(x[0][0])) for x in stores]
            vals = [subs(x[0][1]) for x in stores]
            if not all(i.eq(idxs[0]) for i in idxs):
                continue
            if len(vals) > 1:
                gs = []
                for E in conts:
                    pcs = [subs(c) for c in E.pc if c.get_id() not in gpc and not z3.is_quantifier(c)]
                    gs.append(z3.And(*pcs) if pcs else z3.BoolVal(True))
                val = vals[-1]
                for g, x in list(zip(gs, vals))[:-1][::-1]:
                    val = z3.If(g, x, val)
            else:
                val = vals[0]
            j = z3.Int("j!fill")

            def fill(s, kk, key=key, A=A, idx=idxs[0], val=val):
                cur = rd(s, key)
                ii = z3.substitute(idx, (k, j))
                vv = z3.substitute(val, (A, cur), (k, j))
                b = z3.Implies(z3.And(j >= zi(lo), j < zi(kk)), z3.Select(cur, ii) == vv)
                return z3.ForAll([j], b)
            out.append((f"fill {key}", fill))
            self.fills.append((key, idxs[0], val))
            if not idxs[0].eq(k):
                def keep(s, kk, key=key, idx=idxs[0]):
                    cur, a0 = rd(s, key), rd(entry, key)
                    b0, b1 = z3.substitute(idx, (k, zi(lo))), z3.substitute(idx, (k, zi(kk)))
                    return forall_pat([j], z3.Implies(z3.Or(j < b0, j >= b1), z3.Select(cur, j) == z3.Select(a0, j)),
                                     z3.Select(cur, j))
                out.append((f"keep {key}", keep))

    def put_forms(self, X):
        """replace a scalar by its proved closed form after the loop"""
        names = {n for n, _ in self.live}
        for nm, (key, isint, cf) in getattr(self, "forms", {}).items():
            if nm not in names:
                continue
            t = z3.simplify(zr(cf(zi(self.hi))))
            if isint:
                u = z3.simplify(z3.ToInt(t))
                X.assume(z3.ToReal(u) == t)
                t = u
            if isinstance(key[0], tuple):
                k0, i = key
                cur = rd(X, k0)
                if isinstance(cur, tuple) and i < len(cur):
                    wrt(X, k0, cur[:i] + (t,) + cur[i + 1:])
            else:
                wrt(X, key, t)

    def add_steps(self, G, k):
        for f, body, kind in self.steps:
            registry(self.vc).step(G, f, body, k, kind)


class ForRule(LoopRule):
    def __init__(self, vc, s, st, it, mod):
        super().__init__(vc, st, mod, f"for@{mod.rel}")
        self.s, self.it = s, it
        self.target = s.target.id if isinstance(s.target, ast_Name) else None
        self.steps, self.fills = [], []
        if isinstance(it, RangeV):
            step = conc(it.step)
            if step == 1:
                self.lo, self.hi = it.lo, it.hi
                self.elem = lambda S, k: k
            else:
                if not isinstance(step, int):
                    raise Unsupported("symbolic step")
                span = n_sub(it.hi, it.lo) if step > 0 else n_sub(it.lo, it.hi)
                self.lo = 0
                a = abs(step)
                self.hi = span if a == 1 else (zi(span) + (a - 1)) / a
                self.elem = lambda S, k: n_add(it.lo, n_mul(step, k))
        else:
            self.lo = 0
            self.hi = vc.length(st, it)
            self.elem = lambda S, k: vc.getitem(S, it, k)

    def k_entry(self):
        return zi(self.lo)

    def k_next(self, E, k):
        return k + 1

    def head(self, G):
        k = fresh("k", "int")
        self.kcur = k
        G.assume(k >= zi(self.lo))
        G.assume(z3.Or(k <= zi(self.hi), k == zi(self.lo)))
        self.add_steps(G, k)
        return k

    def run(self, G, k):
        vc = self.vc
        outs = []
        B = G.fork()
        B.assume(k < zi(self.hi))
        if not vc.feasible(B):
            return [], [], []
        for B2, _ in vc.assign(self.s.target, self.elem(B, k), B, self.mod):
            outs.extend(vc.block(self.s.body, B2, self.mod))
        conts = [e for e, sig in outs if sig is None or sig[0] == CNT]
        leaves = [(e, sig) for e, sig in outs if sig is not None and sig[0] != CNT]
        return conts, [], leaves

    def finish(self, G, k, exits, leaves):
        vc = self.vc
        X = G.fork()
        X.assume(k >= zi(self.hi))
        res = []
        if vc.feasible(X):
            # substitute k by hi when non-empty; last value of the loop variable
            if vc.must(X, zi(self.hi) >= zi(self.lo)):
                self.put_forms(X)
            if self.target:
                if vc.must(X, zi(self.hi) > zi(self.lo)):
                    X.assume(k == zi(self.hi))
                    try:
                        X.env[self.target] = self.elem(X, z3.simplify(k - 1)) if isinstance(self.it, RangeV) else UNDEF
                    except Unsupported:
                        X.env[self.target] = UNDEF
                else:
                    X.env[self.target] = UNDEF
            res.extend(vc.block(self.s.orelse, X, self.mod) if self.s.orelse else [(X, None)])
        for e, sig in leaves:
            res.append((e, None if sig[0] == BRK else sig))
        vc.npaths += max(0, len(res) - 1)
        return res


import ast as _ast  # noqa: E402

ast_Name = _ast.Name


class WhileRule(LoopRule):
    target = None

    def __init__(self, vc, s, st, mod):
        super().__init__(vc, st, mod, f"while@{mod.rel}")
        self.s = s
        self.steps, self.fills = [], []
        self.kkey = None

    def find_index(self):
        """a local increased by exactly one on every continuing path"""
        vc = self.vc
        M = {}
        for _ in range(12):
            G = self.havoc(M)
            vc.muted += 1
            try:
                conts, exits, leaves = self.run(G.fork(), None)
            finally:
                vc.muted -= 1
            new = {}
            grow = {}
            for E in conts:
                for key in diff_cells(G, E):
                    if key[0] == "h" and key[2] == "items" and len(rd(G, key)) != len(rd(E, key)):
                        grow.setdefault(key[1], []).extend(rd(E, key))
                    elif key not in M:
                        new[key] = rd(E, key)
            if grow:
                to_symbolic_lists(vc, self.entry, grow.keys(), grow)
                M = {}
                continue
            if not new:
                break
            M.update(new)
        for key in sorted(M, key=str):
            v = rd(G, key)
            if key[0] == "e" and isz(v) and z3.is_int(v) and conts and \
                    all(z3.simplify(zn(rd(E, key)) - v).eq(z3.IntVal(1)) for E in conts):
                self.kkey = key
                return

    def k_entry(self):
        return zi(rd(self.entry, self.kkey)) if self.kkey else None

    def k_next(self, E, k):
        return zi(rd(E, self.kkey)) if self.kkey else None

    def head(self, G):
        if not self.kkey:
            return None
        k = rd(G, self.kkey)
        if not isz(k):
            return fresh("k", "int")
        G.assume(k >= zi(rd(self.entry, self.kkey)))
        self.add_steps(G, k)
        return k

    def while_cond_cands(self, G):
        """weakened guard i <= bound for a guard conjunct i < bound"""
        out = []
        if not self.kkey:
            return out
        try:
            self.vc.muted += 1
            vals = self.vc.ev(self.s.test, G.fork(), self.mod)
        except Unsupported:
            return out
        finally:
            self.vc.muted -= 1
        k = rd(G, self.kkey)
        for s, v in vals:
            if not isz(v):
                continue
            for t in subterms(v):
                if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE) and len(t.children()) == 2:
                    a, b = t.children()
                    if t.decl().kind() in (z3.Z3_OP_GT, z3.Z3_OP_GE):
                        a, b = b, a
                    if a.eq(k):
                        strict = t.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT)
                        out.append((f"{k} <= bound", lambda S, kk, b=b, strict=strict: zi(kk) <= (b if strict else b + 1)))
        return out

    def run(self, G, k):
        vc = self.vc
        conts, exits, leaves = [], [], []
        for s, v in vc.ev(self.s.test, G, self.mod):
            for s2, t in vc.split(s, vc.truth(s, v)):
                if not t:
                    exits.append(s2)
                    continue
                for e, sig in vc.block(self.s.body, s2, self.mod):
                    if sig is None or sig[0] == CNT:
                        conts.append(e)
                    else:
                        leaves.append((e, sig))
        return conts, exits, leaves

    def finish(self, G, k, exits, leaves):
        vc = self.vc
        res = []
        for X in exits:
            res.extend(vc.block(self.s.orelse, X, self.mod) if self.s.orelse else [(X, None)])
        for e, sig in leaves:
            res.append((e, None if sig[0] == BRK else sig))
        return res


def for_loop(vc, s, st, it, mod):
    return ForRule(vc, s, st.fork(), it, mod).go()


def while_loop(vc, s, st, mod):
    # unroll while the guard is decided without a split (bounded by a constant of the program)
    live = [st]
    done = []
    for _ in range(70):
        nxt = []
        symbolic = False
        for x in live:
            probe = x.fork()
            n0 = vc.npaths
            r = vc.ev(s.test, probe, mod)
            if len(r) != 1 or not isinstance(conc(vc.truth(r[0][0], r[0][1])), bool):
                symbolic = True
                break
        if symbolic:
            break
        for x in live:
            for y, v in vc.ev(s.test, x, mod):
                t = conc(vc.truth(y, v))
                if not t:
                    done.extend(vc.block(s.orelse, y, mod) if s.orelse else [(y, None)])
                    continue
                for z, sig in vc.block(s.body, y, mod):
                    if sig is None or sig[0] == CNT:
                        nxt.append(z)
                    elif sig[0] == BRK:
                        done.append((z, None))
                    else:
                        done.append((z, sig))
        live = nxt
        if not live:
            return done
    # peel one iteration that certainly happens when it defines locals that later iterations or the code after the loop read
    names = {t.id for b in s.body for n in _ast.walk(b) if isinstance(n, _ast.Assign) for t in n.targets if isinstance(t, _ast.Name)}
    nxt = []
    for x in live:
        if names - set(x.env) and not s.orelse:
            r = vc.ev(s.test, x.fork(), mod)
            if all(vc.must(y, vc.truth(y, v)) for y, v in r):
                for y, v in r:
                    y.assume(vc.truth(y, v))
                    for z, sig in vc.block(s.body, y, mod):
                        if sig is None or sig[0] == CNT:
                            nxt.append(z)
                        else:
                            done.append((z, None if sig[0] == BRK else sig))
                continue
        nxt.append(x)
    for x in nxt:
        w = WhileRule(vc, s, x.fork(), mod)
        w.find_index()
        done.extend(w.go())
    return done


def symbolic_comp(vc, st, mod, gen, elt, it, saved):
    """[elt for x in it] with a symbolic number of elements and a pure numeric element"""
    n = vc.length(st, it)
    j = fresh("j", "int")
    base_fresh = core._fresh[0]
    B = st.fork()
    B.assume(z3.And(j >= 0, j < zi(n)))
    a0 = {k: v for k, v in B.cells.items() if k[0] == "alloc"}
    for B2, _ in vc.assign(gen.target, vc.getitem(B, it, j), B, mod):
        r = vc.ev(elt, B2, mod)
        if len(r) != 1:
            # merge pure paths
            vals = []
            base = len(B2.pc)
            raise Unsupported("branching comprehension element")
        e, v = r[0]
        if isinstance(v, Ref) and v.cls in vc.heap_classes:
            return comp_objects(vc, st, e, v, j, n, saved)
        if diff_cells(B2, e):
            raise Unsupported("comprehension with side effects")
        w = infer_wrap(v)
        if w == "int" and not vc.opts.get("int_lists"):
            w = "real"
        t = unwrap(w, v)
        st.env = dict(saved)
        arr = fresh("comp", z3.ArraySort(z3.IntSort(), sort_of_wrap(w)))
        q = z3.Int("j!comp")
        extra = e.pc[len(st.pc):]
        # values drawn anew for every element: one array of draws each
        draws = {}
        for x in [t] + extra:
            for u in subterms(x):
                if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not u.eq(j):
                    m = _re.search(r"!(\d+)$", u.decl().name())
                    if m and int(m.group(1)) > base_fresh:
                        draws.setdefault(u.decl().name(), (u, fresh("draws", z3.ArraySort(z3.IntSort(), u.sort()))))
        subs = [(u, z3.Select(a, j)) for u, a in draws.values()]
        t = z3.substitute(t, *subs) if subs else t
        extra = [z3.substitute(c, *subs) for c in extra if not z3.is_quantifier(c)] if subs else extra
        for ev in e.trace[len(st.trace):]:
            if ev[0] != "gen" or not isz(ev[2]) or ev[2].decl().name() not in draws:
                raise Unsupported("comprehension with side effects")
            st.trace.append(("gen each", ev[1], draws[ev[2].decl().name()][1], n))
        for c in extra:
            if not (z3.is_quantifier(c)):
                st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(n)), z3.substitute(c, (j, q)))) if j.decl().name() in consts(c) else c)
        st.assume(forall_pat([q], z3.Implies(z3.And(q >= 0, q < zi(n)), z3.Select(arr, q) == z3.substitute(t, (j, q))),
                            z3.Select(arr, q)))
        return vc.new_slist(st, w, "comp", length=n, arr=arr)


def comp_objects(vc, st, e, v, j, n, saved):
    """[C(...) for i in range(n)] for a heap class C: n new consecutive references with the fields set alike"""
    cls = v.cls
    base = st.cells.get(("alloc", cls))
    if base is None:
        base = fresh("alloc_" + cls, "int")
        st.assume(base >= 0)
    end = e.cells[("alloc", cls)]
    v_t = v.t
    if not isz(v_t):
        v_t = z3.IntVal(v_t)
    for c2, fields in e.ch.items():
        for f, arr in fields.items():
            old = st.ch.get(c2, {}).get(f)
            if old is None:
                st.ch.setdefault(c2, {})[f] = old = z3.Const(f"{c2}.{f}@0", arr.sort())
                st.wr.setdefault(c2, {}).setdefault(f, e.wr.get(c2, {}).get(f))
            if arr.eq(old):
                continue
            if c2 != cls:
                raise Unsupported("comprehension modifies another class heap")
            val = z3.simplify(z3.Select(arr, v_t))
            if j.decl().name() in consts(val) or any(x.startswith("sample!") for x in consts(val)):
                raise Unsupported("index-dependent object initialisation")
            na = fresh(f, arr.sort())
            q = z3.Int("j!co")
            st.assume(forall_pat([q], z3.Select(na, q) == z3.If(z3.And(q >= base, q < base + zi(n)), val, z3.Select(old, q)),
                                z3.Select(na, q)))
            st.ch[c2][f] = na
    for key, x in e.cells.items():
        if key not in st.cells or not same(st.cells[key], x):
            if key == ("alloc", cls):
                st.cells[key] = z3.simplify(base + zi(n))
            elif key[0] == "cattr":
                st.cells[key] = fresh("cattr", "int")
            else:
                raise Unsupported("comprehension side effect")
    st.env = dict(saved)
    l = Lst(vc.new_oid())
    st.heap[l.oid] = {"k": "s", "arr": None, "lo": base, "hi": z3.simplify(base + zi(n)), "w": "ref:" + cls, "tag": None}
    return l
