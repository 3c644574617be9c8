"""Discharging obligations: z3 first, cvc5 second, a rational-function normaliser ("ring") for field identities."""
import os
import subprocess
import tempfile
import time

import z3

RL_PER_MS = 4000       # resource units per (nominal) millisecond: limits are counted, not timed, so runs are repeatable


def limit(s, ms):
    s.set("rlimit", int(ms * RL_PER_MS))
    s.set("timeout", int(ms * 12 + 2000))


def solver(ms):
    """E-matching only: fast, incomplete on quantifiers (which makes 'unknown' come back quickly)"""
    s = z3.SimpleSolver()
    limit(s, ms)
    s.set("auto_config", False)
    s.set("mbqi", False)
    return s


def quick_valid(hyps, goal, ms=600):
    return quick_check(hyps, goal, ms)[0]


def quick_check(hyps, goal, ms=600):
    """-> (valid?, candidate counter-model or None)"""
    if z3.is_true(goal):
        return True, None
    s = solver(ms)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return True, None
    try:
        return False, s.model()
    except z3.Z3Exception:
        return False, None


# ------------------------------------------------------------------------------------------ ring
class RingFail(Exception):
    pass


def to_sympy(t, atoms, cache):
    import sympy as sp
    i = t.get_id()
    if i in cache:
        return cache[i]
    if z3.is_int_value(t):
        r = sp.Integer(t.as_long())
    elif z3.is_rational_value(t):
        r = sp.Rational(t.numerator_as_long(), t.denominator_as_long())
    elif z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = sp.Add(*[to_sympy(c, atoms, cache) for c in ch])
        elif k == z3.Z3_OP_MUL:
            r = sp.Mul(*[to_sympy(c, atoms, cache) for c in ch])
        elif k == z3.Z3_OP_SUB:
            r = to_sympy(ch[0], atoms, cache)
            for c in ch[1:]:
                r = r - to_sympy(c, atoms, cache)
        elif k == z3.Z3_OP_UMINUS:
            r = -to_sympy(ch[0], atoms, cache)
        elif k == z3.Z3_OP_DIV:
            r = to_sympy(ch[0], atoms, cache) / to_sympy(ch[1], atoms, cache)
        elif k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            r = to_sympy(ch[0], atoms, cache) ** ch[1].as_long()
        elif k == z3.Z3_OP_TO_REAL:
            r = to_sympy(ch[0], atoms, cache)
        else:
            r = atom(t, atoms, cache)
    else:
        r = atom(t, atoms, cache)
    cache[i] = r
    return r


def atom(t, atoms, cache=None):
    import sympy as sp
    key = t.sexpr()
    if key not in atoms and cache is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(z3.is_arith(c) for c in t.children()):
        # the same function of arguments that are identically equal is one atom
        try:
            canon = t.decl().name() + "(" + ", ".join(str(sp.expand(sp.cancel(to_sympy(c, atoms, cache)))) for c in t.children()) + ")"
        except Exception:
            canon = key
        byc = atoms.setdefault(" canon", {})
        if canon in byc:
            return byc[canon]
        atoms[key] = (sp.Symbol(f"a{len(atoms)}"), t)
        byc[canon] = atoms[key][0]
        return atoms[key][0]
    if key not in atoms:
        atoms[key] = (sp.Symbol(f"a{len(atoms)}"), t)
    return atoms[key][0]


def ring_zero(t, hyps=(), rules=()):
    """is the term identically zero as a rational function (with sqrt(x)^2 = x and given rewrite equalities)?"""
    import sympy as sp
    atoms, cache = {}, {}
    t = z3.simplify(t, arith_lhs=False, som=False, flat=True)
    try:
        e = to_sympy(t, atoms, cache)
    except RecursionError:
        return False
    num = sp.numer(sp.together(e))
    num = sp.expand(num)
    if num == 0:
        return True
    # power rules of atoms: sqrt(x)^2 = x ; powi(x, n + c) = powi(x, n) x^c
    changed = True
    rounds = 0
    while changed and rounds < 12:
        rounds += 1
        changed = False
        for key in [x for x in atoms if x != " canon"]:
            sym, term = atoms[key]
            if sym not in num.free_symbols:
                continue
            nm = term.decl().name() if z3.is_app(term) else ""
            if nm == "sqrt":
                arg = to_sympy(term.arg(0), atoms, cache)
                p = sp.Poly(num, sym)
                if p.degree() >= 2:
                    r = 0
                    for (d,), c in p.terms():
                        r += c * arg ** (d // 2) * sym ** (d % 2)
                    num = sp.expand(sp.numer(sp.together(r)))
                    changed = True
            elif nm == "powi":
                x, n = term.arg(0), z3.simplify(term.arg(1))
                off = 0
                if z3.is_add(n):
                    cs = [c for c in n.children() if z3.is_int_value(c)]
                    off = sum(c.as_long() for c in cs)
                if off != 0:
                    base = z3.simplify(n - off)
                    b = atom(term.decl()(x, base), atoms)
                    xs = to_sympy(x, atoms, cache)
                    num = sp.expand(sp.numer(sp.together(num.subs(sym, b * xs ** off))))
                    changed = True
            elif nm == "fact":
                a = z3.simplify(term.arg(0))
                off = sum(c.as_long() for c in a.children() if z3.is_int_value(c)) if z3.is_add(a) else 0
                if off > 0:
                    prev = z3.simplify(a - 1)
                    g = atom(term.decl()(prev), atoms)
                    num = sp.expand(sp.numer(sp.together(num.subs(sym, g * to_sympy(a, atoms, cache)))))
                    changed = True
            elif nm == "gamma":
                a = z3.simplify(term.arg(0))
                off = 0
                if z3.is_add(a):
                    for c in a.children():
                        if z3.is_rational_value(c) and c.denominator_as_long() == 1 and c.numerator_as_long() > 0:
                            off = c.numerator_as_long()
                if off:
                    prev = z3.simplify(a - 1)
                    g = atom(term.decl()(prev), atoms)
                    num = sp.expand(sp.numer(sp.together(num.subs(sym, g * to_sympy(prev, atoms, cache)))))
                    changed = True
        for (l, r) in rules:
            if l.sexpr() not in atoms:
                continue
            ls = to_sympy(l, atoms, cache)
            if ls in num.free_symbols:
                rs = to_sympy(r, atoms, cache)
                num = sp.expand(sp.numer(sp.together(num.subs(ls, rs))))
                changed = True
        if num == 0:
            return True
    return num == 0


def hyp_rules(hyps):
    """equations atom = term among the hypotheses, as rewrite rules"""
    out = []
    for h in hyps:
        if z3.is_and(h):
            out.extend(hyp_rules(h.children()))
        elif z3.is_eq(h) and z3.is_arith(h.arg(0)):
            a, b = h.arg(0), h.arg(1)
            for l, r in ((a, b), (b, a)):
                if z3.is_app(l) and l.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and not occurs(l, r):
                    out.append((l, r))
                    break
    return out


def occurs(x, t):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.eq(x):
            return True
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        todo.extend(u.children())
    return False


def ring_prove(hyps, goal, rules=()):
    g = goal
    if z3.is_implies(g):
        return ring_prove(list(hyps) + [g.arg(0)], g.arg(1), rules)
    if not rules:
        rules = hyp_rules(hyps)
    if z3.is_and(g):
        return all(ring_prove(hyps, c, rules) for c in g.children())
    if z3.is_eq(g) and z3.is_arith(g.arg(0)):
        return ring_zero(g.arg(0) - g.arg(1), hyps, rules)
    return False


def apps(t):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            yield u
            todo.extend(u.children())


def read_through(hyps, t):
    """select(store(a, i, v), j) -> v or select(a, j) when the hypotheses decide i = j; also returns an undecided i = j"""
    und = None
    for _ in range(14):
        t = z3.simplify(t)
        hit, und = None, None
        for u in apps(t):
            if u.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(u.arg(0)) and u.arg(0).decl().kind() == z3.Z3_OP_STORE:
                a, i, v = u.arg(0).children()
                if quick_valid(hyps, i == u.arg(1), ms=150):
                    hit = (u, v)
                elif quick_valid(hyps, i != u.arg(1), ms=150):
                    hit = (u, z3.Select(a, u.arg(1)))
                else:
                    und = (i, u.arg(1))
                    continue
                break
        if hit is None:
            break
        t = z3.substitute(t, hit)
    return t, und


def foralls(hyps):
    for h in hyps:
        if z3.is_and(h):
            yield from foralls(h.children())
        elif z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort():
            b = h.body()
            for c in (b.children() if z3.is_and(b) else [b]):
                g, e = (c.arg(0), c.arg(1)) if z3.is_implies(c) else (None, c)
                if z3.is_eq(e) and z3.is_arith(e.arg(0)):
                    yield g, e.arg(0), e.arg(1)


def unfold(hyps, t, rounds=6):
    """replaces array elements by what universally quantified hypotheses say they are (guards proved)"""
    qs = list(foralls(hyps))
    done = set()
    for _ in range(rounds):
        hit = None
        for u in apps(t):
            if u.decl().kind() != z3.Z3_OP_SELECT or u.get_id() in done:
                continue
            arr, ix = u.children()
            for g, a, b in qs:
                for l, r in ((a, b), (b, a)):
                    if not (z3.is_app(l) and l.decl().kind() == z3.Z3_OP_SELECT and l.arg(0).eq(arr)):
                        continue
                    pat = l.arg(1)
                    if z3.is_var(pat):
                        inst = ix
                    elif z3.is_add(pat) and len(pat.children()) == 2 and any(z3.is_var(c) for c in pat.children()) and any(z3.is_int_value(c) for c in pat.children()):
                        inst = z3.simplify(ix - next(c for c in pat.children() if z3.is_int_value(c)))
                    else:
                        continue
                    rr = z3.substitute_vars(r, inst)
                    if any(x.eq(u) for x in apps(rr)):
                        continue
                    if g is not None and not quick_valid(hyps, z3.substitute_vars(g, inst), ms=200):
                        continue
                    hit = (u, rr)
                    break
                if hit:
                    break
            if hit:
                break
            done.add(u.get_id())
        if hit is None:
            return t
        t = z3.simplify(z3.substitute(t, hit))
    return t


def array_valid(hyps, goal, ms=600, depth=2):
    """equations about array elements: stores read through (with case splits), elements unfolded, then ring"""
    if quick_valid(hyps, goal, ms=min(ms, 300)):
        return True
    g, und = read_through(hyps, goal)
    if z3.is_true(g) or quick_valid(hyps, g, ms=200):
        return True
    if und is not None and depth:
        a, b = und
        return all(quick_valid(h2, z3.BoolVal(False), ms=150) or array_valid(h2, z3.substitute(g, *([(a, b)] if eqn and not z3.is_int_value(a) else [])), ms, depth - 1)
                   for eqn, h2 in ((True, list(hyps) + [a == b]), (False, list(hyps) + [a != b])))
    if ring_try(hyps, g):
        return True
    g2 = unfold(hyps, g)
    if g2.eq(g):
        return quick_valid(hyps, g, ms=ms)
    return ring_try([], g2) or ring_try(hyps, g2) or quick_valid(hyps, g2, ms=ms)


def ring_try(hyps, goal):
    try:
        return ring_prove(hyps, goal)
    except Exception:
        return False


# ------------------------------------------------------------------------------------------ discharge
def cvc5_check(hyps, goal, secs):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        r = subprocess.run(["cvc5", f"--tlimit={int(secs*1000)}", fn], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return out
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


def split_goal(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out.extend(split_goal(c))
        return out
    return [g]


def prove1(hyps, goal, ms=8000, ring=True, use_cvc5=True, rules=(), ring_first=False):
    """-> (status, backend, model) with status in proved / refuted / unknown"""
    t0 = time.time()
    if z3.is_true(z3.simplify(goal)):
        return "proved", "simplify", None
    nl_eq = z3.is_eq(goal) and z3.is_arith(goal.arg(0))
    if ring_first and nl_eq:
        try:
            if ring_prove([], goal, rules):
                return "proved", "ring", None
        except Exception:
            pass
    s = solver(1500 if nl_eq and ring else ms)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", None
    if r == z3.sat:
        return "refuted", "z3", s.model()
    if nl_eq and ring:
        try:
            if ring_prove(hyps, goal, rules):
                return "proved", "ring", None
        except Exception:
            pass
        try:
            if any(u.decl().kind() == z3.Z3_OP_SELECT for u in apps(goal)) and array_valid(hyps, goal):
                return "proved", "ring+z3", None
        except Exception:
            pass
    s = z3.Solver()
    limit(s, ms)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", None
    if r == z3.sat:
        return "refuted", "z3", s.model()
    if use_cvc5:
        out = cvc5_check(hyps, goal, ms / 1000.0)
        if out == "unsat":
            return "proved", "cvc5", None
        if out == "sat":
            return "refuted", "cvc5", None
    return "unknown", "-", None


def discharge(obl, ms=8000):
    t0 = time.time()
    bes = set()
    status, model = "proved", None
    for g in split_goal(obl.goal):
        if obl.opts.get("ring_only"):       # identities over any field (complex parameters): real arithmetic must not be used
            ok = z3.is_true(z3.simplify(g)) or ring_try([] if obl.opts.get("no_hyps", True) else obl.hyps, g)
            st, be, m = ("proved" if ok else "unknown"), "ring", None
        else:
            st, be, m = prove1(obl.hyps, g, ms=obl.opts.get("ms", ms), ring=obl.opts.get("ring", True),
                               use_cvc5=obl.opts.get("cvc5", True), rules=obl.opts.get("rules", ()), ring_first=obl.opts.get("ring_first", False))
        bes.add(be)
        if st != "proved":
            status, model = st, m
            break
    obl.status, obl.backend, obl.time, obl.model = status, "+".join(sorted(bes)), time.time() - t0, model
    return obl
