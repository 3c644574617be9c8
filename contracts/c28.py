"""C28: load factors (sim/utils/distribution_utils.py, QueueingSystemSimulator.calc_load, PriorityQueueSimulator.calc_load)."""
from contracts.theory import *

F = "sim/utils/distribution_utils.py"
KINDS = ("M", "H", "E", "Gamma", "C", "Pa", "Uniform", "Norm", "D")


def law(t, st, kind, tag):
    """-> (parameters, mean, preconditions)"""
    a, b, c = t.reals(f"{tag}a {tag}b {tag}c")
    if kind == "M":
        return a, 1 / a, [a > 0]
    if kind == "D":
        return a, a, [a > 0]
    if kind in ("H", "C"):
        m = a / b + (1 - a) / c if kind == "H" else 1 / b + a / c
        return t.list(st, [a, b, c]), m, [a >= 0, a <= 1, b > 0, c > 0]
    if kind == "E":
        r = z3.Int(tag + "r")
        return t.list(st, [r, b]), z3.ToReal(r) / b, [r >= 1, b > 0]
    if kind == "Gamma":
        return t.list(st, [a, b]), b / a, [a > 0, b > 0]
    if kind == "Pa":
        return t.list(st, [a, b]), a * b / (a - 1), [a > 1, b > 0]
    return t.list(st, [a, b]), a, [a > 0]


def new_dict(t, st, d):
    o = Lst(t.vc.new_oid())
    st.heap[o.oid] = {"k": "d", **{("key", k): v for k, v in d.items()}}
    return o


def unit(what):
    t = T(what)
    n = z3.Int("n")
    if what == "pairs":
        for src in KINDS:
            for srv in KINDS:
                st = t.st(n >= 1)
                p, m, pre = law(t, st, src, "u")
                q, b, pre2 = law(t, st, srv, "v")
                for x in pre + pre2:
                    st.assume(x)
                for s, v in t.call(F, "calc_qs_load", st, [src, p, srv, q, n], what=f"calc_qs_load({src}, {srv})"):
                    t.chk(s, v is not None, f"load of {src}/{srv}: a number")
                    if v is not None:
                        t.eq(s, v, b / m / z3.ToReal(n), f"load of {src}/{srv}/n = arrival rate times mean service time over n")
    elif what == "single":
        for src, srv in (("M", "H"), ("E", "Pa"), ("C", "D")):
            st = t.st(n >= 1)
            p, m, pre = law(t, st, src, "u")
            q, b, pre2 = law(t, st, srv, "v")
            f = z3.Function("load", R, R, R, R)
            seen = []
            t.vc.contracts = {"calc_qs_load": lambda vc, s, recv, a, kw: (seen.append((list(a), kw)), [(s, z3.Real("load"))])[1]}
            cls = t.vc.cls(MQ + "sim/qs_sim.py", "QueueingSystemSimulator")
            o = t.vc.new_obj(st, cls, {"source_params": p, "source_types": src, "server_params": q, "server_types": srv, "n": n})
            for s, v in t.method(st, o, "calc_load", what=f"calc_load({src}, {srv})"):
                names = ("source_types", "source_params", "server_types", "server_params", "n")
                t.chk(s, len(seen) == 1, "calc_load: computed by calc_qs_load")
                for a, kw in seen:
                    full = dict(zip(names, a))
                    full.update(kw)
                    ok = full.get("source_types") == src and full.get("server_types") == srv and full.get("source_params") is p and full.get("server_params") is q and full.get("n") is n
                    t.chk(s, bool(ok), "calc_load: the queue's own parameters are passed")
                t.eq(s, v, z3.Real("load"), "calc_load: result returned")
    elif what == "priority":
        for k in (1, 2, 3, 5):
            st = t.st(n >= 1)
            kinds = [(KINDS[(2 * i) % 9], KINDS[(2 * i + 3) % 9]) for i in range(k)]
            tot, srcs, srvs = 0, [], []
            for i, (src, srv) in enumerate(kinds):
                p, m, pre = law(t, st, src, f"u{i}")
                q, b, pre2 = law(t, st, srv, f"v{i}")
                for x in pre + pre2:
                    st.assume(x)
                tot = tot + b / m / z3.ToReal(n)
                srcs.append(new_dict(t, st, {"type": src, "params": p}))
                srvs.append(new_dict(t, st, {"type": srv, "params": q}))
            cls = t.vc.cls(MQ + "sim/priority_queue_sim.py", "PriorityQueueSimulator")
            o = t.vc.new_obj(st, cls, {"sources_params": t.list(st, srcs), "servers_params": t.list(st, srvs), "n": n, "k": k})
            for s, v in t.method(st, o, "calc_load", what=f"priority calc_load, {k} classes"):
                t.chk(s, v is not None, f"priority load, {k} classes: a number")
                if v is not None:
                    t.eq(s, v, tot, f"priority load, {k} classes: sum of the loads of the classes")
    return t.vc


UNITS = ("pairs", "single", "priority")
