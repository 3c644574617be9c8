"""C11: impatient customers (sim/impatient_queue_sim.py on top of sim/qs_sim.py), without warm-up and cooling."""
from contracts.qs import *
from contracts import qs

TAGS = frozenset(["C01", "C02", "C03", "C04", "C11"])
IM = "most_queue/sim/impatient_queue_sim.py"
SCH = {"Server": {**SCHEMA["Server"], "tsk_on_service": "opt:ImpatientTask"},
       "ImpatientTask": {**SCHEMA["Task"], "moment_to_leave": "real"}}


class ImpatientContract(QsContract):
    module = IM
    cls_name = "ImpatientQueueSim"
    TASK, task_file, SCHEMA = "ImpatientTask", IM, SCH

    def __init__(self, buffer, queue="QsQueueList"):
        super().__init__(buffer, TAGS, queue)
        self.phases = "none"

    def ctor(self, st, bt):
        return [self.N, self.buf], {"verbose": False}

    def leave(self, st):
        self.vc.ensure(st, self.TASK, "moment_to_leave", "real")
        return st.ch[self.TASK]["moment_to_leave"]

    def make(self, st):
        st.setg("left", z3.IntVal(0))
        return super().make(st)

    def symbolic(self):
        return super().symbolic()

    def set_servers_sym(self, st):
        d = dict(st.heap[self.sim.oid])
        d["impatience"] = Opq("dist", ("patience",))
        st.heap[self.sim.oid] = d
        st.setg("left", z3.Int("g.left"))
        return st

    def on_start(self, vc, pre, st, recv, args, res):
        super().on_start(vc, pre, st, recv, args, res)
        self.chk(st, z3.Select(self.leave(st), zi(args[0].t)) >= zr(args[1]), "start_service: not after the job's patience ran out [C11]")

    def inv(self, st):
        V = View(self, st)
        S = z3.Select
        n, free = self.N, zi(V.free_channels)
        i = z3.Int("i!lv")
        lv = self.leave(st)
        left = st.g("left")
        own = {
            "arrived = served + dropped + in system [C01]": zi(V.arrived) == zi(V.served) + (zi(V.dropped) - left) + zi(V.in_sys),
            "counters non-negative [C01]": z3.And(zi(V.served) >= left, zi(V.dropped) >= left, left >= 0, V.q_hi - V.q_lo >= 0, zi(V.in_sys) >= 0),
            "started = taken, ended = served [C04]": z3.And(V.g_started + left == zi(V.taked), V.g_ended + left == zi(V.served)),
            "nothing dropped without a buffer limit [C02]": zi(V.dropped) == left,
            "total = served [C01]": zi(V.total) == zi(V.served) - left,
        }
        out = [(nm, own.get(nm, c)) for nm, c in super().inv(st)]
        out.append(("waiting jobs have patience left [C11]", z3.ForAll([i], z3.Implies(z3.And(i >= V.q_lo, i < V.q_hi), S(lv, S(V.q_arr, i)) >= zr(V.ttek)),
                                                                  patterns=[S(V.q_arr, i)])))
        return out

    def pending_min(self, V, i=None):
        base = super().pending_min(V)
        S = z3.Select
        i = z3.Int("i!pl")
        lv = self.leave(V.st)
        q, lo, hi = V.q_arr, V.q_lo, V.q_hi
        return lambda t0: z3.And(base(t0), z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), t0 <= S(lv, S(q, i))), patterns=[S(q, i)]))

    def deadlines_kept(self, o, V, where):
        i = z3.Int("i!dl")
        self.chk(V.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.alloc), z3.Select(self.leave(o.st), i) == z3.Select(self.leave(V.st), i))),
                 f"{where}: deadlines of existing jobs are kept [C11]")

    def same_jobs(self, o, V, where):
        super().same_jobs(o, V, where)
        self.deadlines_kept(o, V, where)
        s = V.st
        if where == "arrival":
            xs = [x for kd, d, x in s.trace if kd == "gen" and d == ("patience",)]
            self.chk(s, len(xs) == 1, where + ": one patience time drawn [C11]")
            i = z3.Int("i!nw")
            if len(xs) == 1:
                self.chk(s, z3.ForAll([i], z3.Implies(z3.And(i >= V.q_lo, i < V.q_hi, z3.Select(V.q_arr, i) >= o.alloc),
                                                      z3.Select(self.leave(s), z3.Select(V.q_arr, i)) == zr(V.ttek) + xs[0])), where + ": the new job will leave after its patience time [C11]")

    def drop(self):
        """departure of the waiting job at place i of the queue, at its deadline"""
        vc = self.vc
        st = self.symbolic()
        pre = st.fork()
        o = View(self, pre)
        S = z3.Select
        i = z3.Int("i")
        j = z3.Int("j!dp")
        q, lo, hi = o.q_arr, o.q_lo, o.q_hi
        st.assume(z3.And(i >= 0, i < hi - lo))
        job = S(q, lo + i)
        t0 = S(self.leave(st), job)
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        self.reach(st, "drop_task")

        def cands(vc, entry, s, kk, lo_):
            k = (zi(kk) - zi(lo_)) if kk is not None else z3.IntVal(0)
            out = []
            for oid, d in s.heap.items():
                if d.get("k") == "s" and str(d.get("w")) in ("ref:ImpatientTask", "opt:ImpatientTask") and d.get("arr") is not None:
                    a, l, h = d["arr"], d["lo"], d["hi"]
                    out.append(("kept so far", h - l == z3.If(k > i, k - 1, k)))
                    out.append(("jobs before", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k, j < i), S(a, l + j) == S(q, lo + j)), patterns=[S(a, l + j)])))
                    out.append(("jobs after", z3.ForAll([j], z3.Implies(z3.And(j >= i, j + 1 < k), S(a, l + j) == S(q, lo + j + 1)), patterns=[S(a, l + j)])))
            for nm, v in s.env.items():
                if isinstance(v, Ref):
                    out.append(("the leaving job in " + nm, z3.Implies(k > i, v.t == job)))
                elif isinstance(v, OptV) and isinstance(v.val, Ref):
                    out.append(("the leaving job in " + nm, z3.Implies(k > i, v.val.t == job)))
            return out
        vc.loop_cands = [cands]
        outs = self.call("drop_task", st, [i, t0])
        self.outcomes("drop_task", outs)
        for s, _ in outs:
            V = View(self, s)
            W = "drop_task"
            x = t0 - S(o.arr, job)
            for k in range(3):
                s.setg(f"W{k}", o.st.g(f"W{k}") + PW[k + 1](x))
                s.setg(f"V{k}", o.st.g(f"V{k}") + PW[k + 1](x))
            s.setg("left", o.st.g("left") + 1)
            self.full_ghost(o, V)
            self.time_clauses(o, V, t0, W)
            for f, dl in (("arrived", 0), ("served", 1), ("dropped", 1), ("taked", 1)):
                self.chk(s, zi(getattr(V, f)) == zi(getattr(o, f)) + dl, f"{W}: {f} changes by the event only [C01]")
            self.chk(s, z3.And(zi(V.n) == self.N, (V.buffer is None) if self.buf is None else zn(V.buffer) == self.buf), f"{W}: configuration untouched [C01]")
            self.chk(s, zr(V.arrival_time) == zr(o.arrival_time), W + ": next arrival untouched [C03]")
            self.same_servers(o, V, s, W, tag="C11")
            self.chk(s, V.q_hi - V.q_lo == hi - lo - 1, W + ": one job leaves the queue [C11]")
            self.chk(s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), S(V.q_arr, V.q_lo + j) == S(q, lo + j))), W + ": jobs before it keep their places [C11]")
            self.chk(s, z3.ForAll([j], z3.Implies(z3.And(j >= i, j < hi - lo - 1), S(V.q_arr, V.q_lo + j) == S(q, lo + j + 1))), W + ": jobs after it move up [C11]")
            self.same_jobs(o, V, W)
            self.check_inv(s, W)

    def step(self):
        def handler(vc, s, recv, args, kw):
            V = View(self, s)
            S = z3.Select
            a = list(args) + [kw[x] for x in ("num_of_task_in_queue", "moment_to_leave_earlier")[len(args):]]
            i = zi(a[0])
            en = z3.And(i >= 0, i < V.q_hi - V.q_lo)
            t0 = S(self.leave(s), S(V.q_arr, V.q_lo + i))
            self.chk(s, en, "run_one_step: a departure concerns a waiting job [C11]")
            self.chk(s, z3.Implies(en, zr(a[1]) == t0), "run_one_step: the departure happens at the job's deadline [C11]")
            self.chk(s, z3.Implies(en, self.pending_min(V)(t0)), "run_one_step: the departure is the earliest pending event [C03]")
            for nm, cl in self.inv(s):
                self.vc.check(s, zb(cl), f"run_one_step: at drop_task: {nm}")
            s.trace.append(("event", "drop_task", t0))
            return [(s, None)]
        self.vc.contracts[f"{self.cls_name}.drop_task"] = handler
        return super().step()


def unit(what, buffer=None, queue="QsQueueList"):
    c = ImpatientContract(buffer, queue)
    c.vc.name = f"{what}[buffer={buffer}]"
    if what in ("establish", "getters", "run_loop"):
        getattr(qs, what)(c)
    else:
        getattr(c, what)()
    return c.vc

