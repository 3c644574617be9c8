"""C07, C08 (and the node part of C13): the priority simulator sim/priority_queue_sim.py with n channels and K classes
(bounded in these two numbers only); histories, queue lengths, times, buffer are arbitrary."""
from contracts.qs import *
from contracts import c12

PQ = "most_queue/sim/priority_queue_sim.py"
S = z3.Select
b2i = c12.b2i
PREEMPT = ("PR", "RS", "RW")

# clauses of one property that the proofs of the other rest on
SUPPORT7 = {
    "free channels counted": "C07 C08", "class of the waiting jobs": "C07 C08", "waiting jobs exist": "C07 C08", "jobs in service exist": "C07 C08",
    "queue length not negative": "C07 C08", "busy channels end in the future": "C07 C08", "idle channels": "C07 C08",
    "next arrival not in the past": "C07 C08", "arrived not later than now": "C07 C08", "class of the busy period": "C07 C08",
}


class PV:
    """reads the fields of a symbolic state"""

    def __init__(self, c, st):
        self.c, self.st = c, st

    def __getattr__(self, name):
        c, st = self.c, self.st
        d = st.heap[c.sim.oid]
        if name in c.TF:
            c.vc.ensure(st, "Task", name, c.TASKS["Task"][name])
            return st.ch["Task"][name]
        if name == "cls":
            return getattr(self, c.cf)
        if name == "alloc":
            return zi(st.cells[("alloc", "Task")])
        if name.startswith("g_"):
            return st.cells[("ghost", name[2:])]
        v = d[name]
        if isinstance(v, Lst):
            return list(st.heap[v.oid]["items"])
        return v

    def p_arr(self, i):
        return self.st.heap[self.p[i].oid]["arr"]

    def mom(self, name, i):
        return list(self.st.heap[getattr(self, name)[i].oid]["items"])

    def q(self, i=0):
        d = self.st.heap[self.c.sim.oid]["queue"]
        l = self.st.heap[(d if self.c.kind == "No" else self.st.heap[d.oid]["items"][i]).oid]
        if l["k"] != "s":
            raise Unsupported("queue representation")
        return l["arr"], l["lo"], l["hi"]

    def srv(self, i):
        """is_free, end time, job in service"""
        o = self.st.heap[self.servers[i].oid]
        t = o["tsk_on_service"]
        k = z3.IntVal(-1) if t is None else (zi(t.val.t) if isinstance(t, OptV) else zi(t.t))
        return zb(o["is_free"]), zr(o["time_to_end_service"]), k

    def total_time(self, i):
        return zr(self.st.heap[self.servers[i].oid]["total_time_to_serve"])


class PrioContract(QsContract):
    module, cls_name = PQ, "PriorityQueueSimulator"
    config = ("n", "k", "buffer", "prty_type", "generator", "num_of_states", "is_next_calc", "is_warm_up_set", "sources_params", "servers_params")
    INTL = ("taked", "served", "in_sys", "arrived", "dropped", "ppnz_moments")
    REALL = ("t_old", "arrival_time")
    TASKS = {"Task": {"arr_time": "real", "k": "int", "start_waiting_time": "real", "wait_time": "real", "time_to_end_service": "real",
                      "id": "int", "is_pr": "bool", "wait_network": "real", "arr_network": "real", "in_node_class_num": "int"}}
    TF = tuple(TASKS["Task"])

    def __init__(self, n, K, kind, buffer, prop, net=False):
        self.n, self.K, self.kind, self.buffer_kind, self.net = n, K, kind, buffer, net
        self.prop, self.phases = frozenset([prop]) if prop else None, "none"
        self.cf = "in_node_class_num" if net else "k"
        self.vc = vc = VC(heap_classes=("Task",), schemas=self.TASKS, name="prio")
        vc.opts["classes"] = {"Task": vc.cls(PQ, "Task")}
        vc.opts["enum"] = {("Task", self.cf): K}
        vc.opts["none_check"] = True
        vc.contracts["PriorityQueueSimulator.refresh_v_stat"] = self.refresh("v")
        vc.contracts["PriorityQueueSimulator.refresh_w_stat"] = self.refresh("w")
        vc.contracts["PriorityQueueSimulator.refresh_ppnz_stat"] = self.refresh_ppnz
        vc.contracts["create_distribution"] = lambda vc, st, recv, args, kw: [(st, Opq("dist", ("created",)))]
        vc.hooks["Server.start_service"] = self.on_start
        vc.hooks["Server.end_service"] = self.on_end
        vc.ext["dist.generate"] = self.generate
        self.pre_f = [z3.Function(f"prefix{i}", AI, I, I) for i in range(K)]      # number of jobs of class i among the first x positions

    def wanted(self, name):
        if self.prop is None:
            return True
        base = name.rsplit("invariant: ", 1)[-1]
        k = base.rindex("[")
        return not self.prop.isdisjoint(base[k + 1:-1].split()) or not self.prop.isdisjoint(SUPPORT7.get(base[:k - 1], "").split())

    # ------------------------------------------------------------ contracts of callees, ghost code
    def refresh(self, which):
        def f(vc, st, recv, args, kw):
            """requires served[k] >= 1; ensures mul(m_i', served) = mul(m_i, served-1) + x^(i+1)"""
            d = st.heap[self.sim.oid]
            k, x = conc(args[0]), zr(args[1])
            if not isinstance(k, int):
                raise Unsupported("class number")
            c = zi(st.heap[d["served"].oid]["items"][k])
            self.chk(st, c >= 1, f"call refresh_{which}_stat: the job is already counted as served [C07]")
            l = st.heap[d[which].oid]["items"][k]
            items = list(st.heap[l.oid]["items"])
            new = []
            for i in range(3):
                r = fresh("mom", "real")
                st.assume(MUL(r, c) == MUL(zr(items[i]), z3.simplify(c - 1)) + PW[i + 1](x))
                new.append(r)
            st.heap[l.oid] = {**st.heap[l.oid], "items": tuple(new)}
            st.trace.append(("stat", which, k, x))
            return [(st, None)]
        return f

    def refresh_ppnz(self, vc, st, recv, args, kw):
        """requires ppnz_moments[k] >= 1; changes ppnz[k] only"""
        d = st.heap[self.sim.oid]
        k = conc(args[0])
        its = st.heap[d["ppnz_moments"].oid]["items"]
        rows = st.heap[d["ppnz"].oid]["items"]
        for i in range(self.K):
            if isinstance(k, int) and i != k:
                continue
            self.chk(st, z3.Implies(zi(k) == i, zi(its[i]) >= 1), "call refresh_ppnz_stat: at least one busy period counted [C07]")
            st.heap[rows[i].oid] = {**st.heap[rows[i].oid], "items": tuple(fresh("ppnz", "real") for _ in range(3))}
        return [(st, None)]

    def index(self, st, recv):
        its = st.heap[st.heap[self.sim.oid]["servers"].oid]["items"]
        return next(i for i, o in enumerate(its) if o.same(recv))

    def on_start(self, vc, pre, st, recv, args, res):
        i = self.index(st, recv)
        o, V = PV(self, pre), PV(self, st)
        t = zi(args[0].t)
        now = zr(V.ttek)
        free, tte, tsk = V.srv(i)
        kc = S(V.cls, t)
        self.chk(st, o.srv(i)[0], "start_service: the channel is free [C07 C08]")
        self.chk(st, z3.And(z3.Not(free), tsk == t), "start_service: the channel serves the job [C07 C08]")
        self.chk(st, zr(args[1]) == now, "start_service: starts now [C08]")
        draws = [x for x in st.trace if x[0] == "gen" and x not in pre.trace]
        own = [x for x in draws if x[1][0] in ("server", "warm")]
        prem, need = S(o.g_prem, t), S(o.g_need, t)
        ends = z3.Or(*[z3.And(kc == x[1][-1], tte == now + x[2]) for x in own]) if own else z3.BoolVal(False)
        again = tte == now + need
        if self.kind == "RS":
            again = z3.Or(z3.And(S(o.g_drawn, t), again), ends)
        self.chk(st, z3.Implies(z3.Not(prem), ends), "start_service: a service time of the job's own class is drawn [C08]")
        if self.kind in PREEMPT:
            what = {"PR": "goes on with its remaining time", "RS": "draws a new service time of its own class", "RW": "repeats its original time"}[self.kind]
            self.chk(st, z3.Implies(prem, again), f"start_service: an interrupted job {what} [C08]")
        else:
            self.chk(st, z3.Not(prem), "start_service: no job is started twice [C08]")
        for x in own:
            if x[1][0] == "warm":
                self.chk(st, z3.And(zb(o.is_warm_up_set), z3.And(*[o.srv(c)[0] for c in range(self.n)])), "start_service: warm-up only of an idle system [C08]")
        self.setg(st, "tot", z3.If(prem, o.g_tot, z3.Store(o.g_tot, t, z3.simplify(tte - now))))
        wait = z3.If(S(o.g_inq, t), now - S(o.g_since, t), z3.RealVal(0))
        self.setg(st, "waited", z3.Store(o.g_waited, t, S(o.g_waited, t) + wait))
        self.setg(st, "inq", z3.Store(o.g_inq, t, z3.BoolVal(False)))
        st.trace.append(("start", i, t))

    def on_end(self, vc, pre, st, recv, args, res):
        i = self.index(st, recv)
        o = PV(self, pre)
        free, tte, t = o.srv(i)
        self.chk(st, z3.Not(free), "end_service: the channel is busy [C07 C08]")
        st.trace.append(("end", i, t, tte))

    def generate(self, vc, st, a, kw):
        vc.assumptions.add("generate() of every distribution object returns an arbitrary non-negative real (assumed contract)")
        x = fresh("sample", "real")
        st.assume(x >= 0)
        st.trace.append(("gen", a[0].data, x))
        return [(st, x)]

    def setg(self, st, name, term):
        """ghost := term, under a name of its own (patterns need plain arrays)"""
        x = fresh("gh_" + name, term.sort())
        st.assume(x == term)
        st.setg(name, x)
        return x

    # ------------------------------------------------------------ states
    GH = (("held", AB), ("prem", AB), ("inq", AB), ("drawn", AB), ("need", AR), ("tot", AR), ("since", AR), ("waited", AR), ("cq", AI))

    def make(self, st):
        vc = self.vc
        info = vc.cls(self.module, self.cls_name)
        a, x, y, v = z3.Const("a!pf", AI), z3.Int("x!pf"), z3.Int("y!pf"), z3.Int("v!pf")
        if self.kind == "No":       # prefix_lemmas
            for i, f in enumerate(self.pre_f):
                st.assume(z3.ForAll([a, x, y], z3.Implies(x <= y, f(a, x) <= f(a, y)), patterns=[z3.MultiPattern(f(a, x), f(a, y))]))
        st.cells[("alloc", "Task")] = z3.Int("alloc0")
        st.assume(z3.Int("alloc0") >= 0)
        st.cells[("cattr", "Task", "id")] = z3.Int("id0")
        self.buf = None
        if self.buffer_kind == "int":
            self.buf = z3.Int("buffer")
            st.assume(self.buf >= 0)
        r = vc.instantiate(info, st, [self.n, self.K], {"prty_type": self.kind, "buffer": self.buf})
        if len(r) != 1:
            raise Unsupported("constructor forks")
        st, self.sim = r[0]
        for g, srt in self.GH:
            st.setg(g, z3.K(I, {B: z3.BoolVal(False), R: z3.RealVal(0), I: z3.IntVal(0)}[srt.range()]))
        for i in range(self.K):
            for m in range(3):
                st.setg(f"V{i}{m}", z3.RealVal(0))
                st.setg(f"W{i}{m}", z3.RealVal(0))
        return st

    def fill(self, st, pre="s."):
        vc = self.vc
        d = dict(st.heap[self.sim.oid])
        c = lambda n, srt: z3.Const(pre + n, srt)
        for k, v in list(d.items()):
            if k in self.config or isinstance(v, bool):
                continue
            if is_num(v):
                d[k] = c(k, I if k in ("free_channels", "total", "class_ppnz_started") else R)
        K = range(self.K)
        for k in self.INTL:
            d[k] = vc.new_list(st, [c(f"{k}{i}", I) for i in K])
        for k in self.REALL:
            d[k] = vc.new_list(st, [c(f"{k}{i}", R) for i in K])
        for k in ("v", "w", "ppnz"):
            d[k] = vc.new_list(st, [vc.new_list(st, [c(f"{k}{i}{m}", R) for m in range(3)]) for i in K])
        self.p_len = c("p_len", I)
        st.assume(self.p_len >= 1)
        d["num_of_states"] = self.p_len
        self.totals = [Total(f"total_p{i}", z3.IntVal(0), self.p_len) for i in K]
        for i in K:
            vc.store_hooks[("lst", f"p{i}")] = self.totals[i].on_store
        d["p"] = vc.new_list(st, [vc.new_slist(st, "real", f"p{i}", length=self.p_len, tag=f"p{i}", arr=c(f"p{i}", AR)) for i in K])
        d["sources"] = vc.new_list(st, [Opq("dist", ("source", i)) for i in K])
        d["is_warm_up_set"] = z3.Bool("warm_set")
        d["warm_up"] = vc.new_list(st, [Opq("dist", ("warm", i)) for i in K])
        d["is_next_calc"] = z3.Bool("next_calc")

        def symq(name):
            l = Lst(vc.new_oid())
            st.heap[l.oid] = {"k": "s", "arr": c(name, AI), "lo": c(name + "_lo", I), "hi": c(name + "_hi", I), "w": "ref:Task", "tag": None}
            return l
        d["queue"] = symq("q") if self.kind == "No" else vc.new_list(st, [symq(f"q{i}") for i in K])
        info = vc.cls(PQ, "Server")
        servers = []
        for i in range(self.n):
            free = c(f"free{i}", B)
            servers.append(vc.new_obj(st, info, {
                "time_to_end_service": c(f"tte{i}", R), "is_free": free, "id": i + 1, "tsk_on_service": OptV(z3.Not(free), Ref("Task", c(f"tsk{i}", I))),
                "class_on_service": c(f"cls{i}", I), "total_time_to_serve": c(f"total{i}", R), "prty_type": self.kind, "generator": Opq("generator"),
                "dist": vc.new_list(st, [Opq("dist", ("server", i, k)) for k in K])}))
        d["servers"] = vc.new_list(st, servers)
        st.heap[self.sim.oid] = d
        for f, w in self.TASKS["Task"].items():
            vc.ensure(st, "Task", f, w)
            st.ch["Task"][f] = c("Task." + f, z3.ArraySort(I, sort_of_wrap(w)))
        st.cells[("alloc", "Task")] = c("alloc", I)
        st.cells[("cattr", "Task", "id")] = c("task_id", I)
        for k in list(st.cells):
            if k[0] == "ghost" and k[1] != "steps":
                st.cells[k] = c("g." + k[1], st.cells[k].sort())

    def symbolic(self):
        st = St()
        self.vc.muted += 1
        try:
            st = self.make(st)
        finally:
            self.vc.muted -= 1
        self.fill(st)
        for _, c in self.inv(st):
            st.assume(c)
        self.vc.inv_cands = [lambda vc, s: self.inv(s)]
        return st

    # ------------------------------------------------------------ invariant
    def waiting(self, V, i):
        """number of waiting jobs of class i"""
        arr, lo, hi = V.q(i)
        if self.kind != "No":
            return hi - lo
        return self.pre_f[i](V.g_cq, hi) - self.pre_f[i](V.g_cq, lo)

    def room(self, V):
        """number of waiting jobs"""
        if self.kind == "No":
            return V.q()[2] - V.q()[1]
        return z3.Sum([V.q(i)[2] - V.q(i)[1] for i in range(self.K)])

    def inv(self, st):
        V = PV(self, st)
        N, KR, t = range(self.n), range(self.K), zr(V.ttek)
        x, y = z3.Ints("x!p y!p")
        out = []
        add = lambda name, c: out.append((name, zb(c))) if self.wanted(name) else None
        free, tte, tsk = zip(*[V.srv(c) for c in N])
        cls, arr_t = V.cls, V.arr_time
        add("free channels counted [C07 C08]", zi(V.free_channels) == z3.Sum([b2i(f) for f in free]))
        add("class of the busy period [C07]", z3.And(zi(V.class_ppnz_started) >= -1, zi(V.class_ppnz_started) < self.K,
                                                    *[zi(V.ppnz_moments[i]) >= 0 for i in KR]))
        add("total = served [C07]", zi(V.total) == z3.Sum([zi(V.served[i]) for i in KR]))
        add("clock [C07 C08]", t >= 0)
        add("job numbers [C07 C08]", V.alloc >= 0)
        qs = [0] if self.kind == "No" else KR
        for i in KR:
            ins, w = zi(V.in_sys[i]), self.waiting(V, i)
            add(f"class {i}: arrived = served + dropped + in system [C07]", zi(V.arrived[i]) == zi(V.served[i]) + zi(V.dropped[i]) + ins)
            add(f"class {i}: counters non-negative [C07]", z3.And(zi(V.served[i]) >= 0, zi(V.dropped[i]) >= 0, ins >= 0))
            add(f"class {i}: in system = waiting + in service [C07]",
                ins == w + z3.Sum([b2i(z3.And(z3.Not(free[c]), S(cls, tsk[c]) == i)) for c in N]))
            if self.buf is None:
                add(f"class {i}: nothing dropped without a buffer limit [C07]", zi(V.dropped[i]) == 0)
            add(f"class {i}: last event not after the clock [C07]", z3.And(zr(V.t_old[i]) <= t, zr(V.t_old[i]) >= 0))
            add(f"class {i}: credited time adds up to the last event of the class [C07]", self.totals[i].f(V.p_arr(i)) == zr(V.t_old[i]))
            add(f"class {i}: credited times non-negative [C07]", z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < zi(V.num_of_states)), S(V.p_arr(i), x) >= 0),
                                                                          patterns=[S(V.p_arr(i), x)]))
            if not self.net:
                add("next arrival not in the past [C07 C08]", zr(V.arrival_time[i]) >= t)
            for m in range(3):
                add(f"class {i}: sojourn moment {m + 1} is the sample mean [C07]", MUL(zr(V.mom("v", i)[m]), zi(V.served[i])) == st.g(f"V{i}{m}"))
                add(f"class {i}: waiting moment {m + 1} is the sample mean [C07]", MUL(zr(V.mom("w", i)[m]), zi(V.served[i])) == st.g(f"W{i}{m}"))
        if self.buf is not None and self.kind in ("No", "NP"):
            add("waiting room not exceeded [C07]", self.room(V) <= self.buf)
        for c in N:
            add("idle channels [C07 C08]", z3.Implies(free[c], tte[c] >= HORIZON))
            add("busy channels end in the future [C07 C08]", z3.Implies(z3.Not(free[c]), tte[c] >= t))
            add("jobs in service exist [C07 C08]", z3.Implies(z3.Not(free[c]), z3.And(
                tsk[c] >= 0, tsk[c] < V.alloc, S(cls, tsk[c]) >= 0, S(cls, tsk[c]) < self.K, S(arr_t, tsk[c]) <= t)))
            add(f"waiting time of the job in channel {c} [C07]", z3.Implies(z3.Not(free[c]), z3.And(
                S(V.wait_time, tsk[c]) == S(V.g_waited, tsk[c]), z3.Not(S(V.g_inq, tsk[c])))))
            if self.net:
                add("jobs in service are held by the node [C07]", z3.Implies(z3.Not(free[c]), S(V.g_held, tsk[c])))
            if self.kind == "RW":
                add(f"time of the job in channel {c} [C08]", z3.Implies(z3.Not(free[c]), z3.And(V.total_time(c) == S(V.g_tot, tsk[c]), V.total_time(c) >= 0)))
            if self.kind == "RW":
                add(f"time of the job in channel {c} not negative [C07]", z3.Implies(z3.Not(free[c]), V.total_time(c) >= 0))
            if self.kind not in PREEMPT:
                add(f"the job in channel {c} was never interrupted [C08]", z3.Implies(z3.Not(free[c]), z3.Not(S(V.g_prem, tsk[c]))))
            for e in range(c):
                add("no job in two channels [C07 C08]", z3.Implies(z3.And(z3.Not(free[c]), z3.Not(free[e])), tsk[c] != tsk[e]))
        for i in qs:
            arr, lo, hi = V.q(i)
            rng = z3.And(x >= lo, x < hi)
            job = S(arr, x)
            al = lambda c, pats=None: z3.ForAll([x], z3.Implies(rng, c), patterns=[job])
            add("queue length not negative [C07 C08]", hi >= lo)
            if self.net:
                add("waiting jobs are held by the node [C07]", al(S(V.g_held, job)))
            add("waiting jobs exist [C07 C08]", al(z3.And(job >= 0, job < V.alloc, S(arr_t, job) <= t)))
            if self.kind == "No":
                add("class of the waiting jobs [C07 C08]", al(z3.And(S(cls, job) >= 0, S(cls, job) < self.K)))
                add("waiting jobs counted by class [C07]", z3.ForAll([x], z3.Implies(rng, S(V.g_cq, x) == S(cls, job)), patterns=[job, S(V.g_cq, x)]))
            else:
                add("class of the waiting jobs [C07 C08]", al(S(cls, job) == i))
            add(f"queue {i}: no job twice [C07 C08]", z3.ForAll([x, y], z3.Implies(z3.And(x >= lo, x < y, y < hi), job != S(arr, y)),
                                                               patterns=[z3.MultiPattern(job, S(arr, y))]))
            add(f"queue {i}: in order of arrival [C08]", z3.ForAll([x, y], z3.Implies(z3.And(x >= lo, x < y, y < hi), S(arr_t, job) <= S(arr_t, S(arr, y))),
                                                                  patterns=[z3.MultiPattern(job, S(arr, y))]))
            for c in N:
                add(f"queue {i}: its jobs are not in channel {c} [C07 C08]", z3.Implies(z3.Not(free[c]), al(job != tsk[c])))
                same_cls = z3.BoolVal(True) if self.kind == "No" else S(cls, tsk[c]) == i
                add(f"queue {i}: its jobs arrived after those of the class in channel {c} [C08]",
                    z3.Implies(z3.And(z3.Not(free[c]), same_cls), al(S(arr_t, job) >= S(arr_t, tsk[c]))))
                if self.kind in PREEMPT:
                    add(f"queue {i}: nobody of a lower class in channel {c} while its jobs wait [C08]",
                        z3.Implies(z3.And(z3.Not(free[c]), hi > lo), S(cls, tsk[c]) <= i))
                add(f"queue {i}: jobs wait only while channel {c} is busy [C08]", z3.Implies(hi > lo, z3.Not(free[c])))
            add(f"queue {i}: waiting times [C07]", al(z3.And(S(V.wait_time, job) == S(V.g_waited, job), S(V.start_waiting_time, job) == S(V.g_since, job), S(V.g_inq, job))))
            add(f"queue {i}: interrupted jobs are known [C08]", al(S(V.is_pr, job) == S(V.g_prem, job)))
            add(f"queue {i}: time left not negative [C07]", al(z3.Implies(S(V.is_pr, job), S(V.time_to_end_service, job) >= 0)))
            if self.kind not in PREEMPT:
                add(f"queue {i}: nobody was interrupted [C08]", al(z3.Not(S(V.g_prem, job))))
            else:
                keep = S(V.time_to_end_service, job) == S(V.g_need, job)
                need = S(V.g_need, job) >= 0
                cond = S(V.g_prem, job)
                if self.kind == "RS":
                    need = z3.And(need, S(V.g_drawn, job))
                add(f"queue {i}: time left of interrupted jobs [C08]", al(z3.Implies(cond, z3.And(keep, need))))
                if self.kind == "RW":
                    add(f"queue {i}: an interrupted job repeats its original time [C08]", al(z3.Implies(cond, S(V.g_need, job) == S(V.g_tot, job))))
        return out

    # ------------------------------------------------------------ helpers
    def pending_min(self, V, net_time=None):
        def le(t0):
            return z3.And(*[z3.BoolVal(True) if self.net else zr(V.arrival_time[i]) >= t0 for i in range(self.K)],
                          *[z3.Implies(z3.Not(V.srv(i)[0]), t0 <= V.srv(i)[1]) for i in range(self.n)])
        return le

    def common(self, o, V, t0, k, W):
        ck, s = self.chk, V.st
        ck(s, zr(V.ttek) == t0, W + ": clock moves exactly to the event [C07 C08]")
        d, e = s.heap[self.sim.oid], o.st.heap[self.sim.oid]
        for f in self.config:
            ck(s, same(d[f], e[f]), W + f": {f} untouched [C07]")
        for i in range(self.K):
            if i == k:
                n = zi(o.in_sys[k])
                ck(s, V.p_arr(i) == z3.Store(o.p_arr(i), n, S(o.p_arr(i), n) + (t0 - zr(o.t_old[i]))), W + ": elapsed time credited once to the number of jobs of the class present before [C07]")
                ck(s, zr(V.t_old[i]) == t0, W + ": credited up to now [C07]")
            else:
                ck(s, z3.And(V.p_arr(i) == o.p_arr(i), zr(V.t_old[i]) == zr(o.t_old[i])), W + f": nothing credited to class {i} [C07]")

    def counts(self, o, V, W, **new):
        for f in ("arrived", "served", "dropped"):
            for i in range(self.K):
                self.chk(V.st, zi(getattr(V, f)[i]) == zi(getattr(o, f)[i]) + new.get(f, {}).get(i, 0), f"{W}: {f} of class {i} [C07]")

    def kept(self, o, V, W, but=()):
        """existing jobs keep class and arrival time"""
        x = z3.Int("x!sk")
        for nm in (self.cf, "k", "arr_time") if self.net else ("k", "arr_time"):
            a, b = getattr(o, nm), getattr(V, nm)
            rng = z3.And(x >= 0, x < o.alloc, *[x != j for j in but])
            self.chk(V.st, z3.ForAll([x], z3.Implies(rng, S(a, x) == S(b, x))), f"{W}: existing jobs keep class and arrival time [C07 C08]")
        if self.net:
            for nm in ("k", "arr_network"):
                self.chk(V.st, getattr(V, nm) == getattr(o, nm), f"{W}: {nm} of every job untouched [C07]")
            started = [e[2] for e in V.st.trace if e[0] == "start"] if not but else []
            w = o.wait_network
            for t in started:
                w = z3.Store(w, t, S(w, t) + zr(V.ttek) - S(o.g_since, t))
            self.chk(V.st, V.wait_network == w, f"{W}: waiting in the network grows by the waiting at this node [C07]")

    def goes_on(self, o, V, i, W):
        a, b = o.srv(i), V.srv(i)
        self.chk(V.st, z3.Implies(z3.Not(a[0]), z3.And(z3.Not(b[0]), a[1] == b[1], a[2] == b[2])), f"{W}: service in channel {i} goes on [C08]")

    def q_same(self, o, V, i, W):
        x, y = o.q(i), V.q(i)
        self.chk(V.st, z3.And(x[0] == y[0], x[1] == y[1], x[2] == y[2]), f"{W}: queue {i} untouched [C07 C08]")

    # ------------------------------------------------------------ events
    def arrival(self, k):
        st = self.symbolic()
        pre = st.fork()
        o = PV(self, pre)
        args = [k]
        but = ()
        if self.net:
            t0, j = z3.Real("moment"), z3.Int("job")
            st.assume(z3.And(t0 > 0, t0 >= zr(o.ttek), j >= 0, j < o.alloc))
            st.assume(z3.Not(S(o.g_held, j)))
            args += [t0, Ref("Task", j)]
            but = (j,)
        else:
            t0, j = zr(o.arrival_time[k]), o.alloc
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        # a job that enters has waited for nothing, was not interrupted
        for g, v in (("held", z3.BoolVal(True)), ("prem", z3.BoolVal(False)), ("inq", z3.BoolVal(False)), ("drawn", z3.BoolVal(False)), ("waited", z3.RealVal(0))):
            self.setg(st, g, z3.Store(st.g(g), j, v))
        pre = st.fork()
        o = PV(self, pre)
        W = f"arrival({k})"
        self.reach(st, W)
        outs = self.call("arrival", st, args)
        self.outcomes(W, outs)
        ck = self.chk
        full = (self.room(o) >= self.buf) if self.buf is not None else z3.BoolVal(False)
        busy = z3.And(*[z3.Not(o.srv(c)[0]) for c in range(self.n)])
        lower = z3.Or(*[S(o.cls, o.srv(c)[2]) > k for c in range(self.n)]) if self.kind in PREEMPT else z3.BoolVal(False)
        refused = z3.And(busy, z3.Not(lower), full)
        for s, _ in outs:
            V = PV(self, s)
            self.common(o, V, t0, k, W)
            self.kept(o, V, W, but)
            if not self.net:
                src = [x for x in s.trace if x[0] == "gen" and x[1] == ("source", k)]
                ck(s, len(src) == 1, W + ": one interarrival time of the class drawn [C07]")
                for i in range(self.K):
                    nxt = t0 + src[0][2] if i == k and src else zr(o.arrival_time[i])
                    ck(s, zr(V.arrival_time[i]) == nxt, W + f": next arrival of class {i} [C07 C08]")
                ck(s, V.alloc == o.alloc + 1, W + ": one new job [C07 C08]")
            ck(s, z3.And(S(V.arr_time, j) == t0, S(V.cls, j) == k), W + ": the job has its class and arrival time [C07 C08]")
            drop = z3.If(refused, 1, 0)
            self.counts(o, V, W, arrived={k: 1}, dropped={k: drop})
            ends = [e for e in s.trace if e[0] == "end"]
            starts = [e for e in s.trace if e[0] == "start"]
            for case, cond in (("refused", refused), ("starts", z3.Not(busy)), ("waits", z3.And(busy, z3.Not(lower), z3.Not(full))), ("interrupts", z3.And(busy, lower))):
                a = s.fork()
                a.assume(cond)
                if not self.vc.feasible(a):
                    continue
                A = PV(self, a)
                w = W + " " + case
                qi = [0] if self.kind == "No" else range(self.K)
                if case == "interrupts":
                    ok = len(ends) == 1 and len(starts) == 1 and ends[0][1] == starts[0][1]
                    ck(a, ok, w + ": one job is interrupted, the new one takes its channel [C08]")
                    ck(a, len(ends) == len(starts) and len(starts) >= 1, w + ": every channel freed is taken at once [C07]")
                    if not ok:
                        continue
                    _, c, v, tte = ends[0]
                    ck(a, starts[0][2] == j, w + ": the new job takes the channel [C08]")
                    kv = S(o.cls, v)
                    for e in range(self.n):
                        ko = S(o.cls, o.srv(e)[2])
                        ck(a, z3.Or(ko < kv, z3.And(ko == kv, S(o.arr_time, o.srv(e)[2]) <= S(o.arr_time, v))), w + ": the job interrupted is the latest of the lowest class [C08]")
                        if e != c:
                            self.goes_on(o, A, e, w)
                    self.interrupted(o, A, a, v, tte, t0, w)
                    for i in qi:
                        arr, lo, hi = o.q(i)
                        arr2, lo2, hi2 = A.q(i)
                        ck(a, z3.If(kv == i, z3.And(hi2 - lo2 == hi - lo + 1, S(arr2, lo2) == v), hi2 - lo2 == hi - lo), w + f": the interrupted job heads its own queue ({i}) [C08]")
                else:
                    ck(a, not ends, w + ": nobody is interrupted [C08]")
                    for e in range(self.n):
                        self.goes_on(o, A, e, w)
                    ck(a, len(starts) == (1 if case == "starts" else 0), w + ": starts exactly if a channel is free [C07 C08]")
                    if case == "starts" and len(starts) == 1:
                        ck(a, starts[0][2] == j, w + ": the new job starts [C08]")
                    if case == "waits":
                        self.setg(a, "since", z3.Store(a.g("since"), j, t0))
                        self.setg(a, "inq", z3.Store(a.g("inq"), j, z3.BoolVal(True)))
                        if self.kind == "No":
                            hi = o.q()[2]
                            cq = self.setg(a, "cq", z3.Store(o.g_cq, hi, z3.IntVal(k)))
                            for i, f in enumerate(self.pre_f):        # prefix_lemmas
                                a.assume(z3.And(*[f(cq, b) == f(o.g_cq, b) for b in (o.q()[1], hi)], f(cq, hi + 1) == f(cq, hi) + (1 if i == k else 0)))
                        for i in qi:
                            arr, lo, hi = o.q(i)
                            arr2, lo2, hi2 = A.q(i)
                            mine = self.kind == "No" or i == k
                            ck(a, z3.And(hi2 - lo2 == hi - lo + (1 if mine else 0), *([S(arr2, hi2 - 1) == j] if mine else [])), w + f": joins the tail of its own queue ({i}) [C07 C08]")
                    else:
                        for i in qi:
                            self.q_same(o, A, i, w)
                self.check_inv(a, w)

    def interrupted(self, o, A, a, v, tte, t0, w):
        """ghost code of an interruption"""
        self.setg(a, "prem", z3.Store(a.g("prem"), v, z3.BoolVal(True)))
        self.setg(a, "since", z3.Store(a.g("since"), v, t0))
        self.setg(a, "inq", z3.Store(a.g("inq"), v, z3.BoolVal(True)))
        if self.kind == "PR":
            need = tte - t0
        elif self.kind == "RW":
            need = S(o.g_tot, v)
        else:
            left = S(A.time_to_end_service, v)
            n_start = next(n for n, e in enumerate(a.trace) if e[0] == "start")
            n_end = next(n for n, e in enumerate(a.trace) if e[0] == "end")
            draws = [e for e in a.trace[n_end:n_start] if e[0] == "gen"]
            own = z3.Or(*[z3.And(zi(e[1][-1]) == S(o.cls, v), left == e[2]) for e in draws if e[1][0] == "server"]) if draws else z3.BoolVal(False)
            if draws:
                self.chk(a, own, w + ": the new service time is drawn from the class of the interrupted job [C08]")
            self.setg(a, "drawn", z3.Store(a.g("drawn"), v, own))
            need = left
        self.setg(a, "need", z3.Store(a.g("need"), v, need))

    def serving(self, c):
        st = self.symbolic()
        pre = st.fork()
        o = PV(self, pre)
        free, t0, job = o.srv(c)
        st.assume(z3.Not(free))
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        if self.net:
            st.assume(zr(o.ttek) <= t0)
        W = f"serving({c})"
        self.reach(st, W)
        outs = self.call("serving", st, [c] + ([True] if self.net else []))
        self.outcomes(W, outs)
        ck = self.chk
        soj = t0 - S(o.arr_time, job)
        for s, r in outs:
            for k in range(self.K):
                a = s.fork()
                a.assume(S(o.cls, job) == k)
                if not self.vc.feasible(a):
                    continue
                A = PV(self, a)
                w = f"{W} class {k}"
                self.common(o, A, t0, k, w)
                self.kept(o, A, w)
                self.counts(o, A, w, served={k: 1})
                if not self.net:
                    for i in range(self.K):
                        ck(a, zr(A.arrival_time[i]) == zr(o.arrival_time[i]), w + f": next arrival of class {i} untouched [C07 C08]")
                else:
                    if isinstance(r, OptV):
                        ck(a, r.some, w + ": a job is returned [C07]")
                        r = r.val
                    ck(a, z3.BoolVal(False) if not isinstance(r, Ref) else zi(r.t) == job, w + ": the job that left is returned [C07]")
                ck(a, A.alloc == o.alloc, w + ": no new job [C07 C08]")
                st_ = [x for x in a.trace if x[0] == "stat"]
                if self.net:
                    self.setg(a, "held", z3.Store(a.g("held"), job, z3.BoolVal(False)))
                for which, val in (("v", soj), ("w", S(o.g_waited, job))):
                    m = [x for x in st_ if x[1] == which]
                    ok = len(m) == 1 and m[0][2] == k
                    ck(a, ok, f"{w}: one {which} value recorded for the class [C07]")
                    if ok:
                        ck(a, m[0][3] == val, f"{w}: recorded {'sojourn time is departure - arrival' if which == 'v' else 'wait is the time in the queue'} [C07]")
                        G = "V" if which == "v" else "W"
                        for i in range(3):
                            a.setg(f"{G}{k}{i}", z3.simplify(o.st.g(f"{G}{k}{i}") + PW[i + 1](z3.simplify(val))))
                starts = [e for e in a.trace if e[0] == "start"]
                ends = [e for e in a.trace if e[0] == "end"]
                ck(a, len(ends) == 1 and ends[0][1] == c, w + ": only this channel ends a service [C07 C08]")
                for e in range(self.n):
                    if e != c:
                        self.goes_on(o, A, e, w)
                qi = [0] if self.kind == "No" else range(self.K)
                some = [o.q(i)[2] > o.q(i)[1] for i in qi]
                ck(a, z3.BoolVal(len(starts) == 1) == z3.Or(*some), w + ": a job starts exactly if one waits [C08]")
                ck(a, len(starts) <= 1, w + ": at most one job starts [C07 C08]")
                head = z3.IntVal(-1)
                for n, i in reversed(list(enumerate(qi))):
                    head = z3.If(some[n], S(o.q(i)[0], o.q(i)[1]), head)
                if starts:
                    ck(a, z3.And(starts[0][2] == head, z3.BoolVal(starts[0][1] == c)), w + ": the head of the highest non-empty queue takes the channel [C08]")
                    ck(a, starts[0][1] == c, w + ": the freed channel is taken [C07]")
                for n, i in enumerate(qi):
                    first = z3.And(some[n], *[z3.Not(x) for x in some[:n]])
                    x, y = o.q(i), A.q(i)
                    ck(a, z3.And(x[0] == y[0], x[2] == y[2], y[1] == x[1] + z3.If(first, 1, 0)), w + f": queue {i} [C07 C08]" if self.kind == "No" else w + f": queue {i} [C08]")
                if self.kind == "No":
                    arr, lo, hi = o.q()
                    for i, f in enumerate(self.pre_f):                # prefix_lemmas
                        a.assume(z3.Implies(hi > lo, f(o.g_cq, lo + 1) == f(o.g_cq, lo) + z3.If(S(o.g_cq, lo) == i, 1, 0)))
                self.check_inv(a, w)

    # ------------------------------------------------------------ one step, construction, reports
    def step(self):
        st = self.symbolic()
        pre = st.fork()
        o = PV(self, pre)
        vc = self.vc

        def handler(kind):
            def f(vc, s, recv, args, kw):
                V = PV(self, s)
                m = self.n if kind == "serving" else self.K
                c = zi(args[0])
                en = z3.And(c >= 0, c < m)
                opts = [V.srv(i)[1] if kind == "serving" else zr(V.arrival_time[i]) for i in range(m)]
                if kind == "serving":
                    en = z3.And(en, *[z3.Implies(c == i, z3.Not(V.srv(i)[0])) for i in range(m)])
                t0 = opts[0]
                for i in range(1, m):
                    t0 = z3.If(c == i, opts[i], t0)
                self.chk(s, en, f"run_one_step: {kind} is enabled [C07 C08]")
                self.chk(s, z3.Implies(en, self.pending_min(V)(t0)), f"run_one_step: {kind} is the earliest pending event [C07 C08]")
                s.trace.append(("event", kind))
                return [(s, None)]
            return f
        for kind in ("serving", "arrival"):
            vc.contracts[f"{self.cls_name}.{kind}"] = handler(kind)
        st.assume(z3.And(*[zr(o.arrival_time[i]) < HORIZON for i in range(self.K)], *[z3.Implies(z3.Not(o.srv(i)[0]), o.srv(i)[1] < HORIZON) for i in range(self.n)]))
        self.reach(st, "run_one_step")
        outs = self.call("run_one_step", st)
        self.outcomes("run_one_step", outs)
        for s, _ in outs:
            ev = [x for x in s.trace if x[0] == "event"]
            self.chk(s, len(ev) == 1, "run_one_step: exactly one event is processed [C07 C08]")
            ds = [k for k in loops.diff_cells(pre, s) if k[0] in ("h", "ch") or k[0] == "c" and k[1][0] in ("ghost", "alloc", "cattr")]
            d, e = s.heap[self.sim.oid], pre.heap[self.sim.oid]
            ds = [k for k in ds if k not in (("h", self.sim.oid), ("h", self.sim.oid, "time_to_next_event"))]
            self.chk(s, not ds, "run_one_step: nothing changes outside the event [C07 C08]")
            for f in e:
                if f != "time_to_next_event":
                    self.chk(s, same(d.get(f), e[f]), f"run_one_step: {f} changes in the event only [C07 C08]")

    def establish(self):
        vc = self.vc
        st = self.make(St())
        sim = self.sim
        st.assume(MUL(z3.RealVal(0), z3.IntVal(0)) == 0)
        par = vc.new_list(st, [c16dict(vc, st) for _ in range(self.K)])
        outs = [st]
        for name in ("set_sources", "set_servers"):
            nxt = []
            for s in outs:
                s.env = {}
                nxt += [s2 for s2, _ in vc.call_func(self.fn(name), s, [sim, par], {})]
            outs = nxt
        self.outcomes("construction", outs)
        for s in outs:
            d = s.heap[sim.oid]
            sv = s.heap[d["servers"].oid]
            if sv["k"] != "c":
                raise Unsupported("servers list")
            ck = self.chk
            ck(s, len(sv["items"]) == self.n and len({o.oid for o in sv["items"]}) == self.n, "construction: n distinct channels [C07 C08]")
            for o in sv["items"]:
                ck(s, len(s.heap[s.heap[o.oid]["dist"].oid]["items"]) == self.K, "construction: a service distribution per class in every channel [C08]")
            ck(s, len(s.heap[d["sources"].oid]["items"]) == self.K, "construction: a source per class [C07]")
            qs_ = [d["queue"]] if self.kind == "No" else list(s.heap[d["queue"].oid]["items"])
            ck(s, self.kind == "No" or len(qs_) == self.K and len({o.oid for o in qs_}) == self.K, "construction: a queue of its own per class [C07 C08]")
            for q in qs_:
                if s.heap[q.oid]["k"] == "c":
                    ck(s, len(s.heap[q.oid]["items"]) == 0, "construction: queue is empty [C07 C08]")
                    s.heap[q.oid] = {"k": "s", "arr": z3.Const("q0", AI), "lo": z3.IntVal(0), "hi": z3.IntVal(0), "w": "ref:Task", "tag": None}
            self.totals = [Total(f"total_p{i}", z3.IntVal(0), z3.IntVal(0)) for i in range(self.K)]
            rows = s.heap[d["p"].oid]["items"]
            ck(s, len(rows) == self.K and len({r.oid for r in rows}) == self.K, "construction: a state table per class [C07]")
            for i, r in enumerate(rows):
                p = s.heap[r.oid]
                if p["k"] == "c":
                    raise Unsupported("p table")
                zero = z3.K(I, z3.RealVal(0))
                s.assume(self.totals[i].f(zero) == 0)
                ck(s, z3.And(p["arr"] == zero, zi(d["num_of_states"]) == p["hi"] - p["lo"]), "construction: nothing credited yet [C07]")
            for l in ("v", "w"):
                rows = s.heap[d[l].oid]["items"]
                ck(s, len({r.oid for r in rows}) == self.K, f"construction: {l} moments per class [C07]")
            self.reach(s, "construction")
            self.check_inv(s, "construction")

    def getters(self):
        """get_p: credited time divided by the clock"""
        st = self.symbolic()
        o = PV(self, st)
        st.assume(zr(o.ttek) > 0)
        vc = self.vc
        self.reach(st, "get_p")
        pre = st.fork()
        k = z3.Int("k!p")

        def cands(vc, entry, s, kk, lo):
            j = z3.Int("j!gp")
            kk = zi(kk) if kk is not None else z3.IntVal(0)
            out = []
            for oid, d in s.heap.items():
                if isinstance(d.get("k"), str) and d["k"] == "s" and d.get("w") == "real" and d.get("arr") is not None and oid not in pre.heap:
                    for i in range(self.K):
                        out.append((f"reported {i}", z3.ForAll([j], z3.Implies(z3.And(j >= d["lo"], j < d["lo"] + kk), S(d["arr"], j) == S(o.p_arr(i), j - d["lo"]) / zr(o.ttek)), patterns=[S(d["arr"], j)])))
            return out
        vc.loop_cands = [cands]
        outs = self.call("get_p", st)
        self.outcomes("get_p", outs)
        for s, r in outs:
            rows = vc.items(s, r)
            self.chk(s, len(rows) == self.K, "get_p: one list per class [C07]")
            for i, row in enumerate(rows):
                d = vc.lcell(s, row)
                if d["k"] != "s":
                    raise Unsupported("get_p result")
                n = zi(o.num_of_states)
                self.chk(s, d["hi"] - d["lo"] == n, "get_p: one probability per state [C07]")
                self.chk(s, z3.Implies(z3.And(k >= 0, k < n), S(d["arr"], d["lo"] + k) == S(o.p_arr(i), k) / zr(o.ttek)), f"get_p: credited time of class {i} divided by the clock [C07]")


def c16dict(vc, st):
    from contracts.c19 import mkdict
    return mkdict(vc, st, {"type": Opq("str"), "params": Opq("dist_params")})


def leaves(prop):
    """refresh_v_stat, refresh_w_stat, refresh_ppnz_stat against their contracts, in real arithmetic"""
    vc = VC(name="moments")
    info = vc.cls(PQ, "PriorityQueueSimulator")
    vc.covers = []
    for which, counter in (("v", "served"), ("w", "served"), ("ppnz", "ppnz_moments")):
        for k in range(2):
            st = St()
            sim = vc.new_obj(st, info, {})
            m = [[z3.Real(f"m{i}{j}") for j in range(3)] for i in range(2)]
            x, c = z3.Real("x"), [z3.Int(f"count{i}") for i in range(2)]
            rows = [vc.new_list(st, r) for r in m]
            st.heap[sim.oid] = {which: vc.new_list(st, rows), counter: vc.new_list(st, c)}
            st.assume(c[k] >= 1)
            fn = f"refresh_{which}_stat"
            vc.covers.append((fn, list(st.pc)))
            for s, r in vc.call_func(vc.func(PQ, "PriorityQueueSimulator." + fn), st, [sim, k, x], {}):
                for i in range(2):
                    vc.check(s, zi(vc.items(s, s.heap[sim.oid][counter])[i]) == c[i], fn + ": counter untouched")
                    its = vc.items(s, vc.items(s, s.heap[sim.oid][which])[i])
                    vc.check(s, len(its) == 3, fn + ": three moments")
                    for j in range(3):
                        if i != k:
                            vc.check(s, zr(its[j]) == m[i][j], fn + ": other classes untouched")
                            continue
                        p = x
                        for _ in range(j):
                            p = p * x
                        vc.check(s, zr(its[j]) * z3.ToReal(c[k]) == m[k][j] * z3.ToReal(c[k] - 1) + p, f"{fn}: moment {j + 1} is the running mean")
            for s, nm in vc.pend:
                vc.check(s, False, f"{fn}: no exception ({nm})")
            vc.pend = []
    return vc


def prefix_lemmas(check):
    """f(a,0)=0, f(a,x+1)=f(a,x)+[a[x]=i]: monotone, and a store at or beyond x does not change f(.,x)"""
    f = z3.Function("f", AI, I, I)
    a = z3.Const("a", AI)
    x, y, s, i, v = z3.Ints("x y s i v")
    base = z3.Int("base")                       # counted from any base position
    df = lambda a, x: [f(a, base) == 0, z3.Implies(x >= base, f(a, x + 1) == f(a, x) + z3.If(z3.Select(a, x) == i, 1, 0))]
    mono = lambda y: z3.Implies(z3.And(base <= x, x <= y), f(a, x) <= f(a, y))
    check("lemma prefix monotone: base", df(a, x), z3.Implies(y == x, mono(y)))
    check("lemma prefix monotone: step", df(a, y) + [y >= x, base <= x, mono(y)], mono(y + 1))
    st = z3.Store(a, s, v)
    keep = lambda x: z3.Implies(z3.And(base <= x, x <= s), f(st, x) == f(a, x))
    check("lemma prefix of a store: base", df(a, x) + df(st, x), keep(base))
    check("lemma prefix of a store: step", df(a, x) + df(st, x) + [x >= base, keep(x)], keep(x + 1))


def unit(prop, what, kind=None, n=None, K=None, buffer=None, net=None):
    if what == "leaves":
        return leaves(prop)
    if what == "lemmas":
        return lemma_unit([prefix_lemmas, total_lemmas])
    c = PrioContract(int(n), int(K), kind, buffer, prop, net == "net")
    c.vc.name = f"{what}[{kind}, n={n}, K={K}, buffer={buffer}{', node' if net else ''}]"
    if what[:-1] in ("serving", "arrival"):
        getattr(c, what[:-1])(int(what[-1]))
    else:
        getattr(c, what)()
    return c.vc
