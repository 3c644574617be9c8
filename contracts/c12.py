"""C12: fork-join and split-join simulator (sim/fj_sim.py on top of sim/qs_sim.py) with 1, 2 or 3 channels (bounded in that
number only); number of required subtasks, histories, queue lengths and times are arbitrary."""
from contracts.qs import *
from contracts import qs

FJ = "most_queue/sim/fj_sim.py"
SUB = {"SubTask": {"arr_time": "real", "task_id": "int", "id": "int", "sub_task_id": "int"}}
S = z3.Select
b2i = lambda b: z3.If(b, 1, 0)


class FV:
    """reads the fields of a symbolic state"""

    def __init__(self, c, st):
        self.c, self.st = c, st

    def __getattr__(self, name):
        c, st = self.c, self.st
        d = st.heap[c.sim.oid]
        if name == "p_arr":
            return st.heap[d["p"].oid]["arr"]
        if name in ("sarr", "tid"):
            f = {"sarr": "arr_time", "tid": "task_id"}[name]
            c.vc.ensure(st, "SubTask", f, SUB["SubTask"][f])
            return st.ch["SubTask"][f]
        if name == "alloc":
            return zi(st.cells[("alloc", "SubTask")])
        if name == "T":
            return zi(st.cells[("cattr", "ForkJoinTask", "task_id")])
        if name.startswith("g_"):
            return st.cells[("ghost", name[2:])]
        if name == "v":
            return list(st.heap[d["v"].oid]["items"])
        return d[name]

    def q(self, i=None):
        """arr, lo, hi of the queue of channel i (split-join: of the shared queue)"""
        d = self.st.heap[self.c.sim.oid]
        if i is None:
            l = self.st.heap[d["queue"].oid]["queue"]
        else:
            l = self.st.heap[d["queues"].oid]["items"][i]
        l = self.st.heap[l.oid]
        if l["k"] != "s":
            raise Unsupported("queue representation")
        return l["arr"], l["lo"], l["hi"]

    def srv(self, i):
        """is_free, end time, subtask in service (-1: none)"""
        d = self.st.heap[self.c.sim.oid]
        o = self.st.heap[self.st.heap[d["servers"].oid]["items"][i].oid]
        t = o["tsk_on_service"]
        k = z3.IntVal(-1) if t is None else (z3.If(t.some, zi(t.val.t), -1) if isinstance(t, OptV) else zi(t.t))
        return zb(o["is_free"]), zr(o["time_to_end_service"]), k

    def dict(self):
        d = self.st.heap[self.st.heap[self.c.sim.oid]["served_subtask_in_task"].oid]
        if d["k"] == "d":
            if len(d) > 1:
                raise Unsupported("dictionary")
            return z3.K(I, z3.IntVal(0)), z3.K(I, z3.BoolVal(False))
        return d["arr"], d["dom"]


class FJContract(QsContract):
    config = ("n", "buffer", "verbose", "generator", "num_of_states", "k", "is_SJ", "is_Purge")
    module = FJ
    cls_name = "ForkJoinSim"
    REALS = ("ttek", "t_old", "arrival_time")
    INTS = ("free_channels", "in_sys", "arrived", "dropped", "served", "total", "sub_task_in_sys", "taked")

    def __init__(self, n, sj, purge, buffer):
        self.n, self.sj, self.purge, self.buffer_kind = n, sj, purge, buffer
        self.prop, self.phases = None, "none"
        self.vc = vc = VC(heap_classes=("SubTask",), schemas=SUB, name="fj")
        vc.opts["classes"] = {"SubTask": vc.cls(UT + "tasks.py", "SubTask")}
        vc.opts["none_check"] = True
        vc.contracts["ForkJoinSim.refresh_v_stat"] = self.refresh_v
        vc.contracts["create_distribution"] = lambda vc, st, recv, args, kw: [(st, Opq("dist", ("created",)))]
        vc.hooks["Server.start_service"] = self.on_start
        vc.hooks["Server.end_service"] = self.on_end
        vc.ext["dist.generate"] = self.generate
        self.K, self.NJ = z3.Int("k"), z3.Int("N_jobs")
        self.cnt = Count("in_system", self.NJ)

    # ------------------------------------------------------------ contracts of callees and ghost code
    def refresh_v(self, vc, st, recv, args, kw):
        """requires served >= 1; ensures mul(v_i', served) = mul(v_i, served-1) + x^(i+1)"""
        d = st.heap[self.sim.oid]
        c, x = zi(d["served"]), zr(args[0])
        vc.check(st, c >= 1, "call refresh_v_stat: the job is already counted as served")
        items = list(st.heap[d["v"].oid]["items"])
        new = []
        for i in range(3):
            r = fresh("mom", "real")
            st.assume(MUL(r, c) == MUL(zr(items[i]), z3.simplify(c - 1)) + PW[i + 1](x))
            new.append(r)
        st.heap[d["v"].oid] = {**st.heap[d["v"].oid], "items": tuple(new)}
        st.trace.append(("sojourn", x))
        return [(st, None)]

    def index(self, st, recv):
        its = st.heap[st.heap[self.sim.oid]["servers"].oid]["items"]
        return next(i for i, o in enumerate(its) if o.same(recv))

    def on_start(self, vc, pre, st, recv, args, res):
        i = self.index(st, recv)
        o, V = FV(self, pre), FV(self, st)
        free, tte, t = V.srv(i)
        vc.check(st, o.srv(i)[0], "start_service: the channel is free")
        vc.check(st, n_cmp("==", args[1], V.ttek), "start_service: starts now")
        gens = [x for x in st.trace if x[0] == "gen" and isinstance(x[1], tuple) and x[1][0] == "server"]
        vc.check(st, len(gens) >= 1, "start_service: a service time is drawn")
        if gens:
            vc.check(st, tte == zr(args[1]) + gens[-1][2], "start_service: ends after one drawn service time")
        st.trace.append(("start", i, t))

    def on_end(self, vc, pre, st, recv, args, res):
        st.trace.append(("end", self.index(st, recv)))

    # ------------------------------------------------------------ states
    def make(self, st):
        vc = self.vc
        info = vc.cls(self.module, self.cls_name)
        for a in self.cnt.axioms():
            st.assume(a)
        st.assume(z3.And(self.K >= 1, self.K <= self.n))
        st.cells[("alloc", "SubTask")] = z3.Int("alloc0")
        st.assume(z3.Int("alloc0") >= 0)
        st.cells[("cattr", "ForkJoinTask", "task_id")] = z3.Int("T0")
        st.cells[("cattr", "SubTask", "sub_task_id")] = z3.Int("sub0")
        st.assume(z3.Int("T0") >= 0)
        self.buf = None
        if self.buffer_kind == "int":
            self.buf = z3.Int("buffer")
            st.assume(self.buf >= 0)
        r = vc.instantiate(info, st, [self.n, self.K], {"is_SJ": self.sj, "is_Purge": self.purge, "buffer": self.buf})
        if len(r) != 1:
            raise Unsupported("constructor forks")
        st, self.sim = r[0]
        z = z3.K(I, z3.BoolVal(False))
        for i in range(self.n):
            st.setg(f"pend{i}", z)
            st.setg(f"pos{i}", z3.K(I, z3.IntVal(0)))
        st.setg("E", z3.K(I, z3.IntVal(self.n)))
        st.setg("ins", z)
        st.setg("jobarr", z3.K(I, z3.RealVal(0)))
        for i in range(3):
            st.setg(f"V{i}", z3.RealVal(0))
        return st

    def fill(self, st, pre="s."):
        """everything an event may change gets an arbitrary value"""
        vc = self.vc
        d = dict(st.heap[self.sim.oid])
        c = lambda n, srt: z3.Const(pre + n, srt)
        for k in self.REALS:
            d[k] = c(k, R)
        for k in self.INTS:
            d[k] = c(k, I)
        for k, v in list(d.items()):        # attributes the contract does not know
            if k not in self.REALS + self.INTS + self.config and is_num(v) and not isinstance(v, bool):
                d[k] = c(k, R)
        d["v"] = vc.new_list(st, [c(f"v{i}", R) for i in range(3)])
        self.p_len = c("p_len", I)
        st.assume(self.p_len >= 1)
        d["p"] = vc.new_slist(st, "real", "p", length=self.p_len, tag="p", arr=c("p", AR))
        d["num_of_states"] = self.p_len
        self.total = Total("total_p", z3.IntVal(0), self.p_len)
        vc.store_hooks[("lst", "p")] = self.total.on_store
        self.dist_of(st, d)

        def symq(name):
            l = Lst(vc.new_oid())
            st.heap[l.oid] = {"k": "s", "arr": c(name, AI), "lo": c(name + "_lo", I), "hi": c(name + "_hi", I), "w": "ref:SubTask", "tag": None}
            return l
        d["queues"] = vc.new_list(st, [symq(f"q{i}") for i in range(self.n)])
        q = d["queue"]
        if self.sj:
            st.heap[q.oid] = {**st.heap[q.oid], "queue": symq("q")}
        m = Lst(vc.new_oid())
        st.heap[m.oid] = {"k": "m", "arr": c("dict", AI), "dom": c("dict_dom", AB), "w": "int", "tag": None}
        d["served_subtask_in_task"] = m
        info = vc.cls(UT + "servers.py", "Server")
        servers = []
        for i in range(self.n):
            free = c(f"free{i}", B)
            servers.append(vc.new_obj(st, info, {"time_to_end_service": c(f"tte{i}", R), "is_free": free, "id": i + 1,
                                                 "tsk_on_service": OptV(z3.Not(free), Ref("SubTask", c(f"tsk{i}", I))),
                                                 "dist": Opq("dist", ("server", i)), "warm_phase": Opq("phase"), "params_warm": None, "types_warm": None}))
        d["servers"] = vc.new_list(st, servers)
        st.heap[self.sim.oid] = d
        for f, w in SUB["SubTask"].items():
            vc.ensure(st, "SubTask", f, w)
            st.ch["SubTask"][f] = c("SubTask." + f, z3.ArraySort(I, sort_of_wrap(w)))
        st.cells[("alloc", "SubTask")] = c("alloc", I)
        st.cells[("cattr", "ForkJoinTask", "task_id")] = c("T", I)
        st.cells[("cattr", "SubTask", "sub_task_id")] = c("sub_id", I)
        for k in list(st.cells):
            if k[0] == "ghost" and k[1] != "steps":
                st.cells[k] = c("g." + k[1], st.cells[k].sort())

    def dist_of(self, st, d):
        d["source"] = Opq("dist", ("source",))

    def symbolic(self):
        st = St()
        self.vc.muted += 1
        try:
            st = self.make(st)
        finally:
            self.vc.muted -= 1
        self.fill(st)
        for _, c in self.inv(st):
            st.assume(c)
        self.vc.inv_cands = [lambda vc, s: self.inv(s)]
        return st

    # ------------------------------------------------------------ invariant
    def states(self, V):
        return zi(V.num_of_states)

    def inv(self, st):
        V = FV(self, st)
        n, t, T, k = self.n, zr(V.ttek), V.T, self.K
        N = range(n)
        out = []
        add = lambda nm, c: out.append((nm, zb(c)))
        free = [V.srv(i)[0] for i in N]
        tte = [V.srv(i)[1] for i in N]
        tsk = [V.srv(i)[2] for i in N]
        tid, sarr, jobarr = V.tid, V.sarr, V.g_jobarr
        i, j, x = z3.Ints("i!fj j!fj x!fj")
        add("free channels counted", zi(V.free_channels) == z3.Sum([b2i(f) for f in free]))
        add("arrived = served + dropped + in system", zi(V.arrived) == zi(V.served) + zi(V.dropped) + zi(V.in_sys))
        add("counters non-negative", z3.And(zi(V.served) >= 0, zi(V.dropped) >= 0, zi(V.in_sys) >= 0))
        if self.buf is None:
            add("nothing dropped without a buffer limit", zi(V.dropped) == 0)
        add("clock = last event", z3.And(zr(V.t_old) == t, t >= 0))
        add("credited time adds up to the clock", self.total.f(V.p_arr) == t)
        add("credited times non-negative", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.states(V)), S(V.p_arr, i) >= 0), patterns=[S(V.p_arr, i)]))
        add("next arrival not in the past", zr(V.arrival_time) >= t)
        add("job numbers", z3.And(T >= 0, V.alloc >= 0))
        for c in N:
            add(f"channel {c}: end of service", z3.If(free[c], tte[c] >= HORIZON, tte[c] >= t))
            add(f"channel {c}: subtask in service", z3.Implies(z3.Not(free[c]), z3.And(
                tsk[c] >= 0, tsk[c] < V.alloc, S(tid, tsk[c]) >= 0, S(tid, tsk[c]) < T, S(sarr, tsk[c]) == S(jobarr, S(tid, tsk[c])))))
        add("sojourn moments are sample means", z3.And(*[MUL(zr(V.v[m]), zi(V.served)) == V.st.g(f"V{m}") for m in range(3)]))
        D, dom = V.dict()
        (self.inv_sj if self.sj else self.inv_fj)(V, add, free, tsk, D, dom)
        return out

    def queued(self, V, q):
        """facts about every subtask of a queue"""
        arr, lo, hi = q
        x = z3.Int("x!qd")
        return z3.ForAll([x], z3.Implies(z3.And(x >= lo, x < hi), z3.And(
            S(arr, x) >= 0, S(arr, x) < V.alloc, S(V.tid, S(arr, x)) >= 0, S(V.tid, S(arr, x)) < V.T, S(V.sarr, S(arr, x)) == S(V.g_jobarr, S(V.tid, S(arr, x))))),
            patterns=[S(arr, x)])

    def inv_fj(self, V, add, free, tsk, D, dom):
        n, T, k, tid = self.n, V.T, self.K, V.tid
        N = range(n)
        x, y, j = z3.Ints("x!f y!f j!f")
        E, ins = V.g_E, V.g_ins
        pend = [V.st.cells[("ghost", f"pend{i}")] for i in N]
        pos = [V.st.cells[("ghost", f"pos{i}")] for i in N]
        size = z3.IntVal(0)
        for c in N:
            arr, lo, hi = V.q(c)
            size = size + (hi - lo) + b2i(z3.Not(free[c]))
            add(f"queue {c}: well-formed", z3.And(hi >= lo, self.queued(V, (arr, lo, hi))))
            add(f"queue {c}: a free channel has no waiting subtask", z3.Implies(free[c], hi == lo))
            add(f"queue {c}: order of arrival", z3.ForAll([x, y], z3.Implies(z3.And(x >= lo, x < y, y < hi), S(tid, S(arr, x)) < S(tid, S(arr, y))),
                                                         patterns=[z3.MultiPattern(S(arr, x), S(arr, y))]))
            add(f"queue {c}: waiting subtasks are pending and behind the one in service", z3.ForAll([x], z3.Implies(z3.And(x >= lo, x < hi), z3.And(
                S(pend[c], S(tid, S(arr, x))), S(tid, S(arr, x)) > S(tid, tsk[c]))), patterns=[S(arr, x)]))
            add(f"channel {c}: the subtask in service is pending", z3.Implies(z3.Not(free[c]), S(pend[c], S(tid, tsk[c]))))
            add(f"channel {c}: every pending subtask waits or is in service", z3.ForAll([j], z3.Implies(S(pend[c], j), z3.And(j >= 0, j < T, z3.Or(
                z3.And(z3.Not(free[c]), S(tid, tsk[c]) == j),
                z3.And(S(pos[c], j) >= lo, S(pos[c], j) < hi, S(tid, S(arr, S(pos[c], j))) == j)))), patterns=[S(pend[c], j)]))
        live = lambda j: z3.Or(S(ins, j), *[S(p, j) for p in pend])
        done = z3.Sum([b2i(S(p, j)) for p in pend])
        pats = [S(E, j)]
        add("jobs leave at the k-th subtask", z3.ForAll([j], z3.And(
            z3.Implies(S(ins, j), z3.And(j >= 0, j < T, S(E, j) >= 0, S(E, j) < k)),
            z3.Implies(z3.And(z3.Not(S(ins, j))), S(E, j) >= k)), patterns=pats + [S(ins, j)]))
        add("subtasks of a job: ended + pending = n", z3.ForAll([j], z3.Implies(S(ins, j) if self.purge else live(j), S(E, j) + done == n), patterns=pats))
        if self.purge:
            add("nothing of a completed job is left", z3.ForAll([j], z3.Implies(z3.Or(*[S(p, j) for p in pend]), S(ins, j)), patterns=pats + [S(p, j) for p in pend]))
        add("ended subtasks counted per job", z3.ForAll([j], z3.Implies(live(j), z3.And(S(dom, j), S(D, j) == S(E, j))), patterns=[S(D, j), S(dom, j)]))
        add("in system = jobs with fewer than k subtasks ended", zi(V.in_sys) == self.cnt.f(ins))
        add("subtasks in the system", zi(V.sub_task_in_sys) == size)

    def inv_sj(self, V, add, free, tsk, D, dom):
        n, T, tid = self.n, V.T, V.tid
        arr, lo, hi = V.q()
        x = z3.Int("x!s")
        ins = zi(V.in_sys)
        cur = T - ins
        add("queue: whole jobs wait", hi - lo == z3.If(ins >= 1, n * (ins - 1), 0))
        add("queue: well-formed", self.queued(V, (arr, lo, hi)))
        add("queue: n subtasks of each job, in order of arrival", z3.ForAll([x], z3.Implies(z3.And(x >= lo, x < hi), z3.And(
            n * (S(tid, S(arr, x)) - cur - 1) <= x - lo, x - lo < n * (S(tid, S(arr, x)) - cur))), patterns=[S(arr, x)]))
        add("only one job in service", z3.And(*[z3.Implies(z3.Not(free[c]), S(tid, tsk[c]) == cur) for c in range(n)]))
        add("idle exactly when empty", (ins == 0) == z3.And(*free))
        add("ended subtasks counted per job", z3.Implies(ins >= 1, z3.And(S(dom, cur), S(D, cur) == zi(V.free_channels))))
        j = z3.Int("j!s")
        add("waiting jobs have nothing ended", z3.ForAll([j], z3.Implies(z3.And(j > cur, j < T), z3.And(S(dom, j), S(D, j) == 0)), patterns=[S(D, j), S(dom, j)]))
        size = hi - lo + n - z3.Sum([b2i(f) for f in free])
        add("subtasks in the system", zi(V.sub_task_in_sys) == size)

    # ------------------------------------------------------------ helpers
    def pending_min(self, V):
        def le(t0):
            return z3.And(zr(V.arrival_time) >= t0, *[z3.Implies(z3.Not(V.srv(i)[0]), t0 <= V.srv(i)[1]) for i in range(self.n)])
        return le

    def common(self, o, V, t0, W):
        ck = self.vc.check
        s = V.st
        ck(s, zr(V.ttek) == t0, W + ": clock moves exactly to the event")
        k = zi(o.in_sys)
        ck(s, V.p_arr == z3.Store(o.p_arr, k, S(o.p_arr, k) + (t0 - zr(o.ttek))), W + ": elapsed time credited once to the number present before")
        d, e = s.heap[self.sim.oid], o.st.heap[self.sim.oid]
        for f in self.config:
            ck(s, same(d[f], e[f]), W + f": {f} untouched")

    def keeps(self, o, V, i, W):
        a, b = o.srv(i), V.srv(i)
        self.vc.check(V.st, z3.Implies(z3.Not(a[0]), z3.And(z3.Not(b[0]), a[1] == b[1], a[2] == b[2])), f"{W}: service in channel {i} goes on")

    def sub_kept(self, o, V, W):
        x = z3.Int("x!sk")
        for nm in ("sarr", "tid"):
            a, b = getattr(o, nm), getattr(V, nm)
            self.vc.check(V.st, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < o.alloc), S(a, x) == S(b, x))), f"{W}: existing subtasks keep job and arrival time")

    def ghost(self, a, name, term):
        """ghost := term, under a name of its own (patterns need plain arrays)"""
        x = fresh("gh_" + name, term.sort())
        a.assume(x == term)
        a.setg(name, x)
        return x

    # ------------------------------------------------------------ events
    def arrival(self):
        st = self.symbolic()
        pre = st.fork()
        o = FV(self, pre)
        t0 = zr(o.arrival_time)
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        self.vc.assumptions.add("fewer than N jobs over the whole run, for an arbitrary N")
        st.assume(o.T < self.NJ)
        self.reach(st, "arrival")
        outs = self.call("arrival", st)
        self.outcomes("arrival", outs)
        ck = self.vc.check
        for s, _ in outs:
            V = FV(self, s)
            W = "arrival"
            self.common(o, V, t0, W)
            src = [x for x in s.trace if x[0] == "gen" and x[1] == ("source",)]
            ck(s, len(src) == 1, W + ": one interarrival time drawn")
            if len(src) == 1:
                ck(s, zr(V.arrival_time) == t0 + src[0][2], W + ": next arrival after the drawn interval")
            ck(s, zi(V.arrived) == zi(o.arrived) + 1, W + ": counted")
            ck(s, zi(V.served) == zi(o.served), W + ": nobody is served")
            for i in range(self.n):
                self.keeps(o, V, i, W)
            self.sub_kept(o, V, W)
            drop = zi(V.dropped) == zi(o.dropped) + 1
            ck(s, z3.Or(drop, zi(V.dropped) == zi(o.dropped)), W + ": refused at most once")
            for c, refused in ((drop, True), (z3.Not(drop), False)):
                a = s.fork()
                a.assume(c)
                if not self.vc.feasible(a):
                    continue
                A = FV(self, a)
                if refused:
                    for i in [None] if self.sj else range(self.n):
                        x, y = o.q(i), A.q(i)
                        ck(a, z3.And(x[0] == y[0], x[1] == y[1], x[2] == y[2]), W + " refused: queues untouched")
                    ck(a, not [e for e in a.trace if e[0] == "start"], W + " refused: nothing starts")
                    ck(a, zi(A.in_sys) == zi(o.in_sys), W + " refused: not in the system")
                    if self.sj:
                        ck(a, A.T == o.T, W + " refused: no number")
                    self.check_inv(a, W + " refused")
                    continue
                ck(a, A.T == o.T + 1, W + ": one new job number")
                ck(a, zi(A.in_sys) == zi(o.in_sys) + 1, W + ": in the system")
                T = o.T
                self.ghost(a, "jobarr", z3.Store(o.g_jobarr, T, t0))
                if self.sj:
                    starts = len([e for e in a.trace if e[0] == "start"])
                    ck(a, z3.If(zi(o.in_sys) == 0, starts == self.n, starts == 0), W + ": a job starts at once only in an empty system")
                else:
                    self.ghost(a, "E", z3.Store(o.g_E, T, z3.IntVal(0)))
                    ins = self.ghost(a, "ins", z3.Store(o.g_ins, T, z3.BoolVal(True)))
                    self.cnt.on_store(self.vc, a, o.g_ins, T, ins, z3.BoolVal(True))
                    for i in range(self.n):
                        self.ghost(a, f"pend{i}", z3.Store(o.st.g(f"pend{i}"), T, z3.BoolVal(True)))
                        self.ghost(a, f"pos{i}", z3.Store(o.st.g(f"pos{i}"), T, o.q(i)[2]))
                self.check_inv(a, W)

    def serving(self, c):
        st = self.symbolic()
        pre = st.fork()
        o = FV(self, pre)
        free, t0, tsk = o.srv(c)
        st.assume(z3.Not(free))
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        st.assume(o.T <= self.NJ)
        W = f"serving({c})"
        self.reach(st, W)
        outs = self.call("serving", st, [c])
        self.outcomes(W, outs)
        ck = self.vc.check
        job = S(o.tid, tsk)
        for s, _ in outs:
            V = FV(self, s)
            self.common(o, V, t0, W)
            self.sub_kept(o, V, W)
            ck(s, z3.And(zi(V.arrived) == zi(o.arrived), zi(V.dropped) == zi(o.dropped), V.T == o.T), W + ": no arrival")
            ck(s, zr(V.arrival_time) == zr(o.arrival_time), W + ": next arrival untouched")
            if self.sj:
                gone = zi(o.free_channels) + 1 == self.n
                before = z3.BoolVal(True)
            else:
                before = S(o.g_ins, job)
                gone = z3.And(before, S(o.g_E, job) + 1 == self.K)
            ck(s, zi(V.served) == zi(o.served) + b2i(gone), W + ": the job leaves exactly with its last required subtask")
            ck(s, zi(V.in_sys) == zi(o.in_sys) - b2i(gone), W + ": in the system until its last required subtask ends")
            soj = [x[1] for x in s.trace if x[0] == "sojourn"]
            ck(s, z3.BoolVal(len(soj) == 1) == gone, W + ": one sojourn time recorded per job that leaves")
            if len(soj) == 1:
                ck(s, soj[0] == t0 - S(o.g_jobarr, job), W + ": sojourn time = departure - arrival")
            starts = [e for e in s.trace if e[0] == "start"]
            for a, leaves in ((s.fork(), True), (s.fork(), False)):
                a.assume(gone if leaves else z3.Not(gone))
                if not self.vc.feasible(a):
                    continue
                A = FV(self, a)
                if leaves:
                    for i in range(3):
                        a.setg(f"V{i}", z3.simplify(o.st.g(f"V{i}") + PW[i + 1](z3.simplify(t0 - S(o.g_jobarr, job)))))
                if self.sj:
                    if leaves:
                        ck(a, z3.If(zi(o.in_sys) >= 2, len(starts) == self.n, len(starts) == 0), W + ": then the next job starts with all subtasks")
                    else:
                        ck(a, len(starts) == 0, W + ": the next job waits for all subtasks of this one")
                        for i in range(self.n):
                            if i != c:
                                self.keeps(o, A, i, W)
                else:
                    self.after_fj(o, A, a, c, job, leaves, before, W)
                self.check_inv(a, W + (" completed" if leaves else ""))

    def after_fj(self, o, A, a, c, job, leaves, before, W):
        """ghost code of a subtask end"""
        self.ghost(a, "E", z3.Store(o.g_E, job, S(o.g_E, job) + 1))
        if leaves:
            ins = self.ghost(a, "ins", z3.Store(o.g_ins, job, z3.BoolVal(False)))
            self.cnt.on_store(self.vc, a, o.g_ins, job, ins, z3.BoolVal(False))
        for i in range(self.n):
            p0, x0 = o.st.g(f"pend{i}"), o.st.g(f"pos{i}")
            if i == c or (leaves and self.purge):
                self.ghost(a, f"pend{i}", z3.Store(p0, job, z3.BoolVal(False)))
            free, tte, tsk = o.srv(i)
            if i != c:
                cancel = z3.And(z3.BoolVal(bool(leaves and self.purge)), z3.Not(free), S(o.tid, tsk) == job)
                x, y = o.srv(i), A.srv(i)
                self.vc.check(a, z3.Implies(z3.And(z3.Not(free), z3.Not(cancel)), z3.And(z3.Not(y[0]), x[1] == y[1], x[2] == y[2])), f"{W}: service in channel {i} goes on")
            if leaves and self.purge:
                removed = z3.And(S(p0, job), z3.Not(z3.And(z3.Not(free), S(o.tid, tsk) == job)))
                at = S(x0, job)
                pos = fresh("pos", AI)
                j = z3.Int("j!pos")
                a.assume(z3.ForAll([j], S(pos, j) == z3.If(z3.And(removed, S(x0, j) > at), S(x0, j) - 1, S(x0, j)), patterns=[S(pos, j)]))
                a.setg(f"pos{i}", pos)

    # ------------------------------------------------------------ one step, construction, reports
    def step(self):
        st = self.symbolic()
        pre = st.fork()
        o = FV(self, pre)
        vc = self.vc

        def handler(kind):
            def f(vc, s, recv, args, kw):
                V = FV(self, s)
                if kind == "serving":
                    c = zi(args[0])
                    en = z3.And(c >= 0, c < self.n, *[z3.Implies(c == i, z3.Not(V.srv(i)[0])) for i in range(self.n)])
                    t0 = V.srv(0)[1]
                    for i in range(1, self.n):
                        t0 = z3.If(c == i, V.srv(i)[1], t0)
                else:
                    en, t0 = z3.BoolVal(True), zr(V.arrival_time)
                vc.check(s, en, f"run_one_step: {kind} is enabled")
                vc.check(s, z3.Implies(en, self.pending_min(V)(t0)), f"run_one_step: {kind} is the earliest pending event")
                s.trace.append(("event", kind))
                return [(s, None)]
            return f
        for kind in ("serving", "arrival"):
            vc.contracts[f"{self.cls_name}.{kind}"] = handler(kind)
        st.assume(z3.And(zr(o.arrival_time) < HORIZON, *[z3.Implies(z3.Not(o.srv(i)[0]), o.srv(i)[1] < HORIZON) for i in range(self.n)]))
        self.reach(st, "run_one_step")
        outs = self.call("run_one_step", st)
        self.outcomes("run_one_step", outs)
        for s, _ in outs:
            ev = [x for x in s.trace if x[0] == "event"]
            vc.check(s, len(ev) == 1, "run_one_step: exactly one event is processed")
            ds = [k for k in loops.diff_cells(pre, s) if k[0] in ("h", "ch") or k[0] == "c" and k[1][0] in ("ghost", "alloc", "cattr")]
            vc.check(s, not ds, "run_one_step: nothing changes outside the event")

    def establish(self):
        vc = self.vc
        st = self.make(St())
        sim = self.sim
        none = z3.K(I, z3.BoolVal(False))
        st.assume(self.cnt.f(none) == 0)            # count_lemmas: none
        st.assume(MUL(z3.RealVal(0), z3.IntVal(0)) == 0)
        outs = [st]
        for name in ("set_sources", "set_servers"):
            nxt = []
            for s in outs:
                s.env = {}
                nxt += [s2 for s2, _ in vc.call_func(self.fn(name), s, [sim, Opq("dist_params"), Opq("str")], {})]
            outs = nxt
        self.outcomes("construction", outs)
        for s in outs:
            d = s.heap[sim.oid]
            sv = s.heap[d["servers"].oid]
            if sv["k"] != "c":
                raise Unsupported("servers list")
            vc.check(s, len(sv["items"]) == self.n and len({o.oid for o in sv["items"]}) == self.n, "construction: n distinct channels")
            qs_ = s.heap[d["queues"].oid]
            if not self.sj:
                vc.check(s, len(qs_["items"]) == self.n and len({o.oid for o in qs_["items"]}) == self.n, "construction: n distinct queues")
            for q in ([s.heap[d["queue"].oid]["queue"]] if self.sj else qs_["items"]):
                if s.heap[q.oid]["k"] == "c":
                    vc.check(s, len(s.heap[q.oid]["items"]) == 0, "construction: queue is empty")
                    s.heap[q.oid] = {"k": "s", "arr": z3.Const("q0", AI), "lo": z3.IntVal(0), "hi": z3.IntVal(0), "w": "ref:SubTask", "tag": None}
            p = s.heap[d["p"].oid]
            if p["k"] == "c":
                raise Unsupported("p table")
            self.total = Total("total_p", z3.IntVal(0), z3.IntVal(0))
            zero = z3.K(I, z3.RealVal(0))
            s.assume(self.total.f(zero) == 0)
            vc.check(s, z3.And(p["arr"] == zero, self.states(FV(self, s)) == p["hi"] - p["lo"]), "construction: nothing credited yet")
            self.reach(s, "construction")
            self.check_inv(s, "construction")

    def getters(self):
        st = self.symbolic()
        o = FV(self, st)
        st.assume(zr(o.ttek) > 0)
        vc = self.vc
        self.reach(st, "get_p")
        pre = st.fork()
        k = z3.Int("k!p")

        def cands(vc, entry, s, kk, lo):
            j = z3.Int("j!gp")
            kk = zi(kk) if kk is not None else z3.IntVal(0)
            return [("reported", z3.ForAll([j], z3.Implies(z3.And(j >= d["lo"], j < d["lo"] + kk), S(d["arr"], j) == S(o.p_arr, j - d["lo"]) / zr(o.ttek)), patterns=[S(d["arr"], j)]))
                    for oid, d in s.heap.items() if isinstance(d.get("k"), str) and d["k"] == "s" and d.get("w") == "real" and d.get("arr") is not None and oid not in pre.heap]
        vc.loop_cands = [cands]
        outs = self.call("get_p", st)
        self.outcomes("get_p", outs)
        for s, r in outs:
            d = vc.lcell(s, r)
            if d["k"] != "s":
                raise Unsupported("get_p result")
            n = self.states(o)
            vc.check(s, d["hi"] - d["lo"] == n, "get_p: one probability per state")
            vc.check(s, z3.Implies(z3.And(k >= 0, k < n), S(d["arr"], d["lo"] + k) == S(o.p_arr, k) / zr(o.ttek)), "get_p: credited time divided by the clock")

    def keep_identity(self, old, s, a, b):
        """object a gets the new contents of b, its containers keep their identity"""
        da, db = old.heap[a.oid], dict(s.heap[b.oid])
        for f in list(db):
            x, y = da.get(f), db[f]
            if a is self.sim and f in self.config:
                db[f] = x
            elif isinstance(x, (Lst, Obj)) and isinstance(y, (Lst, Obj)):
                self.keep_identity(old, s, x, y)
                db[f] = x
            elif isinstance(x, tuple) and isinstance(y, tuple):
                for u, v in zip(x, y):
                    if isinstance(u, (Lst, Obj)):
                        self.keep_identity(old, s, u, v)
                db[f] = tuple(u if isinstance(u, (Lst, Obj)) else v for u, v in zip(x, y))
        s.heap[a.oid] = db

    def run_loop(self):
        vc = self.vc
        st = self.symbolic()
        o = FV(self, st)
        tot = z3.Int("total_served")
        num = [0]

        def one_step(vc, s, recv, args, kw):
            for nm, cl in self.inv(s):
                vc.check(s, zb(cl), "run: at a step: invariant: " + nm)
            served = zi(FV(self, s).served)
            s.setg("steps", s.g("steps") + 1)
            num[0] += 1
            old = s.fork()
            self.fill(s, f"rs{num[0]}.")
            self.keep_identity(old, s, self.sim, self.sim)
            for _, cl in self.inv(s):
                s.assume(cl)
            V = FV(self, s)
            s.assume(z3.And(zi(V.served) >= served, zi(V.served) <= served + 1))
            return [(s, None)]
        vc.contracts[f"{self.cls_name}.run_one_step"] = one_step
        st.setg("steps", z3.IntVal(0))

        def cands(vc, entry, s, kk, lo):
            V = FV(self, s)
            out = [("served at most", z3.Implies(zi(o.served) <= tot, zi(V.served) <= tot)), ("served more", zi(V.served) >= zi(o.served))]
            if kk is not None:
                out.append(("steps", s.g("steps") == zi(kk)))
            return out
        vc.loop_cands = [cands]
        for real in (True, False):
            s0 = st.fork()
            s0.env = {}
            s0.assume(tot >= 1)
            self.reach(s0, "run")
            outs = vc.call_func(self.fn("run"), s0, [self.sim, tot], {"is_real_served": real}, nocontract=True)
            self.outcomes("run", outs)
            for s, _ in outs:
                V = FV(self, s)
                self.check_inv(s, "run")
                if real:
                    vc.check(s, z3.Implies(zi(o.served) <= tot, zi(V.served) == tot), "run: exactly the requested number of jobs is served")
                else:
                    vc.check(s, s.g("steps") == tot, "run: exactly the requested number of events")

    def generate(self, vc, st, a, kw):
        vc.assumptions.add("generate() of every distribution object returns an arbitrary non-negative real (assumed contract)")
        x = fresh("sample", "real")
        st.assume(x >= 0)
        st.trace.append(("gen", a[0].data, x))
        return [(st, x)]


def v_leaf():
    """refresh_v_stat against its contract, in real arithmetic"""
    vc = VC(name="refresh_v_stat")
    info = vc.cls(FJ, "ForkJoinSim")
    st = St()
    sim = vc.new_obj(st, info, {})
    m = [z3.Real(f"m{i}") for i in range(3)]
    x, c = z3.Real("x"), z3.Int("served")
    lst = vc.new_list(st, m)
    st.heap[sim.oid] = {"v": lst, "served": c}
    st.assume(c >= 1)
    vc.covers = [("refresh_v_stat", list(st.pc))]
    for s, r in vc.call_func(vc.func(FJ, "ForkJoinSim.refresh_v_stat"), st, [sim, x], {}):
        vc.check(s, s.heap[sim.oid]["served"] == c, "refresh_v_stat: counter untouched")
        items = vc.items(s, s.heap[sim.oid]["v"])
        vc.check(s, len(items) == 3, "refresh_v_stat: three moments")
        for i in range(3):
            p = x
            for _ in range(i):
                p = p * x
            vc.check(s, zr(items[i]) * z3.ToReal(c) == m[i] * z3.ToReal(c - 1) + p, f"refresh_v_stat: moment {i + 1} is the running mean")
    for s, nm in vc.pend:
        vc.check(s, False, f"refresh_v_stat: no exception ({nm})")
    return vc


KINDS = {"fork-join": (False, False), "purge": (False, True), "split-join": (True, False)}


def unit(what, kind=None, n=None, buffer=None):
    if what == "v_leaf":
        return v_leaf()
    sj, purge = KINDS[kind]
    c = FJContract(int(n), sj, purge, buffer)
    c.vc.name = f"{what}[{kind}, n={n}, buffer={buffer}]"
    if what.startswith("serving"):
        c.serving(int(what[-1]))
    else:
        getattr(c, what)()
    return c.vc
