"""C13: the priority network sim/priority_network.py over the node contracts proved in c07 (mode net).

Network size, channels per node and number of classes are concrete in run_one_step and the constructor; the routing
function is proved for any number of nodes and classes."""
from contracts.qs import *
from contracts import c12

NET = "most_queue/sim/priority_network.py"
PQ = "most_queue/sim/priority_queue_sim.py"
S = z3.Select
TASKS = {"Task": {"arr_time": "real", "k": "int", "start_waiting_time": "real", "wait_time": "real", "time_to_end_service": "real",
                  "id": "int", "is_pr": "bool", "wait_network": "real", "arr_network": "real", "in_node_class_num": "int"}}
KEEP = ("k", "arr_network")
ROUTE = z3.Function("R", I, I, I, R)          # R[class][row, column]


def matrices(vc, rows):
    """self.R: one transition matrix per class, any size"""
    vc.ext["getitem:mats"] = lambda vc, st, v, i: Opq("mat", (zi(i),))

    def entry(vc, st, v, i):
        if isinstance(i, tuple) and len(i) == 2:
            return ROUTE(v.data[0], zi(i[0]), zi(i[1]))
        if not isinstance(i, tuple):
            return Opq("mat", (*v.data, zi(i)))
        raise Unsupported("matrix index")

    def ent(vc, st, v, i):
        if len(v.data) == 2:
            return ROUTE(v.data[0], v.data[1], zi(i))
        return entry(vc, st, v, i)
    vc.ext["getitem:mat"] = ent

    def attr(vc, st, v, name):
        if name == "shape" and len(v.data) == 1:
            return (rows, rows)
        raise Unsupported("matrix attribute " + name)
    vc.ext["attr:mat"] = attr
    vc.ext["len:mat"] = lambda vc, st, v: rows
    return Opq("mats")


class NV:
    """reads a symbolic state of the network"""

    def __init__(self, c, st):
        self.c, self.st = c, st

    def __getattr__(self, name):
        c, st = self.c, self.st
        if name in TASKS["Task"]:
            c.vc.ensure(st, "Task", name, TASKS["Task"][name])
            return st.ch["Task"][name]
        if name == "alloc":
            return zi(st.cells[("alloc", "Task")])
        if name.startswith("g_"):
            return st.cells[("ghost", name[2:])]
        v = st.heap[c.sim.oid][name]
        return list(st.heap[v.oid]["items"]) if isinstance(v, Lst) else v

    def mom(self, name, k):
        return list(self.st.heap[getattr(self, name)[k].oid]["items"])

    def node(self, i, f):
        v = self.st.heap[self.smos[i].oid][f]
        return list(self.st.heap[v.oid]["items"]) if isinstance(v, Lst) else v

    def tte(self, i, c):
        return zr(self.st.heap[self.node(i, "servers")[c].oid]["time_to_end_service"])


class NetContract(QsContract):
    module, cls_name = NET, "PriorityNetwork"
    config = ("k_num", "L", "R", "n_num", "nodes", "prty", "serv_params", "nodes_prty", "sources")

    def __init__(self, chan, K):
        self.chan, self.M, self.K, self.prop, self.phases = chan, len(chan), K, None, "none"
        self.vc = vc = VC(heap_classes=("Task",), schemas=TASKS, name="net")
        vc.opts["classes"] = {"Task": vc.cls(PQ, "Task")}
        vc.opts["enum"] = {("Task", "k"): K}
        vc.contracts["PriorityQueueSimulator"] = self.new_node
        vc.contracts["PriorityQueueSimulator.set_servers"] = self.set_servers
        vc.contracts["PriorityQueueSimulator.arrival"] = self.node_arrival
        vc.contracts["PriorityQueueSimulator.serving"] = self.node_serving
        vc.contracts["PriorityNetwork.refresh_v_stat"] = self.refresh("v_network")
        vc.contracts["PriorityNetwork.refresh_w_stat"] = self.refresh("w_network")
        vc.contracts["PriorityNetwork.play_next_node"] = self.play
        vc.contracts["Exp_dist"] = self.new_source
        vc.ext["dist.generate"] = self.generate
        self.mats = matrices(vc, self.M + 1)
        self.prty_of = [[z3.Int(f"slot{i}_{k}") for k in range(K)] for i in range(self.M)]

    def wanted(self, name):
        return True

    # ------------------------------------------------------------ contracts of callees
    def generate(self, vc, st, a, kw):
        vc.assumptions.add("interarrival times of the sources are positive")
        x = fresh("sample", "real")
        st.assume(x > 0)
        st.trace.append(("gen", a[0].data, x))
        return [(st, x)]

    def new_source(self, vc, st, recv, args, kw):
        return [(st, Opq("dist", ("source", args[0] if args else next(iter(kw.values())))))]

    def new_node(self, vc, st, recv, args, kw):
        """an empty node (proved in c07 establish)"""
        a = list(args) + [kw.get(x) for x in ("num_of_channels", "num_of_classes", "prty_type", "buffer")[len(args):]]
        i = len([e for e in st.trace if e[0] == "node"])
        o = vc.new_obj(st, vc.cls(PQ, "PriorityQueueSimulator"), {})
        n, K = conc(a[0]), conc(a[1])
        ok = isinstance(n, int) and isinstance(K, int) and a[3] is None
        self.chk(st, ok, "node construction: channels, classes, no limit on the queue")
        if not ok:
            raise Unsupported("node construction")
        info = vc.cls(PQ, "Server")
        sv = [vc.new_obj(st, info, {"time_to_end_service": Fraction(10) ** 16, "is_free": True}) for _ in range(n)]
        st.heap[o.oid] = {"n": n, "k": K, "prty_type": a[2], "buffer": None, "ttek": 0, "servers": vc.new_list(st, sv), "in_sys": vc.new_list(st, [0] * K)}
        st.trace.append(("node", i, n, K, a[2], o))
        return [(st, o)]

    def set_servers(self, vc, st, recv, args, kw):
        st.trace.append(("servers", recv, tuple(vc.items(st, args[0]))))
        return [(st, None)]

    def index(self, st, recv):
        its = st.heap[st.heap[self.sim.oid]["smos"].oid]["items"]
        return next(i for i, o in enumerate(its) if o.same(recv))

    def havoc_node(self, st, i, t, in_sys):
        """times of the channels after an event at t"""
        V = NV(self, st)
        o = V.smos[i]
        info = self.vc.cls(PQ, "Server")
        sv = []
        for c in range(self.chan[i]):
            x, free = fresh("tte", "real"), fresh("free", "bool")
            st.assume(z3.If(free, x >= HORIZON, x >= t))
            sv.append(self.vc.new_obj(st, info, {"time_to_end_service": x, "is_free": free}))
        st.heap[o.oid] = {**st.heap[o.oid], "ttek": t, "servers": self.vc.new_list(st, sv), "in_sys": self.vc.new_list(st, in_sys)}

    def setg(self, st, name, term):
        x = fresh("gh_" + name, term.sort())
        st.assume(x == term)
        st.setg(name, x)

    def havoc_tasks(self, st, keep):
        for f in TASKS["Task"]:
            self.vc.ensure(st, "Task", f, TASKS["Task"][f])
            if f not in keep:
                st.ch["Task"][f] = z3.FreshConst(z3.ArraySort(I, sort_of_wrap(TASKS["Task"][f])), "Task_" + f)

    def node_arrival(self, vc, st, recv, args, kw):
        """c07 arrival, mode net: the job enters the node"""
        a = list(args) + [kw.get(x) for x in ("k", "moment", "ts")[len(args):]]
        i = self.index(st, recv)
        V = NV(self, st)
        if not isinstance(a[2], Ref):
            raise Unsupported("arrival of a job at a node")
        k, t, j = zi(a[0]), zr(a[1]), zi(a[2].t)
        W = f"arrival at node {i}: "
        ins = V.node(i, "in_sys")
        for nm, c in (("the class exists in the node", z3.And(k >= 0, k < self.K)), ("a positive time not before the node's clock", z3.And(t > 0, t >= zr(V.node(i, "ttek")))),
                      ("no service of the node ends before", z3.And(*[t <= V.tte(i, c) for c in range(self.chan[i])])),
                      ("the job exists and is in no node", z3.And(j >= 0, j < V.alloc, S(V.g_where, j) == -1))):
            self.chk(st, c, W + nm)
            st.assume(c)
        old = {f: getattr(V, f) for f in TASKS["Task"]}
        self.havoc_tasks(st, KEEP + ("wait_network",))
        N = NV(self, st)
        x = z3.Int("x!na")
        st.assume(N.in_node_class_num == z3.Store(old["in_node_class_num"], j, k))
        st.assume(N.arr_time == z3.Store(old["arr_time"], j, t))
        self.havoc_node(st, i, t, [z3.simplify(zi(n) + z3.If(k == q, 1, 0)) for q, n in enumerate(ins)])
        self.setg(st, "where", z3.Store(V.g_where, j, z3.IntVal(i)))
        st.trace.append(("arrival", i, k, t, j))
        return [(st, None)]

    def node_serving(self, vc, st, recv, args, kw):
        """c07 serving, mode net: the job whose service ends leaves the node and is returned"""
        a = list(args) + [kw.get(x) for x in ("c", "is_network")[len(args):]]
        i = self.index(st, recv)
        V = NV(self, st)
        c = conc(a[0])
        W = f"serving at node {i}: "
        self.chk(st, zb(a[1] if a[1] is not None else False), W + "called as part of the network")
        t = V.tte(i, 0)
        cz = zi(c)
        self.chk(st, z3.And(cz >= 0, cz < self.chan[i]), W + "the channel exists")
        st.assume(z3.And(cz >= 0, cz < self.chan[i]))
        for q in range(1, self.chan[i]):
            t = z3.If(cz == q, V.tte(i, q), t)
        t = z3.simplify(t)
        for nm, cl in (("the channel is busy", t < HORIZON), ("no service of the node ends before", z3.And(*[t <= V.tte(i, q) for q in range(self.chan[i])])),
                       ("not before the node's clock", t >= zr(V.node(i, "ttek")))):
            self.chk(st, cl, W + nm)
            st.assume(cl)
        r = fresh("left", "int")
        st.assume(z3.And(r >= 0, r < V.alloc, S(V.g_where, r) == i))
        st.assume(z3.And(*self.job_facts(V, r)))          # the invariant at this job
        kk = S(V.in_node_class_num, r)
        ins = V.node(i, "in_sys")
        for q in range(self.K):
            st.assume(z3.Implies(kk == q, zi(ins[q]) >= 1))
        old = {f: getattr(V, f) for f in TASKS["Task"]}
        self.havoc_tasks(st, KEEP + ("in_node_class_num", "arr_time"))
        N = NV(self, st)
        st.assume(S(N.wait_network, r) == S(old["wait_network"], r))
        self.havoc_node(st, i, t, [z3.simplify(zi(n) - z3.If(kk == q, 1, 0)) for q, n in enumerate(ins)])
        self.setg(st, "where", z3.Store(V.g_where, r, z3.IntVal(-1)))
        st.trace.append(("serving", i, cz, t, r))
        return [(st, Ref("Task", r))]

    def play(self, vc, st, recv, args, kw):
        """a node (or the exit) that has positive probability; the entry row has no direct exit"""
        a = list(args) + [kw.get(x) for x in ("real_class", "current_node")[len(args):]]
        k, cur = zi(a[0]), zi(a[1])
        self.chk(st, z3.And(k >= 0, k < self.K, cur >= -1, cur < self.M), "routing: class and node exist")
        out = []
        for i in range(self.M + 1):
            s = st.fork()
            s.assume(ROUTE(k, cur + 1, i) > 0)
            if vc.feasible(s):
                s.trace.append(("play", k, cur, i))
                out.append((s, i))
        return out

    def refresh(self, which):
        def f(vc, st, recv, args, kw):
            d = st.heap[self.sim.oid]
            k, x = conc(args[0]), zr(args[1])
            if not isinstance(k, int):
                raise Unsupported("class number")
            c = zi(st.heap[d["served"].oid]["items"][k])
            self.chk(st, c >= 1, f"refresh of {which}: the job is already counted as served")
            l = st.heap[d[which].oid]["items"][k]
            items = list(st.heap[l.oid]["items"])
            new = []
            for i in range(3):
                r = fresh("mom", "real")
                st.assume(MUL(r, c) == MUL(zr(items[i]), z3.simplify(c - 1)) + PW[i + 1](x))
                new.append(r)
            st.heap[l.oid] = {**st.heap[l.oid], "items": tuple(new)}
            st.trace.append(("stat", which, k, x))
            return [(st, None)]
        return f

    # ------------------------------------------------------------ states
    def make(self, st):
        """the real constructor"""
        vc = self.vc
        st.cells[("alloc", "Task")] = z3.Int("alloc0")
        st.assume(z3.Int("alloc0") >= 0)
        st.cells[("cattr", "Task", "id")] = z3.Int("id0")
        st.setg("where", z3.K(I, z3.IntVal(-1)))
        for k in range(self.K):
            for m in range(3):
                st.setg(f"V{k}{m}", z3.RealVal(0))
                st.setg(f"W{k}{m}", z3.RealVal(0))
        lst = lambda xs: vc.new_list(st, xs)
        self.L = [Opq("rate", (k,)) for k in range(self.K)]
        self.par = [[Opq("serv", (i, k)) for k in range(self.K)] for i in range(self.M)]
        self.slots = lst([lst(p) for p in self.perm])
        args = [self.K, lst(self.L), self.mats, lst(self.chan), lst([f"prty{i}" for i in range(self.M)]), lst([lst(p) for p in self.par]), self.slots]
        r = vc.instantiate(vc.cls(self.module, self.cls_name), st, args, {})
        if len(r) != 1:
            raise Unsupported("constructor forks")
        return r[0]

    perm = None

    def symbolic(self):
        vc = self.vc
        self.perm = [list(range(self.K)) for _ in range(self.M)]
        vc.muted += 1
        try:
            st, self.sim = self.make(St())
        finally:
            vc.muted -= 1
        st.trace.clear() if isinstance(st.trace, list) else None
        self.fill(st)
        for _, c in self.inv(st):
            st.assume(c)
        self.vc.inv_cands = [lambda vc, s: self.inv(s)]
        return st

    def fill(self, st, pre="s."):
        vc = self.vc
        c = lambda n, srt: z3.Const(pre + n, srt)
        d = dict(st.heap[self.sim.oid])
        d["ttek"] = c("ttek", R)
        d["total"] = c("total", I)
        KR = range(self.K)
        for f in ("served", "in_sys", "arrived"):
            d[f] = vc.new_list(st, [c(f"{f}{k}", I) for k in KR])
        for f in ("arrival_time", "t_old"):
            d[f] = vc.new_list(st, [c(f"{f}{k}", R) for k in KR])
        for f in ("v_network", "w_network"):
            d[f] = vc.new_list(st, [vc.new_list(st, [c(f"{f}{k}{m}", R) for m in range(3)]) for k in KR])
        d["sources"] = vc.new_list(st, [Opq("dist", ("source", k)) for k in KR])
        d["nodes_prty"] = vc.new_list(st, [vc.new_list(st, p) for p in self.prty_of])
        st.heap[self.sim.oid] = d
        info = vc.cls(PQ, "Server")
        for i, o in enumerate(NV(self, st).smos):
            sv = []
            for q in range(self.chan[i]):
                sv.append(vc.new_obj(st, info, {"time_to_end_service": c(f"tte{i}_{q}", R), "is_free": c(f"free{i}_{q}", B)}))
            st.heap[o.oid] = {**st.heap[o.oid], "ttek": c(f"ttek{i}", R), "servers": vc.new_list(st, sv), "in_sys": vc.new_list(st, [c(f"ins{i}_{k}", I) for k in KR])}
        for f, w in TASKS["Task"].items():
            vc.ensure(st, "Task", f, w)
            st.ch["Task"][f] = c("Task." + f, z3.ArraySort(I, sort_of_wrap(w)))
        st.cells[("alloc", "Task")] = c("alloc", I)
        st.cells[("cattr", "Task", "id")] = c("task_id", I)
        for k in list(st.cells):
            if k[0] == "ghost" and k[1] != "steps":
                st.cells[k] = c("g." + k[1], st.cells[k].sort())
        k, i = z3.Ints("k!row i!row")
        for p in self.prty_of:        # a permutation of the classes per node
            st.assume(z3.And(*[z3.And(x >= 0, x < self.K) for x in p], z3.Distinct(*p) if self.K > 1 else True))
        for q in KR:
            st.assume(ROUTE(q, 0, self.M) == 0)

    def slot(self, i, k):
        """priority slot of class k in node i"""
        r = self.prty_of[i][-1]
        for q in range(self.K - 2, -1, -1):
            r = z3.If(k == q, self.prty_of[i][q], r)
        return r

    def job_facts(self, V, x):
        w = S(V.g_where, x)
        kx = S(V.k, x)
        out = [z3.And(w >= -1, w < self.M)]
        inn = z3.And(x >= 0, x < V.alloc, kx >= 0, kx < self.K, S(V.arr_network, x) <= zr(V.ttek))
        out.append(z3.Implies(w >= 0, inn))
        for i in range(self.M):
            out.append(z3.Implies(w == i, S(V.in_node_class_num, x) == self.slot(i, kx)))
        return out

    def inv(self, st):
        V = NV(self, st)
        t = zr(V.ttek)
        out = []
        add = lambda n, c: out.append((n, zb(c)))
        add("clock", t >= 0)
        add("job numbers", V.alloc >= 0)
        for k in range(self.K):
            add(f"class {k}: arrived = served + in network", zi(V.arrived[k]) == zi(V.served[k]) + zi(V.in_sys[k]))
            add(f"class {k}: counters non-negative", z3.And(zi(V.served[k]) >= 0, zi(V.in_sys[k]) >= 0))
            held = [z3.If(self.prty_of[i][k] == q, zi(V.node(i, "in_sys")[q]), 0) for i in range(self.M) for q in range(self.K)]
            add(f"class {k}: the jobs in the network are those held by the nodes", zi(V.in_sys[k]) == z3.Sum(held))
            add(f"class {k}: next arrival not in the past", z3.And(zr(V.arrival_time[k]) >= t, zr(V.arrival_time[k]) > 0))
            for m in range(3):
                add(f"class {k}: sojourn moment {m + 1} is the sample mean", MUL(zr(V.mom("v_network", k)[m]), zi(V.served[k])) == st.g(f"V{k}{m}"))
                add(f"class {k}: waiting moment {m + 1} is the sample mean", MUL(zr(V.mom("w_network", k)[m]), zi(V.served[k])) == st.g(f"W{k}{m}"))
        for i in range(self.M):
            add(f"node {i}: clock", zr(V.node(i, "ttek")) <= t)
            for q in range(self.K):
                add(f"node {i}: jobs held", zi(V.node(i, "in_sys")[q]) >= 0)
            for c in range(self.chan[i]):
                add(f"node {i}: services end in the future", z3.And(V.tte(i, c) >= t, V.tte(i, c) > 0))
        x = z3.Int("x!net")
        add("every job held by a node sits there in its class's slot", z3.ForAll([x], z3.And(*self.job_facts(V, x)), patterns=[S(V.g_where, x)]))
        return out

    # ------------------------------------------------------------ units
    def step(self):
        vc, ck = self.vc, self.chk
        st = self.symbolic()
        o = NV(self, st)
        pend = [zr(x) for x in o.arrival_time] + [o.tte(i, c) for i in range(self.M) for c in range(self.chan[i])]
        st.assume(z3.Or(*[x < HORIZON for x in pend]))
        st.assume(z3.And(*[zi(x) >= 0 for x in o.arrived]))
        pre = st.fork()
        o = NV(self, pre)
        self.reach(st, "run_one_step")
        outs = self.call("run_one_step", st)
        self.outcomes("run_one_step", outs)
        seen = set()
        for s, _ in outs:
            V = NV(self, s)
            t = zr(V.ttek)
            ev = [e for e in s.trace if e[0] in ("arrival", "serving", "play", "stat", "gen")]
            of = lambda k: [e for e in ev if e[0] == k]
            arr, srv, play, gen = of("arrival"), of("serving"), of("play"), of("gen")
            case = "a service ends" if srv else "arrival"
            seen.add(case)
            W = f"{case}: "
            ck(s, z3.And(*[t <= x for x in pend]), W + "the earliest pending event is taken")
            ck(s, t >= zr(o.ttek), W + "the clock does not go back")
            for f in ("k_num", "n_num", "R", "L", "nodes", "prty", "nodes_prty", "serv_params"):
                ck(s, same(s.heap[self.sim.oid][f], pre.heap[self.sim.oid][f]), W + f"{f} untouched")
            ck(s, len(play) == 1, W + "one routing decision")
            if len(play) != 1:
                continue
            if not srv:
                who = [k for k in range(self.K)]
                sel = [z3.And(t == zr(o.arrival_time[k]), zi(V.arrived[k]) == zi(o.arrived[k]) + 1) for k in who]
                ck(s, z3.Or(*sel), W + "an arrival that is due")
                ck(s, len(arr) == 1 and len(gen) == 1 and not of("stat"), W + "one job enters one node, one interarrival time is drawn")
                if len(arr) != 1 or len(gen) != 1:
                    continue
                j = o.alloc
                _, i, kk, at, jj = arr[0]
                kn = S(V.k, j)
                ck(s, z3.And(V.alloc == o.alloc + 1, jj == j, at == t, kn >= 0, kn < self.K), W + "the new job enters at once")
                ck(s, z3.And(S(V.arr_network, j) == t, S(V.wait_network, j) == 0), W + "its network arrival time")
                ck(s, z3.And(play[0][1] == kn, play[0][2] == -1), W + "routed by the entry probabilities of its class")
                ck(s, i == play[0][3], W + "enters the node drawn")
                ck(s, kk == self.slot(i, kn), W + "in the slot of its class")
                for k in range(self.K):
                    mine = kn == k
                    ck(s, zi(V.arrived[k]) == zi(o.arrived[k]) + z3.If(mine, 1, 0), W + f"arrived of class {k}")
                    ck(s, zi(V.served[k]) == zi(o.served[k]), W + f"served of class {k}")
                    ck(s, zr(V.arrival_time[k]) == z3.If(mine, t + gen[0][2], zr(o.arrival_time[k])), W + f"next arrival of class {k}")
                    ck(s, z3.Implies(mine, t == zr(o.arrival_time[k])), W + f"its class is the one that was due ({k})")
                    ck(s, z3.Implies(mine, gen[0][1][1] == k), W + f"drawn from the source of class {k}")
            else:
                ck(s, len(srv) == 1 and not gen, W + "one service ends, nothing is drawn")
                _, i, c, tt, r = srv[0]
                kr = S(o.k, r)
                ck(s, tt == t, W + "the clock is the end of the service")
                ck(s, V.k == o.k, W + "every job keeps its class")
                ck(s, V.arr_network == o.arr_network, W + "every job keeps its network arrival time")
                ck(s, z3.And(play[0][1] == kr, play[0][2] == i), W + "routed by the row of its node, in its class")
                ck(s, V.alloc == o.alloc, W + "no new job")
                nxt = play[0][3]
                out = nxt == self.M
                ck(s, len(arr) == (0 if out else 1), W + "moves to one node or leaves")
                if not out and len(arr) == 1:
                    _, n, kk, at, jj = arr[0]
                    ck(s, z3.And(zi(n) == nxt, jj == r, at == t), W + "the job itself moves at the same instant to the node drawn")
                    ck(s, kk == self.slot(nxt, kr), W + "into the slot of its class")
                stat = of("stat")
                for which, val, G in (("v_network", t - S(o.arr_network, r), "V"), ("w_network", S(V.wait_network, r) if out else None, "W")):
                    m = [e for e in stat if e[1] == which]
                    ck(s, len(m) == (1 if out else 0), W + f"{which}: one value per job that leaves the network")
                    if out and len(m) == 1:
                        ck(s, kr == m[0][2], W + f"{which}: of its class")
                        ck(s, m[0][3] == val, W + f"{which}: " + ("departure - arrival" if G == "V" else "time waited in the nodes"))
                        for q in range(3):
                            s.setg(f"{G}{m[0][2]}{q}", z3.simplify(pre.g(f"{G}{m[0][2]}{q}") + PW[q + 1](z3.simplify(val))))
                for k in range(self.K):
                    mine = z3.And(kr == k, out)
                    ck(s, zi(V.served[k]) == zi(o.served[k]) + z3.If(mine, 1, 0), W + f"served of class {k}")
                    ck(s, zi(V.arrived[k]) == zi(o.arrived[k]), W + f"arrived of class {k}")
                    ck(s, zr(V.arrival_time[k]) == zr(o.arrival_time[k]), W + f"next arrival of class {k}")
            self.check_inv(s, W[:-2])
        if seen != {"arrival", "a service ends"}:
            raise Unsupported(f"run_one_step: only {seen}")

    def establish(self):
        """the constructor, for every assignment of slots to classes"""
        import itertools
        vc, ck = self.vc, self.chk
        for perm in itertools.product(*[list(itertools.permutations(range(self.K)))] * self.M):
            self.perm = [list(p) for p in perm]
            s, self.sim = self.make(St())
            self.vc.pend, pend = [], self.vc.pend
            for s0, nm in pend:
                vc.check(s0, False, f"construction: no exception ({nm})")
            self.reach(s, "construction")
            V = NV(self, s)
            W = "construction: "
            smos = V.smos
            ck(s, len(smos) == self.M and len({o.oid for o in smos}) == self.M, W + "one node of its own each")
            nodes = {e[5].oid: e for e in s.trace if e[0] == "node"}
            sets = {e[1].oid: e[2] for e in s.trace if e[0] == "servers"}
            for i, nd in enumerate(smos):
                e = nodes.get(nd.oid)
                ck(s, e is not None and e[2] == self.chan[i] and e[3] == self.K and e[4] == f"prty{i}", W + f"node {i} has its channels, classes and discipline")
                p = sets.get(nd.oid)
                ck(s, p is not None and len(p) == self.K, W + f"node {i} has service parameters")
                for k in range(self.K):
                    if p is not None and len(p) == self.K:
                        x = p[self.perm[i][k]]
                        ck(s, isinstance(x, Opq) and x.kind == "serv" and tuple(x.data) == (i, k), W + f"node {i}: the slot of class {k} has its service parameters")
            src = V.sources
            ck(s, len(src) == self.K, W + "a source per class")
            for k, x in enumerate(src):
                ck(s, isinstance(x, Opq) and isinstance(x.data[1], Opq) and x.data[1].data == (k,), W + f"source of class {k} has its rate")
                g = [e for e in s.trace if e[0] == "gen" and e[1] is x.data]
                ck(s, len(g) == 1 and zr(V.arrival_time[k]) == g[0][2] if g else False, W + f"first arrival of class {k} is drawn")
            for f in ("v_network", "w_network"):
                rows = getattr(V, f)
                ck(s, len({r.oid for r in rows}) == self.K, W + f"{f}: moments per class")
            s.assume(MUL(z3.RealVal(0), z3.IntVal(0)) == 0)
            for i in range(self.M):
                for k in range(self.K):
                    s.assume(self.prty_of[i][k] == self.perm[i][k])
            self.check_inv(s, "construction")

    keep_identity = c12.FJContract.keep_identity

    def run_loop(self):
        vc = self.vc
        st = self.symbolic()
        o = NV(self, st)
        tot = z3.Int("job_served")
        num = [0]
        served = lambda V: z3.Sum([zi(x) for x in V.served])

        def one_step(vc, s, recv, args, kw):
            for nm, cl in self.inv(s):
                vc.check(s, zb(cl), "run: at a step: invariant: " + nm)
            old = s.fork()
            was = served(NV(self, s))
            s.setg("steps", s.g("steps") + 1)
            num[0] += 1
            self.fill(s, f"rs{num[0]}.")
            self.keep_identity(old, s, self.sim, self.sim)
            for _, cl in self.inv(s):
                s.assume(cl)
            now = served(NV(self, s))
            s.assume(z3.And(now >= was, now <= was + 1))
            return [(s, None)]
        vc.contracts[f"{self.cls_name}.run_one_step"] = one_step
        st.setg("steps", z3.IntVal(0))
        vc.loop_cands = [lambda vc, entry, s, kk, lo: [("served at most", z3.Implies(served(o) <= tot, served(NV(self, s)) <= tot)), ("served more", served(NV(self, s)) >= served(o))]
                         + ([("steps", s.g("steps") == zi(kk))] if kk is not None else [])]
        for real in (True, False):
            s0 = st.fork()
            s0.env = {}
            s0.assume(tot >= 1)
            self.reach(s0, "run")
            outs = vc.call_func(self.fn("run"), s0, [self.sim, tot], {"is_real_served": real}, nocontract=True)
            self.outcomes("run", outs)
            for s, _ in outs:
                self.check_inv(s, "run")
                if real:
                    vc.check(s, z3.Implies(served(o) <= tot, served(NV(self, s)) == tot), "run: exactly the requested number of jobs leave")
                else:
                    vc.check(s, s.g("steps") == tot, "run: exactly the requested number of events")


def routing():
    """play_next_node: inverse transform of a uniform number over the row; any number of nodes and classes"""
    vc = VC(name="routing")
    N, k, cur = z3.Ints("N k cur")
    st = St()
    st.assume(z3.And(N >= 1, k >= 0, cur >= -1, cur < N))
    row = cur + 1
    j, x = z3.Ints("j!r x!r")
    sim = vc.new_obj(st, vc.cls(NET, "PriorityNetwork"), {})
    st.heap[sim.oid] = {"R": matrices(vc, N + 1), "n_num": N}
    cell = lambda i: ROUTE(k, row, i)
    P = z3.Function("prefix", I, R)             # P(i) = sum of the first i entries of the row
    w = z3.Int("w!pos")
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= N), cell(j) >= 0), patterns=[cell(j)]))
    st.assume(P(0) == 0)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= N), P(j + 1) == P(j) + cell(j)), patterns=[cell(j)]))
    st.assume(z3.And(w >= 0, w <= N, cell(w) > 0))       # the row is not empty
    us = []

    def rnd(vc, st, a, kw):
        u = fresh("u", "real")
        st.assume(z3.And(u >= 0, u < 1))
        us.append(u)
        return [(st, u)]
    for nm in ("numpy.random.random", "numpy.random.rand", "np.random.random", "numpy.random.random_sample", "rng.random", "random.random"):
        vc.ext[nm] = rnd

    def cands(vc, entry, s, kk, lo):
        kk = zi(kk) if kk is not None else z3.IntVal(0)
        out = []
        for key in entry.env:
            a, b = entry.env[key], s.env.get(key)
            if not is_num(a) or isinstance(a, bool):
                continue
            ok = is_num(b) and not isinstance(b, bool)
            F = z3.BoolVal(False)
            isi = ok and zn(b).sort() == I
            u = us[-1] if us else z3.RealVal(0)
            out.append((f"{key} is the prefix sum", zr(b) == P(kk) if ok else F))
            out.append((f"{key} is an entry with positive probability, if there was one", z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < kk, cell(x) > 0), cell(zi(b)) > 0), patterns=[cell(x)]) if isi else F))
            out.append((f"{key} in range", z3.And(zi(b) >= 0, zi(b) <= N) if isi else F))
            out.append((f"{key} not above the number drawn", zr(b) <= u if ok else F))
        return out
    vc.loop_cands = [cands]
    vc.covers = [("play_next_node", list(st.pc))]
    for s, r in vc.call_func(vc.func(NET, "PriorityNetwork.play_next_node"), st, [sim, k, cur], {}):
        r = zi(r)
        s.assume(z3.And(cell(r) == cell(r)))
        vc.check(s, len(us) >= 1, "play_next_node: draws one uniform number")
        vc.check(s, z3.And(r >= 0, r <= N), "play_next_node: a node or the exit")
        vc.check(s, cell(r) > 0, "play_next_node: has positive probability")
        u = us[-1] if us else z3.RealVal(0)
        vc.check(s, z3.Or(z3.And(P(r) <= u, u < P(r) + cell(r)), u >= P(N + 1)), "play_next_node: drawn with its probability (inverse transform)")
    for s, nm in vc.pend:
        vc.check(s, False, f"play_next_node: no exception ({nm})")
    vc.pend = []
    return vc


def leaves():
    """refresh_v_stat, refresh_w_stat against their contracts, in real arithmetic"""
    vc = VC(name="moments")
    info = vc.cls(NET, "PriorityNetwork")
    vc.covers = []
    for which, fn in (("v_network", "refresh_v_stat"), ("w_network", "refresh_w_stat")):
        for k in range(2):
            st = St()
            sim = vc.new_obj(st, info, {})
            m = [[z3.Real(f"m{i}{j}") for j in range(3)] for i in range(2)]
            x, c = z3.Real("x"), [z3.Int(f"count{i}") for i in range(2)]
            st.heap[sim.oid] = {which: vc.new_list(st, [vc.new_list(st, r) for r in m]), "served": vc.new_list(st, c)}
            st.assume(c[k] >= 1)
            vc.covers.append((fn, list(st.pc)))
            for s, r in vc.call_func(vc.func(NET, "PriorityNetwork." + fn), st, [sim, k, x], {}):
                for i in range(2):
                    vc.check(s, zi(vc.items(s, s.heap[sim.oid]["served"])[i]) == c[i], fn + ": counter untouched")
                    its = vc.items(s, vc.items(s, s.heap[sim.oid][which])[i])
                    vc.check(s, len(its) == 3, fn + ": three moments")
                    p = z3.RealVal(1)
                    for j in range(3):
                        p = p * x
                        want = m[i][j] if i != k else None
                        vc.check(s, zr(its[j]) == want if i != k else zr(its[j]) * z3.ToReal(c[k]) == m[k][j] * z3.ToReal(c[k] - 1) + p, f"{fn}: moment {j + 1} is the running mean")
            for s, nm in vc.pend:
                vc.check(s, False, f"{fn}: no exception ({nm})")
            vc.pend = []
    return vc


def unit(what, chan=None, K=None):
    if what == "routing":
        return routing()
    if what == "leaves":
        return leaves()
    c = NetContract([int(x) for x in str(chan).split(",")], int(K))
    c.vc.name = f"{what}[channels {chan}, K={K}]"
    getattr(c, what)()
    return c.vc
