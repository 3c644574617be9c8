"""C10: batch-arrival simulator (sim/batch_sim.py on top of sim/qs_sim.py), without warm-up and cooling."""
from contracts.qs import *
from contracts import qs

TAGS = frozenset(["C01", "C02", "C03", "C04"])


class BatchContract(QsContract):
    module = "most_queue/sim/batch_sim.py"
    cls_name = "QueueingSystemBatchSim"

    def __init__(self, buffer, queue="QsQueueList"):
        super().__init__(buffer, TAGS, queue)
        self.phases = "none"

        def rnd(vc, st, a, kw):
            x = fresh("u", "real")
            st.assume(z3.And(x >= 0, x < 1))
            st.trace.append(("random", None, x))
            return [(st, x)]
        for nm in ("numpy.random.random", "numpy.random.rand", "np.random.random", "rng.random", "random.random"):
            self.vc.ext[nm] = rnd

    def ctor(self, st, bt):
        K = z3.Int("K")
        st.assume(K >= 1)
        self.K = K
        self.probs = self.vc.new_slist(st, "real", "probs", length=K, arr=z3.Const("probs", AR))
        return [self.N, self.probs, self.buf], {"verbose": False}

    def symbolic(self):
        st = super().symbolic()
        d = dict(st.heap[self.sim.oid])
        j = z3.Int("j!cdf")
        C = z3.Const("s.cdf", AR)
        d["batch_cdf"] = self.vc.new_slist(st, "real", "cdf", length=self.K, arr=C)
        st.heap[self.sim.oid] = d
        self.cdf = C
        st.assume(z3.Select(C, self.K - 1) == 1)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < self.K), z3.Select(C, j) <= z3.Select(C, j + 1)), patterns=[z3.Select(C, j)]))
        return st

    def set_servers_sym(self, st):
        # cells the constructor made from the batch probabilities are given by symbolic()
        d = dict(st.heap[self.sim.oid])
        d.pop("batch_cdf", None)
        st.heap[self.sim.oid] = d
        return st

    def arrival(self):
        vc = self.vc
        st = self.symbolic()
        pre = st.fork()
        o = View(self, pre)
        t0 = zr(o.arrival_time)
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        self.reach(st, "arrival")
        S = z3.Select
        free0, qs0 = zi(o.free_channels), o.q_hi - o.q_lo
        j = z3.Int("j!ba")

        def cands(vc, entry, s, kk, lo):
            V = View(self, s)
            k = (zi(kk) - zi(lo)) if kk is not None else z3.IntVal(0)
            taken = zi(V.taked) - zi(o.taked)
            queued = (V.q_hi - V.q_lo) - qs0
            us = [x for kd, d, x in s.trace if kd == "random"]
            out = [("earlier batch sizes not chosen", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), S(self.cdf, j) <= us[0]), patterns=[S(self.cdf, j)]))] if us else []
            drop = zi(V.dropped) - zi(o.dropped)
            out += [("k-th job of the batch", z3.And(zi(V.arrived) - zi(o.arrived) == k)),
                    ("free channels first", taken == z3.If(k <= free0, k, free0)),
                    ("then the queue", queued + drop == k - taken),
                    ("queue start kept", V.q_lo == o.q_lo),
                    ("waiting jobs kept", z3.ForAll([j], z3.Implies(z3.And(j >= o.q_lo, j < o.q_hi), S(V.q_arr, j) == S(o.q_arr, j)), patterns=[S(V.q_arr, j)])),
                    ("new jobs arrived now", z3.ForAll([j], z3.Implies(z3.And(j >= o.q_hi, j < V.q_hi), z3.And(S(V.arr, S(V.q_arr, j)) == t0, S(V.q_arr, j) >= o.alloc)), patterns=[S(V.q_arr, j)])),
                    *[("busy channels kept", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.N, z3.Not(S(o.is_free, j))), g), patterns=[p]))
                      for g, p in ((z3.Not(S(V.is_free, j)), S(V.is_free, j)), (S(V.tte, j) == S(o.tte, j), S(V.tte, j)), (S(V.tsk, j) == S(o.tsk, j), S(V.tsk, j)))],
                    ("channels taken by new jobs", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.N, S(o.is_free, j), z3.Not(S(V.is_free, j))), z3.And(
                        S(V.tsk, j) >= o.alloc, S(V.arr, S(V.tsk, j)) == t0)), patterns=[S(V.is_free, j)])),
                    ("arrival times kept", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o.alloc), S(V.arr, j) == S(o.arr, j)), patterns=[S(V.arr, j)])),
                    ("alloc", V.alloc >= o.alloc),
                    ]
            if self.buf is not None:
                room = self.buf - qs0
                rest = k - taken
                out.append(("refused only when full", queued == z3.If(rest <= room, rest, room)))
            else:
                out.append(("none refused", drop == 0))
            return out
        vc.loop_cands = [cands]
        outs = self.call("arrival", st)
        self.outcomes("arrival", outs)
        for s, _ in outs:
            V = View(self, s)
            W = "arrival"
            self.time_clauses(o, V, t0, W)
            src = [x for kd, d, x in s.trace if kd == "gen" and d == ("source",)]
            self.chk(s, len(src) == 1, W + ": one interarrival time drawn [C03]")
            if len(src) == 1:
                self.chk(s, zr(V.arrival_time) == t0 + src[0], W + ": next arrival after the drawn interval [C03]")
            us = [x for kd, d, x in s.trace if kd == "random"]
            self.chk(s, len(us) == 1, W + ": one batch size drawn [C01]")
            B = zi(V.arrived) - zi(o.arrived)
            if len(us) == 1:
                self.chk(s, z3.And(B >= 1, B <= self.K, us[0] <= S(self.cdf, B - 1), z3.Implies(B >= 2, us[0] >= S(self.cdf, B - 2))),
                         W + ": the batch size has the given distribution (quantile of the drawn number) [C01]")
            taken = z3.If(B <= free0, B, free0)
            room = (self.buf - qs0) if self.buf is not None else B
            queued = z3.If(B - taken <= room, B - taken, room)
            self.counters_batch(o, V, W, B, B - taken - queued)
            self.chk(s, z3.And(self.cnt.f(V.is_free) == free0 - taken), W + ": free channels are taken first [C02]")
            self.chk(s, z3.And(V.q_hi - V.q_lo == qs0 + queued, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < qs0), S(V.q_arr, V.q_lo + j) == S(o.q_arr, o.q_lo + j)))),
                     W + ": the others are queued while there is room, jobs already waiting keep their places [C02]")
            self.chk(s, z3.ForAll([j], z3.Implies(z3.And(j >= V.q_lo + qs0, j < V.q_hi), z3.And(S(V.arr, S(V.q_arr, j)) == t0, S(V.q_arr, j) >= o.alloc))),
                     W + ": queued jobs of the batch arrived at this instant [C04]")
            for g in (z3.Not(S(V.is_free, j)), S(V.tte, j) == S(o.tte, j), S(V.tsk, j) == S(o.tsk, j)):
                self.chk(s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.N, z3.Not(S(o.is_free, j))), g)), W + ": busy channels untouched [C03]")
            self.chk(s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.N, S(o.is_free, j), z3.Not(S(V.is_free, j))), z3.And(
                S(V.tsk, j) >= o.alloc, S(V.arr, S(V.tsk, j)) == t0))), W + ": channels are taken by jobs of the batch [C04]")
            self.same_jobs(o, V, W)
            self.check_inv(s, W)

    def counters_batch(self, o, V, W, arrived, dropped):
        self.chk(V.st, zi(V.arrived) == zi(o.arrived) + arrived, f"{W}: arrived grows by the batch [C01]")
        self.chk(V.st, zi(V.served) == zi(o.served), f"{W}: served untouched [C01]")
        self.chk(V.st, zi(V.dropped) == zi(o.dropped) + dropped, f"{W}: refused exactly the jobs that find channels and queue full [C02]")
        self.chk(V.st, z3.And(zi(V.n) == self.N, (V.buffer is None) if self.buf is None else zn(V.buffer) == self.buf), f"{W}: configuration untouched [C01]")


def cdf():
    """calc_cdf_prob: partial sums"""
    vc = VC(name="calc_cdf_prob")
    vc.covers = []
    K = z3.Int("K")
    st = St()
    st.assume(K >= 1)
    P = z3.Const("probs", AR)
    probs = vc.new_slist(st, "real", "probs", length=K, arr=P)
    jj = z3.Int("j!pr")
    st.assume(z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < K), z3.Select(P, jj) >= 0), patterns=[z3.Select(P, jj)]))
    cls = vc.cls(BatchContract.module, BatchContract.cls_name)
    sim = vc.new_obj(st, cls, {"batch_prob": probs})
    r = cls.find(vc, "calc_cdf_prob")
    vc.covers.append(("calc_cdf_prob", list(st.pc)))
    j = z3.Int("j")
    f = z3.RecFunction("psum", I, R)
    z3.RecAddDefinition(f, [j], z3.If(j <= 0, z3.RealVal(0), f(j - 1) + z3.Select(P, j - 1)))
    S = z3.Select
    hold = {}

    def cands(vc, entry, s, kk, lo):
        k = zi(kk) if kk is not None else z3.IntVal(0)
        out = []
        c = s.heap[sim.oid].get("batch_cdf")
        for nm, v in list(s.env.items()) + list(s.heap[sim.oid].items()):
            if is_num(v) and not isinstance(v, bool) and nm != "batch_prob":
                out.append(("partial sum in " + nm, zr(v) == f(k)))
        for oid, d in s.heap.items():
            if d.get("k") == "s" and d.get("w") == "real" and d.get("arr") is not None and oid != probs.oid:
                out.append(("length", d["hi"] - d["lo"] == k))
                out.append(("non-negative", f(k) >= 0))
                out.append(("cdf", forall_pat([j], z3.Implies(z3.And(j >= 0, j < k), S(d["arr"], d["lo"] + j) == f(j + 1)), S(d["arr"], d["lo"] + j))))
        return out
    vc.loop_cands = [cands]
    st.env = {}
    outs = vc.call_func(FuncV(r[1], r[0].mod, r[0], None, "calc_cdf_prob"), st, [sim], {}, nocontract=True)
    for s, nm in vc.pend:
        vc.check(s, False, f"calc_cdf_prob: no exception ({nm})")
    vc.pend = []
    i = z3.Int("i")
    for s, _ in outs:
        d = vc.lcell(s, s.heap[sim.oid]["batch_cdf"])
        if d["k"] != "s":
            raise Unsupported("batch_cdf")
        vc.check(s, d["hi"] - d["lo"] == K, "calc_cdf_prob: one value per batch size")
        vc.check(s, z3.Implies(z3.And(i >= 0, i < K), S(d["arr"], d["lo"] + i) == f(i + 1)), "calc_cdf_prob: partial sums of the batch probabilities")
    return vc


def unit(what, buffer=None, queue="QsQueueList"):
    if what == "cdf":
        return cdf()
    c = BatchContract(buffer, queue)
    c.vc.name = f"{what}[buffer={buffer}]"
    if what in ("establish", "getters", "run_loop"):
        getattr(qs, what)(c)
    else:
        getattr(c, what)()
    return c.vc

