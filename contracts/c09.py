"""C09: finite-source simulator (sim/queue_finite_source_sim.py on top of sim/qs_sim.py), without warm-up and cooling."""
from contracts.qs import *
from contracts import qs

TAGS = frozenset(["C01", "C02", "C03", "C04", "C09"])
THINKS = lambda x: x < HORIZON          # a source whose job is in the system has its next arrival at the horizon


class FiniteContract(QsContract):
    module = "most_queue/sim/queue_finite_source_sim.py"
    cls_name = "QueueingFiniteSourceSim"
    config = QsContract.config + ("m",)
    outside = frozenset(["arrived_num"])
    own_ints = frozenset(["arrived_num", "sources_left"])

    def __init__(self, buffer, queue="QsQueueList"):
        super().__init__(buffer, TAGS, queue)
        self.phases = "none"
        self.M = z3.Int("m")
        self.thinking = Count("thinking", self.M, AR, THINKS)
        self.vc.store_hooks[("lst", "sources")] = self.thinking.on_store
        self.vc.ext["dist.generate"] = self.generate
        self.sim = self.now = None

    def generate(self, vc, st, a, kw):
        r = super().generate(vc, st, a, kw)
        if a[0].data is None or a[0].data[0] != "Server":
            vc.assumptions.add("the model clock stays below 1e16 (drawn arrivals included)")
            for s, x in r:
                s.assume(zr(self.now if self.now is not None else 0) + x < HORIZON)
        return r

    def ctor(self, st, bt):
        st.assume(self.M >= 1)
        for a in self.thinking.axioms():
            st.assume(a)
        return [self.N, self.M, self.buf], {"verbose": False}

    def set_servers_sym(self, st):
        d = dict(st.heap[self.sim.oid])
        d["arrival_times"] = self.vc.new_slist(st, "real", "sources", length=self.M, tag="sources", arr=z3.Const("s.sources", AR))
        st.heap[self.sim.oid] = d
        return st

    def symbolic(self):
        st = super().symbolic()
        st.assume(self.p_len == self.M + 1)
        return st

    def A(self, V):
        l = V.st.heap[V.arrival_times.oid]
        if l["k"] == "c":
            raise Unsupported("sources list")
        return l["arr"]

    def states(self, V):
        return self.M + 1

    def arrivals_from(self, V, t):
        i = z3.Int("i!af")
        a = self.A(V)
        x = z3.Select(a, i)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.M), z3.Or(x >= t, x >= HORIZON)), patterns=[x])

    def arrival_enabled(self, V):
        k = zi(V.arrived_num)
        return z3.And(k >= 0, k < self.M, THINKS(z3.Select(self.A(V), k)))

    def arrival_at(self, V):
        return z3.Select(self.A(V), zi(V.arrived_num))

    def some_event(self, o):
        i = z3.Int("i!se")
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.N, z3.Not(z3.Select(o.is_free, i))), z3.Select(o.tte, i) < HORIZON), patterns=[z3.Select(o.is_free, i)])

    def inv(self, st):
        out = super().inv(st)
        V = View(self, st)
        l = st.heap[V.arrival_times.oid]
        return [
            ("one next arrival per source [C09]", z3.And(zi(l["lo"]) == 0, zi(l["hi"]) == self.M, zi(V.m) == self.M)),
            ("thinking sources + jobs in the system = m [C09]", zi(V.sources_left) + zi(V.in_sys) == self.M),
            ("thinking sources have a next arrival, the others none [C09]", zi(V.sources_left) == self.thinking.f(self.A(V))),
        ] + out

    def others(self, o, V, k):
        i = z3.Int("i!ot")
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.M, i != k), z3.Select(self.A(V), i) == z3.Select(self.A(o), i)))

    def draws(self, s):
        return [x for k, d, x in [e for e in s.trace if e[0] == "gen"] if d == ("source",)]

    def after_arrival(self, o, V, t0, W, drop):
        k = zi(o.arrived_num)
        self.chk(V.st, self.others(o, V, k), W + ": the other sources go on thinking [C09]")
        a = V.st.fork(); a.assume(drop)
        if self.vc.feasible(a):
            xs = self.draws(a)
            self.chk(a, len(xs) == 1, W + " refused: one interval drawn for the source [C09]")
            if len(xs) == 1:
                self.chk(a, z3.Select(self.A(V), k) == t0 + xs[0], W + " refused: the source thinks for the drawn interval [C09]")
            self.chk(a, zi(V.sources_left) == zi(o.sources_left), W + " refused: the source is thinking again [C09]")
        b = V.st.fork(); b.assume(z3.Not(drop))
        if self.vc.feasible(b):
            self.chk(b, len(self.draws(b)) == 0, W + ": no arrival is drawn for the source of a job in the system [C09]")
            self.chk(b, z3.Select(self.A(V), k) >= HORIZON, W + ": the source has no next arrival while its job is in the system [C09]")
            self.chk(b, zi(V.sources_left) == zi(o.sources_left) - 1, W + ": one source fewer is thinking [C09]")

    def after_departure(self, o, V, t0, W):
        s = V.st
        xs = self.draws(s)
        self.chk(s, len(xs) == 1, W + ": one interval drawn for the source [C09]")
        self.chk(s, zi(V.sources_left) == zi(o.sources_left) + 1, W + ": one source more is thinking [C09]")
        if len(xs) == 1:
            k = z3.Int("k!ad")
            S = z3.Select
            a, b = self.A(o), self.A(V)
            self.chk(s, z3.Exists([k], z3.And(k >= 0, k < self.M, S(a, k) >= HORIZON, S(b, k) == t0 + xs[0], self.others(o, V, k))),
                     W + ": a source whose job was in the system thinks for the drawn interval, the others go on [C09]")

    def havoc_event(self, s, d):
        l = d["arrival_times"]
        s.heap[l.oid] = {**s.heap[l.oid], "arr": fresh("rs_sources", AR)}


def unit(what, buffer=None, queue="QsQueueList"):
    if what == "lemmas":
        return lemma_unit([lambda check: count_lemmas(lambda n, h, g: check("sources: " + n, h, g), AR, THINKS)])
    c = FiniteContract(buffer, queue)
    c.vc.name = f"{what}[buffer={buffer}]"
    if what in ("establish", "getters", "run_loop"):
        getattr(qs, what)(c)
    else:
        getattr(c, what)()
    return c.vc

