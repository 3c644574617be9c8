"""Contracts of the GI/G/n/r simulator (most_queue/sim/qs_sim.py and the utilities it is built on)."""
import z3
from pyvc.core import *
from pyvc.interp import VC, OptV, POWI
from pyvc import loops
from contracts.simbase import *

QS = "most_queue/sim/qs_sim.py"
UT = "most_queue/sim/utils/"
HORIZON = 10 ** 16          # idle channels and inactive phases are represented by this time

MUL = z3.Function("mul", R, I, R)      # abstract x*k; concrete in the proof of refresh_moments_stat
PW = [None, None, None, None]
PW[1] = lambda x: x
PW[2] = z3.Function("pow2", R, R)
PW[3] = z3.Function("pow3", R, R)

SCHEMA = {
    "Server": {"time_to_end_service": "real", "is_free": "bool", "tsk_on_service": "opt:Task", "dist": "opq:dist", "id": "int",
               "params_warm": "opq:str", "types_warm": "opq:str", "warm_phase": "opq:phase"},
    "Task": {"arr_time": "real", "start_waiting_time": "real", "wait_time": "real", "id": "int"},
}


# invariant clauses that the proofs of other properties rest on (they belong to those properties' slices as well)
SUPPORT = {
    "free channels counted": "C02 C03 C04 C05 C06",
    "free channels in range": "C02 C03 C04 C05 C06",
    "counters non-negative": "C02 C03 C04 C05 C06",
    "in system = waiting + in service": "C02 C03 C04 C05 C06",
    "phases only when set": "C01 C02 C03 C04 C06",
    "at most one phase": "C01 C02 C03 C04 C06",
    "no service during a phase": "C01 C02 C03 C04 C06",
    "delay only in an empty system": "C01 C02 C03 C04 C06",
    "jobs wait only if all channels are busy or a phase runs": "C04 C05 C06",
    "total = served": "C04",
    "taken = served + in service": "C04",
    "clock = last event": "C04 C05 C06",
    "next arrival not in the past": "C04 C05 C06",
    "busy channels end in the future": "C04 C05 C06",
    "idle channels": "C04",
    "warm phase times": "C03 C04 C06",
    "cold phase times": "C03 C04 C06",
    "delay phase times": "C03 C04 C06",
}


class View:
    """reads the simulator fields of a symbolic state"""

    def __init__(self, c, st):
        self.c, self.st = c, st

    def __getattr__(self, name):
        c, st = self.c, self.st
        d = st.heap[c.sim.oid]
        if name in ("q_arr", "q_lo", "q_hi"):
            q = st.heap[d["queue"].oid]["queue"]
            l = st.heap[q.oid]
            return {"q_arr": l["arr"], "q_lo": l["lo"], "q_hi": l["hi"]}[name]
        if name == "p_arr":
            return st.heap[d["p"].oid]["arr"]
        if name in ("is_free", "tte", "tsk"):
            f = {"is_free": "is_free", "tte": "time_to_end_service", "tsk": "tsk_on_service"}[name]
            c.vc.ensure(st, "Server", f, c.SCHEMA["Server"][f])
            return st.ch["Server"][f]
        if name in ("arr", "swt", "wt"):
            f = {"arr": "arr_time", "swt": "start_waiting_time", "wt": "wait_time"}[name]
            c.vc.ensure(st, c.TASK, f, c.SCHEMA[c.TASK][f])
            return st.ch[c.TASK][f]
        if name.startswith(("warm_", "cold_", "delay_")) and name.split("_", 1)[1] in c.PH:
            ph, f = name.split("_", 1)
            o = d[{"warm": "warm_phase", "cold": "cold_phase", "delay": "cold_delay_phase"}[ph]]
            return st.heap[o.oid][f]
        if name == "alloc":
            return zi(st.cells[("alloc", c.TASK)])
        if name.startswith("g_"):
            return st.g(name[2:])
        if name in ("w", "v", "ppnz"):
            return list(st.heap[d[name].oid]["items"])
        return d[name]


class QsContract:
    config = ("n", "buffer", "verbose", "generator", "num_of_states")     # attributes no event may change
    PH = ("is_set", "is_start", "end_time", "prob", "start_mom", "starts_times")
    module = QS
    cls_name = "QueueingSystemSimulator"
    TASK, task_file, SCHEMA = "Task", UT + "tasks.py", SCHEMA

    def __init__(self, buffer, prop=None, queue="QsQueueList"):
        self.buffer_kind, self.phases, self.queue_cls, self.prop = buffer, "all", queue, prop
        self.N = z3.Int("n")
        self.cnt = Count("cnt_free", self.N)
        self.vc = VC(heap_classes=("Server", self.TASK), schemas=self.SCHEMA, name="qs")
        self.vc.opts["classes"] = {"Server": self.vc.cls(UT + "servers.py", "Server"), self.TASK: self.vc.cls(self.task_file, self.TASK)}
        self.vc.store_hooks[("ch", "Server", "is_free")] = self.cnt.on_store
        self.vc.contracts["refresh_moments_stat"] = self.refresh_contract
        self.vc.hooks["Server.start_service"] = self.on_start
        self.vc.hooks["Server.end_service"] = self.on_end
        self.vc.ext["dist.generate"] = self.generate

    # ---------------------------------------------------------------- environment
    def generate(self, vc, st, a, kw):
        vc.assumptions.add("generate() of every distribution object returns an arbitrary non-negative real (assumed contract)")
        x = fresh("sample", "real")
        st.assume(x >= 0)
        st.trace.append(("gen", a[0].data, x))
        return [(st, x)]

    def refresh_contract(self, vc, st, recv, args, kw):
        """ensures mul(r_i, count) = mul(m_i, count-1) + x^(i+1); the list is updated in place and returned"""
        moments, x, count = args[0], args[1], args[2]
        tag = "C06" if moments.same(st.heap[self.sim.oid]["ppnz"]) else "C04"
        self.chk(st, n_cmp(">=", count, 1), f"call refresh_moments_stat: count >= 1 [{tag}]")
        items = list(st.heap[moments.oid]["items"])
        c = zi(count)
        new = []
        for i in range(3):
            r = fresh("mom", "real")
            st.assume(MUL(r, c) == MUL(zr(items[i]), z3.simplify(c - 1)) + PW[i + 1](zr(x)))
            new.append(r)
        st.heap[moments.oid] = {**st.heap[moments.oid], "items": tuple(new)}
        return [(st, moments)]

    # ghost code attached to the channel operations
    def on_start(self, vc, pre, st, recv, args, res):
        tsk, t = args[0], args[1]
        o = View(self, pre)
        V = View(self, st)
        x = zr(t) - z3.Select(o.arr, zi(tsk.t))
        self.chk(st, z3.Select(o.is_free, recv.t), "start_service: the channel is free [C01]")
        self.chk(st, zi(tsk.t) > o.g_last, "start_service: jobs start in order of arrival, each once [C04]")
        self.chk(st, z3.And(zi(tsk.t) >= 0, zi(tsk.t) < V.alloc), "start_service: the job exists [C04]")
        samples = [y for k, d, y in st.trace if k == "gen" and d is not None and isinstance(d, tuple) and d[0] == "Server"]
        if samples:
            self.chk(st, z3.Select(V.tte, recv.t) == zr(t) + samples[-1], "start_service: ends after one drawn service time [C03]")
        self.chk(st, n_cmp("==", t, V.ttek), "start_service: starts now [C04]")
        for i in range(3):
            st.setg(f"W{i}", z3.simplify(o.st.g(f"W{i}") + PW[i + 1](z3.simplify(x))))
        st.setg("last", zi(tsk.t))
        st.setg("started", z3.simplify(o.st.g("started") + 1))

    def on_end(self, vc, pre, st, recv, args, res):
        o = View(self, pre)
        t = z3.Select(o.tte, recv.t)
        tsk = z3.Select(o.tsk, recv.t)
        x = t - z3.Select(o.arr, tsk)
        self.chk(st, z3.Not(z3.Select(o.is_free, recv.t)), "end_service: the channel is busy [C01]")
        for i in range(3):
            st.setg(f"V{i}", z3.simplify(o.st.g(f"V{i}") + PW[i + 1](z3.simplify(x))))
        st.setg("ended", z3.simplify(o.st.g("ended") + 1))

    def ctor(self, st, bt):
        return [self.N, self.buf], {"verbose": False, "buffer_type": bt}

    # ---------------------------------------------------------------- initial symbolic object
    def make(self, st):
        vc = self.vc
        info = vc.cls(self.module, self.cls_name)
        st.assume(self.N >= 1)
        for a in self.cnt.axioms():
            st.assume(a)
        st.cells[("alloc", self.TASK)] = z3.Int("alloc_Task0")
        st.assume(z3.Int("alloc_Task0") >= 0)
        st.cells[("alloc", "Server")] = z3.IntVal(0)
        self.buf = None
        if self.buffer_kind == "int":
            self.buf = z3.Int("buffer")
            st.assume(self.buf >= 0)
        for g in ("W0", "W1", "W2", "V0", "V1", "V2", "P0", "P1", "P2", "full_since"):
            st.setg(g, z3.RealVal(0))
        for g in ("last",):
            st.setg(g, z3.IntVal(-1))
        for g in ("started", "ended"):
            st.setg(g, z3.IntVal(0))
        bt = "list" if self.queue_cls == "QsQueueList" else "deque"
        r = vc.instantiate(info, st, *self.ctor(st, bt))
        if len(r) != 1:
            raise Unsupported("constructor forks")
        st, self.sim = r[0]
        return st

    def symbolic(self):
        """arbitrary state satisfying Inv"""
        st = St()
        self.vc.muted += 1
        try:
            st = self.make(st)
            st = self.set_servers_sym(st)
        finally:
            self.vc.muted -= 1
        vc = self.vc
        d = dict(st.heap[self.sim.oid])
        keep = {"n", "buffer", "verbose", "generator", "queue", "servers", "p", "source"}
        for k, v in list(d.items()):
            if k in keep or k in self.config:
                continue
            if is_num(v) and not isinstance(v, bool):
                isint = k in ("free_channels", "total", "ppnz_moments", "taked", "served", "in_sys", "arrived", "dropped", "load",
                              "warm_after_cold_starts", "zero_wait_arrivals_num", "num_of_states") or k in self.own_ints
                d[k] = z3.Int("s." + k) if isint else z3.Real("s." + k)
            elif isinstance(v, bool):
                d[k] = z3.Bool("s." + k)
        for l in ("w", "v", "ppnz"):
            d[l] = vc.new_list(st, [z3.Real(f"s.{l}{i}") for i in range(3)])
        np_ = z3.Int("p_len")
        st.assume(np_ >= 1)
        self.p_len = np_
        d["p"] = vc.new_slist(st, "real", "p", length=np_, tag="p", arr=z3.Const("s.p", AR))
        d["num_of_states"] = np_
        self.total = Total("total_p", z3.IntVal(0), np_)
        vc.store_hooks[("lst", "p")] = self.total.on_store
        q = d["queue"]
        ql = Lst(vc.new_oid())
        st.heap[ql.oid] = {"k": "s", "arr": z3.Const("s.q", AI), "lo": z3.Int("s.q_lo"), "hi": z3.Int("s.q_hi"), "w": "ref:" + self.TASK, "tag": "queue"}
        st.heap[q.oid] = {**st.heap[q.oid], "queue": ql}
        for nm in ("warm_phase", "cold_phase", "cold_delay_phase"):
            o = d[nm]
            ph = dict(st.heap[o.oid])
            for f in ("end_time", "prob", "start_mom"):
                ph[f] = z3.Real(f"s.{nm}.{f}")
            for f in ("starts_times", "after_cold_starts"):
                ph[f] = z3.Int(f"s.{nm}.{f}")
            for f in ("is_set", "is_start"):
                ph[f] = z3.Bool(f"s.{nm}.{f}")
            if self.phases == "none":
                ph["is_set"] = False
            ph["dist"] = Opq("dist", ("phase", nm))
            st.heap[o.oid] = ph
        d["source"] = Opq("dist", ("source",))
        sv = Lst(vc.new_oid())
        st.heap[sv.oid] = {"k": "s", "arr": None, "lo": z3.IntVal(0), "hi": self.N, "w": "ref:Server", "tag": None}
        d["servers"] = sv
        st.heap[self.sim.oid] = d
        for f, w in self.SCHEMA["Server"].items():
            if not w.startswith("opq"):
                vc.ensure(st, "Server", f, w)
                st.ch["Server"][f] = z3.Const("s.Server." + f, z3.ArraySort(I, sort_of_wrap(w)))
        for f, w in self.SCHEMA[self.TASK].items():
            vc.ensure(st, self.TASK, f, w)
            st.ch[self.TASK][f] = z3.Const("s.Task." + f, z3.ArraySort(I, sort_of_wrap(w)))
        st.cells[("alloc", self.TASK)] = z3.Int("s.alloc")
        for g in ("W0", "W1", "W2", "V0", "V1", "V2", "P0", "P1", "P2", "full_since"):
            st.setg(g, z3.Real("g." + g))
        for g in ("last", "started", "ended"):
            st.setg(g, z3.Int("g." + g))
        for _, c in self.inv(st):
            st.assume(c)
        self.vc.inv_cands = [lambda vc, s: self.loop_inv(s)]
        return st

    def set_servers_sym(self, st):
        return st

    # ---------------------------------------------------------------- invariant
    def phase_on(self, V):
        return z3.Or(zb(V.warm_is_start), zb(V.cold_is_start))

    def inv(self, st):
        V = View(self, st)
        n, free, t = self.N, zi(V.free_channels), zr(V.ttek)
        q, lo, hi = V.q_arr, V.q_lo, V.q_hi
        qs = hi - lo
        i, j = z3.Ints("i!inv j!inv")
        S = z3.Select
        F, T, K = V.is_free, V.tte, V.tsk
        out = []
        add = lambda name, c: out.append((name, zb(c))) if self.wanted(name) else None
        add("free channels counted [C01]", free == self.cnt.f(F))
        add("free channels in range [C01]", z3.And(free >= 0, free <= n))
        add("in system = waiting + in service [C01]", zi(V.in_sys) == qs + n - free)
        add("arrived = served + dropped + in system [C01]", zi(V.arrived) == zi(V.served) + zi(V.dropped) + zi(V.in_sys))
        add("taken = served + in service [C01]", zi(V.taked) == zi(V.served) + n - free)
        add("counters non-negative [C01]", z3.And(zi(V.served) >= 0, zi(V.dropped) >= 0, qs >= 0, zi(V.in_sys) >= 0))
        add("total = served [C01]", zi(V.total) == zi(V.served))
        add("started = taken, ended = served [C04]", z3.And(V.g_started == zi(V.taked), V.g_ended == zi(V.served)))
        if self.buf is not None:
            add("queue within buffer [C02]", qs <= self.buf)
        else:
            add("nothing dropped without a buffer limit [C02]", zi(V.dropped) == 0)
        add("jobs wait only if all channels are busy or a phase runs [C02]",
            z3.Implies(qs > 0, z3.Or(free == 0, self.phase_on(V))))
        add("clock = last event [C03]", z3.And(zr(V.t_old) == t, t >= 0))
        add("credited time adds up to the clock [C03]", self.total.f(V.p_arr) == t)
        add("credited times non-negative [C03]", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.states(V)), S(V.p_arr, i) >= 0),
                                                         patterns=[S(V.p_arr, i)]))
        add("next arrival not in the past [C03]", self.arrivals_from(V, t))
        rng = z3.And(i >= 0, i < n)
        add("idle channels [C03]", z3.ForAll([i], z3.Implies(z3.And(rng, S(F, i)), S(T, i) >= HORIZON),
                                             patterns=[S(F, i)]))
        add("busy channels end in the future [C03]", z3.ForAll([i], z3.Implies(z3.And(rng, z3.Not(S(F, i))), S(T, i) >= t), patterns=[S(F, i)]))
        add("jobs in service arrived, started before all waiting [C04]", z3.ForAll([i], z3.Implies(
            z3.And(rng, z3.Not(S(F, i))), z3.And(S(K, i) >= 0, S(K, i) <= V.g_last, S(V.arr, S(K, i)) <= t)), patterns=[S(K, i)]))
        add("no job in two channels [C04]", z3.ForAll([i, j], z3.Implies(z3.And(rng, j >= 0, j < n, i != j, z3.Not(S(F, i)), z3.Not(S(F, j))),
                                                                    S(K, i) != S(K, j)), patterns=[z3.MultiPattern(S(K, i), S(K, j))]))
        qr = z3.And(i >= lo, i < hi)
        add("waiting jobs: not started, in arrival order [C04]", z3.And(
            z3.ForAll([i], z3.Implies(qr, z3.And(S(q, i) > V.g_last, S(q, i) < V.alloc, S(q, i) >= 0)), patterns=[S(q, i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(qr, j > i, j < hi), S(q, i) < S(q, j)), patterns=[z3.MultiPattern(S(q, i), S(q, j))])))
        add("waiting jobs: waiting since arrival [C04]", z3.ForAll([i], z3.Implies(qr, z3.And(
            S(V.arr, S(q, i)) <= t, S(V.swt, S(q, i)) == S(V.arr, S(q, i)), S(V.wt, S(q, i)) == 0)), patterns=[S(q, i)]))
        add("last started job exists [C04]", z3.And(V.g_last >= -1, V.g_last < V.alloc, V.alloc >= 0))
        for m, cnt, G in ((V.w, V.taked, "W"), (V.v, V.served, "V")):
            add(f"{'wait' if G == 'W' else 'sojourn'} moments are sample means [C04]",
                z3.And(*[MUL(zr(m[k]), zi(cnt)) == st.g(f"{G}{k}") for k in range(3)]))
        add("busy periods counted [C06]", zi(V.ppnz_moments) >= 0)
        # phases
        w, c, dl = zb(V.warm_is_start), zb(V.cold_is_start), zb(V.delay_is_start)
        ws, cs, ds = zb(V.warm_is_set), zb(V.cold_is_set), zb(V.delay_is_set)
        add("phases only when set [C05]", z3.And(z3.Implies(w, ws), z3.Implies(c, cs), z3.Implies(dl, ds), z3.Implies(ds, cs)))
        add("at most one phase [C05]", z3.And(z3.Not(z3.And(w, c)), z3.Not(z3.And(w, dl)), z3.Not(z3.And(c, dl))))
        add("no service during a phase [C05]", z3.Implies(z3.Or(w, c, dl), free == n))
        add("delay only in an empty system [C05]", z3.Implies(dl, qs == 0))
        for nm, on in (("warm", w), ("cold", c), ("delay", dl)):
            e, s0 = zr(getattr(V, nm + "_end_time")), zr(getattr(V, nm + "_start_mom"))
            add(f"{nm} phase times [C05]", z3.And(z3.Implies(on, z3.And(e >= t, s0 <= t, s0 >= 0)), z3.Implies(z3.Not(on), e >= HORIZON)))
            add(f"{nm} accumulated time non-negative [C05]", zr(getattr(V, nm + "_prob")) >= 0)
        add("busy period start [C06]", z3.Implies(free == 0, zr(V.start_ppnz) == V.g_full_since))
        add("busy period start in the past [C06]", z3.Implies(free == 0, V.g_full_since <= t))
        add("busy period moments are sample means [C06]", z3.And(*[
            MUL(zr(V.ppnz[k]), zi(V.ppnz_moments)) == st.g(f"P{k}") for k in range(3)]))
        return out

    def loop_inv(self, st):
        return self.inv(st)

    # the source of jobs (overridden where it is not a single stream)
    def states(self, V):
        return zi(V.num_of_states)

    def arrivals_from(self, V, t):
        """no pending arrival is earlier than t"""
        return zr(V.arrival_time) >= t

    def arrival_enabled(self, V):
        return z3.BoolVal(True)

    def arrival_at(self, V):
        return zr(V.arrival_time)

    def some_event(self, o):
        """assumed of run_one_step: something is pending before the horizon"""
        return zr(o.arrival_time) < HORIZON

    def after_arrival(self, o, V, t0, W, drop):
        s = V.st
        src = [x for k, d, x in s.trace if k == "gen" and d == ("source",)]
        self.chk(s, len(src) == 1, W + ": one interarrival time drawn [C03]")
        if len(src) == 1:
            self.chk(s, zr(V.arrival_time) == t0 + src[0], W + ": next arrival after the drawn interval [C03]")

    def after_departure(self, o, V, t0, W):
        self.chk(V.st, zr(V.arrival_time) == zr(o.arrival_time), W + ": next arrival untouched [C03]")

    def havoc_event(self, s, d):
        """further cells an event may change"""

    own_ints = frozenset()      # whole-number attributes a subclass adds
    outside = frozenset()       # attributes run_one_step itself may set

    # ---------------------------------------------------------------- helpers for postconditions
    def wanted(self, name):
        """is the clause in the slice of the property being decided?  [..] lists the properties that need it"""
        if self.prop is None:
            return True
        base = name.rsplit("invariant: ", 1)[-1]
        k = base.rindex("[")
        return not self.prop.isdisjoint(base[k + 1:-1].split()) or not self.prop.isdisjoint(SUPPORT.get(base[:k - 1], "").split())

    def chk(self, st, goal, name):
        if self.wanted(name):
            self.vc.check(st, zb(goal), name)

    def check_inv(self, st, where):
        for nm, c in self.inv(st):
            self.chk(st, c, f"{where}: invariant: {nm}")

    def pending_min(self, V, i=None):
        """time t0 is not later than any pending event"""
        def le(t0):
            i = z3.Int("i!pm")
            return z3.And(self.arrivals_from(V, t0),
                          z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.N, z3.Not(z3.Select(V.is_free, i))), t0 <= z3.Select(V.tte, i)),
                                    patterns=[z3.Select(V.tte, i)]),
                          *[z3.Implies(zb(getattr(V, p + "_is_start")), t0 <= zr(getattr(V, p + "_end_time"))) for p in ("warm", "cold", "delay")])
        return le

    def time_clauses(self, o, V, t0, where):
        st = V.st
        self.chk(st, zr(V.ttek) == t0, f"{where}: clock moves exactly to the event [C03]")
        k = zi(o.in_sys)
        self.chk(st, V.p_arr == z3.Store(o.p_arr, k, z3.Select(o.p_arr, k) + (t0 - zr(o.ttek))),
                 f"{where}: elapsed time credited once to the number present before [C03]")

    def same_servers(self, o, V, st, where, exc=None, tag="C03"):
        i = z3.Int("i!fr")
        S = z3.Select
        for f in ("is_free", "tte", "tsk"):
            a, b = getattr(o, f), getattr(V, f)
            cond = z3.And(i >= 0, i < self.N) if exc is None else z3.And(i >= 0, i < self.N, i != exc)
            self.chk(st, z3.ForAll([i], z3.Implies(cond, S(a, i) == S(b, i))), f"{where}: other channels untouched ({f}) [{tag}]")

    def same_jobs(self, o, V, where):
        i = z3.Int("i!jb")
        self.chk(V.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.alloc), z3.Select(o.arr, i) == z3.Select(V.arr, i))),
                 f"{where}: arrival times of existing jobs are kept [C04]")

    def same_phase(self, o, V, ph, where, tag="C05"):
        for f in self.PH:
            a, b = getattr(o, ph + "_" + f), getattr(V, ph + "_" + f)
            g = zb(a) == zb(b) if is_bool(a) else n_cmp("==", a, b)
            self.chk(V.st, g, f"{where}: {ph} phase untouched ({f}) [{tag}]")

    def phase_started(self, o, V, ph, where):
        st = V.st
        nm = {"warm": "warm_phase", "cold": "cold_phase", "delay": "cold_delay_phase"}[ph]
        xs = [x for k, d, x in st.trace if k == "gen" and d == ("phase", nm)]
        g = lambda f, v: getattr(v, f"{ph}_{f}")
        self.chk(st, len(xs) == 1, f"{where}: one {ph} duration drawn [C05]")
        if len(xs) == 1:
            self.chk(st, z3.And(zb(g("is_start", V)), zr(g("start_mom", V)) == zr(V.ttek), zr(g("end_time", V)) == zr(V.ttek) + xs[0]),
                     f"{where}: {ph} starts now for its drawn duration [C05]")
        self.chk(st, z3.And(zi(g("starts_times", V)) == zi(g("starts_times", o)) + 1, zr(g("prob", V)) == zr(g("prob", o)),
                            zb(g("is_set", V)) == zb(g("is_set", o))), f"{where}: {ph} start counted once [C05]")

    def phase_ended(self, o, V, ph, where):
        g = lambda f, v: getattr(v, f"{ph}_{f}")
        self.chk(V.st, z3.And(z3.Not(zb(g("is_start", V))), zr(g("prob", V)) == zr(g("prob", o)) + (zr(V.ttek) - zr(g("start_mom", o))),
                              zi(g("starts_times", V)) == zi(g("starts_times", o)), zb(g("is_set", V)) == zb(g("is_set", o))),
                 f"{where}: {ph} ends and its duration is accumulated [C05]")

    def queue_same(self, o, V, where, tag="C02"):
        self.chk(V.st, z3.And(V.q_arr == o.q_arr, V.q_lo == o.q_lo, V.q_hi == o.q_hi), f"{where}: queue untouched [{tag}]")

    def counters(self, o, V, where, arrived=0, served=0, dropped=0):
        for f, dlt, tag in (("arrived", arrived, "C01"), ("served", served, "C01"), ("dropped", dropped, "C02")):
            self.chk(V.st, zi(getattr(V, f)) == zi(getattr(o, f)) + dlt, f"{where}: {f} changes by the event only [{tag}]")
        self.chk(V.st, z3.And(zi(V.n) == self.N, (V.buffer is None) if self.buf is None else zn(V.buffer) == self.buf),
                 f"{where}: configuration untouched [C01]")

    def full_ghost(self, o, V):
        """ghost: start of the period with all channels occupied"""
        st = V.st
        f0, f1 = zi(o.free_channels), self.cnt.f(V.is_free)
        st.setg("full_since", z3.If(z3.And(self.cnt.f(o.is_free) > 0, f1 == 0), zr(V.ttek), o.st.g("full_since")))
        ends = z3.And(self.cnt.f(o.is_free) == 0, f1 > 0)
        x = z3.simplify(zr(V.ttek) - o.st.g("full_since"))
        for i in range(3):
            st.setg(f"P{i}", z3.If(ends, o.st.g(f"P{i}") + PW[i + 1](x), o.st.g(f"P{i}")))

    # ---------------------------------------------------------------- the events
    def call(self, name, st, args=()):
        st.env = {}
        return self.vc.call_func(self.fn(name), st, [self.sim] + list(args), {}, nocontract=True)

    def fn(self, name):
        """the method the class really runs (inherited ones included)"""
        r = self.vc.cls(self.module, self.cls_name).find(self.vc, name)
        if not r:
            raise Unsupported(f"no method {name}")
        return FuncV(r[1], r[0].mod, r[0], None, name)

    def arrival(self):
        st = self.symbolic()
        pre = st.fork()
        o = View(self, pre)
        t0 = self.arrival_at(o)
        self.now = t0
        st.assume(self.arrival_enabled(o))
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        self.reach(st, "arrival")
        outs = self.call("arrival", st)
        self.outcomes("arrival", outs)
        for s, _ in outs:
            V = View(self, s)
            self.full_ghost(o, V)
            W = "arrival"
            self.time_clauses(o, V, t0, W)
            cold, dly, warm = zb(o.cold_is_start), zb(o.delay_is_start), zb(o.warm_is_start)
            wset, free = zb(o.warm_is_set), zi(o.free_channels)
            starts_warm = z3.And(z3.Not(cold), z3.Not(dly), wset, z3.Not(warm), free == self.N)
            waits = z3.Or(cold, z3.And(z3.Not(dly), z3.Or(warm, starts_warm, free == 0)))
            qs = o.q_hi - o.q_lo
            full = (qs >= self.buf) if self.buf is not None else z3.BoolVal(False)
            drop = z3.And(waits, full)
            self.after_arrival(o, V, t0, W, drop)
            self.counters(o, V, W, arrived=1, dropped=z3.If(drop, 1, 0))
            S = z3.Select
            # refused
            s1 = s.fork(); s1.assume(drop)
            if self.vc.feasible(s1):
                V1 = View(self, s1)
                self.queue_same(o, V1, W + " refused")
                self.same_servers(o, V1, s1, W + " refused", tag="C02")
            # queued
            s2 = s.fork(); s2.assume(z3.And(waits, z3.Not(full)))
            if self.vc.feasible(s2):
                V2 = View(self, s2)
                i = z3.Int("i!q")
                self.chk(s2, z3.And(V2.q_hi - V2.q_lo == qs + 1,
                                    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < qs), S(V2.q_arr, V2.q_lo + i) == S(o.q_arr, o.q_lo + i)))),
                         W + " queued: job appended, others keep their places [C04]")
                new = S(V2.q_arr, V2.q_hi - 1)
                self.chk(s2, z3.And(S(V2.arr, new) == t0, new >= o.alloc), W + " queued: the new job is last, arrived now [C04]")
                self.same_servers(o, V2, s2, W + " queued", tag="C02")
            # served at once
            s3 = s.fork(); s3.assume(z3.Not(waits))
            if self.vc.feasible(s3):
                V3 = View(self, s3)
                self.queue_same(o, V3, W + " served at once")
                self.chk(s3, self.cnt.f(V3.is_free) == self.cnt.f(o.is_free) - 1, W + " served at once: one channel taken [C02]")
                i = z3.Int("i!s")
                self.chk(s3, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.N, z3.Not(S(o.is_free, i))),
                                                       z3.And(z3.Not(S(V3.is_free, i)), S(V3.tte, i) == S(o.tte, i), S(V3.tsk, i) == S(o.tsk, i)))),
                         W + " served at once: busy channels untouched [C03]")
                self.chk(s3, z3.And(s3.g("last") >= o.alloc, S(V3.arr, s3.g("last")) == t0), W + " served at once: the new job starts [C04]")
            # phases
            s4 = s.fork(); s4.assume(starts_warm)
            if self.vc.feasible(s4):
                self.phase_started(o, View(self, s4), "warm", W)
            s5 = s.fork(); s5.assume(z3.Not(starts_warm))
            if self.vc.feasible(s5):
                self.same_phase(o, View(self, s5), "warm", W)
            self.same_phase(o, V, "cold", W)
            s6 = s.fork(); s6.assume(dly)
            if self.vc.feasible(s6):
                self.phase_ended(o, View(self, s6), "delay", W)
            s7 = s.fork(); s7.assume(z3.Not(dly))
            if self.vc.feasible(s7):
                self.same_phase(o, View(self, s7), "delay", W)
            self.chk(s, zi(V.warm_after_cold_starts) == zi(o.warm_after_cold_starts), W + ": warm-after-cold starts untouched [C05]")
            self.same_jobs(o, V, W)
            self.check_inv(s, W)

    def serving(self):
        st = self.symbolic()
        pre = st.fork()
        o = View(self, pre)
        c = z3.Int("c")
        S = z3.Select
        st.assume(z3.And(c >= 0, c < self.N, z3.Not(S(o.is_free, c))))
        self.now = t0 = S(o.tte, c)
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        self.reach(st, "serving")
        outs = self.call("serving", st, [c])
        self.outcomes("serving", outs)
        for s, _ in outs:
            V = View(self, s)
            self.full_ghost(o, V)
            W = "serving"
            self.time_clauses(o, V, t0, W)
            self.counters(o, V, W, served=1)
            self.after_departure(o, V, t0, W)
            self.same_servers(o, V, s, W, exc=c)
            self.chk(s, s.g("ended") == o.g_ended + 1, W + ": one job leaves [C04]")
            qs = o.q_hi - o.q_lo
            i = z3.Int("i!q")
            s1 = s.fork(); s1.assume(qs > 0)
            if self.vc.feasible(s1):
                V1 = View(self, s1)
                self.chk(s1, z3.And(z3.Not(S(V1.is_free, c)), S(V1.tsk, c) == S(o.q_arr, o.q_lo)), W + ": head of the queue takes the channel [C04]")
                self.chk(s1, z3.And(V1.q_hi - V1.q_lo == qs - 1, z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < qs - 1), S(V1.q_arr, V1.q_lo + i) == S(o.q_arr, o.q_lo + 1 + i)))), W + ": only the head leaves the queue [C04]")
            s2 = s.fork(); s2.assume(qs == 0)
            if self.vc.feasible(s2):
                V2 = View(self, s2)
                self.chk(s2, z3.And(S(V2.is_free, c), V2.q_hi - V2.q_lo == 0), W + ": the channel becomes free [C02]")
            empties = z3.And(zi(o.in_sys) == 1, zb(o.cold_is_set))
            for cond, ph in ((z3.And(empties, zb(o.delay_is_set)), "delay"), (z3.And(empties, z3.Not(zb(o.delay_is_set))), "cold")):
                a = s.fork(); a.assume(cond)
                if self.vc.feasible(a):
                    self.phase_started(o, View(self, a), ph, W + " emptied")
                b = s.fork(); b.assume(z3.Not(cond))
                if self.vc.feasible(b):
                    self.same_phase(o, View(self, b), ph, W)
            self.same_phase(o, V, "warm", W)
            self.same_jobs(o, V, W)
            self.check_inv(s, W)

    def phase_end(self, ph):
        fn = {"warm": "on_end_warming", "cold": "on_end_cold", "delay": "on_end_cold_delay"}[ph]
        st = self.symbolic()
        pre = st.fork()
        o = View(self, pre)
        S = z3.Select
        st.assume(zb(getattr(o, ph + "_is_start")))
        t0 = zr(getattr(o, ph + "_end_time"))
        st.assume(self.pending_min(o)(t0))
        st.assume(t0 < HORIZON)
        self.reach(st, fn)
        N = self.N

        def cands(vc, entry, s, kk, lo):
            V = View(self, s)
            k = zi(kk) if kk is not None else z3.IntVal(0)
            j = z3.Int("j!ld")
            nonempty = V.q_hi - V.q_lo > 0
            return [("later channels free", z3.ForAll([j], z3.Implies(z3.And(j >= k, j < N), S(V.is_free, j)), patterns=[S(V.is_free, j)])),
                    ("earlier channels busy while jobs wait", z3.Implies(nonempty, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(S(V.is_free, j))), patterns=[S(V.is_free, j)]))),
                    ("kept waiting jobs", z3.ForAll([j], z3.Implies(z3.And(j >= V.q_lo, j < V.q_hi), S(V.q_arr, j) == S(o.q_arr, j)), patterns=[S(V.q_arr, j)])),
                    ("queue end kept", V.q_hi == o.q_hi), ("queue start", V.q_lo >= o.q_lo),
                    ("all taken now", z3.Implies(zi(V.free_channels) == 0, zr(V.start_ppnz) == zr(V.ttek))),
                    ("dispatched", V.q_lo - o.q_lo == V.g_started - o.g_started),
                    ]
        self.vc.loop_cands = [cands]
        outs = self.call(fn, st)
        self.outcomes(fn, outs)
        for s, _ in outs:
            V = View(self, s)
            self.full_ghost(o, V)
            W = fn
            self.time_clauses(o, V, t0, W)
            self.counters(o, V, W)
            self.chk(s, zr(V.arrival_time) == zr(o.arrival_time), W + ": next arrival untouched [C03]")
            self.phase_ended(o, V, ph, W)
            qs = o.q_hi - o.q_lo
            mn = z3.If(qs <= N, qs, N)
            to_channels = z3.BoolVal(True) if ph == "warm" else (z3.Not(zb(o.warm_is_set)) if ph == "cold" else z3.BoolVal(False))
            a = s.fork(); a.assume(to_channels)
            if self.vc.feasible(a):
                A = View(self, a)
                self.chk(a, z3.And(self.cnt.f(A.is_free) == N - mn, A.q_hi - A.q_lo == qs - mn), W + ": min(n, waiting) jobs go into service [C05]")
                self.same_phase(o, A, "warm" if ph != "warm" else "cold", W)
            b = s.fork(); b.assume(z3.Not(to_channels))
            if self.vc.feasible(b):
                Bv = View(self, b)
                self.same_servers(o, Bv, b, W, tag="C05")
                self.queue_same(o, Bv, W, tag="C05")
                if ph == "cold":
                    x = b.fork(); x.assume(qs > 0)
                    if self.vc.feasible(x):
                        self.phase_started(o, View(self, x), "warm", W)
                        self.chk(x, zi(View(self, x).warm_after_cold_starts) == zi(o.warm_after_cold_starts) + 1, W + ": warm-after-cold counted [C05]")
                    y = b.fork(); y.assume(qs == 0)
                    if self.vc.feasible(y):
                        self.same_phase(o, View(self, y), "warm", W)
                        self.chk(y, zi(View(self, y).warm_after_cold_starts) == zi(o.warm_after_cold_starts), W + ": warm-after-cold not counted [C05]")
                else:
                    self.phase_started(o, Bv, "cold", W)
                    self.same_phase(o, Bv, "warm", W)
            if ph != "delay":
                self.same_phase(o, V, "delay", W)
            self.same_jobs(o, V, W)
            self.check_inv(s, W)

    # ---------------------------------------------------------------- one step: the earliest event
    def step(self):
        st = self.symbolic()
        pre = st.fork()
        o = View(self, pre)
        S = z3.Select
        vc = self.vc
        calls = []

        def handler(kind):
            def f(vc, s, recv, args, kw):
                V = View(self, s)
                i = z3.Int("i!h")
                if kind == "serving":
                    c = zi(args[0])
                    en = z3.And(c >= 0, c < self.N, z3.Not(S(V.is_free, c)))
                    t0 = S(V.tte, c)
                elif kind == "arrival":
                    en, t0 = self.arrival_enabled(V), self.arrival_at(V)
                else:
                    ph = {"on_end_warming": "warm", "on_end_cold": "cold", "on_end_cold_delay": "delay"}[kind]
                    en, t0 = zb(getattr(V, ph + "_is_start")), zr(getattr(V, ph + "_end_time"))
                self.chk(s, en, f"run_one_step: {kind} is enabled [C03]")
                self.chk(s, z3.Implies(en, self.pending_min(V)(t0)), f"run_one_step: {kind} is the earliest pending event [C03]")
                for nm, cl in self.inv(s):
                    self.vc.check(s, zb(cl), f"run_one_step: at {kind}: {nm}")
                s.trace.append(("event", kind, t0))
                return [(s, None)]
            return f
        for kind in ("serving", "arrival", "on_end_warming", "on_end_cold", "on_end_cold_delay"):
            vc.contracts[f"{self.cls_name}.{kind}"] = handler(kind)
        i = z3.Int("i!t")
        st.assume(self.some_event(o))
        self.reach(st, "run_one_step")
        outs = self.call("run_one_step", st)
        self.outcomes("run_one_step", outs)
        for s, _ in outs:
            ev = [x for x in s.trace if x[0] == "event"]
            self.chk(s, len(ev) == 1, "run_one_step: exactly one event is processed [C03]")
            ds = [k for k in loops.diff_cells(pre, s) if k[0] in ("h", "ch") or k[0] == "c" and k[1][0] in ("ghost", "alloc")]
            ds = [k for k in ds if not (k[0] == "h" and k[1] == self.sim.oid and k[2] in self.outside)]
            self.chk(s, not ds, "run_one_step: nothing changes outside the event [C03]")

    def reach(self, st, what):
        """vacuity guard: the precondition must be satisfiable (checked by the runner as a cover)"""
        self.vc.covers = getattr(self.vc, "covers", [])
        self.vc.covers.append((what, list(st.pc)))

    def outcomes(self, what, outs):
        self.vc.outs = getattr(self.vc, "outs", {})
        self.vc.outs[what] = len(outs)
        for s, nm in self.vc.pend:
            self.vc.check(s, False, f"{what}: no exception ({nm})")
        self.vc.pend = []
        if not outs:
            raise Unsupported(f"{what}: no normal outcome")


def refresh_leaf():
    """refresh_moments_stat against its contract, in real arithmetic"""
    vc = VC(name="refresh_moments_stat")
    fn = vc.func(UT + "stats_update.py", "refresh_moments_stat")
    st = St()
    m = [z3.Real(f"m{i}") for i in range(3)]
    l = vc.new_list(st, m)
    x, c = z3.Real("x"), z3.Int("count")
    st.assume(c >= 1)
    vc.covers = [("refresh_moments_stat", list(st.pc))]
    outs = vc.call_func(fn, st, [l, x, c], {})
    for s, r in outs:
        items = vc.items(s, r)
        vc.check(s, len(items) == 3, "refresh_moments_stat: three moments")
        for i in range(3):
            p = x
            for _ in range(i):
                p = p * x
            vc.check(s, zr(items[i]) * z3.ToReal(c) == m[i] * z3.ToReal(c - 1) + p,
                     f"refresh_moments_stat: moment {i + 1} is the running mean")
    for s, nm in vc.pend:
        vc.check(s, False, f"refresh_moments_stat: no exception ({nm})")
    return vc


EVENTS = ("arrival", "serving", "warm", "cold", "delay", "step")


def unit(prop, what, buffer=None, queue="QsQueueList"):
    """entry point of the runner"""
    if what == "refresh_leaf":
        return refresh_leaf()
    if what == "lemmas":
        return lemma_unit([count_lemmas, total_lemmas])
    c = QsContract(buffer, frozenset([prop]), queue)
    c.vc.name = f"{what}[buffer={buffer},{queue}]"
    if what in ("warm", "cold", "delay"):
        c.phase_end(what)
    elif what in ("establish", "getters", "run_loop"):
        {"establish": establish, "getters": getters, "run_loop": run_loop}[what](c)
    else:
        getattr(c, what)()
    return c.vc


# ------------------------------------------------------------------------------- construction and reporting
def _all_true_lemma(c, st):
    """cnt(a) = n when every entry is true (count_lemmas: all)"""
    a = z3.Const("a!all", AB)
    i = z3.Int("i!all")
    w = z3.Function("w!all", AB, I)
    st.assume(z3.ForAll([a], z3.Or(c.cnt.f(a) == c.N, z3.And(w(a) >= 0, w(a) < c.N, z3.Not(z3.Select(a, w(a))))), patterns=[c.cnt.f(a)]))


def establish(c):
    """constructor, set_sources, set_servers and any accepted combination of set_warm / set_cold / set_cold_delay
    establish the invariant"""
    vc = c.vc

    def create(vc, st, recv, args, kw):
        return [(st, Opq("dist", ("created", id(args[0]))))]
    vc.contracts["create_distribution"] = create
    combos = [()] if c.phases == "none" else [(), ("warm",), ("cold",), ("warm", "cold"), ("cold", "cold_delay"), ("warm", "cold", "cold_delay")]
    for combo in combos:
        st = St()
        st = c.make(st)
        _all_true_lemma(c, st)
        st.assume(MUL(z3.RealVal(0), z3.IntVal(0)) == 0)
        sim = c.sim

        def cands(vc, entry, s, kk, lo):
            k = zi(kk) if kk is not None else z3.IntVal(0)
            j = z3.Int("j!mk")
            S = z3.Select
            for f in ("is_free", "time_to_end_service", "tsk_on_service"):
                vc.ensure(s, "Server", f, c.SCHEMA["Server"][f])
            F, T, K = (s.ch["Server"][f] for f in ("is_free", "time_to_end_service", "tsk_on_service"))
            out = [("new channels idle", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.cells[("alloc", "Server")])),
                                                                 z3.And(S(F, j), S(T, j) >= HORIZON)), patterns=[S(F, j)]))]
            for oid, d in s.heap.items():
                if d.get("k") == "s" and str(d.get("w", "")).endswith("ref:Server") or d.get("k") == "s" and str(d.get("w", "")) == "opt:Server":
                    a, l, h = d["arr"], d["lo"], d["hi"]
                    if a is not None:
                        out.append(("distinct new channels", z3.And(h - l == zi(s.cells[("alloc", "Server")]), z3.ForAll([j], z3.Implies(
                            z3.And(j >= l, j < h), S(a, j) == j - l), patterns=[S(a, j)]))))
            return out
        vc.loop_cands = [cands]
        outs = [st]
        for name, args in [("set_sources", 2), ("set_servers", 2)] + [("set_" + x, 2) for x in combo]:
            nxt = []
            for s in outs:
                fn = c.fn(name)
                s.env = {}
                for s2, _ in vc.call_func(fn, s, [sim, Opq("dist_params"), Opq("str")], {}):
                    nxt.append(s2)
            outs = nxt
        c.outcomes("construction " + "+".join(combo), outs)
        for s in outs:
            d = dict(s.heap[sim.oid])
            sv = s.heap[d["servers"].oid]
            S = z3.Select
            W = "construction"
            j = z3.Int("j!sv")
            if sv["k"] != "s":
                raise Unsupported("servers list")
            if sv["arr"] is not None:
                c.vc.check(s, z3.And(sv["hi"] - sv["lo"] == c.N, z3.ForAll([j], z3.Implies(z3.And(j >= sv["lo"], j < sv["hi"]), S(sv["arr"], j) == j - sv["lo"]))),
                           W + ": n distinct channels")
            else:
                c.vc.check(s, sv["hi"] - sv["lo"] == c.N, W + ": n distinct channels")
            # credited time of an all-zero table is 0 (total_lemmas: zeros)
            c.total = Total("total_p", z3.IntVal(0), z3.IntVal(0))
            p = s.heap[d["p"].oid]
            if p["k"] == "c":
                raise Unsupported("p table")
            zero = z3.K(I, z3.RealVal(0))
            s.assume(c.total.f(zero) == 0)
            c.vc.check(s, z3.And(p["arr"] == zero, c.states(View(c, s)) == p["hi"] - p["lo"]), W + ": nothing credited yet [C03]") if c.wanted("x [C03]") else None
            q = s.heap[d["queue"].oid]["queue"]
            ql = s.heap[q.oid]
            if ql["k"] == "c":
                c.vc.check(s, len(ql["items"]) == 0, W + ": queue is empty")
                s.heap[q.oid] = {"k": "s", "arr": z3.Const("q0", AI), "lo": z3.IntVal(0), "hi": z3.IntVal(0), "w": "ref:" + c.TASK, "tag": None}
            c.reach(s, W)
            c.check_inv(s, W)
            if combo:
                V = View(c, s)
                want = {"warm": "warm" in combo, "cold": "cold" in combo, "delay": "cold_delay" in combo}
                for ph, w in want.items():
                    c.chk(s, zb(getattr(V, ph + "_is_set")) == z3.BoolVal(w), f"{W}: {ph} set as asked [C05]")


def getters(c):
    """get_p, phase probabilities, set_dist/start of a phase: read-only reports"""
    vc = c.vc
    st = c.symbolic()
    o = View(c, st)
    S = z3.Select
    st.assume(zr(o.ttek) > 0)
    c.reach(st, "get_p")
    pre = st.fork()
    k = z3.Int("k!p")

    def cands(vc, entry, s, kk, lo):
        j = z3.Int("j!gp")
        kk = zi(kk) if kk is not None else z3.IntVal(0)
        out = []
        for oid, d in s.heap.items():
            if d.get("k") == "s" and d.get("w") == "real" and d.get("arr") is not None and oid not in pre.heap:
                out.append(("reported", z3.ForAll([j], z3.Implies(z3.And(j >= d["lo"], j < d["lo"] + kk), S(d["arr"], j) == S(o.p_arr, j - d["lo"]) / zr(o.ttek)), patterns=[S(d["arr"], j)])))
        return out
    vc.loop_cands = [cands]
    for s, r in c.call("get_p", st.fork()):
        d = vc.lcell(s, r)
        if d["k"] != "s":
            raise Unsupported("get_p result")
        n = c.states(o)
        c.chk(s, d["hi"] - d["lo"] == n, "get_p: one probability per state [C03]")
        c.chk(s, z3.Implies(z3.And(k >= 0, k < n), S(d["arr"], d["lo"] + k) == S(o.p_arr, k) / zr(o.ttek)),
              "get_p: credited time divided by the clock [C03]")
    for ph, nm in () if c.phases == "none" else (("warm", "get_warmup_prob"), ("cold", "get_cold_prob"), ("delay", "get_cold_delay_prob")):
        for s, r in c.call(nm, pre.fork()):
            c.chk(s, zr(r) == zr(getattr(o, ph + "_prob")) / zr(o.ttek), f"{nm}: accumulated time divided by the clock [C05]")


def run_loop(c):
    """run(): only steps change the state, the invariant holds at the end, and with is_real_served exactly total_served jobs"""
    vc = c.vc
    st = c.symbolic()
    pre = st.fork()
    o = View(c, st)
    tot = z3.Int("total_served")
    log = []

    def one_step(vc, s, recv, args, kw):
        for nm, cl in c.inv(s):
            vc.check(s, zb(cl), "run: at a step: invariant: " + nm)
        v = View(c, s)
        served = zi(v.served)
        s.setg("steps", s.g("steps") + 1)
        # havoc everything an event may change, keeping the invariant; one job may leave
        d = dict(s.heap[c.sim.oid])
        for k, val in list(d.items()):
            if k in c.config:
                continue
            if is_num(val) and not isinstance(val, bool):
                d[k] = fresh("rs_" + k, "int" if z3.is_int(zn(val)) else "real")
        s.heap[c.sim.oid] = d
        for l in ("w", "v", "ppnz"):
            s.heap[d[l].oid] = {**s.heap[d[l].oid], "items": tuple(fresh("rs_" + l, "real") for _ in range(3))}
        s.heap[d["p"].oid] = {**s.heap[d["p"].oid], "arr": fresh("rs_p", AR)}
        q = s.heap[d["queue"].oid]["queue"]
        s.heap[q.oid] = {**s.heap[q.oid], "arr": fresh("rs_q", AI), "lo": fresh("rs_lo", "int"), "hi": fresh("rs_hi", "int")}
        for nm in ("warm_phase", "cold_phase", "cold_delay_phase"):
            ph = dict(s.heap[d[nm].oid])
            for f in ("end_time", "prob", "start_mom"):
                ph[f] = fresh("rs_" + f, "real")
            ph["starts_times"] = fresh("rs_starts", "int")
            ph["is_start"] = fresh("rs_start", "bool")
            s.heap[d[nm].oid] = ph
        for cl in ("Server", c.TASK):
            for f, a in s.ch[cl].items():
                s.ch[cl][f] = fresh(f"rs_{cl}_{f}", a.sort())
        s.cells[("alloc", c.TASK)] = fresh("rs_alloc", "int")
        c.havoc_event(s, d)
        for g in list(s.cells):
            if g[0] == "ghost" and g[1] != "steps":
                s.cells[g] = fresh("rs_" + g[1], s.cells[g].sort())
        for _, cl in c.inv(s):
            s.assume(cl)
        V = View(c, s)
        s.assume(z3.And(zi(V.served) >= served, zi(V.served) <= served + 1))
        return [(s, None)]
    vc.contracts[f"{c.cls_name}.run_one_step"] = one_step
    st.setg("steps", z3.IntVal(0))

    def cands(vc, entry, s, kk, lo):
        V = View(c, s)
        out = [("served at most", z3.Implies(zi(o.served) <= tot, zi(V.served) <= tot)), ("served more", zi(V.served) >= zi(o.served))]
        if kk is not None:
            out.append(("steps", s.g("steps") == zi(kk)))
        return out
    vc.loop_cands = [cands]
    fn = c.fn("run")
    for real in (True, False):
        s0 = st.fork()
        s0.env = {}
        s0.assume(tot >= 1)
        c.reach(s0, "run")
        outs = vc.call_func(fn, s0, [c.sim, tot], {"is_real_served": real}, nocontract=True)
        c.outcomes("run", outs)
        for s, _ in outs:
            V = View(c, s)
            c.check_inv(s, "run")
            if real:
                c.chk(s, z3.Implies(zi(o.served) <= tot, zi(V.served) == tot), "run: exactly the requested number of jobs is served [C01]")
            else:
                c.chk(s, s.g("steps") == tot, "run: exactly the requested number of events [C01]")
