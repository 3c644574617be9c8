"""C01-C06 on the real GI/G/n/r simulator: the contracts of contracts/qs.py evaluated after every event."""
import random

from common import *

ALL = ("C01", "C02", "C03", "C04", "C05", "C06")


class Shadow:
    """contract state: what the specification says the simulator state is"""

    def __init__(self, n, buffer, warm, cold, delay):
        self.n, self.buffer = n, buffer
        self.set = {"warm": warm, "cold": cold, "delay": delay}
        self.on = {"warm": None, "cold": None, "delay": None}    # (start, end)
        self.acc = {"warm": 0.0, "cold": 0.0, "delay": 0.0}
        self.starts = {"warm": 0, "cold": 0, "delay": 0}
        self.wac = 0
        self.t = 0.0
        self.queue = []
        self.busy = {}                                           # server -> (job arrival, end)
        self.arrived = self.served = self.dropped = self.taken = 0
        self.W, self.V, self.P = [], [], []
        self.p = {}
        self.full_since = None
        self.next_arrival = None

    @property
    def insys(self):
        return len(self.queue) + len(self.busy)

    def pending(self):
        ev = [("arrival", self.next_arrival)]
        ev += [("service", e) for _, e in self.busy.values()]
        ev += [(ph, se[1]) for ph, se in self.on.items() if se]
        return ev

    def advance(self, t):
        self.p[self.insys] = self.p.get(self.insys, 0.0) + (t - self.t)
        self.t = t

    def occupancy(self):
        full = len(self.busy) == self.n
        if full and self.full_since is None:
            self.full_since = self.t
        if not full and self.full_since is not None:
            self.P.append(self.t - self.full_since)
            self.full_since = None


def mean(xs, k):
    return sum(x ** k for x in xs) / len(xs) if xs else 0.0


def scenario(rep, cfg, src, svc, ph, steps):
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    n, buffer, bt, warm, cold, delay = cfg
    data = {"driver": "qs", "n": n, "buffer": buffer, "buffer_type": bt, "warm": warm, "cold": cold, "delay": delay,
            "interarrival": src, "service": svc, "phase_times": ph, "steps": steps}
    S, V = Script(src), Script(svc)
    P = {"warm": Script(ph[0]), "cold": Script(ph[1]), "delay": Script(ph[2])}
    rep.runs += 1
    try:
        with scripted():
            q = quiet(QueueingSystemSimulator, n, buffer=buffer, verbose=False, buffer_type=bt)
            if warm:
                q.set_warm(P["warm"], "X")
            if cold:
                q.set_cold(P["cold"], "X")
            if delay:
                q.set_cold_delay(P["delay"], "X")
            q.set_sources(S, "X")
            q.set_servers(V, "X")
            for s in q.servers:
                s.dist = V
    except Exception as e:
        for p in ALL:
            rep.add(p, f"construction raised {e!r}", data)
        return
    sh = Shadow(n, buffer, warm, cold, delay)
    sh.next_arrival = q.arrival_time
    jobs = {}
    events = []
    if S.drawn[:1] != [q.arrival_time]:
        rep.add("C03", "first arrival is not the first drawn interval", data)
        return

    def bad(prop, what):
        rep.add(prop, f"after event {len(events)} ({events[-1] if events else 'start'}): {what}", dict(data, events=list(events)))

    for step in range(steps):
        pend = sh.pending()
        tmin = min(t for _, t in pend)
        b = (q.arrived, q.served, q.dropped, q.warm_phase.is_start, q.cold_phase.is_start, q.cold_delay_phase.is_start, q.ttek)
        free0 = [s.is_free for s in q.servers]
        tsk0 = [s.tsk_on_service for s in q.servers]
        nV, nS, nP = len(V.drawn), len(S.drawn), {k: len(x.drawn) for k, x in P.items()}
        try:
            quiet(q.run_one_step)
        except Exception as e:
            events.append("raised " + repr(e))
            for p in ALL:
                bad(p, f"run_one_step raised {e!r}")
            return
        n0 = len(rep.viol)
        # ---- pure invariants of the observable state
        nfree = sum(1 for s in q.servers if s.is_free)
        if not (q.arrived == q.served + q.dropped + q.in_sys):
            bad("C01", f"arrived {q.arrived} != served {q.served} + dropped {q.dropped} + in system {q.in_sys}")
        if q.free_channels != nfree:
            bad("C01", f"free_channels {q.free_channels} but {nfree} channels are free")
        if q.in_sys != q.queue.size() + n - nfree:
            bad("C01", f"in system {q.in_sys} != waiting {q.queue.size()} + in service {n - nfree}")
        if q.taked != q.served + n - nfree:
            bad("C01", f"taken {q.taked} != served {q.served} + in service {n - nfree}")
        if buffer is not None and q.queue.size() > buffer:
            bad("C02", f"{q.queue.size()} jobs wait, buffer {buffer}")
        if q.queue.size() > 0 and nfree > 0 and not (q.warm_phase.is_start or q.cold_phase.is_start):
            bad("C02", f"{q.queue.size()} jobs wait while {nfree} channels are free")
        if q.ttek < b[6]:
            bad("C03", f"clock went back from {b[6]} to {q.ttek}")
        phases = [q.warm_phase.is_start, q.cold_phase.is_start, q.cold_delay_phase.is_start]
        if sum(phases) > 1:
            bad("C05", f"phases in progress together (warm, cold, delay): {phases}")
        if any(phases) and nfree != n:
            bad("C05", f"a channel serves during a phase {phases}")
        # ---- which event was it?
        if q.arrived == b[0] + 1 and q.served == b[1]:
            ev = "arrival"
        elif q.served == b[1] + 1 and q.arrived == b[0]:
            ev = "service"
        elif q.arrived == b[0] and q.served == b[1] and b[3] and not q.warm_phase.is_start:
            ev = "warm"
        elif q.arrived == b[0] and q.served == b[1] and b[4] and not q.cold_phase.is_start:
            ev = "cold"
        elif q.arrived == b[0] and q.served == b[1] and b[5] and not q.cold_delay_phase.is_start:
            ev = "delay"
        else:
            cands = [e for e, t in pend if t == tmin]
            events.append("?" + "/".join(cands))
            # tell the clause apart by what was due
            if b[0] != q.arrived or b[1] != q.served or "arrival" in cands or "service" in cands:
                bad("C01", f"arrived {b[0]}->{q.arrived}, served {b[1]}->{q.served}: no single event explains this")
                bad("C03", f"no single due event ({cands}) explains arrived {b[0]}->{q.arrived}, served {b[1]}->{q.served}")
            else:
                for pr in ("C03", "C05"):
                    bad(pr, f"the due event {cands} did not end its phase")
            return
        events.append(f"{ev}@{q.ttek:.6g}")
        due = [t for e, t in pend if e == ev]
        if not due or min(due) > tmin:
            bad("C03", f"processed {ev} due {due}, but {[e for e, t in pend if t == tmin]} was due at {tmin}")
            return
        t = min(due)
        if not close(q.ttek, t, 1e-9):
            bad("C03", f"clock {q.ttek} after an event at {t}")
            return
        was_full = len(sh.busy) == n
        sh.advance(t)
        # ---- what the contract of the event demands
        exp_start = []            # arrival times of the jobs that must be started, in order
        exp_phase = {}            # phase -> 'start' | 'end'
        if ev == "arrival":
            sh.arrived += 1
            if len(S.drawn) != nS + 1 or not close(q.arrival_time, t + S.drawn[-1], 1e-9):
                bad("C03", "next arrival is not one drawn interval after this one")
                return
            sh.next_arrival = q.arrival_time
            if sh.on["cold"]:
                wait = True
            elif sh.on["delay"]:
                wait = False
                exp_phase["delay"] = "end"
            elif sh.set["warm"] and not sh.on["warm"] and len(sh.busy) == 0:
                wait = True
                exp_phase["warm"] = "start"
            elif sh.on["warm"]:
                wait = True
            else:
                wait = len(sh.busy) == n
            if wait:
                if buffer is not None and len(sh.queue) >= buffer:
                    sh.dropped += 1
                else:
                    sh.queue.append(t)
            else:
                exp_start.append(t)
        elif ev == "service":
            gone = [i for i in sh.busy if sh.busy[i][1] == t and (q.servers[i].is_free or q.servers[i].tsk_on_service is not tsk0[i])]
            if len(gone) != 1:
                bad("C03", f"a service end must change exactly one due channel, changed {gone}")
                return
            a, _ = sh.busy.pop(gone[0])
            sh.served += 1
            sh.V.append(t - a)
            if sh.queue:
                exp_start.append(sh.queue.pop(0))
            elif not sh.busy and sh.set["cold"]:
                exp_phase["delay" if sh.set["delay"] else "cold"] = "start"
        else:
            exp_phase[ev] = "end"
            if ev == "delay":
                exp_phase["cold"] = "start"
            elif ev == "cold" and sh.set["warm"]:
                if sh.queue:
                    exp_phase["warm"] = "start"
                    sh.wac += 1
            else:
                while sh.queue and len(exp_start) < n:
                    exp_start.append(sh.queue.pop(0))
        for phn in ("warm", "cold", "delay"):
            obj = {"warm": q.warm_phase, "cold": q.cold_phase, "delay": q.cold_delay_phase}[phn]
            act = exp_phase.get(phn)
            if act == "end":
                s0, _ = sh.on[phn]
                sh.acc[phn] += t - s0
                sh.on[phn] = None
            elif act == "start":
                if len(P[phn].drawn) != nP[phn] + 1:
                    bad("C05", f"{phn} must start now with one drawn duration ({len(P[phn].drawn) - nP[phn]} drawn)")
                    return
                sh.on[phn] = (t, t + P[phn].drawn[-1])
                sh.starts[phn] += 1
            if obj.is_start != bool(sh.on[phn]):
                bad("C05", f"{phn} in progress: {obj.is_start}, required {bool(sh.on[phn])}")
            elif sh.on[phn] and not close(obj.end_time, sh.on[phn][1], 1e-9):
                bad("C05", f"{phn} ends at {obj.end_time}, required {sh.on[phn][1]}")
            if not close(obj.prob, sh.acc[phn]):
                bad("C05", f"{phn} accumulated {obj.prob}, required {sh.acc[phn]}")
            if obj.starts_times != sh.starts[phn]:
                bad("C05", f"{phn} starts {obj.starts_times}, required {sh.starts[phn]}")
            if sh.t > 0:
                g = {"warm": q.get_warmup_prob, "cold": q.get_cold_prob, "delay": q.get_cold_delay_prob}[phn]
                try:
                    if not close(g(), sh.acc[phn] / sh.t):
                        bad("C05", f"reported probability of {phn}: {g()}, required {sh.acc[phn] / sh.t}")
                except Exception as e:
                    bad("C05", f"reported probability of {phn} raised {e!r}")
        if q.warm_after_cold_starts != sh.wac:
            bad("C05", f"warm-up after cooling counted {q.warm_after_cold_starts}, required {sh.wac}")
        # started jobs
        changed = [i for i in range(n) if not q.servers[i].is_free and q.servers[i].tsk_on_service is not tsk0[i]]
        ptag = "C05" if ev in ("warm", "cold", "delay") else ("C02" if ev == "arrival" else "C04")
        if len(changed) != len(exp_start):
            bad(ptag, f"{len(changed)} jobs started, required {len(exp_start)}")
            if ptag == "C04":
                bad("C02", f"{len(changed)} jobs started, required {len(exp_start)}")
            return
        got = sorted(q.servers[i].tsk_on_service.arr_time for i in changed)
        if not all(close(x, y, 1e-9) for x, y in zip(got, sorted(exp_start))):
            bad("C04", f"started the jobs that arrived at {got}, first in order are {sorted(exp_start)}")
            return
        drawn = V.drawn[nV:]
        if len(drawn) != len(exp_start):
            bad("C03", f"{len(drawn)} service times drawn for {len(exp_start)} started jobs")
            return
        ends = sorted(q.servers[i].time_to_end_service for i in changed)
        if not all(close(x, t + y, 1e-9) for x, y in zip(ends, sorted(drawn))):
            bad("C03", f"started services end at {ends}, required {sorted(t + y for y in drawn)}")
            return
        for i in changed:
            j = q.servers[i].tsk_on_service
            if id(j) in jobs:
                bad("C04", f"the job that arrived at {j.arr_time} is started twice")
            jobs[id(j)] = j
            if i in sh.busy:
                bad("C02", f"channel {i} took a job while still serving one")
                return
            sh.busy[i] = (j.arr_time, q.servers[i].time_to_end_service)
            sh.W.append(t - j.arr_time)
            sh.taken += 1
        for i in range(n):
            if i in changed:
                continue
            s = q.servers[i]
            if i in sh.busy and (s.is_free or s.tsk_on_service is not tsk0[i] or s.time_to_end_service != sh.busy[i][1]):
                bad("C03", f"channel {i} was disturbed by the event")
            if i not in sh.busy and not s.is_free:
                bad("C01", f"channel {i} still occupied after its service ended")
        sh.occupancy()
        # counters
        if q.dropped != sh.dropped:
            bad("C02", f"refused {q.dropped}, required {sh.dropped}")
        if q.queue.size() != len(sh.queue):
            bad("C02", f"{q.queue.size()} waiting, required {len(sh.queue)}")
        if q.arrived != sh.arrived or q.served != sh.served or q.taked != sh.taken:
            bad("C01", f"arrived/served/taken {q.arrived}/{q.served}/{q.taked}, required {sh.arrived}/{sh.served}/{sh.taken}")
        for k in set(sh.p) | set(range(min(len(q.p), max(sh.p) + n + 3))):
            if not close(q.p[k], sh.p.get(k, 0.0)):
                bad("C03", f"time credited to state {k}: {q.p[k]}, required {sh.p.get(k, 0.0)}")
                break
        for prop, nm, got, xs in (("C04", "waiting", q.w, sh.W), ("C04", "sojourn", q.v, sh.V), ("C06", "busy period", q.ppnz, sh.P)):
            for k in (1, 2, 3):
                if not close(got[k - 1], mean(xs, k)):
                    bad(prop, f"{nm} moment {k}: {got[k - 1]}, mean over {len(xs)} samples is {mean(xs, k)}")
                    break
        if len(sh.P) != q.ppnz_moments:
            bad("C06", f"{q.ppnz_moments} busy periods recorded, {len(sh.P)} ended")
        if len(rep.viol) > n0:
            return
    if sh.t > 0:
        try:
            pr = quiet(q.get_p)
            for k in range(max(sh.p) + 3):
                if not close(pr[k], sh.p.get(k, 0.0) / sh.t):
                    bad("C03", f"get_p[{k}] = {pr[k]}, credited time / clock = {sh.p.get(k, 0.0) / sh.t}")
                    break
        except Exception as e:
            bad("C03", f"get_p raised {e!r}")
    rep.distinct.add(tuple(e.split("@")[0] for e in events))
    if len(rep.samples) < 2:
        rep.samples.append({"config": cfg, "interarrival": src[:6], "service": svc[:6], "events": events[:12]})


def run_calls(rep, rnd):
    """run(): stops exactly when the requested number of jobs is served / steps are done"""
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    for n, buf, real, N in ((1, None, True, 7), (2, 1, True, 5), (2, None, False, 9), (1, 0, True, 1)):
        src = [rnd.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(20)]
        svc = [rnd.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(20)]
        data = {"driver": "qs-run", "n": n, "buffer": buf, "run": [N, real], "interarrival": src, "service": svc}
        with scripted():
            q = quiet(QueueingSystemSimulator, n, buffer=buf, verbose=False)
            q.set_sources(Script(src), "X")
            q.set_servers(Script(svc), "X")
        V = q.servers[0].dist
        for s in q.servers:
            s.dist = V
        rep.runs += 1
        try:
            quiet(q.run, N, real)
        except Exception as e:
            rep.add("C03", f"run raised {e!r}", data)
            continue
        if real and q.served != N:
            rep.add("C01", f"run({N}) served {q.served}", data)
        if not close(sum(q.p[:200]), q.ttek):
            rep.add("C03", f"credited {sum(q.p[:200])}, clock {q.ttek}", data)


def battery(props, seed, budget, rep):
    rnd = random.Random(seed)
    import time
    end = time.time() + budget
    pools = [[0.5, 1.0, 1.0, 2.0], [0.0, 1.0, 2.0, 3.0], [0.25, 0.5, 4.0], None]
    run_calls(rep, rnd)
    k = 0
    while time.time() < end and not rep.full():
        k += 1
        n = rnd.choice([1, 1, 2, 3, 5])
        buffer = rnd.choice([None, None, 0, 1, 2, 5])
        bt = rnd.choice(["list", "deque"])
        phases = rnd.random() < (0.7 if {"C05"} & set(props or ALL) else 0.4)
        warm = phases and rnd.random() < .6
        cold = phases and rnd.random() < .7
        delay = cold and rnd.random() < .6

        def draw(scale):
            pool = rnd.choice(pools)
            m = rnd.randint(3, 17)
            if pool is None:
                return [round(rnd.expovariate(1 / scale), 6) for _ in range(m)]
            return [rnd.choice(pool) * scale for _ in range(m)]
        load = rnd.choice([0.4, 0.9, 1.3, 3.0])
        src = draw(1.0)
        if sum(src) == 0:
            src.append(1.0)
        svc = draw(load * n)
        late = k % 9 == 0        # a late clock: whole numbers, so that the arithmetic stays exact
        if late:
            src = [float(rnd.choice([10 ** 10, 3 * 10 ** 10, 10 ** 12]))] + [float(rnd.randint(1, 3)) for _ in range(40)]
            svc = [float(rnd.randint(1, 4)) for _ in range(7)]
        ph = [draw(rnd.choice([0.5, 2.0])) for _ in range(3)]
        if late:
            ph = [[float(rnd.randint(1, 4)) for _ in range(5)] for _ in range(3)]
        scenario(rep, (n, buffer, bt, warm, cold, delay), src, svc, ph, rnd.choice([25, 60]))


def replay(data, rep):
    if data["driver"] == "qs":
        scenario(rep, (data["n"], data["buffer"], data["buffer_type"], data["warm"], data["cold"], data["delay"]),
                 data["interarrival"], data["service"], data["phase_times"], data["steps"])
