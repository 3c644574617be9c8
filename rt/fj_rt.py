"""C12 on the real fork-join simulators: a reference state is kept beside the real one and compared after every event
(tie-free random times, so the next event is unique)."""
import random
import time

from common import *


def mean(xs, k):
    return sum(x ** k for x in xs) / len(xs) if xs else 0.0


class Job:
    def __init__(self, no, t, parts):
        self.no, self.t, self.parts, self.ended, self.gone = no, t, parts, 0, False


class Ref:
    """what the specification says: queues hold jobs (one entry per waiting subtask), busy maps a channel to (job, end)"""

    def __init__(self, kind, n, k):
        self.kind, self.n, self.k = kind, n, k
        self.t, self.arrived, self.dropped, self.served, self.insys = 0.0, 0, 0, 0, 0
        self.busy = {}
        self.shared = kind not in ("fork-join", "purge")
        self.queues = [[] for _ in range(1 if self.shared else n)]
        self.V, self.p, self.cur, self.jobs = [], {}, None, []

    def to(self, t):
        self.p[self.insys] = self.p.get(self.insys, 0.0) + t - self.t
        self.t = t

    def free(self):
        return [c for c in range(self.n) if c not in self.busy]

    def start(self, c, job, dur):
        self.busy[c] = (job, self.t + dur(c))

    def split(self, dur):
        job = Job(len(self.jobs), self.t, self.n if self.kind in ("fork-join", "purge", "split-join") else self.k)
        self.jobs.append(job)
        self.insys += 1
        if self.kind in ("fork-join", "purge"):
            for c in range(self.n):
                if c in self.busy:
                    self.queues[c].append(job)
                else:
                    self.start(c, job, dur)
        elif self.kind == "split-join":
            if self.insys == 1:
                for c in range(self.n):
                    self.start(c, job, dur)
            else:
                self.queues[0] += [job] * self.n
        else:
            self.part(job, dur)
        return job

    def part(self, job, dur):
        """a subtask of the delta simulator arrives"""
        ok = self.free() and (self.kind == "delta fork-join" or self.current() is job)
        if ok:
            self.start(self.free()[0], job, dur)
        else:
            self.queues[0].append(job)

    def current(self):
        return next((j for j in self.jobs if not j.gone), None)

    def end(self, c, dur):
        job, _ = self.busy.pop(c)
        job.ended += 1
        need = self.n if self.kind == "split-join" else self.k
        if job.ended == need:
            job.gone = True
            self.served += 1
            self.insys -= 1
            self.V.append(self.t - job.t)
            if self.kind == "purge":
                self.busy = {d: x for d, x in self.busy.items() if x[0] is not job}
                self.queues = [[j for j in q if j is not job] for q in self.queues]
        if not self.shared:
            for d in range(self.n):
                if d not in self.busy and self.queues[d]:
                    self.start(d, self.queues[d].pop(0), dur)
        elif self.kind == "split-join":
            if job.gone and self.queues[0]:
                for d in range(self.n):
                    self.start(d, self.queues[0].pop(0), dur)
        elif self.kind == "delta fork-join":
            if self.queues[0]:
                self.start(c, self.queues[0].pop(0), dur)
        else:
            now = self.current()
            for j in list(self.queues[0]):
                if j is now and self.free():
                    self.queues[0].remove(j)
                    self.start(self.free()[0], j, dur)


def build(cfg, S, V):
    n, k, kind, buffer = cfg["n"], cfg["k"], cfg["kind"], cfg["buffer"]
    with scripted():
        if kind.startswith("delta"):
            from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
            q = quiet(ForkJoinSimDelta, n, k, cfg["delta"], is_SJ=kind.endswith("split-join"), buffer=buffer)
        else:
            from most_queue.sim.fj_sim import ForkJoinSim
            q = quiet(ForkJoinSim, n, k, is_SJ=kind == "split-join", is_Purge=kind == "purge", buffer=buffer)
        q.set_sources(S, "X")
        q.set_servers(V, "X")
        for s in q.servers:
            s.dist = V
    return q


def scenario(rep, cfg, src, svc, steps):
    data = {"driver": "fj", "config": cfg, "interarrival": src, "service": svc, "steps": steps}
    events = []
    rep.runs += 1
    kind, n = cfg["kind"], cfg["n"]

    def bad(what):
        rep.add("C12", f"{kind}, after event {len(events)} ({events[-1] if events else 'start'}): {what}", dict(data, events=list(events)))

    S, V = Script(src), Script(svc)
    try:
        q = build(cfg, S, V)
    except Exception as e:
        return bad(f"construction raised {e!r}")
    if len(S.drawn) != 1:
        return bad(f"{len(S.drawn)} arrival intervals drawn at the start, required 1")
    R = Ref(kind, n, cfg["k"])
    arrival = S.drawn[0]
    parts = []                                # (time, job) still to arrive (delta simulator)
    for step in range(steps):
        pend = [("arrival", arrival, None)] + [("service", e, c) for c, (_, e) in R.busy.items()] + [("part", t, j) for t, j in parts]
        pend.sort(key=lambda x: x[1])
        ev, t, who = pend[0]
        if len(pend) > 1 and pend[1][1] - t < 1e-9 * max(1.0, t):
            return
        nS, nV, drops = len(S.drawn), len(V.drawn), q.dropped
        try:
            quiet(q.run_one_step)
        except Exception as e:
            events.append(f"{ev}@{t:.6g} raised")
            return bad(f"run_one_step raised {e!r}")
        events.append(f"{ev}@{t:.6g}")
        newS, newV = S.drawn[nS:], V.drawn[nV:]
        pool = [0]

        def dur(c):
            pool[0] += 1
            return newV[pool[0] - 1] if pool[0] <= len(newV) else 0.0
        R.to(t)
        if ev == "arrival":
            R.arrived += 1
            if q.dropped == drops + 1 and cfg["buffer"] is not None:
                R.dropped += 1
            else:
                job = R.split(dur)
                if kind.startswith("delta"):
                    parts += [(t + i * cfg["delta"], job) for i in range(1, cfg["k"])]
        elif ev == "part":
            parts.remove((t, who))
            R.part(who, dur)
        else:
            R.end(who, dur)
        n0 = len(rep.viol)
        got, exp = (q.arrived, q.served, q.dropped, q.in_sys), (R.arrived, R.served, R.dropped, R.insys)
        if got != exp:
            bad(f"arrived/served/dropped/in system {got}, required {exp}")
        if not close(q.ttek, t, 1e-9):
            return bad(f"clock {q.ttek}, required {t}")
        if len(newS) != (ev == "arrival"):
            return bad(f"{len(newS)} arrival intervals drawn at a {ev} event")
        if newS:
            arrival = t + newS[0]
        if not close(q.arrival_time, arrival, 1e-9):
            bad(f"next arrival {q.arrival_time}, required {arrival}")
        if pool[0] != len(newV):
            return bad(f"{len(newV)} service times drawn, {pool[0]} subtasks start")
        for c, s in enumerate(q.servers):
            if s.is_free != (c not in R.busy):
                bad(f"channel {c} is {'free' if s.is_free else 'busy'}")
                break
            if not s.is_free:
                j, e = R.busy[c]
                if not (close(s.time_to_end_service, e, 1e-9) and close(s.tsk_on_service.arr_time, j.t, 1e-9)):
                    bad(f"channel {c} serves the job of {s.tsk_on_service.arr_time} until {s.time_to_end_service}, required the job of {j.t} until {e}")
                    break
        if len(rep.viol) > n0:
            return
        if q.free_channels != n - len(R.busy):
            bad(f"free_channels {q.free_channels}, required {n - len(R.busy)}")
        qs = [x for x in q.queues] if not R.shared else [getattr(q.queue, "queue", q.queue)]
        for c, (g, w) in enumerate(zip(qs, R.queues)):
            g = [x.arr_time for x in g]
            if not (len(g) == len(w) and all(close(x, j.t, 1e-9) for x, j in zip(g, w))):
                bad(f"queue {c} holds subtasks of the jobs of {g}, required {[j.t for j in w]}")
                break
        for k in range(min(len(q.p), max(R.p) + 4)):
            if not close(q.p[k], R.p.get(k, 0.0)):
                bad(f"time credited to state {k}: {q.p[k]}, required {R.p.get(k, 0.0)}")
                break
        for k in (1, 2, 3):
            if not close(q.v[k - 1], mean(R.V, k)):
                bad(f"sojourn moment {k}: {q.v[k - 1]}, mean over {len(R.V)} jobs is {mean(R.V, k)}")
                break
        if len(rep.viol) > n0:
            return
    try:
        pr = quiet(q.get_p)
        for k in range(min(len(pr), max(R.p) + 3)):
            if not close(pr[k], R.p.get(k, 0.0) / R.t):
                bad(f"get_p[{k}] = {pr[k]}, credited time / clock = {R.p.get(k, 0.0) / R.t}")
                break
        if cfg["buffer"] is not None and cfg["k"] > n:
            return                            # the refusal rule of the code may refuse every job then
        more = q.served + 3
        limited(q, 20000)
        quiet(q.run, more)
        if q.served != more or q.arrived != q.served + q.dropped + q.in_sys:
            bad(f"after run({more}): arrived {q.arrived}, served {q.served}, dropped {q.dropped}, in system {q.in_sys}")
        if not close(sum(q.p[:1000]), q.ttek):
            bad(f"credited {sum(q.p[:1000])}, clock {q.ttek} after run()")
    except Exception as e:
        bad(f"report or run() raised {e!r}")
    rep.distinct.add((kind, n) + tuple(e.split("@")[0] for e in events))
    if len(rep.samples) < 2:
        rep.samples.append({"config": cfg, "events": events[:12]})


KINDS = ("fork-join", "purge", "split-join", "delta fork-join", "delta split-join")


def battery(props, seed, budget, rep):
    rnd = random.Random(seed)
    end = time.time() + budget
    it = 0
    while time.time() < end and not rep.full():
        kind = KINDS[it % 5]
        it += 1
        n = rnd.choice([1, 2, 2, 3, 3, 5])
        k = rnd.randint(1, n) if not kind.startswith("delta") else rnd.choice([1, n, n, n, rnd.randint(1, 2 * n)])
        cfg = {"kind": kind, "n": n, "k": k, "buffer": rnd.choice([None, None, None, 1, 4])}
        load = rnd.choice([0.3, 0.7, 1.2, 3.0])
        src = [rnd.expovariate(1.0) for _ in range(61)]
        svc = [rnd.expovariate(1.0 / load) for _ in range(67)]
        if it % 7 == 0:                       # late in model time
            src[0] = rnd.choice([2.0 ** 34, 2.0 ** 40])
            src, svc = ([round(x * 64) / 64 + i / 4096 for i, x in enumerate(xs)] for xs in (src, svc))
        if kind.startswith("delta"):
            cfg["delta"] = rnd.choice([0.07, 0.4, 2.0]) if it % 7 else 0.4375 + 1 / 65536
        scenario(rep, cfg, src, svc, rnd.choice([20, 60, 120]))


def replay(data, rep):
    scenario(rep, data["config"], data["interarrival"], data["service"], data["steps"])
