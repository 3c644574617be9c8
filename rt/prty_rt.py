"""C07, C08 on the real priority simulator: a reference state is kept beside the real one and compared after every event
(tie-free random times, so the next event is unique).  Channels are compared as a set: which free channel a job takes is not claimed."""
import random
import time

from common import *

KINDS = ("No", "PR", "RS", "RW", "NP")
PREEMPT = ("PR", "RS", "RW")


def mean(xs, k):
    return sum(x ** k for x in xs) / len(xs) if xs else 0.0


class Job:
    def __init__(self, k, t):
        self.k, self.t, self.since, self.waited, self.left = k, t, None, 0.0, None


class Ref:
    def __init__(self, kind, n, K, buffer):
        self.kind, self.n, self.K, self.buffer = kind, n, K, buffer
        self.t = 0.0
        self.warm = None
        z = [0] * K
        self.arrived, self.dropped, self.served, self.insys = list(z), list(z), list(z), list(z)
        self.told = [0.0] * K
        self.p = [{} for _ in range(K)]
        self.V, self.W = [[] for _ in range(K)], [[] for _ in range(K)]
        self.busy = []                                  # [job, end, total]
        self.queues = [[] for _ in range(1 if kind == "No" else K)]

    def qi(self, k):
        return 0 if self.kind == "No" else k

    def to(self, t, k):
        self.t = t
        self.p[k][self.insys[k]] = self.p[k].get(self.insys[k], 0.0) + t - self.told[k]
        self.told[k] = t

    def start(self, job, draw):
        d = draw(job.k) if job.left is None else job.left
        self.busy.append([job, self.t + d, d])

    def wait(self, job, head=False):
        job.since = self.t
        q = self.queues[self.qi(job.k)]
        q.insert(0 if head else len(q), job)

    def arrival(self, k, draw, job=None):
        job = job or Job(k, self.t)
        self.arrived[k] += 1
        self.insys[k] += 1
        if len(self.busy) < self.n:
            return self.start(job, self.warm if self.warm and not self.busy else draw)
        if self.kind in PREEMPT:
            lower = [b for b in self.busy if b[0].k > k]
            if lower:
                v = max(lower, key=lambda b: (b[0].k, b[0].t))
                self.busy.remove(v)
                old = v[0]
                old.left = v[1] - self.t if self.kind == "PR" else draw(old.k) if self.kind == "RS" else v[2]
                self.wait(old, head=True)
                return self.start(job, draw)
        if self.buffer is not None and sum(map(len, self.queues)) >= self.buffer:
            self.dropped[k] += 1
            self.insys[k] -= 1
        else:
            self.wait(job)

    def end(self, b, draw):
        self.busy.remove(b)
        job = b[0]
        self.served[job.k] += 1
        self.insys[job.k] -= 1
        self.V[job.k].append(self.t - job.t)
        self.W[job.k].append(job.waited)
        for q in self.queues:
            if q:
                nxt = q.pop(0)
                nxt.waited += self.t - nxt.since
                self.start(nxt, draw)
                break


def build(cfg, S, V, W=None):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    sleep, time.sleep = time.sleep, lambda *a: None
    try:
        with scripted():
            q = quiet(PriorityQueueSimulator, cfg["n"], cfg["K"], cfg["kind"], cfg["buffer"])
            q.set_sources([{"type": "X", "params": s} for s in S])
            q.set_servers([{"type": "X", "params": v} for v in V])
            if W:
                q.set_warm_up([{"type": "X", "params": w} for w in W])
    finally:
        time.sleep = sleep
    return q


# what each kind of difference says about the two properties
BOTH = ("C07", "C08")


def scenario(rep, cfg, src, svc, steps):
    data = {"driver": "prty", "config": cfg, "interarrival": src, "service": svc, "steps": steps}
    events = []
    rep.runs += 1
    kind, n, K = cfg["kind"], cfg["n"], cfg["K"]

    def bad(what, props=BOTH):
        for p in props:
            rep.add(p, f"{kind}, after event {len(events)} ({events[-1] if events else 'start'}): {what}", dict(data, events=list(events)))

    S, V = [Script(x) for x in src], [Script(x) for x in svc]
    Wm = [Script([y * 3 for y in x[::-1]]) for x in svc] if cfg.get("warm") else None
    try:
        q = build(cfg, S, V, Wm)
    except Exception as e:
        return bad(f"construction raised {e!r}")
    if [len(s.drawn) for s in S] != [1] * K:
        return bad(f"{[len(s.drawn) for s in S]} arrival intervals drawn at the start, required one per class")
    R = Ref(kind, n, K, cfg["buffer"])
    arrival = [s.drawn[0] for s in S]
    wseen = [0] * K
    for step in range(steps):
        pend = [("arrival", arrival[k], k) for k in range(K)] + [("service", b[1], b) for b in R.busy]
        pend.sort(key=lambda x: x[1])
        ev, t, who = pend[0]
        if pend[1][1] - t < 1e-9 * max(1.0, t) if len(pend) > 1 else False:
            return
        nS, nV = [len(s.drawn) for s in S], [len(v.drawn) for v in V]
        try:
            quiet(q.run_one_step)
        except Exception as e:
            events.append(f"{ev}@{t:.6g} raised")
            return bad(f"run_one_step raised {e!r}")
        k = who if ev == "arrival" else who[0].k
        events.append(f"{ev} of class {k}@{t:.6g}")
        newS, newV = [s.drawn[i:] for s, i in zip(S, nS)], [v.drawn[i:] for v, i in zip(V, nV)]
        used = [0] * K

        def draw(c):
            used[c] += 1
            return newV[c][used[c] - 1] if used[c] <= len(newV[c]) else 0.0
        R.to(t, k)
        if Wm:
            nw = [len(w.drawn) for w in Wm]
            R.warm = lambda c: Wm[c].drawn[-1] if Wm[c].drawn and nw[c] > wseen[c] else 0.0
        if ev == "arrival":
            R.arrival(k, draw)
        else:
            R.end(who, draw)
        if Wm:
            wseen = [len(w.drawn) for w in Wm]
        n0 = len(rep.viol)
        if not close(q.ttek, t, 1e-9):
            return bad(f"clock {q.ttek}, required {t}")
        for name, want in (("arrived", R.arrived), ("served", R.served), ("dropped", R.dropped), ("in_sys", R.insys)):
            if list(getattr(q, name)) != want:
                bad(f"{name} {getattr(q, name)}, required {want}", ("C07",))
        if [len(x) for x in newS] != [int(ev == "arrival" and c == k) for c in range(K)]:
            return bad(f"arrival intervals drawn per class {[len(x) for x in newS]} at this event")
        if ev == "arrival":
            arrival[k] = t + newS[k][0]
        if not all(close(a, b, 1e-9) for a, b in zip(q.arrival_time, arrival)):
            return bad(f"next arrivals {q.arrival_time}, required {arrival}")
        busy = sorted((s.tsk_on_service.arr_time, s.tsk_on_service.k, s.time_to_end_service) for s in q.servers if not s.is_free)
        want = sorted((b[0].t, b[0].k, b[1]) for b in R.busy)
        same_jobs = len(busy) == len(want) and all(close(a[0], b[0], 1e-9) and a[1] == b[1] for a, b in zip(busy, want))
        if q.free_channels != n - len(busy):
            bad(f"free_channels {q.free_channels} with {len(busy)} busy channels", ("C07",))
        if not same_jobs:
            bad(f"jobs in service (arrival, class): {[x[:2] for x in busy]}, required {[x[:2] for x in want]}")
        elif not all(close(a[2], b[2], 1e-9) for a, b in zip(busy, want)):
            bad(f"services end at {[x[2] for x in busy]}, required {[x[2] for x in want]}", ("C08",))
        if used != [len(x) for x in newV]:
            bad(f"service times drawn per class {[len(x) for x in newV]}, required {used}", ("C08",))
        qs = [q.queue] if kind == "No" else list(q.queue)
        for i, (g, w) in enumerate(zip(qs, R.queues)):
            g = [(x.arr_time, x.k) for x in g]
            if not (len(g) == len(w) and all(close(a, j.t, 1e-9) and c == j.k for (a, c), j in zip(g, w))):
                bad(f"queue {i} holds (arrival, class) {g}, required {[(j.t, j.k) for j in w]}")
                break
        for i in range(K):
            row = q.p[i]
            for j in range(min(len(row), max(R.p[i], default=0) + 4)):
                if not close(row[j], R.p[i].get(j, 0.0)):
                    bad(f"time credited to {j} jobs of class {i}: {row[j]}, required {R.p[i].get(j, 0.0)}", ("C07",))
                    break
            for m in (1, 2, 3):
                for nm, got, xs in (("sojourn", q.v, R.V[i]), ("waiting", q.w, R.W[i])):
                    if not close(got[i][m - 1], mean(xs, m)):
                        bad(f"{nm} moment {m} of class {i}: {got[i][m - 1]}, mean over {len(xs)} jobs is {mean(xs, m)}", ("C07",))
        if len(rep.viol) > n0:
            return
    try:
        if cfg.get("report"):
            pr = quiet(q.get_p)
            for i in range(K):
                for j in range(min(len(pr[i]), max(R.p[i], default=0) + 3)):
                    if not close(pr[i][j], R.p[i].get(j, 0.0) / R.t):
                        bad(f"get_p[{i}][{j}] = {pr[i][j]}, credited time / clock = {R.p[i].get(j, 0.0) / R.t}", ("C07",))
                        break
        more = sum(q.served) + 3
        limited(q, 20000)
        quiet(q.run, more)
        bal = [a == b + c + d for a, b, c, d in zip(q.arrived, q.served, q.dropped, q.in_sys)]
        if sum(q.served) != more or not all(bal):
            bad(f"after run({more}): arrived {q.arrived}, served {q.served}, dropped {q.dropped}, in system {q.in_sys}", ("C07",))
    except Exception as e:
        bad(f"report or run() raised {e!r}", ("C07",))
    rep.distinct.add((kind, n, K) + tuple(e.split("@")[0] for e in events))
    if len(rep.samples) < 2:
        rep.samples.append({"config": cfg, "events": events[:12]})


def battery(props, seed, budget, rep):
    rnd = random.Random(seed)
    end = time.time() + budget
    it = 0
    while time.time() < end and not rep.full():
        kind = KINDS[it % 5]
        it += 1
        n = rnd.choice([1, 1, 2, 2, 3, 4])
        K = rnd.choice([1, 2, 2, 3, 3, 4])
        cfg = {"kind": kind, "n": n, "K": K, "buffer": rnd.choice([None, None, None, 0, 1, 4]), "report": it % 8 == 0, "warm": it % 6 == 0}
        load = rnd.choice([0.4, 0.8, 1.2, 2.5])
        src = [[rnd.expovariate(1.0) for _ in range(rnd.choice([47, 53, 61]))] for _ in range(K)]
        svc = [[rnd.expovariate(K / (load * n)) for _ in range(rnd.choice([43, 59, 67]))] for _ in range(K)]
        if it % 9 == 0:                       # late in model time
            big = rnd.choice([2.0 ** 30, 2.0 ** 36])
            for i, xs in enumerate(src):
                xs[0] = big + i
                src[i] = [round(x * 64) / 64 + (j + 64 * i) / 2 ** 14 for j, x in enumerate(xs)]
            svc = [[round(x * 64) / 64 + (j + 64 * i) / 2 ** 15 + 2.0 ** -17 for j, x in enumerate(xs)] for i, xs in enumerate(svc)]
        scenario(rep, cfg, src, svc, rnd.choice([20, 60, 150]))


def replay(data, rep):
    scenario(rep, data["config"], data["interarrival"], data["service"], data["steps"])
