"""C09-C11 on the real simulators: finite sources, batches, impatience.  A reference state is kept beside the real one and compared
after every event (tie-free random times, so the next event is unique)."""
import random
import time

import numpy as np

from common import *


def mean(xs, k):
    return sum(x ** k for x in xs) / len(xs) if xs else 0.0


class patched_random:
    """the uniform numbers the code draws from the global generators come from a script"""

    def __init__(self, values):
        self.values, self.drawn = list(values), []

    def draw(self, *a, **k):
        if a or k:
            raise RuntimeError("array draw")
        v = self.values[len(self.drawn) % len(self.values)]
        self.drawn.append(v)
        return v

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in ((np.random, "random"), (np.random, "rand"), (np.random, "random_sample"), (random, "random"))]
        for m, n, _ in self.saved:
            setattr(m, n, self.draw)
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def waiting(q):
    x = q.queue
    x = getattr(x, "queue", x)
    return [j.arr_time for j in x]


class Ref:
    """what the specification says the state is"""

    def __init__(self, kind, n, buffer):
        self.kind, self.n, self.buffer = kind, n, buffer
        self.t = 0.0
        self.queue, self.busy = [], []          # (arrival, deadline) / (arrival, end)
        self.arrived = self.served = self.dropped = self.left = 0
        self.W, self.V, self.p = [], [], {}

    @property
    def insys(self):
        return len(self.queue) + len(self.busy)

    def to(self, t):
        self.p[self.insys] = self.p.get(self.insys, 0.0) + t - self.t
        self.t = t

    def admit(self, dur, deadline=None):
        """a job arrives now; dur() draws its service time when it starts"""
        self.arrived += 1
        if len(self.busy) < self.n:
            self.busy.append((self.t, self.t + dur()))
            self.W.append(0.0)
            return "service"
        if self.buffer is not None and len(self.queue) >= self.buffer:
            self.dropped += 1
            return "refused"
        self.queue.append((self.t, deadline))
        return "queue"

    def finish(self, k, dur):
        a, _ = self.busy.pop(k)
        self.served += 1
        self.V.append(self.t - a)
        if self.queue:
            b, _ = self.queue.pop(0)
            self.W.append(self.t - b)
            self.busy.append((b, self.t + dur()))


PROP = {"finite": "C09", "batch": "C10", "impatient": "C11"}


def build(kind, cfg, S, V, G):
    n, buffer = cfg["n"], cfg["buffer"]
    with scripted():
        if kind == "finite":
            from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
            q = quiet(QueueingFiniteSourceSim, n, cfg["m"], buffer=buffer, verbose=False)
        elif kind == "batch":
            from most_queue.sim.batch_sim import QueueingSystemBatchSim
            q = quiet(QueueingSystemBatchSim, n, list(cfg["probs"]), buffer=buffer, verbose=False)
        else:
            from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
            q = quiet(ImpatientQueueSim, n, buffer=buffer, verbose=False)
        q.set_sources(S, "X")
        q.set_servers(V, "X")
        if kind == "impatient":
            q.set_impatiens(G, "X")
        for s in q.servers:
            s.dist = V
    return q


def scenario(rep, kind, cfg, src, svc, pat, us, steps):
    prop = PROP[kind]
    n, buffer = cfg["n"], cfg["buffer"]
    data = {"driver": "sim", "kind": kind, "config": cfg, "interarrival": src, "service": svc, "patience": pat, "uniforms": us, "steps": steps}
    events = []
    rep.runs += 1

    def bad(what):
        rep.add(prop, f"after event {len(events)} ({events[-1] if events else 'start'}): {what}", dict(data, events=list(events)))

    S, V, G = Script(src), Script(svc), Script(pat)
    try:
        q = build(kind, cfg, S, V, G)
    except Exception as e:
        return bad(f"construction raised {e!r}")
    R = Ref(kind, n, buffer)
    want_src = cfg["m"] if kind == "finite" else 1
    if len(S.drawn) != want_src:
        return bad(f"{len(S.drawn)} arrival intervals drawn at the start, required {want_src}")
    arrivals = list(S.drawn)                  # pending arrivals
    sizes = cfg.get("probs")
    U = patched_random(us)
    for step in range(steps):
        pend = [("arrival", a) for a in arrivals] + [("service", e) for _, e in R.busy]
        if kind == "impatient":
            pend += [("deadline", d) for _, d in R.queue]
        if not pend:
            return bad("nothing is pending")
        ts = sorted(t for _, t in pend)
        t = ts[0]
        if len(ts) > 1 and ts[1] - t < 1e-9 * max(1.0, t):
            return                            # tie: the order is not specified
        ev = next(e for e, x in pend if x == t)
        nS, nV, nG, nU = len(S.drawn), len(V.drawn), len(G.drawn), len(U.drawn)
        try:
            with U:
                quiet(q.run_one_step)
        except Exception as e:
            events.append(f"{ev}@{t:.6g} raised")
            return bad(f"run_one_step raised {e!r}")
        events.append(f"{ev}@{t:.6g}")
        newS, newV, newG, newU = S.drawn[nS:], V.drawn[nV:], G.drawn[nG:], U.drawn[nU:]
        it = iter(newV)
        short = []

        def dur():
            x = next(it, None)
            if x is None:
                short.append(1)
                return 0.0
            return x
        R.to(t)
        need_src, need_pat = 0, 0
        if ev == "arrival":
            arrivals.remove(t)
            if kind == "finite":
                if R.admit(dur) == "refused":
                    need_src = 1
            elif kind == "batch":
                need_src = 1
                if len(newU) != 1:
                    return bad(f"{len(newU)} uniform numbers drawn for one batch")
                acc, size = 0.0, None
                for i, pr in enumerate(sizes):
                    acc += pr
                    if newU[0] < acc:
                        size = i + 1
                        break
                for _ in range(size or 0):
                    R.admit(dur)
            else:
                need_src = need_pat = 1
                R.admit(dur, t + (newG[0] if newG else 0.0))
        elif ev == "service":
            k = next(i for i, (_, e) in enumerate(R.busy) if e == t)
            R.finish(k, dur)
            need_src = 1 if kind == "finite" else 0
        else:
            k = next(i for i, (_, d) in enumerate(R.queue) if d == t)
            a, _ = R.queue.pop(k)
            R.left += 1
            R.V.append(t - a)
            R.W.append(t - a)
        # ---- compare
        n0 = len(rep.viol)
        got = (q.arrived, q.served, q.dropped, q.in_sys)
        exp = (R.arrived, R.served + R.left, R.dropped + R.left, R.insys)
        if got != exp:
            bad(f"arrived/served/dropped/in system {got}, required {exp}")
        if not close(q.ttek, t, 1e-9):
            return bad(f"clock {q.ttek}, required {t}")
        if len(newS) != need_src:
            return bad(f"{len(newS)} arrival intervals drawn, required {need_src}")
        if kind == "impatient" and len(newG) != need_pat:
            return bad(f"{len(newG)} patience times drawn, required {need_pat}")
        arrivals += [t + x for x in newS]
        if short or next(it, None) is not None:
            return bad(f"{len(newV)} service times drawn, required {len(newV) + len(short) if short else 'fewer'}")
        w = waiting(q)
        if not (len(w) == len(R.queue) and all(close(x, a, 1e-9) for x, (a, _) in zip(w, R.queue))):
            return bad(f"waiting jobs arrived at {w}, required {[a for a, _ in R.queue]}")
        b = sorted((s.tsk_on_service.arr_time, s.time_to_end_service) for s in q.servers if not s.is_free)
        eb = sorted(R.busy)
        if not (len(b) == len(eb) and all(close(x, y, 1e-9) and close(u, v, 1e-9) for (x, u), (y, v) in zip(b, eb))):
            return bad(f"jobs in service (arrival, end) {b}, required {eb}")
        if q.free_channels != n - len(R.busy):
            bad(f"free_channels {q.free_channels}, required {n - len(R.busy)}")
        if kind == "finite":
            if q.sources_left != cfg["m"] - R.insys:
                bad(f"{q.sources_left} sources thinking with {R.insys} of {cfg['m']} jobs in the system")
            pa = sorted(a for a in q.arrival_times if a < 1e15)
            if not (len(pa) == len(arrivals) and all(close(x, y, 1e-9) for x, y in zip(pa, sorted(arrivals)))):
                bad(f"next arrivals of the thinking sources {pa}, required {sorted(arrivals)}")
        elif not close(q.arrival_time, arrivals[0], 1e-9):
            bad(f"next arrival {q.arrival_time}, required {arrivals[0]}")
        for k in set(R.p) | set(range(min(len(q.p), max(R.p) + n + 3))):
            if not close(q.p[k], R.p.get(k, 0.0)):
                bad(f"time credited to state {k}: {q.p[k]}, required {R.p.get(k, 0.0)}")
                break
        for nm, g, xs in (("waiting", q.w, R.W), ("sojourn", q.v, R.V)):
            for k in (1, 2, 3):
                if not close(g[k - 1], mean(xs, k)):
                    bad(f"{nm} moment {k}: {g[k - 1]}, mean over {len(xs)} jobs is {mean(xs, k)}")
                    break
        if len(rep.viol) > n0:
            return
    if R.t > 0:
        try:
            pr = quiet(q.get_p)
            for k in range(min(len(pr), max(R.p) + 3)):
                if not close(pr[k], R.p.get(k, 0.0) / R.t):
                    bad(f"get_p[{k}] = {pr[k]}, credited time / clock = {R.p.get(k, 0.0) / R.t}")
                    break
            with U:
                more = q.served + 5
                limited(q, 50000)
                quiet(q.run, more)
            if q.served != more:
                bad(f"run({more}) served {q.served}")
            if not close(sum(q.p[:300]), q.ttek):
                bad(f"credited {sum(q.p[:300])}, clock {q.ttek} after run()")
            if q.arrived != q.served - (R.left if False else 0) + q.in_sys + q.dropped and kind != "impatient":
                bad(f"arrived {q.arrived} != served {q.served} + dropped {q.dropped} + in system {q.in_sys} after run()")
        except Exception as e:
            bad(f"report or run() raised {e!r}")
    rep.distinct.add((kind,) + tuple(e.split("@")[0] for e in events))
    if len(rep.samples) < 2:
        rep.samples.append({"kind": kind, "config": cfg, "events": events[:12]})


def battery(props, seed, budget, rep):
    rnd = random.Random(seed)
    kinds = [k for k, p in PROP.items() if p in props] or list(PROP)
    end = time.time() + budget
    it = 0
    while time.time() < end and not rep.full():
        it += 1
        kind = kinds[it % len(kinds)]
        n = rnd.choice([1, 1, 2, 3, 5])
        cfg = {"n": n, "buffer": rnd.choice([None, None, 0, 1, 2, 6])}
        load = rnd.choice([0.4, 0.9, 1.5, 4.0])
        late = it % 7 == 0

        def draw(scale, m=60):
            return [rnd.expovariate(1 / scale) for _ in range(m)]
        src, svc, pat, us = draw(1.0), draw(load * n), draw(rnd.choice([0.3, 2.0, 10.0]) * n), [rnd.random() for _ in range(37)]
        if late:
            src[0] = rnd.choice([2.0 ** 34, 2.0 ** 40])
            src, svc, pat = [[round(x * 64) / 64 + k / 4096 for k, x in enumerate(xs)] for xs in (src, svc, pat)]
        if kind == "finite":
            cfg["m"] = rnd.choice([1, 2, n, n + 1, n + 4])
            if late:
                src = [src[0] + i for i in range(cfg["m"])] + src[1:]
            else:
                src = [x * cfg["m"] for x in src]
        if kind == "batch":
            k = rnd.randint(1, 5)
            ps = [rnd.random() for _ in range(k)]
            ps[-1] = max(ps[-1], 1e-3)
            if k > 1 and rnd.random() < .3:
                ps[0] = 0.0
            cfg["probs"] = [x / sum(ps) for x in ps]
            us = [min(u, 0.999999) for u in us]
            svc = [x / k for x in svc]
        scenario(rep, kind, cfg, src, svc, pat, us, rnd.choice([25, 70]))


def replay(data, rep):
    scenario(rep, data["kind"], data["config"], data["interarrival"], data["service"], data["patience"], data["uniforms"], data["steps"])
