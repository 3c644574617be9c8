"""C13 on the real network simulator: reference nodes (those of prty_rt) are kept beside the real ones and compared after every event.
Where a job goes next is read off the real network and must have positive probability; frequencies are tested on their own."""
import math
import random
import time

import numpy as np

from common import *
from prty_rt import Ref, Job, mean

KINDS = ("PR", "NP", "RS", "RW", "No")


class NetJob(Job):
    def __init__(self, cls, slot, t):
        super().__init__(slot, t)
        self.cls, self.entered, self.total = cls, t, 0.0

    def enter(self, slot, t):
        self.total += self.waited
        self.k, self.t, self.since, self.waited, self.left = slot, t, None, 0.0, None


def build(cfg, params):
    from most_queue.sim.priority_network import PriorityNetwork
    sleep, time.sleep = time.sleep, lambda *a: None
    try:
        return quiet(PriorityNetwork, cfg["K"], cfg["L"], [np.array(r) for r in cfg["R"]], cfg["n"], cfg["prty"], params, cfg["slots"])
    finally:
        time.sleep = sleep


def locate(q, job):
    """node that holds the job now, -1 if none; -2 if several"""
    found = []
    for i, s in enumerate(q.smos):
        held = [x.tsk_on_service for x in s.servers if not x.is_free]
        for qu in ([s.queue] if s.prty_type == "No" else s.queue):
            held += list(qu)
        found += [i] * sum(1 for x in held if x.k == job.cls and close(x.arr_network, job.entered, 1e-12))
    return -1 if not found else found[0] if len(found) == 1 else -2


def scenario(rep, cfg, src, svc, steps, seed):
    data = {"driver": "net", "config": cfg, "interarrival": src, "service": svc, "steps": steps, "seed": seed}
    events = []
    rep.runs += 1
    K, M = cfg["K"], len(cfg["n"])

    def bad(what):
        rep.add("C13", f"after event {len(events)} ({events[-1] if events else 'start'}): {what}", dict(data, events=list(events)))

    np.random.seed(seed)
    # service parameters: constants that tell node and class
    par = [[{"type": "D", "params": i + 10.0 * k + 1.0} for k in range(K)] for i in range(M)]
    try:
        q = build(cfg, par)
        for i in range(M):
            for s in q.smos[i].servers:
                for k in range(K):
                    d = s.dist[cfg["slots"][i][k]].generate()
                    if not close(float(d), i + 10.0 * k + 1.0):
                        return bad(f"node {i}: service of class {k} (slot {cfg['slots'][i][k]}) takes {d}, its parameter is {i + 10.0 * k + 1.0}")
        if len(q.smos) != M or [len(s.servers) for s in q.smos] != cfg["n"]:
            return bad("nodes or channels are not those asked for")
    except Exception as e:
        return bad(f"construction raised {e!r}")
    S = [Script(x) for x in src]
    V = [[Script(svc[i][k]) for k in range(K)] for i in range(M)]          # by slot
    arrival = []
    for k in range(K):
        q.sources[k] = S[k]
        q.arrival_time[k] = S[k].generate()
        arrival.append(q.arrival_time[k])
    for i in range(M):
        for s in q.smos[i].servers:
            s.dist = V[i]
    N = [Ref(cfg["prty"][i], cfg["n"][i], K, None) for i in range(M)]
    arrived, served, insys = [0] * K, [0] * K, [0] * K
    VN, WN = [[] for _ in range(K)], [[] for _ in range(K)]
    for step in range(steps):
        pend = [("arrival", arrival[k], k, None) for k in range(K)] + [("service", b[1], i, b) for i in range(M) for b in N[i].busy]
        pend.sort(key=lambda x: x[1])
        ev, t, who, b = pend[0]
        if len(pend) > 1 and pend[1][1] - t < 1e-9 * max(1.0, t):
            return
        nS, nV = [len(s.drawn) for s in S], [[len(v.drawn) for v in r] for r in V]
        try:
            quiet(q.run_one_step)
        except Exception as e:
            events.append(f"{ev}@{t:.6g} raised")
            return bad(f"run_one_step raised {e!r}")
        events.append(f"{ev} {'of class' if ev == 'arrival' else 'at node'} {who}@{t:.6g}")
        newV = [[v.drawn[n:] for v, n in zip(r, m)] for r, m in zip(V, nV)]
        used = [[0] * K for _ in range(M)]

        def drawer(i):
            def draw(c):
                used[i][c] += 1
                return newV[i][c][used[i][c] - 1] if used[i][c] <= len(newV[i][c]) else 0.0
            return draw
        if ev == "arrival":
            job, frm = NetJob(who, None, t), -1
            arrived[who] += 1
            insys[who] += 1
        else:
            job, frm = b[0], who
            N[who].to(t, job.k)
            N[who].end(b, drawer(who))
        to = locate(q, job)
        row = cfg["R"][job.cls][frm + 1]
        if to == -2:
            return bad("a job sits in two places")
        if to == -1 and ev == "arrival":
            return bad("the job that arrived is in no node")
        if not row[to if to >= 0 else M] > 0:
            return bad(f"a job of class {job.cls} went from {frm} to {to if to >= 0 else 'outside'}: probability {row[to if to >= 0 else M]}")
        if to >= 0:
            job.enter(cfg["slots"][to][job.cls], t)
            N[to].to(t, job.k)
            N[to].arrival(job.k, drawer(to), job)
        else:
            job.total += job.waited
            served[job.cls] += 1
            insys[job.cls] -= 1
            VN[job.cls].append(t - job.entered)
            WN[job.cls].append(job.total)
        n0 = len(rep.viol)
        if not close(q.ttek, t, 1e-9):
            return bad(f"clock {q.ttek}, required {t}")
        for nm, want in (("arrived", arrived), ("served", served), ("in_sys", insys)):
            if list(getattr(q, nm)) != want:
                bad(f"{nm} {getattr(q, nm)}, required {want}")
        newS = [len(s.drawn) - n for s, n in zip(S, nS)]
        if newS != [int(ev == "arrival" and k == who) for k in range(K)]:
            return bad(f"interarrival times drawn per class {newS}")
        if ev == "arrival":
            arrival[who] = t + S[who].drawn[-1]
        if not all(close(a, c, 1e-9) for a, c in zip(q.arrival_time, arrival)):
            return bad(f"next arrivals {q.arrival_time}, required {arrival}")
        if used != [[len(x) for x in r] for r in newV]:
            return bad(f"service times drawn by node and slot {[[len(x) for x in r] for r in newV]}, required {used}")
        for i, s in enumerate(q.smos):
            busy = sorted((x.tsk_on_service.arr_network, x.tsk_on_service.k, x.time_to_end_service) for x in s.servers if not x.is_free)
            want = sorted((x[0].entered, x[0].cls, x[1]) for x in N[i].busy)
            if len(busy) != len(want) or not all(close(a[0], c[0], 1e-9) and a[1] == c[1] and close(a[2], c[2], 1e-9) for a, c in zip(busy, want)):
                bad(f"node {i} serves (entered, class, until) {busy}, required {want}")
            qs = [s.queue] if s.prty_type == "No" else list(s.queue)
            for c, (g, w) in enumerate(zip(qs, N[i].queues)):
                g = [(x.arr_network, x.k) for x in g]
                if not (len(g) == len(w) and all(close(a, j.entered, 1e-9) and cl == j.cls for (a, cl), j in zip(g, w))):
                    bad(f"node {i} queue {c} holds (entered, class) {g}, required {[(j.entered, j.cls) for j in w]}")
        for k in range(K):
            for m in (1, 2, 3):
                for nm, got, xs in (("sojourn", q.v_network, VN[k]), ("waiting", q.w_network, WN[k])):
                    if not close(got[k][m - 1], mean(xs, m)):
                        bad(f"network {nm} moment {m} of class {k}: {got[k][m - 1]}, mean over {len(xs)} jobs is {mean(xs, m)}")
        if len(rep.viol) > n0:
            return
    try:
        more = sum(q.served) + 3
        limited(q, 20000)
        quiet(q.run, more)
        if sum(q.served) != more or any(a != b + c for a, b, c in zip(q.arrived, q.served, q.in_sys)):
            bad(f"after run({more}): arrived {q.arrived}, served {q.served}, in the network {q.in_sys}")
        # clock at random routing: frequencies of the decisions
        n = 3000
        k, r = seed % K, (seed // 7) % (M + 1)
        row = cfg["R"][k][r]
        cnt = [0] * (M + 1)
        for _ in range(n):
            cnt[q.play_next_node(k, r - 1)] += 1
        for i, p in enumerate(row):
            if p == 0 and cnt[i] or abs(cnt[i] - n * p) > 7 * math.sqrt(n * p * (1 - p)) + 3:
                bad(f"class {k} from node {r - 1}: {cnt[i]} of {n} jobs went to {i}, probability {p}")
                break
    except Exception as e:
        bad(f"run() or routing raised {e!r}")
    rep.distinct.add((tuple(cfg["n"]), K) + tuple(e.split("@")[0] for e in events))
    if len(rep.samples) < 2:
        rep.samples.append({"config": {x: cfg[x] for x in ("K", "n", "prty")}, "events": events[:12]})


def edges(rep, rnd):
    """a uniform number next to 1 and rows whose floating sum stays below 1: still an entry with positive probability"""
    rep.runs += 1
    m = rnd.randint(2, 8)
    raw = [rnd.choice([0.0, rnd.random()]) for _ in range(m + 1)]
    if sum(raw) == 0 or raw[0] == 0:
        raw[0] = 1.0
    row = [x / sum(raw) for x in raw]
    cfg = {"K": 1, "n": [1] * m, "prty": ["PR"] * m, "slots": [[0]] * m, "L": [1.0], "R": [[row] * (m + 1)]}
    try:
        q = build(cfg, [[{"type": "D", "params": 1.0}]] * m)
        orig = np.random.rand
        for u in (0.0, 1 - 2.0 ** -53, rnd.random()):
            np.random.rand = lambda *a, u=u: u
            try:
                i = q.play_next_node(0, rnd.randint(-1, m - 1))
            finally:
                np.random.rand = orig
            if not (0 <= i <= m and row[i] > 0):
                rep.add("C13", f"routed to {i} with probability {row[i] if 0 <= i <= m else None} (row {row}, uniform number {u})", {"driver": "net", "edge": [row, u]})
    except Exception as e:
        rep.add("C13", f"play_next_node raised {e!r} (row {row})", {"driver": "net", "edge": [row, None]})


def battery(props, seed, budget, rep):
    rnd = random.Random(seed)
    end = time.time() + budget
    it = 0
    while time.time() < end and not rep.full():
        it += 1
        K = rnd.choice([1, 2, 2, 3])
        M = rnd.choice([1, 2, 3, 3, 4])
        cfg = {"K": K, "n": [rnd.choice([1, 1, 2, 3]) for _ in range(M)], "prty": [rnd.choice(KINDS) for _ in range(M)],
               "slots": [rnd.sample(range(K), K) for _ in range(M)], "L": [rnd.choice([0.5, 1.0, 2.0]) for _ in range(K)]}
        Rm = []
        for k in range(K):
            rows = []
            for r in range(M + 1):
                raw = [rnd.choice([0.0, rnd.random(), rnd.random()]) for _ in range(M)] + [0.0 if r == 0 else rnd.choice([0.3, 1.0, 2.0])]
                if r == 0 and sum(raw) == 0:
                    raw[rnd.randrange(M)] = 1.0
                rows.append([x / sum(raw) for x in raw])
            Rm.append(rows)
        cfg["R"] = Rm
        load = rnd.choice([0.3, 0.7, 1.2])
        src = [[rnd.expovariate(1.0) for _ in range(rnd.choice([47, 53, 61]))] for _ in range(K)]
        svc = [[[rnd.expovariate(K / load) for _ in range(rnd.choice([43, 59, 67]))] for _ in range(K)] for _ in range(M)]
        scenario(rep, cfg, src, svc, rnd.choice([30, 80, 200]), it * 1000 + seed)
        if it % 4 == 0:
            edges(rep, rnd)


def replay(data, rep):
    if "edge" in data:
        return edges(rep, random.Random(1))
    scenario(rep, data["config"], data["interarrival"], data["service"], data["steps"], data["seed"])
