"""Which proof units, executable contracts and functions decide which property."""

TRUST = ["pyvc: this directory's verification-condition generator and its encoding of the Python subset (exact integers and reals)",
         "z3 4.x / cvc5 1.1.2 / the ring normaliser (sympy)", "CPython ast parser"]
ASSUME_SIM = [
    "floating-point arithmetic of the simulator treated as exact real arithmetic",
    "simulated times stay below 1e16 (idle channels and inactive phases are represented by that time)",
    "fewer than num_of_states jobs in the system (the state table is a fixed-size list)",
    "np.argmin returns the first index of the least element; tqdm/print/colorama have no effect on the simulator state",
]


def qs_units(prop):
    out = []
    confs = [(None, "QsQueueList"), ("int", "QsQueueList"), ("int", "QsQueueDeque")]
    for b, q in confs:
        for ev in ("arrival", "serving", "warm", "cold", "delay", "step", "establish"):
            out.append(dict(name=f"{ev} buffer={b} {q}", module="contracts.qs", args=[prop, ev, b, q]))
    if prop == "C01":
        out.append(dict(name="run", module="contracts.qs", args=[prop, "run_loop", "int", "QsQueueList"]))
    if prop in ("C03", "C05"):
        out.append(dict(name="getters", module="contracts.qs", args=[prop, "getters", None, "QsQueueList"]))
    if prop in ("C04", "C06"):
        out.append(dict(name="refresh_moments_stat", module="contracts.qs", args=[prop, "refresh_leaf"]))
    out.append(dict(name="counting lemmas", module="contracts.qs", args=[prop, "lemmas"]))
    return out


PROPS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    PROPS[_p] = dict(units=qs_units, rt=["qs_rt"], assumptions=ASSUME_SIM)

# ------------------------------------------------------------------------------------------ analytical part
ASSUME_TH = [
    "floating-point arithmetic of the formulas treated as exact real arithmetic (complex parameters: as elements of a field)",
    "math.exp/pow/sqrt/gamma/factorial satisfy their defining identities (functional equations listed in pyvc/interp.py)",
]


def simple(module, units):
    return lambda prop: [dict(name=u, module="contracts." + module, args=[u]) for u in units]


def theory(prop, units, module=None, note=None, assumptions=(), **kw):
    PROPS[prop] = dict(units=simple(module or prop.lower(), units), rt=["theory_rt"], assumptions=ASSUME_TH + list(assumptions),
                       note=note or NOTE_TH, **kw)


NOTE_TH = ("every obligation generated from the current source is discharged over exact reals, for all parameter values; where a number of moments, "
           "states or classes is part of the input the units say whether it is symbolic (any number) or one of the listed values (bounded in that number only); "
           "executable contracts on random inputs (bounded, tolerance comparison) supply failing inputs")
theory("C14", ("sum", "difference", "self"))
theory("C15", ("uniform", "H2", "Erlang", "Gamma", "Exp", "Cox", "Pareto"))
theory("C16", ("gamma", "gamma corrected", "pareto", "uniform", "erlang", "exp", "H2 complex", "cox", "by mean and cv"),
       assumptions=["the iterative real H2 fit (H2_dist.get_params) is checked by bounded runs only: its convergence is not a contract the solvers discharge",
                    "np.linalg.solve returns a solution of the system"])
theory("C17", ("Uniform", "H2", "Pareto", "Erlang", "Gamma"), assumptions=["scipy.stats.gamma.cdf and scipy.special.gamma are what they say"])
theory("C18", ("wait", "sojourn", "states"))
theory("C25", ("gamma", "uniform", "pareto"))
theory("C20", ("states", "loss", "queue", "times"))
theory("C21", ("states", "averages", "times", "transform", "moments"))
theory("C22", ("impatience states", "impatience means", "batch states", "batch means", "batch lemma"),
       assumptions=["the state lists are cut where the code's tolerance stops them; that the tail left out is small is checked by bounded runs"])
theory("C24", ("differences", "cumulants", "flows", "superposition"))
PROPS["C19"] = dict(units=lambda p: [dict(name=" ".join(map(str, a)), module="contracts.c19", args=list(a)) for a in
                                      [("means", k) for k in (1, 2, 3, 4)] + [("busy",)] + [("preemptive", k, m) for k in (1, 2, 3, 4) for m in (2, 3)]
                                      + [("preemptive", 2, 3, 1), ("preemptive", 3, 3, 1)] + [("climov", k) for k in (1, 2, 3)] + [("no priority",)]
                                      + [("non-preemptive", k) for k in (1, 2, 3, 4)] + [("sums",)] + [("invariant", k) for k in (1, 2, 3)] + [("H2 transform",)]],
                    rt=["theory_rt"], assumptions=ASSUME_TH + [
    "1 to 4 classes in the proofs; that the active times load the server with less than 1 (divisors in calc_pr1 for two and more classes) follows from the total load and is assumed",
    "non-preemptive moments are numerical derivatives of the transform: the transform's values at the points are proved, the error of the derivative is measured by bounded runs",
    "the Takahashi-Takami solver and M/G/1 probabilities used by the multi-channel approximation are taken by contract (C18, C23)"])
PROPS["C27"] = dict(units=lambda p: [dict(name=f"maximum {k} n={n}", module="contracts.c27", args=["maximum", k, n]) for k in ("erl", "h2", "gamma") for n in (1, 2, 3, 4, 5)]
                    + [dict(name=f"maximum delta n={n}", module="contracts.c27", args=["maximum delta", n]) for n in (1, 2, 3, 4)]
                    + [dict(name=w, module="contracts.c27", args=[w]) for w in ("monotone", "combinatorics", "approximations", "n k", "invariant", "invariant general", "branch maximum")],
                    rt=["theory_rt"], assumptions=ASSUME_TH + [
    "parameter fits and distribution functions of the laws are taken by contract (C16, C17): fitted to the moments given, values in [0, 1]",
    "the quadrature's truncation error is not bounded by proof: nodes and weights are checked to be those of the Gauss-Laguerre rule and its error is measured by bounded runs",
    "the numbers of branches in the proofs are 1 to 5"])
theory("C28", ("pairs", "single", "priority"))
PROPS["C26"] = dict(units=lambda p: [dict(name=f"balance {n} {q}", module="contracts.c26", args=["balance", n, q]) for n in (1, 2, 3, 4) for q in range(4)]
                    + [dict(name=f"network {i}", module="contracts.c26", args=["net", i]) for i in range(5)]
                    + [dict(name=f"node sojourn {k}", module="contracts.c26", args=["nodev", k]) for k in (1, 2, 3)],
                    rt=["theory_rt"], assumptions=ASSUME_TH + [
    "numpy.linalg.inv(A) times B is a solution X of A X = B and the matrices are regular (every class can leave the network from every node it visits)",
    "1 to 4 nodes in the proof of the balance (entries 0 or at least 1e-6, listed patterns of zeros including every set of nodes out of reach), 1 to 2 nodes and 1 to 3 classes in the proof of the calculation",
    "the waits in a node (get_w_prty_invar), the Gamma fit and its transform, and numerical differentiation are taken by contract (C19, C16, C24)",
    "every node is visited by some class"])
theory("C29", ("quantiles", "interval"), assumptions=["scipy.stats.t/norm quantiles are the oracle of the tabulated values"])

# ------------------------------------------------------------------------------------------ the other simulators


def sim_units(module, events, extra=()):
    def f(prop):
        out = []
        for b in (None, "int"):
            for ev in events + ("establish",):
                out.append(dict(name=f"{ev} buffer={b}", module="contracts." + module, args=[ev, b]))
        out.append(dict(name="run", module="contracts." + module, args=["run_loop", "int"]))
        out.append(dict(name="get_p", module="contracts." + module, args=["getters", None]))
        out += [dict(name=n, module="contracts." + module, args=[n]) for n in extra]
        out.append(dict(name="refresh_moments_stat", module="contracts.qs", args=["C04", "refresh_leaf"]))
        out.append(dict(name="counting lemmas", module="contracts.qs", args=["C04", "lemmas"]))
        return out
    return f


for _p, _u in (("C09", sim_units("c09", ("arrival", "serving", "step"), ("lemmas",))), ("C10", sim_units("c10", ("arrival", "serving", "step"), ("cdf",))),
               ("C11", sim_units("c11", ("arrival", "serving", "drop", "step")))):
    PROPS[_p] = dict(units=_u, rt=["sim_rt"], assumptions=ASSUME_SIM)


def fj_units(prop):
    out = []
    for kind in ("fork-join", "purge", "split-join"):
        for n in (1, 2, 3):
            big = kind == "purge" and n == 3
            evs = ["arrival", "arrival int", "establish", "establish int", "step"] + [f"serving{c}" for c in range(n)]
            for ev in evs:
                what, b = (ev.split() + [None])[:2]
                out.append(dict(name=f"{kind} n={n} {ev}", module="contracts.c12", args=[what, kind, n, b], thorough=big and ev in ("serving0", "serving1")))
    out.append(dict(name="run", module="contracts.c12", args=["run_loop", "split-join", 2, None]))
    out.append(dict(name="run fork-join", module="contracts.c12", args=["run_loop", "fork-join", 1, None], thorough=True))
    out.append(dict(name="get_p", module="contracts.c12", args=["getters", "fork-join", 2, None]))
    out.append(dict(name="refresh_v_stat", module="contracts.c12", args=["v_leaf"]))
    out.append(dict(name="counting lemmas", module="contracts.qs", args=["C04", "lemmas"]))
    return out


PROPS["C12"] = dict(units=fj_units, rt=["fj_rt"], assumptions=ASSUME_SIM[:4] + [
    "number of channels is 1, 2 or 3 in the proofs (bounded in that number; everything else is arbitrary)",
    "fork-join with delays between the subtasks (sim/fj_delta_sim.py) is covered by bounded runs only: its filtered queue comprehensions are outside the verified subset",
    "the refusal rule with a finite buffer is taken as the code defines it: a refused job is counted and leaves no trace"])


# (channels, classes, buffer) of the quick check; the thorough one takes all of them
PRTY = [(1, 1, "int"), (1, 2, None), (2, 2, None), (2, 3, "int"), (3, 2, "int")]
PRTY_MORE = [(1, 1, None), (1, 2, "int"), (2, 2, "int"), (2, 3, None), (3, 2, None)]


def prty_units(prop):
    out = []
    for kind in ("No", "PR", "RS", "RW", "NP"):
        for n, k, b in PRTY + PRTY_MORE:
            for ev in ["step", "establish"] + [f"arrival{i}" for i in range(k)] + [f"serving{c}" for c in range(n)]:
                out.append(dict(name=f"{ev} {kind} n={n} K={k} buffer={b}", module="contracts.c07", args=[prop, ev, kind, n, k, b], thorough=(n, k, b) in PRTY_MORE))
    if prop == "C07":
        for k in (1, 2):
            out.append(dict(name=f"get_p K={k}", module="contracts.c07", args=[prop, "getters", "PR", 1, k]))
        out.append(dict(name="refresh_v_stat/refresh_w_stat", module="contracts.c07", args=[prop, "leaves"]))
        out.append(dict(name="counting lemmas", module="contracts.c07", args=[prop, "lemmas"]))
    return out


for _p in ("C07", "C08"):
    PROPS[_p] = dict(units=prty_units, rt=["prty_rt"], assumptions=ASSUME_SIM + [
        "numbers of channels and classes (n, K) are (1,1), (1,2), (2,2), (2,3), (3,2) in the proofs (bounded in these two numbers only; histories, times, queue lengths and the buffer are arbitrary)",
        "a preempted job returns to its queue even when the waiting room is full (what the buffer should mean then is not claimed)"])


def net_units(prop):
    out = []
    for kind in ("No", "PR", "RS", "RW", "NP"):
        for n, k in ((1, 1), (1, 2), (2, 2), (2, 3)):
            for ev in ["establish"] + [f"arrival{i}" for i in range(k)] + [f"serving{c}" for c in range(n)]:
                out.append(dict(name=f"node {ev} {kind} n={n} K={k}", module="contracts.c07", args=["", ev, kind, n, k, None, "net"], thorough=(n, k) == (2, 3)))
    for chan, k in (("1", 1), ("1,2", 2), ("1,1,1", 2), ("2,1", 3)):
        for what in ("step", "establish"):
            out.append(dict(name=f"network {what} channels {chan} K={k}", module="contracts.c13", args=[what, chan, k], thorough=k == 3))
    out.append(dict(name="run", module="contracts.c13", args=["run_loop", "1,1", 2]))
    out.append(dict(name="play_next_node", module="contracts.c13", args=["routing"]))
    out.append(dict(name="refresh_v_stat/refresh_w_stat", module="contracts.c13", args=["leaves"]))
    out.append(dict(name="node refresh_v_stat/refresh_w_stat", module="contracts.c07", args=["C07", "leaves"]))
    out.append(dict(name="counting lemmas", module="contracts.c07", args=["C07", "lemmas"]))
    return out


PROPS["C13"] = dict(units=net_units, rt=["net_rt"], assumptions=ASSUME_SIM + [
    "the routing function is proved for any number of nodes and classes; nodes have (n, K) = (1,1), (1,2), (2,2), networks have channels (1), (1,2), (1,1,1) with 1 or 2 classes in the quick proofs; (2,3) and (2,1) with 3 classes in the thorough ones",
    "rows of the transition matrices are non-negative and not all zero, the entry row has no direct exit, the priority slots of a node are a permutation of the classes",
    "interarrival times of the sources are positive (an arrival at time 0 exactly is taken for a call outside a network)"])
