"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
S = "most_queue/sim/"; T = "most_queue/theory/"; U = "most_queue/sim/utils/"


def p(i, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=i, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


HIST = ["histories", "configurations"]
p("C01", "Single-stream simulator conserves jobs",
  "In the GI/G/n/r simulator (with or without a buffer limit, list or deque queue, warm-up, cooling and cooling delay), after construction and after every simulated event: arrived = served + dropped + jobs in the system; jobs in the system = jobs waiting + jobs in service; the number of free channels it reports equals the number of channels that are really free and lies between 0 and n; and jobs taken into service = served + in service.",
  HIST, "every number of channels n>=1, every buffer (none or any size >=0), every combination of warm-up/cooling/delay, every sequence of interarrival, service and phase durations",
  "The tests run a handful of random simulations and print estimates; no test looks at the counters, and an off-by-one on one path (drop, end of warm-up) moves the estimates by less than the noise.",
  [S + "qs_sim.py", U + "servers.py", U + "qs_queue.py"],
  [("QueueingSystemSimulator.arrival/serving/on_end_*", S + "qs_sim.py"), ("Server.start_service/end_service", U + "servers.py")],
  [("arrived, served, dropped, in_sys, taked, free_channels", "job counters", S + "qs_sim.py")])
p("C02", "No idle channel while jobs wait; jobs refused only when the buffer is full",
  "In the GI/G/n/r simulator, after every event jobs are waiting only if every channel is busy or a warm-up or cooling period is in progress. The number of waiting jobs never exceeds the buffer size; an arriving job is refused exactly when it has to wait and the buffer is already full, and with no buffer limit no job is ever refused.",
  HIST, "every n, buffer, phase configuration and event sequence",
  "No stable test checks the queue or the channels; they print distribution estimates of a few configurations.",
  [S + "qs_sim.py", U + "qs_queue.py"],
  [("send_task_to_queue / send_task_to_channel", S + "qs_sim.py"), ("end of warm-up / cooling dispatches up to n jobs", S + "qs_sim.py")])
p("C03", "Events are processed in time order and all elapsed time is accounted for",
  "Each step of the GI/G/n/r simulator processes the earliest pending event (service end, arrival, end of warm-up, cooling or cooling delay) and moves the clock exactly to its time, which never decreases, and changes nothing that belongs to another event. The time since the previous event is credited once, to the state probability of the number of jobs present just before the event, so the credited times are non-negative and always add up to the clock, and get_p returns them divided by the clock.",
  HIST, "every reachable state and every assignment of event times, ties included (simulated times below 1e16)",
  "Tests only compare averaged results by eye; a mis-credited interval or an event taken out of order in a rare state (ties, simultaneous phase ends) is invisible in them.",
  [S + "qs_sim.py", U + "phase.py"],
  [("run_one_step", S + "qs_sim.py"), ("p[...] += time - t_old in every event", S + "qs_sim.py")])
p("C04", "First-come first-served order and exact waiting/sojourn statistics",
  "The GI/G/n/r simulator starts service in order of arrival (for both queue types) and every job taken into service is one that arrived, is started once and leaves once. Each served job contributes exactly its departure time minus arrival time to the sojourn statistics and each started job exactly its start time minus arrival time to the waiting statistics; the reported raw moments (orders 1-3) are at every moment the arithmetic means of the powers of those samples.",
  HIST, "every history of arrivals and service times, every n, buffer and phase configuration",
  "Statistical tests cannot see a swapped pair of jobs or one missing/duplicated sample; the means hardly move.",
  [S + "qs_sim.py", U + "stats_update.py", U + "qs_queue.py", U + "servers.py", U + "tasks.py"],
  [("refresh_moments_stat", U + "stats_update.py"), ("QsQueueList/QsQueueDeque append/pop", U + "qs_queue.py"), ("refresh_v_stat/refresh_w_stat", S + "qs_sim.py")])
p("C05", "Warm-up, cooling and cooling-delay periods follow their rules",
  "At most one of warm-up, cooling, cooling delay is in progress and while one is, no channel serves; cooling (or its delay, when set) starts exactly when the last job leaves an empty system, a job arriving during the delay cancels it and is served at once, the end of the delay starts cooling, and the end of cooling starts warm-up if one is set and jobs wait, otherwise dispatches them. With warm-up set, a job arriving to a switched-off empty system starts warm-up and waits, and the end of warm-up sends the waiting jobs to the channels. The reported probability of each period is its accumulated completed duration divided by the clock and the number of starts is counted exactly.",
  HIST, "all eight subsets of {warm-up, cooling, delay} accepted by the API, every n, buffer and event sequence",
  "The tests run three fixed configurations and print; the phase automaton's corner cases (drop during cooling, cooling ending with an empty queue, cancelling the delay) are never asserted.",
  [S + "qs_sim.py", U + "phase.py"],
  [("arrival phase branches", S + "qs_sim.py"), ("serving COLD block", S + "qs_sim.py"), ("on_end_warming/on_end_cold/on_end_cold_delay", S + "qs_sim.py"), ("QsPhase.start/end/get_prob", U + "phase.py")])
p("C06", "Busy-period statistics measure whole periods of full occupancy",
  "In the GI/G/n/r simulator every maximal time interval during which all n channels are occupied is recorded exactly once, when it ends, with its full length (from the moment the last free channel was taken to the moment a channel becomes free with nobody waiting). The reported busy-period moments are the arithmetic means of the powers of those lengths.",
  HIST, "every n, buffer, phase configuration and sequence of interarrival, service and phase times",
  "No stable test looks at the busy-period numbers of the simulator.",
  [S + "qs_sim.py"], [("start_ppnz / refresh_ppnz_stat", S + "qs_sim.py")])
p("C07", "Priority simulator conserves jobs of every class",
  "In the multi-class priority simulator, after every event and for every class: arrived = served + dropped + in system, in system = waiting + in service, waiting jobs of a class sit in that class's queue only, and the busy/free channel counts match the channels. The clock never decreases, elapsed time is credited to the number of jobs of each class present between the events of that class, and the reported sojourn and waiting moments of each class are the means, over its served jobs, of the powers of departure minus arrival time and of the time spent in the queue. A job is refused only when all channels are busy and (disciplines No and NP) the waiting room is full.",
  HIST, "every number of classes and channels, disciplines No/PR/RS/RW/NP, every event sequence",
  "The one test with priorities prints two cases; per-class counters, preemptions across several channels and buffers are not exercised or asserted.",
  [S + "priority_queue_sim.py"],
  [("PriorityQueueSimulator.arrival", S + "priority_queue_sim.py"), ("PriorityQueueSimulator.serving", S + "priority_queue_sim.py"), ("Server.start_service/end_service", S + "priority_queue_sim.py"),
   ("refresh_v_stat/refresh_w_stat/get_p", S + "priority_queue_sim.py")])
p("C08", "Priority discipline",
  "In the priority simulator (class 0 highest) a freed channel takes the head of the highest non-empty class queue (of the one common queue without priorities) and a job waits only while all channels are busy. Under the preemptive disciplines no job waits while a job of a lower class is in service: an arrival that finds all channels busy interrupts a job of the lowest class in service, of those the one that arrived last, if that class is lower than its own. The interrupted job returns to the head of its own queue and later either continues with exactly its remaining time (PR), with a new service time drawn for its class (RS) or with its original time (RW); a warm-up time, if set, replaces the service time only of a job that finds the system empty. Under NP and without priorities a started job is never interrupted, and within a class waiting jobs start in arrival order.",
  HIST, "every number of classes and channels, every discipline, every sequence of arrivals and service times",
  "Tests print averages for two or three classes; a wrong victim or a lost remaining time needs a particular interleaving and barely moves a mean.",
  [S + "priority_queue_sim.py"],
  [("PriorityQueueSimulator.arrival: preemption", S + "priority_queue_sim.py"), ("PriorityQueueSimulator.serving: dispatch", S + "priority_queue_sim.py"), ("Server.start_service with prty_type", S + "priority_queue_sim.py")])
p("C09", "Finite-source simulator conserves its population",
  "In the finite-source simulator, after every event the number of jobs in the system plus the number of sources still thinking equals the number of sources m, jobs in the system = waiting + in service, and arrived = served + dropped + in system. Every thinking source has its own next arrival time, drawn anew when its job leaves the system or is refused; a source whose job is in the system has none, so no arrival can happen while no source is thinking. Elapsed time is credited once to the number of jobs present, and the reported waiting and sojourn moments are means over all started and all served jobs. (Without warm-up and cooling.)",
  HIST, "every m, n, buffer and sequence of interarrival and service times",
  "The Engset test compares rounded averages of one parameter set; a leaked or duplicated source needs a specific path (drop, last source) to show.",
  [S + "queue_finite_source_sim.py"], [("arrival/serving", S + "queue_finite_source_sim.py")])
p("C10", "Batch-arrival simulator conserves jobs and time",
  "In the batch-arrival simulator (without warm-up and cooling) every arrival event brings all jobs of one batch at the same instant, each of them is served immediately, queued or refused (only when the buffer is full), and the conservation laws (arrived = served + dropped + in system, in system = waiting + in service) hold after every event. The time between events is credited exactly once to the number of jobs present in between, and the means reported for waiting and sojourn are over all started and served jobs.",
  HIST, "every batch-size distribution on positive integers, every n, buffer and event sequence",
  "One test compares printed averages of one batch distribution on a single channel.",
  [S + "batch_sim.py", S + "qs_sim.py"], [("arrival", S + "batch_sim.py")])
p("C11", "Impatient-customer simulator: who leaves, when, and conservation",
  "In the simulator with impatient customers (without warm-up and cooling) a waiting job leaves exactly at its patience deadline if its service has not started by then, a job in service never leaves before its end, and a job that left is never served. After every event every arrived job is in the system, was refused at a full buffer, or has left (after service or at its deadline; both are counted as served, refusals and deadline departures as dropped); in system = waiting + in service, elapsed time is credited once to the number of jobs present, waiting moments are means over all jobs that started or gave up and sojourn moments over all that left.",
  HIST, "every n, every sequence of interarrival, service and patience times",
  "One test compares printed means; the interleavings of deadline, departure and arrival events are not asserted.",
  [S + "impatient_queue_sim.py"], [("arrival/serving/drop_task/run_one_step", S + "impatient_queue_sim.py")])
p("C12", "Fork-join simulators: a job completes when its required subtasks do",
  "In the fork-join and split-join simulators (without warm-up) each accepted job is split into n subtasks, one per channel, and every subtask is served at most once: a channel works on one subtask at a time and never serves a subtask of a job that is not in the system. In fork-join the job leaves exactly when the k-th of its subtasks ends; with purging its other subtasks are then withdrawn from queues and channels, without purging they are still served. In split-join the next job starts only when all n subtasks of the previous one are done, and the job leaves when all n are done. Waiting subtasks start in order of arrival, a channel does not idle while its subtask waits (fork-join). Jobs are conserved (arrived = served + in system + refused; a refused job counts as dropped and leaves no trace), sojourn moments are means over the served jobs of departure minus arrival, and state-time credits are non-negative and add up to the clock. The variant with delays between the starts of the subtasks obeys the same rules.",
  HIST, "every n, k<=n, discipline variant (fork-join, split-join, with purging, with start delay), every event sequence",
  "Tests print mean response times of one or two configurations.",
  [S + "fj_sim.py", S + "fj_delta_sim.py", U + "tasks.py"], [("arrival/serving", S + "fj_sim.py"), ("arrival/serving", S + "fj_delta_sim.py")])
p("C13", "Network simulator conserves jobs and routes by the transition matrix",
  "In the priority network simulator a job entering from outside goes to a node drawn by the entry probabilities of its class, and a job finishing at a node moves at the same instant to a node drawn by the row of the transition matrix for that node and its class, or leaves the network when the leave probability is drawn; only entries with positive probability are ever taken. A job keeps its class, sits at every node in the priority slot the node assigns to its class, and is served there with the service parameters given for its class. After every event, for each class, arrived = served + in network, and the jobs in the network are exactly the ones held by the nodes; the next event is the earliest pending one, the clock never decreases, and the network sojourn and waiting moments are the means, over the jobs that left, of departure minus arrival time and of the total time waited at the nodes.",
  HIST, "every network size, transition matrix, node discipline and event sequence",
  "The test runs one network and prints means.",
  [S + "priority_network.py", S + "priority_queue_sim.py"], [("PriorityNetwork.run_one_step", S + "priority_network.py"), ("PriorityNetwork.play_next_node", S + "priority_network.py"),
   ("PriorityQueueSimulator.arrival/serving with a network job", S + "priority_queue_sim.py")])
p("C14", "Sum and difference of random variables: moment algebra",
  "get_moments returns the first raw moments of the sum of two independent random variables (binomial convolution), is symmetric in its arguments and adds nothing when one variable is 0; get_moments_minus is its inverse, and the n-fold self-convolution returns the moments of the sum of n independent copies.",
  ["inputs"], "all moment sequences and all numbers of requested moments and copies supported by the functions",
  "No test calls these functions on their own; they are exercised only through averaged results.",
  ["most_queue/general_utils/conv.py"], [("get_moments/get_moments_minus/get_self_conv_moments", "most_queue/general_utils/conv.py")])
p("C15", "Theoretical moments of the distributions",
  "For each distribution class (exponential, H2, Erlang, Gamma, Cox-2, Pareto, uniform) the method that returns theoretical raw moments returns exactly E[X], E[X^2], E[X^3], ... of the distribution with those parameters; for Pareto only the finite ones.",
  ["inputs"], "all valid parameter values and numbers of moments",
  "Tests print fitted/simulated moments side by side without asserting; one parameter set per class.",
  ["most_queue/rand_distribution.py"], [("calc_theory_moments", "most_queue/rand_distribution.py")])
p("C16", "Fitting parameters to moments is exact",
  "For every distribution class, fitting parameters to given raw moments (or to mean and coefficient of variation) and computing the theoretical moments of the result gives back the moments that the family can match: the first moment for exponential, two for Gamma, Pareto and uniform, three for H2 and Cox-2 (real or complex parameters), mean and the nearest feasible order for Erlang.",
  ["inputs"], "all feasible moment sequences / (mean, coefficient of variation) pairs",
  "Fits are used inside averaged tests only, at two or three coefficients of variation.",
  ["most_queue/rand_distribution.py"], [("get_params*/get_mu_alpha/get_a_k/get_mu", "most_queue/rand_distribution.py")])
p("C17", "Distribution functions are consistent",
  "For the distributions that offer a distribution function, tail or density, the tail and the distribution function are complementary and lie in [0,1] for every argument, are 0/1 below the support, monotone in the argument, and the density is the derivative of the distribution function wherever it exists.",
  ["inputs"], "all valid parameters and all real arguments, the ones outside the support included",
  "No stable test evaluates these functions at chosen points.",
  ["most_queue/rand_distribution.py"], [("get_cdf/get_tail/get_pdf/get_residual_cdf", "most_queue/rand_distribution.py")])
p("C18", "M/G/1 waiting and sojourn moments",
  "For the M/G/1 queue the returned waiting-time moments satisfy the Pollaczek-Khinchine/Takacs recurrence for every order computed, the sojourn moments are those of waiting plus an independent service, and the state probabilities for Gamma, uniform, Pareto service satisfy the embedded-chain balance with p0 = 1 - load.",
  ["inputs"], "all arrival rates and service moments with load below 1, all numbers of states",
  "One test compares three moments with a noisy simulation at one parameter set.",
  [T + "mg1_calc.py"], [("get_w/get_v/get_p", T + "mg1_calc.py")])
p("C19", "Priority M/G/1 formulas",
  "For a single-channel queue with preemptive-resume or non-preemptive priorities the mean waits are the classical (Cobham) ones; the busy-period moments solve pi(s) = b(s + l - l pi(s)); the preemptive moments of active times, waits to the start of service (also in Klimov's closed form) and busy periods solve their transform equations, and do not depend on lower classes; the non-preemptive moments are derivatives at 0 of the classical transform and scale with the unit of time; sojourn is wait plus service (preemptive: plus active time). With one class everything reduces to Pollaczek-Khinchine. Without priorities all classes wait as in the queue with the service time mixed by the arrival rates. The multi-channel approximation multiplies the single-channel waits (service n times faster) by the ratio of the M/G/n to the M/G/1 queue.",
  ["inputs"], "all numbers of classes and all rates and service moments with total load below 1",
  "The test prints one table for two fixed sets of classes.",
  [T + "priority_calc.py"], [("get_w1_pr/get_w1_np/get_v1_*", T + "priority_calc.py")])
p("C20", "M/M/n/r stationary results",
  "For the M/M/n/r queue the returned state probabilities are non-negative, sum to 1 and satisfy the local balance equations; the reported mean queue length is the corresponding average, the loss probability is that of the full state and waiting/sojourn times satisfy Little's law for the rate passed.",
  ["inputs"], "all rates l, mu > 0, n >= 1, r >= 0 (critical load included)",
  "No stable test exercises the class.",
  [T + "mmnr_calc.py"], [("MMnr methods", T + "mmnr_calc.py")])
p("C21", "Engset (finite-source) stationary results",
  "For the finite-source M/M/1 model the returned probabilities sum to 1 and satisfy lambda*(m-j)*p[j] = mu*p[j+1]; the mean number in system and in queue are the corresponding averages, the readiness coefficient is the average share of thinking sources, and mean waiting and sojourn times follow from Little's law with the effective arrival rate.",
  ["inputs"], "all rates and numbers of sources",
  "One test compares rounded values with a simulation for one parameter set.",
  [T + "engset_model.py"], [("Engset methods", T + "engset_model.py")])
p("C22", "Impatience and batch-arrival M/M/1 models satisfy their balance equations",
  "For M/M/1 with exponential patience the returned probabilities satisfy lambda*p[j] = (mu + j*gamma)*p[j+1]-type birth-death balance and sum to 1, and for M/M/1 with batch arrivals the returned probabilities satisfy the global balance equations with the given batch-size distribution and p0 = 1 - load; mean numbers and times reported are the ones implied by these probabilities and Little's law.",
  ["inputs"], "all rates, patience rates and batch-size distributions with a stationary regime",
  "One test each, one parameter set, against a noisy simulation.",
  [T + "impatience_calc.py", T + "batch_mm1.py"], [("get_p/get_N/get_v1", T + "impatience_calc.py"), ("get_p/get_v1", T + "batch_mm1.py")])
p("C23", "Takahashi-Takami models use correct transition-rate matrices",
  "For the multi-channel models solved by the Takahashi-Takami method, the per-level matrices are a transition-rate structure: every entry of the up, down and same-level matrices is a non-negative-real-part rate, the diagonal matrix equals the row sums of the rates leaving each state, up-rates of a state add to the arrival rate below the capacity, and service rates reflect min(jobs, channels) busy channels in their phases.",
  ["inputs", "configurations"], "all n, buffer sizes, rates and H2/Cox service parameters",
  "Tests compare the final averages with simulation for one or two parameter sets.",
  [T + "mgn_tt.py", T + "m_h2_h2warm.py", T + "mmn_with_h2_cold_and_h2_warmup.py", T + "mgn_with_h2_delay_cold_warm.py"], [("build_matrices", T + "mgn_tt.py")])
p("C24", "Numerical differentiation, moment/cumulant conversions and sums of flows are exact algebra",
  "Differentiating a table of 3, 4 or 5 values of a function with constant step gives the exact derivatives (orders 1-3) at the first point of every polynomial of degree up to 2, 3, 4. Raw moments to cumulants and back, and cumulants of an interval to the cumulant rates of the number of events of the renewal flow and back, are inverse to each other and use the exact formulas (orders 1-4), and residual moments are m[k+1]/((k+1) m[1]). Adding two flows by cumulants adds the cumulant rates of the numbers of events (two Poisson flows give a Poisson flow), and adding two H2 flows gives the moments of the interval of the superposition.",
  ["inputs"], "all polynomials up to the degree, all steps and positions; all moment sequences of up to 4 moments; all H2 parameters",
  "Never tested on their own.",
  [T + "utils/diff5dots.py", T + "utils/flow_sum.py"], [("diff5dots", T + "utils/diff5dots.py"), ("SummatorNumeric.get_k/get_a/get_v/get_k_by_v/sum_2_*", T + "utils/flow_sum.py")])
p("C25", "Arrivals during a service time",
  "The helper that returns the probabilities of exactly j Poisson arrivals during a random service time returns, for Gamma and uniform service, the exact integral of the Poisson probability against the service density for every j and any rate, and for deterministic or exponential special cases coincides with the Poisson and geometric laws.",
  ["inputs"], "all rates and parameters, all j",
  "Exercised only through averaged results at rate 1.",
  [T + "utils/q_poisson_arrival_calc.py"], [("get_q_Gamma/get_q_uniform/get_q_Pareto", T + "utils/q_poisson_arrival_calc.py")])
p("C26", "Network calculation solves the traffic equations",
  "In the network calculation the node arrival rates of each class satisfy the traffic balance (external entries plus flow routed from all nodes), total flow leaving equals total flow entering, the load of a node is the sum over classes of rate times mean service over channels, each node is solved with the rates, service moments, channels and discipline of its classes in the order of its priorities, and results are reported for the original class order whatever permutation of priorities a node uses. The sojourn moments of a class in the network are those of the random route through its nodes (to the accuracy of the numerical derivative), with the node's sojourn taken as the Gamma law of its first two moments, and a node's sojourn is wait plus independent service.",
  ["inputs", "configurations"], "every routing matrix with a unique solution (entries 0 or at least 1e-6) in which every node is visited by some class, every priority permutation per node, every class and node count",
  "One test with one network and one permutation.",
  [T + "network_calc.py", T + "priority_calc.py"], [("balance_equation", T + "network_calc.py"), ("network_prty_calc", T + "network_calc.py"), ("get_v_prty_invar", T + "priority_calc.py")])
p("C27", "Maximum-of-n formulas of fork-join theory",
  "The helper for maxima returns the moments of the maximum of n independent times (optionally started one delay after another) by the Gauss-Laguerre rule of its order in units of the mean: the i-th moment is the rule applied to i x^(i-1) (1 - F^n), so it scales with the unit of time, equals the moments of the law for n=1, never decreases with n and gives H_n/mu for exponential times up to the error of the rule. The formulas for fork-join response times (Varma, Nelson-Tantawi, Varki-Merchant, their (n, k) variants and the invariant approximations) agree with their published closed forms: they give M/M/1 for n=1 where they claim to, the exact two-server mean for n=2, the k-th of n is the inclusion-exclusion combination of the maxima, and the invariant approximations scale the exact two-server mean by the n-server over the two-server waits.",
  ["inputs"], "all n and parameters of the law with load below 1",
  "Tests print one table.",
  [T + "fj_calc.py"], [("getMaxMoments and fork-join approximations", T + "fj_calc.py")])
p("C28", "Load factor of a queue from its description",
  "The utilisation reported for a queue equals the arrival rate times the mean service time divided by the number of channels, where arrival rate and mean service time are those of the declared interarrival and service distributions, for every pair of supported distribution types with finite means; for the priority simulator it is the sum of the loads of its classes.",
  ["inputs", "configurations"], "all pairs of supported distribution types and all their parameters",
  "Only the M/H/M pairs are printed in tests.",
  [U + "distribution_utils.py", S + "qs_sim.py", S + "priority_queue_sim.py"], [("calc_qs_load", U + "distribution_utils.py")])
p("C29", "Confidence intervals by Student's law",
  "For every sample size n of at least 5 and each of the levels 0.95, 0.99, 0.999 the Student parameter returned is the two-sided quantile of Student's law with n-1 degrees of freedom at the tabulated sample size nearest to n (5 to 20 one by one, then 25, 30, ..., 50, 60, ..., 100, 120; beyond 120 the normal quantile), to the accuracy of the table (0.012), and the confidence interval is the mean plus and minus that parameter times the standard deviation divided by the square root of n.",
  ["inputs"], "all sample sizes n >= 5, the three levels, all means and standard deviations",
  "Not tested.",
  [T + "utils/student_stat.py"], [("get_ty/get_conf_intervals", T + "utils/student_stat.py")])
p("C30", "Takahashi-Takami iterations converge to the stationary distribution",
  "For every stable configuration the iterative multi-channel solvers terminate and the returned probabilities solve the balance equations within the requested accuracy.",
  ["inputs", "configurations"], "all stable configurations", "Tests cover a few parameter sets.",
  [T + "mgn_tt.py", T + "m_ph_n_prty.py"], [("run", T + "mgn_tt.py")])
p("C31", "Random generators follow their law",
  "Samples produced by each distribution object are independent and follow the declared distribution.",
  ["inputs"], "all parameters and seeds", "Tests look at a few sample means.",
  ["most_queue/rand_distribution.py"], [("generate", "most_queue/rand_distribution.py")])
p("C32", "Simulation estimates agree with the analytical results",
  "For every model offered in both forms, simulation estimates converge to the analytical values as the number of served jobs grows.",
  ["histories", "inputs"], "all parameters, almost all random histories", "Tests print both for one parameter set.",
  [S, T], [("run vs get_w/get_v/get_p", S)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
