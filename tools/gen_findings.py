"""Writes known_findings.json: repaired defects (status fixed, suppress nothing) and recorded ones (status finding)."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIXED = [
    ("C03", "F1", "8714edd", "an idle channel counted as ending its service at time 1e10, so that with a clock beyond 1e10 a step served an idle channel (crash)"),
    ("C06", "F2", "a868651", "busy periods were measured from the last service that took its job from the queue instead of from their start"),
    ("C14", "F3", "fb492ad", "get_moments_minus used the moments of the minuend where those of the difference belong, so it did not undo get_moments"),
    ("C14", "F4", "03faed6", "fewer than three moments: index errors / wrong number of moments"),
    ("C16", "F5", "ce5c6d0", "the exponential fit returned the rate of an Erlang fit (order rounded from the second moment), so the mean was not kept"),
    ("C16", "F6", "20e08a8", "the Erlang fit returned order 0 for large variation (moments then divide by zero or are 0)"),
    ("C16", "F7", "679b2b8", "real H2 fit: absolute tolerance (small moments not matched) and a probability from another iteration than the rates"),
    ("C31", "F8", "9d833c9", "Exp_dist ignored the generator it was given (found while reading; C31 itself is not claimed)"),
    ("C17", "F9", "d7bf51f", "Pareto distribution function, tail and density below the scale parameter left [0, 1]"),
    ("C17", "F10", "f2ecab1", "Gamma density for negative arguments was not 0"),
    ("C25", "F11", "9b3124d", "arrivals during a uniform time were wrong for any rate but 1"),
    ("C20", "F12", "81739d6", "M/M/n/r with load exactly 1 divided by zero"),
    ("C22", "F13", "85ccfe9", "mean batch size of the batch model was wrong"),
    ("C22", "F14", "3b2aaa8", "impatience model cut its sums before the terms decrease (light patience, heavy load)"),
    ("C16", "F15", "c2b8b14", "real H2 fit of exponential moments (coefficient of variation 1 up to rounding) divided by zero or returned zeros; with a third moment too small for H2 it lost the mean"),
    ("C16", "F16", "2aafe2d", "theoretical moments of a fitted (complex) Cox-2 raised TypeError, so fitted parameters could not be turned back into moments"),
    ("C24", "F17", "13fbf0a", "get_k_by_v (third and fourth cumulant) did not invert get_v"),
    ("C28", "F18", "d858819", "load factor with normal intervals or services and with Pareto laws of parameter 1"),
    ("C29", "F19", "b6ca43c", "Student quantiles for sample sizes 20 to 65 and 80 belonged to other sizes"),
    ("C28", "F20", "3166f2f", "the load of the priority simulator was not the sum of the loads of its classes"),
    ("C10", "F21", "23e5530", "batch simulator credited no time to the states between arrivals"),
    ("C10", "F22", "dee7163", "batch simulator with a buffer raised TypeError (len of the queue object)"),
    ("C10", "F23", "5ce02bd", "jobs of a batch served at once were left out of the waiting moments"),
    ("C11", "F24", "bfba7c9", "time before a deadline departure was credited to the wrong state"),
    ("C11", "F25", "309f270", "waiting moments of the impatience simulator were no means (jobs served at once and jobs that gave up were miscounted)"),
    ("C11", "F26", "1703bff", "impatience simulator with a clock beyond 1e10 served or dropped jobs that do not exist"),
    ("C09", "F27", "b6dd114", "finite-source simulator raised TypeError (len of the queue object)"),
    ("C09", "F28", "cc20534", "the source of a refused job never came back"),
    ("C09", "F29", "56770d4", "waiting moments of the finite-source simulator were no means"),
    ("C09", "F30", "4a08131", "finite-source simulator with a clock beyond 1e10 lost its sources"),
    ("C12", "F31", "ebdeb2c", "purging in the fork-join simulator crashed or left cancelled subtasks behind"),
    ("C12", "F32", "52dd249", "fork-join simulator with a clock beyond 1e10 served jobs that do not exist"),
    ("C12", "F33", "def82bf", "simulator with delays passed its buffer as the purge flag"),
    ("C12", "F34", "36f5018", "simulator with delays started services without the model time (TypeError)"),
    ("C12", "F35", "05a0267", "simulator with delays never reduced the number of subtasks in the system"),
    ("C12", "F36", "0f0b6dd", "split-join with delays started the next job between two subtasks of the previous one"),
    ("C12", "F37", "b7ad312", "simulator with delays beyond model time 1e10"),
    ("C12", "F38", "7e24003", "split-join with delays lost waiting subtasks of a job with more parts than free channels"),
    ("C27", "F39", "bf918bb", "moments of a maximum were integrated on nodes not scaled by the mean, and were zero without a delay"),
    ("C27", "F40", "aa421e4", "sign and brackets of the Varma (n, k) approximation"),
    ("C27", "F41", "4f00530", "invariant fork-join approximations mixed up the two-server and the n-server systems"),
    ("C19", "F42", "6363a07", "preemptive moments: second and third moment of the top class were not Pollaczek-Khinchine's, waits of lower classes used the rate of their own class as that of the higher ones"),
    ("C19", "F43", "aa473c2", "fifth moment of busy periods raised TypeError, with warm-up it had wrong brackets"),
    ("C19", "F44", "d63a242", "classes were mixed without their arrival rates (no priorities, multi-channel approximation), once divided by the number of moments"),
    ("C19", "F45", "0aad611", "non-preemptive moments depended on the unit of time (absolute step, derivative not at 0)"),
    ("C19", "F46", "c540503", "second moment of the wait to the start of service (Klimov) was wrong for every class"),
    ("C24", "F47", "756ab2d", "H2 fit near cv=1 and cv=1/sqrt(2) multiplied the moments by complex factors (M/G/n waits off by 40 percent), division by zero at cv=1"),
    ("C08", "F48", "a315c2f", "preemption took the first channel with any lower class, and the interrupted job went to the tail of its queue"),
    ("C08", "F49", "7427fe0", "RS drew the new service time of an interrupted job from the arriving class, RW lost the original time at a second interruption"),
    ("C07", "F50", "cf14ee1", "discipline No: serving crashed on the common queue, taken counted for the class that left, network mode lost waits"),
    ("C07", "F51", "6078e57", "a buffer of 0 was taken as unlimited, NP ignored the buffer"),
    ("C07", "F52", "5f3e8c5", "priority simulators with a clock beyond 1e10 served jobs that do not exist"),
    ("C13", "F53", "f371325", "a non-involutive permutation of priorities at a node gave classes the service parameters of others"),
    ("C13", "F54", "9ca8e17", "when rounding makes the routing row sum to less than 1 the job jumped to node 0"),
    ("C26", "F55", "1dd70be", "a non-involutive permutation of priorities mixed up the classes, swapping back overwrote values"),
    ("C26", "F56", "0e787de", "node load used the unweighted mean of the service times"),
    ("C26", "F57", "7163382", "sojourn moments depended on the unit of time (absolute step, derivative not at 0)"),
    ("C26", "F58", "a4e0249", "a node which a class does not visit: division by zero in the priority formulas"),
]
FINDINGS = []
out = [{"property": p, "id": i, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"} for p, i, c, w in FIXED]
out += FINDINGS
with open(os.path.join(H, "known_findings.json"), "w") as f:
    f.write("[\n" + ",\n".join(" " + json.dumps(x) for x in out) + "\n]\n")
