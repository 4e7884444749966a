"""Per-property search profile (generation itself is in sim/cases.cpp)."""
_F = "one case = one generated problem, one swarm-sampled configuration and one fault-free probe run; "
PROFILES = {
    # own: judge's property labels that count; faulted_only: only the schedules after the probe count;
    # ends: whether a crash / hang / livelock is a violation of this property
    "P01": dict(own=("P01",), faulted_only=False, ends=False, level="exploration", quick=(3500, 3), thorough=(30000, 3),
                rule=_F + "then 3 runs with limits, NLP failures and interrupts placed in the probe's history. Non-trivial: a fault fired or at least one node/second NLP was processed; distinct by history hash"),
    "P02": dict(own=("P01", "P02"), faulted_only=False, ends=True, level="exploration", quick=(9000, 0), thorough=(120000, 0),
                rule="one case = one feasible problem, one algorithm and search schedule (branching, node order, diving, warm start, cut and heuristic options, random seed, clock speed). Non-trivial: at least one node or two NLPs; distinct by history hash"),
    "P03": dict(own=("P03",), faulted_only=False, ends=True, level="exploration", quick=(8000, 0), thorough=(120000, 0),
                rule="one case = one problem (70 % infeasible) and one search schedule, as for P02. Non-trivial: at least one node or two NLPs; distinct by history hash"),
    "P04": dict(own=("P04",), faulted_only=False, ends=False, level="exploration", quick=(3500, 3), thorough=(30000, 3),
                rule=_F + "then 3 runs stopped by limits or interrupts or disturbed by NLP failures. Non-trivial: a fault fired or a node was processed; distinct by history hash"),
    "P05": dict(own=None, faulted_only=True, ends=True, level="fault_enumeration", quick=(4000, 3), thorough=(30000, 4),
                rule=_F + "then 3 runs with SIGINT delivered at a seeded seam event (callback, NLP iteration, NLP entry, clock read) of that history. Non-trivial: the signal fired or a node was processed; distinct by history hash"),
    "P06": dict(own=None, faulted_only=True, ends=True, level="fault_enumeration", quick=(4000, 3), thorough=(30000, 4),
                rule=_F + "then 3 runs with a time limit inside the probe's duration, a forward clock jump, a node limit or a solution limit. Non-trivial: a limit, jump or node was reached; distinct by history hash"),
    "P08": dict(own=None, faulted_only=True, ends=True, level="fault_enumeration", quick=(2800, 3), thorough=(30000, 4),
                rule=_F + "then 3 runs in which one seeded NLP solve fails (before or after some iterations, four failure kinds) and retries are allowed. Non-trivial: the failure fired or a node was processed; distinct by history hash"),
    "P10": dict(own=("P10",), faulted_only=False, ends=True, level="exploration", quick=(3500, 3), thorough=(30000, 3),
                rule=_F + "then 3 runs with limits, NLP failures and interrupts. Non-trivial: a fault fired or a node was processed; distinct by history hash"),
    "P12": dict(own=("P12",), faulted_only=False, ends=True, level="exploration", quick=(1200, 3), thorough=(20000, 3),
                rule="one case = one to four solves of different problems and options in one process (one after another, objects kept alive, or all set up first), the last judged against the reference and against the same solve in a fresh process; then 3 runs in which earlier solves are interrupted, fail or see the clock jump. Non-trivial: at least one node or two NLPs; distinct by history hash"),
    "P14": dict(own=("P14",), faulted_only=False, ends=True, level="exploration", quick=(4000, 2), thorough=(120000, 3),
                rule="one case = one problem and one history of 5-60 operations on up to three copies of the NLP interface (bounds, first solves and re-solves, hot starts, clones, warm starts, starting points, feasibility problems); then 2 runs with an NLP failure that the allowed retries outlast. Non-trivial: at least two NLPs; distinct by history hash"),
    "P15": dict(own=("P15",), faulted_only=False, ends=True, level="exploration", quick=(5000, 1), thorough=(120000, 2),
                rule="one case = one problem and one history of operations on the NLP interface with linearisations taken between them; then a run with an NLP failure, recovered or not. Non-trivial: at least two NLPs; distinct by history hash"),
    "P13": dict(own=("P13", "P01"), faulted_only=False, ends=True, level="exploration", quick=(10000, 0), thorough=(120000, 0),
                rule="one case = one problem, one search schedule and a user cutoff below, just above, between or far above the best values. Non-trivial: at least one node or two NLPs; distinct by history hash"),
    "P16": dict(own=("P16",), faulted_only=False, ends=False, level="exploration", quick=(3500, 3), thorough=(30000, 3),
                rule=_F + "then 3 runs with limits, NLP failures and interrupts; every evaluation of the model in every run is judged. Non-trivial: a fault fired or a node was processed; distinct by history hash"),
}
