#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BB, CB = "src/CbcBonmin/BonCbc.cpp", "src/Interfaces/BonOsiTMINLPInterface.cpp"
TESTS = "The shipped test solves one four-variable example once, without interrupts, limits or failures; "
P = []
def prop(id, title, statement, over, text, why, files, mech, state, observe, level, note, technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences, judged against an independent reference model", hook="none: clocks, signal delivery, the NLP solver's virtual entry points and the user model are existing seams"):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=x.strip(), meaning="part of the solve's state this property constrains", where=files[0]) for x in state.split(",")], observe_at=[x.strip() for x in observe.split(";")], hook_needed=hook)), level, note, technique))

prop("P01", "A reported solution is always genuine, whatever happened during the solve",
 "Whenever a solve of a mixed-integer problem delivers a point (in the final report to the user's model or through the solver object's accessors), that point satisfies the variable bounds, integrality and all constraints of the user's model within tolerance. The objective value delivered with it is the user's objective evaluated at exactly that point. This holds for every outcome (success, limit exceeded, interrupt) and after interrupts, limits, clock jumps and recovered failures of continuous subproblems.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "every convex model, algorithm (branch-and-bound, outer approximation, Quesada-Grossmann, hybrid), search option, and sequence of limits, interrupts and recovered NLP failures",
 TESTS + "it never looks at a point delivered by a stopped or disturbed solve",
 [BB, CB, "src/Interfaces/BonTMINLP2TNLP.cpp", "src/CbcBonmin/Heuristics", "src/Algorithms/OaGenerators"],
 [("incumbent hand-over to the user", BB), ("NLP fixing and integrality test of candidate points", "src/Algorithms/OaGenerators/BonOaDecBase.cpp"), ("rounding, diving and pump heuristics", "src/CbcBonmin/Heuristics")],
 "incumbent point and value in the tree search and in the NLP interface", "finalize_solution of the user model; bestSolution/bestObj of the solver object", "exploration",
 "Seeded swarm over problems, algorithms, options and faults; the point and value are re-evaluated with the generated model's own functions. A sample, not a proof; models are small and convex.")

prop("P02", "Claimed success means a global optimum, whatever the search schedule",
 "On a feasible convex mixed-integer problem with bounded variables, an undisturbed solve terminates with success and delivers an optimal point: no feasible point of the model is better by more than the requested tolerances. The answer does not depend on the algorithm (branch-and-bound, outer approximation, Quesada-Grossmann, hybrid), on branching, node-selection, diving, warm-start, cut and heuristic options, on random seeds, or on how fast the machine is.",
 ["inputs", "schedules", "configurations"], "every convex feasible problem, algorithm, search schedule, random seed and machine speed",
 TESTS + "it compares no value with an independently known optimum and samples one schedule",
 [BB, "src/CbcBonmin/BonDiver.cpp", "src/Algorithms/OaGenerators", "src/Algorithms/Branching", CB, "src/Algorithms/BonBonminSetup.cpp"],
 [("tree search and node queues", "src/CbcBonmin/BonDiver.cpp"), ("outer approximation and feasibility cuts", CB), ("integer-point checking and cycling guard", "src/Algorithms/OaGenerators/BonOaFeasChecker.cpp"), ("strong branching and pseudo-costs", "src/Algorithms/Branching/BonChooseVariable.cpp")],
 "node pool, cut pool, cutoff, incumbent", "status and value in the final report", "exploration",
 "Fault-free seeded swarm over schedules, judged against exhaustive integer enumeration with an independent continuous solver. Variable-selection modes and option combinations with recorded known findings are left out of the swarm.")

prop("P03", "Infeasibility is claimed for infeasible problems, and only for them",
 "On an infeasible convex mixed-integer problem with bounded variables an undisturbed solve terminates, claims infeasibility and delivers no point; on a feasible one it never claims infeasibility or unboundedness. This holds for every algorithm (branch-and-bound, outer approximation, Quesada-Grossmann, hybrid), search schedule, cut and heuristic option, random seed and machine speed, whether the continuous relaxation is infeasible too or only the integer problem is.",
 ["inputs", "schedules", "configurations"], "every convex problem, algorithm, search schedule and option",
 TESTS + "it never solves an infeasible problem",
 [BB, CB, "src/CbcBonmin/BonCbcNlpStrategy.cpp", "src/Algorithms/OaGenerators"],
 [("infeasibility cuts and fathoming", "src/Algorithms/OaGenerators/BonOaFeasChecker.cpp"), ("node status after an infeasible NLP", "src/CbcBonmin/BonCbcNlpStrategy.cpp"), ("translation of the search's end into a status", BB)],
 "node pool, cut pool", "status in the final report; mipStatus accessor", "exploration",
 "Fault-free seeded swarm, 70 % infeasible problems, judged against exhaustive enumeration.")

prop("P04", "The best bound never exceeds the true optimum, wherever the solve stops",
 "For a minimisation problem, the best bound the solver object reports after a solve is never above the true optimal value (within tolerance), nor above the value of the point it delivers. This holds whether the solve completed, ran into a time, node or solution limit, was interrupted, or had to recover from failures of continuous subproblems. After a success the bound and the delivered value agree within the requested tolerances.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "every convex feasible model, algorithm, option, stopping point and recovered failure",
 TESTS + "it never reads the bound of a stopped solve",
 [BB, "src/Algorithms/OaGenerators/BonOaDecBase.cpp", "src/CbcBonmin/BonDiver.cpp"],
 [("best possible value over open nodes", "src/CbcBonmin/BonDiver.cpp"), ("bound after a stop", BB)],
 "open node bounds, cutoff", "bestBound and bestObj accessors", "exploration",
 "Seeded swarm over stopping points and faults; the bound is compared with the independently known optimum.")

prop("P05", "An interrupt at any instant stops the solve promptly and honestly",
 "When the user interrupts a running solve (interrupt signal) at any instant, the solve returns normally after a small bounded amount of further work: at most a few more continuous subproblems are started. It reports 'user interrupt' (or the true final answer or limit if that was reached first), never an error or exception; it claims optimality or infeasibility only if that is true. Any solution found before the interrupt is still reported, with its value, and the reported point and bound stay valid.",
 ["crash_points", "schedules", "configurations", "fault_sequences"], "every instant of every solve, for every algorithm and option",
 TESTS + "no signal is ever delivered",
 [BB, CB, "src/Interfaces/Ipopt/BonIpoptSolver.cpp", "src/Interfaces/BonTMINLP2TNLP.cpp", "src/CbcBonmin/Heuristics", "src/Algorithms/OaGenerators"],
 [("signal handler and abort flag", BB), ("abort test between subproblems", CB), ("status after an interrupted search", BB)],
 "abort flag, incumbent, node pool", "return from the solve; status, point and bound; callbacks after the signal", "fault_enumeration",
 "SIGINT is raised synchronously at seeded seam events of the probed history (user callbacks, NLP iterations and entries, clock reads).")

prop("P06", "Time, node and solution limits stop the solve truthfully",
 "With a time, node or solution limit, the solve returns normally soon after the limit is reached on the process clock, also when the clock jumps forward, and never explores more nodes than allowed. It reports 'limit exceeded' only if a limit really was reached, keeps and reports the best solution found before, and claims optimality or infeasibility only if that is true. A limit that is not reached does not change the answer.",
 ["configurations", "schedules", "fault_sequences", "inputs"], "every limit value, algorithm, search schedule and clock behaviour",
 TESTS + "no limit is set and the clock cannot be controlled",
 [BB, "src/Algorithms/OaGenerators", "src/CbcBonmin/Heuristics", "src/Algorithms/BonSubMipSolver.cpp", "src/Algorithms/BonBabSetupBase.cpp"],
 [("remaining-time bookkeeping", BB), ("time checks in decomposition loops", "src/Algorithms/OaGenerators/BonOaDecBase.cpp"), ("sub-MIP limits", "src/Algorithms/BonSubMipSolver.cpp")],
 "start time, node and solution counters", "status, node count, work after the deadline", "fault_enumeration",
 "Virtual clock: limits are placed inside the probed duration, jumps at seeded events.")

prop("P08", "A failing continuous subproblem is retried and does not change the answer",
 "If a continuous subproblem fails once (iteration limit, restoration failure, internal error, requested stop; before or after some iterations) and the user allows retries from other starting points, the solve recovers: it still terminates with the correct final answer, success with an optimal point or infeasibility, and never with an error, an exception or a wrong claim.",
 ["fault_sequences", "configurations", "inputs"], "every position and kind of a single subproblem failure, every algorithm and option",
 TESTS + "the continuous solver never fails there",
 [CB, "src/Interfaces/Ipopt/BonIpoptSolver.cpp", "src/Interfaces/BonTMINLP2TNLP.cpp"],
 [("retry from no warm start and from random points", CB), ("restoring warm start after recovery", CB), ("mapping of solver return codes", "src/Interfaces/Ipopt/BonIpoptSolver.cpp")],
 "warm start, starting point, pretend flags of the NLP interface", "final status and value", "fault_enumeration",
 "The real NLP solver runs, is stopped at a seeded iteration of a seeded call and returns a documented failure status.")

prop("P10", "Every solve ends in exactly one report that agrees with the solver object",
 "Every solve call of a mixed-integer problem that returns or throws has called the model's final report exactly once, and the process neither crashes nor hangs. The reported status, point and value agree with the solver object's accessors: success or infeasibility with the proven status and with or without a point, limit or interrupt with the feasible status if and only if a point is delivered, and an error report exactly when the call throws a solve error.",
 ["schedules", "configurations", "fault_sequences", "inputs"], "every history of limits, interrupts, clock jumps and recovered failures, every algorithm and option",
 TESTS + "it reaches the one 'success' ending",
 [BB, "src/CbcBonmin/BonCbc.hpp", CB], [("final status translation", BB), ("error path", BB)],
 "mip status, incumbent", "calls of finalize_solution; accessors", "exploration",
 "Seeded swarm over all ways of ending a solve.")

prop("P13", "A user's cutoff is honoured exactly",
 "With a user cutoff, an undisturbed solve delivers only points whose value is not worse than the cutoff; if the optimum is better than the cutoff the solve ends in success with an optimal point, and if every feasible point is worse it ends in infeasibility. This holds for every algorithm and search schedule.",
 ["inputs", "configurations", "schedules"], "every cutoff value relative to the optimum, every problem, algorithm and schedule",
 TESTS + "no cutoff is set",
 [BB, "src/Algorithms/OaGenerators", "src/Algorithms/BonBabSetupBase.cpp"], [("cutoff hand-over to tree search and decomposition", BB), ("cutoff use in decomposition", "src/Algorithms/OaGenerators/BonOaDecBase.cpp")],
 "cutoff", "status, point and value", "exploration",
 "Fault-free seeded swarm; cutoffs are placed below, just above and between the known best values.")

NA = []
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
    for p, reason in NA: f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 tools/build.py",
    hooks=dict(guard="none", enable="no source hooks are needed: the simulator compiles /repo's unmodified sources and interposes clocks, signals, file I/O and the NLP solver at link time", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s" % p["id"], thorough_cmd="python3 tools/check.py %s --thorough" % p["id"], technique=t, level=l, level_note=n, evidence_file="evidence/%s.json" % p["id"]) for p, l, n, t in P],
    not_applicable=[dict(property=p["id"], reason=r) for p, r in NA])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
