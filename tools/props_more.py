prop("P12", "A solve's answer does not depend on what the process solved before",
 "A solve in a process that has already run other solves of mixed-integer problems (completed, stopped by a limit, interrupted, ended by a failing subproblem; their objects destroyed or still alive, or all of them set up before the first starts) gives the same kind of answer as in a fresh process: the correct final status, an optimal point or infeasibility, exactly one final report to its own model. An interrupt or limit of an earlier solve does not stop a later one, and a time limit counts only the later solve's own time.",
 ["schedules", "fault_sequences", "inputs", "configurations"], "every sequence of up to four solves of different problems with different algorithms and options, every way an earlier one ended",
 TESTS + "it runs one solve per process, so no state can leak",
 [BB, CB, "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Interfaces/Ipopt/BonIpoptSolver.cpp", "src/Algorithms/BonBabSetupBase.cpp", "src/Algorithms/OaGenerators"],
 [("global interrupt flags and current-model pointers", BB), ("start time of a solve", BB), ("reuse of an Ipopt application", "src/Interfaces/Ipopt/BonIpoptSolver.cpp")],
 "interrupt flags, current model pointers, message handlers, start times", "status, point and value of the last solve; calls of each model's final report", "exploration",
 "Seeded sequences of solves in one process, faults in the earlier ones; the last is judged against the reference model. Copied setup objects are left out (recorded in DESIGN.md).")

prop("P14", "The NLP interface answers for its current bounds, whatever was done to it before",
 "After every history of operations on the interface to the continuous subproblem (OsiTMINLPInterface: single and whole-vector bound changes, first solves, re-solves, repeated re-solves for a better cost, hot starts, saved and restored warm starts, chosen, random and reset starting points, clones, feasibility problems), each solve answers for the bounds set last on that copy and for nothing else: proven optimal exactly when the convex subproblem is feasible and proven infeasible exactly when it is not, with a feasible point of optimal value, that value, the row activities at that point and multipliers satisfying the Karush-Kuhn-Tucker conditions. The bounds read back are those set; a clone starts with its original's bounds, last point, multipliers and activities, and neither influences nor is influenced by it afterwards; a round of hot starts leaves the status as it was before; a distance-minimising feasibility problem (with or without a cutoff on the objective) returns the nearest feasible point and leaves later solves unaffected; and all this still holds after an NLP failure that the allowed retries recover from.",
 ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of interface operations on up to three copies, every convex problem and warm-start, retry and re-solve option, every recovered failure placed in it",
 TESTS + "it uses the interface only through one complete solve and compares no intermediate answer",
 [CB, "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Interfaces/Ipopt/BonIpoptSolver.cpp", "src/Interfaces/Ipopt/BonIpoptWarmStart.cpp", "src/Interfaces/BonTNLP2FPNLP.cpp"],
 [("bounds and solution vectors of the adapter", "src/Interfaces/BonTMINLP2TNLP.cpp"), ("solve, re-solve, retry and hot start", CB), ("feasibility problem", "src/Interfaces/BonTNLP2FPNLP.cpp"), ("warm start objects", "src/Interfaces/Ipopt/BonIpoptWarmStart.cpp")],
 "variable bounds, starting point, warm start, solution vectors, optimisation status", "isProvenOptimal, isProvenPrimalInfeasible, getObjValue, getColSolution, getRowPrice, getRowActivity, getColLower, getColUpper after each operation", "exploration",
 "Seeded operation histories judged after every operation by a reference model (an independent convex solver with infeasibility certificates). Excluded: assignment between interfaces, hot starts under an approximating strong-branching solver.", "deterministic simulation with fault injection: seeded operation histories with NLP failures placed in them, every step checked against an executable reference model")

prop("P15", "Linearisations never cut off a feasible point and are as strong as what they stand for",
 "Every linear row the interface extracts from a convex problem (outer approximation at a given point, at the last solution or of one constraint, with or without the violated-only filter, Benders cut, complete linear relaxation) is satisfied by every feasible point of the model, together with its objective value where the row involves the objective variable. The rows extracted at a point are at least as strong as the first-order approximations of the nonlinear constraints (and, where asked for, of the objective) there. A linear relaxation has all linear rows, the current variable bounds, the integrality of the model and the model's objective or the objective variable. This holds after every history of bound changes, solves and recovered NLP failures, and the constraint violation and objective reported for a given point are correct.",
 ["histories", "inputs", "configurations", "fault_sequences"], "every convex problem, point, combination of the extraction arguments, and history of operations before the extraction",
 TESTS + "no extracted row is looked at, and a slightly wrong one still gives the right optimum on the example",
 [CB, "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Algorithms/OaGenerators"],
 [("outer approximation of all constraints and the objective", CB), ("Benders cut from the last multipliers", CB), ("linear relaxation", CB)],
 "Jacobian structure and values, constraint types, multipliers", "cuts and linear models handed out", "exploration",
 "Seeded operation histories; rows are tested against feasible points found by an independent solver (on and off the boundary) and against the exact first-order approximation at sampled points. Cut strengthening and quadratic cuts are not covered.", "deterministic simulation with fault injection: seeded operation histories with NLP failures placed in them, every extracted row checked against a reference model")

prop("P16", "The user's model is only ever evaluated as its interface promises",
 "Throughout a solve of a mixed-integer problem, whatever the algorithm, options, heuristics, limits, interrupts and recovered subproblem failures, the user's functions are evaluated only as the model interface promises: with the model's own numbers of variables, constraints, Jacobian and Hessian entries; at points made of numbers that respect the original bounds of every variable a function depends on nonlinearly (so that logarithms, roots and quotients stay defined; the half-integral marker that forces branching on an infeasible or unsolved node when the user asks for that is left aside); with the 'same point as before' flag (new_x false) only if the point really equals the one of the previous evaluation, so that a model that caches per point stays correct; and never after the final report.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "every evaluation of every solve, over all problems, algorithms, search options, heuristics, stops and recovered failures",
 TESTS + "its functions are defined everywhere and cache nothing, so a wrong dimension, flag or point goes unnoticed",
 ["src/Interfaces/BonTMINLP2TNLP.cpp", CB, "src/Interfaces/BonTNLP2FPNLP.cpp", "src/CbcBonmin/Heuristics", "src/Algorithms/OaGenerators", BB],
 [("forwarding of the NLP's evaluations to the model", "src/Interfaces/BonTMINLP2TNLP.cpp"), ("feasibility problem with extra rows", "src/Interfaces/BonTNLP2FPNLP.cpp"), ("linearisations taken at rounded or LP points", CB), ("evaluations by rounding, diving and pump heuristics", "src/CbcBonmin/Heuristics")],
 "points at which functions are evaluated, row and nonzero counts of wrapped problems", "arguments of every eval_* call of the user's model", "exploration",
 "Every callback of the generated model compares its arguments with the model and with the previous call; the seeded swarm of P01 supplies the schedules and faults. Points are compared with bounds at 1e-5 relative tolerance (Ipopt relaxes bounds by 1e-8).")
