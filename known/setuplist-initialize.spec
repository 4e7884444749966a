prop P02
prog solve
problem 895363593 0
cost 0.0001 0.0001
budget 5000000
opt bonmin.algorithm B-BB
opt bonmin.num_resolve_at_node 2
opt bonmin.maxmin_crit_no_sol 0
