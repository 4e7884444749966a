prop P02
prog solve
problem 685819073 0
cost 0.001 0.001
budget 5000000
opt bonmin.algorithm B-Hyb
opt bonmin.variable_selection most-fractional
opt bonmin.heuristic_dive_MIP_vectorLength yes
