prop P03
prog solve
problem 1698353365 0
cost 0.002 0.002
budget 5000000
opt bonmin.algorithm B-Hyb
opt bonmin.variable_selection most-fractional
opt bonmin.feas_check_cut_types Benders
