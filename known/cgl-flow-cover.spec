# found with VERIF_SEED=1, case 1463, schedule 0; history hash 1985604434007238
# crash: process died with signal 6 in abort < CglFlowCover::generateOneFlowCut < CglFlowCover::generateCuts < CbcCutGenerator::generateCuts < CbcModel::serialCuts < CbcModel::solveWithCuts < CbcModel::branchAndBound < Bonmin::Bab::branchAndBound
prop P02
prog solve
problem 51458390 0
cost 0.0040000000000000001 0.0040000000000000001
budget 5000000
opt bonmin.algorithm B-Hyb
opt bonmin.variable_selection osi-strong
