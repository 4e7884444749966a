# found with VERIF_SEED=5, case 1204, schedule 1; history hash a06c02fb0602045e
# crash: process died with signal 6 in abort < Bonmin::BonChooseVariable::updateInformation < CbcModel::solveWithCuts < CbcModel::doOneNode < CbcModel::branchAndBound < Bonmin::Bab::branchAndBound < Bonmin::Bab::operator < sim::programMain
prop P08
prog solve
problem 91118136 1
cost 0.001 0.001
budget 5000000
opt bonmin.algorithm B-BB
opt bonmin.variable_selection qp-strong-branching
fault nlp 5 1 2
