#ifndef SIM_MODEL_HPP
#define SIM_MODEL_HPP
#include "BonTMINLP.hpp"
#include "problem.hpp"
#include "world.hpp"
namespace sim {
// The simulated user: implements the public TMINLP callback interface.
class SimModel : public Bonmin::TMINLP {
public:
  const Problem &p; int id;
  std::vector<std::pair<int, int> > jac, hes;
  Bonmin::TMINLP::SosInfo sosI; Bonmin::TMINLP::BranchingInfo br; bool lied;
  int nFinal; int lastStatus; double lastObj; bool lastHasX; std::vector<double> lastX;
  std::vector<double> seen; std::vector<char> nonlin; int told; // last point evaluated; kinds of contract breaks already recorded
  void contract(int tag, int n, const double *x, bool nx, int m, int ne, int wantNe);
  SimModel(const Problem &pp, int ident);
  virtual ~SimModel();
  bool get_nlp_info(Ipopt::Index &n, Ipopt::Index &m, Ipopt::Index &nj, Ipopt::Index &nh, Ipopt::TNLP::IndexStyleEnum &s);
  bool get_variables_types(Ipopt::Index n, VariableType *t);
  bool get_variables_linearity(Ipopt::Index n, Ipopt::TNLP::LinearityType *t);
  bool get_constraints_linearity(Ipopt::Index m, Ipopt::TNLP::LinearityType *t);
  bool get_bounds_info(Ipopt::Index n, Ipopt::Number *xl, Ipopt::Number *xu, Ipopt::Index m, Ipopt::Number *gl, Ipopt::Number *gu);
  bool get_starting_point(Ipopt::Index n, bool ix, Ipopt::Number *x, bool iz, Ipopt::Number *zl, Ipopt::Number *zu, Ipopt::Index m, bool il, Ipopt::Number *l);
  bool eval_f(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Number &o);
  bool eval_grad_f(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Number *g);
  bool eval_g(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Index m, Ipopt::Number *g);
  bool eval_jac_g(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Index m, Ipopt::Index ne, Ipopt::Index *r, Ipopt::Index *c, Ipopt::Number *v);
  bool eval_h(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Number of, Ipopt::Index m, const Ipopt::Number *l, bool nl, Ipopt::Index ne, Ipopt::Index *r, Ipopt::Index *c, Ipopt::Number *v);
  bool eval_gi(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Index i, Ipopt::Number &gi);
  bool eval_grad_gi(Ipopt::Index n, const Ipopt::Number *x, bool nx, Ipopt::Index i, Ipopt::Index &ne, Ipopt::Index *c, Ipopt::Number *v);
  void finalize_solution(Bonmin::TMINLP::SolverReturn st, Ipopt::Index n, const Ipopt::Number *x, Ipopt::Number o);
  const BranchingInfo *branchingInfo() const { return br.size ? &br : NULL; }
  const SosInfo *sosConstraints() const { return sosI.num ? &sosI : NULL; }
  bool hasLinearObjective() { return p.obj.linear(); }
};
}
#endif
