// Simulated workload: small convex MINLPs with an independent reference
// (integer enumeration x dense barrier method; no Bonmin, Ipopt or Cbc code).
#ifndef SIM_PROBLEM_HPP
#define SIM_PROBLEM_HPP
#include <vector>
#include <string>
#include "world.hpp"
namespace sim {
struct Aff { std::vector<double> a; double b; };
struct Fun { // c0 + c.x + sum q (a.x+b)^2 + sum w exp(a.x+b)   (q,w share sign => convex or concave)
  double c0; std::vector<double> c;
  std::vector<double> q; std::vector<Aff> qa;
  std::vector<double> w; std::vector<Aff> wa;
  Fun() : c0(0) {}
  bool linear() const { return q.empty() && w.empty(); }
  double val(const double *x) const;
  void grad(const double *x, double *g) const;             // dense
  void hess(const double *x, double f, double *H, int n) const; // dense accumulate n*n
  bool uses(int j) const;
  bool usesNl(int j) const;
};
struct Con { Fun f; double lo, up; };
enum VType { V_CON = 0, V_BIN = 1, V_INT = 2 };
struct Problem {
  int n; std::vector<int> type; std::vector<double> lb, ub, x0;
  Fun obj; std::vector<Con> con;
  std::vector<std::vector<int> > sos; // SOS1 sets
  std::vector<int> prio, dir; // optional branching info (empty: none)
  bool fortran;
  // reference
  bool ambiguous; bool feasible; double opt; std::vector<double> xopt;
  double second;      // best objective over *other* integer assignments
  long points, feasPoints; double relax; // continuous relaxation value (with SOS and integrality dropped)
  bool relaxFeasible;
  int nInt() const { int k = 0; for (int j = 0; j < n; j++) k += type[j] != V_CON; return k; }
  double viol(const double *x, std::string *why = NULL) const; // max violation of bounds/constraints/integrality/sos
};
enum Fam { FAM_PLANTED = 1, FAM_SOS = 2, FAM_INFEAS = 4, FAM_NOCON = 8, FAM_PURECONT = 16, FAM_LINOBJ = 32, FAM_PRIO = 64, FAM_LINEAR = 128, FAM_BIG = 256, FAM_INFBND = 512, FAM_DEEP = 1024, FAM_DIR = 2048 };
Problem makeProblem(uint64_t pseed, int fam);
void solveReference(Problem &p);
// continuous problem within a box: 1 feasible (value, point), 0 infeasible, -1 numerically ambiguous
int solveBox(const Problem &p, const std::vector<double> &lb, const std::vector<double> &ub, double &best, std::vector<double> &x);
std::string packProblem(const Problem &p);
Problem unpackProblem(const std::string &t);
std::string describe(const Problem &p);
}
#endif
