#include "model.hpp"
#include <algorithm>
#include <cstring>
#include <cmath>
#include <limits>
using namespace Ipopt;
namespace sim {
SimModel::SimModel(const Problem &pp, int ident) : p(pp), id(ident), lied(false), nFinal(0), lastStatus(-1), lastObj(0), lastHasX(false), told(0) {
  int n = p.n;
  for (size_t i = 0; i < p.con.size(); i++) for (int j = 0; j < n; j++) if (p.con[i].f.uses(j)) jac.push_back(std::make_pair((int)i, j));
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
    bool u = false;
    auto chk = [&](const Fun &f) {
      for (auto &a : f.qa) if (a.a[i] != 0 && a.a[j] != 0) u = true;
      for (auto &a : f.wa) if (a.a[i] != 0 && a.a[j] != 0) u = true;
    };
    chk(p.obj); for (auto &c : p.con) chk(c.f);
    if (u) hes.push_back(std::make_pair(i, j));
  }
  nonlin.resize(n); for (int j = 0; j < n; j++) { int u = p.obj.usesNl(j) ? 1 : 0; for (auto &c : p.con) if (c.f.usesNl(j)) u |= 2; nonlin[j] = (char)u; }
  sosI.num = (int)p.sos.size();
  if (sosI.num) {
    sosI.types = new char[sosI.num]; sosI.priorities = new int[sosI.num]; sosI.starts = new int[sosI.num + 1];
    int nz = 0; for (auto &S : p.sos) nz += (int)S.size();
    sosI.numNz = nz; sosI.indices = new int[nz]; sosI.weights = new double[nz];
    int k = 0;
    for (int s = 0; s < sosI.num; s++) {
      sosI.types[s] = 1; sosI.priorities[s] = 0; sosI.starts[s] = k;
      for (size_t t = 0; t < p.sos[s].size(); t++) { sosI.indices[k] = p.sos[s][t]; sosI.weights[k] = (double)t + 1; k++; }
    }
    sosI.starts[sosI.num] = k;
  }
  if (!p.dir.empty()) { br.size = n; br.branchingDirections = new int[n]; for (int j = 0; j < n; j++) br.branchingDirections[j] = p.dir[j]; }
  if (!p.prio.empty()) { br.size = n; br.priorities = new int[n]; for (int j = 0; j < n; j++) br.priorities[j] = p.prio[j]; }
}
SimModel::~SimModel() {}
bool SimModel::get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, TNLP::IndexStyleEnum &s) {
  n = p.n; m = (Index)p.con.size(); nj = (Index)jac.size(); nh = (Index)hes.size(); s = p.fortran ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE; return true;
}
bool SimModel::get_variables_types(Index n, VariableType *t) { for (int j = 0; j < n; j++) t[j] = p.type[j] == V_CON ? CONTINUOUS : p.type[j] == V_BIN ? BINARY : INTEGER; return true; }
bool SimModel::get_variables_linearity(Index n, TNLP::LinearityType *t) {
  for (int j = 0; j < n; j++) { bool nl = p.obj.usesNl(j); for (auto &c : p.con) nl = nl || c.f.usesNl(j); t[j] = nl ? TNLP::NON_LINEAR : TNLP::LINEAR; }
  return true;
}
bool SimModel::get_constraints_linearity(Index m, TNLP::LinearityType *t) { for (int i = 0; i < m; i++) t[i] = p.con[i].f.linear() ? TNLP::LINEAR : TNLP::NON_LINEAR; return true; }
bool SimModel::get_bounds_info(Index n, Number *xl, Number *xu, Index m, Number *gl, Number *gu) {
  for (int j = 0; j < n; j++) { xl[j] = p.lb[j]; xu[j] = p.ub[j]; }
  for (int i = 0; i < m; i++) { gl[i] = p.con[i].lo < -1e19 ? -DBL_MAX : p.con[i].lo; gu[i] = p.con[i].up > 1e19 ? DBL_MAX : p.con[i].up; }
  return true;
}
bool SimModel::get_starting_point(Index n, bool ix, Number *x, bool, Number *, Number *, Index, bool, Number *) { if (ix) for (int j = 0; j < n; j++) x[j] = p.x0[j]; return true; }

// one user callback = one seam event; returns 0 ok, 1 report failure, 2 poison with NaN
static int cb(int tag) {
  long ord = ++W.nEval;
  W.event(E_EVAL, tag);
  if (!W.active) return 0;
  for (size_t i = 0; i < W.faults.size(); i++) {
    Fault &f = W.faults[i];
    if (f.kind != F_EVAL) continue;
    long len = f.b >= 1 ? (long)f.b : 1;
    if (ord >= f.at && ord < f.at + len) { f.fired = true; W.fired[F_EVAL]++; W.mix(0xe7a1); return f.a == 0 ? 1 : 2; }
  }
  return 0;
}
// How the solver may use a model: its own dimensions, points within the variable bounds, and an honest "same point as before".
// Recorded once per kind (only when broken), judged afterwards.
void SimModel::contract(int tag, int n, const double *x, bool nx, int m, int ne, int wantNe) {
  auto tell = [&](int bit, const char *what, double a, double b) { if (told & bit) return; told |= bit; say("contract %d %s %d %.17g %.17g", id, what, tag, a, b); };
  if (n != p.n || (m >= 0 && m != (int)p.con.size()) || (ne >= 0 && ne != wantNe)) { tell(1, "dimension", n, m); return; }
  if (!x) return;
  if (nFinal) tell(2, "after-report", 0, 0);
  bool same = (int)seen.size() == n; for (int j = 0; same && j < n; j++) same = seen[j] == x[j] || (x[j] != x[j] && seen[j] != seen[j]);
  if (!nx && !same) tell(4, "stale-point", 0, 0);
  seen.assign(x, x + n);
  for (int j = 0; j < n; j++) {
    double d = (nonlin[j] & (tag <= 2 ? 1 : tag == 5 ? 3 : 2)) ? std::max(p.lb[j] - x[j], x[j] - p.ub[j]) : 0; // linear functions are defined everywhere
    if (x[j] != x[j]) tell(8, "not-a-number", j, 0);
    else if (p.type[j] != V_CON && x[j] - std::floor(x[j]) == 0.5) continue; // marker that forces branching on an infeasible or unsolved node
    else if (d > 1e-5 * (1 + std::fabs(x[j]))) tell(16, "outside-bounds", j, x[j]);
  }
}
static const double QNAN = std::numeric_limits<double>::quiet_NaN();
bool SimModel::eval_f(Index n, const Number *x, bool nx, Number &o) { contract(1, n, x, nx, -1, -1, 0); int c = cb(1); if (c == 1) return false; o = p.obj.val(x); if (c == 2) o = QNAN; return true; }
bool SimModel::eval_grad_f(Index n, const Number *x, bool nx, Number *g) { contract(2, n, x, nx, -1, -1, 0); int c = cb(2); if (c == 1) return false; p.obj.grad(x, g); if (c == 2) g[n - 1] = QNAN; return true; }
bool SimModel::eval_g(Index n, const Number *x, bool nx, Index m, Number *g) { contract(3, n, x, nx, m, -1, 0); int c = cb(3); if (c == 1) return false; for (int i = 0; i < m; i++) g[i] = p.con[i].f.val(x); if (c == 2 && m) g[0] = QNAN; return true; }
bool SimModel::eval_jac_g(Index n, const Number *x, bool nx, Index m, Index ne, Index *r, Index *c, Number *v) {
  contract(4, n, v ? x : NULL, nx, m, ne, (int)jac.size());
  int off = p.fortran ? 1 : 0;
  if (!v) { for (int k = 0; k < ne; k++) { r[k] = jac[k].first + off; c[k] = jac[k].second + off; } return true; }
  int f = cb(4); if (f == 1) return false;
  std::vector<double> g(n); int last = -1;
  for (int k = 0; k < ne; k++) { if (jac[k].first != last) { last = jac[k].first; p.con[last].f.grad(x, g.data()); } v[k] = g[jac[k].second]; }
  if (f == 2 && ne) v[0] = QNAN;
  return true;
}
bool SimModel::eval_h(Index n, const Number *x, bool nx, Number of, Index m, const Number *l, bool, Index ne, Index *r, Index *c, Number *v) {
  contract(5, n, v ? x : NULL, nx, m, ne, (int)hes.size());
  int off = p.fortran ? 1 : 0;
  if (!v) { for (int k = 0; k < ne; k++) { r[k] = hes[k].first + off; c[k] = hes[k].second + off; } return true; }
  int f = cb(5); if (f == 1) return false;
  std::vector<double> H(n * n, 0.);
  p.obj.hess(x, of, H.data(), n);
  for (int i = 0; i < m; i++) p.con[i].f.hess(x, l[i], H.data(), n);
  for (int k = 0; k < ne; k++) v[k] = H[hes[k].first * n + hes[k].second];
  if (f == 2 && ne) v[0] = QNAN;
  return true;
}
bool SimModel::eval_gi(Index n, const Number *x, bool nx, Index i, Number &gi) { contract(6, n, x, nx, -1, -1, 0); int c = cb(6); if (c == 1) return false; gi = p.con[i].f.val(x); if (c == 2) gi = QNAN; return true; }
bool SimModel::eval_grad_gi(Index n, const Number *x, bool nx, Index i, Index &ne, Index *c, Number *v) {
  contract(7, n, v ? x : NULL, nx, -1, -1, 0);
  int off = p.fortran ? 1 : 0; int f = v ? cb(7) : 0; if (f == 1) return false;
  std::vector<double> g(n); if (v) p.con[i].f.grad(x, g.data());
  int k = 0;
  for (int j = 0; j < n; j++) if (p.con[i].f.uses(j)) { if (c) c[k] = j + off; if (v) v[k] = g[j]; k++; }
  ne = k; if (f == 2 && k) v[0] = QNAN;
  return true;
}
void SimModel::finalize_solution(Bonmin::TMINLP::SolverReturn st, Index n, const Number *x, Number o) {
  nFinal++; lastStatus = (int)st; lastObj = o; lastHasX = x != NULL;
  lastX.clear(); if (x) lastX.assign(x, x + n);
  std::string s; char b[40];
  if (x) for (int j = 0; j < n; j++) { snprintf(b, sizeof b, " %.17g", x[j]); s += b; W.mixd(x[j]); }
  W.mix(st); W.mixd(o);
  say("final %d %d %d %.17g %d%s", id, (int)st, (int)n, o, x ? 1 : 0, s.c_str());
  W.event(E_FINAL, st);
}
}
