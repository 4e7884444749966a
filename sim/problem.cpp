#include "problem.hpp"
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <cstring>
#include <cstdlib>
namespace sim {
static double dot(const std::vector<double> &a, const double *x) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * x[i]; return s; }
double Fun::val(const double *x) const {
  double v = c0 + dot(c, x);
  for (size_t k = 0; k < q.size(); k++) { double t = dot(qa[k].a, x) + qa[k].b; v += q[k] * t * t; }
  for (size_t k = 0; k < w.size(); k++) v += w[k] * std::exp(dot(wa[k].a, x) + wa[k].b);
  return v;
}
void Fun::grad(const double *x, double *g) const {
  int n = (int)c.size();
  for (int i = 0; i < n; i++) g[i] = c[i];
  for (size_t k = 0; k < q.size(); k++) { double t = 2 * q[k] * (dot(qa[k].a, x) + qa[k].b); for (int i = 0; i < n; i++) g[i] += t * qa[k].a[i]; }
  for (size_t k = 0; k < w.size(); k++) { double t = w[k] * std::exp(dot(wa[k].a, x) + wa[k].b); for (int i = 0; i < n; i++) g[i] += t * wa[k].a[i]; }
}
void Fun::hess(const double *x, double f, double *H, int n) const {
  for (size_t k = 0; k < q.size(); k++) for (int i = 0; i < n; i++) if (qa[k].a[i] != 0) for (int j = 0; j < n; j++) H[i * n + j] += f * 2 * q[k] * qa[k].a[i] * qa[k].a[j];
  for (size_t k = 0; k < w.size(); k++) {
    double t = f * w[k] * std::exp(dot(wa[k].a, x) + wa[k].b);
    for (int i = 0; i < n; i++) if (wa[k].a[i] != 0) for (int j = 0; j < n; j++) H[i * n + j] += t * wa[k].a[i] * wa[k].a[j];
  }
}
bool Fun::usesNl(int j) const {
  for (size_t k = 0; k < q.size(); k++) if (qa[k].a[j] != 0) return true;
  for (size_t k = 0; k < w.size(); k++) if (wa[k].a[j] != 0) return true;
  return false;
}
bool Fun::uses(int j) const { return c[j] != 0 || usesNl(j); }

double Problem::viol(const double *x, std::string *why) const {
  double worst = 0; char b[200];
  auto up = [&](double v, const char *fmt, int i) { if (v > worst) { worst = v; if (why) { snprintf(b, sizeof b, fmt, i); *why = b; } } };
  for (int j = 0; j < n; j++) {
    if (!(x[j] == x[j])) { if (why) *why = "NaN coordinate"; return 1e100; }
    up((lb[j] - x[j]) / (1 + std::fabs(lb[j])), "lower bound of variable %d", j);
    up((x[j] - ub[j]) / (1 + std::fabs(ub[j])), "upper bound of variable %d", j);
    if (type[j] != V_CON) up(std::fabs(x[j] - std::floor(x[j] + 0.5)), "integrality of variable %d", j);
  }
  for (size_t i = 0; i < con.size(); i++) {
    double v = con[i].f.val(x);
    if (con[i].lo > -1e19) up((con[i].lo - v) / (1 + std::fabs(con[i].lo)), "lower side of constraint %d", (int)i);
    if (con[i].up < 1e19) up((v - con[i].up) / (1 + std::fabs(con[i].up)), "upper side of constraint %d", (int)i);
  }
  for (size_t k = 0; k < sos.size(); k++) {
    double m1 = 0, m2 = 0;
    for (size_t i = 0; i < sos[k].size(); i++) { double v = std::fabs(x[sos[k][i]]); if (v > m1) { m2 = m1; m1 = v; } else if (v > m2) m2 = v; }
    up(m2, "SOS set %d", (int)k);
  }
  return worst;
}

static double r4(double v) { return std::floor(v * 4 + 0.5) / 4; }

// Problems whose relaxation says little, so that the tree search has to do the work: subset-sum-like
// objectives over up to 12 small integers.
static Problem deepProblem(Rng &R, int fam) {
  Problem p; int nI = (int)R.range(5, 10), nC = R.chance(0.35) ? (int)R.range(1, 2) : 0, n = p.n = nI + nC;
  p.type.assign(n, V_CON); p.lb.assign(n, 0); p.ub.assign(n, 0);
  double vol = 1, cap = nC ? 300 : 2500; bool general = R.chance(0.5);
  std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[R.range(0, i)]);
  for (int k = 0; k < n; k++) {
    int j = perm[k];
    if (k >= nI) { p.lb[j] = 0; p.ub[j] = r4(1 + 2 * R.uni()); continue; }
    int w = general ? (int)R.range(1, 4) : 1;
    if (vol * (w + 1) > cap) w = vol * 2 > cap ? 0 : 1;
    vol *= w + 1;
    p.type[j] = w == 1 ? V_BIN : V_INT; p.lb[j] = w == 1 || (fam & FAM_SOS) ? 0 : (double)R.range(-2, 1); p.ub[j] = p.lb[j] + w;
  }
  std::vector<double> mid(n), xs(n);
  for (int j = 0; j < n; j++) { mid[j] = 0.5 * (p.lb[j] + p.ub[j]); xs[j] = p.type[j] == V_CON ? mid[j] : (double)R.range((long)p.lb[j], (long)p.ub[j]); }
  if (fam & FAM_SOS) { std::vector<int> S; int len = (int)R.range(2, 4); for (int k = 0; k < len; k++) S.push_back(perm[k]); std::sort(S.begin(), S.end()); for (int j : S) if (j != S[0]) xs[j] = 0; p.sos.push_back(S); }
  p.obj.c.assign(n, 0.);
  int k = (int)R.range(1, 2);
  for (int i = 0; i < k; i++) {
    Aff a; a.a.assign(n, 0.); double t = 0;
    for (int j = 0; j < n; j++) if (R.chance(0.85)) { a.a[j] = r4(1 + 3 * R.uni()); t += a.a[j] * (mid[j] + (R.uni() - 0.5) * 0.4); }
    a.b = -(r4(t) + 0.11); p.obj.q.push_back(r4(0.5 + R.uni())); p.obj.qa.push_back(a);
  }
  if (R.chance(0.6)) for (int j = 0; j < n; j++) if (R.chance(0.5)) p.obj.c[j] = r4(R.uni() * 1.5 - 0.75);
  if (fam & FAM_LINOBJ) { // the same objective as a linear one over a constraint is left to the algorithms; here: a knapsack
    p.obj.q.clear(); p.obj.qa.clear(); for (int j = 0; j < n; j++) p.obj.c[j] = -r4(1 + 3 * R.uni());
  }
  int m = (int)R.range((fam & FAM_LINOBJ) ? 1 : 0, 3);
  for (int i = 0; i < m; i++) {
    Con c; c.lo = -1e20; c.up = 1e20; c.f.c.assign(n, 0.);
    if (R.chance(0.5)) { for (int j = 0; j < n; j++) c.f.c[j] = r4(0.5 + 2.5 * R.uni()); c.up = r4(std::max(c.f.val(xs.data()), c.f.val(mid.data()))) + 0.13; }
    else { // a ball around a point off the lattice
      for (int j = 0; j < n; j++) { Aff a; a.a.assign(n, 0.); a.a[j] = 1; a.b = -r4(mid[j] + (R.uni() - 0.5) * 0.6) - 0.05; c.f.q.push_back(r4(0.5 + 1.5 * R.uni())); c.f.qa.push_back(a); }
      c.up = r4(c.f.val(xs.data())) + r4(0.2 + 0.5 * R.uni());
    }
    p.con.push_back(c);
  }
  if ((fam & FAM_INFEAS) && nI) { // the weights hit no value in a narrow window
    Con c; c.f.c.assign(n, 0.); for (int j = 0; j < n; j++) if (p.type[j] != V_CON && R.chance(0.8)) c.f.c[j] = 2 * (double)R.range(1, 4);
    double v = 0; for (int j = 0; j < n; j++) v += c.f.c[j] * mid[j];
    v = 2 * std::floor(v / 2) + 1; c.lo = v - 0.4; c.up = v + 0.4; p.con.push_back(c);
  }
  return p;
}
Problem makeProblem(uint64_t pseed, int fam) {
  for (int attempt = 0; attempt < 200; attempt++) {
    Rng R(pseed * 1000003ULL + attempt * 7919ULL + (uint64_t)fam * 31337ULL);
    if (fam & FAM_DEEP) {
      Problem p = deepProblem(R, fam);
      if (fam & FAM_PRIO) { p.prio.resize(p.n); for (auto &v : p.prio) v = (int)R.range(1, 5); }
      if (fam & FAM_DIR) { p.dir.resize(p.n); for (auto &v : p.dir) v = (int)R.range(-1, 1); }
      p.fortran = R.chance(0.5); p.x0.resize(p.n);
      for (int j = 0; j < p.n; j++) p.x0[j] = p.lb[j] + (p.ub[j] - p.lb[j]) * R.uni();
      solveReference(p);
      if (p.ambiguous || ((fam & FAM_INFEAS) ? p.feasible : !p.feasible)) continue;
      return p;
    }
    Problem p; int nI, nC;
    if (fam & FAM_PURECONT) { nI = 0; nC = (int)R.range(1, 4); }
    else {
      nI = (int)R.range(1, (fam & FAM_BIG) ? 7 : 5);
      nC = (int)R.range(0, 3);
    }
    int n = p.n = nI + nC;
    p.type.assign(n, V_CON); p.lb.assign(n, 0); p.ub.assign(n, 0);
    // scatter the integers
    std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[R.range(0, i)]);
    double vol = 1;
    for (int k = 0; k < n; k++) {
      int j = perm[k];
      if (k < nI) {
        bool bin = R.chance(0.5);
        int w = bin ? 1 : (int)R.range(1, 6);
        if (vol * (w + 1) > 700) { w = 1; bin = true; }
        vol *= (w + 1);
        p.type[j] = bin ? V_BIN : V_INT;
        p.lb[j] = bin || (fam & FAM_SOS) ? 0 : (double)R.range(-3, 2);
        p.ub[j] = p.lb[j] + w;
        if (!bin && R.chance(0.05)) p.ub[j] = p.lb[j];
      }
      else {
        p.lb[j] = r4(-4 * R.uni()); p.ub[j] = p.lb[j] + r4(1 + 6 * R.uni());
        if (R.chance(0.3)) p.lb[j] = 0, p.ub[j] = r4(1 + 5 * R.uni());
      }
    }
    // a planted point
    std::vector<double> xs(n);
    for (int j = 0; j < n; j++) xs[j] = p.type[j] == V_CON ? p.lb[j] + (p.ub[j] - p.lb[j]) * (0.2 + 0.6 * R.uni()) : (double)R.range((long)p.lb[j], (long)p.ub[j]);
    if ((fam & FAM_SOS) && nI >= 2) {
      int ns = R.chance(0.3) && nI >= 4 ? 2 : 1; size_t off = 0;
      for (int s = 0; s < ns; s++) {
        std::vector<int> S; int len = ns == 2 ? 2 : (int)R.range(2, nI);
        for (int k = 0; k < len; k++) S.push_back(perm[off + k]);
        off += len;
        std::sort(S.begin(), S.end());
        int keep = (int)R.range(0, len - 1);
        for (int k = 0; k < len; k++) if (k != keep) xs[S[k]] = 0;
        p.sos.push_back(S);
      }
    }
    auto coef = [&]() { double v = r4(6 * R.uni() - 3); return v; };
    auto linpart = [&](Fun &f, double dens) { f.c.assign(n, 0.); for (int j = 0; j < n; j++) if (R.chance(dens)) f.c[j] = coef(); };
    auto aff = [&](int maxv) { Aff a; a.a.assign(n, 0.); int k = (int)R.range(1, maxv); for (int i = 0; i < k; i++) a.a[R.range(0, n - 1)] = r4(0.5 + R.uni()) * (R.chance(0.5) ? 1 : -1); a.b = r4(2 * R.uni() - 1); return a; };
    // objective
    linpart(p.obj, 0.9);
    bool linobj = (fam & (FAM_LINOBJ | FAM_LINEAR)) || R.chance(0.35);
    if (!linobj) {
      int k = (int)R.range(1, 3);
      for (int i = 0; i < k; i++) {
        if (R.chance(0.75)) { // squared distance to an off-lattice target
          p.obj.q.push_back(r4(0.5 + 2 * R.uni())); Aff a = aff(2);
          double t = 0; for (int j = 0; j < n; j++) t += a.a[j] * (p.lb[j] + (p.ub[j] - p.lb[j]) * R.uni());
          a.b = -r4(t) + 0.1; p.obj.qa.push_back(a);
        }
        else { p.obj.w.push_back(r4(0.25 + R.uni())); Aff a = aff(2); for (auto &v : a.a) v *= 0.25; p.obj.wa.push_back(a); }
      }
    }
    if (R.chance(0.5)) p.obj.c0 = coef();
    // constraints
    int m = (fam & FAM_NOCON) ? 0 : (int)R.range(1, 5);
    bool infeas = (fam & FAM_INFEAS) != 0;
    for (int i = 0; i < m; i++) {
      Con c; c.lo = -1e20; c.up = 1e20;
      double slack = r4(0.25 + 1.5 * R.uni() * R.uni() * 2);
      bool lin = (fam & FAM_LINEAR) || R.chance(0.4);
      if (lin) {
        linpart(c.f, 0.7);
        int nz = 0; for (int j = 0; j < n; j++) nz += c.f.c[j] != 0;
        if (!nz) c.f.c[R.range(0, n - 1)] = 1;
        double v = c.f.val(xs.data());
        int k = (int)R.range(0, 9);
        bool onlyInt = true; for (int j = 0; j < n; j++) if (c.f.c[j] != 0 && p.type[j] == V_CON) onlyInt = false;
        if (k < 4) c.up = r4(v) + slack;
        else if (k < 7) c.lo = r4(v) - slack;
        else if (k < 8) { c.lo = r4(v) - slack; c.up = r4(v) + slack; }
        else if (nC >= 1 && !onlyInt && i == 0 && nC > 1) { c.lo = c.up = r4(v); }
        else c.up = r4(v) + slack;
        // integer-only rows: keep exact arithmetic, avoid hits exactly on the boundary being ambiguous
        (void)onlyInt;
      }
      else {
        bool concave = R.chance(0.25);
        linpart(c.f, 0.5);
        int k = (int)R.range(1, 2);
        for (int t = 0; t < k; t++) {
          if (R.chance(0.75)) {
            c.f.q.push_back(r4(0.5 + 1.5 * R.uni())); Aff a = aff(2);
            double tt = 0; for (int j = 0; j < n; j++) tt += a.a[j] * (0.5 * xs[j] + 0.5 * (p.lb[j] + (p.ub[j] - p.lb[j]) * R.uni()));
            a.b = -r4(tt); c.f.qa.push_back(a);
          }
          else { c.f.w.push_back(r4(0.25 + R.uni())); Aff a = aff(2); for (auto &v : a.a) v *= 0.25; c.f.wa.push_back(a); }
        }
        double v = c.f.val(xs.data());
        if (concave) {
          for (auto &q : c.f.q) q = -q;
          for (auto &w : c.f.w) w = -w;
          for (auto &cc : c.f.c) cc = -cc;
          c.lo = r4(-v) - slack;
        }
        else c.up = r4(v) + slack;
      }
      p.con.push_back(c);
    }
    if (infeas && m) {
      // integer gap: squeeze one constraint so that no lattice point survives,
      // or shift right-hand sides beyond reach
      int i = (int)R.range(0, m - 1); Con &c = p.con[i];
      double sh = r4(1 + 8 * R.uni());
      if (nI && R.chance(0.5)) {
        Con d; d.f.c.assign(n, 0.); int j; do j = (int)R.range(0, n - 1); while (p.type[j] == V_CON);
        d.f.c[j] = 1; double base = (double)R.range((long)p.lb[j], std::max((long)p.lb[j], (long)p.ub[j] - 1));
        d.lo = base + 0.25; d.up = base + 0.75; p.con[i] = d;
      }
      else if (c.lo != c.up && c.up < 1e19 && c.lo > -1e19) c.lo = -1e20, c.up -= sh + 2; else if (c.lo == c.up) { c.up += sh; c.lo += sh; } else { if (c.up < 1e19) c.up -= sh; else c.lo += sh; }
    }
    if ((fam & FAM_PRIO) || R.chance(0.1)) { p.prio.resize(n); for (auto &v : p.prio) v = (int)R.range(1, 5); }
    if (fam & FAM_DIR) { p.dir.resize(n); for (auto &v : p.dir) v = (int)R.range(-1, 1); }
    p.fortran = R.chance(0.5);
    p.x0.resize(n);
    for (int j = 0; j < n; j++) p.x0[j] = p.lb[j] + (p.ub[j] - p.lb[j]) * R.uni();
    solveReference(p);
    if (p.ambiguous) continue;
    if (infeas && m && p.feasible && attempt < 100) continue;
    if (!infeas && !p.feasible && attempt < 100) continue;
    return p;
  }
  // unreachable in practice
  Problem q = makeProblem(pseed + 17, FAM_NOCON);
  return q;
}

// ------------------------------------------------------------ reference
// Reduced function over w in R^k: c0 + c.w + sum q (a.w+b)^2 + sum e exp(a.w+b)
typedef Fun RFun;
static Fun substitute(const Fun &f, const std::vector<double> &y0, const std::vector<std::vector<double> > &Z) {
  // x = y0 + Z w,   Z[i] = row of length k
  size_t n = y0.size(), k = Z.empty() ? 0 : Z[0].size();
  Fun r; r.c.assign(k, 0.); r.c0 = f.c0;
  for (size_t i = 0; i < n; i++) { r.c0 += f.c[i] * y0[i]; for (size_t t = 0; t < k; t++) r.c[t] += f.c[i] * Z[i][t]; }
  auto sub = [&](const Aff &A) { Aff B; B.a.assign(k, 0.); B.b = A.b; for (size_t i = 0; i < n; i++) { B.b += A.a[i] * y0[i]; for (size_t t = 0; t < k; t++) B.a[t] += A.a[i] * Z[i][t]; } return B; };
  auto isz = [&](const Aff &A) { for (double v : A.a) if (std::fabs(v) > 1e-12) return false; return true; };
  for (size_t i = 0; i < f.q.size(); i++) { Aff B = sub(f.qa[i]); if (isz(B)) r.c0 += f.q[i] * B.b * B.b; else { r.q.push_back(f.q[i]); r.qa.push_back(B); } }
  for (size_t i = 0; i < f.w.size(); i++) { Aff B = sub(f.wa[i]); if (isz(B)) r.c0 += f.w[i] * std::exp(B.b); else { r.w.push_back(f.w[i]); r.wa.push_back(B); } }
  for (auto &v : r.c) if (std::fabs(v) < 1e-12) v = 0;
  return r;
}
static bool isConst(const Fun &f) { if (!f.q.empty() || !f.w.empty()) return false; for (double v : f.c) if (v != 0) return false; return true; }
static Fun negf(const Fun &f) { Fun g = f; g.c0 = -g.c0; for (auto &v : g.c) v = -v; for (auto &v : g.q) v = -v; for (auto &v : g.w) v = -v; return g; }

static bool cholSolve(std::vector<double> H, int k, std::vector<double> g, std::vector<double> &d) {
  double reg = 0;
  for (int tries = 0; tries < 30; tries++) {
    std::vector<double> L(H); bool ok = true;
    for (int i = 0; i < k; i++) L[i * k + i] += reg;
    for (int i = 0; i < k && ok; i++)
      for (int j = 0; j <= i; j++) {
        double s = L[i * k + j]; for (int t = 0; t < j; t++) s -= L[i * k + t] * L[j * k + t];
        if (i == j) { if (s <= 1e-300 || !(s == s)) { ok = false; break; } L[i * k + i] = std::sqrt(s); } else L[i * k + j] = s / L[j * k + j];
      }
    if (!ok) { double tr = 0; for (int i = 0; i < k; i++) tr = std::max(tr, std::fabs(H[i * k + i])); reg = reg == 0 ? 1e-12 * (1 + tr) : reg * 10; continue; }
    d = g;
    for (int i = 0; i < k; i++) { for (int t = 0; t < i; t++) d[i] -= L[i * k + t] * d[t]; d[i] /= L[i * k + i]; }
    for (int i = k - 1; i >= 0; i--) { for (int t = i + 1; t < k; t++) d[i] -= L[t * k + i] * d[t]; d[i] /= L[i * k + i]; }
    return true;
  }
  return false;
}
// minimise f + (1/t) * sum -log(-h_i) ; x strictly feasible.  Early exit when f < stopBelow.
static double barrier(const Fun &f, const std::vector<Fun> &h, std::vector<double> &x, double tol, double stopBelow) {
  int k = (int)x.size(); double t = 1; size_t m = h.size();
  auto phi = [&](const std::vector<double> &z) { double v = t * f.val(z.data()); for (size_t i = 0; i < m; i++) { double hv = h[i].val(z.data()); if (!(hv < 0)) return 1e300; v -= std::log(-hv); } return v; };
  for (int outer = 0; outer < 60; outer++) {
    for (int it = 0; it < 60; it++) {
      std::vector<double> g(k), gi(k), H(k * k, 0.);
      f.grad(x.data(), g.data()); for (auto &v : g) v *= t; f.hess(x.data(), t, H.data(), k);
      for (size_t i = 0; i < m; i++) {
        double hv = -h[i].val(x.data()); h[i].grad(x.data(), gi.data());
        for (int a = 0; a < k; a++) { g[a] += gi[a] / hv; for (int b = 0; b < k; b++) H[a * k + b] += gi[a] * gi[b] / (hv * hv); }
        h[i].hess(x.data(), 1 / hv, H.data(), k);
      }
      std::vector<double> d; if (!cholSolve(H, k, g, d)) break;
      double dec = 0; for (int a = 0; a < k; a++) dec += g[a] * d[a];
      if (dec < 1e-12) break;
      double s = 1, p0 = phi(x); std::vector<double> z(k); bool moved = false;
      for (int ls = 0; ls < 60; ls++, s *= 0.5) { for (int a = 0; a < k; a++) z[a] = x[a] - s * d[a]; if (phi(z) <= p0 - 0.01 * s * dec) { x = z; moved = true; break; } }
      if (!moved) break;
      if (f.val(x.data()) < stopBelow) return f.val(x.data());
    }
    if ((double)m / t < tol) break;
    t *= 12;
  }
  return f.val(x.data());
}

// status: 1 feasible, 0 infeasible, -1 ambiguous
static int solveContinuous(const Problem &p, const std::vector<double> &xfix, const std::vector<int> &freev, const std::vector<double> &lb, const std::vector<double> &ub, double &best, std::vector<double> &xb, bool certify = false) {
  int n = p.n; int k0 = (int)freev.size();
  // start: x = base + E y
  std::vector<double> y0 = xfix; std::vector<std::vector<double> > Z(n, std::vector<double>(k0, 0.));
  for (int t = 0; t < k0; t++) { y0[freev[t]] = 0; Z[freev[t]][t] = 1; }
  std::vector<int> kept = freev;
  // eliminate equalities one at a time
  for (size_t i = 0; i < p.con.size(); i++) if (p.con[i].lo == p.con[i].up) {
    Fun r = substitute(p.con[i].f, y0, Z); size_t k = r.c.size();
    double rhs = p.con[i].lo - r.c0; size_t pv = 0; double mx = 0;
    for (size_t t = 0; t < k; t++) if (std::fabs(r.c[t]) > mx) { mx = std::fabs(r.c[t]); pv = t; }
    if (mx < 1e-9) { if (std::fabs(rhs) < 1e-9) continue; if (std::fabs(rhs) < 1e-3) return -1; return 0; }
    // w_pv = (rhs - sum c_t w_t)/c_pv
    std::vector<double> ny0 = y0; std::vector<std::vector<double> > nZ(n, std::vector<double>(k - 1, 0.));
    for (int a = 0; a < n; a++) {
      double zp = Z[a][pv]; ny0[a] += zp * rhs / r.c[pv];
      size_t tt = 0; for (size_t t = 0; t < k; t++) if (t != pv) { nZ[a][tt++] = Z[a][t] - zp * r.c[t] / r.c[pv]; }
    }
    y0 = ny0; Z = nZ; kept.erase(kept.begin() + pv);
  }
  size_t k = Z.empty() ? 0 : Z[0].size();
  std::vector<Fun> h;
  bool amb = false;
  auto addc = [&](const Fun &g) { // g <= 0
    if (isConst(g)) { if (g.c0 <= 1e-9) return true; if (g.c0 < 2e-3) { amb = true; return true; } return false; }
    h.push_back(g); return true;
  };
  for (size_t i = 0; i < p.con.size(); i++) {
    const Con &c = p.con[i]; if (c.lo == c.up) continue;
    Fun r = substitute(c.f, y0, Z);
    if (c.up < 1e19) { Fun g = r; g.c0 -= c.up; if (!addc(g)) return 0; }
    if (c.lo > -1e19) { Fun g = negf(r); g.c0 += c.lo; if (!addc(g)) return 0; }
  }
  for (int j = 0; j < n; j++) {
    bool isfree = std::find(freev.begin(), freev.end(), j) != freev.end();
    if (!isfree) continue;
    Fun e; e.c.assign(n, 0.); e.c[j] = 1; Fun r = substitute(e, y0, Z);
    Fun g = r; g.c0 -= ub[j]; if (!addc(g)) return 0;
    g = negf(r); g.c0 += lb[j]; if (!addc(g)) return 0;
  }
  if (amb) return -1;
  Fun f = substitute(p.obj, y0, Z);
  std::vector<double> w(k, 0.);
  if (k > 0 && !h.empty()) {
    // phase 1
    std::vector<Fun> h1 = h; Fun s; s.c.assign(k + 1, 0.); s.c[k] = 1;
    for (auto &g : h1) { g.c.push_back(-1); for (auto &a : g.qa) a.a.push_back(0); for (auto &a : g.wa) a.a.push_back(0); }
    std::vector<double> z(k + 1, 0.);
    for (size_t t = 0; t < k; t++) z[t] = 0; // start at 0 then project roughly: use box centre of first free vars
    double mx = -1e300; for (auto &g : h) mx = std::max(mx, g.val(z.data())); z[k] = mx + 1;
    Fun bnd; bnd.c.assign(k + 1, 0.); bnd.c[k] = -1; bnd.c0 = -1e3; h1.push_back(bnd); // s >= -1000
    double v = barrier(s, h1, z, 1e-7, -1e-2);
    if (v > 2e-3 && certify) { // infeasible only with a dual bound: sum l_i h_i > 0 on the whole box, sum l_i = 1
      std::vector<double> r(k, 0.), gi(k), l; double sl = 0, low = 0;
      for (auto &g : h) { double d = z[k] - g.val(z.data()); l.push_back(d > 0 ? 1 / d : 0); sl += l.back(); }
      for (size_t i = 0; i < h.size(); i++) { l[i] /= sl; low += l[i] * h[i].val(z.data()); h[i].grad(z.data(), gi.data()); for (size_t t = 0; t < k; t++) r[t] += l[i] * gi[t]; }
      for (size_t t = 0; t < k; t++) low -= std::fabs(r[t]) * std::max(std::fabs(ub[kept[t]] - z[t]), std::fabs(lb[kept[t]] - z[t]));
      return low > 1e-3 ? 0 : -1;
    }
    if (v > 2e-3) return 0;
    if (v > -2e-3) return -1;
    w.assign(z.begin(), z.begin() + k);
    double m2 = -1e300; for (auto &g : h) m2 = std::max(m2, g.val(w.data()));
    if (m2 >= 0) return -1;
  }
  if (k > 0) best = barrier(f, h, w, 1e-8, -1e300); else best = f.c0;
  xb.assign(n, 0.); for (int a = 0; a < n; a++) { xb[a] = y0[a]; for (size_t t = 0; t < k; t++) xb[a] += Z[a][t] * w[t]; }
  return 1;
}

void solveReference(Problem &p) {
  p.ambiguous = false; p.feasible = false; p.opt = 1e300; p.second = 1e300; p.points = 0; p.feasPoints = 0;
  std::vector<int> iv, cv; for (int j = 0; j < p.n; j++) (p.type[j] == V_CON ? cv : iv).push_back(j);
  std::vector<double> x(p.n, 0.); for (int j : iv) x[j] = p.lb[j];
  while (true) {
    bool ok = true;
    for (auto &S : p.sos) { int nz = 0; for (int j : S) nz += x[j] != 0; if (nz > 1) ok = false; }
    if (ok) {
      p.points++;
      double b; std::vector<double> xb; int st = solveContinuous(p, x, cv, p.lb, p.ub, b, xb);
      if (st < 0) { p.ambiguous = true; return; }
      if (st == 1) { p.feasPoints++; p.feasible = true; if (b < p.opt) { p.second = p.opt; p.opt = b; p.xopt = xb; } else if (b < p.second) p.second = b; }
    }
    size_t k = 0;
    for (; k < iv.size(); k++) { if (x[iv[k]] < p.ub[iv[k]]) { x[iv[k]] += 1; break; } x[iv[k]] = p.lb[iv[k]]; }
    if (k == iv.size()) break;
  }
  // continuous relaxation
  std::vector<int> all; std::vector<double> fx(p.n, 0.);
  for (int j = 0; j < p.n; j++) if (p.lb[j] < p.ub[j]) all.push_back(j); else fx[j] = p.lb[j];
  double b; std::vector<double> xb; int st = solveContinuous(p, fx, all, p.lb, p.ub, b, xb);
  p.relaxFeasible = st == 1; p.relax = st == 1 ? b : (st == 0 ? 1e300 : -1e300);
  if (st == 0 && p.feasible) p.ambiguous = true; // degenerate numerically
}

int solveBox(const Problem &p, const std::vector<double> &lb, const std::vector<double> &ub, double &best, std::vector<double> &x) {
  std::vector<int> fr; std::vector<double> fx(p.n, 0.);
  for (int j = 0; j < p.n; j++) { if (lb[j] > ub[j]) return -1; if (lb[j] < ub[j]) fr.push_back(j); else fx[j] = lb[j]; }
  return solveContinuous(p, fx, fr, lb, ub, best, x, true);
}
// ---- transport of a generated problem into the simulated process
struct Pk {
  std::string o; const char *q; size_t at; bool wr;
  void raw(void *d, size_t n) { if (wr) o.append((const char *)d, n); else { memcpy(d, q + at, n); at += n; } }
  void i(int &v) { raw(&v, sizeof v); }
  void d(double &v) { raw(&v, sizeof v); }
  template <class T> void sz(std::vector<T> &v) { int n = (int)v.size(); i(n); if (!wr) v.resize(n); }
  void vd(std::vector<double> &v) { sz(v); for (auto &x : v) d(x); }
  void vi(std::vector<int> &v) { sz(v); for (auto &x : v) i(x); }
  void va(std::vector<Aff> &v) { sz(v); for (auto &x : v) { vd(x.a); d(x.b); } }
  void f(Fun &g) { d(g.c0); vd(g.c); vd(g.q); va(g.qa); vd(g.w); va(g.wa); }
  void p(Problem &P) {
    i(P.n); vi(P.type); vd(P.lb); vd(P.ub); vd(P.x0); f(P.obj); sz(P.con); for (auto &c : P.con) { f(c.f); d(c.lo); d(c.up); }
    sz(P.sos); for (auto &v : P.sos) vi(v); vi(P.prio); vi(P.dir); int b = P.fortran; i(b); P.fortran = b;
  }
};
std::string packProblem(const Problem &p) { Pk k; k.wr = true; k.q = NULL; k.at = 0; Problem c = p; k.p(c); return k.o; }
Problem unpackProblem(const std::string &t) { Pk k; k.wr = false; k.q = t.data(); k.at = 0; Problem c; k.p(c); return c; }

std::string describe(const Problem &p) {
  std::string s; char b[300];
  snprintf(b, sizeof b, "n=%d int=%d con=%zu sos=%zu points=%ld feasPoints=%ld opt=%.9g second=%.9g relax=%.9g", p.n, p.nInt(), p.con.size(), p.sos.size(), p.points, p.feasPoints, p.feasible ? p.opt : 1e300, p.second, p.relax);
  s = b; s += "\n";
  auto fun = [&](const Fun &f) { std::string r; snprintf(b, sizeof b, "%g", f.c0); r += b; for (size_t j = 0; j < f.c.size(); j++) if (f.c[j] != 0) { snprintf(b, sizeof b, " %+g*x%zu", f.c[j], j); r += b; }
    auto af = [&](const Aff &a) { std::string t; for (size_t j = 0; j < a.a.size(); j++) if (a.a[j] != 0) { snprintf(b, sizeof b, "%+g*x%zu", a.a[j], j); t += b; } snprintf(b, sizeof b, "%+g", a.b); t += b; return t; };
    for (size_t k = 0; k < f.q.size(); k++) { snprintf(b, sizeof b, " %+g*(", f.q[k]); r += b; r += af(f.qa[k]) + ")^2"; }
    for (size_t k = 0; k < f.w.size(); k++) { snprintf(b, sizeof b, " %+g*exp(", f.w[k]); r += b; r += af(f.wa[k]) + ")"; } return r; };
  for (int j = 0; j < p.n; j++) { snprintf(b, sizeof b, "  x%d %s [%g,%g] start %g\n", j, p.type[j] == V_CON ? "cont" : p.type[j] == V_BIN ? "bin" : "int", p.lb[j], p.ub[j], p.x0[j]); s += b; }
  s += "  min " + fun(p.obj) + "\n";
  for (auto &c : p.con) { snprintf(b, sizeof b, "  %g <= ", c.lo); s += b; s += fun(c.f); snprintf(b, sizeof b, " <= %g\n", c.up); s += b; }
  for (auto &S : p.sos) { s += "  sos1 {"; for (int j : S) { snprintf(b, sizeof b, " x%d", j); s += b; } s += " }\n"; }
  if (p.feasible) { s += "  opt at"; for (double v : p.xopt) { snprintf(b, sizeof b, " %.6g", v); s += b; } s += "\n"; }
  return s;
}
}
