// Reference model for operation histories on the NLP interface, and their generation (P14, P15).
#include "cases.hpp"
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include <sstream>
#include <map>
#include <cstring>
namespace sim {
static std::string F(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static std::string F(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
typedef std::vector<double> Vec;
struct Op { std::string k; int s; Vec a; };
static std::vector<Op> opsOf(const Spec &s) {
  std::vector<Op> o;
  for (auto &e : s.extra) { std::istringstream in(e); std::string w; Op p; in >> w; if (w != "op") continue; in >> p.k >> p.s; double d; while (in >> d) p.a.push_back(d); o.push_back(p); }
  return o;
}
struct Row { double lb, ub; std::vector<int> c; Vec v; double at(const Vec &x) const { double t = 0; for (size_t k = 0; k < c.size(); k++) t += v[k] * x[c[k]]; return t; }
  double viol(const Vec &x) const { double t = at(x), r = 0; if (lb > -1e19) r = std::max(r, lb - t); if (ub < 1e19) r = std::max(r, t - ub); return r; }
  double scale(const Vec &x) const { double t = 1; for (size_t k = 0; k < c.size(); k++) t += std::fabs(v[k] * x[c[k]]); return t; } };
static double conViol(const Con &c, double g) { double r = 0; if (c.lo > -1e19) r = std::max(r, c.lo - g); if (c.up < 1e19) r = std::max(r, g - c.up); return r; }
static double linAt(const Fun &f, const Vec &x, const Vec &y) { Vec g(x.size()); f.grad(x.data(), g.data()); double t = f.val(x.data()); for (size_t j = 0; j < x.size(); j++) t += g[j] * (y[j] - x[j]); return t; }
// feasible points of the relaxation, several of them on its boundary
static std::vector<Vec> feasiblePoints(const Problem &p, Rng &r, const Vec *near) {
  std::vector<Vec> out; double b; Vec x;
  if (solveBox(p, p.lb, p.ub, b, x) == 1) out.push_back(x);
  else return out;
  for (int k = 0; k < 5; k++) {
    Problem q = p; q.obj = Fun(); q.obj.c.assign(p.n, 0.);
    if (k == 0 && near) { for (int j = 0; j < p.n; j++) { q.obj.q.push_back(1); Aff a; a.a.assign(p.n, 0.); a.a[j] = 1; a.b = -(*near)[j]; q.obj.qa.push_back(a); } }
    else for (int j = 0; j < p.n; j++) q.obj.c[j] = 2 * r.uni() - 1;
    if (solveBox(q, q.lb, q.ub, b, x) == 1) out.push_back(x);
  }
  if (p.feasible) out.push_back(p.xopt);
  size_t m = out.size(); Vec c(p.n, 0.); for (auto &v : out) for (int j = 0; j < p.n; j++) c[j] += v[j] / m; out.push_back(c);
  return out;
}
void judgeIface(Outcome &o, const Spec &s, const Problem &p, const Rec &r) {
  std::vector<Op> ops = opsOf(s); int n = p.n, m = (int)p.con.size();
  double tiny = s.optd("bonmin.tiny_element", 1e-8); if (p.con.empty()) tiny = std::max(tiny, 1e-3); // without rows, coefficients below 1e-3 are removed from the objective row
  bool approx = s.opt("bonmin.variable_selection") == "qp-strong-branching" || s.opt("bonmin.variable_selection") == "lp-strong-branching";
  struct Slot { bool live; Vec lb, ub; int st, mst; } S[3]; for (auto &x : S) { x.live = false; x.st = x.mst = -1; }
  S[0].live = true; S[0].lb = p.lb; S[0].ub = p.ub;
  std::map<int, std::vector<std::pair<std::string, Vec> > > log; std::map<int, std::vector<Row> > rows; std::map<int, std::string> ints;
  for (auto &l : r.lines) {
    std::istringstream in(l); std::string k; in >> k; if (k.size() < 3 || k[0] != 'o') continue;
    int i; if (!(in >> i)) continue;
    if (k == "orow") { int rr, g; std::string a, b; in >> rr >> g >> a >> b; Row w; w.lb = strtod(a.c_str(), NULL); w.ub = strtod(b.c_str(), NULL); int c; std::string v; while (in >> c >> v) { w.c.push_back(c); w.v.push_back(strtod(v.c_str(), NULL)); } rows[i].push_back(w); continue; }
    Vec v; std::string t; int pos = 0; while (in >> t) { if (k == "olin" && pos == 3) ints[i] = t; else v.push_back(strtod(t.c_str(), NULL)); pos++; }
    log[i].push_back(std::make_pair(k, v));
  }
  for (auto &e : r.exc) o.v.push_back({e.first >= 0 && e.first < (int)ops.size() && (ops[e.first].k[0] == 'o' || ops[e.first].k == "con" || ops[e.first].k == "bend" || ops[e.first].k == "linx") ? "P15" : "P14", "exception", F("operation %d (%s) threw: %s", e.first, e.first >= 0 && e.first < (int)ops.size() ? ops[e.first].k.c_str() : "setup", e.second.c_str())});
  Rng rp(mixSeed(s.pseed, (uint64_t)s.fam, 4711, 1));
  for (int i = 0; i < (int)ops.size(); i++) {
    Op &q = ops[i]; if (q.s < 0 || q.s > 2 || !S[q.s].live) continue; Slot &T = S[q.s];
    if (q.k == "bnd") { T.lb[(int)q.a[0]] = q.a[1]; T.ub[(int)q.a[0]] = q.a[2]; }
    else if (q.k == "box") for (int j = 0; j < n; j++) { T.lb[j] = q.a[j]; T.ub[j] = q.a[n + j]; }
    else if (q.k == "clone") { int t = (int)q.a[0]; if (t != q.s && t > 0 && t < 3) S[t] = T; }
    else if (q.k == "drop" && q.s > 0) T.live = false;
    if (q.k == "mark") T.mst = T.st;
    for (auto &e : log[i]) {
      const Vec &v = e.second;
      if (e.first == "obnd") { for (int j = 0; j < n; j++) if (v[j] != T.lb[j] || v[n + j] != T.ub[j]) { o.v.push_back({"P14", "bounds", F("operation %d (%s): variable %d has bounds [%g,%g] instead of [%g,%g]", i, q.k.c_str(), j, v[j], v[n + j], T.lb[j], T.ub[j])}); break; } }
      else if (e.first == "ostart") {
        if (q.k == "start") { for (int j = 0; j < n; j++) if (v[j] != q.a[j]) { o.v.push_back({"P14", "start", F("operation %d: starting point not kept", i)}); break; } }
        else for (int j = 0; j < n; j++) if (!(v[j] >= T.lb[j] - 1e-9 && v[j] <= T.ub[j] + 1e-9)) { o.v.push_back({"P14", "start", F("operation %d: random starting point outside the bounds", i)}); break; }
      }
      else if (e.first == "oclone") {
        static const char *nm[5] = {"solution", "multipliers", "row activities", "bounds", "value"};
        for (int j = 0; j < 5; j++) if (v[j] != 0) { o.v.push_back({"P14", "clone", F("operation %d (clone): the copy's %s differ from its original's", i, nm[j])}); break; }
      }
      else if (e.first == "ounmark") { if (approx && T.mst >= 0 && v[0] != T.mst) o.v.push_back({"P14", "status", F("operation %d (unmark): status %g after the hot starts, %d before", i, v[0], T.mst)}); }
      else if (e.first == "oviol") {
        double w = 0; for (auto &c : p.con) if (!c.f.linear()) w = std::max(w, conViol(c, c.f.val(q.a.data())));
        double wl = w; for (auto &c : p.con) wl = std::max(wl, conViol(c, c.f.val(q.a.data()))); // all rows count until their types are known
        double f = p.obj.val(q.a.data());
        if (!(v[0] >= w - 1e-7 * (1 + w) && v[0] <= wl + 1e-7 * (1 + wl) && std::fabs(v[1] - f) <= 1e-9 * (1 + std::fabs(f)))) o.v.push_back({"P15", "violation", F("operation %d: violation %g and objective %g reported, they are %g and %g", i, v[0], v[1], w, f)});
      }
      else if (e.first == "osol" || e.first == "ofeas") {
        bool feas = e.first == "ofeas"; int st = (int)v[0]; T.st = feas || q.k == "hot" ? -1 : st; bool failed = v[1] > 0; double val = v[2]; Vec x(v.begin() + 3, v.begin() + 3 + n);
        if (feas && (failed || (st == -1 && s.opt("bonmin.warm_start") != "" && s.opt("bonmin.warm_start") != "none"))) continue; // no retry is promised there, and warm starts fit the original problem only
        if (!feas && q.k == "hot" && approx) continue; // an approximation by design
        if (failed && s.optd("bonmin.num_retry_unsolved_random_point", 0) == 0) continue;
        Problem t = p;
        if (q.k == "feas" || q.k == "feasc") {
          double a = q.k == "feas" ? q.a[0] : 1, sc = q.k == "feas" ? (1 - a) * q.a[1] : 0; const double *xb = q.k == "feas" ? &q.a[2] : &q.a[1];
          if (q.k == "feasc") { Con c; c.f = p.obj; c.lo = -1e20; c.up = q.a[0]; t.con.push_back(c); }
          Fun g = p.obj; g.c0 *= sc; for (auto &w : g.c) w *= sc; for (auto &w : g.q) w *= sc; for (auto &w : g.w) w *= sc;
          for (int j = 0; j < n; j++) { g.q.push_back(a); Aff f; f.a.assign(n, 0.); f.a[j] = 1; f.b = -xb[j]; g.qa.push_back(f); }
          t.obj = g;
        }
        double best; Vec xb; int ref = solveBox(t, T.lb, T.ub, best, xb);
        if (ref < 0) continue;
        const char *nm = q.k.c_str();
        if (ref == 0) { if (st != 0) o.v.push_back({"P14", "status", F("operation %d (%s): infeasible subproblem ended with status %d", i, nm, st)}); continue; }
        // Ipopt itself may, from an unlucky start, call the right problem locally infeasible
        if (st == 0 && !feas) { bool own = false; for (auto &w : log[i]) if (w.first == "oipopt" && w.second[0] == 2 && w.second[1] == 1) own = true; if (own) continue; }
        if (st != 1) { o.v.push_back({"P14", "status", F("operation %d (%s): subproblem of value %.9g ended with status %d", i, nm, best, st)}); continue; }
        double tol = (feas ? 1e-3 : 5e-5) * (1 + std::fabs(best)), tv = t.obj.val(x.data());
        double w = 0; for (int j = 0; j < n; j++) w = std::max(w, std::max(T.lb[j] - x[j], x[j] - T.ub[j])); 
        for (auto &c : t.con) w = std::max(w, conViol(c, c.f.val(x.data())) / (1 + std::fabs(c.f.val(x.data()))));
        if (!(w <= 2e-5)) { o.v.push_back({"P14", "point", F("operation %d (%s): point violates the subproblem by %g", i, nm, w)}); continue; }
        if (feas && q.k == "feas" && q.a[0] < 1 && !(std::fabs(tv - best) <= tol)) { // the distance carries a scaling factor of 100
          for (size_t j = p.obj.q.size(); j < t.obj.q.size(); j++) t.obj.q[j] *= 100;
          if (solveBox(t, T.lb, T.ub, best, xb) != 1) continue;
          tv = t.obj.val(x.data()); tol = 1e-3 * (1 + std::fabs(best));
        }
        if (feas && tv < best - tol) continue; // a feasible point that beats the reference: the reference solver stopped early
        if (!(std::fabs(tv - best) <= tol)) o.v.push_back({"P14", "value", F("operation %d (%s): point of value %.9g, the subproblem's optimum is %.9g", i, nm, tv, best)});
        if (!feas && !(std::fabs(val - tv) <= tol)) o.v.push_back({"P14", "value", F("operation %d (%s): value %.9g reported for a point of value %.9g", i, nm, val, tv)});
        if (!feas) {
          const double *zl = &v[3 + n], *zu = zl + n, *la = zu + n, *g = la + m; bool anyfree = false; for (int j = 0; j < n; j++) anyfree = anyfree || T.lb[j] < T.ub[j];
          for (int k = 0; k < m; k++) { double gv = p.con[k].f.val(x.data()); if (!(std::fabs(g[k] - gv) <= 1e-5 * (1 + std::fabs(gv)))) { o.v.push_back({"P14", "activity", F("operation %d (%s): row %d has value %.9g at the point, %.9g reported", i, nm, k, gv, g[k])}); break; } }
          if (anyfree) { // Karush-Kuhn-Tucker conditions with the reported multipliers
            Vec gr(n), gg(n), ab(n, 0.); p.obj.grad(x.data(), gr.data()); for (int j = 0; j < n; j++) ab[j] = std::fabs(gr[j]);
            for (int k = 0; k < m; k++) { p.con[k].f.grad(x.data(), gg.data()); for (int j = 0; j < n; j++) { gr[j] += la[k] * gg[j]; ab[j] += std::fabs(la[k] * gg[j]); } }
            for (int j = 0; j < n; j++) if (T.lb[j] < T.ub[j]) {
              double res = gr[j] - zl[j] + zu[j], sc = 1 + ab[j] + std::fabs(zl[j]) + std::fabs(zu[j]);
              if (!(std::fabs(res) <= 1e-3 * sc)) { o.v.push_back({"P14", "multipliers", F("operation %d (%s): the multipliers leave a gradient of %g in variable %d", i, nm, res, j)}); break; }
              if (!(zl[j] >= -1e-5 && zu[j] >= -1e-5)) { o.v.push_back({"P14", "multipliers", F("operation %d (%s): negative bound multiplier", i, nm)}); break; }
            }
            for (int k = 0; k < m; k++) if (p.con[k].lo != p.con[k].up) if ((p.con[k].lo < -1e19 && la[k] < -1e-4) || (p.con[k].up > 1e19 && la[k] > 1e-4)) { o.v.push_back({"P14", "multipliers", F("operation %d (%s): multiplier %g of row %d has the wrong sign", i, nm, la[k], k)}); break; }
          }
        }
      }
      else if (e.first == "orows" || e.first == "olin") {
        bool lin = e.first == "olin"; std::vector<Row> &R = rows[i]; bool lobj = p.obj.linear();
        int getObj = q.k == "lin" || q.k == "linx" ? (int)q.a[0] : q.k == "con" || q.k == "bend" ? -1 : (int)q.a[0];
        if ((int)R.size() != (int)v[0]) { o.note = "record incomplete"; continue; }
        Vec at; const Vec *near = NULL;
        if (q.k == "oa" || q.k == "oax") at.assign(q.a.begin() + 2, q.a.begin() + 2 + n); else if (q.k == "con" || q.k == "linx") at.assign(q.a.begin() + 1, q.a.begin() + 1 + n); else for (auto &w : log[i]) if (w.first == "oat") at = w.second;
        if (!at.empty()) near = &at;
        bool bad = false;
        for (auto &w : R) for (int c : w.c) if (c < 0 || c > n) { o.v.push_back({"P15", "shape", F("operation %d (%s): row refers to column %d", i, q.k.c_str(), c)}); bad = true; break; }
        if (bad) continue;
        auto ext = [&](const Vec &x, double al) { Vec y = x; y.push_back(al); return y; };
        // every feasible point satisfies every row
        Problem box = p; if (tiny > 1e-6) { box.lb = T.lb; box.ub = T.ub; if (p.feasible) for (int j = 0; j < n; j++) if (p.xopt[j] < T.lb[j] - 1e-9 || p.xopt[j] > T.ub[j] + 1e-9) box.feasible = false; } // removal of coefficients relies on the current bounds
        for (auto &x : feasiblePoints(box, rp, near)) {
          Vec y = ext(x, p.obj.val(x.data()));
          for (size_t k = 0; k < R.size() && !bad; k++) if (R[k].viol(y) > 2e-5 * R[k].scale(y)) { o.v.push_back({"P15", "invalid", F("operation %d (%s): row %zu cuts off a feasible point by %g", i, q.k.c_str(), k, R[k].viol(y))}); bad = true; }
        }
        // and the feasible point that each row is hardest on
        for (size_t k = 0; k < R.size() && k < 8 && !bad; k++) for (int side = 0; side < 2 && !bad; side++) {
          if (side ? !(R[k].lb > -1e19) : !(R[k].ub < 1e19)) continue;
          Problem h = box; double sg = side ? 1 : -1, al = 0; Vec a(n, 0.); for (size_t u = 0; u < R[k].c.size(); u++) { if (R[k].c[u] == n) al += R[k].v[u]; else a[R[k].c[u]] += R[k].v[u]; }
          if (sg * al < 0) continue; // would not be convex
          al *= sg; h.obj.c0 *= al; for (auto &w : h.obj.c) w *= al; for (auto &w : h.obj.q) w *= al; for (auto &w : h.obj.w) w *= al; for (int j = 0; j < n; j++) h.obj.c[j] += sg * a[j];
          double b; Vec x; if (solveBox(h, h.lb, h.ub, b, x) != 1) continue;
          Vec y = ext(x, p.obj.val(x.data()));
          if (R[k].viol(y) > 2e-5 * R[k].scale(y)) { o.v.push_back({"P15", "invalid", F("operation %d (%s): row %zu cuts off a feasible point by %g", i, q.k.c_str(), k, R[k].viol(y))}); bad = true; }
        }
        if (bad) continue;
        // at sampled points the rows are as strong as the first-order approximations they stand for
        for (int t = 0; t < 4 && !bad && tiny <= 1e-6; t++) {
          Vec y(n); for (int j = 0; j < n; j++) y[j] = t == 0 && near ? at[j] : p.lb[j] + (p.ub[j] - p.lb[j]) * rp.uni();
          if (q.k == "oax") y.assign(q.a.begin() + 2 + n, q.a.begin() + 2 + 2 * n);
          double need = 0; int who = -1;
          for (int k = 0; k < m; k++) {
            double w = 0; const Con &c = p.con[k];
            if (q.k == "con") { if (k == (int)q.a[0]) w = conViol(c, linAt(c.f, at, y)); }
            else if (c.f.linear()) { if (lin) w = conViol(c, c.f.val(y.data())); }
            else if (near && q.k != "bend") w = conViol(c, linAt(c.f, at, y));
            if (w > need) { need = w; who = k; }
          }
          double have = 0; Vec z = ext(y, near ? linAt(p.obj, at, y) + 1 : 1e30); for (auto &w : R) { bool al = false; for (int c : w.c) al = al || c == n; if (!al) have = std::max(have, w.viol(z)); }
          if (have < need - 1e-4 * (1 + need)) { o.v.push_back({"P15", "weak", F("operation %d (%s): a point violates the approximation of constraint %d by %g, the rows only by %g", i, q.k.c_str(), who, need, have)}); bad = true; }
          bool wantObj = q.k == "bend" ? near && t == 0 && T.st == 1 && !lobj : near && ((lin && getObj && !lobj) || (!lin && getObj >= 0 && (getObj == 2 || (getObj && !lobj))));
          if (wantObj && !bad) { Vec z2 = ext(y, linAt(p.obj, at, y) - 1); double h = 0; for (auto &w : R) { bool al = false; for (int c : w.c) al = al || c == n; if (al) h = std::max(h, w.viol(z2)); } if (h < 1 - 1e-3 * (1 + std::fabs(z2[n]))) { o.v.push_back({"P15", "weak", F("operation %d (%s): the objective row bounds the objective value by %g too little", i, q.k.c_str(), 1 - h)}); bad = true; } }
        }
        if (lin && !bad) {
          int nc = (int)v[1]; double off = v[2]; const double *ob = &v[3], *cl = ob + nc, *cu = cl + nc;
          int want = getObj && !lobj ? n + 1 : n;
          if (nc != want) { o.v.push_back({"P15", "shape", F("operation %d (%s): %d columns instead of %d", i, q.k.c_str(), nc, want)}); continue; }
          for (int j = 0; j < n; j++) {
            if (cl[j] != T.lb[j] || cu[j] != T.ub[j]) { o.v.push_back({"P15", "shape", F("operation %d (%s): column %d has bounds [%g,%g] instead of [%g,%g]", i, q.k.c_str(), j, cl[j], cu[j], T.lb[j], T.ub[j])}); break; }
            if ((ints[i][j] == '1') != (p.type[j] != V_CON)) { o.v.push_back({"P15", "shape", F("operation %d (%s): integrality of column %d", i, q.k.c_str(), j)}); break; }
          }
          if (getObj && lobj) { Vec y(n); for (int j = 0; j < n; j++) y[j] = p.lb[j] + (p.ub[j] - p.lb[j]) * rp.uni(); double t = -off; for (int j = 0; j < n; j++) t += ob[j] * y[j]; double f = p.obj.val(y.data()); if (!(std::fabs(t - f) <= 1e-6 * (1 + std::fabs(f)))) o.v.push_back({"P15", "objective", F("operation %d (%s): linear objective %g at a point of objective %g", i, q.k.c_str(), t, f)}); }
          if (getObj && !lobj) { bool ok = ob[n] == 1 && cl[n] < -1e19 && cu[n] > 1e19; for (int j = 0; j < n; j++) ok = ok && ob[j] == 0; if (!ok) o.v.push_back({"P15", "objective", F("operation %d (%s): objective of the linear relaxation is not its objective variable", i, q.k.c_str())}); }
        }
      }
    }
  }
}
// ------------------------------------------------------------------- generation
static std::string L(const Vec &v) { std::string o; for (double d : v) o += F(" %.10g", d); return o; }
void genIface(const std::string &prop, Rng &r, Spec &s) {
  s.prog = "iface"; s.opts.clear(); s.budget = 5000000;
  Problem p = makeProblem(s.pseed, s.fam); int n = p.n, m = (int)p.con.size();
  auto B = [&](const char *k, const std::string &v) { s.set(std::string("bonmin.") + k, v); };
  double q = r.pick(Vec{0., 0.25, 0.6});
  B("algorithm", "B-BB");
  if (r.chance(q)) B("warm_start", r.pick(std::vector<std::string>{"none", "optimum", "interior_point"}));
  if (r.chance(q)) B("num_resolve_at_root", std::to_string(r.range(0, 2)));
  if (r.chance(q)) B("num_resolve_at_node", std::to_string(r.range(0, 2)));
  if (r.chance(q)) B("num_resolve_at_infeasibles", std::to_string(r.range(0, 2)));
  if (r.chance(q)) B("random_point_type", r.pick(std::vector<std::string>{"Jon", "Andreas"}));
  if (r.chance(q)) B("max_random_point_radius", F("%g", r.pick(Vec{1, 10, 1e5})));
  if (r.chance(q)) B("variable_selection", r.pick(std::vector<std::string>{"osi-strong", "qp-strong-branching", "nlp-strong-branching"}));
  if (r.chance(q)) B("random_generator_seed", std::to_string(r.range(1, 1000)));
  if (prop == "P15" && r.chance(q)) B("tiny_element", r.pick(std::vector<std::string>{"1e-7", "0.1", "1", "5"}));
  if (prop == "P15" && r.chance(q * 0.5)) B("oa_rhs_relax", "1e-9");
  Vec lb[3], ub[3]; lb[0] = p.lb; ub[0] = p.ub; bool live[3] = {true, false, false}; bool solved[3] = {false, false, false}; bool saved[3] = {false, false, false};
  auto op = [&](const char *k, int sl, const std::string &a = "") { s.extra.push_back(F("op %s %d", k, sl) + a); };
  auto pt = [&](int kind) { Vec x(n); for (int j = 0; j < n; j++) { x[j] = p.lb[j] + (p.ub[j] - p.lb[j]) * r.uni(); if (kind == 1 && p.type[j] != V_CON) x[j] = std::floor(x[j] + 0.5); if (kind == 2) x[j] = r.chance(0.5) ? p.lb[j] : p.ub[j]; x[j] = std::round(x[j] * 4096) / 4096; } return x; };
  auto bnd = [&](int sl) { // branch on an integer variable, or tighten / fix one
    int j = (int)r.range(0, n - 1); double l = p.lb[j], u = p.ub[j];
    if (p.type[j] == V_CON) { if (!r.chance(0.3)) { do j = (int)r.range(0, n - 1); while (p.type[j] == V_CON && p.nInt()); l = p.lb[j]; u = p.ub[j]; } }
    if (p.type[j] == V_CON) { double c = l + (u - l) * r.uni(); c = std::round(c * 4096) / 4096; if (r.chance(0.5)) l = c; else u = c; }
    else { double c = (double)r.range((long)l, (long)u); switch (r.range(0, 3)) { case 0: l = c; break; case 1: u = c; break; case 2: l = u = c; break; default: break; } }
    return std::make_pair(j, std::make_pair(l, u));
  };
  auto setb = [&](int sl, int j, double l, double u) { lb[sl][j] = l; ub[sl][j] = u; op("bnd", sl, F(" %d %.10g %.10g", j, l, u)); };
  int len = (int)r.range(5, 26); bool cuts = prop == "P15";
  for (int k = 0; k < len; k++) {
    int sl; do sl = (int)r.range(0, 2); while (!live[sl]);
    int w = (int)r.range(0, cuts ? 29 : 19);
    if (w < 4) { auto b = bnd(sl); setb(sl, b.first, b.second.first, b.second.second); if (r.chance(0.6)) { op(solved[sl] && r.chance(0.8) ? "res" : "init", sl); solved[sl] = true; } }
    else if (w < 6) { op(r.chance(0.6) ? "res" : "init", sl); solved[sl] = true; }
    else if (w == 6) { Vec x = pt(1); Vec l = lb[sl], u = ub[sl]; int kind = (int)r.range(0, 2); for (int j = 0; j < n; j++) { if (kind == 0) { l[j] = p.lb[j]; u[j] = p.ub[j]; } else if (p.type[j] != V_CON || kind == 2) l[j] = u[j] = x[j]; else { l[j] = p.lb[j]; u[j] = p.ub[j]; } } lb[sl] = l; ub[sl] = u; op("box", sl, L(l) + L(u)); op(r.chance(0.5) ? "res" : "init", sl); solved[sl] = true; }
    else if (w < 9 && solved[sl]) { // strong branching
      Vec l0 = lb[sl], u0 = ub[sl]; op("res", sl); op("mark", sl); int c = (int)r.range(1, 3);
      for (int t = 0; t < c; t++) { auto b = bnd(sl); int j = b.first; setb(sl, j, b.second.first, b.second.second); op("hot", sl); setb(sl, j, l0[j], u0[j]); }
      op("unmark", sl); if (r.chance(0.7)) op("res", sl);
    }
    else if (w == 9) { int t = (int)r.range(1, 2); if (t != sl) { op("clone", sl, F(" %d", t)); live[t] = true; lb[t] = lb[sl]; ub[t] = ub[sl]; solved[t] = false; if (r.chance(0.5)) { op("init", t); solved[t] = true; } } }
    else if (w == 10) { if (sl > 0 && r.chance(0.5)) { op("drop", sl); live[sl] = false; } }
    else if (w == 11) { int t = (int)r.range(0, 2); if (solved[sl]) { op("save", sl, F(" %d", t)); saved[t] = true; } }
    else if (w == 12) { int t = (int)r.range(0, 2); if (saved[t]) { op("rest", sl, F(" %d", t)); op("res", sl); solved[sl] = true; } }
    else if (w == 13) { op("start", sl, L(pt((int)r.range(0, 2)))); if (r.chance(0.7)) { op("init", sl); solved[sl] = true; } }
    else if (w == 14) { op("rand", sl); op("init", sl); solved[sl] = true; }
    else if (w == 15) { op("nost", sl); op("init", sl); solved[sl] = true; }
    else if (w == 16 && solved[sl]) op("cost", sl, F(" %ld %ld", r.range(1, 3), r.range(0, 1)));
    else if (w == 17) { op("feas", sl, F(" %g %g", r.pick(Vec{1, 1, 0.5, 0.9}), r.pick(Vec{0, 1, 0.1})) + L(pt((int)r.range(0, 2)))); if (r.chance(0.6)) op(solved[sl] ? "res" : "init", sl); }
    else if (w == 18) { if (p.feasible) { op("feasc", sl, F(" %.10g", p.opt + (0.05 + r.uni()) * (1 + std::fabs(p.opt))) + L(pt((int)r.range(0, 2)))); if (r.chance(0.6)) op(solved[sl] ? "res" : "init", sl); } }
    else if (w == 19) op("viol", sl, L(pt((int)r.range(0, 2))));
    else if (w < 22) op("oa", sl, F(" %ld %ld", r.range(0, 2), r.range(0, 1)) + L(pt((int)r.range(0, 2))));
    else if (w == 22) op("oax", sl, F(" %ld %ld", r.range(0, 2), r.range(0, 1)) + L(pt((int)r.range(0, 2))) + L(pt((int)r.range(0, 2))));
    else if (w < 25) { op(solved[sl] ? "res" : "init", sl); solved[sl] = true; op("oas", sl, F(" %ld %ld", r.range(0, 2), r.range(0, 1))); }
    else if (w == 25 && m && !p.fortran) { int c = (int)r.range(0, m - 1); if (!p.con[c].f.linear()) { op(solved[sl] ? "res" : "init", sl); solved[sl] = true; op("con", sl, F(" %d", c) + L(pt((int)r.range(0, 2)))); } }
    else if ((w == 26 || w == 29) && solved[sl]) { op("res", sl); op("bend", sl); }
    else if (w == 27) { bool sv = r.chance(0.5); if (!sv) op(solved[sl] ? "res" : "init", sl); op("lin", sl, F(" %ld %d", r.range(0, 1), sv ? 1 : 0)); solved[sl] = true; }
    else if (w >= 28) op("linx", sl, F(" %ld", r.range(0, 1)) + L(pt((int)r.range(0, 2))));
  }
}
}
