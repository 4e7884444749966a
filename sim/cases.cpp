#include "cases.hpp"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include <sstream>
namespace sim {
static std::string F(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static std::string F(const char *fmt, ...) { char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
uint64_t mixSeed(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  uint64_t x = a; uint64_t h = Rng::sm(x); x = h ^ b; h = Rng::sm(x); x = h ^ c; h = Rng::sm(x); x = h ^ d; return Rng::sm(x);
}
uint64_t Outcome::hash() const {
  uint64_t h = 1469598103934665603ULL;
  auto mix = [&](uint64_t v) { for (int i = 0; i < 8; i++) { h ^= v & 0xff; h *= 1099511628211ULL; v >>= 8; } };
  for (auto &r : recs) { mix(r.hash); mix((uint64_t)r.crash); mix((uint64_t)r.exitCode); mix((uint64_t)r.steps); mix(r.timeout); mix(r.budget); for (auto &l : r.lines) for (char c : l) { h ^= (unsigned char)c; h *= 1099511628211ULL; } }
  for (auto &x : v) for (char c : x.prop + x.cls) { h ^= (unsigned char)c; h *= 1099511628211ULL; }
  return h;
}
enum { ST_SUCCESS = 0, ST_INFEASIBLE, ST_UNBOUNDED, ST_LIMIT, ST_INTERRUPT, ST_ERROR };
static const char *stName(int s) { static const char *n[] = {"SUCCESS", "INFEASIBLE", "CONTINUOUS_UNBOUNDED", "LIMIT_EXCEEDED", "USER_INTERRUPT", "MINLP_ERROR"}; return s >= 0 && s < 6 ? n[s] : "?"; }
enum { MIP_OPT = 0, MIP_INF, MIP_FEAS, MIP_UNB, MIP_NONE };

// ------------------------------------------------------------------ judging
struct Facts { // what the spec asks for, in terms of observable behaviour
  bool timeL, nodeL, solL, iterL, anyLimit; double cutoff; bool hasCutoff; bool fathom; double gap, fgap, decr;
  bool lpBased;
};
static Facts facts(const Spec &s) {
  Facts f;
  f.timeL = s.has("bonmin.time_limit"); f.nodeL = s.has("bonmin.node_limit"); f.solL = s.has("bonmin.solution_limit"); f.iterL = s.has("bonmin.iteration_limit");
  f.anyLimit = f.timeL || f.nodeL || f.solL || f.iterL;
  f.hasCutoff = s.has("bonmin.cutoff"); f.cutoff = s.optd("bonmin.cutoff", 1e100);
  f.fathom = s.opt("bonmin.nlp_failure_behavior") == "fathom";
  f.gap = s.optd("bonmin.allowable_gap", 0); f.fgap = s.optd("bonmin.allowable_fraction_gap", 0); f.decr = s.optd("bonmin.cutoff_decr", 1e-5);
  f.lpBased = s.opt("bonmin.algorithm", "B-BB") != "B-BB";
  return f;
}
static double tolO(const Problem &p, const Facts &f) { double a = std::fabs(p.feasible ? p.opt : 0); return 5e-5 * (1 + a) + f.gap + f.fgap * a * 1.01 / (1 - f.fgap) + std::max(0., f.decr); }
static void judgeSolution(Outcome &o, const Problem &p, bool hasX, const std::vector<double> &x, double obj, const char *who) {
  if (!hasX) return;
  if ((int)x.size() != p.n) { o.v.push_back({"P01", "solution-size", F("%s reports %zu values for %d variables", who, x.size(), p.n)}); return; }
  std::string w; double v = p.viol(x.data(), &w);
  if (!(v <= 1e-5)) o.v.push_back({"P01", "infeasible-point", F("%s reports a point violating the model by %g (%s)", who, v, w.c_str())});
  double t = p.obj.val(x.data());
  if (!(std::fabs(t - obj) <= 2e-5 * (1 + std::fabs(t)))) o.v.push_back({"P01", "objective-mismatch", F("%s reports objective %.9g but the objective at the reported point is %.9g", who, obj, t)});
}
// The run of solve `id` within r
static void judgeSolve(Outcome &o, const Spec &s, const Problem &p, const Rec &r, int id, const Facts &f, bool faulted) {
  const FinalRec *fin = NULL; int nf = 0;
  for (auto &x : r.finals) if (x.id == id) { fin = &x; nf++; }
  const AccRec *acc = NULL; for (auto &x : r.acc) if (x.id == id) acc = &x;
  std::string exc; for (auto &e : r.exc) if (e.first == id) exc = e.second;
  // --- P01
  for (auto &x : r.finals) if (x.id == id) judgeSolution(o, p, x.hasX, x.x, x.obj, "the final report");
  if (acc && (exc.empty())) judgeSolution(o, p, acc->hasX, acc->x, acc->obj, "the solver object");
  // --- P10 exactly one report, agreeing
  if (nf > 1) o.v.push_back({"P10", "several-reports", F("the outcome was reported %d times", nf)});
  if (nf == 0 && exc.empty() && r.finished) o.v.push_back({"P10", "no-report", "the solve returned without reporting an outcome"});
  if (!exc.empty() && exc.find("UnsolvedError") != std::string::npos && r.get("phase", "").substr(0, 5) != "setup") {
    if (nf == 0) o.v.push_back({"P10", "no-report", "the solve threw an error without reporting an outcome"});
    else if (fin->status != ST_ERROR) o.v.push_back({"P10", "error-status", F("the solve threw an error but reported %s", stName(fin->status))});
  }
  if (fin && fin->status == ST_ERROR && exc.empty() && p.nInt()) o.v.push_back({"P10", "error-without-exception", "the outcome is an error although the call returned normally"});
  if (fin && acc && exc.empty()) {
    if (fin->hasX != acc->hasX || fin->x != acc->x) o.v.push_back({"P10", "report-disagrees", "final report and solver object hold different points"});
    if (fin->hasX && !(fin->obj == acc->obj)) o.v.push_back({"P10", "report-disagrees", F("final report says %.12g, solver object says %.12g", fin->obj, acc->obj)});
    int m = acc->mip; bool ok = true;
    switch (fin->status) {
      case ST_SUCCESS: ok = m == MIP_OPT && fin->hasX; break;
      case ST_INFEASIBLE: ok = m == MIP_INF && !fin->hasX; break;
      case ST_LIMIT: case ST_INTERRUPT: ok = fin->hasX ? m == MIP_FEAS : m == MIP_NONE; break;
      default: break;
    }
    if (!ok) o.v.push_back({"P10", "status-mismatch", F("status %s, solution status %d, solution %s", stName(fin->status), m, fin->hasX ? "present" : "absent")});
    if (fin->hasX && acc->bound > acc->obj + tolO(p, f)) o.v.push_back({"P04", "bound-above-value", F("best bound %.9g above the reported value %.9g", acc->bound, acc->obj)});
  }
  bool fathomed = f.fathom && r.warned;
  bool belowCut = !f.hasCutoff || (p.feasible && p.opt < f.cutoff - 2 * tolO(p, f)); // cutoff irrelevant
  bool aboveCut = f.hasCutoff && (!p.feasible || p.opt > f.cutoff + 2 * tolO(p, f));
  // --- P02 / P03 claims
  const char *pO = f.hasCutoff ? "P13" : "P02", *pI = f.hasCutoff ? "P13" : "P03";
  if (s.prop == "P06" && f.anyLimit) pO = pI = "P06";
  if (s.prop == "P07" && faulted) pO = pI = "P07";
  if (s.prop == "P08" && faulted) pO = pI = "P08";
  if (fin && fin->status == ST_SUCCESS && !fathomed && fin->hasX) {
    if (!p.feasible) o.v.push_back({pO, "false-success", "success claimed on an infeasible problem"});
    else if (fin->obj > p.opt + tolO(p, f) && belowCut) o.v.push_back({pO, "not-optimal", F("success claimed with value %.9g, the optimum is %.9g", fin->obj, p.opt)});
    else if (fin->obj < p.opt - tolO(p, f)) o.v.push_back({"P01", "too-good", F("reported value %.9g is better than the optimum %.9g", fin->obj, p.opt)});
  }
  if (fin && fin->status == ST_SUCCESS && !fin->hasX) o.v.push_back({"P10", "success-without-point", "success claimed without a point"});
  if (fin && fin->status == ST_INFEASIBLE && p.feasible && belowCut && !fathomed) o.v.push_back({pI, "false-infeasible", F("infeasibility claimed, but a point of value %.9g exists", p.opt)});
  if (fin && fin->status == ST_UNBOUNDED) o.v.push_back({pI, "false-unbounded", "unboundedness claimed on a bounded problem"});
  if (fin && fin->hasX && f.hasCutoff && fin->obj > f.cutoff + tolO(p, f)) o.v.push_back({"P13", "worse-than-cutoff", F("reported value %.9g is worse than the user's cutoff %.9g", fin->obj, f.cutoff)});
  // --- P04
  if (acc && exc.empty() && p.feasible && belowCut && !fathomed && acc->mip != MIP_INF) {
    if (acc->bound > p.opt + tolO(p, f)) o.v.push_back({"P04", "bound-too-high", F("best bound %.9g exceeds the optimum %.9g (status %s)", acc->bound, p.opt, fin ? stName(fin->status) : "none")});
    if (fin && fin->status == ST_SUCCESS && acc->bound < acc->obj - tolO(p, f) - 1e-4 * std::fabs(acc->obj) - 1.01 * f.fgap * std::max(std::fabs(acc->obj), std::fabs(acc->bound))) o.v.push_back({"P04", "gap-open", F("success claimed with value %.9g but best bound %.9g", acc->obj, acc->bound)});
  }
  // --- total correctness without faults, limits, signals
  if (!faulted && !f.anyLimit) {
    const char *who = f.hasCutoff ? "P13" : p.feasible ? "P02" : "P03";
    // Ipopt itself running into its 3000 iterations is an NLP failure, which by default stops the solve with this error
    bool realFailure = exc.find("Maximum iterations exceeded") != std::string::npos && r.iters >= 3000;
    if (realFailure) ;
    else if (!exc.empty()) o.v.push_back({who, "exception", "fault-free solve threw: " + exc});
    else if (fin) {
      int want = p.feasible && !aboveCut ? ST_SUCCESS : ST_INFEASIBLE;
      if (f.hasCutoff && !belowCut && !aboveCut) want = fin->status;
      if (fin->status != want) o.v.push_back({who, "no-answer", F("fault-free unlimited solve ended with %s instead of %s", stName(fin->status), stName(want))});
    }
  }
}
static void judgeEnd(Outcome &o, const Spec &s, const Rec &r, const std::string &prop) {
  if (r.crash) o.v.push_back({prop, "crash", F("process died with signal %d in %s", r.crash, r.crashSite.c_str())});
  else if (r.timeout) o.v.push_back({prop, "hang", "no progress within the real-time guard"});
  else if (r.budget) o.v.push_back({prop, "livelock", F("more than %ld simulated steps", s.budget)});
}

// P16: how the solve used the model
static void judgeContract(Outcome &o, const Rec &r) {
  static const char *ev[] = {"", "objective", "objective gradient", "constraints", "Jacobian", "Hessian", "one constraint", "one constraint gradient"};
  for (auto &l : r.lines) {
    int id, tag; char k[40]; double a, b;
    if (sscanf(l.c_str(), "contract %d %39s %d %lf %lf", &id, k, &tag, &a, &b) == 5) o.v.push_back({"P16", k, F("evaluation of the %s: %s (%.9g %.9g)", tag >= 1 && tag <= 7 ? ev[tag] : "?", k, a, b)});
  }
}
static bool faulty(const Rec &r) { return r.fired[F_NLP] || r.fired[F_EVAL]; }
static void judgeStop(Outcome &o, const Spec &s, const Problem &p, const Rec &r, const Facts &f) {
  const FinalRec *fin = r.finals.empty() ? NULL : &r.finals.back();
  const AccRec *acc = r.acc.empty() ? NULL : &r.acc.back();
  std::string exc = r.exc.empty() ? "" : r.exc[0].second;
  double best = 1e300; for (auto &x : r.inc) best = std::min(best, x.second);
  // P05 interrupt
  if (r.sigStep >= 0) {
    if (fin && !(fin->status == ST_INTERRUPT || fin->status == ST_SUCCESS || fin->status == ST_INFEASIBLE || (fin->status == ST_LIMIT && f.anyLimit)))
      o.v.push_back({"P05", "status", F("interrupted solve ended with %s", stName(fin->status))});
    if (!exc.empty()) o.v.push_back({"P05", "exception", "interrupted solve threw: " + exc});
    if (fin && fin->status == ST_INFEASIBLE && p.feasible) o.v.push_back({"P05", "false-infeasible", "interrupted solve claims infeasibility of a feasible problem"});
    if (fin && fin->status == ST_SUCCESS && fin->hasX && p.feasible && fin->obj > p.opt + tolO(p, f)) o.v.push_back({"P05", "false-success", F("interrupted solve claims optimality of %.9g, optimum %.9g", fin->obj, p.opt)});
    if (fin && best < 1e299) {
      if (!fin->hasX) o.v.push_back({"P05", "incumbent-lost", F("a solution of value %.9g was found before the interrupt and is not reported", best)});
      else if (fin->obj > best + 1e-4 * (1 + std::fabs(best))) o.v.push_back({"P05", "incumbent-lost", F("a solution of value %.9g was found, %.9g is reported", best, fin->obj)});
    }
    if (r.evalsAfterSig > 600) o.v.push_back({"P05", "late", F("%ld evaluation callbacks after the interrupt", r.evalsAfterSig)});
    if (r.nodesAfterSig > (f.lpBased ? 8 : 3)) o.v.push_back({"P05", "late", F("%ld nodes processed after the interrupt", r.nodesAfterSig)});
    if (r.nlpsAfterSig > 6) o.v.push_back({"P05", "late", F("%ld NLP solves started after the interrupt", r.nlpsAfterSig)});
  }
  // P06 limits
  if (f.anyLimit && r.finished) {
    if (!exc.empty() && r.nlpfails.empty() && !r.fired[F_EVAL]) o.v.push_back({"P06", "exception", "limited solve threw: " + exc});
    double tl = s.optd("bonmin.time_limit", 1e100); long nl = (long)s.optd("bonmin.node_limit", 1e9), sl = (long)s.optd("bonmin.solution_limit", 1e9), il = (long)s.optd("bonmin.iteration_limit", 1e9);
    if (fin && acc && exc.empty()) {
      double used = atof(r.get("used", "0").c_str());
      if (fin->status == ST_LIMIT && !(used >= tl * 0.999 - 1e-3 || acc->nodes >= nl || (long)r.inc.size() >= sl || (f.lpBased && f.solL && fin->hasX) || acc->iters >= il))
        o.v.push_back({"P06", "limit-not-reached", F("a limit is reported as exceeded after %.4g s of %.4g, %d nodes of %ld, %zu solutions of %ld, %d iterations of %ld", used, tl, acc->nodes, nl, r.inc.size(), sl, acc->iters, il)});
      if (fin->status == ST_INTERRUPT && r.sigStep < 0) o.v.push_back({"P06", "status", "interrupt reported without an interrupt"});
      if (fin->status == ST_ERROR && !faulty(r)) o.v.push_back({"P06", "status", "error reported by a limited solve"});
      if (acc->nodes > nl + 1) o.v.push_back({"P06", "node-limit", F("%d nodes explored with a limit of %ld", acc->nodes, nl)});
      // what may still be started: for LP-based searches a few NLPs; in B-BB a round of strong branching, with its repeated solves
      bool hyb = s.opt("bonmin.algorithm") == "B-Hyb"; // its root phases (pump, decomposition) have time limits of their own
      double rep = std::max(std::max(s.optd("bonmin.num_resolve_at_node", 0), s.optd("bonmin.num_resolve_at_infeasibles", 0)), std::max(s.optd("bonmin.num_resolve_at_root", 0), s.optd("bonmin.max_consecutive_infeasible", 0)));
      double nl2 = hyb ? 60 : f.lpBased ? 10 + 2 * p.nInt() : 12 + 4 * p.nInt() * (1 + rep), el = hyb ? 4000 + 6.5 / s.evalCost : 110 * nl2;
      bool heur = false; for (auto &kv : s.opts) heur = heur || kv.first.find("heuristic") != std::string::npos || kv.first.find("pump") != std::string::npos;
      if (f.lpBased && !heur) nl2 = hyb ? nl2 : 8; // no heuristic: the NLP in progress and the one of the integer point at hand
      if (r.nodesAfterDl > (f.lpBased ? 20 : 3)) o.v.push_back({"P06", "time-limit", F("%ld nodes processed after the time limit", r.nodesAfterDl)});
      if (r.evalsAfterDl > el || r.nlpsAfterDl > nl2) o.v.push_back({"P06", "time-limit", F("%ld evaluation callbacks and %ld NLP solves after the time limit", r.evalsAfterDl, r.nlpsAfterDl)});
      if (best < 1e299) {
        if (!fin->hasX) o.v.push_back({"P06", "incumbent-lost", F("a solution of value %.9g was found and is not reported", best)});
        else if (fin->obj > best + 1e-4 * (1 + std::fabs(best))) o.v.push_back({"P06", "incumbent-lost", F("a solution of value %.9g was found, %.9g is reported", best, fin->obj)});
      }
    }
  }
  if (s.prop == "P08" && r.finished && !r.nlpfails.empty()) {
    if (!exc.empty()) o.v.push_back({"P08", "exception", "a transient failure ended the solve: " + exc});
    else if (fin && fin->status != (p.feasible ? ST_SUCCESS : ST_INFEASIBLE)) o.v.push_back({"P08", "no-answer", F("after a transient failure the solve ended with %s", stName(fin->status))});
  }
  if (s.prop == "P07" && r.finished && faulty(r)) {
    if (!exc.empty() && exc.find("UnsolvedError") == std::string::npos) o.v.push_back({"P07", "exception-kind", "a failed NLP solve surfaced as: " + exc});
    if (fin && exc.empty() && !(fin->status == ST_SUCCESS || fin->status == ST_INFEASIBLE)) o.v.push_back({"P07", "status", F("after a failure the solve ended with %s", stName(fin->status))});
  }
}

static double kvn(const Rec &r, const char *k, int i) { std::istringstream in(r.get(k, "")); double v = -1; for (int j = 0; j <= i; j++) if (!(in >> v)) return -1; return v; }
// P12: the last solve of a process that has done other solves, against the same solve in a process of its own
static void judgeMulti(Outcome &o, const Spec &s, const Problem &p, double realTimeout, bool verbose) {
  Spec one = s; one.prog = "solve"; one.extra.clear(); one.faults.clear(); one.unset("bonmin.time_limit");
  Rec a = runSpec(one, p, realTimeout, verbose); Facts fo = facts(one);
  Outcome oa; judgeEnd(oa, one, a, "P02"); judgeSolve(oa, one, p, a, 0, fo, false);
  Rec r = runSpec(s, p, realTimeout, verbose); o.recs.push_back(r); o.recs.push_back(a);
  if (!oa.v.empty() || a.finals.size() != 1 || a.acc.size() != 1) { o.note = "the solve on its own already fails"; return; }
  if (r.get("last", "").empty()) { o.note = "an earlier solve did not end"; return; } // other properties judge that
  judgeEnd(o, s, r, "P12");
  if (!r.finished) return;
  Outcome om; Spec t = s; t.unset("bonmin.time_limit"); judgeSolve(om, t, p, r, 0, facts(t), false);
  for (auto &v : om.v) o.v.push_back({"P12", v.cls, "after other solves in the process: " + v.msg});
  const FinalRec *x = NULL; const AccRec *y = NULL; for (auto &q : r.finals) if (q.id == 0) x = &q; for (auto &q : r.acc) if (q.id == 0) y = &q;
  if (!x || !y) return;
  const FinalRec &fa = a.finals[0]; const AccRec &aa = a.acc[0];
  if (x->status != fa.status || x->hasX != fa.hasX) o.v.push_back({"P12", "answer-differs", F("on its own the solve ends with %s, after other solves with %s", stName(fa.status), stName(x->status))});
  else if (s.optd("bonmin.random_generator_seed", 0) > 0 && s.ex("mode") != "pre" && !s.has("bonmin.time_limit")) // with a seed the whole run is repeatable
   if (x->obj != fa.obj || x->x != fa.x || y->nodes != aa.nodes || y->bound != aa.bound) o.v.push_back({"P12", "run-differs", F("on its own value %.12g bound %.12g after %d nodes, after other solves %.12g, %.12g, %d", fa.obj, aa.bound, aa.nodes, x->obj, y->bound, y->nodes)});
}
void judgeIface(Outcome &o, const Spec &s, const Problem &p, const Rec &r);
void genIface(const std::string &prop, Rng &r, Spec &s);
Outcome judge(const Spec &s, double realTimeout, bool verbose) {
  Outcome o; Problem p = makeProblem(s.pseed, s.fam); Facts f = facts(s);
  if (s.prog == "multi") { judgeMulti(o, s, p, realTimeout, verbose); return o; }
  Rec r = runSpec(s, p, realTimeout, verbose); o.recs.push_back(r);
  if (s.prog == "iface") { judgeEnd(o, s, r, s.prop); judgeIface(o, s, p, r); return o; }
  if (s.prop == "P16") judgeContract(o, r);
  bool faulted = false; for (auto &x : s.faults) faulted = faulted || x.kind != F_JUMP;
  judgeEnd(o, s, r, s.prop);
  judgeSolve(o, s, p, r, 0, f, faulted);
  judgeStop(o, s, p, r, f);
  return o;
}

// --------------------------------------------------------------- generation
bool hasFaultStage(const std::string &prop) { return prop != "P02" && prop != "P03" && prop != "P13"; }
static std::string I(long v) { return std::to_string(v); }
static std::string D(double v) { return F("%.10g", v); }
static void genHeur(Rng &r, Spec &s) {
  static const char *h[] = {"heuristic_dive_fractional", "heuristic_dive_vectorLength", "heuristic_dive_MIP_fractional", "heuristic_dive_MIP_vectorLength", "heuristic_feasibility_pump", "MILP_rounding_heuristic", "heuristic_RINS"};
  double q = r.pick(std::vector<double>{0, 0.15, 0.4});
  for (auto k : h) if (r.chance(q)) s.set(std::string("bonmin.") + k, "yes");
}
static void genSearch(Rng &r, Spec &s, int algMask = 15) {
  std::vector<std::string> algs;
  if (algMask & 1) { algs.push_back("B-BB"); algs.push_back("B-BB"); }
  if (algMask & 2) algs.push_back("B-OA");
  if (algMask & 4) algs.push_back("B-QG");
  if ((algMask & 8) && !(s.fam & FAM_DEEP)) algs.push_back("B-Hyb"); // deep: its root cut loop may cycle for hours inside Cbc
  std::string alg = r.pick(algs);
  s.set("bonmin.algorithm", alg);
  double q = r.pick(std::vector<double>{0.0, 0.25, 0.6}); // swarm density of non-default features
  auto on = [&] { return r.chance(q); };
  auto B = [&](const char *k, const std::string &v) { s.set(std::string("bonmin.") + k, v); };
  if (alg == "B-BB") {
    if (on()) B("variable_selection", r.pick(std::vector<std::string>{"osi-strong", "most-fractional", "random", "nlp-strong-branching", "qp-strong-branching"}));
    if (on()) B("node_comparison", r.pick(std::vector<std::string>{"best-bound", "depth-first", "breadth-first", "dynamic", "best-guess"}));
    if (on()) B("tree_search_strategy", r.pick(std::vector<std::string>{"top-node", "dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic"}));
    if (on()) B("number_strong_branch", I(r.pick(std::vector<long>{1, 2, 5, 20})));
    if (on()) B("number_before_trust", I(r.pick(std::vector<long>{0, 1, 2, 8})));
    if (on()) B("number_look_ahead", I(r.pick(std::vector<long>{0, 1, 2, 5})));
    if (on()) B("warm_start", r.pick(std::vector<std::string>{"none", "optimum", "interior_point"}));
    if (on()) B("num_resolve_at_root", I(r.range(0, 3)));
    if (on()) B("num_resolve_at_node", I(r.range(0, 2)));
    if (on()) B("num_resolve_at_infeasibles", I(r.range(0, 2)));
    if (on()) B("max_consecutive_infeasible", I(r.range(0, (s.fam & FAM_INFEAS) ? 1 : 3)));
    if (on()) B("max_consecutive_failures", I(r.pick(std::vector<long>{0, 1, 10})));
    if (on()) B("num_retry_unsolved_random_point", I(r.range(0, 3)));
    if (on()) B("random_point_type", r.pick(std::vector<std::string>{"Jon", "Andreas"}));
    if (on()) B("candidate_sort_criterion", r.pick(std::vector<std::string>{"best-ps-cost", "worst-ps-cost", "most-fractional", "least-fractional"}));
    if (on()) B("min_number_strong_branch", I(r.range(0, 3)));
    if (on()) B("number_strong_branch_root", I(r.pick(std::vector<long>{1, 5, 100})));
    if (on()) B("number_before_trust_list", I(r.range(0, 3)));
    if (on()) B("setup_pseudo_frac", D(r.pick(std::vector<double>{0.1, 0.5, 1.0})));
    if (on()) B("maxmin_crit_no_sol", D(r.pick(std::vector<double>{0., 0.7, 1.0})));
    if (on()) B("maxmin_crit_have_sol", D(r.pick(std::vector<double>{0., 0.1, 1.0})));
    if (on()) B("trust_strong_branching_for_pseudo_cost", r.pick(std::vector<std::string>{"yes", "no"}));
    if (r.chance(q * 0.2)) B("warm_start", "fake_basis");
    if (r.chance(q * 0.3)) B("resolve_on_small_infeasibility", "1e-4");
    if (on()) B("max_random_point_radius", D(r.pick(std::vector<double>{1, 10, 1e5})));
    if (on()) B("random_point_perturbation_interval", D(r.pick(std::vector<double>{0.5, 1, 10})));
  }
  else {
    B("variable_selection", r.pick(std::vector<std::string>{"most-fractional", "osi-simple", "osi-strong"}));
    if (on()) B("node_comparison", r.pick(std::vector<std::string>{"best-bound", "depth-first", "breadth-first", "dynamic"}));
    if (on()) B("tree_search_strategy", r.pick(std::vector<std::string>{"top-node", "dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic"}));
    for (auto k : {"Gomory_cuts", "cover_cuts", "mir_cuts", "2mir_cuts", "flow_cover_cuts", "lift_and_project_cuts", "reduce_and_split_cuts", "clique_cuts"})
      if (on()) B(k, I(r.pick(std::vector<long>{-5, -99, 0, 1, 5})));
    if (on()) B("oa_cuts_scope", r.pick(std::vector<std::string>{"local", "global"}));
    if (on()) B("add_only_violated_oa", r.pick(std::vector<std::string>{"yes", "no"}));
    if (on()) B("num_cut_passes", I(r.range(0, 3)));
    if (on()) B("num_cut_passes_at_root", I(r.pick(std::vector<long>{0, 1, 20})));
    if (alg == "B-Hyb") {
      if (on()) B("nlp_solve_frequency", I(r.pick(std::vector<long>{0, 1, 2, 10})));
      if (on()) B("nlp_solve_max_depth", I(r.pick(std::vector<long>{0, 1, 3, 10})));
      if (on()) B("filmint_ecp_cuts", I(r.pick(std::vector<long>{0, 1, 5})));
      if (on()) B("ecp_max_rounds", I(r.pick(std::vector<long>{0, 1, 5})));
      if (on()) B("oa_decomposition", r.pick(std::vector<std::string>{"yes", "no"}));
      if (r.chance(q * 0.4)) B("nlp_solves_per_depth", "0.5");
    }
    if (alg != "B-OA") {
      if (on()) B("feas_check_cut_types", r.pick(std::vector<std::string>{"outer-approx", "Benders"}));
      if (on()) B("feas_check_discard_policy", r.pick(std::vector<std::string>{"detect-cycles", "keep-all", "treated-as-normal"}));
      if (on()) B("generate_benders_after_so_many_oa", I(r.pick(std::vector<long>{1, 5, 5000})));
    }
    if (on()) B("milp_strategy", r.pick(std::vector<std::string>{"find_good_sol", "solve_to_optimality"}));
    if (r.chance(q * 0.3)) B("milp_solver", "Cbc_Par");
    Rng oaRng(s.pseed * 2654435761ull + 17);
    if (oaRng.chance(0.25)) s.set("oa_decomposition.milp_strategy", "find_good_sol"); // the decomposition reads its own prefix
    if (oaRng.chance(0.1)) s.set("oa_decomposition.milp_solver", "Cbc_Par");
    if (r.chance(q * 0.3)) B("fp_pass_infeasible", "yes");
    if (r.chance(q * 0.3)) B("tiny_element", "1e-7");
    if (r.chance(q * 0.3)) B("oa_rhs_relax", "1e-9");
  }
  if (s.has("bonmin.tree_search_strategy")) {
    if (on()) B("stop_diving_on_cutoff", "yes");
    if (on()) B("max_backtracks_in_dive", I(r.pick(std::vector<long>{0, 1, 2, 3, 5})));
    if (on()) B("max_dive_depth", I(r.pick(std::vector<long>{0, 1, 2, 3, 5})));
  }
  if (r.chance(q * 0.3)) B("feasibility_pump_objective_norm", "2");
  if (r.chance(q * 0.3)) B("unstable_fp", "yes");
  if (alg == "B-BB" && s.opt("bonmin.variable_selection") == "most-fractional") { s.unset("bonmin.max_consecutive_infeasible"); s.unset("bonmin.number_before_trust"); s.unset("bonmin.number_strong_branch"); if (s.opt("bonmin.node_comparison") == "best-guess") s.unset("bonmin.node_comparison"); }
  if (s.fam & FAM_DEEP) for (auto k : {"num_resolve_at_root", "num_resolve_at_node", "num_resolve_at_infeasibles", "max_consecutive_infeasible", "min_number_strong_branch", "number_before_trust", "number_strong_branch"}) s.unset(std::string("bonmin.") + k); // hundreds of nodes: keep each cheap
  if (alg != "B-BB") { s.unset("bonmin.lift_and_project_cuts"); s.unset("bonmin.reduce_and_split_cuts"); }
  if (alg != "B-BB" && (s.has("bonmin.feas_check_cut_types") || s.has("bonmin.generate_benders_after_so_many_oa"))) {
    Problem p = makeProblem(s.pseed, s.fam); // known finding: Benders cuts are empty when every variable is integer
    if (p.nInt() == p.n) { s.unset("bonmin.feas_check_cut_types"); s.unset("bonmin.generate_benders_after_so_many_oa"); }
  }
  if (on()) B("random_generator_seed", I(r.range(0, 1000)));
  if (on()) B("cutoff_decr", D(r.pick(std::vector<double>{1e-5, 0, 1e-4})));
  if (s.opt("oa_decomposition.milp_strategy") != "" && s.optd("bonmin.cutoff_decr", 1) <= 0) s.unset("bonmin.cutoff_decr"); // known: DESIGN.md
  if (r.chance(q * 0.15)) B("allowable_gap", D(r.pick(std::vector<double>{0.1, 0.5, 2})));
  if (r.chance(q * 0.15)) B("allowable_fraction_gap", D(r.pick(std::vector<double>{0.01, 0.1})));
  genHeur(r, s);
}
static void genProblem(Rng &r, Spec &s, bool infeas = false, double deep = 0) {
  s.pseed = (uint64_t)r.range(1, 2000000000L);
  int fam = 0;
  if (r.chance(infeas ? deep * 0.3 : deep)) { // a search of tens to hundreds of nodes
    fam = FAM_DEEP; if (infeas) fam |= FAM_INFEAS; else if (r.chance(0.2)) fam |= FAM_LINOBJ;
    if (r.chance(0.15)) fam |= FAM_PRIO;
    if (r.chance(0.15)) fam |= FAM_DIR;
    s.fam = fam; return;
  }
  if (r.chance(0.08)) fam |= FAM_DIR;
  if (infeas) fam |= FAM_INFEAS;
  else {
    if (r.chance(0.5)) fam |= FAM_PLANTED;
    if (r.chance(0.06)) fam |= FAM_NOCON;
    if (r.chance(0.05)) fam |= FAM_PURECONT;
  }
  if (r.chance(0.15)) fam |= FAM_LINOBJ;
  if (r.chance(0.15)) fam |= FAM_PRIO;
  if (r.chance(0.08)) fam |= FAM_LINEAR;
  if (r.chance(0.15)) fam |= FAM_BIG;
  s.fam = fam;
}
static void genMulti(Rng &r, Spec &s);
static bool mixProp(const std::string &p) { return p == "P01" || p == "P04" || p == "P10" || p == "P11" || p == "P16"; }
Spec genBase(const std::string &prop, Rng &r) {
  Spec s; s.prop = prop; s.prog = "solve";
  bool inf = prop == "P03" ? r.chance(0.7) : (prop == "P14" || prop == "P15" || prop == "P05" || prop == "P06" || prop == "P07" || prop == "P08" || prop == "P10") ? r.chance(0.2) : false;
  bool faultStage = hasFaultStage(prop);
  genProblem(r, s, inf, prop == "P06" || prop == "P05" ? 0.15 : faultStage ? 0.06 : 0.12);
  if (prop == "P13" || prop == "P06" || prop == "P07" || prop == "P08") s.fam &= ~FAM_PURECONT; // no search, no cutoff
  s.evalCost = s.iterCost = r.pick(std::vector<double>{1e-3, 2e-3, 5e-3}); // how slow the simulated machine is: decides when internal (30 s) phase limits strike
  if (prop == "P14" || prop == "P15") { genIface(prop, r, s); return s; }
  genSearch(r, s);
  if (prop == "P12") genMulti(r, s);
  if (prop == "P06" && Rng(s.pseed + 99).chance(0.12)) { // long alternations of MILPs and NLPs
    std::string strat = s.opt("oa_decomposition.milp_strategy"); s.opts.clear(); s.fam = FAM_DEEP; s.set("bonmin.algorithm", "B-OA");
    if (strat != "") s.set("oa_decomposition.milp_strategy", strat);
  }
  if (s.opt("bonmin.algorithm") == "B-Hyb" || s.has("bonmin.heuristic_feasibility_pump")) s.evalCost = s.iterCost = s.evalCost * ((s.fam & FAM_DEEP) ? 8 : 2); // the pump's LP grows until its simulated phase limit
  if (prop == "P13") {
    Problem p = makeProblem(s.pseed, s.fam);
    double a = std::fabs(p.feasible ? p.opt : 0) + 1, c;
    switch (r.range(0, 4)) { case 0: c = p.opt - a * (0.01 + r.uni()); break; case 1: c = p.opt + a * (0.002 + 0.05 * r.uni()); break; case 2: c = p.opt + a * r.uni() * 3; break; case 3: c = p.second < 1e299 ? 0.5 * (p.opt + p.second) : p.opt + 1; break; default: c = p.opt - a * 0.003; }
    s.set("bonmin.cutoff", D(c));
  }
  return s;
}
static void genMulti(Rng &r, Spec &s) {
  s.prog = "multi"; s.budget = 20000000;
  s.extra.push_back("mode " + r.pick(std::vector<std::string>{"seq", "seq", "keep", "pre"}));
  int n = (int)r.range(1, 3);
  if (r.chance(0.5)) s.set("bonmin.random_generator_seed", I(r.range(1, 1000)));
  for (int i = 0; i < n; i++) {
    Spec t; t.prop = "P02"; genProblem(r, t, r.chance(0.2), 0.05); genSearch(r, t);
    if (r.chance(0.25)) { t.pseed = s.pseed; t.fam = s.fam; if (r.chance(0.5)) t.opts = s.opts; }
    if (r.chance(0.25)) t.set("bonmin.node_limit", I(r.range(0, 3)));
    if (r.chance(0.15)) t.set("bonmin.time_limit", D(0.01 + 0.5 * r.uni()));
    if (r.chance(0.15)) t.set("bonmin.solution_limit", "1");
    if (r.chance(0.15)) { Problem p = makeProblem(t.pseed, t.fam); t.set("bonmin.cutoff", D(p.feasible ? p.opt + (r.chance(0.3) ? -0.5 : 1.0) : 0)); }
    std::string e = F("solve %llu %d", (unsigned long long)t.pseed, t.fam);
    for (auto &kv : t.opts) e += " " + kv.first + "=" + kv.second;
    s.extra.push_back(e);
  }
}
static void addLimits(Rng &r, Spec &s, const Rec &q) {
  int k = (int)r.range(0, 3); double used = std::max(1e-3, q.vt - 1000);
  int nodes = q.acc.empty() ? 0 : q.acc[0].nodes;
  if (k == 0) { s.set("bonmin.time_limit", D(used * (r.chance(0.5) ? r.uni() : 0.3 + r.uni()) + 1e-4)); if (r.chance(0.4)) { s.evalCost *= 20; s.iterCost *= 20; } }
  else if (k == 1 && r.chance(0.5)) { // most of the allowance is gone before the search proper begins
    double l = used * (0.15 + 0.6 * r.uni()); s.set("bonmin.time_limit", D(l));
    s.faults.push_back(Fault(F_JUMP, r.chance(0.6) ? r.range(1, std::max(2L, q.steps / 20)) : r.range(1, std::max(2L, q.steps / 3)), l * (0.4 + 0.7 * r.uni())));
  }
  else if (k == 1) { s.set("bonmin.time_limit", D(used * 1.5 + r.uni() * used)); s.faults.push_back(Fault(F_JUMP, r.range(1, std::max(2L, q.steps)), used * (0.5 + 4 * r.uni()))); }
  else if (k == 2) s.set("bonmin.node_limit", I(r.chance(0.2) ? 0 : r.range(1, std::max(2, nodes + 1))));
  else s.set("bonmin.solution_limit", I(r.range(1, 3)));
}
static void addNlpFaults(Rng &r, Spec &s, const Rec &q, bool recoverable) {
  std::vector<long> codes = {NF_MAXITER, NF_RESTO, NF_USERSTOP, NF_INTERNAL};
  if (!recoverable) for (long c : {NF_STEP, NF_MEM, NF_INVNUM, NF_FEWDOF, NF_TINY}) codes.push_back(c);
  int n = (int)r.pick(std::vector<long>{1, 1, 2, 4});
  for (int i = 0; i < n; i++) {
    long at = r.range(1, std::max(1L, q.nlps)); double b;
    switch (r.range(0, 2)) { case 0: b = -1; break; case 1: b = (double)r.range(0, 3); break; default: b = (double)r.range(0, 12); }
    if (!recoverable && r.chance(0.2)) b = 1000 + (double)r.range(2, 12);
    s.faults.push_back(Fault(F_NLP, at, (double)r.pick(codes), b));
  }
}
static void addEvalFaults(Rng &r, Spec &s, const Rec &q) {
  int n = (int)r.range(1, 2);
  for (int i = 0; i < n; i++) s.faults.push_back(Fault(F_EVAL, r.range(1, std::max(1L, q.evals)), (double)r.range(0, 1), (double)r.logrange(1, 40)));
}
static void addSig(Rng &r, Spec &s, const Rec &q) {
  long at = !q.incStep.empty() && r.chance(0.45) ? r.range(q.incStep[0], std::max(q.incStep[0] + 1, q.steps)) : r.chance(0.3) ? r.range(1, std::max(2L, q.steps / 10)) : r.range(1, std::max(2L, q.steps));
  s.faults.push_back(Fault(F_SIG, at));
}
Spec genFaults(const std::string &prop, const Spec &base, const Outcome &probe, Rng &r) {
  Spec s = base; const Rec &q = probe.recs[0];
  if (prop == "P05") { addSig(r, s, q); if (r.chance(0.15)) addLimits(r, s, q); }
  else if (prop == "P06") { addLimits(r, s, q); if (r.chance(0.2)) addLimits(r, s, q); }
  else if (prop == "P07") { s.set("bonmin.nlp_failure_behavior", r.pick(std::vector<std::string>{"stop", "fathom"})); if (r.chance(0.8)) addNlpFaults(r, s, q, false); else addEvalFaults(r, s, q); }
  else if (prop == "P14" || prop == "P15") {
    long k = r.range(1, 4); addNlpFaults(r, s, q, true); s.faults.resize(1);
    if (prop == "P14" || r.chance(0.5)) { s.set("bonmin.num_retry_unsolved_random_point", I(k)); if (r.chance(0.4)) s.faults[0].b = (r.chance(0.5) ? 1000 : 2000) + (double)r.range(2, k + 1); }
  }
  else if (prop == "P08") { // one failure, or a burst that the allowed retries (one from the default point, then the random ones) still outlast
    long k = r.range(1, 5); s.set("bonmin.num_retry_unsolved_random_point", I(k)); addNlpFaults(r, s, q, true); s.faults.resize(1);
    if (r.chance(0.5)) s.faults[0].b = (r.chance(0.5) ? 1000 : 2000) + (double)(r.chance(0.4) ? k + 1 : r.range(2, k + 1));
  }
  else if (prop == "P12") {
    double steps = std::max(2., kvn(q, "last", 0)), nlps = std::max(1., kvn(q, "last", 1));
    int k = (int)r.range(0, 3);
    if (k & 1) s.faults.push_back(Fault(F_SIG, r.range(1, (long)steps)));
    if (k & 2) s.faults.push_back(Fault(F_NLP, r.range(1, (long)nlps), (double)r.pick(std::vector<long>{NF_MAXITER, NF_RESTO, NF_USERSTOP, NF_INTERNAL}), (double)r.pick(std::vector<long>{-1, 2, 1000 + 30, 2000 + 30})));
    if (s.ex("mode") != "pre" && r.chance(0.4)) { double own = kvn(q, "lastdone", 2); if (own > 0) { s.set("bonmin.time_limit", D(own * (1.3 + r.uni()) + 6)); s.faults.push_back(Fault(F_JUMP, r.range(1, (long)steps), own * 20 + 20)); } }
  }
  else if (mixProp(prop)) {
    int k = (int)r.range(1, 7);
    if (k & 1) { addLimits(r, s, q); if (r.chance(0.2)) addLimits(r, s, q); }
    if (k & 2) { s.set("bonmin.num_retry_unsolved_random_point", "6"); addNlpFaults(r, s, q, true); }
    if (k & 4) addSig(r, s, q);
  }
  return s;
}
}
