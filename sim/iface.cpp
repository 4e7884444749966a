// Program "iface": a seeded history of operations on Bonmin's NLP interface (bounds, solves, hot starts,
// clones, warm starts, feasibility problems, linearisations).  Everything observable is recorded; the
// reference model that judges it runs in the searching process (judge_iface.cpp).
#include "run.hpp"
#include "model.hpp"
#include "BonBonminSetup.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonTNLPSolver.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiCuts.hpp"
#include <sstream>
#include <cstdio>
#include <cstring>
using namespace Ipopt;
using namespace Bonmin;
namespace sim {
static std::string nums(const double *v, int n) { std::string o; char b[40]; for (int j = 0; j < n; j++) { double d = v ? v[j] : NAN; snprintf(b, sizeof b, " %.17g", d); o += b; W.mixd(d); } return o; }
template <class F> static bool caught(int id, F f) {
  try { f(); return true; }
  catch (TNLPSolver::UnsolvedError *E) { say("exc %d UnsolvedError %s", id, E->errorName().c_str()); delete E; }
  catch (OsiTMINLPInterface::SimpleError &E) { say("exc %d SimpleError %s %s", id, E.methodName().c_str(), E.message().c_str()); }
  catch (CoinError &E) { say("exc %d CoinError %s %s", id, E.methodName().c_str(), E.message().c_str()); }
  catch (std::exception &E) { say("exc %d std %s", id, E.what()); }
  catch (...) { say("exc %d unknown", id); }
  return false;
}
static void row(int i, int r, double lb, double ub, const CoinPackedVectorBase &v, bool glob) {
  std::string o; char b[80];
  for (int k = 0; k < v.getNumElements(); k++) { snprintf(b, sizeof b, " %d %.17g", v.getIndices()[k], v.getElements()[k]); o += b; W.mixd(v.getElements()[k]); }
  W.mixd(lb); W.mixd(ub);
  say("orow %d %d %d %.17g %.17g%s", i, r, glob ? 1 : 0, lb, ub, o.c_str());
}
static void rows(int i, OsiCuts &cs) { for (int k = 0; k < cs.sizeRowCuts(); k++) row(i, k, cs.rowCut(k).lb(), cs.rowCut(k).ub(), cs.rowCut(k).row(), cs.rowCut(k).globallyValid()); say("orows %d %d %d", i, cs.sizeRowCuts(), cs.sizeColCuts()); }

void ifaceMain(const Spec &s, const Problem &p) {
  CoinMessageHandler h; h.setLogLevel(0);
  SmartPtr<SimModel> m = new SimModel(p, 0); SmartPtr<TMINLP> tm = GetRawPtr(m);
  BonminSetup setup(&h); bool up = false;
  caught(-1, [&] {
    setup.initializeOptionsAndJournalist();
    setup.readOptionsString("bonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nprint_level 0\nsb yes\n");
    std::string t; for (auto &kv : s.opts) t += kv.first + " " + kv.second + "\n"; setup.readOptionsString(t);
    setup.initialize(tm); up = true;
  });
  if (!up) return;
  int n = p.n, mm = (int)p.con.size();
  OsiTMINLPInterface *S[3] = {setup.nonlinearSolver(), NULL, NULL}; CoinWarmStart *ws[3] = {NULL, NULL, NULL}; bool hot[3] = {false, false, false}, fresh[3] = {false, false, false}; // fresh: nothing changed since the slot's last solve
  std::vector<int> all; for (int j = 0; j < n; j++) all.push_back(j);
  int i = -1;
  for (auto &e : s.extra) {
    std::istringstream in(e); std::string w, k; int sl; in >> w; if (w != "op") continue; i++;
    in >> k >> sl; std::vector<double> a; double d; while (in >> d) a.push_back(d);
    if (sl < 0 || sl > 2 || !S[sl]) continue;
    OsiTMINLPInterface *I = S[sl];
    W.event(E_MARK, 100 + (long)k[0]);
    long f0 = W.nlpFailures;
    bool solved = false, was = fresh[sl];
    if (!was && (k == "oas" || k == "con" || k == "bend" || k == "mark" || k == "save" || (k == "lin" && a[1] == 0))) continue; // need the result of a solve
    fresh[sl] = was && (k == "clone" || k == "oas" || k == "con" || k == "bend" || k == "oa" || k == "oax" || k == "viol" || k == "save");
    bool ok = caught(i, [&] {
      if (k == "bnd") { int j = (int)a[0]; I->setColLower(j, a[1]); I->setColUpper(j, a[2]); }
      else if (k == "box") { I->setColLower(&a[0]); I->setColUpper(&a[n]); }
      else if (k == "init") { I->initialSolve(); solved = true; }
      else if (k == "res") { I->resolve(); solved = true; }
      else if (k == "cost") { I->resolve(); I->resolveForCost((int)a[0], a[1] != 0); solved = true; }
      else if (k == "mark") { I->markHotStart(); hot[sl] = true; }
      else if (k == "hot") { if (hot[sl]) { I->solveFromHotStart(); solved = true; } }
      else if (k == "unmark") { if (hot[sl]) { I->unmarkHotStart(); say("ounmark %d %d", i, I->isAbandoned() ? -1 : I->isProvenOptimal() ? 1 : I->isProvenPrimalInfeasible() ? 0 : 2); } hot[sl] = false; }
      else if (k == "clone") { int t = (int)a[0]; if (t != sl && t > 0 && t < 3) { delete S[t]; S[t] = NULL; hot[t] = fresh[t] = false; S[t] = dynamic_cast<OsiTMINLPInterface *>(I->clone());
          if (was) { auto df = [](const double *x, const double *y, int k) { int d = 0; for (int j = 0; j < k; j++) if (memcmp(x + j, y + j, sizeof(double))) d++; return d; };
            say("oclone %d %d %d %d %d %d", i, df(I->getColSolution(), S[t]->getColSolution(), n), df(I->getRowPrice(), S[t]->getRowPrice(), 2 * n + mm), df(I->getRowActivity(), S[t]->getRowActivity(), mm), df(I->getColLower(), S[t]->getColLower(), n) + df(I->getColUpper(), S[t]->getColUpper(), n), I->getObjValue() != S[t]->getObjValue()); } } }
      else if (k == "drop") { if (sl > 0) { delete S[sl]; S[sl] = NULL; hot[sl] = false; } }
      else if (k == "save") { delete ws[(int)a[0]]; ws[(int)a[0]] = I->getWarmStart(); }
      else if (k == "rest") { if (ws[(int)a[0]]) I->setWarmStart(ws[(int)a[0]]); }
      else if (k == "start") { I->setColSolution(&a[0]); say("ostart %d%s", i, nums(I->getColSolution(), n).c_str()); }
      else if (k == "rand") { I->randomStartingPoint(); say("ostart %d%s", i, nums(I->getColSolution(), n).c_str()); }
      else if (k == "nost") I->setColSolution(NULL);
      else if (k == "oa") { OsiCuts cs; I->getOuterApproximation(cs, &a[2], (int)a[0], NULL, a[1] != 0); rows(i, cs); }
      else if (k == "oax") { OsiCuts cs; std::vector<double> x2(a.begin() + 2 + n, a.end()); x2.push_back(p.obj.val(&a[2]) - 1); I->getOuterApproximation(cs, &a[2], (int)a[0], &x2[0], a[1] != 0); rows(i, cs); }
      else if (k == "oas") { OsiCuts cs; say("oat %d%s", i, nums(I->getColSolution(), n).c_str()); I->getOuterApproximation(cs, (int)a[0], NULL, a[1] != 0); rows(i, cs); }
      else if (k == "con") { OsiCuts cs; I->getConstraintOuterApproximation(cs, (int)a[0], &a[1], NULL, true); rows(i, cs); }
      else if (k == "bend") { OsiCuts cs; say("oat %d%s", i, nums(I->getColSolution(), n).c_str()); I->getBendersCut(cs, true); rows(i, cs); }
      else if (k == "lin" || k == "linx") {
        OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0);
        if (k == "lin") { say("obnd %d%s%s", i, nums(I->getColLower(), n).c_str(), nums(I->getColUpper(), n).c_str()); I->extractLinearRelaxation(si, a[0] != 0, a[1] != 0); }
        else I->extractLinearRelaxation(si, &a[1], a[0] != 0);
        const CoinPackedMatrix *mr = si.getMatrixByRow(); int nc = si.getNumCols();
        for (int r = 0; r < si.getNumRows(); r++) { CoinShallowPackedVector v = mr->getVector(r); row(i, r, si.getRowLower()[r], si.getRowUpper()[r], v, true); }
        double off = 0; si.getDblParam(OsiObjOffset, off); std::string it; for (int j = 0; j < nc; j++) it += si.isInteger(j) ? "1" : "0";
        say("olin %d %d %d %.17g %s%s%s%s", i, si.getNumRows(), nc, off, it.c_str(), nums(si.getObjCoefficients(), nc).c_str(), nums(si.getColLower(), nc).c_str(), nums(si.getColUpper(), nc).c_str());
      }
      else if (k == "feas") { double v = I->solveFeasibilityProblem(n, &a[2], &all[0], a[0], a[1], 2); say("ofeas %d %d %d %.17g%s", i, I->isProvenOptimal() ? 1 : I->isProvenPrimalInfeasible() ? 0 : -1, (int)(W.nlpFailures - f0), v, nums(I->getColSolution(), n).c_str()); }
      else if (k == "feasc") { double v = I->solveFeasibilityProblem(n, &a[1], &all[0], 2, a[0]); say("ofeas %d %d %d %.17g%s", i, I->isProvenOptimal() ? 1 : I->isProvenPrimalInfeasible() ? 0 : -1, (int)(W.nlpFailures - f0), v, nums(I->getColSolution(), n).c_str()); }
      else if (k == "viol") { double f = 0; double v = I->getConstraintsViolation(&a[0], f); say("oviol %d %.17g %.17g", i, v, f); }
      else say("obad %s", k.c_str());
    });
    if (solved) fresh[sl] = ok;
    if (ok && solved) {
      int st = I->isAbandoned() ? -1 : I->isProvenOptimal() ? 1 : I->isProvenPrimalInfeasible() ? 0 : 2;
      W.mix((uint64_t)(st + 5));
      say("obnd %d%s%s", i, nums(I->getColLower(), n).c_str(), nums(I->getColUpper(), n).c_str());
      bool same = (int)W.nlpLb.size() == n; for (int j = 0; same && j < n; j++) same = W.nlpLb[j] == I->getColLower()[j] && W.nlpUb[j] == I->getColUpper()[j];
      say("oipopt %d %d %d", i, W.lastIpopt, same ? 1 : 0);
      say("osol %d %d %d %.17g%s%s%s", i, st, (int)(W.nlpFailures - f0), I->getObjValue(), nums(I->getColSolution(), n).c_str(), nums(I->getRowPrice(), 2 * n + mm).c_str(), nums(I->getRowActivity(), mm).c_str());
    }
  }
  for (int t = 0; t < 3; t++) delete ws[t];
  for (int t = 2; t > 0; t--) delete S[t];
  say("kv ops %d", i + 1);
}
}
