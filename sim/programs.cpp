// Programs run inside the simulated process.  They use only Bonmin's public API.
#include "run.hpp"
#include "model.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonTNLPSolver.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "CbcEventHandler.hpp"
#include "CoinTime.hpp"
#include <cstring>
#include <cstdio>
#include <sstream>
#include <memory>
using namespace Ipopt;
using namespace Bonmin;
namespace sim {
static CbcModel *gM = NULL;
static void dump() { if (!gM || !gM->solver()) return; OsiSolverInterface *s = gM->solver(); const CoinPackedMatrix *m = s->getMatrixByRow();
  for (int i = 0; i < m->getNumRows(); i++) { fprintf(stderr, "   R%d %g <=", i, s->getRowLower()[i]); CoinShallowPackedVector v = m->getVector(i); for (int k = 0; k < v.getNumElements(); k++) fprintf(stderr, " %+g*x%d", v.getElements()[k], v.getIndices()[k]); fprintf(stderr, " <= %g\n", s->getRowUpper()[i]); }
  for (int j = 0; j < s->getNumCols(); j++) fprintf(stderr, "   x%d in [%g,%g] = %g\n", j, s->getColLower()[j], s->getColUpper()[j], s->getColSolution()[j]); }
class Handler : public CoinMessageHandler {
public:
  Handler() : CoinMessageHandler() {}
  Handler(const Handler &o) : CoinMessageHandler(o) {}
  virtual CoinMessageHandler *clone() const { return new Handler(*this); }
  virtual int print() {
    const char *b = messageBuffer();
    if (strstr(b, "Optimization failed on an NLP")) say("warned");
    if (gLoud && strstr(b, "Cbc00")) dump();
    if (gVerbose) { fputs(b, stderr); fputc('\n', stderr); }
    return 0;
  }
};
class Events : public CbcEventHandler {
public:
  Events() {}
  Events(const Events &o) : CbcEventHandler(o) {}
  virtual CbcEventHandler *clone() const { return new Events(*this); }
  virtual CbcAction event(CbcEvent e) {
    if ((e == solution || e == heuristicSolution) && model_) { say("inc %d %.17g %ld", e == solution ? 1 : 2, model_->getObjValue(), W.step); W.mixd(model_->getObjValue()); }
    else if (e == node && model_) { W.event(E_MARK, 7); }
    return noAction;
  }
  virtual CbcAction event(CbcEvent e, void *) { return noAction; }
};
static std::string optText(const Opts &o) { std::string t; for (auto &kv : o) t += kv.first + " " + kv.second + "\n"; return t; }

void report(int id, Bab &bb, int n) {
  std::string x; char b[40];
  if (bb.bestSolution()) for (int j = 0; j < n; j++) { snprintf(b, sizeof b, " %.17g", bb.bestSolution()[j]); x += b; }
  W.mix((uint64_t)bb.mipStatus()); W.mixd(bb.bestObj()); W.mixd(bb.bestBound()); W.mix(bb.numNodes());
  say("acc %d %d %.17g %.17g %d %d %.17g %d%s", id, (int)bb.mipStatus(), bb.bestObj(), bb.bestBound(), bb.numNodes(), bb.iterationCount(), bb.continuousRelaxation(), bb.bestSolution() ? 1 : 0, x.c_str());
}

template <class F> bool guarded(int id, F f) {
  try { f(); return true; }
  catch (TNLPSolver::UnsolvedError *E) { say("exc %d UnsolvedError %s", id, E->errorName().c_str()); W.mix(0xe1); delete E; }
  catch (OsiTMINLPInterface::SimpleError &E) { say("exc %d SimpleError %s %s", id, E.methodName().c_str(), E.message().c_str()); W.mix(0xe2); }
  catch (CoinError &E) { say("exc %d CoinError %s %s %s", id, E.className().c_str(), E.methodName().c_str(), E.message().c_str()); W.mix(0xe3); }
  catch (IpoptException &E) { say("exc %d IpoptException %s", id, E.Message().c_str()); W.mix(0xe4); }
  catch (std::bad_alloc &) { say("exc %d bad_alloc", id); W.mix(0xe5); }
  catch (std::exception &E) { say("exc %d std %s", id, E.what()); W.mix(0xe6); }
  catch (int k) { say("exc %d int %d", id, k); W.mix(0xe7); }
  catch (...) { say("exc %d unknown", id); W.mix(0xe8); }
  return false;
}

static void quiet(BonminSetup &b) {
  if (gLoud) return;
  b.readOptionsString("bonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nbonmin.milp_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\nprint_level 0\nsb yes\n");
}

struct Job { // one solve: its model, setup and solver object, kept as long as the program wants
  int id; Problem p; Opts opts; Handler h; SmartPtr<SimModel> m; BonminSetup *setup; Bab *bb;
  Job(int i, const Problem &pp, const Opts &o) : id(i), p(pp), opts(o), setup(NULL), bb(NULL) { h.setLogLevel(gVerbose ? 3 : 1); m = new SimModel(p, id); }
  ~Job() { delete bb; delete setup; }
  bool init() {
    return guarded(id, [&] {
      SmartPtr<TMINLP> tm = GetRawPtr(m);
      setup = new BonminSetup(&h);
      setup->initializeOptionsAndJournalist();
      quiet(*setup);
      setup->readOptionsString(optText(opts));
      say("kv phase setup");
      for (auto &kv : opts) if (kv.first == "bonmin.time_limit") { W.deadline = W.vt + atof(kv.second.c_str()); W.dlNlp = -1; }
      t0 = W.vt;
      setup->initialize(tm);
      say("kv phase solve");
    });
  }
  void solve() {
    bb = new Bab; gM = &bb->model(); bb->model().passInEventHandler(&ev);
    guarded(id, [&] { (*bb)(*setup); });
    W.deadline = 1e300;
    say("kv phase end"); say("kv used %.9f", W.vt - t0);
    report(id, *bb, p.n);
  }
  double t0 = 0; Events ev;
};
static void solveOnce(int id, const Problem &p, const Opts &opts) { Job j(id, p, opts); if (j.init()) j.solve(); }

// several solves in one process; the last one, number 0, is the one that must not notice the others
static void multi(const Spec &s, const Problem &p) {
  std::string mode = s.ex("mode", "seq"); std::vector<Job *> jobs; int id = 1;
  for (auto &e : s.extra) {
    std::istringstream in(e); std::string k; in >> k; if (k != "solve") continue;
    unsigned long long sd; int fam; in >> sd >> fam; Opts o; std::string kv;
    while (in >> kv) { size_t q = kv.find('='); o.push_back(std::make_pair(kv.substr(0, q), kv.substr(q + 1))); }
    jobs.push_back(new Job(id++, makeProblem(sd, fam), o));
  }
  Job *last = new Job(0, p, s.opts);
  bool pre = mode == "pre", keep = pre || mode == "keep";
  bool ok0 = false;
  if (pre) { std::vector<Fault> later = W.faults; W.faults.clear(); ok0 = last->init(); W.faults = later; }
  std::vector<bool> ok(jobs.size(), false);
  if (pre) for (size_t i = 0; i < jobs.size(); i++) ok[i] = jobs[i]->init();
  for (size_t i = 0; i < jobs.size(); i++) {
    if (!pre) ok[i] = jobs[i]->init();
    if (ok[i]) jobs[i]->solve();
    if (!keep) { delete jobs[i]; jobs[i] = NULL; }
  }
  say("kv last %ld %ld %.9f", W.step, W.nNlp, W.vt);
  W.faults.clear(); // what happens to the last solve is nobody's fault
  long st0 = W.step, nl0 = W.nNlp; double v0 = W.vt;
  if (!pre) ok0 = last->init();
  if (ok0 && last->setup) last->solve();
  say("kv lastdone %ld %ld %.9f", W.step - st0, W.nNlp - nl0, W.vt - v0);
  for (auto j : jobs) delete j;
  delete last;
}

void ifaceMain(const Spec &s, const Problem &p);
void programMain(const Spec &s, const Problem &p) {
  W.active = true;
  if (s.prog == "solve") solveOnce(0, p, s.opts);
  else if (s.prog == "multi") multi(s, p);
  else if (s.prog == "iface") ifaceMain(s, p);
  else { say("exc -1 unknown program %s", s.prog.c_str()); }
}
}
