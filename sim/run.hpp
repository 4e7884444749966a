#ifndef SIM_RUN_HPP
#define SIM_RUN_HPP
#include "problem.hpp"
#include "world.hpp"
#include <string>
#include <vector>
namespace sim {
typedef std::vector<std::pair<std::string, std::string> > Opts;
struct Spec {            // the complete, replayable description of one execution
  std::string prop;      // property (profile) it belongs to
  std::string prog;      // program executed in the child
  uint64_t pseed; int fam;
  Opts opts;
  double evalCost, iterCost;
  long budget;
  std::vector<Fault> faults;
  std::vector<std::string> extra; // program-specific lines
  Spec() : prog("solve"), pseed(1), fam(0), evalCost(1e-4), iterCost(1e-4), budget(5000000) {}
  std::string text() const;
  bool parse(const std::string &t, std::string *err = NULL);
  std::string opt(const std::string &k, const std::string &def = "") const;
  double optd(const std::string &k, double def) const;
  void set(const std::string &k, const std::string &v);
  void unset(const std::string &k);
  bool has(const std::string &k) const;
  std::string ex(const std::string &k, const std::string &def = "") const;
};
struct FinalRec { int id, status, n; double obj; bool hasX; std::vector<double> x; };
struct AccRec { int id, mip; double obj, bound; int nodes, iters; bool hasX; std::vector<double> x; double relax; };
struct Rec {
  int crash;             // signal number, 0 if none
  int exitCode;
  bool timeout, budget;
  bool finished;         // the program ran to its end
  std::vector<FinalRec> finals; std::vector<AccRec> acc;
  std::vector<std::pair<int, std::string> > exc; // (solve id, exception)
  std::vector<std::pair<int, double> > inc;      // incumbents (kind, value)
  std::vector<long> incStep;
  std::vector<std::string> lines;  // everything
  std::vector<std::string> kv;     // program-specific "kv key value" lines
  long steps, evals, nlps, clocks, iters; double vt; uint64_t hash;
  long fired[F_NKINDS]; long sigStep; double sigTime; long evalsAfterSig, nlpsAfterSig; double jump; long evalsAfterDl, nlpsAfterDl, nodesAfterDl, nodesAfterSig;
  std::vector<std::string> nlpfails;
  bool warned; std::string crashSite;
  std::string get(const std::string &key, const std::string &def = "") const;
  Rec();
  std::string digest() const; // canonical text of the observable outcome
};
Rec runSpec(const Spec &s, const Problem &p, double realTimeout = 120, bool verbose = false);
// programs, executed in the child
void programMain(const Spec &s, const Problem &p);
int childEntry();
void childMain(const Spec &s, const Problem &p, int outFd);
extern bool gVerbose, gLoud;
}
#endif
