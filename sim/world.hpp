// The simulated world: one seeded history of seam events (clock reads, user
// callbacks, NLP-solver calls, NLP iterations, I/O calls), a virtual clock and
// a fault schedule.  One (spec) == one exactly repeatable execution.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <cmath>

namespace sim {

struct Rng {
  uint64_t s[2];
  static uint64_t sm(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 1) { uint64_t x = seed; s[0] = sm(x); s[1] = sm(x); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
    return r;
  }
  // inclusive range
  long range(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  long logrange(long lo, long hi) { // log-uniform on [lo,hi], lo>=1
    double l = std::log((double)lo), h = std::log((double)hi + 1);
    long r = (long)std::exp(l + (h - l) * uni());
    return r < lo ? lo : (r > hi ? hi : r);
  }
};

enum FaultKind { F_NLP, F_EVAL, F_SIG, F_JUMP, F_IO, F_ALLOC, F_NKINDS };
extern const char *faultNames[F_NKINDS];

struct Fault {
  FaultKind kind;
  long at;      // ordinal in the kind's own space (see DESIGN)
  double a, b;  // kind-specific
  bool fired;
  Fault() : kind(F_NLP), at(0), a(0), b(0), fired(false) {}
  Fault(FaultKind k, long t, double x = 0, double y = 0) : kind(k), at(t), a(x), b(y), fired(false) {}
};

enum Ev { E_CLOCK = 1, E_EVAL, E_NLP, E_ITER, E_FINAL, E_IO, E_MARK };

struct World {
  bool active;          // seams live
  double vt;            // virtual seconds
  double evalCost, clockCost, iterCost;
  long step;            // global seam event counter
  long nEval, nNlp, nClock, nIter, nIo, nAlloc;
  long budget;          // maximum number of seam events
  uint64_t hash;
  std::vector<Fault> faults;
  long fired[F_NKINDS];
  // observations relevant to liveness
  long sigStep;   double sigTime; // step / time when first SIGINT was delivered
  int sigCount;
  long curNlp, sigNlp, dlNlp;     // NLP solve in progress (0: none), and the one in progress when the signal / the deadline came
  long evalsAfterSig, nlpsAfterSig;
  double deadline; long evalsAfterDl, nlpsAfterDl, nodesAfterDl, nodesAfterSig; // simulated time limit of the running solve
  double jumpTotal;
  int outFd;            // record pipe
  long nlpFailures;     // injected NLP failures that actually fired
  long solves; int lastIpopt; std::vector<double> nlpLb, nlpUb; // what the real solver said last
  bool sigPending; int sigPend;
  double reseed;
  World();
  void reset();
  void event(Ev kind, long tag);   // advances step, hash, clock; delivers step-scheduled faults
  void mix(uint64_t v);
  void mixd(double d);
  Fault *find(FaultKind k, long at);
};
extern World W;

void say(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // write one record line to W.outFd
void installIpoptSeam();
void dieBudget();

// NLP failure codes used in Fault::a for F_NLP
enum NlpFail { NF_MAXITER = 0, NF_RESTO, NF_STEP, NF_CPU, NF_TINY, NF_MEM, NF_INTERNAL, NF_INVNUM, NF_USERSTOP, NF_DIVERGE, NF_FEWDOF, NF_THROW, NF_N };
extern const char *nlpFailNames[NF_N];
}
#endif
