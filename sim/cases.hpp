// Case generation (seeded swarm) and judging, per property.
#ifndef SIM_CASES_HPP
#define SIM_CASES_HPP
#include "run.hpp"
namespace sim {
struct Viol { std::string prop, cls, msg; };
struct Outcome {
  std::vector<Viol> v;          // all violations found, for any property
  std::vector<Rec> recs;        // every execution made
  std::string note;             // non-empty: inconclusive (with reason)
  uint64_t hash() const;
  bool has(const std::string &prop) const { for (auto &x : v) if (x.prop == prop) return true; return false; }
};
Outcome judge(const Spec &s, double realTimeout = 60, bool verbose = false);
Spec genBase(const std::string &prop, Rng &r);
Spec genFaults(const std::string &prop, const Spec &base, const Outcome &probe, Rng &r);
bool hasFaultStage(const std::string &prop);
uint64_t mixSeed(uint64_t a, uint64_t b, uint64_t c, uint64_t d);
}
#endif
