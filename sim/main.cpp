#include "cases.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <cmath>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>
using namespace sim;
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += '?'; else o += (char)c; } return o + "\""; }
static void emit(long i, int k, const Spec &s, const Outcome &o) {
  std::string out = "{\"case\":" + std::to_string(i) + ",\"sub\":" + std::to_string(k); char b[400];
  snprintf(b, sizeof b, ",\"hash\":\"%016llx\"", (unsigned long long)o.hash()); out += b;
  long st = 0, ev = 0, nl = 0; double vt = 0; long fired[F_NKINDS] = {0}; double nodes = 0;
  for (auto &r : o.recs) { st += r.steps; ev += r.evals; nl += r.nlps; vt += r.vt > 1000 ? r.vt - 1000 : 0; for (int j = 0; j < F_NKINDS; j++) fired[j] += r.fired[j]; for (auto &a : r.acc) nodes += a.nodes; }
  snprintf(b, sizeof b, ",\"execs\":%zu,\"steps\":%ld,\"evals\":%ld,\"nlps\":%ld,\"vt\":%.6f,\"nodes\":%.0f,\"fired\":[%ld,%ld,%ld,%ld,%ld,%ld]", o.recs.size(), st, ev, nl, vt, nodes, fired[0], fired[1], fired[2], fired[3], fired[4], fired[5]); out += b;
  std::string sts; for (auto &r : o.recs) { sts += r.crash ? "C" : r.timeout ? "T" : r.budget ? "L" : !r.exc.empty() ? "X" : ""; for (auto &f : r.finals) sts += std::to_string(f.status) + (f.hasX ? "s" : "n"); sts += "|"; }
  snprintf(b, sizeof b, ",\"sig\":[%ld,%ld,%ld]", o.recs[0].sigStep, o.recs[0].evalsAfterSig, o.recs[0].nlpsAfterSig); out += b;
  snprintf(b, sizeof b, ",\"dl\":[%ld,%ld,%.6f,%ld,%ld]", o.recs[0].evalsAfterDl, o.recs[0].nlpsAfterDl, s.evalCost, o.recs[0].nodesAfterDl, o.recs[0].nodesAfterSig); out += b;
  out += ",\"st\":" + js(sts) + ",\"alg\":" + js(s.opt("bonmin.algorithm", "B-BB"));
  if (!o.note.empty()) out += ",\"note\":" + js(o.note);
  out += ",\"viol\":[";
  for (size_t j = 0; j < o.v.size(); j++) out += std::string(j ? "," : "") + "[" + js(o.v[j].prop) + "," + js(o.v[j].cls) + "," + js(o.v[j].msg) + "]";
  out += "]";
  if (!o.v.empty() || getenv("BONSIM_SPECS")) out += ",\"spec\":" + js(s.text());
  printf("%s}\n", out.c_str()); fflush(stdout);
}
int main(int argc, char **argv) {
  if (!getenv("BONSIM_CHILD")) {
    setenv("BONSIM_CHILD", "1", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
    int pr = personality(0xffffffff);
    if (pr != -1) personality(pr | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  installIpoptSeam();
  if (argc == 3 && !strcmp(argv[1], "child")) { gVerbose = argv[2][0] > '0'; gLoud = argv[2][0] > '1'; return childEntry(); }
  if (argc >= 3 && !strcmp(argv[1], "gen")) {
    for (uint64_t s = 1; s <= (uint64_t)atol(argv[2]); s++) { Problem p = makeProblem(s, argc > 3 ? atoi(argv[3]) : 0); printf("%llu %s", (unsigned long long)s, describe(p).c_str()); }
    return 0;
  }
  if (argc >= 3 && !strcmp(argv[1], "inproc")) { // for a debugger
    std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
    Spec s; std::string e; if (!s.parse(ss.str(), &e)) return 2;
    gVerbose = argc > 3; gLoud = argc > 4; Problem p = makeProblem(s.pseed, s.fam); childMain(s, p, 1);
  }
  if (argc >= 3 && !strcmp(argv[1], "run")) {
    std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
    Spec s; std::string e; if (!s.parse(ss.str(), &e)) { fprintf(stderr, "%s\n", e.c_str()); return 2; }
    gVerbose = argc > 3; gLoud = argc > 4;
    Problem p = makeProblem(s.pseed, s.fam);
    printf("%s", describe(p).c_str());
    Rec r = runSpec(s, p, 120, gVerbose);
    printf("%s", r.digest().c_str());
    return 0;
  }
  if (argc >= 5 && !strcmp(argv[1], "explore")) { // from to fam opts...
    long a = atol(argv[2]), b = atol(argv[3]); int fam = atoi(argv[4]);
    for (long i = a; i < b; i++) {
      Spec s; s.prop = "X"; s.pseed = i; s.fam = fam;
      for (int k = 5; k + 1 < argc; k += 2) s.set(argv[k], argv[k + 1]);
      Problem p = makeProblem(s.pseed, s.fam);
      Rec r = runSpec(s, p, 60);
      std::string why = "";
      if (r.crash) why += " CRASH" + std::to_string(r.crash);
      if (r.timeout) why += " TIMEOUT";
      if (r.budget) why += " BUDGET";
      if (r.exc.size()) why += " EXC" + r.exc[0].second;
      if (r.finals.size() != 1) why += " NFINAL" + std::to_string(r.finals.size());
      else {
        FinalRec &f = r.finals[0];
        if (p.feasible) {
          if (f.status != 0) why += " STATUS" + std::to_string(f.status);
          else { std::string w; double v = p.viol(f.x.data(), &w); if (v > 1e-5) why += " VIOL " + std::to_string(v) + w;
            if (fabs(f.obj - p.obj.val(f.x.data())) > 1e-5 * (1 + fabs(f.obj))) why += " OBJMISMATCH " + std::to_string(f.obj) + " vs " + std::to_string(p.obj.val(f.x.data()));
            if (f.obj > p.opt + 1e-4 * (1 + fabs(p.opt))) why += " SUBOPT " + std::to_string(f.obj) + " vs " + std::to_string(p.opt);
            if (f.obj < p.opt - 1e-4 * (1 + fabs(p.opt))) why += " SUPEROPT " + std::to_string(f.obj) + " vs " + std::to_string(p.opt);
            if (r.acc.size() && r.acc[0].bound > p.opt + 1e-4 * (1 + fabs(p.opt))) why += " BOUND " + std::to_string(r.acc[0].bound) + " vs " + std::to_string(p.opt);
          }
        }
        else if (f.status != 1) why += " STATUSINF" + std::to_string(f.status);
      }
      printf("%ld %s n=%d i=%d m=%zu steps=%ld nlps=%ld nodes=%d vt=%.3f\n", i, why.empty() ? "ok" : why.c_str(), p.n, p.nInt(), p.con.size(), r.steps, r.nlps, r.acc.size() ? r.acc[0].nodes : -1, r.vt);
    }
    return 0;
  }
  if (argc >= 7 && !strcmp(argv[1], "batch")) { // PROP SEED FROM TO K : one line per judged execution
    std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], NULL, 10); long a = atol(argv[4]), b = atol(argv[5]); int K = atoi(argv[6]);
    for (long i = a; i < b; i++) {
      uint64_t ph = 0; for (char c : prop) ph = ph * 131 + (unsigned char)c;
      Rng r(mixSeed(seed, ph, (uint64_t)i, 77));
      Spec base = genBase(prop, r);
      Outcome probe = judge(base);
      emit(i, 0, base, probe);
      if (hasFaultStage(prop)) for (int k = 1; k <= K; k++) { Spec s = genFaults(prop, base, probe, r); Outcome o = judge(s); emit(i, k, s, o); }
    }
    return 0;
  }
  if (argc >= 3 && !strcmp(argv[1], "judge")) {
    std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
    Spec s; std::string e; if (!s.parse(ss.str(), &e)) { fprintf(stderr, "%s\n", e.c_str()); return 2; }
    Outcome o = judge(s); emit(0, 0, s, o);
    return 0;
  }
  return 2;
}
