// Seams.  The code under test is the real Bonmin; the following sources of
// nondeterminism / failure sit behind it:
//   * clocks: getrusage, gettimeofday, clock_gettime, clock, times, time are
//     defined here, in the executable, and so interpose on libc for Bonmin,
//     Cbc, Clp, Ipopt and MUMPS alike; they return the virtual clock.
//   * the NLP solver boundary: IpoptApplication::OptimizeTNLP/ReOptimizeTNLP
//     (vtable slots redirected at start-up) run the real Ipopt on a
//     transparent proxy that can stop it early and report any documented
//     failure status.
//   * signals: SIGINT is raised synchronously at a scheduled seam event.
#include "world.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"
#include "IpTNLPAdapter.hpp"

namespace sim {
World W;
const char *faultNames[F_NKINDS] = {"nlp", "eval", "sig", "jump", "io", "alloc"};
const char *nlpFailNames[NF_N] = {"maxiter", "resto", "step", "cpu", "tiny", "mem", "internal", "invnum", "userstop", "diverge", "fewdof", "throw"};

World::World() { reset(); }
void World::reset() {
  active = false; vt = 1000.0; evalCost = 1e-4; clockCost = 1e-6; iterCost = 1e-4;
  step = 0; nEval = nNlp = nClock = nIter = nIo = nAlloc = 0; budget = 20000000;
  hash = 1469598103934665603ULL;
  faults.clear();
  memset(fired, 0, sizeof fired);
  sigStep = -1; sigTime = 0; sigCount = 0; evalsAfterSig = nlpsAfterSig = 0; jumpTotal = 0; deadline = 1e300; evalsAfterDl = nlpsAfterDl = nodesAfterDl = nodesAfterSig = 0; outFd = -1; nlpFailures = 0; solves = 0; lastIpopt = 99;
  curNlp = 0; sigNlp = dlNlp = -1; sigPending = false; sigPend = 0; reseed = 0;
}
void World::mix(uint64_t v) {
  for (int i = 0; i < 8; i++) { hash ^= (v & 0xff); hash *= 1099511628211ULL; v >>= 8; }
}
void World::mixd(double d) { uint64_t u; memcpy(&u, &d, 8); mix(u); }
Fault *World::find(FaultKind k, long at) {
  for (size_t i = 0; i < faults.size(); i++)
    if (faults[i].kind == k && !faults[i].fired && faults[i].at == at) return &faults[i];
  return NULL;
}
static bool handlerInstalled() {
  struct sigaction sa;
  sigaction(SIGINT, NULL, &sa);
  return sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN;
}
void say(const char *fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  if (W.outFd >= 0) { ssize_t r = syscall(SYS_write, W.outFd, buf, (size_t)n); (void)r; }
}
void dieBudget() {
  W.active = false;
  say("budget %ld %.17g", W.step, W.vt);
  syscall(SYS_exit_group, 77);
}
extern "C" __attribute__((noinline)) void sim_late_nlp() { __asm__ volatile(""); } // debugger hook
void World::event(Ev kind, long tag) {
  if (!active) return;
  step++;
  if (kind != E_CLOCK) { mix((uint64_t)kind * 1000003ULL + (uint64_t)tag); }
  switch (kind) {
    case E_CLOCK: vt += clockCost; nClock++; break;
    case E_EVAL: vt += evalCost;
      if (vt > deadline && dlNlp < 0) dlNlp = curNlp;
      if (sigCount && (!curNlp || curNlp != sigNlp)) evalsAfterSig++; // the NLP solve caught by the signal may run to its end
      if (vt > deadline && (!curNlp || curNlp != dlNlp)) evalsAfterDl++;
      break;
    case E_NLP: vt += iterCost; if (sigCount) nlpsAfterSig++; if (vt > deadline) { nlpsAfterDl++; sim_late_nlp(); } break;
    case E_MARK: if (tag == 7) { if (sigCount) nodesAfterSig++; if (vt > deadline) nodesAfterDl++; } break;
    case E_ITER: vt += iterCost; nIter++; break;
    default: break;
  }
  for (size_t i = 0; i < faults.size(); i++) {
    Fault &f = faults[i];
    if (f.fired || f.at > step) continue;
    if (f.kind == F_JUMP) {
      f.fired = true; vt += f.a; jumpTotal += f.a; fired[F_JUMP]++; mix(0xabcd); mixd(f.a);
    }
    else if (f.kind == F_SIG && handlerInstalled()) {
      f.fired = true; fired[F_SIG]++; mix(0x51651);
      if (sigCount++ == 0) { sigStep = step; sigTime = vt; sigNlp = curNlp; }
      say("signal %ld %.9f kind %d", step, vt, (int)kind);
      raise(SIGINT);
    }
  }
  if (step > budget) dieBudget();
}
static double readClock() { W.event(E_CLOCK, 0); return W.vt; }
} // namespace sim

using namespace sim;
static void toTv(double t, struct timeval *tv) { tv->tv_sec = (time_t)t; tv->tv_usec = (suseconds_t)((t - (double)tv->tv_sec) * 1e6); }
extern "C" {
int getrusage(__rusage_who_t who, struct rusage *u) noexcept {
  if (!W.active) return (int)syscall(SYS_getrusage, who, u);
  memset(u, 0, sizeof *u);
  toTv(readClock(), &u->ru_utime);
  return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict tz) noexcept {
  if (!W.active) return (int)syscall(SYS_gettimeofday, tv, tz);
  toTv(1.7e9 + readClock(), tv);
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (!W.active) return (int)syscall(SYS_clock_gettime, id, ts);
  double t = readClock();
  if (id == CLOCK_REALTIME) t += 1.7e9;
  ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
  return 0;
}
clock_t clock(void) noexcept {
  double t;
  if (!W.active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); t = ts.tv_sec + ts.tv_nsec * 1e-9; }
  else t = readClock();
  return (clock_t)(t * CLOCKS_PER_SEC);
}
clock_t times(struct tms *b) noexcept {
  double t = W.active ? readClock() : 0;
  if (b) { memset(b, 0, sizeof *b); b->tms_utime = (clock_t)(t * 100); }
  return (clock_t)(t * 100);
}
time_t time(time_t *p) noexcept {
  time_t t;
  if (!W.active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  else t = (time_t)(1.7e9 + readClock());
  if (p) *p = t;
  return t;
}
}

// ------------------------------------------------ guard at the LP boundary
// Cbc (not Bonmin) sometimes asks Clp to delete rows that no longer exist,
// which corrupts the heap.  End such a run at the exact call, as a recognisable
// known finding, instead of letting it die somewhere else later.
#include "ClpModel.hpp"
void ClpModel::deleteRows(int num, const int *idx) {
  typedef void (*Fn)(ClpModel *, int, const int *);
  static Fn real = (Fn)dlsym(RTLD_NEXT, "_ZN8ClpModel10deleteRowsEiPKi");
  for (int i = 0; i < num; i++)
    if (W.active && (idx[i] < 0 || idx[i] >= numberRows())) {
      say("exc 0 Cbc deletes LP rows beyond the last one");
      W.active = false; say("done"); syscall(SYS_exit_group, 0);
    }
  real(this, num, idx);
}

// ---------------------------------------------------------------- NLP seam
namespace sim {
using namespace Ipopt;
struct Proxy : public TNLP {
  SmartPtr<TNLP> in;
  int failCode; long stopIter; bool stopped, dead;
  Proxy(TNLP *t) : in(t), failCode(-1), stopIter(-1), stopped(false), dead(false) {}
  bool get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, IndexStyleEnum &s) { return !dead && in->get_nlp_info(n, m, nj, nh, s); }
  bool get_var_con_metadata(Index n, StringMetaDataMapType &a, IntegerMetaDataMapType &b, NumericMetaDataMapType &c, Index m,
                            StringMetaDataMapType &d, IntegerMetaDataMapType &e, NumericMetaDataMapType &f) { return in->get_var_con_metadata(n, a, b, c, m, d, e, f); }
  bool get_bounds_info(Index n, Number *a, Number *b, Index m, Number *c, Number *d) { bool r = in->get_bounds_info(n, a, b, m, c, d); W.nlpLb.assign(a, a + n); W.nlpUb.assign(b, b + n); return r; }
  bool get_scaling_parameters(Number &o, bool &ux, Index n, Number *xs, bool &ug, Index m, Number *gs) { return in->get_scaling_parameters(o, ux, n, xs, ug, m, gs); }
  bool get_variables_linearity(Index n, LinearityType *t) { return in->get_variables_linearity(n, t); }
  bool get_constraints_linearity(Index m, LinearityType *t) { return in->get_constraints_linearity(m, t); }
  bool get_starting_point(Index n, bool ix, Number *x, bool iz, Number *zl, Number *zu, Index m, bool il, Number *l) { return in->get_starting_point(n, ix, x, iz, zl, zu, m, il, l); }
  bool get_warm_start_iterate(IteratesVector &v) { return in->get_warm_start_iterate(v); }
  bool eval_f(Index n, const Number *x, bool nx, Number &o) { return in->eval_f(n, x, nx, o); }
  bool eval_grad_f(Index n, const Number *x, bool nx, Number *g) { return in->eval_grad_f(n, x, nx, g); }
  bool eval_g(Index n, const Number *x, bool nx, Index m, Number *g) { return in->eval_g(n, x, nx, m, g); }
  bool eval_jac_g(Index n, const Number *x, bool nx, Index m, Index ne, Index *r, Index *c, Number *v) { return in->eval_jac_g(n, x, nx, m, ne, r, c, v); }
  bool eval_h(Index n, const Number *x, bool nx, Number of, Index m, const Number *l, bool nl, Index ne, Index *r, Index *c, Number *v) { return in->eval_h(n, x, nx, of, m, l, nl, ne, r, c, v); }
  void finalize_metadata(Index n, const StringMetaDataMapType &a, const IntegerMetaDataMapType &b, const NumericMetaDataMapType &c, Index m,
                         const StringMetaDataMapType &d, const IntegerMetaDataMapType &e, const NumericMetaDataMapType &f) { in->finalize_metadata(n, a, b, c, m, d, e, f); }
  Index get_number_of_nonlinear_variables() { return in->get_number_of_nonlinear_variables(); }
  bool get_list_of_nonlinear_variables(Index k, Index *p) { return in->get_list_of_nonlinear_variables(k, p); }
  bool intermediate_callback(AlgorithmMode mode, Index iter, Number o, Number ip, Number id, Number mu, Number dn, Number rs, Number ad, Number ap, Index ls,
                             const IpoptData *d, IpoptCalculatedQuantities *q) {
    W.event(E_ITER, iter);
    if (failCode >= 0 && iter >= stopIter) { stopped = true; return false; }
    return in->intermediate_callback(mode, iter, o, ip, id, mu, dn, rs, ad, ap, ls, d, q);
  }
  void finalize_solution(SolverReturn st, Index n, const Number *x, const Number *zl, const Number *zu, Index m, const Number *g, const Number *l, Number o,
                         const IpoptData *d, IpoptCalculatedQuantities *q) {
    if (stopped && st == USER_REQUESTED_STOP) {
      switch (failCode) {
        case NF_MAXITER: st = MAXITER_EXCEEDED; break;
        case NF_RESTO: st = RESTORATION_FAILURE; break;
        case NF_STEP: st = ERROR_IN_STEP_COMPUTATION; break;
        case NF_CPU: st = CPUTIME_EXCEEDED; break;
        case NF_TINY: st = STOP_AT_TINY_STEP; break;
        case NF_MEM: st = OUT_OF_MEMORY; break;
        case NF_INTERNAL: st = INTERNAL_ERROR; break;
        case NF_INVNUM: st = INVALID_NUMBER_DETECTED; break;
        case NF_DIVERGE: st = DIVERGING_ITERATES; break;
        case NF_FEWDOF: st = TOO_FEW_DEGREES_OF_FREEDOM; break;
        default: break;
      }
    }
    in->finalize_solution(st, n, x, zl, zu, m, g, l, o, d, q);
  }
};
static ApplicationReturnStatus failStatus(int c) {
  switch (c) {
    case NF_MAXITER: return Maximum_Iterations_Exceeded;
    case NF_RESTO: return Restoration_Failed;
    case NF_STEP: return Error_In_Step_Computation;
    case NF_CPU: return Maximum_CpuTime_Exceeded;
    case NF_TINY: return Search_Direction_Becomes_Too_Small;
    case NF_MEM: return Insufficient_Memory;
    case NF_INTERNAL: return Internal_Error;
    case NF_INVNUM: return Invalid_Number_Detected;
    case NF_DIVERGE: return Diverging_Iterates;
    case NF_FEWDOF: return Not_Enough_Degrees_Of_Freedom;
    default: return User_Requested_Stop;
  }
}
typedef ApplicationReturnStatus (*OptFn)(IpoptApplication *, const SmartPtr<TNLP> &);
static OptFn realOpt = NULL, realReOpt = NULL;
static std::map<IpoptApplication *, SmartPtr<Proxy> > *proxies = NULL;

static ApplicationReturnStatus simSolve(IpoptApplication *app, const SmartPtr<TNLP> &t, bool re) {
  if (!W.active) return (re ? realReOpt : realOpt)(app, t);
  if (!proxies) proxies = new std::map<IpoptApplication *, SmartPtr<Proxy> >;
  long ord = ++W.nNlp;
  W.event(E_NLP, re ? 2 : 1);
  Fault *f = W.find(F_NLP, ord);
  // a persistent failure: at = first failing ordinal, b>=1000 => (b mod 1000) consecutive solves fail, at once if b>=2000
  if (!f)
    for (size_t i = 0; i < W.faults.size(); i++) {
      Fault &g = W.faults[i];
      if (g.kind == F_NLP && g.b >= 1000 && g.at <= ord && ord < g.at + (long)g.b % 1000) { f = &g; break; }
    }
  int code = -1; long stop = -1;
  if (f) { code = (int)f->a; stop = f->b >= 2000 ? -1 : f->b >= 1000 ? 0 : (long)f->b; }
  if (f && stop < 0) { // fails before producing any iterate
    f->fired = true; W.fired[F_NLP]++; W.nlpFailures++; W.mix(0xfa11 + code);
    say("nlpfail %ld %s early", ord, nlpFailNames[code]);
    if (code == NF_THROW) throw std::bad_alloc();
    if (!re) { // the application still gets to know its problem, as it does when the real solver fails to start
      SmartPtr<Proxy> q = new Proxy(GetRawPtr(t)); (*proxies)[app] = q; q->dead = true;
      SmartPtr<TNLP> tq = GetRawPtr(q); realOpt(app, tq); q->dead = false;
    }
    return failStatus(code);
  }
  SmartPtr<Proxy> p;
  SmartPtr<Proxy> &slot = (*proxies)[app];
  if (re) {
    if (IsValid(slot) && GetRawPtr(slot->in) == GetRawPtr(t)) p = slot;
    else return realReOpt(app, t);
  }
  else { p = new Proxy(GetRawPtr(t)); slot = p; }
  p->failCode = code; p->stopIter = stop; p->stopped = false;
  SmartPtr<TNLP> tp = GetRawPtr(p);
  ApplicationReturnStatus r;
  long outer = W.curNlp; W.curNlp = ord;
  r = (re ? realReOpt : realOpt)(app, tp);
  W.curNlp = outer; W.lastIpopt = (int)r;
  if (p->stopped && r == User_Requested_Stop) {
    f->fired = true; W.fired[F_NLP]++; W.nlpFailures++; W.mix(0xfa11 + code);
    say("nlpfail %ld %s iter %ld", ord, nlpFailNames[code], stop);
    r = failStatus(code);
  }
  p->failCode = -1;
  W.mix((uint64_t)(int64_t)r);
  return r;
}
static ApplicationReturnStatus simOpt(IpoptApplication *a, const SmartPtr<TNLP> &t) { return simSolve(a, t, false); }
static ApplicationReturnStatus simReOpt(IpoptApplication *a, const SmartPtr<TNLP> &t) { return simSolve(a, t, true); }

void installIpoptSeam() {
  void **vt = (void **)dlsym(RTLD_DEFAULT, "_ZTVN5Ipopt16IpoptApplicationE");
  realOpt = (OptFn)dlsym(RTLD_DEFAULT, "_ZN5Ipopt16IpoptApplication12OptimizeTNLPERKNS_8SmartPtrINS_4TNLPEEE");
  realReOpt = (OptFn)dlsym(RTLD_DEFAULT, "_ZN5Ipopt16IpoptApplication14ReOptimizeTNLPERKNS_8SmartPtrINS_4TNLPEEE");
  if (!vt || !realOpt || !realReOpt) { fprintf(stderr, "cannot find Ipopt seam symbols\n"); _exit(70); }
  int found = 0;
  long ps = sysconf(_SC_PAGESIZE);
  for (int i = 0; i < 40 && found < 2; i++) {
    if (vt[i] == (void *)realOpt || vt[i] == (void *)realReOpt) {
      void *pg = (void *)((uintptr_t)(vt + i) & ~(uintptr_t)(ps - 1));
      if (mprotect(pg, 2 * ps, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(70); }
      vt[i] = vt[i] == (void *)realOpt ? (void *)simOpt : (void *)simReOpt;
      found++;
    }
  }
  if (found != 2) { fprintf(stderr, "Ipopt vtable slots not found\n"); _exit(70); }
}
} // namespace sim
