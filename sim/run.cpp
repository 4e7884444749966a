#include "run.hpp"
#include "model.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <time.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>
namespace sim {
bool gVerbose = false, gLoud = false;

std::string Spec::text() const {
  std::ostringstream o; char b[200];
  o << "prop " << prop << "\nprog " << prog << "\n";
  snprintf(b, sizeof b, "problem %llu %d\ncost %.17g %.17g\nbudget %ld\n", (unsigned long long)pseed, fam, evalCost, iterCost, budget); o << b;
  for (auto &e : extra) o << "extra " << e << "\n";
  for (auto &kv : opts) o << "opt " << kv.first << " " << kv.second << "\n";
  for (auto &f : faults) { snprintf(b, sizeof b, "fault %s %ld %.17g %.17g\n", faultNames[f.kind], f.at, f.a, f.b); o << b; }
  return o.str();
}
bool Spec::parse(const std::string &t, std::string *err) {
  std::istringstream in(t); std::string l;
  opts.clear(); faults.clear(); extra.clear();
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream s(l); std::string k; s >> k;
    if (k == "prop") s >> prop;
    else if (k == "prog") s >> prog;
    else if (k == "problem") s >> pseed >> fam;
    else if (k == "cost") s >> evalCost >> iterCost;
    else if (k == "budget") s >> budget;
    else if (k == "extra") { extra.push_back(l.size() > 6 ? l.substr(6) : ""); }
    else if (k == "opt") { std::string a, b; s >> a >> b; opts.push_back(std::make_pair(a, b)); }
    else if (k == "fault") {
      std::string nm; Fault f; s >> nm >> f.at >> f.a >> f.b; bool ok = false;
      for (int i = 0; i < F_NKINDS; i++) if (nm == faultNames[i]) { f.kind = (FaultKind)i; ok = true; }
      if (!ok) { if (err) *err = "bad fault " + nm; return false; }
      faults.push_back(f);
    }
    else { if (err) *err = "bad line " + l; return false; }
  }
  return true;
}
std::string Spec::opt(const std::string &k, const std::string &def) const { for (auto &kv : opts) if (kv.first == k) return kv.second; return def; }
double Spec::optd(const std::string &k, double def) const { std::string v = opt(k); return v.empty() ? def : atof(v.c_str()); }
void Spec::set(const std::string &k, const std::string &v) { for (auto &kv : opts) if (kv.first == k) { kv.second = v; return; } opts.push_back(std::make_pair(k, v)); }
void Spec::unset(const std::string &k) { for (size_t i = 0; i < opts.size(); i++) if (opts[i].first == k) { opts.erase(opts.begin() + i); return; } }
bool Spec::has(const std::string &k) const { for (auto &kv : opts) if (kv.first == k) return true; return false; }
std::string Spec::ex(const std::string &k, const std::string &def) const {
  for (auto &e : extra) { size_t sp = e.find(' '); if (e.substr(0, sp) == k) return sp == std::string::npos ? "" : e.substr(sp + 1); }
  return def;
}
Rec::Rec() : crash(0), exitCode(0), timeout(false), budget(false), finished(false), steps(0), evals(0), nlps(0), clocks(0), iters(0), vt(0), hash(0), sigStep(-1), sigTime(0), evalsAfterSig(0), nlpsAfterSig(0), jump(0), evalsAfterDl(0), nlpsAfterDl(0), nodesAfterDl(0), nodesAfterSig(0), warned(false) { memset(fired, 0, sizeof fired); }
std::string Rec::get(const std::string &key, const std::string &def) const {
  std::string r = def;
  for (auto &l : kv) { size_t sp = l.find(' '); if (l.substr(0, sp) == key) r = sp == std::string::npos ? "" : l.substr(sp + 1); }
  return r;
}
std::string Rec::digest() const {
  std::ostringstream o; char b[64];
  o << "crash " << crash << " exit " << exitCode << " timeout " << timeout << " budget " << budget << " fin " << finished << "\n";
  for (auto &l : lines) o << l << "\n";
  snprintf(b, sizeof b, "%016llx", (unsigned long long)hash); o << "hash " << b << "\n";
  return o.str();
}

static void parseLine(Rec &r, const std::string &l) {
  r.lines.push_back(l);
  std::istringstream s(l); std::string k; s >> k;
  if (k == "final") { FinalRec f; int hx; s >> f.id >> f.status >> f.n; std::string ob; s >> ob >> hx; f.obj = strtod(ob.c_str(), NULL); f.hasX = hx; std::string v; while (s >> v) f.x.push_back(strtod(v.c_str(), NULL)); r.finals.push_back(f); }
  else if (k == "acc") { AccRec a; int hx; std::string o, bd, rl; s >> a.id >> a.mip >> o >> bd >> a.nodes >> a.iters >> rl >> hx; a.obj = strtod(o.c_str(), NULL); a.bound = strtod(bd.c_str(), NULL); a.relax = strtod(rl.c_str(), NULL); a.hasX = hx; std::string v; while (s >> v) a.x.push_back(strtod(v.c_str(), NULL)); r.acc.push_back(a); }
  else if (k == "exc") { int id; std::string rest; s >> id; std::getline(s, rest); r.exc.push_back(std::make_pair(id, rest)); }
  else if (k == "inc") { int kd; std::string v; long st = 0; s >> kd >> v >> st; r.inc.push_back(std::make_pair(kd, strtod(v.c_str(), NULL))); r.incStep.push_back(st); }
  else if (k == "kv") r.kv.push_back(l.substr(3));
  else if (k == "nlpfail") r.nlpfails.push_back(l);
  else if (k == "warned") r.warned = true;
  else if (k == "crashsite") r.crashSite = l.substr(10);
  else if (k == "budget") r.budget = true;
  else if (k == "counts") {
    std::string v, h; s >> r.steps >> r.evals >> r.nlps >> r.clocks >> r.iters >> v >> h; r.vt = strtod(v.c_str(), NULL); r.hash = strtoull(h.c_str(), NULL, 16);
    for (int i = 0; i < F_NKINDS; i++) s >> r.fired[i];
    std::string st, jp; s >> r.sigStep >> st >> r.evalsAfterSig >> r.nlpsAfterSig >> jp >> r.evalsAfterDl >> r.nlpsAfterDl >> r.nodesAfterDl >> r.nodesAfterSig; r.sigTime = strtod(st.c_str(), NULL); r.jump = strtod(jp.c_str(), NULL);
  }
  else if (k == "done") r.finished = true;
}

static void counts() {
  say("counts %ld %ld %ld %ld %ld %.17g %016llx %ld %ld %ld %ld %ld %ld %ld %.17g %ld %ld %.17g %ld %ld %ld %ld", W.step, W.nEval, W.nNlp, W.nClock, W.nIter, W.vt, (unsigned long long)W.hash,
      W.fired[0], W.fired[1], W.fired[2], W.fired[3], W.fired[4], W.fired[5], W.sigStep, W.sigTime, W.evalsAfterSig, W.nlpsAfterSig, W.jumpTotal, W.evalsAfterDl, W.nlpsAfterDl, W.nodesAfterDl, W.nodesAfterSig);
}
static bool inProgram = false;
static void onExit() { if (inProgram) { W.active = false; say("exited"); counts(); } }
// where a crash happened: names of the innermost frames, best effort
static void onCrash(int sig) {
  signal(sig, SIG_DFL);
  W.active = false;
  void *fr[24]; int n = backtrace(fr, 24), k = 0; std::string o;
  for (int i = 1; i < n && k < 8; i++) {
    Dl_info d; if (!dladdr(fr[i], &d) || !d.dli_sname) continue;
    int st = 0; char *dm = abi::__cxa_demangle(d.dli_sname, NULL, NULL, &st);
    std::string nm = dm ? dm : d.dli_sname; nm = nm.substr(0, nm.find('(')); 
    if (nm == "__restore_rt" || nm == "raise" || nm == "pthread_kill" || nm == "gsignal") continue;
    o += (k ? " < " : "") + nm; k++;
  }
  say("crashsite %s", o.c_str());
  raise(sig);
}
static double mono() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

void childMain(const Spec &s, const Problem &p, int outFd) {
  W.reset(); W.outFd = outFd; W.evalCost = s.evalCost; W.iterCost = s.iterCost; W.budget = s.budget; W.faults = s.faults;
  atexit(onExit); inProgram = true;
  signal(SIGINT, SIG_DFL);
  void *warm[2]; backtrace(warm, 2);
  static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
  for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(sg, &sa, NULL); }
  programMain(s, p);
  W.active = false; inProgram = false;
  say("done"); counts();
  fflush(stdout);
  _exit(0);
}
int childEntry() { // the simulated process: spec and problem on fd 9, record on fd 8
  std::string t; char b[65536]; ssize_t g; lseek(9, 0, SEEK_SET);
  while ((g = read(9, b, sizeof b)) > 0) t.append(b, g);
  close(9);
  size_t z = t.find('\0'); if (z == std::string::npos) return 2;
  Spec s; if (!s.parse(t.substr(0, z))) return 2;
  Problem p = unpackProblem(t.substr(z + 1));
  childMain(s, p, 8);
  return 0;
}
// Every execution is a fresh process image (exec, fixed argv and environment,
// address-space randomisation off), so that nothing of the searching process
// can leak into it and a replay in another process is bit-for-bit the same.
Rec runSpec(const Spec &s, const Problem &p, double realTimeout, bool verbose) {
  Rec r; int fd[2];
  if (pipe2(fd, O_CLOEXEC)) { perror("pipe"); _exit(71); }
  int mf = memfd_create("spec", MFD_CLOEXEC);
  std::string t = s.text(); t += '\0'; t += packProblem(p);
  if (mf < 0 || write(mf, t.data(), t.size()) != (ssize_t)t.size()) { perror("memfd"); _exit(71); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(71); }
  if (pid == 0) {
    int a = fcntl(fd[1], F_DUPFD, 100), b = fcntl(mf, F_DUPFD, 100), dn = open("/dev/null", O_RDWR);
    dup2(dn, 0);
    if (!verbose) { dup2(dn, 1); dup2(dn, 2); }
    dup2(a, 8); dup2(b, 9); close(a); close(b); if (dn > 2) close(dn);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    const char *av[] = {"bonsim", "child", verbose ? (gLoud ? "2" : "1") : "0", NULL};
    const char *ev[] = {"BONSIM_CHILD=1", "OPENBLAS_NUM_THREADS=1", "OMP_NUM_THREADS=1", "LC_ALL=C", "PATH=/nonexistent", NULL};
    execve("/proc/self/exe", (char *const *)av, (char *const *)ev);
    _exit(72);
  }
  close(mf);
  close(fd[1]);
  std::string buf; char tmp[65536]; double t0 = mono();
  while (true) {
    struct pollfd pf = {fd[0], POLLIN, 0};
    double left = realTimeout - (mono() - t0);
    if (left <= 0) { r.timeout = true; kill(pid, SIGKILL); break; }
    int k = poll(&pf, 1, (int)(left * 1000) + 1);
    if (k < 0) continue;
    if (k == 0) continue;
    ssize_t g = read(fd[0], tmp, sizeof tmp);
    if (g <= 0) break;
    buf.append(tmp, g);
    if (buf.size() > (64u << 20)) { kill(pid, SIGKILL); break; }
  }
  close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) r.crash = r.timeout ? 0 : WTERMSIG(st);
  else r.exitCode = WEXITSTATUS(st);
  std::istringstream in(buf); std::string l;
  while (std::getline(in, l)) parseLine(r, l);
  return r;
}
}
