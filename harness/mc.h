// Tiny explicit-enumeration model-checking driver.
//
// A harness registers *families*.  A family is a finite, fully enumerated space
// of executions: an index 0..count-1 decodes into one execution (an operation
// sequence, an input, a mesh/boundary-condition configuration...).  Every index
// is run on the real nla3d code and compared with a reference model.  Workers
// are forked processes (index % nworkers), because the code under test answers
// misuse with abort(); a worker that dies is a failed execution, and a fresh
// worker carries on with the next index.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <math.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <array>
#include <memory>
#include "sys.h"

namespace mc {

typedef uint64_t u64;

struct Fail { std::string key, msg; };

inline std::string fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline u64 hstr(const std::string& s, u64 h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
// hash of a double with coarse rounding, so that it is a canonical form of a value
inline u64 hdbl(u64 h, double v) { char b[40]; snprintf(b, sizeof b, "%.9e", v == 0 ? 0.0 : v); return mix(h, hstr(b)); }

// state shared between the parent and one worker
struct Slot {
  volatile u64 beat;       // progress counter
  volatile u64 idx;        // index being run
  volatile int fam;        // family being run
  volatile u64 execs, trans, statesSeen;
  volatile int running;
  volatile u64 traceLen;
  char trace[8192];
};

class Case {
 public:
  u64 idx; Slot* slot; std::unordered_set<u64>* st; bool wantTrace; std::string trace; bool nontriv = false;
  // log one operation of the execution (a transition of the model)
  void op(const char* f, ...) {
    char buf[2048]; va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    if (n < 0) n = 0;
    u64 l = slot->traceLen;
    if (l + n + 3 < sizeof slot->trace) {
      memcpy(slot->trace + l, buf, n); slot->trace[l + n] = ';'; slot->trace[l + n + 1] = ' '; slot->trace[l + n + 2] = 0; slot->traceLen = l + n + 2;
    }
    slot->trans = slot->trans + 1; slot->beat = slot->beat + 1;
  }
  void tick(u64 n = 1) { slot->trans = slot->trans + n; slot->beat = slot->beat + 1; }
  // record a canonical state (hash) reached by this execution
  void state(u64 h) { if (st->size() < 4000000) st->insert(h); slot->beat = slot->beat + 1; }
  void fail(const char* key, const char* f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    throw Fail{key, buf};
  }
  void expect(bool ok, const char* key, const char* f, ...) {
    if (ok) return;
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    throw Fail{key, buf};
  }
  void near(double got, double want, double tol, const char* key, const char* f, ...) {
    double s = std::max(1.0, fabs(want));
    if (fabs(got - want) <= tol * s) return;   // NaN fails
    char buf[3500]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    throw Fail{key, fmt("%s: got %.17g, expected %.17g", buf, got, want)};
  }
};

struct Family { std::string name, bound; u64 count; std::function<void(Case&)> fn; };

struct Explorer {
  std::string prop; bool thorough = false; u64 seed = 1; int nw = 8;
  std::vector<Family> fams; double hangSec = 45; double budget = 800;
  void family(const std::string& n, const std::string& bound, u64 count, std::function<void(Case&)> fn) { fams.push_back({n, bound, count, fn}); }
};

// mixed-radix decoder for indices
struct Dec {
  u64 v; explicit Dec(u64 x) : v(x) {}
  u64 operator()(u64 radix) { u64 r = v % radix; v /= radix; return r; }
};
inline u64 ipow(u64 b, unsigned e) { u64 r = 1; while (e--) r *= b; return r; }
inline std::vector<int> nthPerm(u64 k, int n) {
  std::vector<int> pool, out; for (int i = 0; i < n; i++) pool.push_back(i);
  u64 f = 1; for (int i = 2; i < n; i++) f *= i;
  for (int i = n - 1; i >= 0; i--) { u64 q = k / (f ? f : 1); out.push_back(pool[q]); pool.erase(pool.begin() + q); k %= (f ? f : 1); if (i > 0) f /= i; }
  return out;
}
inline u64 fact(int n) { u64 f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }

inline void quietLogs() {
  el::Configurations c; c.setToDefault();
  c.setGlobally(el::ConfigurationType::Enabled, "false");
  c.setGlobally(el::ConfigurationType::ToFile, "false");
  c.setGlobally(el::ConfigurationType::ToStandardOutput, "false");
  c.setGlobally(el::ConfigurationType::PerformanceTracking, "false");
  c.set(el::Level::Fatal, el::ConfigurationType::Enabled, "true");
  c.set(el::Level::Fatal, el::ConfigurationType::ToStandardOutput, "true");
  el::Loggers::reconfigureAllLoggers(c);
}

// run f in a child: returns 0 if it returned, signal number if it died of one, 1000+code for exit codes
inline int inChild(std::function<void()> f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    alarm(120);
    try { f(); } catch (...) { _exit(77); }
    _exit(0);
  }
  int stt; while (waitpid(p, &stt, 0) < 0) {}
  if (WIFSIGNALED(stt)) return WTERMSIG(stt);
  return WEXITSTATUS(stt) ? 1000 + WEXITSTATUS(stt) : 0;
}
// "refused loudly": the process stopped (abort/exit) instead of carrying on
inline bool refuses(std::function<void()> f) { int r = inChild(f); return r != 0 && r != SIGSEGV && r != SIGBUS && r != SIGALRM; }

struct FailRec { int fam; u64 idx; std::string key, msg, trace; bool crash; };

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void runOne(Explorer& E, int fam, u64 idx, Slot* s, std::unordered_set<u64>& st, int pipefd) {
  Case c; c.idx = idx; c.slot = s; c.st = &st;
  s->fam = fam; s->idx = idx; s->traceLen = 0; s->trace[0] = 0; s->beat = s->beat + 1;
  std::string key, msg; bool bad = false;
  try { E.fams[fam].fn(c); }
  catch (Fail& f) { bad = true; key = f.key; msg = f.msg; }
  catch (std::exception& e) { bad = true; key = "exception"; msg = e.what(); }
  s->execs = s->execs + 1;
  if (bad) {
    std::string line = fmt("%d\t%llu\t", fam, (unsigned long long)idx) + key + "\t";
    std::string m = msg + "\t" + std::string(s->trace, s->traceLen);
    for (char& ch : m) if (ch == '\n') ch = ' ';
    line += m; if (line.size() > 4000) line.resize(4000); line += "\n";
    if (write(pipefd, line.data(), line.size()) < 0) {}
  }
}

inline void worker(Explorer& E, int w, int startFam, u64 startIdx, Slot* s, int pipefd, const std::string& dir, int gen) {
  quietLogs();
  std::unordered_set<u64> st;
  auto dump = [&]() {
    std::string fn = dir + fmt("/states.%d.%d", w, gen);
    FILE* f = fopen(fn.c_str(), "wb"); if (f) { for (u64 h : st) fwrite(&h, 8, 1, f); fclose(f); }
  };
  for (int f = startFam; f < (int)E.fams.size(); f++) {
    u64 i = (f == startFam) ? startIdx : w;
    for (; i < E.fams[f].count; i += E.nw) runOne(E, f, i, s, st, pipefd);
  }
  s->running = 0;
  dump();
  _exit(0);
}

// processor seconds of a process
inline double cpuOf(pid_t p) {
  FILE* f = fopen(fmt("/proc/%d/stat", (int)p).c_str(), "r"); if (!f) return 0; char b[2048]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
  char* q = strrchr(b, ')'); unsigned long u = 0, s = 0; if (!q || sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return 0;
  return double(u + s) / sysconf(_SC_CLK_TCK);
}
inline int run(Explorer& E, int argc, char** argv) {
  std::string out = "result.json", dir = "."; std::string only; u64 onlyIdx = 0; bool single = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--dir") dir = argv[++i];
    else if (a == "--case") { single = true; std::string s = argv[++i]; size_t k = s.rfind(':'); only = s.substr(0, k); onlyIdx = strtoull(s.c_str() + k + 1, 0, 10); }
    else if (a == "--only") only = argv[++i];
    else if (a == "--workers") E.nw = atoi(argv[++i]);
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (single) {
    quietLogs();
    Slot* s = (Slot*)calloc(1, sizeof(Slot)); std::unordered_set<u64> st;
    for (size_t f = 0; f < E.fams.size(); f++) if (E.fams[f].name == only) {
      Case c; c.idx = onlyIdx; c.slot = s; c.st = &st;
      try { E.fams[f].fn(c); printf("trace: %s\nPASS\n", s->trace); return 0; }
      catch (Fail& e) { printf("trace: %s\nFAIL key=%s %s\n", s->trace, e.key.c_str(), e.msg.c_str()); return 1; }
    }
    printf("no such family %s\n", only.c_str()); return 2;
  }
  if (!only.empty()) { std::vector<Family> k; for (auto& f : E.fams) if (f.name == only) k.push_back(f); E.fams = k; }
  double t0 = now();
  Slot* slots = (Slot*)mmap(0, sizeof(Slot) * E.nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(slots, 0, sizeof(Slot) * E.nw);
  int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 2; }
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  std::vector<pid_t> pid(E.nw); std::vector<int> gen(E.nw, 0); std::vector<double> lastT(E.nw, t0), lastC(E.nw, -1); std::vector<u64> lastB(E.nw, 0);
  auto spawn = [&](int w, int f, u64 i) {
    slots[w].running = 1; fflush(stdout); fflush(stderr);
    pid[w] = fork();
    if (pid[w] == 0) { signal(SIGPIPE, SIG_IGN); worker(E, w, f, i, &slots[w], pfd[1], dir, gen[w]); }
    gen[w]++; lastT[w] = now(); lastC[w] = -1;
  };
  for (int w = 0; w < E.nw; w++) spawn(w, 0, w);
  std::vector<FailRec> fails; std::map<std::string, u64> failCount; int alive = E.nw; std::string acc; u64 crashes = 0, hangs = 0; bool capped = false;
  auto drain = [&]() {
    char b[65536]; ssize_t n;
    while ((n = read(pfd[0], b, sizeof b)) > 0) acc.append(b, n);
    size_t p;
    while ((p = acc.find('\n')) != std::string::npos) {
      std::string l = acc.substr(0, p); acc.erase(0, p + 1);
      std::vector<std::string> t; size_t a = 0; for (int k = 0; k < 4; k++) { size_t q = l.find('\t', a); if (q == std::string::npos) break; t.push_back(l.substr(a, q - a)); a = q + 1; }
      t.push_back(l.substr(a)); while (t.size() < 5) t.push_back("");
      FailRec r; r.fam = atoi(t[0].c_str()); r.idx = strtoull(t[1].c_str(), 0, 10); r.key = t[2]; r.msg = t[3]; r.trace = t[4]; r.crash = false;
      u64 n2 = failCount[E.fams[r.fam].name + "/" + r.key]++;
      if (n2 < 20) fails.push_back(r);
    }
  };
  while (alive > 0) {
    drain();
    bool moved = false;
    for (int w = 0; w < E.nw; w++) {
      if (!pid[w]) continue;
      int stt; pid_t r = waitpid(pid[w], &stt, WNOHANG);
      if (slots[w].beat != lastB[w]) { lastB[w] = slots[w].beat; lastT[w] = now(); lastC[w] = -1; }
      if (lastC[w] < 0 && now() - lastT[w] > 2) lastC[w] = r == 0 ? cpuOf(pid[w]) : 0;
      bool hang = false;  // judged by processor time, so that a busy machine is not taken for a hang
      if (r == 0 && now() - lastT[w] > E.hangSec && (cpuOf(pid[w]) - lastC[w] > E.hangSec || now() - lastT[w] > 3 * E.hangSec)) { kill(pid[w], SIGKILL); waitpid(pid[w], &stt, 0); hang = true; r = pid[w]; }
      if (r == pid[w]) {
        moved = true; pid[w] = 0;
        if (!hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && !slots[w].running) { alive--; continue; }
        FailRec fr; fr.fam = slots[w].fam; fr.idx = slots[w].idx; fr.crash = true;
        fr.key = hang ? "hang" : WIFSIGNALED(stt) ? fmt("signal%d", WTERMSIG(stt)) : fmt("exit%d", WEXITSTATUS(stt));
        fr.msg = hang ? "no progress" : "the process died while running this execution"; fr.trace = slots[w].trace;
        drain();
        u64 n2 = failCount[E.fams[fr.fam].name + "/" + fr.key]++;
        if (n2 < 20) fails.push_back(fr);
        crashes++;
        int f = fr.fam; u64 i = fr.idx + E.nw;
        if (hang) hangs++;
        if (crashes > 400 || hangs > 8) { alive--; capped = true; continue; }
        while (f < (int)E.fams.size() && i >= E.fams[f].count) { f++; i = w; }
        if (f >= (int)E.fams.size()) { alive--; continue; }
        spawn(w, f, i);
      }
    }
    if (now() - t0 > E.budget) { capped = true; for (int w = 0; w < E.nw; w++) if (pid[w]) { kill(pid[w], SIGKILL); int s2; waitpid(pid[w], &s2, 0); pid[w] = 0; } break; }
    if (!moved) usleep(3000);
  }
  drain();
  // merge state hashes
  std::unordered_set<u64> all;
  for (int w = 0; w < E.nw; w++) for (int g = 0; g < gen[w]; g++) {
    std::string fn = dir + fmt("/states.%d.%d", w, g); FILE* f = fopen(fn.c_str(), "rb"); if (!f) continue;
    u64 h; while (fread(&h, 8, 1, f) == 1) all.insert(h); fclose(f); unlink(fn.c_str());
  }
  u64 ex = 0, tr = 0; for (int w = 0; w < E.nw; w++) { ex += slots[w].execs; tr += slots[w].trans; }
  std::sort(fails.begin(), fails.end(), [](const FailRec& a, const FailRec& b) { return a.fam != b.fam ? a.fam < b.fam : a.idx < b.idx; });
  FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; }
  fprintf(f, "{\"property\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"wall\":%.3f,\"capped\":%s,\"families\":[", E.prop.c_str(), (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)all.size(), now() - t0, capped ? "true" : "false");
  for (size_t i = 0; i < E.fams.size(); i++) fprintf(f, "%s{\"name\":\"%s\",\"bound\":\"%s\",\"count\":%llu}", i ? "," : "", jesc(E.fams[i].name).c_str(), jesc(E.fams[i].bound).c_str(), (unsigned long long)E.fams[i].count);
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < fails.size(); i++) fprintf(f, "%s{\"family\":\"%s\",\"idx\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\",\"crash\":%s}", i ? "," : "", jesc(E.fams[fails[i].fam].name).c_str(), (unsigned long long)fails[i].idx, jesc(fails[i].key).c_str(), jesc(fails[i].msg).c_str(), jesc(fails[i].trace).c_str(), fails[i].crash ? "true" : "false");
  fprintf(f, "],\"samples\":[");
  // sample executions: the middle index of each family, replayed in a child
  bool first = true;
  for (size_t i = 0; i < E.fams.size() && i < 8; i++) if (E.fams[i].count) {
    Slot* s = &slots[0]; u64 idx = E.fams[i].count / 2;
    memset((void*)s, 0, sizeof(Slot));
    inChild([&]() { quietLogs(); std::unordered_set<u64> st; Case c; c.idx = idx; c.slot = s; c.st = &st; E.fams[i].fn(c); });
    std::string t(s->trace); if (t.size() > 600) t = t.substr(0, 600) + "...";
    fprintf(f, "%s\"%s:%llu %s\"", first ? "" : ",", jesc(E.fams[i].name).c_str(), (unsigned long long)idx, jesc(t).c_str()); first = false;
  }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}

#define MC_MAIN(PROP, BODY) \
  int main(int argc, char** argv) { \
    mc::Explorer E; E.prop = PROP; \
    const char* t = getenv("VERIF_TIER"); E.thorough = t && std::string(t) == "thorough"; \
    const char* sd = getenv("VERIF_SEED"); if (sd) E.seed = strtoull(sd, 0, 10); \
    BODY(E); \
    return mc::run(E, argc, argv); \
  }

} // namespace mc
