// Schedule exploration: runs body(threads) in child processes under the controlled runtime, for the base
// schedules and all schedules within the deviation bound, and compares with the single-threaded run.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "vh.h"
#include "vsched.h"

constexpr long MAXLOG = 1 << 20;
constexpr int MAXRES = 1 << 18;
struct Shared {
  vsched::Log log;
  volatile int finished;
  int status;                 // absl status code
  int nres, nhist;
  double res[MAXRES];
  uint8_t arity[MAXLOG];
};
static Shared* cur;
static void on_stop() { cur->log = vsched::log_; cur->finished = 1; }

static void put(double x) { if (cur->nres < MAXRES) cur->res[cur->nres++] = x; }
template <class M> static void putm(const M& m) {
  put((double)m.rows()); put((double)m.cols());
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) put((double)m(i, j));
}
struct Dev { long at; int alt; };

// the operation under test; returns a status code and stores its results with putm/put (6 scalars last)
static int body(int threads);
static double g_tol = 1e-6;
static bool g_reference = false;
static bool cur_is_reference() { return g_reference; }

static void child(int base, const std::vector<Dev>& devs, int threads) {
  freopen("/dev/null", "w", stdout);
  freopen("/dev/null", "w", stderr);
  vsched::Config c{};
  c.base = base;
  c.ndev = (int)devs.size();
  for (size_t i = 0; i < devs.size(); i++) { c.dev_at[i] = devs[i].at; c.dev_alt[i] = devs[i].alt; }
  c.max_points = MAXLOG - 1; c.max_log = MAXLOG; c.arity = cur->arity; c.on_stop = on_stop;
  vsched::begin(c);
  int st = body(threads);
  vsched::end();
  cur->status = st;
  on_stop();
  _exit(0);
}
struct Task { int base; std::vector<Dev> devs; int threads; };
struct Out { int kind; vsched::Log log; int status, nhist; std::vector<double> res; std::vector<uint8_t> arity; };
// kind: 0 finished 1 deadlock 2 livelock 3 crash 4 hang
static std::string show(const Task& t) {
  std::string s = "threads=" + std::to_string(t.threads) + " base=" + std::to_string(t.base);
  for (auto& d : t.devs) s += " dev(" + std::to_string(d.at) + "->" + std::to_string(d.alt) + ")";
  return s;
}
template <class F> static void run_all(const std::vector<Task>& tasks, int jobs, F done, double limit) {
  struct Slot { pid_t pid = 0; Shared* sh = nullptr; size_t i = 0; double t0 = 0; };
  static std::vector<Slot> sl;
  if (sl.empty()) {
    sl.resize(jobs);
    for (auto& s : sl) s.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
  size_t next = 0; int running = 0;
  auto finish = [&](Slot& s, int st, bool hang) {
    Out o;
    Shared& h = *s.sh;
    o.kind = hang ? 4 : !h.finished ? 3 : h.log.outcome;
    if (o.kind == 3) o.status = st;
    else o.status = h.status;
    o.log = h.log; o.nhist = h.nhist;
    o.res.assign(h.res, h.res + h.nres);
    long n = std::min<long>(h.log.points, MAXLOG);
    o.arity.assign(h.arity, h.arity + n);
    s.pid = 0; running--;
    done(s.i, o);
  };
  while (next < tasks.size() || running) {
    for (auto& s : sl) if (!s.pid && next < tasks.size()) {
      s.i = next++;
      s.sh->finished = 0; s.sh->nres = s.sh->nhist = 0; s.sh->status = -1;
      memset(&s.sh->log, 0, sizeof(vsched::Log));
      cur = s.sh;
      s.t0 = now();
      s.pid = fork();
      if (!s.pid) child(tasks[s.i].base, tasks[s.i].devs, tasks[s.i].threads);
      running++;
    }
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { for (auto& s : sl) if (s.pid == p) finish(s, st, false); continue; }
    for (auto& s : sl) if (s.pid && now() - s.t0 > limit) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); finish(s, st, true); }
    usleep(300);
  }
}


struct Totals { long schedules = 0, points = 0, accesses = 0, sync = 0; bool complete = true; double worst = 0; int status = 0, nhist = 0; };
static Totals g_tot;
static bool explore(const char* tag, int nthreads, int depth, const std::string& bases, long maxruns, int jobs, double wall = 60) {
  Out ref;
  std::vector<Task> t0 = {{0, {}, 1}};
  g_reference = true;
  run_all(t0, jobs, [&](size_t, const Out& o) { ref = o; }, wall);
  g_reference = false;
  if (ref.kind != 0) { vh::fail(std::string(tag) + ":single", "the single-threaded run did not finish: outcome " + std::to_string(ref.kind) + " status " + std::to_string(ref.status)); }
  long schedules = 0, points = 0, accesses = 0, sync = 0, runs = 0;
  double worst = 0;
  std::map<std::string, long> vio;
  auto judge = [&](const Task& t, const Out& o) {
    schedules++; points += o.log.points; accesses += o.log.accesses; sync += o.log.barriers + o.log.singles + o.log.criticals + o.log.atomics;
    std::string k = tag, s = show(t);
    auto bad = [&](const std::string& kind, const std::string& d) { if (vio[kind]++ < 3) vh::fail(k + ":" + kind, s + ": " + d); };
    vh::outcome("outcome=" + std::to_string(o.kind) + " status=" + std::to_string(o.status) + " n=" + std::to_string(o.nhist));
    if (o.kind == 1) bad("deadlock", "all threads wait for each other");
    if (o.kind == 2) bad("livelock", "no end after " + std::to_string(o.log.points) + " scheduling points");
    if (o.kind == 3) bad("crash", "process ended with wait status " + std::to_string(o.status));
    if (o.kind == 4) bad("hang", "no end within the time limit");
    for (int i = 0; i < std::min(o.log.nraces, 8); i++) {
      const auto& r = o.log.race[i];
      char b[512];
      static const char* nm[] = {"read", "write", "atomic"};
      int n = snprintf(b, sizeof b, "data race: %s by thread %d vs earlier %s by thread %d, at", nm[r.kind], r.t, nm[r.other_write], r.other);
      for (int j = 0; j < r.n; j++) n += snprintf(b + n, sizeof b - n, " %p", r.pc[j]);
      std::string key = "race";
      if (vio[std::string(b + 0, 0) + "race" + std::to_string((long)r.pc[0])]++ < 1) vh::fail(k + ":race", s + ": " + b);
    }
    if (o.kind != 0) return;
    if (o.status != ref.status) { bad("status", "outcome " + std::to_string(o.status) + " instead of " + std::to_string(ref.status)); return; }
    if (o.res.size() != ref.res.size() || o.nhist != ref.nhist) { bad("history", "result of another size: " + std::to_string(o.res.size()) + " vs " + std::to_string(ref.res.size()) + ", history " + std::to_string(o.nhist) + " vs " + std::to_string(ref.nhist)); return; }
    for (int i = 0; i < o.nhist; i++) if (o.res[i] != ref.res[i]) { bad("history", "iteration history differs at entry " + std::to_string(i)); return; }
    if (o.res.size() < 6) return;
    // values: relative to the magnitude of their array
    size_t i = o.nhist;
    auto cmp = [&](size_t a, size_t b) {
      double sc = 0, d = 0;
      for (size_t j = a; j < b; j++) {
        if (std::isnan(ref.res[j]) != std::isnan(o.res[j])) { d = INFINITY; break; }
        if (std::isnan(ref.res[j]) || ref.res[j] == o.res[j]) continue;
        sc = std::max(sc, std::fabs(ref.res[j])); d = std::max(d, std::fabs(ref.res[j] - o.res[j]));
      }
      for (size_t j = a; j < b; j++) if (std::isfinite(ref.res[j])) sc = std::max(sc, std::fabs(ref.res[j]));
      double rel = d == 0 ? 0 : d / (sc + 1e-30);
      worst = std::max(worst, rel);
      return rel;
    };
    int arr = 0;
    while (i < o.res.size() - 6) {
      size_t n = (size_t)(ref.res[i] * ref.res[i + 1]);
      if (ref.res[i] != o.res[i] || ref.res[i + 1] != o.res[i + 1]) { bad("shape", "array " + std::to_string(arr)); return; }
      double r = cmp(i + 2, i + 2 + n);
      if (!(r <= g_tol)) { bad("value", "array " + std::to_string(arr) + " differs from the single-threaded run by " + std::to_string(r) + " of its magnitude"); return; }
      i += 2 + n; arr++;
    }
    for (; i < o.res.size(); i++) { double r = cmp(i, i + 1); if (!(r <= g_tol)) bad("value", "scalar " + std::to_string(i - (o.res.size() - 6)) + " differs by " + std::to_string(r)); }
  };
  std::vector<Task> level;
  for (char b : bases) level.push_back({b - '0', {}, nthreads});
  bool complete = true;
  for (int d = 0; d <= depth && !level.empty(); d++) {
    std::vector<Task> nxt;
    run_all(level, jobs, [&](size_t i, const Out& o) {
      judge(level[i], o);
      if (d == depth) return;
      long from = level[i].devs.empty() ? 0 : level[i].devs.back().at + 1;
      for (long p = from; p < (long)o.arity.size(); p++)
        for (int a = 1; a < o.arity[p]; a++) {
          if ((long)nxt.size() + runs >= maxruns) { complete = false; return; }
          Task t = level[i];
          t.devs.push_back({p, a});
          nxt.push_back(t);
        }
    }, wall);
    runs += level.size();
    level.swap(nxt);
    if (vio.size()) break;
  }
  g_tot.schedules += schedules; g_tot.points += points; g_tot.accesses += accesses; g_tot.sync += sync;
  g_tot.complete &= complete; g_tot.worst = std::max(g_tot.worst, worst); g_tot.status = ref.status; g_tot.nhist = ref.nhist;
  return vio.empty();
}
static int finish() {
  vh::num("schedules", g_tot.schedules); vh::num("scheduling_points", g_tot.points); vh::num("accesses_checked", g_tot.accesses);
  vh::num("sync_operations", g_tot.sync); vh::num("complete", g_tot.complete); vh::num("worst", g_tot.worst);
  vh::num("single_status", g_tot.status); vh::num("history", g_tot.nhist);
  return vh::done();
}
