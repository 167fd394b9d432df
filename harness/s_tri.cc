// N05: parallel tridiagonal solver under all schedules within the deviation bound.
// usage: s_tri MAXNS MAXWORKERS DEVIATIONS PART PARTS
#include "explore.h"
#include "tri_case.h"
static Tri T_;
static std::vector<std::pair<int, int>> S_;
static int body(int) {
  // the reference (first, "single-threaded") run is the exact solution
  Tri t = T_;
  auto x = cur_is_reference() ? expected(t) : solve_parallel(t, S_);
  put((double)x.size()); put(1);
  for (double v : x) put(v);
  for (int i = 0; i < 6; i++) put(0);
  return 0;
}
int main(int, char** argv) {
  vh::init();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL);
  int maxns = atoi(argv[1]), maxw = atoi(argv[2]), depth = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
  omp_set_num_threads(maxw);
  g_tol = 1e-11;
  long n = 0, cases = 0;
  for (int ns = 2; ns <= maxns; ns++) for (int mask = 0; mask < (1 << (ns - 1)); mask++) {
    S_.clear();
    int lo = 0;
    for (int j = 1; j <= ns; j++) if (j == ns || (mask >> (j - 1) & 1)) { S_.push_back({lo, j}); lo = j; }
    int w = (int)S_.size();
    if (w < 2 || w > maxw) continue;
    for (int j0 = 0; j0 < std::min(ns, 3); j0++) {
      if (n++ % parts != part) continue;
      T_ = Tri{ns, w, 2, 1, (n & 1) && ns > 2 && j0 < ns - 1 ? ns - 1 : ns, (int)(n % 4), {j0, 0}};
      std::string tag = show(T_) + " split=" + std::to_string(mask);
      bool ok = explore(tag.c_str(), w, depth, "012", 100000, 1, 30);
      cases++;
      if (!ok && vh::g_viol > 10) return finish();
    }
  }
  vh::num("systems", cases);
  return finish();
}
