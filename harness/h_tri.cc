// N05: tridiagonal solvers, every size, start row, end row, split and number of right-hand sides (ASan/UBSan).
#include "vh.h"
#include "tri_case.h"
static void check(const std::string& key, const std::vector<double>& got, const std::vector<double>& want) {
  double worst = 0;
  for (size_t i = 0; i < want.size(); i++) {
    double e = std::fabs(got[i] - want[i]) / (1 + std::fabs(want[i]));
    if (!(e <= 1e-11)) { vh::fail(key, "entry " + std::to_string(i) + " is " + vh::str(got[i]) + ", exact " + vh::str(want[i])); return; }
    worst = std::max(worst, e);
  }
}
int main(int argc, char** argv) {
  vh::init();
  int maxns = atoi(argv[1]), part = atoi(argv[2]), parts = atoi(argv[3]);
  long n = 0, cases = 0;
  // serial solver
  for (int ns = 1; ns <= maxns + 6; ns++) for (int jmin = 0; jmin < ns; jmin++) for (int jmax = jmin + 1; jmax <= ns; jmax++)
    for (int nr = 1; nr <= 3; nr++) for (int pad = 0; pad <= 2; pad += 2) for (int kind = 0; kind < 4; kind++) {
      if (n++ % parts != part) continue;
      std::string key = "serial:ns=" + std::to_string(ns) + " jMin=" + std::to_string(jmin) + " jMax=" + std::to_string(jmax) + " nRHS=" + std::to_string(nr) + " stride=" + std::to_string(ns + pad) + " kind=" + std::to_string(kind);
      vh::set_key(key);
      std::vector<double> a(ns), d(ns), b(ns), c((size_t)nr * (ns + pad), 777.0), want, got;
      for (int j = 0; j < ns; j++) { a[j] = coef(kind, 0, 0, j, 0); d[j] = coef(kind, 1, 0, j, 0); b[j] = coef(kind, 2, 0, j, 0); }
      for (int k = 0; k < nr; k++) {
        std::vector<double> cc(ns);
        for (int j = 0; j < ns; j++) c[k * (ns + pad) + j] = cc[j] = coef(kind, 3, k, j, 0);
        auto s = dense(jmin, jmax, a, d, b, cc);
        for (int j = 0; j < ns + pad; j++) want.push_back(j < jmin ? 0.0 : j < jmax ? s[j - jmin] : j < ns ? cc[j] : 777.0);
      }
      vmecpp::TridiagonalSolveSerial(a, d, b, c.data(), ns + pad, jmin, jmax, nr);
      check(key, c, want);
      cases++;
      vh::outcome("serial jmin=" + std::to_string(jmin > 0) + " partial=" + std::to_string(jmax < ns) + " nrhs=" + std::to_string(nr) + " rows=" + std::to_string(std::min(jmax - jmin, 4)));
    }
  // parallel solver: all compositions of the radial grid, all start rows
  for (int ns = 1; ns <= maxns; ns++) for (int mask = 0; mask < (1 << (ns - 1)); mask++) {
    std::vector<std::pair<int, int>> sp;
    int lo = 0;
    for (int j = 1; j <= ns; j++) if (j == ns || (mask >> (j - 1) & 1)) { sp.push_back({lo, j}); lo = j; }
    if (sp.size() > 5) continue;
    for (int jmax = std::max(1, ns - 1); jmax <= ns; jmax++) for (int j0 = 0; j0 < jmax; j0++) for (int j1 = 0; j1 < std::min(jmax, 3); j1++) {
      if (n++ % parts != part) continue;
      Tri t{ns, (int)sp.size(), 2, 2, jmax, (int)(n % 4), {j0, j1}};
      std::string key = "parallel:" + show(t) + " split=" + std::to_string(mask);
      vh::set_key(key);
      alarm(60);
      check(key, solve_parallel(t, sp), expected(t));
      alarm(0);
      cases++;
      vh::outcome("parallel workers=" + std::to_string(sp.size()) + " jmin=" + std::to_string(j0) + std::to_string(j1));
    }
  }
  vh::num("cases", cases);
  return vh::done();
}
