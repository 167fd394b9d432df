// Systems of the parallel tridiagonal solver and their exact solution.
#pragma once
#include <omp.h>

#include <mutex>
#include <span>
#include <vector>

#include "vmecpp/common/util/util.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"

// deterministic, diagonally dominant coefficients
inline double coef(int kind, int what, int q, int j, int mn) {
  unsigned h = 2166136261u;
  for (int x : {kind, what, q, j, mn}) h = (h ^ (unsigned)(x + 7)) * 16777619u;
  h ^= h >> 13;
  double u = (double)(h % 1000) / 1000.0;             // 0..1
  if (what == 1) return (kind % 2 ? -1 : 1) * (3.0 + u);  // diagonal
  if (what == 3) return (u - 0.5) * 10;                    // right-hand side
  if (kind >= 2 && h % 5 == 0) return 0.0;                 // decoupled rows
  return (u - 0.5) * 2;
}
// solve rows [lo, hi) of a*x[j+1] + d*x[j] + b*x[j-1] = c by elimination with pivoting in long double
inline std::vector<double> dense(int lo, int hi, const std::vector<double>& a, const std::vector<double>& d, const std::vector<double>& b, const std::vector<double>& c) {
  int n = hi - lo;
  std::vector<std::vector<long double>> m(n, std::vector<long double>(n + 1, 0));
  for (int i = 0; i < n; i++) {
    m[i][i] = d[lo + i];
    if (i + 1 < n) m[i][i + 1] = a[lo + i];
    if (i) m[i][i - 1] = b[lo + i];
    m[i][n] = c[lo + i];
  }
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k + 1; i < n; i++) if (std::fabs((double)m[i][k]) > std::fabs((double)m[p][k])) p = i;
    std::swap(m[k], m[p]);
    for (int i = k + 1; i < n; i++) {
      long double f = m[i][k] / m[k][k];
      if (f != 0) for (int j = k; j <= n; j++) m[i][j] -= f * m[k][j];
    }
  }
  std::vector<double> x(n);
  for (int i = n - 1; i >= 0; i--) {
    long double s = m[i][n];
    for (int j = i + 1; j < n; j++) s -= m[i][j] * x[j];
    x[i] = (double)(s / m[i][i]);
  }
  return x;
}
struct Tri { int ns, ncpu, mnmax, nrhs, jmax, kind; std::vector<int> jmin; };
inline std::string show(const Tri& t) {
  std::string s = "ns=" + std::to_string(t.ns) + " workers=" + std::to_string(t.ncpu) + " jMax=" + std::to_string(t.jmax) + " nRHS=" + std::to_string(t.nrhs) + " kind=" + std::to_string(t.kind) + " jMin=";
  for (int j : t.jmin) s += std::to_string(j) + ",";
  return s;
}
// runs the parallel solver; x[k][R/Z][mn][j]
inline std::vector<double> solve_parallel(const Tri& t, std::vector<std::pair<int, int>> split) {
  const int mn = t.mnmax, ncpu = t.ncpu;
  std::vector<std::vector<double>> A[2], D[2], B[2], C[2];
  for (int q = 0; q < 2; q++) { A[q].resize(ncpu); D[q].resize(ncpu); B[q].resize(ncpu); C[q].resize(ncpu * t.nrhs); }
  for (int r = 0; r < ncpu; r++) {
    int lo = split[r].first, hi = split[r].second;
    for (int q = 0; q < 2; q++) {
      A[q][r].resize((hi - lo) * mn); D[q][r].resize((hi - lo) * mn); B[q][r].resize((hi - lo) * mn);
      for (int k = 0; k < t.nrhs; k++) C[q][r * t.nrhs + k].resize((hi - lo) * mn);
      for (int j = lo; j < hi; j++) for (int m = 0; m < mn; m++) {
        int i = (j - lo) * mn + m;
        A[q][r][i] = coef(t.kind, 0, q, j, m); D[q][r][i] = coef(t.kind, 1, q, j, m); B[q][r][i] = coef(t.kind, 2, q, j, m);
        for (int k = 0; k < t.nrhs; k++) C[q][r * t.nrhs + k][i] = coef(t.kind, 3, q + 2 * k, j, m);
      }
    }
  }
  std::vector<std::mutex> mut(ncpu);
  std::vector<double> har(mn, 1e300), haz(mn, 1e300);
  std::vector<std::vector<double>> hcr(t.nrhs, std::vector<double>(mn, 1e300)), hcz = hcr;
#pragma omp parallel num_threads(ncpu)
  {
    int r = omp_get_thread_num();
    std::vector<std::span<double>> cr, cz;
    for (int k = 0; k < t.nrhs; k++) { cr.emplace_back(C[0][r * t.nrhs + k]); cz.emplace_back(C[1][r * t.nrhs + k]); }
    vmecpp::TridiagonalSolveOpenMP(A[0][r], D[0][r], B[0][r], cr, A[1][r], D[1][r], B[1][r], cz, t.jmin, t.jmax, mn, t.nrhs, mut, ncpu, r,
                                   split[r].first, split[r].second, har, hcr, haz, hcz);
  }
  std::vector<double> x;
  for (int k = 0; k < t.nrhs; k++) for (int q = 0; q < 2; q++) for (int m = 0; m < mn; m++) for (int r = 0; r < ncpu; r++)
    for (int j = split[r].first; j < split[r].second; j++) x.push_back(C[q][r * t.nrhs + k][(j - split[r].first) * mn + m]);
  return x;
}
inline std::vector<double> expected(const Tri& t) {
  std::vector<double> x;
  for (int k = 0; k < t.nrhs; k++) for (int q = 0; q < 2; q++) for (int m = 0; m < t.mnmax; m++) {
    std::vector<double> a(t.ns), d(t.ns), b(t.ns), c(t.ns);
    for (int j = 0; j < t.ns; j++) { a[j] = coef(t.kind, 0, q, j, m); d[j] = coef(t.kind, 1, q, j, m); b[j] = coef(t.kind, 2, q, j, m); c[j] = coef(t.kind, 3, q + 2 * k, j, m); }
    auto s = dense(t.jmin[m], t.jmax, a, d, b, c);
    for (int j = 0; j < t.ns; j++) x.push_back(j < t.jmin[m] ? 0.0 : j < t.jmax ? s[j - t.jmin[m]] : c[j]);
  }
  return x;
}
inline std::vector<std::pair<int, int>> partition(int ns, int ncpu, bool lfreeb) {
  std::vector<std::pair<int, int>> s;
  for (int r = 0; r < ncpu; r++) {
    vmecpp::RadialPartitioning p;
    p.adjustRadialPartitioning(ncpu, r, ns, lfreeb, false);
    s.push_back({p.nsMinF, p.nsMaxF});
  }
  return s;
}
