#include "abscab/abscab.hh"
#include <cmath>
namespace abscab {
namespace {
constexpr double kPi = 3.14159265358979323846;
// R_i, R_f distances, L length, unit direction e; B = mu0 I/(4pi) * 2L(Ri+Rf)/(Ri Rf) / ((Ri+Rf)^2-L^2) * e x Ri_vec
inline bool seg(const double* a, const double* b, const double* p, double* e, double* ri_v,
                double& L, double& ri, double& rf) {
  double d[3] = {b[0] - a[0], b[1] - a[1], b[2] - a[2]};
  L = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
  if (L == 0.0) return false;
  double rf2 = 0, ri2 = 0;
  for (int i = 0; i < 3; ++i) {
    e[i] = d[i] / L;
    ri_v[i] = p[i] - a[i];
    ri2 += ri_v[i] * ri_v[i];
    rf2 += (p[i] - b[i]) * (p[i] - b[i]);
  }
  ri = std::sqrt(ri2);
  rf = std::sqrt(rf2);
  return true;
}
void loop(const double* c, const double* nrm, double a, const double* p, double* er, double* ez,
          double* ephi, double& rho, double& z) {
  double n = std::sqrt(nrm[0] * nrm[0] + nrm[1] * nrm[1] + nrm[2] * nrm[2]);
  double d[3];
  z = 0;
  for (int i = 0; i < 3; ++i) { ez[i] = nrm[i] / n; d[i] = p[i] - c[i]; z += d[i] * ez[i]; }
  double r2 = 0;
  for (int i = 0; i < 3; ++i) { er[i] = d[i] - z * ez[i]; r2 += er[i] * er[i]; }
  rho = std::sqrt(r2);
  for (int i = 0; i < 3; ++i) er[i] = rho > 0 ? er[i] / rho : 0.0;
  ephi[0] = ez[1] * er[2] - ez[2] * er[1];
  ephi[1] = ez[2] * er[0] - ez[0] * er[2];
  ephi[2] = ez[0] * er[1] - ez[1] * er[0];
  (void)a;
}
}  // namespace
void magneticFieldPolygonFilament(int nv, const double* v, double I, int ne, const double* pos,
                                  double* B, int, bool) {
  if (I == 0.0) return;
  for (int j = 0; j < ne; ++j) {
    double s[3] = {0, 0, 0};
    for (int i = 0; i + 1 < nv; ++i) {
      double e[3], r[3], L, ri, rf;
      if (!seg(v + 3 * i, v + 3 * i + 3, pos + 3 * j, e, r, L, ri, rf)) continue;
      double sum = ri + rf;
      double f = 2.0 * L * sum / (ri * rf) / (sum * sum - L * L);
      s[0] += f * (e[1] * r[2] - e[2] * r[1]);
      s[1] += f * (e[2] * r[0] - e[0] * r[2]);
      s[2] += f * (e[0] * r[1] - e[1] * r[0]);
    }
    for (int k = 0; k < 3; ++k) B[3 * j + k] += MU_0 * I / (4 * kPi) * s[k];
  }
}
void vectorPotentialPolygonFilament(int nv, const double* v, double I, int ne, const double* pos,
                                    double* A, int, bool) {
  if (I == 0.0) return;
  for (int j = 0; j < ne; ++j) {
    double s[3] = {0, 0, 0};
    for (int i = 0; i + 1 < nv; ++i) {
      double e[3], r[3], L, ri, rf;
      if (!seg(v + 3 * i, v + 3 * i + 3, pos + 3 * j, e, r, L, ri, rf)) continue;
      double f = std::log((ri + rf + L) / (ri + rf - L));
      for (int k = 0; k < 3; ++k) s[k] += f * e[k];
    }
    for (int k = 0; k < 3; ++k) A[3 * j + k] += MU_0 * I / (4 * kPi) * s[k];
  }
}
void magneticFieldCircularFilament(const double* c, const double* n, double a, double I, int ne,
                                   const double* pos, double* B, int) {
  for (int j = 0; j < ne; ++j) {
    double er[3], ez[3], ep[3], r, z;
    loop(c, n, a, pos + 3 * j, er, ez, ep, r, z);
    double al2 = (a - r) * (a - r) + z * z, be2 = (a + r) * (a + r) + z * z;
    double k2 = 1 - al2 / be2, be = std::sqrt(be2), C = MU_0 * I / kPi;
    double K = std::comp_ellint_1(std::sqrt(k2)), E = std::comp_ellint_2(std::sqrt(k2));
    double bz = C / (2 * al2 * be) * ((a * a - r * r - z * z) * E + al2 * K);
    double br = r > 0 ? C * z / (2 * al2 * be * r) * ((a * a + r * r + z * z) * E - al2 * K) : 0.0;
    for (int k = 0; k < 3; ++k) B[3 * j + k] += br * er[k] + bz * ez[k];
  }
}
void vectorPotentialCircularFilament(const double* c, const double* n, double a, double I, int ne,
                                     const double* pos, double* A, int) {
  for (int j = 0; j < ne; ++j) {
    double er[3], ez[3], ep[3], r, z;
    loop(c, n, a, pos + 3 * j, er, ez, ep, r, z);
    if (r == 0.0) continue;
    double be2 = (a + r) * (a + r) + z * z, k2 = 4 * a * r / be2, k = std::sqrt(k2);
    double K = std::comp_ellint_1(k), E = std::comp_ellint_2(k);
    // sign convention of abscab (VMEC++ passes -current)
    double ap = -MU_0 * I / (kPi * k) * std::sqrt(a / r) * ((1 - k2 / 2) * K - E);
    for (int q = 0; q < 3; ++q) A[3 * j + q] += ap * ep[q];
  }
}
}  // namespace abscab
