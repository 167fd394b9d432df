// N03: grid sizes, basis tables, basis conversions, direct and fast transforms, for every small resolution and every
// resolution for which a fast kernel exists; every unit mode / unit grid value as input (the transforms are linear).
#include <memory>
#include "vh.h"
#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/fourier_basis/fourier_basis.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/fourier_forces/fourier_forces.h"
#include "vmecpp/vmec/fourier_geometry/fourier_geometry.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/ideal_mhd_model/dft_toroidal.h"
#include "vmecpp/vmec/ideal_mhd_model/fft_toroidal.h"
#include "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
using namespace vmecpp;
static long g_cases = 0, g_values = 0, g_shapes = 0;
static const double R2 = std::sqrt(2.0);
static double sc(int m) { return m > 0 ? R2 : 1.0; }
static bool near(double a, double b, double scale = 1) { g_values++; return std::fabs(a - b) <= 2e-11 * (1 + scale + std::fabs(b)); }
static std::string S(double x) { return vh::str(x); }
static std::string cfg(const Sizes& s) {
  return "lasym=" + S(s.lasym) + " nfp=" + S(s.nfp) + " mpol=" + S(s.mpol) + " ntor=" + S(s.ntor) + " ntheta=" + S(s.ntheta) + " nzeta=" + S(s.nZeta);
}

static void sizes_case(bool lasym, int nfp, int mpol, int ntor, int ntheta, int nzeta, int mg, int ng) {
  std::string key = "sizes:lasym=" + S(lasym) + " nfp=" + S(nfp) + " mpol=" + S(mpol) + " ntor=" + S(ntor) + " ntheta=" + S(ntheta) + " nzeta=" + S(nzeta) + " geom=" + S(mg) + "," + S(ng);
  vh::set_key(key);
  Sizes s(lasym, nfp, mpol, ntor, ntheta, nzeta, mg, ng);
  auto e = [&](bool c, const std::string& d) { vh::expect(c, key, d); };
  e(s.lasym == lasym && s.nfp == nfp && s.mpol == mpol && s.ntor == ntor, "inputs changed");
  e(s.nThetaEven % 2 == 0 && s.nThetaEven >= 2 * mpol, "poloidal grid of " + S(s.nThetaEven) + " does not resolve the modes");
  e(s.nZeta >= 1 && s.nZeta >= 2 * ntor + 1, "toroidal grid of " + S(s.nZeta) + " does not resolve the modes");
  if (ntheta >= 2 * mpol + 6) e(s.nThetaEven == ntheta / 2 * 2, "sufficient ntheta not kept");
  if (nzeta >= 1 && (ntor == 0 || nzeta >= 2 * ntor + 4)) e(s.nZeta == nzeta, "sufficient nzeta not kept");
  e(s.nThetaReduced == s.nThetaEven / 2 + 1 && s.nThetaEff == (lasym ? s.nThetaEven : s.nThetaReduced) && s.nZnT == s.nZeta * s.nThetaEff, "grid sizes inconsistent");
  e(s.lthreed == (ntor > 0) && s.num_basis == (ntor > 0 ? 2 : 1) * (lasym ? 2 : 1), "flags inconsistent");
  e(s.mnsize == mpol * (ntor + 1) && s.mnmax == ntor + 1 + (mpol - 1) * (2 * ntor + 1), "numbers of modes");
  e(s.mnyq >= mpol - 1 && s.mnyq >= s.nThetaEven / 2 && s.nnyq >= ntor && s.nnyq >= s.nZeta / 2 && s.mnmax_nyq == s.nnyq + 1 + s.mnyq * (2 * s.nnyq + 1), "Nyquist sizes");
  e(s.wInt.size() == s.nThetaEff, "weights");
  double w = 0;
  for (int l = 0; l < s.nThetaEff; l++) w += s.wInt[l] * s.nZeta;
  e(near(w, 1), "integration weights sum to " + S(w));
  for (int l = 0; l < s.nThetaEff; l++) e(near(s.wInt[l] / s.wInt[1], !lasym && (l == 0 || l == s.nThetaReduced - 1) ? 0.5 : 1), "weight of point " + S(l));
  e(s.mpolGeometry == (mg >= 1 && mg <= mpol ? mg : mpol) && s.ntorGeometry == (ng >= 0 && ng <= ntor ? ng : ntor), "geometry resolution");
  g_cases++;
  vh::outcome("sizes lasym=" + S(lasym) + " 3d=" + S(ntor > 0) + " raised=" + S(s.nZeta != nzeta) + S(s.nThetaEven != ntheta));
}

template <class L> static void basis_case(const Sizes& s, const char* name) {
  std::string key = std::string("basis:") + name + " " + cfg(s);
  vh::set_key(key);
  FourierBasis<L> b(&s);
  auto e = [&](bool c, const std::string& d) { vh::expect(c, key, d); };
  const int NM = s.mnyq2 + 1, NN = s.nnyq2 + 1;
  double norm = 1.0 / (s.nZeta * (s.nThetaReduced - 1));
  for (int m = 0; m < NM; m++) {
    e(near(b.mscale[m], sc(m)), "mscale");
    for (int l = 0; l < s.nThetaReduced; l++) {
      double th = 2 * M_PI * l / s.nThetaEven, c = std::cos(m * th) * sc(m), si = std::sin(m * th) * sc(m), w = norm * (l == 0 || l == s.nThetaReduced - 1 ? 0.5 : 1);
      int i = L::PoloidalBasisIndex(m, l, NM, s.nThetaReduced);
      bool ok = near(b.cosmu[i], c) && near(b.sinmu[i], si) && near(b.cosmum[i], m * c) && near(b.sinmum[i], -m * si) &&
                near(b.cosmui[i], w * c) && near(b.sinmui[i], w * si) && near(b.cosmumi[i], w * m * c) && near(b.sinmumi[i], -w * m * si);
      e(ok, "poloidal table at m=" + S(m) + " l=" + S(l));
    }
  }
  for (int n = 0; n < NN; n++) {
    e(near(b.nscale[n], sc(n)), "nscale");
    for (int k = 0; k < s.nZeta; k++) {
      double ze = 2 * M_PI * k / s.nZeta, c = std::cos(n * ze) * sc(n), si = std::sin(n * ze) * sc(n), q = n * s.nfp;
      int i = L::ToroidalBasisIndex(n, k, NN, s.nZeta);
      e(near(b.cosnv[i], c) && near(b.sinnv[i], si) && near(b.cosnvn[i], q * c, q) && near(b.sinnvn[i], -q * si, q), "toroidal table at n=" + S(n) + " k=" + S(k));
    }
  }
  // mode tables
  auto modes = [&](const Eigen::VectorXi& xm, const Eigen::VectorXi& xn, int M, int N, int cnt, const char* what) {
    std::set<std::pair<int, int>> have;
    e(xm.size() == cnt && xn.size() == cnt && cnt == N + 1 + (M - 1) * (2 * N + 1), std::string(what) + ": number of modes");
    for (int i = 0; i < xm.size() && i < xn.size(); i++) { e(xn[i] % s.nfp == 0, std::string(what) + ": not a multiple of nfp"); have.insert({xm[i], xn[i] / s.nfp}); }
    for (int m = 0; m < M; m++) for (int n = m ? -N : 0; n <= N; n++) e(have.count({m, n}), std::string(what) + ": mode m=" + S(m) + " n=" + S(n) + " missing");
    e((int)have.size() == cnt, std::string(what) + ": a mode listed twice or out of range");
  };
  modes(b.xm, b.xn, s.mpol, s.ntor, s.mnmax, "xm,xn");
  modes(b.xm_nyq, b.xn_nyq, s.mnyq + 1, s.nnyq, s.mnmax_nyq, "xm_nyq,xn_nyq");
  for (int i = 0; i < b.xm.size(); i++) e(b.mnIdx(b.xm[i], b.xn[i] / s.nfp) == i, "mnIdx of entry " + S(i));
  // conversions, every unit mode, every size up to the resolution
  for (int ms = 1; ms <= s.mpol; ms++) for (int n_ = 0; n_ <= s.ntor; n_++) {
    int cnt = n_ + 1 + (ms - 1) * (2 * n_ + 1), np = ms * (n_ + 1);
    e(b.mnMax(ms, n_) == cnt, "mnMax");
    Eigen::VectorXi xm(cnt), xn(cnt);
    b.computeConversionIndices(xm, xn, n_, ms, s.nfp);
    modes(xm, xn, ms, n_, cnt, "conversion indices");
    for (int parity = 0; parity < 2; parity++) for (int u = 0; u < cnt; u++) {
      std::vector<double> in(cnt, 0.0), A(np, 7.0), B(np, 7.0), back(cnt, 7.0);
      in[u] = 1.5;
      std::string w = std::string(parity ? "sin" : "cos") + " m=" + S(xm[u]) + " n=" + S(xn[u] / s.nfp) + " of " + S(ms) + "x" + S(n_);
      int r = parity ? b.sin_to_sc_cs(in, A, B, n_, ms) : b.cos_to_cc_ss(in, A, B, n_, ms);
      e(r == cnt, "converted " + S(r) + " of " + S(cnt) + " modes");
      double th = 0.7, ze = 0.43;      // the two represent the same function
      for (int p = 0; p < 3; p++, th += 1.1, ze += 0.9) {
        double f = 0, m = xm[u], n = xn[u] / s.nfp, want = 1.5 * (parity ? std::sin(m * th - n * ze) : std::cos(m * th - n * ze));
        for (int mm = 0; mm < ms; mm++) for (int nn = 0; nn <= n_; nn++) {
          int i = L::ProductIndex(mm, nn, ms, n_);
          double q = sc(mm) * sc(nn);
          f += parity ? q * (A[i] * std::sin(mm * th) * std::cos(nn * ze) + B[i] * std::cos(mm * th) * std::sin(nn * ze))
                      : q * (A[i] * std::cos(mm * th) * std::cos(nn * ze) + B[i] * std::sin(mm * th) * std::sin(nn * ze));
        }
        e(near(f, want), "separated form of " + w + " is another function");
      }
      r = parity ? b.sc_cs_to_sin(A, B, back, n_, ms) : b.cc_ss_to_cos(A, B, back, n_, ms);
      e(r == cnt, "converted back " + S(r) + " of " + S(cnt) + " modes");
      for (int i = 0; i < cnt; i++) e(near(back[i], parity && xm[i] == 0 && xn[i] == 0 ? 0.0 : in[i]), "round trip of " + w + " gives " + S(back[i]) + " at entry " + S(i));
      g_cases++;
    }
  }
  vh::outcome(std::string("basis ") + name + " 3d=" + S(s.lthreed));
}

// basis function number q (0 cc, 1 ss, 2 sc, 3 cs) of mode m,n and its derivatives at grid point l,k
struct Bv { double v, u, p; };
static struct Trig {
  const Sizes* s = nullptr;
  std::vector<double> cm, sm, cn, sn;
  void fill(const Sizes& z) {
    s = &z;
    cm.clear(); sm.clear(); cn.clear(); sn.clear();
    for (int m = 0; m < z.mpol; m++) for (int l = 0; l < z.nThetaEven; l++) { double th = 2 * M_PI * l / z.nThetaEven; cm.push_back(std::cos(m * th) * sc(m)); sm.push_back(std::sin(m * th) * sc(m)); }
    for (int n = 0; n <= z.ntor; n++) for (int k = 0; k < z.nZeta; k++) { double ze = 2 * M_PI * k / z.nZeta; cn.push_back(std::cos(n * ze) * sc(n)); sn.push_back(std::sin(n * ze) * sc(n)); }
  }
} T;
static inline Bv basis(const Sizes& s, int q, int m, int n, int l, int k) {
  int i = m * s.nThetaEven + l, j = n * s.nZeta + k;
  double f = n * s.nfp, cm = T.cm[i], sm = T.sm[i], cn = T.cn[j], sn = T.sn[j];
  switch (q) {
    case 0: return {cm * cn, -m * sm * cn, -f * cm * sn};
    case 1: return {sm * sn, m * cm * sn, f * sm * cn};
    case 2: return {sm * cn, m * cm * cn, -f * sm * sn};
    default: return {cm * sn, -m * sm * sn, f * cm * cn};
  }
}
static RadialPartitioning part(int threads, int id, int ns, bool lfreeb) {
  RadialPartitioning rp;
  rp.adjustRadialPartitioning(threads, id, ns, lfreeb, false);
  return rp;
}
static RadialProfiles profiles(const Sizes& s, const RadialPartitioning& rp, int ns, const VmecINDATA& in, FlowControl& fc, HandoverStorage& h) {
  fc.ns = ns;
  RadialProfiles p(&rp, &h, &in, &fc, -1, 0.05);
  p.sqrtSF.resize(rp.nsMaxF1 - rp.nsMinF1);
  for (int j = rp.nsMinF1; j < rp.nsMaxF1; j++) p.sqrtSF[j - rp.nsMinF1] = std::sqrt(j / (ns - 1.0));
  return p;
}
struct Shape { const Sizes& s; const FourierBasisFastPoloidal& fb; const ToroidalFftPlans* plans; };

// spectral coefficients -> real space: one unit mode per surface
static void to_real(const Shape& sh, int ns, int threads, int id, const std::vector<int>& unit, int which, const std::string& key) {
  const Sizes& s = sh.s;
  auto rp = part(threads, id, ns, false);
  VmecINDATA in; FlowControl fc(false, 0.9, 1); HandoverStorage h(&s);
  auto prof = profiles(s, rp, ns, in, fc, h);
  auto x = std::make_unique<FourierGeometry>(&s, &rp, ns);
  x->setZero();
  const int nb = s.mpol * (s.ntor + 1);
  bool asym = which == 1;
  std::span<double> arr[6];
  int q[6];
  if (!asym) { arr[0] = x->rmncc; arr[1] = x->rmnss; arr[2] = x->zmnsc; arr[3] = x->zmncs; arr[4] = x->lmnsc; arr[5] = x->lmncs; int t[] = {0, 1, 2, 3, 2, 3}; std::copy(t, t + 6, q); }
  else { arr[0] = x->rmnsc; arr[1] = x->rmncs; arr[2] = x->zmncc; arr[3] = x->zmnss; arr[4] = x->lmncc; arr[5] = x->lmnss; int t[] = {2, 3, 0, 1, 0, 1}; std::copy(t, t + 6, q); }
  for (int j = rp.nsMinF1; j < rp.nsMaxF1; j++) if (unit[j] >= 0) arr[unit[j] / nb][(j - rp.nsMinF1) * nb + unit[j] % nb] = 1.25;
  Eigen::VectorXd xmpq(s.mpol);
  for (int m = 0; m < s.mpol; m++) xmpq[m] = m * (m - 1) + 0.25;
  size_t n1 = (size_t)s.nZnT * (rp.nsMaxF1 - rp.nsMinF1), nc = (size_t)s.nZnT * (rp.nsMaxFIncludingLcfs - rp.nsMinF);
  std::vector<std::vector<double>> o(18);
  for (int i = 0; i < 18; i++) o[i].assign(i < 16 ? n1 : nc, 77.0);
  RealSpaceGeometry g{o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], o[12], o[13], o[14], o[15], o[16], o[17]};
  if (which == 2) FourierToReal3DSymmFastPoloidalFft(*x, xmpq, rp, s, prof, sh.fb, *sh.plans, g);
  else if (asym) FourierToReal3DAsymFastPoloidal(*x, xmpq, rp, s, prof, sh.fb, g);
  else FourierToReal3DSymmFastPoloidal(*x, xmpq, rp, s, prof, sh.fb, g);
  static const char* nm[] = {"r1_e", "r1_o", "ru_e", "ru_o", "rv_e", "rv_o", "z1_e", "z1_o", "zu_e", "zu_o", "zv_e", "zv_o", "lu_e", "lu_o", "lv_e", "lv_o", "rCon", "zCon"};
  for (int j = rp.nsMinF1; j < rp.nsMaxF1; j++) {
    int u = unit[j], a = u < 0 ? 0 : u / nb, m = u < 0 ? 0 : u % nb / (s.ntor + 1), n = u < 0 ? 0 : u % (s.ntor + 1);
    double amp = u < 0 || (j == 0 && m > 1) ? 0 : 1.25;
    for (int k = 0; k < s.nZeta; k++) for (int l = 0; l < s.nThetaReduced; l++) {
      Bv b = basis(s, q[a], m, n, l, k);
      size_t i = ((size_t)(j - rp.nsMinF1) * s.nZeta + k) * s.nThetaEff + l;
      for (int c = 0; c < 16; c++) {
        int f = c / 2;     // r1 ru rv z1 zu zv lu lv
        int kind = f < 3 ? f : f < 6 ? f - 3 : f - 5, grp = f < 3 ? 0 : f < 6 ? 1 : 2;
        double want = grp == a / 2 && c % 2 == m % 2 ? amp * (kind == 0 ? b.v : kind == 1 ? b.u : grp == 2 ? -b.p : b.p) : 0;
        if (!near(o[c][i], want, n * s.nfp + m)) { vh::fail(key, std::string(nm[c]) + " at surface " + S(j) + " k=" + S(k) + " l=" + S(l) + " is " + S(o[c][i]) + ", expected " + S(want) + " for mode " + S(a) + ":" + S(m) + "," + S(n)); return; }
      }
      if (j >= rp.nsMinF && j < rp.nsMaxFIncludingLcfs) {
        size_t ic = ((size_t)(j - rp.nsMinF) * s.nZeta + k) * s.nThetaEff + l;
        double f = amp * b.v * xmpq[m] * (m % 2 ? std::sqrt(j / (ns - 1.0)) : 1);
        for (int c = 0; c < 2; c++) {
          double want = a / 2 == c ? f : 0;
          if (!near(o[16 + c][ic], want, m * m)) { vh::fail(key, std::string(nm[16 + c]) + " at surface " + S(j) + " k=" + S(k) + " l=" + S(l) + " is " + S(o[16 + c][ic]) + ", expected " + S(want) + " for mode " + S(a) + ":" + S(m) + "," + S(n)); return; }
        }
      }
    }
    g_cases++;
  }
}

// real-space forces -> spectral coefficients: one nonzero grid value per surface
static void to_fourier(const Shape& sh, int ns, int threads, int id, const std::vector<long>& unit, int which, int edge, const std::string& key) {
  const Sizes& s = sh.s;
  bool lfreeb = edge > 0, active = edge > 1;
  auto rp = part(threads, id, ns, lfreeb);
  FlowControl fc(lfreeb, 0.9, 1);
  fc.ns = ns;
  bool asym = which == 1;
  const int nb = s.mpol * (s.ntor + 1), pts = s.nZeta * s.nThetaReduced;
  // 0,1 armn 2,3 azmn 4,5 blmn 6,7 brmn 8,9 bzmn 10,11 clmn 12,13 crmn 14,15 czmn 16,17 frcon 18,19 fzcon
  std::vector<std::vector<double>> d(20);
  for (auto& v : d) v.assign((size_t)s.nZnT * (rp.nsMaxFIncludingLcfs - rp.nsMinF), 0.0);
  for (int j = rp.nsMinF; j < rp.nsMaxFIncludingLcfs; j++) if (unit[j] >= 0) {
    int a = unit[j] / pts, p = unit[j] % pts, k = p / s.nThetaReduced, l = p % s.nThetaReduced;
    d[a][((size_t)(j - rp.nsMinF) * s.nZeta + k) * s.nThetaEff + l] = 1.75;
  }
  RealSpaceForces f{d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15], d[16], d[17], d[18], d[19]};
  Eigen::VectorXd xmpq(s.mpol);
  for (int m = 0; m < s.mpol; m++) xmpq[m] = m * (m - 1) + 0.25;
  auto ff = std::make_unique<FourierForces>(&s, &rp, ns);
  ff->setZero();
  auto st = active ? VacuumPressureState::kActive : VacuumPressureState::kOff;
  if (which == 2) ForcesToFourier3DSymmFastPoloidalFft(f, xmpq, rp, fc, s, sh.fb, *sh.plans, st, *ff);
  else if (asym) ForcesToFourier3DAsymFastPoloidal(f, xmpq, rp, fc, s, sh.fb, st, *ff);
  else ForcesToFourier3DSymmFastPoloidal(f, xmpq, rp, fc, s, sh.fb, st, *ff);
  std::span<double> out[6];
  int q[6];
  if (!asym) { out[0] = ff->frcc; out[1] = ff->frss; out[2] = ff->fzsc; out[3] = ff->fzcs; out[4] = ff->flsc; out[5] = ff->flcs; int t[] = {0, 1, 2, 3, 2, 3}; std::copy(t, t + 6, q); }
  else { out[0] = ff->frsc; out[1] = ff->frcs; out[2] = ff->fzcc; out[3] = ff->fzss; out[4] = ff->flcc; out[5] = ff->flss; int t[] = {2, 3, 0, 1, 0, 1}; std::copy(t, t + 6, q); }
  double norm = 1.0 / (s.nZeta * (s.nThetaReduced - 1));
  for (int j = rp.nsMinF; j < rp.nsMaxFIncludingLcfs; j++) {
    long u = unit[j];
    int a = u < 0 ? 0 : u / pts, p = u < 0 ? 0 : u % pts, k = p / s.nThetaReduced, l = p % s.nThetaReduced;
    double amp = u < 0 ? 0 : 1.75 * norm * (l == 0 || l == s.nThetaReduced - 1 ? 0.5 : 1);
    int parity = a % 2, t = a / 2;
    for (int c = 0; c < 6; c++) for (int m = 0; m < s.mpol; m++) for (int n = 0; n <= s.ntor; n++) {
      Bv b = basis(s, q[c], m, n, l, k);
      int grp = c / 2;
      double want = 0;
      if (m % 2 == parity) switch (t) {
        case 0: want = grp == 0 ? b.v : 0; break;
        case 1: want = grp == 1 ? b.v : 0; break;
        case 2: want = grp == 2 ? b.u : 0; break;
        case 3: want = grp == 0 ? b.u : 0; break;
        case 4: want = grp == 1 ? b.u : 0; break;
        case 5: want = grp == 2 ? -b.p : 0; break;
        case 6: want = grp == 0 ? -b.p : 0; break;
        case 7: want = grp == 1 ? -b.p : 0; break;
        case 8: want = grp == 0 ? xmpq[m] * b.v : 0; break;
        case 9: want = grp == 1 ? xmpq[m] * b.v : 0; break;
      }
      want *= amp;
      if (j == 0 && (m > 0 || grp == 2)) want = 0;                     // the axis has m=0 only and no lambda
      if (j == ns - 1 && grp < 2 && !active) want = 0;                 // the boundary moves only with the vacuum field on
      double got = out[c][(size_t)(j - rp.nsMinF) * nb + m * (s.ntor + 1) + n];
      if (!near(got, want)) { vh::fail(key, "force component " + S(c) + " mode " + S(m) + "," + S(n) + " at surface " + S(j) + " is " + S(got) + ", expected " + S(want) + " for input array " + S(a) + " at k=" + S(k) + " l=" + S(l)); return; }
    }
    g_cases++;
  }
}

// band-pass filter of the constraint force
static void dealias(const Shape& sh, int ns, int threads, int id, const std::vector<int>& unit, const std::string& key) {
  const Sizes& s = sh.s;
  auto rp = part(threads, id, ns, false);
  Eigen::VectorXd faccon(s.mpol), tcon(rp.nsMaxFIncludingLcfs - rp.nsMinF), gin((rp.nsMaxFIncludingLcfs - rp.nsMinF) * s.nZnT), gsc(s.ntor + 1), gcs(s.ntor + 1), gout((rp.nsMaxFIncludingLcfs - rp.nsMinF) * s.nZnT);
  gin.setZero(); gout.setConstant(55); gsc.setConstant(3); gcs.setConstant(4);
  for (int m = 0; m < s.mpol; m++) faccon[m] = 0.3 + 0.2 * m;
  for (int j = 0; j < tcon.size(); j++) tcon[j] = 1 + 0.1 * j;
  for (int j = rp.nsMinF; j < rp.nsMaxF; j++) if (unit[j] >= 0) gin[(j - rp.nsMinF) * s.nZnT + unit[j]] = 1.5;
  deAliasConstraintForce(rp, sh.fb, s, faccon, tcon, gin, gsc, gcs, gout);
  for (int j = rp.nsMinF; j < rp.nsMaxF; j++) {
    int k = unit[j] < 0 ? 0 : unit[j] / s.nThetaEff, l = unit[j] < 0 ? 0 : unit[j] % s.nThetaEff;
    double w = s.lasym ? 1.0 / (s.nZeta * s.nThetaEven) : (l == 0 || l == s.nThetaReduced - 1 ? 0.5 : 1) / (s.nZeta * (s.nThetaReduced - 1));
    double amp = unit[j] < 0 || j == 0 ? 0 : 1.5 * w * tcon[j - rp.nsMinF];
    for (int kk = 0; kk < s.nZeta; kk++) for (int ll = 0; ll < s.nThetaEff; ll++) {
      double want = 0;
      for (int m = 1; m < s.mpol - 1; m++) for (int n = 0; n <= s.ntor; n++) for (int q = s.lasym ? 0 : 2; q < 4; q++)
        want += faccon[m] * amp * basis(s, q, m, n, l, k).v * basis(s, q, m, n, ll, kk).v;
      double got = gout[(j - rp.nsMinF) * s.nZnT + kk * s.nThetaEff + ll];
      if (!near(got, want)) { vh::fail(key, "filtered constraint force at surface " + S(j) + " k=" + S(kk) + " l=" + S(ll) + " is " + S(got) + ", expected " + S(want) + " for an impulse at k=" + S(k) + " l=" + S(l)); return; }
    }
    g_cases++;
  }
}

static void transforms(const Sizes& s, const ToroidalFftPlans* plans, bool small) {
  T.fill(s);
  FourierBasisFastPoloidal fb(&s);
  Shape sh{s, fb, plans};
  const int nb = s.mpol * (s.ntor + 1);
  const long pts = (long)s.nZeta * s.nThetaReduced;
  const int CH = small ? 40 : 64;
  std::vector<int> kinds;
  if (s.ntor > 0) { kinds.push_back(0); if (s.lasym) kinds.push_back(1); if (plans) kinds.push_back(2); }
  static const char* kn[] = {"direct", "direct-asym", "fast"};
  for (int which : kinds) {
    std::string key = std::string("transform:") + kn[which] + " " + cfg(s);
    vh::set_key(key);
    long V = vh::g_viol;
    if (!(which == 0 && plans)) {
      for (int base = 0; base < 6 * nb && vh::g_viol == V; base += CH - 2) {
        std::vector<int> u(CH, -1);
        for (int j = 1; j < CH - 1 && base + j - 1 < 6 * nb; j++) u[j] = base + j - 1;
        to_real(sh, CH, 1, 0, u, which, key + " to real space");
      }
      for (long base = 0; base < 20 * pts && vh::g_viol == V; base += CH - 2) {
        std::vector<long> u(CH, -1);
        for (int j = 1; j < CH - 1 && base + j - 1 < 20 * pts; j++) u[j] = base + j - 1;
        to_fourier(sh, CH, 1, 0, u, which, 0, key + " to Fourier space");
      }
    }
    // axis, boundary and shares of several threads
    int step = small ? 1 : std::max(1, nb / 7);
    for (int threads = 1; threads <= 3; threads++) for (int id = 0; id < threads; id++) {
      const int ns = 7;
      for (int base = 0; base < 6 * nb && vh::g_viol == V; base += step) {
        std::vector<int> u(ns);
        for (int j = 0; j < ns; j++) u[j] = (base + 5 * j) % (6 * nb);
        to_real(sh, ns, threads, id, u, which, key + " threads=" + S(threads) + "/" + S(id) + " to real space");
      }
      for (int edge = 0; edge < 3; edge++) for (long base = 0; base < 20 * pts && vh::g_viol == V; base += small ? std::max<long>(1, pts / 8) : pts - 1) {
        std::vector<long> u(ns);
        for (int j = 0; j < ns; j++) u[j] = (base + (pts + 3) * j) % (20 * pts);
        to_fourier(sh, ns, threads, id, u, which, edge, key + " threads=" + S(threads) + "/" + S(id) + " edge=" + S(edge) + " to Fourier space");
      }
    }
    vh::outcome(std::string(kn[which]) + " lasym=" + S(s.lasym));
  }
  if (small) {
    std::string key = "filter:" + cfg(s);
    vh::set_key(key);
    long V = vh::g_viol;
    for (int threads = 1; threads <= 2; threads++) for (int id = 0; id < threads; id++)
      for (int base = 0; base < s.nZnT && vh::g_viol == V; base += threads == 1 ? 4 : 9) {
        std::vector<int> u(6);
        for (int j = 0; j < 6; j++) u[j] = threads == 1 ? (j == 0 || j == 5 || base + j - 1 >= s.nZnT ? -1 : base + j - 1) : (base + 7 * j) % s.nZnT;
        dealias(sh, 6, threads, id, u, key);
      }
    vh::outcome("filter lasym=" + S(s.lasym));
  }
  g_shapes++;
}

int main(int argc, char** argv) {
  vh::init();
  bool thorough = atoi(argv[1]);
  int part_ = atoi(argv[2]), parts = atoi(argv[3]);
  long n = 0;
  auto mine = [&] { return n++ % parts == part_; };
  for (int lasym = 0; lasym < 2; lasym++) for (int nfp : {1, 2, 5}) for (int mpol = 1; mpol <= 8; mpol++) for (int ntor = 0; ntor <= 6; ntor++) {
    if (!mine()) continue;
    for (int ntheta = 0; ntheta <= 30; ntheta++) for (int nzeta = 0; nzeta <= 24; nzeta++) sizes_case(lasym, nfp, mpol, ntor, ntheta, nzeta, -1, -1);
    for (int mg = -2; mg <= mpol + 2; mg++) for (int ng = -2; ng <= ntor + 2; ng++) sizes_case(lasym, nfp, mpol, ntor, 0, 0, mg, ng);
  }
  int MB = thorough ? 8 : 6, NB = thorough ? 6 : 4;
  for (int lasym = 0; lasym < 2; lasym++) for (int nfp : {1, 3}) for (int mpol = 1; mpol <= MB; mpol++) for (int ntor = 0; ntor <= NB; ntor++)
    for (int dt : {0, 7, 10}) for (int dz : {0, 1, 5, 8}) {
      if (!mine()) continue;
      Sizes s(lasym, nfp, mpol, ntor, dt ? 2 * mpol + dt : 0, dz ? 2 * ntor + dz : 0);
      basis_case<FourierBasisFastPoloidalLayout>(s, "poloidal-fast");
      basis_case<FourierBasisFastToroidalLayout>(s, "toroidal-fast");
    }
  int MT = thorough ? 6 : 5, NT = thorough ? 4 : 3;
  for (int lasym = 0; lasym < 2; lasym++) for (int nfp : {1, 3}) for (int mpol = 1; mpol <= MT; mpol++) for (int ntor = 0; ntor <= NT; ntor++)
    for (int dt : {0, 9}) for (int dz : {0, 5, 8}) {
      if (!mine()) continue;
      Sizes s(lasym, nfp, mpol, ntor, dt ? 2 * mpol + dt : 0, dz ? 2 * ntor + dz : 0);
      transforms(s, nullptr, true);
    }
  long kernels = 0;
  for (int nz = 4; nz <= 64; nz++) for (int mpol = 2; mpol <= 24; mpol++) {
    ToroidalFftPlans plans(nz, 2, mpol);
    if (!plans.kernels_available()) continue;
    kernels++;
    int top = (nz - 4) / 2;
    std::set<int> nt = {top};
    if (thorough) for (int i = 1; i <= top; i++) nt.insert(i);
    else nt.insert(1);
    for (int ntor : nt) for (int lasym = 0; lasym < 2; lasym++) {
      if (ntor < 1) continue;
      if (!mine()) continue;
      if (lasym && !thorough && ntor != top) continue;
      Sizes s(lasym, 2, mpol, ntor, 0, nz);
      if (s.nZeta != nz) continue;
      transforms(s, &plans, false);
    }
  }
  vh::num("cases", g_cases); vh::num("values_compared", g_values); vh::num("shapes", g_shapes);
  if (part_ == 0) vh::num("kernels", kernels);
  return vh::done();
}
