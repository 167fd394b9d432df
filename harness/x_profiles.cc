// Exposes the radial profile evaluation to the check of N04.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
namespace py = pybind11;
using namespace vmecpp;
using V = Eigen::VectorXd;
struct Ctx {
  VmecINDATA id;
  std::unique_ptr<Sizes> sz;
  std::unique_ptr<FlowControl> fc;
  std::unique_ptr<HandoverStorage> h;
  RadialPartitioning rp;
  std::unique_ptr<RadialProfiles> p;
  void make(int nthreads, int thread, int ns, int sgn) {
    sz = std::make_unique<Sizes>(id);
    fc = std::make_unique<FlowControl>(false, 0.9, 1);
    fc->ns = ns;
    fc->deltaS = 1.0 / (ns - 1.0);
    h = std::make_unique<HandoverStorage>(sz.get());
    rp.adjustRadialPartitioning(nthreads, thread, ns, false, false);
    p = std::make_unique<RadialProfiles>(&rp, h.get(), &id, fc.get(), sgn, 0.05);
    p->setupInputProfiles();
  }
};
static void setup(Ctx& c, const py::dict& d) {
  auto s = [&](const char* k) { return d[k].cast<std::string>(); };
  auto v = [&](const char* k) { return d.contains(k) ? d[k].cast<V>() : V(V::Zero(0)); };
  auto f = [&](const char* k, double def) { return d.contains(k) ? d[k].cast<double>() : def; };
  if (d.contains("pmass_type")) c.id.pmass_type = s("pmass_type");
  if (d.contains("piota_type")) c.id.piota_type = s("piota_type");
  if (d.contains("pcurr_type")) c.id.pcurr_type = s("pcurr_type");
  c.id.am = v("am"); c.id.am_aux_s = v("am_aux_s"); c.id.am_aux_f = v("am_aux_f");
  c.id.ai = v("ai"); c.id.ai_aux_s = v("ai_aux_s"); c.id.ai_aux_f = v("ai_aux_f");
  c.id.ac = v("ac"); c.id.ac_aux_s = v("ac_aux_s"); c.id.ac_aux_f = v("ac_aux_f");
  if (d.contains("aphi")) c.id.aphi = v("aphi");
  c.id.bloat = f("bloat", 1.0); c.id.pres_scale = f("pres_scale", 1.0); c.id.spres_ped = f("spres_ped", 1.0);
  c.id.gamma = f("gamma", 0.0); c.id.phiedge = f("phiedge", 1.0); c.id.curtor = f("curtor", 0.0);
  c.id.ncurr = (int)f("ncurr", 0);
}
PYBIND11_MODULE(x_profiles, m) {
  m.def("eval", [](const py::dict& d, const std::vector<double>& xs) {
    Ctx c; setup(c, d); c.make(1, 0, 5, -1);
    std::vector<double> a, b, e;
    for (double x : xs) { a.push_back(c.p->evalMassProfile(x)); b.push_back(c.p->evalIotaProfile(x)); e.push_back(c.p->evalCurrProfile(x)); }
    return py::make_tuple(a, b, e);
  });
  m.def("accepted", [](const std::string& n) {
    Ctx c; setup(c, py::dict()); c.make(1, 0, 5, -1);
    auto ok = [&](ProfileType t) { return c.p->findParameterization(n, t) != ProfileParameterization::INVALID_PARAM; };
    return py::make_tuple(ok(ProfileType::PRESSURE), ok(ProfileType::IOTA), ok(ProfileType::CURRENT));
  });
  m.def("grid", [](const py::dict& d, int nthreads, int thread, int ns, int sgn, bool flip, double r00) {
    Ctx c; setup(c, d);
    c.id.rbc = RowMatrixXd::Zero(c.id.mpol, 2 * c.id.ntor + 1); c.id.zbs = c.id.rbc;
    c.id.rbc(0, c.id.ntor) = r00;
    c.make(nthreads, thread, ns, sgn);
    VmecConstants vc; vc.reset();
    c.p->evalRadialProfiles(flip, vc);
    py::dict r;
    r["nsMinH"] = c.rp.nsMinH; r["nsMaxH"] = c.rp.nsMaxH; r["nsMinF1"] = c.rp.nsMinF1; r["nsMaxF1"] = c.rp.nsMaxF1;
    r["massH"] = c.p->massH; r["iotaH"] = c.p->iotaH; r["currH"] = c.p->currH; r["phipH"] = c.p->phipH; r["chipH"] = c.p->chipH; r["sqrtSH"] = c.p->sqrtSH;
    r["phipF"] = c.p->phipF; r["chipF"] = c.p->chipF; r["iotaF"] = c.p->iotaF; r["sqrtSF"] = c.p->sqrtSF;
    r["sm"] = c.p->sm; r["sp"] = c.p->sp; r["rmsPhiP"] = vc.rmsPhiP;
    return r;
  });
}
