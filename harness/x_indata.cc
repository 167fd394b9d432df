// Exposes the native run input (field by field) and its conversions to the checks of I01/I02.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "H5Cpp.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
namespace py = pybind11;
using namespace vmecpp;
using I = VmecINDATA;
#define SCALARS(X) X(lasym) X(nfp) X(mpol) X(ntor) X(mpol_geometry) X(ntor_geometry) X(ntheta) X(nzeta) \
  X(phiedge) X(ncurr) X(pmass_type) X(pres_scale) X(gamma) X(spres_ped) X(piota_type) X(pcurr_type) X(curtor) X(bloat) \
  X(lfreeb) X(mgrid_file) X(nvacskip) X(nstep) X(delt) X(tcon0) X(lforbal) X(return_outputs_even_if_not_converged)
#define ARRAYS(X) X(ns_array) X(ftol_array) X(niter_array) X(am) X(am_aux_s) X(am_aux_f) X(ai) X(ai_aux_s) X(ai_aux_f) \
  X(ac) X(ac_aux_s) X(ac_aux_f) X(extcur) X(aphi) X(raxis_c) X(zaxis_s) X(rbc) X(zbs)
#define OPTS(X) X(raxis_s) X(zaxis_c) X(rbs) X(zbc)
static py::dict dump(const I& o) {
  py::dict d;
#define X(f) d[#f] = py::cast(o.f, py::return_value_policy::copy);
  SCALARS(X) ARRAYS(X)
#undef X
#define X(f) d[#f] = o.f.has_value() ? py::cast(*o.f, py::return_value_policy::copy) : py::object(py::none());
  OPTS(X)
#undef X
  d["free_boundary_method"] = (int)o.free_boundary_method;
  d["iteration_style"] = (int)o.iteration_style;
  return d;
}
static I make(const py::dict& d) {
  I o;
#define X(f) if (d.contains(#f)) o.f = d[#f].cast<decltype(o.f)>();
  SCALARS(X) ARRAYS(X)
#undef X
#define X(f) if (d.contains(#f)) { if (d[#f].is_none()) o.f.reset(); else o.f = d[#f].cast<typename decltype(o.f)::value_type>(); }
  OPTS(X)
#undef X
  if (d.contains("free_boundary_method")) o.free_boundary_method = (FreeBoundaryMethod)d["free_boundary_method"].cast<int>();
  if (d.contains("iteration_style")) o.iteration_style = (IterationStyle)d["iteration_style"].cast<int>();
  return o;
}
static void ok(const absl::Status& s) { if (!s.ok()) throw std::runtime_error("status: " + std::string(s.message())); }
PYBIND11_MODULE(x_indata, m) {
  m.def("ident", [](const py::dict& d) { return dump(make(d)); });
  m.def("defaults", [] { return dump(I()); });
  m.def("to_json", [](const py::dict& d) { auto s = make(d).ToJson(); ok(s.status()); return *s; });
  m.def("from_json", [](const std::string& s) { auto r = I::FromJson(s); ok(r.status()); return dump(*r); });
  m.def("from_json_throws", [](const std::string& s) { return dump(I::FromFile(s)); });
  m.def("copy", [](const py::dict& d) { return dump(make(d).Copy()); });
  m.def("equal", [](const py::dict& a, const py::dict& b) { auto x = make(a), y = make(b); return py::make_tuple(x == y, x != y); });
  // write into a fresh file and read into a receiver prepared from `into`
  m.def("h5", [](const py::dict& d, const py::dict& into, const std::string& path) {
    { H5::H5File f(path, H5F_ACC_TRUNC); ok(make(d).WriteTo(f)); }
    I r = make(into);
    H5::H5File f(path, H5F_ACC_RDONLY);
    ok(I::LoadInto(r, f));
    return dump(r);
  });
  m.def("resize", [](const py::dict& d, int mp, int nt) { auto o = make(d); o.SetMpolNtor(mp, nt); return dump(o); });
  m.def("consistent", [](const py::dict& d) { auto s = IsConsistent(make(d), false); return s.ok() ? std::string() : std::string(s.message()) + " "; });
}
