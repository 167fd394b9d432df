// Exposes coil descriptions, tabulated fields and the field provider of the free-boundary solver to F01/F02.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <cmath>
#include "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.h"
#include "vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
namespace py = pybind11;
using namespace magnetics;
using composed_types::Vector3d;
static void ok(const absl::Status& s) { if (!s.ok()) throw std::runtime_error("status: " + std::string(s.message())); }
template <class T> static T val(absl::StatusOr<T> s) { ok(s.status()); return std::move(*s); }
static py::tuple v3(const Vector3d& v) {
  auto f = [](bool h, double x) -> py::object { return h ? py::object(py::float_(x)) : py::object(py::none()); };
  return py::make_tuple(f(v.has_x(), v.x()), f(v.has_y(), v.y()), f(v.has_z(), v.z()));
}
static py::object dump(const MagneticConfiguration& c) {
  py::list circuits;
  for (const auto& s : c.serial_circuits()) {
    py::list coils;
    for (const auto& k : s.coils()) {
      py::list cc;
      for (const auto& a : k.current_carriers()) {
        if (a.has_circular_filament()) {
          const auto& f = a.circular_filament();
          cc.append(py::make_tuple("circle", f.name(), f.radius(), v3(f.center()), v3(f.normal())));
        } else if (a.has_polygon_filament()) {
          const auto& f = a.polygon_filament();
          py::list v;
          for (const auto& p : f.vertices()) v.append(v3(p));
          cc.append(py::make_tuple("polygon", f.name(), py::tuple(v)));
        } else if (a.has_infinite_straight_filament()) {
          const auto& f = a.infinite_straight_filament();
          cc.append(py::make_tuple("line", f.name(), v3(f.origin()), v3(f.direction())));
        } else cc.append(py::make_tuple("none"));
      }
      coils.append(py::make_tuple(k.has_num_windings() ? py::object(py::float_(k.num_windings())) : py::object(py::none()), py::tuple(cc)));
    }
    circuits.append(py::make_tuple(s.has_current() ? py::object(py::float_(s.current())) : py::object(py::none()), py::tuple(coils)));
  }
  return py::make_tuple(c.has_num_field_periods() ? py::object(py::int_(c.num_field_periods())) : py::object(py::none()), py::tuple(circuits));
}
static void setv(Vector3d* v, const py::handle& t) {
  auto a = t.cast<std::vector<double>>();
  v->set_x(a[0]); v->set_y(a[1]); v->set_z(a[2]);
}
// builds a configuration from the same nested form that dump() gives
static MagneticConfiguration make(const py::tuple& d) {
  MagneticConfiguration c;
  if (!d[0].is_none()) c.set_num_field_periods(d[0].cast<int>());
  for (auto s : d[1]) {
    auto* sc = c.add_serial_circuits();
    auto st = s.cast<py::tuple>();
    if (!st[0].is_none()) sc->set_current(st[0].cast<double>());
    for (auto k : st[1]) {
      auto kt = k.cast<py::tuple>();
      auto* coil = sc->add_coils();
      if (!kt[0].is_none()) coil->set_num_windings(kt[0].cast<double>());
      for (auto a : kt[1]) {
        auto t = a.cast<py::tuple>();
        auto kind = t[0].cast<std::string>();
        auto* cc = coil->add_current_carriers();
        if (kind == "circle") {
          auto* f = cc->mutable_circular_filament();
          f->set_name(t[1].cast<std::string>());
          if (!t[2].is_none()) f->set_radius(t[2].cast<double>());
          if (!t[3].is_none()) setv(f->mutable_center(), t[3]);
          if (!t[4].is_none()) setv(f->mutable_normal(), t[4]);
        } else if (kind == "polygon") {
          auto* f = cc->mutable_polygon_filament();
          f->set_name(t[1].cast<std::string>());
          for (auto p : t[2]) setv(f->add_vertices(), p);
        } else if (kind == "line") {
          auto* f = cc->mutable_infinite_straight_filament();
          f->set_name(t[1].cast<std::string>());
          if (!t[2].is_none()) setv(f->mutable_origin(), t[2]);
          if (!t[3].is_none()) setv(f->mutable_direction(), t[3]);
        }
      }
    }
  }
  return c;
}
static makegrid::MakegridParameters par(const py::tuple& t) {
  makegrid::MakegridParameters p;
  p.normalize_by_currents = t[0].cast<bool>(); p.assume_stellarator_symmetry = t[1].cast<bool>();
  p.number_of_field_periods = t[2].cast<int>();
  p.r_grid_minimum = t[3].cast<double>(); p.r_grid_maximum = t[4].cast<double>(); p.number_of_r_grid_points = t[5].cast<int>();
  p.z_grid_minimum = t[6].cast<double>(); p.z_grid_maximum = t[7].cast<double>(); p.number_of_z_grid_points = t[8].cast<int>();
  p.number_of_phi_grid_points = t[9].cast<int>();
  return p;
}
static py::tuple unpar(const makegrid::MakegridParameters& p) {
  return py::make_tuple(p.normalize_by_currents, p.assume_stellarator_symmetry, p.number_of_field_periods, p.r_grid_minimum,
                        p.r_grid_maximum, p.number_of_r_grid_points, p.z_grid_minimum, p.z_grid_maximum,
                        p.number_of_z_grid_points, p.number_of_phi_grid_points);
}
using Pts = std::vector<std::vector<double>>;
static py::tuple grid(const vmecpp::MGridProvider& g) {
  return py::make_tuple(g.nfp, g.numR, g.minR, g.maxR, g.numZ, g.minZ, g.maxZ, g.numPhi, g.nextcur, g.mgrid_mode,
                        py::cast(g.bR), py::cast(g.bP), py::cast(g.bZ));
}
PYBIND11_MODULE(x_coils, m) {
  py::class_<vmecpp::MGridProvider>(m, "Provider")
      .def(py::init<>())
      .def("load_file", [](vmecpp::MGridProvider& g, const std::string& f, const Eigen::VectorXd& c) { ok(g.LoadFile(f, c)); return grid(g); })
      .def("load_table", [](vmecpp::MGridProvider& g, const py::tuple& p, const makegrid::RowMatrixXd& a, const makegrid::RowMatrixXd& b, const makegrid::RowMatrixXd& c, const Eigen::VectorXd& cur) {
        makegrid::MagneticFieldResponseTable t; t.parameters = par(p); t.b_r = a; t.b_p = b; t.b_z = c;
        ok(g.LoadFields(t, cur)); return grid(g); })
      .def("loaded", [](vmecpp::MGridProvider& g) { return g.IsLoaded(); })
      // positions of the points [lo, hi) of a surface with nzeta planes
      .def("field", [](vmecpp::MGridProvider& g, int lo, int hi, int nz, const Eigen::VectorXd& r, const Eigen::VectorXd& z) {
        Eigen::VectorXd a = Eigen::VectorXd::Constant(hi - lo + 2, 777.0), b = a, c = a;
        g.interpolate(lo, hi, nz, r, z, a, b, c);
        return py::make_tuple(a, b, c); });
  m.def("parse", [](const std::string& s) { return dump(val(ImportMagneticConfigurationFromMakegrid(s))); });
  m.def("parse_file", [](const std::string& s) { return dump(val(ImportMagneticConfigurationFromCoilsFile(s))); });
  m.def("ident", [](const py::tuple& d) { return dump(make(d)); });
  m.def("populated", [](const py::tuple& d) { return IsMagneticConfigurationFullyPopulated(make(d)).ok(); });
  // applies the operations one after the other; result: one (error or None, configuration) per operation
  m.def("ops", [](const py::tuple& d, const py::list& l) {
    MagneticConfiguration c = make(d);
    py::list out;
    for (auto o : l) {
      auto t = o.cast<py::tuple>();
      auto k = t[0].cast<std::string>();
      py::object extra = py::none();
      absl::Status s;
      if (k == "set") s = SetCircuitCurrents(t[1].cast<Eigen::VectorXd>(), c);
      else if (k == "fold") s = NumWindingsToCircuitCurrents(c);
      else if (k == "move") s = MoveRadially(t[1].cast<double>(), c);
      else if (k == "get") { auto r = GetCircuitCurrents(c); s = r.status(); if (s.ok()) extra = py::cast(*r); }
      out.append(py::make_tuple(s.ok() ? py::object(py::none()) : py::object(py::str(std::string(s.message()) + " ")), dump(c), extra));
    }
    return out;
  });
  m.def("params_json", [](const std::string& s) { return unpar(val(makegrid::ImportMakegridParametersFromJson(s))); });
  m.def("params_file", [](const std::string& s) { return unpar(val(makegrid::ImportMakegridParametersFromFile(s))); });
  m.def("grid", [](const py::tuple& p) { return Eigen::MatrixXd(val(makegrid::MakeCylindricalGrid(par(p)))); });
  m.def("table_b", [](const py::tuple& p, const py::tuple& d) {
    auto t = val(makegrid::ComputeMagneticFieldResponseTable(par(p), make(d)));
    return py::make_tuple(unpar(t.parameters), t.b_r, t.b_p, t.b_z); });
  m.def("table_a", [](const py::tuple& p, const py::tuple& d) {
    auto t = val(makegrid::ComputeVectorPotentialCache(par(p), make(d)));
    return py::make_tuple(unpar(t.parameters), t.a_r, t.a_p, t.a_z); });
  m.def("write", [](const std::string& f, const py::tuple& p, const Eigen::VectorXd& cur, const makegrid::RowMatrixXd& a, const makegrid::RowMatrixXd& b, const makegrid::RowMatrixXd& c, const py::object& pot) {
    makegrid::MagneticFieldResponseTable t; t.parameters = par(p); t.b_r = a; t.b_p = b; t.b_z = c;
    std::optional<makegrid::MakegridCachedVectorPotential> v;
    if (!pot.is_none()) { auto q = pot.cast<py::tuple>(); v.emplace(); v->parameters = par(p);
      v->a_r = q[0].cast<makegrid::RowMatrixXd>(); v->a_p = q[1].cast<makegrid::RowMatrixXd>(); v->a_z = q[2].cast<makegrid::RowMatrixXd>(); }
    ok(makegrid::WriteMakegridNetCDFFile(f, par(p), cur, t, v)); });
  m.def("field", [](const py::tuple& d, const Pts& x, double start) {
    Pts b(x.size(), std::vector<double>(3, start)); ok(MagneticField(make(d), x, b)); return b; });
  m.def("potential", [](const py::tuple& d, const Pts& x, double start) {
    Pts b(x.size(), std::vector<double>(3, start)); ok(VectorPotential(make(d), x, b)); return b; });
  m.def("linking", [](const py::tuple& d, const std::vector<double>& rc, const std::vector<double>& zs) {
    composed_types::CurveRZFourier c;
    for (size_t n = 0; n < rc.size(); ++n) {
      auto* r = c.add_r(); r->set_mode_number((int)n); r->set_fc_cos(rc[n]);
      auto* z = c.add_z(); z->set_mode_number((int)n); z->set_fc_sin(zs[n]);
    }
    return val(LinkingCurrent(make(d), c)); });
}
