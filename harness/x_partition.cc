// Exposes the work partitions of the solver to the check of S02.
#include <pybind11/pybind11.h>
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
namespace py = pybind11;
PYBIND11_MODULE(x_partition, m) {
  m.def("radial", [](int n, int t, int ns, bool fb) {
    vmecpp::RadialPartitioning r;
    r.adjustRadialPartitioning(n, t, ns, fb, false);
    py::dict d;
#define X(f) d[#f] = r.f;
    X(nsMinF) X(nsMaxF) X(nsMinF1) X(nsMaxF1) X(nsMinH) X(nsMaxH) X(nsMinFi) X(nsMaxFi)
#undef X
    return d;
  });
  m.def("tangential", [](int pts, int n, int t) {
    vmecpp::TangentialPartitioning p(pts, n, t);
    return py::make_tuple(p.ztMin, p.ztMax);
  });
}
