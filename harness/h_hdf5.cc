// I05 (containers): every value kind and small shape through the HDF5 helpers.
#include <filesystem>

#include "util/hdf5_io/hdf5_io.h"
#include "vh.h"
using namespace vh;
namespace fs = std::filesystem;
using hdf5_io::ReadH5Dataset;
using hdf5_io::RowMatrixXd;
using hdf5_io::WriteH5Dataset;
static const double inf = std::numeric_limits<double>::infinity();
static const std::vector<double> kD = {0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, inf, -inf, std::nan(""), 3.0, 1e-17};
static double dv(size_t i, int salt) { size_t k = (i * 5 + salt) % (kD.size() + 4); return k < kD.size() ? kD[k] : (double)i * 1.25 + salt * 0.001; }
static int iv(size_t i, int salt) { static const int a[] = {0, 1, -1, 2147483647, -2147483647 - 1, 65536, -300}; size_t k = (i * 3 + salt) % 10; return k < 7 ? a[k] : (int)(i * 17 + salt); }

template <typename F> static bool throws(const std::string& key, F f) {
  set_key(key);
  try { f(); return false; }
  catch (const H5::Exception&) { return true; }
  catch (const std::exception&) { return true; }
}
template <typename F> static void safely(const std::string& key, F f) {
  set_key(key);
  try { f(); }
  catch (const H5::Exception& e) { fail(key, "HDF5 exception " + e.getDetailMsg()); }
  catch (const std::exception& e) { fail(key, std::string("exception ") + e.what()); }
}
template <typename V> static bool veq(const V& a, const V& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < (int)a.size(); ++i) {
    if constexpr (std::is_same_v<typename V::value_type, double>) { if (!same_bits(a[i], b[i])) return false; }
    else if (a[i] != b[i]) return false;
  }
  return true;
}
int main(int argc, char** argv) {
  init();
  H5::Exception::dontPrint();
  const fs::path dir = argv[1];
  const bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
  const std::string fn = (dir / "a.h5").string();
  long nds = 0;
  struct Chk { std::string key; std::function<void(H5::H5File&)> rd; };
  std::vector<Chk> checks;
  const std::vector<int> L = {0, 1, 2, 3, 7, 64, 65, 1000};
  {
    H5::H5File f(fn, H5F_ACC_TRUNC);
    f.createGroup("/g"); f.createGroup("/g/h");
    auto nm = [&](std::string k) { return std::string(nds % 3 == 0 ? "" : nds % 3 == 1 ? "/g/" : "/g/h/") + k + "_" + str(nds++); };
    int salt = 0;
    for (double d : kD) { auto n = nm("d"); std::string key = "double v=" + str(d); safely(key, [&] { WriteH5Dataset(d, n, f); });
      checks.push_back({key, [=](H5::H5File& g) { double x = 77.5; ReadH5Dataset(x, n, g); expect(same_bits(x, d), key, "read " + str(x)); outcome("double"); }}); }
    for (int i : {0, 1, -1, 255, 256, 65535, 65536, 2147483647, -2147483647 - 1}) { auto n = nm("i"); std::string key = "int v=" + str(i); safely(key, [&] { WriteH5Dataset(i, n, f); });
      checks.push_back({key, [=](H5::H5File& g) { int x = 77; ReadH5Dataset(x, n, g); expect(x == i, key, "read " + str(x)); outcome("int"); }}); }
    for (bool b : {false, true}) { auto n = nm("b"); std::string key = "bool v=" + str(b); safely(key, [&] { WriteH5Dataset(b, n, f); });
      for (bool pre : {false, true}) checks.push_back({key, [=](H5::H5File& g) { bool x = pre; ReadH5Dataset(x, n, g); expect(x == b, key, "read " + str(x)); outcome("bool"); }}); }
    std::vector<std::string> ss = {"", "a", " ", "x y", "multi\nline", "\xc3\xa9\xe2\x82\xac", std::string(15, 's'), std::string(16, 's'), std::string(17, 's'), std::string(5000, 'L'), "trail ", " lead"};
    for (auto& s : ss) { auto n = nm("s"); std::string key = "string len=" + str(s.size()); safely(key, [&] { WriteH5Dataset(s, n, f); });
      for (std::string pre : {std::string(""), std::string("previous content that is long")}) checks.push_back({key, [=](H5::H5File& g) { std::string x = pre; ReadH5Dataset(x, n, g); expect(x == s, key, "read '" + x.substr(0, 40) + "'"); outcome("string"); }}); }
    // string vectors: all lengths 0..4 over a small alphabet, plus long
    std::vector<std::vector<std::string>> svs = {{}};
    std::vector<std::string> sa = {"", "a", std::string(20, 'q')};
    for (int len = 1; len <= (thorough ? 5 : 4); ++len) { long tot = 1; for (int i = 0; i < len; ++i) tot *= 3;
      for (long c = 0; c < tot; ++c) { std::vector<std::string> v; long q = c; for (int i = 0; i < len; ++i, q /= 3) v.push_back(sa[q % 3] + str(i)); v[0] = sa[c % 3]; svs.push_back(v); } }
    for (auto& v : svs) { auto n = nm("sv"); std::string key = "strings n=" + str(v.size()); safely(key, [&] { WriteH5Dataset(v, n, f); });
      for (int pre : {0, 7}) checks.push_back({key, [=](H5::H5File& g) { std::vector<std::string> x(pre, "old"); ReadH5Dataset(x, n, g); expect(x == v, key, "read " + str(x.size()) + " strings, first '" + (x.empty() ? "" : x[0]) + "'"); outcome("strings"); }}); }
    for (int len : L) for (int rep = 0; rep < 2; ++rep) { ++salt;
      Eigen::VectorXd a(len); Eigen::VectorXi b(len); std::vector<double> c(len); std::vector<int> d(len);
      for (int i = 0; i < len; ++i) { a[i] = dv(i, salt); b[i] = iv(i, salt); c[i] = dv(i, salt + 1); d[i] = iv(i, salt + 1); }
      auto one = [&](auto v, const char* what) { using V = decltype(v); auto n = nm(what); std::string key = std::string(what) + " n=" + str(len);
        safely(key, [&] { WriteH5Dataset(v, n, f); });
        for (int pre : {0, 3, 2000}) checks.push_back({key, [=](H5::H5File& g) { V x(pre); ReadH5Dataset(x, n, g); expect(veq(x, v), key, "differs, size " + str(x.size())); outcome(what); }}); };
      one(a, "VectorXd"); one(b, "VectorXi"); one(c, "vecdouble"); one(d, "vecint");
    }
    for (int r : {0, 1, 2, 3, 5, 40}) for (int c : {0, 1, 2, 3, 5, 41}) { ++salt; RowMatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = dv(i * 64 + j, salt);
      auto n = nm("m"); std::string key = "matrix " + str(r) + "x" + str(c); safely(key, [&] { WriteH5Dataset(m, n, f); });
      for (auto [pr, pc] : std::vector<std::pair<int, int>>{{0, 0}, {4, 2}, {50, 50}}) checks.push_back({key, [=](H5::H5File& g) { RowMatrixXd x(pr, pc); ReadH5Dataset(x, n, g);
        bool ok = x.rows() == r && x.cols() == c; for (int i = 0; ok && i < r; ++i) for (int j = 0; j < c; ++j) if (!same_bits(x(i, j), m(i, j))) ok = false;
        expect(ok, key, "differs, shape " + str(x.rows()) + "x" + str(x.cols())); outcome("matrix"); }}); }
    // tensors rank 1..4
    std::vector<std::vector<hsize_t>> dims; for (hsize_t a : {1, 2, 3}) { dims.push_back({a}); for (hsize_t b : {1, 2, 4}) { dims.push_back({a, b}); for (hsize_t c : {1, 3}) { dims.push_back({a, b, c}); dims.push_back({a, b, c, 2}); } } }
    dims.push_back({0}); dims.push_back({0, 3}); dims.push_back({3, 0}); dims.push_back({5, 6, 7});
    for (auto& dm : dims) { ++salt; size_t tot = 1; for (auto d : dm) tot *= d; std::vector<double> v(tot); std::vector<int> w(tot); for (size_t i = 0; i < tot; ++i) { v[i] = dv(i, salt); w[i] = iv(i, salt); }
      auto one = [&](auto v, const char* what) { using V = decltype(v); auto n = nm(what); std::string key = std::string(what) + " dims="; for (auto d : dm) key += str(d) + "x"; safely(key, [&] { WriteH5Dataset(v, dm, n, f); });
        checks.push_back({key, [=](H5::H5File& g) { V x(5); std::vector<hsize_t> got = {9, 9}; ReadH5Dataset(x, got, n, g); expect(got == dm, key, "extent differs"); expect(veq(x, v), key, "values differ");
          auto ds = g.openDataSet(n); expect(hdf5_io::GetRank(ds) == (int)dm.size(), key, "rank"); expect(hdf5_io::GetExtent(ds) == dm, key, "GetExtent"); outcome(what); }}); };
      one(v, "tensor_d"); one(w, "tensor_i"); Eigen::VectorXd e = Eigen::Map<Eigen::VectorXd>(v.data(), v.size()); one(e, "tensor_eig"); }
    // duplicate names are refused and keep the first content
    safely("dup", [&] { WriteH5Dataset(1.5, "dup", f); });
    expect(throws("dup", [&] { WriteH5Dataset(2.5, "dup", f); }), "dup double", "duplicate name not reported");
    expect(throws("dup", [&] { WriteH5Dataset(std::string("x"), "dup", f); }), "dup string", "duplicate name not reported");
    expect(throws("dup", [&] { WriteH5Dataset(Eigen::VectorXd(Eigen::VectorXd::Ones(3)), "dup", f); }), "dup vector", "duplicate name not reported");
    expect(throws("nogroup", [&] { WriteH5Dataset(2.5, "/nogroup/x", f); }), "nogroup", "missing group not reported");
    outcome("dup");
    checks.push_back({"dup", [](H5::H5File& g) { double x = 0; ReadH5Dataset(x, "dup", g); expect(x == 1.5, "dup", "first content lost"); outcome("dup"); }});
    safely("rank set", [&] { WriteH5Dataset(7.0, "r0", f); WriteH5Dataset(Eigen::VectorXd(Eigen::VectorXd::Ones(3)), "r1", f); WriteH5Dataset(RowMatrixXd(RowMatrixXd::Ones(2, 3)), "r2", f); WriteH5Dataset(std::vector<double>(24, 1.0), {2, 3, 4}, "r3", f); WriteH5Dataset(std::vector<std::string>{"a", "b"}, "rs", f); });
  }
  for (int pass = 0; pass < 2; ++pass) {   // read twice: reading must not change the file
    H5::H5File f(fn, pass == 0 ? H5F_ACC_RDONLY : H5F_ACC_RDWR);
    for (auto& c : checks) safely(c.key, [&] { c.rd(f); });
    // missing names and wrong ranks are reported
    double d; int i; bool b; std::string s; std::vector<std::string> vs; Eigen::VectorXd vd; Eigen::VectorXi vi; std::vector<double> sd; std::vector<int> si; RowMatrixXd m; std::vector<hsize_t> dm;
    for (std::string n : {"nope", "/g/nope", "g", ""}) {
      expect(throws("missing double " + n, [&] { ReadH5Dataset(d, n, f); }), "missing double " + n, "no error");
      expect(throws("missing int " + n, [&] { ReadH5Dataset(i, n, f); }), "missing int " + n, "no error");
      expect(throws("missing bool " + n, [&] { ReadH5Dataset(b, n, f); }), "missing bool " + n, "no error");
      expect(throws("missing string " + n, [&] { ReadH5Dataset(s, n, f); }), "missing string " + n, "no error");
      expect(throws("missing strings " + n, [&] { ReadH5Dataset(vs, n, f); }), "missing strings " + n, "no error");
      expect(throws("missing VectorXd " + n, [&] { ReadH5Dataset(vd, n, f); }), "missing VectorXd " + n, "no error");
      expect(throws("missing VectorXi " + n, [&] { ReadH5Dataset(vi, n, f); }), "missing VectorXi " + n, "no error");
      expect(throws("missing matrix " + n, [&] { ReadH5Dataset(m, n, f); }), "missing matrix " + n, "no error");
      expect(throws("missing tensor " + n, [&] { ReadH5Dataset(sd, dm, n, f); }), "missing tensor " + n, "no error");
      outcome("missing");
    }
    for (std::string n : {"r0", "r2", "r3"}) {
      expect(throws("rank VectorXd " + n, [&] { ReadH5Dataset(vd, n, f); }), "rank VectorXd " + n, "wrong rank not reported");
      expect(throws("rank VectorXi " + n, [&] { ReadH5Dataset(vi, n, f); }), "rank VectorXi " + n, "wrong rank not reported");
      expect(throws("rank vecdouble " + n, [&] { ReadH5Dataset(sd, n, f); }), "rank vecdouble " + n, "wrong rank not reported");
      outcome("wrong-rank");
    }
    for (std::string n : {"r0", "r1", "r3"}) { expect(throws("rank matrix " + n, [&] { ReadH5Dataset(m, n, f); }), "rank matrix " + n, "wrong rank not reported"); outcome("wrong-rank"); }
    for (std::string n : {"r0", "r1", "r2"}) { expect(throws("rank/type strings " + n, [&] { ReadH5Dataset(vs, n, f); }), "rank strings " + n, "not reported"); outcome("wrong-rank"); }
  }
  num("datasets", nds);
  sample("matrix 2x3 with distinct entries read into a 50x50 matrix; vector<string> of 4; scalar bool over previous true");
  return done();
}
