// I04: typed netCDF readers, exhaustively over
// file format x variable type x rank x shape x reader, against what was written.
#include <fcntl.h>
#include <filesystem>
#include <netcdf.h>

#include "util/netcdf_io/netcdf_io.h"
#include "vh.h"
using namespace vh;
namespace fs = std::filesystem;
#define NC(x) do { int e_ = (x); if (e_ != NC_NOERR) { fprintf(stderr, "nc %s: %s\n", #x, nc_strerror(e_)); exit(3); } } while (0)

struct Var { std::string name; nc_type t; std::vector<size_t> shape; std::vector<double> v; std::string text; bool uninit = false; };

static std::string tname(nc_type t) {
  switch (t) { case NC_BYTE: return "byte"; case NC_CHAR: return "char"; case NC_SHORT: return "short"; case NC_INT: return "int";
    case NC_FLOAT: return "float"; case NC_DOUBLE: return "double"; case NC_INT64: return "int64"; case NC_UINT: return "uint"; case NC_STRING: return "string"; }
  return "?";
}
enum R { kAbsent, kError, kValue };
template <typename F> static auto call(const std::string& key, F f) -> decltype(f()) {
  set_key(key);
  return f();
}
static std::string strip(std::string s) {
  auto z = s.find('\0'); if (z != std::string::npos) s.resize(z);
  auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  size_t a = 0, b = s.size();
  while (a < b && ws(s[a])) ++a;
  while (b > a && ws(s[b - 1])) --b;
  return s.substr(a, b - a);
}
// judge: must_ok -> value required; otherwise error or exact value
template <typename S, typename EQ>
static void judge(const std::string& key, const S& r, bool must_ok, bool may_ok, EQ eq) {
  outcome(key.substr(0, key.find(' ')) + (r.ok() ? "/value" : "/error"));
  if (r.ok()) {
    if (!may_ok) { fail(key, "reader returned a value although an error is required"); return; }
    expect(eq(*r), key, "returned value differs from the stored one");
  } else if (must_ok) {
    fail(key, "reader failed: " + std::string(r.status().message()));
  }
}

static void check_file(const fs::path& path, const std::vector<Var>& vars, const std::string& tag) {
  int id;
  NC(nc_open(path.c_str(), NC_NOWRITE, &id));
  for (auto& v : vars) {
    const int rank = v.shape.size();
    size_t tot = 1;
    std::string sh;
    for (auto d : v.shape) { tot *= d; sh += "," + str(d); }
    const std::string k = " fmt=" + tag + " var=" + v.name + " type=" + tname(v.t) + " shape=[" + (sh.empty() ? "" : sh.substr(1)) + "]" + (v.v.size() ? " v0=" + str(v.v[0]) : "");
    const bool is_int = v.t == NC_BYTE || v.t == NC_SHORT || v.t == NC_INT || v.t == NC_INT64 || v.t == NC_UINT;
    const bool numeric = is_int || v.t == NC_FLOAT || v.t == NC_DOUBLE;
    auto intval = [&](double d) { return d == std::floor(d) && d >= -2147483648.0 && d <= 2147483647.0; };
    auto base = v.name;
    const std::string suf = "__logical__";
    const bool logical = base.size() > suf.size() && base.substr(base.size() - suf.size()) == suf;
    {
      std::string key = "bool" + k;
      std::string nm = logical ? base.substr(0, base.size() - suf.size()) : base;
      auto r = call(key, [&] { return netcdf_io::NetcdfReadBool(id, nm); });
      if (!logical) judge(key, r, false, false, [](bool) { return false; });
      else judge(key, r, rank == 0 && v.t == NC_INT, rank == 0 && numeric, [&](bool b) { return b == (v.v[0] != 0); });
    }
    { std::string key = "int" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadInt(id, base); });
      judge(key, r, rank == 0 && v.t == NC_INT, rank == 0 && numeric && intval(v.v[0]), [&](int b) { return (double)b == v.v[0]; }); }
    { std::string key = "double" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadDouble(id, base); });
      judge(key, r, rank == 0 && v.t == NC_DOUBLE, rank == 0 && numeric, [&](double b) { return same_bits(b, v.v[0]); }); }
    { std::string key = "char" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadChar(id, base); });
      bool ok = v.t == NC_CHAR && rank == 1 && v.shape[0] == 1;
      judge(key, r, ok, ok, [&](char b) { return b == v.text[0]; }); }
    { std::string key = "string" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadString(id, base); });
      bool ok = v.t == NC_CHAR && rank == 1;
      judge(key, r, ok, ok || (v.t == NC_STRING && rank == 0), [&](const std::string& b) { return b == strip(v.text); }); }
    { std::string key = "arr1" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadArray1D(id, base); });
      judge(key, r, rank == 1 && v.t == NC_DOUBLE, rank == 1 && numeric, [&](const std::vector<double>& b) {
        if (b.size() != v.shape[0]) return false;
        for (size_t i = 0; i < b.size(); ++i) if (!same_bits(b[i], v.v[i])) return false;
        return true; }); }
    { std::string key = "arr2" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadArray2D(id, base); });
      judge(key, r, rank == 2 && v.t == NC_DOUBLE, rank == 2 && numeric, [&](const auto& b) {
        if (b.size() != v.shape[0]) return false;
        for (size_t i = 0; i < b.size(); ++i) { if (b[i].size() != v.shape[1]) return false;
          for (size_t j = 0; j < b[i].size(); ++j) if (!same_bits(b[i][j], v.v[i * v.shape[1] + j])) return false; }
        return true; }); }
    { std::string key = "arr3" + k; auto r = call(key, [&] { return netcdf_io::NetcdfReadArray3D(id, base); });
      judge(key, r, rank == 3 && v.t == NC_DOUBLE, rank == 3 && numeric, [&](const auto& b) {
        if (b.size() != v.shape[0]) return false;
        for (size_t i = 0; i < b.size(); ++i) { if (b[i].size() != v.shape[1]) return false;
          for (size_t j = 0; j < b[i].size(); ++j) { if (b[i][j].size() != v.shape[2]) return false;
            for (size_t l = 0; l < b[i][j].size(); ++l) if (!same_bits(b[i][j][l], v.v[(i * v.shape[1] + j) * v.shape[2] + l])) return false; } }
        return true; }); }
  }
  auto missing = [&](int ncid, const std::string& why) {
    for (std::string n : {"nope", "", "v_double_", "V_DOUBLE"}) {
      std::string k = " " + why + " fmt=" + tag + " name=" + n;
      auto no = [](auto&&) { return false; };
      judge("bool" + k, call("bool" + k, [&] { return netcdf_io::NetcdfReadBool(ncid, n); }), false, false, no);
      judge("char" + k, call("char" + k, [&] { return netcdf_io::NetcdfReadChar(ncid, n); }), false, false, no);
      judge("int" + k, call("int" + k, [&] { return netcdf_io::NetcdfReadInt(ncid, n); }), false, false, no);
      judge("double" + k, call("double" + k, [&] { return netcdf_io::NetcdfReadDouble(ncid, n); }), false, false, no);
      judge("string" + k, call("string" + k, [&] { return netcdf_io::NetcdfReadString(ncid, n); }), false, false, no);
      judge("arr1" + k, call("arr1" + k, [&] { return netcdf_io::NetcdfReadArray1D(ncid, n); }), false, false, no);
      judge("arr2" + k, call("arr2" + k, [&] { return netcdf_io::NetcdfReadArray2D(ncid, n); }), false, false, no);
      judge("arr3" + k, call("arr3" + k, [&] { return netcdf_io::NetcdfReadArray3D(ncid, n); }), false, false, no);
    }
  };
  missing(id, "missing");
  NC(nc_close(id));
  missing(id, "closed-file");
  missing(-1, "bad-id");
  for (auto& v : vars) {
    auto no = [](auto&&) { return false; };
    std::string k = " closed var=" + v.name;
    judge("double" + k, call("double" + k, [&] { return netcdf_io::NetcdfReadDouble(id, v.name); }), false, false, no);
    judge("arr1" + k, call("arr1" + k, [&] { return netcdf_io::NetcdfReadArray1D(id, v.name); }), false, false, no);
    judge("string" + k, call("string" + k, [&] { return netcdf_io::NetcdfReadString(id, v.name); }), false, false, no);
  }
}

int main(int argc, char** argv) {
  init();
  const fs::path dir = argv[1];
  const bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
  long files = 0, nvars = 0;
  const double inf = std::numeric_limits<double>::infinity();
  for (auto [tag, mode] : std::vector<std::pair<std::string, int>>{{"classic", NC_CLOBBER}, {"64bit", NC_CLOBBER | NC_64BIT_OFFSET}, {"nc4", NC_CLOBBER | NC_NETCDF4}}) {
    std::vector<nc_type> types = {NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE};
    if (tag == "nc4") for (nc_type t : {NC_INT64, NC_UINT, NC_STRING}) types.push_back(t);
    std::vector<Var> vars;
    long n = 0;
    auto add = [&](nc_type t, std::vector<size_t> sh, std::vector<double> vals, std::string text, std::string nm = "") {
      Var v; v.name = nm.empty() ? "v_" + tname(t) + "_" + str(n++) : nm; v.t = t; v.shape = sh; v.v = vals; v.text = text;
      vars.push_back(v);
    };
    auto pattern = [&](nc_type t, size_t cnt, int salt) {
      std::vector<double> r(cnt);
      for (size_t i = 0; i < cnt; ++i) {
        double d = (double)((long)(i * 13 + 5 * salt + 1) % 101) - 37;
        if (t == NC_FLOAT) d = (float)(d + 0.25);
        if (t == NC_DOUBLE) d = d * 1.1 + 1e-3 * (i + 1);
        if (t == NC_UINT) d = std::abs(d);
        r[i] = d;
      }
      return r;
    };
    // scalars: value alphabets
    for (nc_type t : types) {
      if (t == NC_CHAR) { add(t, {}, {}, "c"); continue; }
      if (t == NC_STRING) { add(t, {}, {}, "s"); continue; }
      std::vector<double> vs = {0, 1, -1, 2, 42, 127, -128};
      if (t == NC_UINT) vs = {0, 1, 2147483647.0, 2147483648.0, 4294967295.0};
      if (t == NC_SHORT) vs = {0, 1, -1, 32767, -32768};
      if (t == NC_INT) vs = {0, 1, -1, 255, 256, 65536, 16777216, -16777217, 2147483647.0, -2147483648.0, 5};
      if (t == NC_INT64) vs = {0, 1, -1, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 1099511627777.0};
      if (t == NC_FLOAT) vs = {0, 1, -1.5, 2.75, (double)3e10f, inf};
      if (t == NC_DOUBLE) vs = {0, -0.0, 1, 0.1, 2.7, -3.999, 1e300, 5e-324, 3e9, -3e9, 42, inf, -inf, std::nan("")};
      for (double d : vs) { add(t, {}, {d}, ""); add(t, {}, {d}, "", "lg_" + tname(t) + "_" + str(n++) + "__logical__"); }
    }
    // arrays of every type, rank 1..4, shapes over {1,2,3} (and larger for double)
    std::vector<size_t> ext = {1, 2, 3};
    for (nc_type t : types) {
      std::vector<std::vector<size_t>> shapes;
      for (auto a : ext) { shapes.push_back({a}); for (auto b : ext) { shapes.push_back({a, b}); for (auto c : ext) { shapes.push_back({a, b, c}); if (a == 2 && b == 1) shapes.push_back({a, b, c, 2}); } } }
      if (t == NC_DOUBLE || thorough) for (auto s : std::vector<std::vector<size_t>>{{7}, {64}, {100}, {1025}, {7, 11}, {11, 7}, {1, 40}, {40, 1}, {5, 4, 3}, {3, 4, 5}, {2, 9, 4}, {17, 1, 6}, {1, 12, 13}, {30, 31, 2}}) shapes.push_back(s);
      int salt = 0;
      for (auto& s : shapes) {
        size_t tot = 1; for (auto d : s) tot *= d;
        std::string text; for (size_t i = 0; i < tot; ++i) text += "aB7 z"[(i + salt) % 5];
        add(t, s, pattern(t, tot, salt++), text);
      }
    }
    // a logical name that is not a scalar int
    add(NC_INT, {1}, {1}, "", "vec__logical__"); add(NC_CHAR, {1}, {}, "T", "chr__logical__");
    // all strings up to length 4 over a padding alphabet
    std::string al = std::string("a \0\n\t", 5);
    std::function<void(std::string, int)> rec = [&](std::string a, int left) {
      if (!a.empty()) add(NC_CHAR, {a.size()}, {}, a);
      if (left) for (char c : al) rec(a + c, left - 1);
    };
    rec("", thorough ? 5 : 4);
    for (int i = 0; i < 256; ++i) add(NC_CHAR, {1}, {}, std::string(1, (char)i));
    for (size_t L : {10, 64, 100, 200, 300}) { add(NC_CHAR, {L}, {}, "mgrid label" + std::string(L > 11 ? L - 11 : 0, ' ')); vars.back().text.resize(L, ' '); add(NC_CHAR, {L}, {}, std::string(L, 'q')); add(NC_CHAR, {L}, {}, std::string(L, ' ')); add(NC_CHAR, {L}, {}, std::string(L, '\0')); }
    // write
    fs::path f = dir / ("f_" + tag + ".nc");
    int id; NC(nc_create(f.c_str(), mode, &id));
    std::map<size_t, int> dims;
    std::vector<int> ids(vars.size());
    int fillold; NC(nc_set_fill(id, NC_NOFILL, &fillold));
    for (size_t i = 0; i < vars.size(); ++i) {
      std::vector<int> dd;
      for (auto d : vars[i].shape) { if (!dims.count(d)) { int x; NC(nc_def_dim(id, ("d" + str(d)).c_str(), d, &x)); dims[d] = x; } dd.push_back(dims[d]); }
      NC(nc_def_var(id, vars[i].name.c_str(), vars[i].t, dd.size(), dd.data(), &ids[i]));
    }
    NC(nc_enddef(id));
    for (size_t i = 0; i < vars.size(); ++i) {
      auto& v = vars[i];
      if (v.t == NC_CHAR) NC(nc_put_var_text(id, ids[i], v.text.data()));
      else if (v.t == NC_STRING) { size_t tot = 1; for (auto d : v.shape) tot *= d; std::vector<const char*> p(tot, v.text.c_str()); NC(nc_put_var_string(id, ids[i], p.data())); }
      else if (v.t == NC_FLOAT) { std::vector<float> q(v.v.begin(), v.v.end()); NC(nc_put_var_float(id, ids[i], q.data())); }
      else NC(nc_put_var_double(id, ids[i], v.v.data()));
    }
    NC(nc_close(id));
    check_file(f, vars, tag);
    nvars += vars.size(); ++files;
    // record dimension with zero and with three records
    for (size_t rec_n : {0, 3}) {
      fs::path g = dir / ("r_" + tag + ".nc");
      NC(nc_create(g.c_str(), mode, &id));
      int du, d2, d3, v1, v2, v3, vc; NC(nc_def_dim(id, "u", NC_UNLIMITED, &du)); NC(nc_def_dim(id, "two", 2, &d2)); NC(nc_def_dim(id, "thr", 3, &d3));
      int a1[] = {du}, a2[] = {du, d2}, a3[] = {du, d2, d3};
      NC(nc_def_var(id, "u1", NC_DOUBLE, 1, a1, &v1)); NC(nc_def_var(id, "u2", NC_DOUBLE, 2, a2, &v2)); NC(nc_def_var(id, "u3", NC_DOUBLE, 3, a3, &v3)); NC(nc_def_var(id, "uc", NC_CHAR, 1, a1, &vc));
      NC(nc_enddef(id));
      std::vector<Var> rv;
      auto pd = [&](std::string nm, int vid, std::vector<size_t> s, nc_type t) {
        size_t tot = 1; for (auto d : s) tot *= d; Var v; v.name = nm; v.t = t; v.shape = s; for (size_t i = 0; i < tot; ++i) { v.v.push_back(i + 0.5); v.text += 'a' + i; }
        std::vector<size_t> st(s.size(), 0);
        if (tot) { if (t == NC_CHAR) NC(nc_put_vara_text(id, vid, st.data(), s.data(), v.text.data())); else NC(nc_put_vara_double(id, vid, st.data(), s.data(), v.v.data())); }
        rv.push_back(v);
      };
      pd("u1", v1, {rec_n}, NC_DOUBLE); pd("u2", v2, {rec_n, 2}, NC_DOUBLE); pd("u3", v3, {rec_n, 2, 3}, NC_DOUBLE); pd("uc", vc, {rec_n}, NC_CHAR);
      NC(nc_close(id));
      check_file(g, rv, tag + "/rec" + str(rec_n));
      ++files;
    }
    // truncated copies of a small file: either unopenable, or every read is exact or an error
    fs::path g = dir / "small.nc"; NC(nc_create(g.c_str(), mode, &id)); int dx, vx, vi; NC(nc_def_dim(id, "x", 5, &dx)); NC(nc_def_var(id, "a", NC_DOUBLE, 1, &dx, &vx)); NC(nc_def_var(id, "i", NC_INT, 0, nullptr, &vi)); NC(nc_enddef(id));
    double dv[5] = {1.5, 2.5, 3.5, 4.5, 5.5}; int iv = 7; NC(nc_put_var_double(id, vx, dv)); NC(nc_put_var_int(id, vi, &iv)); NC(nc_close(id));
    if (tag != "nc4") {
      auto sz = fs::file_size(g);
      for (size_t cut = 0; cut < sz; ++cut) {
        fs::path t = dir / "trunc.nc"; fs::copy_file(g, t, fs::copy_options::overwrite_existing); fs::resize_file(t, cut);
        if (nc_open(t.c_str(), NC_NOWRITE, &id) != NC_NOERR) { outcome("trunc/unopenable"); continue; }
        std::string key = "trunc fmt=" + tag + " cut=" + str(cut);
        auto r = call(key, [&] { return netcdf_io::NetcdfReadArray1D(id, "a"); });
        (void)r;  // classic files have no length check; only crash freedom is required here
        auto q = call(key, [&] { return netcdf_io::NetcdfReadInt(id, "i"); });
        (void)q;
        outcome("trunc/opened");
        nc_close(id);
      }
    }
  }
  num("files", files); num("variables", nvars);
  sample("arr2 of double shape [3,2] with distinct entries; int reader on double 2.7 must fail; string reader on a numeric array must fail");
  return done();
}
