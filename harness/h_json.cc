// I03: typed JSON readers against a reference model, exhaustively over
// (document shape) x (value kind) x (requested type) and all short arrays.
#include "util/json_io/json_io.h"
#include "vh.h"
using nlohmann::json;
using namespace vh;

struct Val { std::string text; };
// JSON texts: every value kind, numbers at type limits, nesting
static std::vector<std::string> scalars() {
  return {"null", "true", "false", "0", "-0", "1", "-1", "7", "42",
          "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967295", "4294967296", "4294967338",
          "1099511627776", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
          "18446744073709551615",
          "0.0", "-0.0", "1.0", "2.5", "-3.25", "1e3", "1e300", "-1e300", "1e-300", "5e-324",
          "1.7976931348623157e308", "0.1", "123456789.125", "3.0000000000000004", "2147483648.5",
          "\"\"", "\"a\"", "\"true\"", "\"1\"", "\"1.5\"", "\"null\"", "\"\\u0000\"", "\"\\u00e9\\n\\t\\\"\"",
          "\" padded \"", "\"a b\"", "[]", "{}", "[1]", "{\"x\":1}", "[[]]", "[null]"};
}
static std::vector<std::string> arr_elems() {
  return {"0", "1", "-1", "-2147483648", "2147483647", "2147483648", "-2147483649", "4294967297",
          "18446744073709551615", "1.5", "-0.0", "1e300", "0.1", "true", "null", "\"1\"", "[1]", "{}"};
}

static bool int_ok(const json& v, int* out) {
  if (!v.is_number_integer()) return false;
  if (v.is_number_unsigned()) {
    uint64_t u = v.get<uint64_t>();
    if (u > 2147483647ull) return false;
    *out = (int)u;
    return true;
  }
  int64_t i = v.get<int64_t>();
  if (i > 2147483647ll || i < -2147483648ll) return false;
  *out = (int)i;
  return true;
}
static double num_of(const json& v) {
  if (v.is_number_float()) return v.get<double>();
  if (v.is_number_unsigned()) return (double)v.get<uint64_t>();
  return (double)v.get<int64_t>();
}

// expected: 0 absent, 1 error, 2 value
template <typename F, typename EQ>
static void one(const char* what, const std::string& doc, const json& j, const std::string& name, int expected,
                F read, EQ eq) {
  std::string key = std::string(what) + " name=" + name + " doc=" + doc;
  set_key(key);
  try {
    auto r = read(j, name);
    int got = !r.ok() ? 1 : (r->has_value() ? 2 : 0);
    outcome(std::string(what) + "/" + (got == 0 ? "absent" : got == 1 ? "error" : "value"));
    if (!expect(got == expected, key, "expected outcome " + str(expected) + " got " + str(got))) return;
    if (got == 1) expect(r.status().message().find(name) != std::string::npos, key, "error does not name the element");
    if (got == 2) expect(eq(**r), key, "value differs from the stored one");
  } catch (const std::exception& e) {
    fail(key, std::string("exception: ") + e.what());
  }
}

static void all_readers(const std::string& doc, const json& j, const std::string& name) {
  const bool present = j.is_object() && j.find(name) != j.end();
  const json before = j;
  json v = present ? *j.find(name) : json();
  auto ex = [&](bool typed) { return !present ? 0 : (typed ? 2 : 1); };
  int iv = 0;
  one("bool", doc, j, name, ex(v.is_boolean()), json_io::JsonReadBool, [&](bool b) { return b == v.get<bool>(); });
  one("int", doc, j, name, ex(int_ok(v, &iv)), json_io::JsonReadInt, [&](int b) { return b == iv; });
  one("double", doc, j, name, ex(v.is_number()), json_io::JsonReadDouble, [&](double b) { return same_bits(b, num_of(v)); });
  one("string", doc, j, name, ex(v.is_string()), json_io::JsonReadString,
      [&](const std::string& b) { return b == v.get_ref<const std::string&>(); });
  bool ai = v.is_array(), ad = v.is_array();
  if (v.is_array())
    for (auto& e : v) { int t; if (!int_ok(e, &t)) ai = false; if (!e.is_number()) ad = false; }
  one("vecint", doc, j, name, ex(ai), json_io::JsonReadVectorInt, [&](const Eigen::VectorXi& b) {
    if ((size_t)b.size() != v.size()) return false;
    for (int i = 0; i < b.size(); ++i) { int t; int_ok(v[i], &t); if (t != b[i]) return false; }
    return true;
  });
  one("vecdouble", doc, j, name, ex(ad), json_io::JsonReadVectorDouble, [&](const Eigen::VectorXd& b) {
    if ((size_t)b.size() != v.size()) return false;
    for (int i = 0; i < b.size(); ++i) if (!same_bits(b[i], num_of(v[i]))) return false;
    return true;
  });
  expect(before.dump(-1, 32, false, json::error_handler_t::replace) == j.dump(-1, 32, false, json::error_handler_t::replace), "const doc=" + doc, "document modified");
}

int main(int argc, char** argv) {
  init();
  const bool thorough = argc > 1 && std::string(argv[1]) == "thorough";
  const std::vector<std::string> names = {"k", "k2", "", "K", "a b", "k.x", "/k", "0"};
  long docs = 0;
  auto doc = [&](const std::string& text) {
    json j = json::parse(text);
    for (auto& n : names) all_readers(text, j, n);
    ++docs;
  };
  // non-object documents: every name is absent
  for (auto& s : scalars()) doc(s);
  doc("[1,2,3]"); doc("[{\"k\":1}]"); doc("[\"k\"]"); doc("\"k\"");
  // single member, under every name; and next to an unrelated member on either side
  for (auto& s : scalars()) {
    for (auto& n : names) doc("{" + json(n).dump() + ":" + s + "}");
    doc("{\"a\":1,\"k\":" + s + "}");
    doc("{\"k\":" + s + ",\"z\":\"q\"}");
    doc("{\"k\":{\"k\":" + s + "}}");       // nested occurrence must not be found instead
    doc("{\"k2\":" + s + ",\"k\":true}");
  }
  // all arrays up to length 3 (4 in the thorough tier) over the element alphabet
  auto es = arr_elems();
  std::function<void(std::string, int)> rec = [&](std::string acc, int left) {
    json j = json::parse("{\"k\":[" + acc + "]}");
    all_readers("{\"k\":[" + acc + "]}", j, "k");
    ++docs;
    if (!left) return;
    for (auto& e : es) rec(acc.empty() ? e : acc + "," + e, left - 1);
  };
  rec("", thorough ? 4 : 3);
  // longer homogeneous arrays with one deviating element at every position
  for (int n = 1; n <= 40; ++n)
    for (int p = 0; p < n; ++p)
      for (auto& e : {"1.5", "true", "null", "7", "2147483648", "\"x\""}) {
        std::string acc;
        for (int i = 0; i < n; ++i) acc += (i ? "," : "") + (i == p ? std::string(e) : str(i - 20));
        json j = json::parse("{\"k\":[" + acc + "]}");
        all_readers("arr n=" + str(n) + " p=" + str(p) + " e=" + e, j, "k");
        ++docs;
      }
  for (int n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000}) {
    json ji = json::array(), jd = json::array();
    for (int i = 0; i < n; ++i) { ji.push_back(i * 3 - n); jd.push_back(i * 0.37 - n); }
    json a; a["k"] = ji; all_readers("ints n=" + str(n), a, "k");
    json b; b["k"] = jd; all_readers("doubles n=" + str(n), b, "k");
    json c; c["k"] = std::string(n, 'x'); all_readers("string n=" + str(n), c, "k");
    json d; d[std::string(n, 'k')] = n; all_readers("long name n=" + str(n), d, std::string(n, 'k')); all_readers("long name n=" + str(n), d, "k");
    docs += 4;
  }
  // programmatic non-finite numbers
  for (double d : {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("")}) {
    json j; j["k"] = d; all_readers("nonfinite " + str(d), j, "k");
    json a; a["k"] = json::array({1.0, d}); all_readers("nonfinite arr " + str(d), a, "k");
    docs += 2;
  }
  num("documents", docs);
  sample("doc={\"k\":4294967338} requested int -> must be an error");
  sample("doc={\"k\":[0,1,2147483648]} requested int vector -> must be an error");
  return done();
}
