// Y05: all sequences of progress reports up to a depth, in all output modes, against an
// independent model of the display and a small terminal emulator.
#include <sstream>

#include "vh.h"
#include "vmecpp/vmec/iteration_logger/iteration_logger.h"
using namespace vh;
using vmecpp::IterationLogger;
using vmecpp::OutputMode;
using vmecpp::RunSummary;
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::nan("");

// ---- terminal: CR, LF, ESC[nA, ESC[K, SGR; cells are UTF-8 code points
struct Term {
  std::vector<std::vector<std::string>> rows{{}};
  size_t r = 0, c = 0;
  bool bad = false;
  std::string why;
  void feed(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
      unsigned char ch = s[i];
      if (ch == '\r') { c = 0; ++i; }
      else if (ch == '\n') { ++r; c = 0; if (r >= rows.size()) rows.emplace_back(); ++i; }
      else if (ch == 27) {
        if (i + 1 >= s.size() || s[i + 1] != '[') { bad = true; why = "broken escape"; return; }
        size_t j = i + 2; std::string a;
        while (j < s.size() && (isdigit(s[j]) || s[j] == ';')) a += s[j++];
        if (j >= s.size()) { bad = true; why = "unterminated escape"; return; }
        char f = s[j];
        if (f == 'A') { size_t n = a.empty() ? 1 : std::stoul(a); if (n > r) { bad = true; why = "cursor moved above the first line"; r = 0; } else r -= n; }
        else if (f == 'K') { if (rows[r].size() > c) rows[r].resize(c); }
        else if (f != 'm') { bad = true; why = "unknown escape"; }
        i = j + 1;
      } else {
        size_t n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
        if (rows[r].size() <= c) rows[r].resize(c + 1, " ");
        rows[r][c++] = s.substr(i, n); i += n;
      }
    }
  }
  std::string line(size_t k) const { std::string o; if (k < rows.size()) for (auto& x : rows[k]) o += x; while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
  size_t used() const { size_t n = rows.size(); while (n && line(n - 1).empty()) --n; return n; }
};

struct Op { int kind; int stage; int iter; double f[3]; };   // 0 begin 1 log 2 end 3 endrun
static const int kNs[3] = {5, 17, 501}, kNiter[3] = {10, 4000, 0};
static const double kFtol[3] = {1e-6, 1e-10, 1e-3};
struct Stage { bool begun = false, done = false, init = false; int ns = 0, niter = 0, iter = 0; double ftol = 0, f0 = 0, f = 0; };

static double expected(const Stage& s, bool& known) {
  known = true;
  if (s.done) return 1;
  double a = 0, b = s.niter > 0 ? (double)s.iter / s.niter : 0;
  if (s.init && s.f > 0) {
    if (std::isinf(s.f)) a = 0;
    else if (std::log10(s.f0) > std::log10(s.ftol)) a = (std::log10(s.f0) - std::log10(s.f)) / (std::log10(s.f0) - std::log10(s.ftol));
  }
  return std::max(0.0, std::min(1.0, std::max(a, b)));
}
static bool parse_bar(const std::string& l, int width, int& fill, double& pct) {
  size_t a = l.find('[', l.find(':') == std::string::npos ? 0 : l.find(':'));
  // the bar is the bracket group made of = and - only
  for (size_t p = 0; p < l.size(); ++p) if (l[p] == '[') {
    size_t e = l.find(']', p); if (e == std::string::npos) return false;
    std::string b = l.substr(p + 1, e - p - 1);
    if (b.find_first_not_of("=-") == std::string::npos && !b.empty()) {
      if ((int)b.size() != width) return false;
      fill = 0; while (fill < width && b[fill] == '=') ++fill;
      if (b.find('=', fill) != std::string::npos) return false;
      return sscanf(l.c_str() + e + 1, " %lf%%", &pct) == 1;
    }
  }
  (void)a;
  return false;
}

static long n_seq = 0, n_calls = 0;
static void check_bar(const std::string& key, const std::string& l, int width, const Stage& s) {
  int fill; double pct;
  if (!parse_bar(l, width, fill, pct)) { fail(key, "no well-formed bar in '" + l + "'"); return; }
  if (!(pct >= 0 && pct <= 100)) { fail(key, "percentage " + str(pct)); return; }
  if (fill < (int)(width * (pct - 0.051) / 100) || fill > (int)(width * (pct + 0.051) / 100)) fail(key, "bar " + str(fill) + "/" + str(width) + " does not match " + str(pct) + "%");
  if (s.done && (pct != 100 || fill != width)) fail(key, "finished stage shown at " + str(pct) + "%");
  bool known; double e = 100 * expected(s, known);
  if (std::abs(e - pct) > 0.0501) fail(key, "shown " + str(pct) + "% instead of " + str(e) + "%: " + l);
}
static double field(const std::string& l, const std::string& name, bool& ok) {
  size_t p = l.find(name); if (p == std::string::npos) { ok = false; return 0; }
  char* e; double v = strtod(l.c_str() + p + name.size(), &e); ok = e != l.c_str() + p + name.size(); return v;
}
static bool near(double shown, double v, double rel) { if (std::isnan(v)) return std::isnan(shown); if (std::isinf(v)) return shown == v; return std::abs(shown - v) <= rel * std::abs(v) + 1e-300; }

static const std::vector<RunSummary> kSum = [] {
  std::vector<RunSummary> r;
  RunSummary a; a.converged = true; a.total_iterations = 12; a.num_jacobian_resets = 0; a.fsqr = 1e-17; a.fsqz = 2e-18; a.fsql = 3e-19; a.betatot = 0.0123; a.betapol = 0.5; a.betator = 0.001; a.rmajor = 5.5; a.aminor = 0.51; a.b0 = 2.25; r.push_back(a);
  a.converged = false; a.num_jacobian_resets = 75; a.fsqr = nan_; a.fsqz = inf; a.fsql = 1e300; a.betatot = -0.01; a.rmajor = -123456.5; a.aminor = 0; a.b0 = -5; r.push_back(a);
  a.converged = true; a.num_jacobian_resets = 2147483647; a.fsqr = 0; a.betatot = 9.99; a.betapol = nan_; r.push_back(a);
  return r;
}();

static void check_summary(const std::string& key, const std::string& out, const RunSummary& s) {
  Term t; t.feed(out);
  if (t.bad) fail(key, "summary: " + t.why);
  int width = -1, rows = 0; bool conv = false, notc = false; std::map<std::string, double> got;
  for (size_t i = 0; i < t.rows.size(); ++i) {
    std::string l = t.line(i);
    if (l.empty()) continue;
    ++rows;
    int w = (int)t.rows[i].size();
    if (width < 0) width = w;
    if (w != width) fail(key, "summary row of width " + str(w) + " instead of " + str(width) + ": " + l);
    if (l.find("NOT CONVERGED") != std::string::npos) notc = true;
    else if (l.find("CONVERGED") != std::string::npos) conv = true;
    for (auto n : {"Jacobian resets", "Final FSQR", "Final FSQZ", "Final FSQL", "R_major", "a_minor", "B0", "total", "poloidal", "toroidal"}) { size_t p = l.find(n); if (p != std::string::npos) { char* e; double v = strtod(l.c_str() + p + strlen(n), &e); if (e != l.c_str() + p + strlen(n)) got[n] = v; } }
  }
  if (rows < 3) { fail(key, "no summary printed"); return; }
  if (conv != s.converged || notc == s.converged) fail(key, std::string("status of a ") + (s.converged ? "converged" : "non-converged") + " run is wrong");
  auto need = [&](const char* n, double v, double abs) { if (!got.count(n)) fail(key, std::string("summary lacks ") + n); else if (!(near(got[n], v, 1e-4) || std::abs(got[n] - v) <= abs)) fail(key, std::string(n) + " shown as " + str(got[n]) + " instead of " + str(v)); };
  need("Jacobian resets", s.num_jacobian_resets, 0); need("Final FSQR", s.fsqr, 0); need("Final FSQZ", s.fsqz, 0); need("Final FSQL", s.fsql, 0);
  need("R_major", s.rmajor, 5.1e-5); need("a_minor", s.aminor, 5.1e-5); need("B0", s.b0, 5.1e-5); need("total", 100 * s.betatot, 5.1e-5); need("poloidal", 100 * s.betapol, 5.1e-5); need("toroidal", 100 * s.betator, 5.1e-5);
}

static std::string describe(const std::vector<Op>& ops, int mode, bool fb) {
  std::string k = "mode" + str(mode) + (fb ? " free" : " fixed");
  for (auto& o : ops) k += o.kind == 0 ? " B" + str(o.stage) : o.kind == 1 ? " L(" + str(o.iter) + "," + str(o.f[0]) + "," + str(o.f[1]) + "," + str(o.f[2]) + ")" : o.kind == 2 ? " E" : " R" + str(o.stage);
  return k;
}

static void run_seq(const std::vector<Op>& ops, int mode, bool fb) {
  ++n_seq;
  std::string key = describe(ops, mode, fb);
  set_key(key);
  std::ostringstream os;
  IterationLogger lg(os, (OutputMode)mode);
  Term term;
  std::vector<Stage> st; int cur = -1; const int num = 3;
  std::string fresh_line;
  int call = 0;
  double mult = 1;
  for (auto& o : ops) {
    ++n_calls; ++call;
    os.str("");
    double a[12];
    if (o.kind == 0) { lg.BeginStage(o.stage, num, kNs[o.stage], 10 + o.stage, kFtol[o.stage], kNiter[o.stage], fb);
      cur = o.stage; if ((int)st.size() <= cur) st.resize(cur + 1);
      Stage& s = st[cur]; s.begun = true; s.done = s.init = false; s.ns = kNs[cur]; s.niter = kNiter[cur]; s.ftol = kFtol[cur]; s.iter = 0;
    } else if (o.kind == 1) {
      mult += 0.125;
      double v[12] = {o.f[0], o.f[1], o.f[2], 1.5e-3 * mult, 2.5e-4 * mult, 3.5e-5 * mult, 0.9 * mult, 6.25 * mult, 0.075 * mult, 0.0123 * mult, 4.5 * mult, 7.75e-2 * mult};
      memcpy(a, v, sizeof v);
      lg.LogIteration(o.iter, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
      if (cur >= 0) { Stage& s = st[cur]; double f = o.f[0] + o.f[1] + o.f[2]; if (!s.init && f > 0 && std::isfinite(f)) { s.init = true; s.f0 = f; } s.iter = o.iter; s.f = f; }
    } else if (o.kind == 2) { lg.EndStage(1.25 * call); if (cur >= 0) st[cur].done = true; }
    else lg.EndRun(kSum[o.stage]);
    std::string out = os.str();
    std::string k = key + " @" + str(call);
    if (mode == 0) { if (!out.empty()) fail(k, "silent mode printed '" + out.substr(0, 60) + "'"); continue; }
    if (mode == 1) {
      if (o.kind == 3) { if (!out.empty()) fail(k, "legacy mode printed a summary"); }
      else if (o.kind == 1) {
        long nl = std::count(out.begin(), out.end(), '\n');
        if (nl != 1 || out.back() != '\n') fail(k, "table mode printed " + str(nl) + " lines for one report");
        if (out.find('\033') != std::string::npos) fail(k, "escape codes in table mode");
        std::string q = out; for (auto& c : q) if (c == '|') c = ' ';
        std::istringstream is(q); std::vector<double> tok; std::string w; bool ok = true;
        while (is >> w) { char* e; tok.push_back(strtod(w.c_str(), &e)); if (*e) ok = false; }
        int want = fb ? 13 : 12;
        // the free-boundary flag is known once a stage has begun
        bool flag = fb && cur >= 0; want = flag ? 13 : 12;
        if (!ok || (int)tok.size() != want) { fail(k, "table row with " + str(tok.size()) + " numbers: " + out); continue; }
        if (tok[0] != o.iter) fail(k, "iteration shown as " + str(tok[0]));
        for (int i = 1; i < want; ++i) if (!near(tok[i], a[i - 1], 0.0051)) fail(k, "column " + str(i) + " shows " + str(tok[i]) + " instead of " + str(a[i - 1]));
      } else if (o.kind == 2) { bool ok; double e = field(out, "=", ok); if (!ok || !near(e, 1.25 * call, 1e-5)) fail(k, "energy line '" + out + "'"); }
      else { bool ok; if (!near(field(out, "NS = ", ok), kNs[o.stage], 0) || !ok || !near(field(out, "MODES = ", ok), 10 + o.stage, 0) || !ok || !near(field(out, "FTOLV = ", ok), kFtol[o.stage], 1e-3) || !ok || !near(field(out, "NITER = ", ok), kNiter[o.stage], 0) || !ok) fail(k, "stage header '" + out + "'"); }
      continue;
    }
    if (o.kind == 3) { check_summary(k, out, kSum[o.stage]); term.feed(out); continue; }
    bool render = (o.kind == 1 || o.kind == 2) && cur >= 0;
    if (o.kind == 0 && !out.empty()) { /* drawing at stage start is allowed, but must keep the display consistent */ }
    if (mode == 2) {
      bool ran = false; for (auto& q : ops) { if (&q == &o) break; if (q.kind == 3) ran = true; }
      if (ran) continue;   // display after the final summary is not specified
      if (o.kind == 2 && cur < 0) return;  // ending a stage that never began is a misuse
      term.feed(out);
      if (term.bad) { fail(k, "terminal: " + term.why); return; }
      if (!render) continue;
      if (term.used() > 2 + 3 * st.size()) { fail(k, "stale lines on the display: " + str(term.used()) + " lines for " + str(st.size()) + " stages"); continue; }
      std::string head = term.line(0);
      for (size_t i = 0; i < st.size(); ++i) {
        const Stage& s = st[i];
        std::string tag = "[" + str(i + 1) + "/" + str(num) + "] NS=" + str(s.ns);
        if (head.find(tag) == std::string::npos) fail(k, "stage list '" + head + "' lacks " + tag);
        std::string bar = term.line(2 + 3 * i), met = term.line(3 + 3 * i);
        bool ok; if (field(bar, "Stage ", ok) != (double)(i + 1) || !ok || field(bar, "NS=", ok) != s.ns || !ok) fail(k, "bar line " + str(i) + " is '" + bar + "'");
        if (!s.init && !s.done) { int fill; double pct; if (!parse_bar(bar, 50, fill, pct) || fill != 0 || pct != 0) fail(k, "stage without progress shown as '" + bar + "'"); continue; }
        check_bar(k, bar, 50, s);
        if (field(met, "iter=", ok) != s.iter || !ok) fail(k, "metrics '" + met + "' instead of iter " + str(s.iter));
        if (!near(field(met, "FSQ=", ok), s.f, 0.0051) || !ok) { if (s.iter || s.init) fail(k, "metrics '" + met + "' instead of FSQ " + str(s.f)); }
        if ((met.find("DELBSQ") != std::string::npos) != fb) fail(k, "free-boundary column wrong: " + met);
      }
      outcome("progress " + str(st.size()));
    } else {
      size_t row = term.r;
      term.feed(out);
      if (term.bad) { fail(k, "terminal: " + term.why); return; }
      if (!render) continue;
      if (o.kind == 1 && term.r != row) fail(k, "a report moved to another line");
      if (o.kind == 2 && term.r != row + 1) fail(k, "a finished stage must end its line");
      Term one; one.feed(out);
      std::string l = term.line(row);
      if (l != one.line(0)) fail(k, "leftovers on the line: '" + l + "' instead of '" + one.line(0) + "'");
      const Stage& s = st[cur]; bool ok;
      check_bar(k, l, 30, s);
      if (field(l, "Stage ", ok) != cur + 1 || !ok || field(l, "ns=", ok) != s.ns || !ok) fail(k, "line '" + l + "'");
      if (!near(field(l, "FSQ=", ok), s.f, 0.0051) || !ok) { if (s.iter || s.init) fail(k, "line '" + l + "' instead of FSQ " + str(s.f)); }
      if ((l.find("delbsq") != std::string::npos) != fb) fail(k, "free-boundary column wrong: " + l);
      outcome("single-line");
    }
  }
}

int main(int argc, char** argv) {
  init();
  int depth = std::atoi(argv[1]);
  int part = std::atoi(argv[2]), parts = std::atoi(argv[3]);
  std::vector<Op> al;
  for (int s = 0; s < 3; ++s) al.push_back({0, s, 0, {}});
  al.push_back({2, 0, 0, {}});
  al.push_back({3, 0, 0, {}}); al.push_back({3, 1, 0, {}}); al.push_back({3, 2, 0, {}});
  double F[][3] = {{1, 2, 0.5}, {1e-4, 2e-5, 3e-6}, {1e-12, 1e-13, 1e-14}, {0, 0, 0}, {nan_, 1, 1}, {inf, 1, 1}, {1e-300, 0, 0}, {1e120, 0, 0}};
  int It[] = {1, 5, 10, 7, 3, 2, 4000, 12};
  for (int i = 0; i < 8; ++i) al.push_back({1, 0, It[i], {F[i][0], F[i][1], F[i][2]}});
  long idx = 0;
  std::vector<Op> seq;
  std::function<void(int, int, bool, int)> rec = [&](int left, int mode, bool fb, int d) {
    if (!seq.empty() && (d == 1 || true)) { if ((idx++ % parts) == part) { if (left == 0 || seq.size() <= 2) run_seq(seq, mode, fb); } }
    if (!left) return;
    for (auto& o : al) {
      // prune: final summary twice in a row adds nothing
      if (o.kind == 3 && !seq.empty() && seq.back().kind == 3) continue;
      seq.push_back(o); rec(left - 1, mode, fb, d); seq.pop_back();
    }
  };
  for (int mode = 0; mode < 4; ++mode) for (bool fb : {false, true}) rec(mode < 2 ? depth - 1 : depth, mode, fb, 0);
  num("sequences", n_seq); num("calls", n_calls);
  sample("B0 L(5,1e-4) L(3,nan) E R0 in single-line mode: no leftovers, finished stage at 100%");
  return done();
}
