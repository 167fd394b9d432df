// I06: byte-exact write/read of text files and honest failure reporting.
//  part A: all contents up to length L over a byte alphabet, written over all kinds of previous content
//  part B: for every content length and every byte offset k, the kernel refuses to store more than k bytes
//          (RLIMIT_FSIZE) -> the write must report an error; device-full, unwritable and odd targets
//  part C: every k-th read()/readv() of the process fails -> ReadFile must not return OK with missing bytes
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>

#include <filesystem>

#include "util/file_io/file_io.h"
#include "vh.h"
using namespace vh;
namespace fs = std::filesystem;

static int g_inject = 0;      // 0 off, 1 read fails, 2 write fails, 3 short write, 4 open fails
static long g_count = 0, g_at = -1;
static int g_errno = EIO;
static bool hit() { return g_inject && g_count++ == g_at; }
template <typename T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  static auto f = real<ssize_t (*)(int, void*, size_t)>("read");
  if (g_inject == 1 && hit()) { errno = g_errno; return -1; }
  return f(fd, b, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
  if (fd > 2 && g_inject == 2 && hit()) { errno = g_errno; return -1; }
  if (fd > 2 && g_inject == 3 && n > 1 && hit()) return f(fd, b, n / 2);
  return f(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto f = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (fd > 2 && g_inject == 2 && hit()) { errno = g_errno; return -1; }
  if (fd > 2 && g_inject == 3 && hit()) {
    struct iovec one = v[0];
    if (one.iov_len > 1) one.iov_len /= 2;
    return f(fd, &one, 1);
  }
  return f(fd, v, c);
}

static std::string slurp(const fs::path& p) {
  std::string s; char b[4096];
  int fd = ::open(p.c_str(), O_RDONLY);
  if (fd < 0) return "<none>";
  static auto f = real<ssize_t (*)(int, void*, size_t)>("read");
  ssize_t n;
  while ((n = f(fd, b, sizeof b)) > 0) s.append(b, n);
  ::close(fd);
  return s;
}
static void put(const fs::path& p, const std::string& s) {
  int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
  if (f(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
  ::close(fd);
}
static int wr(const std::string& key, const fs::path& p, const std::string& s) {  // 1 ok, 0 error
  set_key(key);
  try { return file_io::WriteFile(p, s).ok(); }
  catch (const std::exception& e) { fail(key, std::string("exception from write: ") + e.what()); return -1; }
}
static int rd(const std::string& key, const fs::path& p, std::string* out) {
  set_key(key);
  try {
    auto r = file_io::ReadFile(p);
    if (r.ok()) { *out = *r; return 1; }
    return 0;
  } catch (const std::exception& e) { fail(key, std::string("exception from read: ") + e.what()); return -1; }
}

int main(int argc, char** argv) {
  init();
  signal(SIGXFSZ, SIG_IGN);
  const fs::path dir = argv[1];
  const bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
  const fs::path f = dir / "file.txt";
  // ---- A
  const std::string alpha = std::string("a\n\r \t\x1a\xff", 7) + std::string(1, '\0') + "\xc3\xa9\"\\";
  std::vector<std::string> contents;
  std::function<void(std::string, int)> rec = [&](std::string a, int left) {
    contents.push_back(a);
    if (left) for (char c : alpha) rec(a + c, left - 1);
  };
  rec("", thorough ? 4 : 3);
  for (int n : {511, 512, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 200000})
    for (int pat = 0; pat < 3; ++pat) {
      std::string s(n, 0);
      for (int i = 0; i < n; ++i) s[i] = pat == 0 ? 'x' : pat == 1 ? char(i * 7 + 1) : (i % 80 == 79 ? '\n' : char('a' + i % 26));
      contents.push_back(s);
    }
  const std::vector<std::string> prev = {"<none>", "", "old", std::string(300000, 'z'), std::string("q\0r\n", 4)};
  long i = 0;
  for (auto& c : contents) {
    for (size_t pi = 0; pi < prev.size(); ++pi) {
      if (c.size() >= 3 && c.size() < 500 && !thorough && pi != (size_t)(i++ % 5)) continue;  // length-3 contents: previous content cycles
      if (pi == 0) fs::remove(f); else put(f, prev[pi]);
      std::string key = "roundtrip len=" + str(c.size()) + " content=" + c.substr(0, 12) + " prev=" + str(pi);
      int w = wr(key, f, c);
      expect(w == 1, key, "write to a healthy file reported failure");
      std::string disk = slurp(f), got;
      expect(disk == c, key, "file on disk has " + str(disk.size()) + " bytes and differs from what was written");
      int r = rd(key, f, &got);
      expect(r == 1, key, "read of a healthy file reported failure");
      expect(r != 1 || got == c, key, "read returned " + str(got.size()) + " bytes, different from the file");
      outcome("roundtrip/prev" + str(pi) + (c.empty() ? "/empty" : c.size() > 400 ? "/long" : "/short"));
    }
  }
  // path forms
  for (const std::string& n : std::vector<std::string>{"plain", "with space", ".hidden", "\xc3\xa9", "a.b.c", std::string(255, 'n')}) {
    fs::path p = dir / n; std::string got, key = "path " + n;
    expect(wr(key, p, "v") == 1, key, "write failed");
    expect(rd(key, p, &got) == 1 && got == "v", key, "read back failed");
    outcome("path-ok");
    fs::remove(p);
  }
  // symlink target is written through
  put(dir / "t", "old"); fs::create_symlink(dir / "t", dir / "l");
  { std::string g; expect(wr("symlink", dir / "l", "new") == 1 && slurp(dir / "t") == "new", "symlink", "target not written"); outcome("symlink"); }
  // ---- B: storage limit at every byte
  fs::remove(f);
  struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
  std::vector<int> lens = {1, 2, 5, 80, 1024, 8191, 8192, 8193, 20000};
  for (int n : lens) {
    std::vector<long> ks;
    if (n <= 1100) for (int k = 0; k <= n; ++k) ks.push_back(k);
    else { for (long k = 0; k <= n; k += (thorough ? 1 : 61)) ks.push_back(k); for (long k : {4095, 4096, 8190, 8191, 8192, n - 1, n}) if (k <= n) ks.push_back(k); }
    for (long k : ks)
      for (int pv = 0; pv < 2; ++pv) {
        std::string s(n, 'd'); for (int q = 0; q < n; ++q) s[q] = 'a' + q % 26;
        if (pv) put(f, std::string(n + 3, 'P')); else fs::remove(f);
        struct rlimit rl = old; rl.rlim_cur = k;
        setrlimit(RLIMIT_FSIZE, &rl);
        std::string key = "fsize-limit len=" + str(n) + " limit=" + str(k) + " prev=" + str(pv);
        int w = wr(key, f, s);
        setrlimit(RLIMIT_FSIZE, &old);
        std::string disk = slurp(f);
        if (w == 1) expect(disk == s, key, "write reported success but the file holds " + str(disk.size()) + " of " + str(n) + " bytes");
        if (k == n) expect(w == 1, key, "write that fits reported failure");
        outcome(w == 1 ? "limit/success" : "limit/error");
      }
  }
  // injected failing write calls
  for (int mode : {2, 3})
    for (int e : {ENOSPC, EIO, EDQUOT})
      for (int n : {1, 300, 8192, 30000})
        for (int at = 0; at < 6; ++at) {
          fs::remove(f);
          std::string s(n, 'w'), key = "inject mode=" + str(mode) + " errno=" + str(e) + " len=" + str(n) + " call=" + str(at);
          g_errno = e; g_count = 0; g_at = at; g_inject = mode;
          int w = wr(key, f, s);
          g_inject = 0;
          std::string disk = slurp(f);
          if (w == 1) expect(disk == s, key, "write reported success but file content is incomplete");
          if (w == 0) expect(disk != s || mode == 2, key, "complete write reported as failed");
          outcome(std::string("inject/") + (w == 1 ? "ok" : "error"));
        }
  // device full, unwritable targets
  if (fs::exists("/dev/full"))
    for (int n : {1, 100, 100000}) { std::string key = "devfull len=" + str(n); expect(wr(key, "/dev/full", std::string(n, 'x')) == 0, key, "write to a full device reported success"); outcome("devfull"); }
  for (auto& p : {dir, dir / "no" / "such" / "x", fs::path(""), dir / std::string(256, 'n'), dir / "t" / "under-file"}) {
    std::string key = "bad-target " + p.string().substr(0, 60);
    expect(wr(key, p, "x") == 0, key, "write to an impossible target reported success");
    outcome("bad-target");
  }
  // ---- C: reads
  std::string got;
  fs::create_symlink(dir / "loop", dir / "loop");
  fs::create_symlink(dir / "nowhere", dir / "dangling");
  for (auto& p : {dir / "missing", dir, fs::path(""), dir / "loop", dir / "dangling", dir / std::string(256, 'n'), dir / "t" / "x", fs::path("/proc/self/mem")}) {
    std::string key = "bad-source " + p.string().substr(0, 60);
    expect(rd(key, p, &got) == 0, key, "read of an unreadable source did not report an error");
    outcome("bad-source");
  }
  for (int n : {0, 1, 300, 8191, 8192, 30000, 200000})
    for (int e : {EIO, EISDIR, ESTALE})
      for (int at = 0; at < 30; ++at) {
        std::string s(n, 'r'); for (int q = 0; q < n; ++q) s[q] = 'A' + q % 26;
        put(f, s);
        std::string key = "inject-read errno=" + str(e) + " len=" + str(n) + " call=" + str(at);
        g_errno = e; g_count = 0; g_at = at; g_inject = 1;
        int r = rd(key, f, &got);
        long used = g_count; g_inject = 0;
        if (r == 1) expect(got == s, key, "read reported success with " + str(got.size()) + " of " + str(n) + " bytes");
        outcome(std::string("inject-read/") + (r == 1 ? "ok" : "error"));
        if (used <= at) { expect(r == 1, key, "read failed without a fault"); break; }
      }
  sample("WriteFile under RLIMIT_FSIZE=k for every k in 0..1024");
  sample("k-th read() fails with EIO while reading 30000 bytes");
  return done();
}
