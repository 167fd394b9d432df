// Reads documents (uint32 length + bytes each) from FILE, and for every one with index % PARTS == PART, in a forked child:
// parse, and if accepted solve.  One line per document: "index parse=ok|err|exc run=ok|err|exc|- ns mpol ntor itfsq" or "index died SIGNAL".
// usage: h_run FILE PART PARTS SECONDS ERRFILE DO_RUN
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <optional>
#include <string>

#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/vmec/vmec.h"

static void body(int i, const std::string& doc, bool do_run, FILE* out) {
  std::string p, r = "-";
  int ns = 0, mp = 0, nt = 0, it = 0, want = 0, wm = 0, wn = 0;
  try {
    auto ind = vmecpp::VmecINDATA::FromJson(doc);
    p = ind.ok() ? "ok" : "err";
    if (ind.ok() && do_run) {
      want = ind->ns_array[ind->ns_array.size() - 1]; wm = ind->mpol; wn = ind->ntor;
      try {
        auto o = vmecpp::run(*ind, std::nullopt, 1, vmecpp::OutputMode::kSilent);
        r = o.ok() ? "ok" : "err";
        if (o.ok()) { ns = o->wout.ns; mp = o->wout.mpol; nt = o->wout.ntor; it = o->wout.itfsq; }
      } catch (const std::exception& e) { r = "exc"; }
    }
  } catch (const std::exception& e) { p = "exc"; }
  fprintf(out, "%d parse=%s run=%s %d %d %d %d %d %d %d\n", i, p.c_str(), r.c_str(), ns, mp, nt, it, want, wm, wn);
  fflush(out);
}

int main(int argc, char** argv) {
  std::ifstream f(argv[1], std::ios::binary);
  int part = atoi(argv[2]), parts = atoi(argv[3]), secs = atoi(argv[4]);
  bool do_run = atoi(argv[6]);
  uint32_t n;
  for (int i = 0; f.read((char*)&n, 4); ++i) {
    std::string doc(n, 0);
    f.read(doc.data(), n);
    if (i % parts != part) continue;
    std::string en = std::string(argv[5]) + "." + std::to_string(i);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      int e = open(en.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      int o = dup(1);
      int z = open("/dev/null", O_WRONLY);
      dup2(e, 2); dup2(z, 1);
      alarm(secs);
      body(i, doc, do_run, fdopen(o, "w"));
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (st != 0) printf("%d died %s %d\n", i, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    else unlink(en.c_str());
  }
  puts("DONE");
}
