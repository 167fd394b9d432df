// Explores the thread schedules of complete solves under the controlled OpenMP runtime.
// usage: s_solve INPUT.json TABLE|- THREADS DEVIATIONS BASES MAXRUNS JOBS TAG RESTART_INPUT.json|- INTERRUPT_AFTER|0
#include <fstream>
#include <iostream>
#include <optional>

#include "explore.h"
#include "util/file_io/file_io.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/vmec/vmec.h"

using vmecpp::VmecINDATA;
static VmecINDATA indata;
static std::optional<makegrid::MagneticFieldResponseTable> table;
static std::optional<vmecpp::HotRestartState> restart;
static int interrupt_after;

static int body(int threads) {
  int calls = 0;
  vmecpp::InterruptCallback cb = nullptr;
  if (interrupt_after > 0) cb = [&calls] { return ++calls >= interrupt_after; };
  auto out = table ? vmecpp::run(indata, *table, restart, threads, vmecpp::OutputMode::kSilent, cb)
                   : vmecpp::run(indata, restart, threads, vmecpp::OutputMode::kSilent, cb);
  if (out.ok()) {
    const auto& w = out->wout;
    // iteration history
    putm(w.restart_reason_timetrace); put(w.itfsq); put(w.ier_flag); 
    cur->nhist = cur->nres;
    putm(w.force_residual_r); putm(w.force_residual_z); putm(w.force_residual_lambda); putm(w.fsqt);
    putm(w.rmnc); putm(w.zmns); putm(w.lmns); putm(w.rmns); putm(w.zmnc); putm(w.lmnc);
    putm(w.iotaf); putm(w.presf); putm(w.bmnc); putm(w.gmnc); putm(w.bsubvmnc); putm(w.currumnc); putm(w.DMerc);
    put(w.wb); put(w.wp); put(w.aspect); put(w.volume); put(w.betator); put(w.b0);
  }
  return (int)out.status().code();
}

int main(int argc, char** argv) {
  vh::init();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL);
  auto txt = file_io::ReadFile(argv[1]);
  auto ind = vmecpp::VmecINDATA::FromJson(*txt);
  if (!ind.ok()) { std::cerr << ind.status() << "\n"; return 3; }
  indata = *ind;
  if (std::string(argv[2]) != "-") {
    std::ifstream f(argv[2], std::ios::binary);
    double h[9];
    f.read((char*)h, sizeof h);
    makegrid::MagneticFieldResponseTable t;
    t.parameters.number_of_field_periods = (int)h[0];
    t.parameters.r_grid_minimum = h[1]; t.parameters.r_grid_maximum = h[2]; t.parameters.number_of_r_grid_points = (int)h[3];
    t.parameters.z_grid_minimum = h[4]; t.parameters.z_grid_maximum = h[5]; t.parameters.number_of_z_grid_points = (int)h[6];
    t.parameters.number_of_phi_grid_points = (int)h[7];
    int nc = (int)h[8], n = (int)(h[3] * h[6] * h[7]);
    for (auto* m : {&t.b_r, &t.b_p, &t.b_z}) { m->resize(nc, n); f.read((char*)m->data(), sizeof(double) * nc * n); }
    table = t;
  }
  int nthreads = atoi(argv[3]);
  int depth = atoi(argv[4]);
  std::string bases = argv[5];
  long maxruns = atol(argv[6]);
  int jobs = atoi(argv[7]);
  if (argc < 11) return 4;
  const char* tag = argv[8];
  interrupt_after = atoi(argv[10]);
  if (std::string(argv[9]) != "-") {
    auto rt = file_io::ReadFile(argv[9]);
    auto ri = vmecpp::VmecINDATA::FromJson(*rt);
    if (!ri.ok()) { std::cerr << ri.status() << "\n"; return 3; }
    auto out = table ? vmecpp::run(*ri, *table, std::nullopt, 1, vmecpp::OutputMode::kSilent)
                     : vmecpp::run(*ri, std::nullopt, 1, vmecpp::OutputMode::kSilent);
    if (!out.ok()) { std::cerr << out.status() << "\n"; return 3; }
    restart.emplace(std::move(*out));
  }

  explore(tag, nthreads, depth, bases, maxruns, jobs);
  return finish();
}
