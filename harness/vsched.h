#pragma once
#include <cstddef>
#include <cstdint>
namespace vsched {
enum Outcome { FINISHED = 0, DEADLOCK = 1, LIVELOCK = 2 };
struct Race { int kind, other_write, t, other, n, on; void* addr; void* pc[6]; void* opc[6]; };
struct Log {
  long points, switches, barriers, singles, criticals, atomics, regions, accesses;
  int parallel, outcome, nraces;
  Race race[8];
};
struct Config {
  int base;                   // 0 lowest id first, 1 highest id first, 2 round robin
  int ndev; long dev_at[4]; int dev_alt[4];
  long max_points, max_log; uint8_t* arity;
  void (*on_stop)();
};
extern Log log_;
void begin(const Config&);
void end();
}
