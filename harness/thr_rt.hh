// Runtime of the thread simulation: real threads of which one runs at a time, switched by a seeded scheduler at the
// instrumented accesses of the library (compiled with -fsanitize=thread, but without its runtime), and a
// happens-before race detector on the same events.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace thr {
const int kMaxT = 4;
struct Sw { int from; int64_t at; int to; };       // thread `from` hands over to `to` at its at-th event
struct Sched {
  int policy = 0;                                  // 0: listed switches, 1: random gaps, 2: priorities with change points
  uint64_t seed = 1;
  int64_t mean = 1000;                             // of the gaps (1), extent of the change points (2)
  int hot = 0;                                     // percent chance of a switch at accesses to shared places
  int points = 0;
  std::vector<Sw> list;
};
struct Report {
  std::string race;                                // first data race
  uint64_t races = 0, events = 0, switches = 0, blocks = 0, order = 0;
  std::vector<Sw> log;
  bool log_full = false;
};
Report run(int n, const std::function<void(int)>& body, const Sched& s);
int self();                                        // number of the simulated thread, -1 outside
}  // namespace thr
