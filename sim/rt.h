// Shared between the runtime (simrt.cpp) and the driver (driver.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include "sim.h"

namespace rt {

enum Kind : uint8_t {
  K_SCHED,      // step -> thread to run (value tid+1)
  K_CONDPICK,   // which condition-variable waiter a notify_one wakes
  K_SPUR,       // step -> spurious wakeup of thread tid (value tid+1)
  K_CASFAIL,    // weak compare-exchange fails spuriously
  K_STALE,      // atomic load returns an older value (age) still allowed by the memory model
  K_ALLOC,      // operator new / resource allocation fails in an armed scope
  K_THREAD,     // pthread_create fails in an armed scope
  K_STALL,      // step -> thread stalls for `value` steps
  NKINDS
};
extern const char* const kind_names[NKINDS];

struct Dec {
  uint8_t kind;
  uint32_t ord;
  uint32_t val;
};

constexpr int MAXT = 64;
constexpr int MAXDRAWS = 4096;
constexpr int MAXDECS = 1 << 16;
constexpr int MAXPROBES = 96;
constexpr int MAXPC = 48;

struct Result {
  volatile int status;  // 0 running, 1 ok, 2 violation, 3 infrastructure error, 4 given up: the run needs more threads than are simulated
  char cls[64];
  char msg[6000];
  uint64_t hash;        // every step, access to a shared region and decision
  uint64_t shape;       // interleaving only: (thread, operation) sequence + draws
  uint32_t steps;
  uint64_t simtime_ns;
  uint32_t nthreads;
  uint32_t used[5];     // heap KiB, allocations, atomic locations, sync objects, decisions
  uint32_t switches;    // context switches that were a choice (preemptions)
  uint32_t mem_accesses;
  uint32_t fired[NKINDS];
  uint32_t ndraws;
  uint32_t draws[MAXDRAWS];
  uint32_t draw_n[MAXDRAWS];
  uint32_t ndecs;
  Dec decs[MAXDECS];
  uint32_t nprobes;
  struct {
    char name[40];
    uint32_t n;
  } probes[MAXPROBES];
  uint32_t npcs;
  uint64_t pcs[MAXPC];      // stack of the failing thread
  uint64_t pc_other;        // the other access of a race / allocation, free site
  uint64_t pc_other2;
  uint32_t ntrace;
  char trace[120000];       // human readable trace, replay only
};

struct RunInput {
  bool replay = false;
  uint64_t seed = 0;       // search: PRNG seed of this run
  const uint32_t* draws = nullptr;
  uint32_t ndraws = 0;
  const Dec* decs = nullptr;  // sorted by (kind, ord)
  uint32_t ndecs = 0;
  bool want_trace = false;
  uint32_t max_fault_steps = 20000;
  uint32_t max_steps = 80000;
};

void global_init();   // map regions, signal handlers: once per process
[[noreturn]] void run_child(const sim::Scenario& sc, const RunInput& in, Result* out);  // never returns

int scenario_count();
const sim::Scenario& scenario(int i);

}  // namespace rt
