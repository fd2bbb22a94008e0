// API of the simulator for workloads (props/*.cpp).
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim {

// ---- recorded nondeterminism of the workload (part of the replay file) ----
uint32_t draw(uint32_t n);                       // uniform in [0, n)
inline bool chance(uint32_t num, uint32_t den) {  // true with probability num/den; 0 (false) is the simple case
  return draw(den) >= den - num;
}
inline uint32_t range(uint32_t lo, uint32_t hi) {  // inclusive
  return lo + draw(hi - lo + 1);
}

// ---- scheduling ----
void yield();               // a scheduling point without any synchronisation
int self();                 // simulated thread number (0 = root)
uint64_t now();             // global event sequence number
bool faults_active();       // false once the fault phase of the run is over
void wait_until(bool (*pred)(void*), void* arg);  // block without creating happens-before edges
template <typename F>
void wait_until(F f) {
  wait_until([](void* p) -> bool { return (*static_cast<F*>(p))(); }, &f);
}
void quiesce();             // wait until every other thread is finished or blocked for good, then synchronise with all of them
int live_threads();         // simulated threads which have started and not finished (root included)

// ---- reporting ----
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);            // counts that a condition of interest was reached
void event(const char* what, uint64_t a = 0, uint64_t b = 0);  // goes to the trace and the hash of the run

// Oracle code: no instrumentation, no scheduling points, allocations outside the simulated heap.
struct Quiet {
  Quiet();
  ~Quiet();
  Quiet(const Quiet&) = delete;
};
template <typename F>
decltype(auto) quiet(F&& f) {
  Quiet q;
  return f();
}

// ---- fault scopes ----
// operator new may throw std::bad_alloc inside the scope (on this thread)
struct AllocFaults {
  AllocFaults();
  ~AllocFaults();
  AllocFaults(const AllocFaults&) = delete;
};
// pthread_create may fail with EAGAIN inside the scope (on this thread)
struct ThreadFaults {
  ThreadFaults();
  ~ThreadFaults();
  ThreadFaults(const ThreadFaults&) = delete;
};
void fail_next_alloc(bool on = true);   // the next allocation of this thread fails (once)
bool alloc_fault_here();      // resource code of the workload asks: fail now?
int alloc_faults_fired();     // on this thread since start
int thread_faults_fired();
struct NoFaults {             // suppress injected alloc/thread faults in a nested scope
  NoFaults();
  ~NoFaults();
};

// ---- heap introspection (simulated heap) ----
uint64_t live_bytes();
uint64_t live_blocks();
bool is_live_block(const void* p, size_t sz);   // [p, p+sz) lies in one live block (or is not heap memory)
void expect_terminate(void (*oracle)());  // std::terminate ends the run well if the oracle (called quietly) has no objection; null: never expected
void ignore_leaks();          // everything allocated so far is not a leak
void set_hardware_concurrency(unsigned n);
void touch_read(const void* p, size_t n);   // check an access as instrumented code would
void touch_write(void* p, size_t n);

using scenario_fn = void (*)();
struct Scenario {
  const char* name;
  scenario_fn fn;
  int weight;
  const char* about;
};
void register_scenario(const Scenario&);
struct Registrar {
  Registrar(const char* name, int weight, scenario_fn fn, const char* about) {
    register_scenario(Scenario{name, fn, weight, about});
  }
};
#define SIM_SCENARIO(ident, weight, about)                                 \
  static void ident();                                                     \
  static ::sim::Registrar ident##_reg(#ident, weight, &ident, about);      \
  static void ident()

#define SIM_CHECK(cond, cls, ...)   \
  do {                              \
    if (!(cond))                    \
      ::sim::fail(cls, __VA_ARGS__); \
  } while (0)

}  // namespace sim
