// The simulator: receives every memory access, atomic operation, lock, wait, thread creation, allocation and
// clock read of the instrumented program (kelcoro's headers plus the workload) and decides every outcome.
// This file is compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <initializer_list>
#include <link.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/single_threaded.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>

#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define CALLER ((uint64_t)__builtin_return_address(0))

extern "C" char __data_start, _end;

namespace rt {

const char* const kind_names[NKINDS] = {"SCHED", "CONDPICK", "SPUR", "CASFAIL", "STALE", "ALLOCFAIL", "THREADFAIL", "STALL"};

// ------------------------------------------------------------------ regions
constexpr uintptr_t ARENA = 0x10000000000ull;
constexpr size_t ARENA_SZ = 16u << 20;
constexpr uintptr_t STACKS = 0x10100000000ull;
constexpr size_t STACK_SZ = 1u << 20;
constexpr size_t STACKS_SZ = STACK_SZ * MAXT;
constexpr size_t GUARD = 8192;

struct Slot {
  uint32_t epoch;
  uint8_t tid;
  uint8_t mask;
  uint8_t flags;  // 1 valid, 2 write, 4 atomic, 8 free
  uint8_t pad;
  uint32_t pc;
};
enum { SV = 1, SW = 2, SA = 4, SF = 8 };
enum : uint8_t { M_NONE = 0, M_LIVE = 1, M_FREED = 2, M_RED = 3 };
struct Granule {
  Slot s[4];
  uint8_t state;
  uint8_t tail;  // valid bytes in the granule when state == M_LIVE (0 = all)
  uint8_t rr;
  uint8_t pad;
  uint16_t loc;   // first atomic location
  uint16_t sync;  // first sync object
  uint32_t alloc;
};
static_assert(sizeof(Granule) == 60 || sizeof(Granule) == 64);

static Granule* sh_arena;
static Granule* sh_stack;
static Granule* sh_glob;
static uintptr_t glob_lo, glob_hi;

static inline Granule* granule(uintptr_t a) {
  if (a - ARENA < ARENA_SZ)
    return sh_arena + ((a - ARENA) >> 3);
  if (a - STACKS < STACKS_SZ)
    return sh_stack + ((a - STACKS) >> 3);
  if (a - glob_lo < glob_hi - glob_lo)
    return sh_glob + ((a - glob_lo) >> 3);
  return nullptr;
}
static inline bool in_arena(const void* p) {
  return (uintptr_t)p - ARENA < ARENA_SZ;
}

// ------------------------------------------------------------------ threads
struct VC {
  uint32_t c[MAXT];
};
static int g_nthr;  // threads created so far in this run
static inline void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < g_nthr; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}

enum State : uint8_t { T_NONE, T_RUN, T_MUTEX, T_COND, T_ATOMIC, T_TICKET, T_JOIN, T_SLEEP, T_PRED, T_RW, T_GUARD, T_SEM, T_DONE };
static const char* const state_names[] = {"none",  "runnable", "mutex", "condvar", "atomic-wait", "atomic-wait", "join",
                                          "sleep", "predicate", "rwlock", "static-init", "semaphore", "done"};

struct Sync;
struct Thr {
  int id;
  State st;
  void* sp;            // saved stack pointer of a fiber that is switched out
  char* tls;           // its image of the executable's thread-local block
  uint64_t eh[2];      // its __cxa_eh_globals
  void* once_c;
  void (*once_f)();
  int err;
  struct {
    void (*f)(void*);
    void* a;
  } atexit_[8];
  int natexit;
  void* obj;           // what it waits for
  uint64_t obj_pc;
  uint64_t deadline;   // 0 none
  bool timed_out;
  uint64_t wait_seq;   // order of waiting
  uint64_t ticket;
  uint8_t wsize;
  uint64_t wold;
  bool (*pred)(void*);
  void* pred_arg;
  VC vc, fence_rel, fence_acq;
  bool has_frel;
  uint64_t sc_floor;
  int quiet;
  int alloc_armed, thr_armed, nofault;
  bool alloc_next;
  int alloc_fired, thr_fired;
  int inrt;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool detached, joined;
  int pri;
  uint64_t stalled_until;
};
static Thr thr[MAXT];
static Thr* self_;  // the simulated thread whose fiber is on the processor

static VC zero_vc;

// ------------------------------------------------------------------ run state
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t x) {
    s[0] = mix(x);
    s[1] = mix(x);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint32_t below(uint32_t n) {
    return n <= 1 ? 0 : (uint32_t)((next() >> 11) % n);
  }
  double unit() {
    return (double)(next() >> 11) * (1.0 / 9007199254740992.0);
  }
};

static Result* R;
static RunInput in;
static Rng rng_draw, rng_dec, rng_cfg;
static uint32_t cur_ord[NKINDS];
static uint32_t kind_at[NKINDS], kind_end[NKINDS];
static uint32_t ndraw_used;
static uint64_t steps;
static uint64_t now_ns;
static uint64_t event_seq;
static bool faults_off;
static bool run_active;
static Thr* running;
static uint64_t seq_wait;
static unsigned hw_conc = 4;
static uint64_t store_time;  // stamps of atomic stores

// strategy
static int strat;  // 0 random, 1 pct, 2 starve, 3 default
static double p_switch;
static int pct_n;
static uint32_t pct_at[8];
static int pct_low;
static int victim;
static uint64_t starve_a, starve_b;
static double p_kind[NKINDS];
static bool reuse_heap;
static uint8_t fill_new;

[[noreturn]] static void finish(int status);
[[noreturn]] NOINLINE static void vfail(const char* cls, const char* fmt, va_list ap);
[[noreturn]] NOINLINE static void rfail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] NOINLINE static void infra(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] NOINLINE static void runaway(const char* what);

static inline void hash_mix(uint64_t& h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
}
static inline void note(uint64_t v) {
  hash_mix(R->hash, v);
}
static NOINLINE void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char* fmt, ...) {
  if (!in.want_trace || R->ntrace > sizeof(R->trace) - 300)
    return;
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(R->trace + R->ntrace, 60, "[%llu] T%d ", (unsigned long long)steps, running ? running->id : -1);
  n += vsnprintf(R->trace + R->ntrace + n, 200, fmt, ap);
  va_end(ap);
  R->ntrace += n;
  R->trace[R->ntrace++] = '\n';
  R->trace[R->ntrace] = 0;
}

// ------------------------------------------------------------------ decisions
static void record(Kind k, uint32_t ord, uint32_t v) {
  R->fired[k]++;
  note(((uint64_t)k << 56) ^ ((uint64_t)ord << 24) ^ v);
  if (R->ndecs < MAXDECS) {
    R->decs[R->ndecs++] = Dec{k, ord, v};
  } else
    infra("too many decisions");
}
static uint32_t lookup(Kind k, uint32_t ord) {
  uint32_t& c = kind_at[k];
  while (c < kind_end[k] && in.decs[c].ord < ord)
    ++c;
  if (c < kind_end[k] && in.decs[c].ord == ord)
    return in.decs[c].val;
  return 0;
}
// choice in [0, n); 0 is the benign default
static uint32_t decide(Kind k, uint32_t n) {
  uint32_t ord = cur_ord[k]++;
  if (n <= 1 || faults_off)
    return 0;
  uint32_t v = 0;
  if (in.replay) {
    v = lookup(k, ord);
    if (v >= n)
      v = n - 1;
  } else if (p_kind[k] > 0 && rng_dec.unit() < p_kind[k]) {
    v = 1 + rng_dec.below(n - 1);
  }
  if (v) {
    record(k, ord, v);
    trace("%s ordinal %u -> %u of %u", kind_names[k], ord, v, n);
  }
  return v;
}

// should this allocation fail?
static bool decide_alloc(Thr* me) {
  if (!me->alloc_next)
    return decide(K_ALLOC, 2);
  me->alloc_next = false;  // ordered by the workload, so it is among its draws and not among the decisions
  R->fired[K_ALLOC]++;
  note((uint64_t)K_ALLOC << 56);
  trace("%s ordered by the workload", kind_names[K_ALLOC]);
  return true;
}

// ------------------------------------------------------------------ fibers
// Every simulated thread is a fiber with its own stack, its own copy of the executable's thread-local block and of
// the C++ runtime's per-thread state. Exactly one runs; a switch happens only where pick() chose another thread.
extern "C" void sim_switch(void** save_sp, void* to_sp);
extern "C" void sim_fiber_entry();
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_fiber_entry,.-sim_fiber_entry
)");
static char* tls_base;
static size_t tls_size;
static const char* tls_init;
static size_t tls_init_size;
static char* tls_images;
static int find_tls(dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_TLS) {
      tls_base = (char*)i->dlpi_tls_data;
      tls_size = i->dlpi_phdr[k].p_memsz;
      tls_init = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      tls_init_size = i->dlpi_phdr[k].p_filesz;
    }
  return 1;  // the executable only
}
static void load_context(Thr* t) {
  running = self_ = t;
  if (tls_size)
    memcpy(tls_base, t->tls, tls_size);
  memcpy((void*)abi::__cxa_get_globals(), t->eh, sizeof t->eh);
  std::__once_callable = t->once_c;
  std::__once_call = t->once_f;
  errno = t->err;
}
static void save_context(Thr* t) {
  t->err = errno;
  if (tls_size)
    memcpy(t->tls, tls_base, tls_size);
  memcpy(t->eh, (void*)abi::__cxa_get_globals(), sizeof t->eh);
  t->once_c = std::__once_callable;
  t->once_f = std::__once_call;
}
static void switch_to(Thr* me, Thr* t) {
  if (t == me)
    return;
  save_context(me);
  load_context(t);
  sim_switch(&me->sp, t->sp);
}

static bool is_runnable(Thr& t) {
  switch (t.st) {
    case T_RUN:
      return true;
    case T_SLEEP:
      return t.deadline <= now_ns;
    case T_PRED:
      return t.pred(t.pred_arg);
    case T_COND:
    case T_ATOMIC:
    case T_TICKET:
    case T_SEM:
      return t.deadline && t.deadline <= now_ns;
    default:
      return false;
  }
}
static void make_running(Thr& t) {
  if (t.st == T_RUN)
    return;
  if (t.st == T_COND || t.st == T_ATOMIC || t.st == T_TICKET || t.st == T_SEM)
    t.timed_out = true;
  t.st = T_RUN;
}
static void describe_threads(char* buf, size_t n) {
  size_t k = 0;
  for (int i = 0; i < g_nthr && k + 120 < n; ++i) {
    if (thr[i].st == T_DONE)
      continue;
    k += snprintf(buf + k, n - k, " T%d:%s", i, state_names[thr[i].st]);
    if (thr[i].st != T_RUN && thr[i].obj)
      k += snprintf(buf + k, n - k, "@%llx", (unsigned long long)(uintptr_t)thr[i].obj);
  }
}

static void check_limits() {
  if (!faults_off && steps > in.max_fault_steps) {
    faults_off = true;
    trace("fault phase over");
  }
  if (steps > in.max_steps) {
    char b[1500];
    describe_threads(b, sizeof b);
    rfail("livelock", "no progress: %llu steps after which faults had stopped and scheduling was fair; threads:%s",
          (unsigned long long)steps, b);
  }
}

// choose who runs next; cur is runnable or not. Never returns null.
static Thr* pick(Thr* cur, bool cur_yields) {
  for (;;) {
    int run[MAXT], n = 0, nst = 0;
    int stalled[MAXT];
    for (int i = 0; i < g_nthr; ++i) {
      if (!is_runnable(thr[i]))
        continue;
      if (thr[i].stalled_until > steps && !faults_off)
        stalled[nst++] = i;
      else
        run[n++] = i;
    }
    if (!n && nst) {
      for (int i = 0; i < nst; ++i)
        run[n++] = stalled[i];
    }
    // spurious wakeups
    if (!faults_off && (in.replay || p_kind[K_SPUR] > 0)) {
      int w[MAXT], nw = 0;
      for (int i = 0; i < g_nthr; ++i)
        if ((thr[i].st == T_COND || thr[i].st == T_ATOMIC || thr[i].st == T_TICKET) && !is_runnable(thr[i]))
          w[nw++] = i;
      if (nw && n) {
        uint32_t v = 0;
        if (in.replay) {
          v = lookup(K_SPUR, (uint32_t)steps);
          if (v && !(v - 1 < (uint32_t)g_nthr && (thr[v - 1].st == T_COND || thr[v - 1].st == T_ATOMIC || thr[v - 1].st == T_TICKET)))
            v = 0;
        } else if (rng_dec.unit() < p_kind[K_SPUR])
          v = 1 + w[rng_dec.below(nw)];
        if (v) {
          record(K_SPUR, (uint32_t)steps, v);
          trace("spurious wakeup of T%u", v - 1);
          Thr& t = thr[v - 1];
          t.st = T_RUN;
          t.timed_out = false;
          run[n++] = t.id;
        }
      }
    }
    if (!n) {
      uint64_t best = 0;
      for (int i = 0; i < g_nthr; ++i)
        if ((thr[i].st == T_SLEEP || thr[i].st == T_COND || thr[i].st == T_ATOMIC || thr[i].st == T_TICKET || thr[i].st == T_SEM) &&
            thr[i].deadline && (!best || thr[i].deadline < best))
          best = thr[i].deadline;
      if (best) {
        now_ns = best;
        continue;
      }
      char b[1500];
      describe_threads(b, sizeof b);
      rfail("deadlock", "no thread can run; blocked threads:%s", b);
    }
    // default: keep running the current thread, otherwise the next one in cyclic order
    int def = -1;
    bool cur_ok = false;
    for (int i = 0; i < n; ++i)
      if (cur && run[i] == cur->id)
        cur_ok = true;
    if (cur_ok && !cur_yields && !faults_off)
      def = cur->id;
    else {
      int c = cur ? cur->id : 0;
      int bestd = 1 << 20;
      for (int i = 0; i < n; ++i) {
        int d = run[i] - c;
        if (d <= 0)
          d += MAXT;
        if (d < bestd) {
          bestd = d;
          def = run[i];
        }
      }
    }
    int sel = def;
    if (n > 1 && !faults_off) {
      if (in.replay) {
        uint32_t v = lookup(K_SCHED, (uint32_t)steps);
        if (v) {
          for (int i = 0; i < n; ++i)
            if (run[i] == (int)v - 1)
              sel = run[i];
        }
      } else {
        switch (strat) {
          case 0:
            if (!cur_ok || cur_yields || rng_dec.unit() < p_switch)
              sel = run[rng_dec.below(n)];
            break;
          case 1: {
            for (int i = 0; i < pct_n; ++i)
              if (pct_at[i] == steps && cur)
                cur->pri = --pct_low;
            if (cur_yields && cur)
              cur->pri = --pct_low;
            sel = run[0];
            for (int i = 1; i < n; ++i)
              if (thr[run[i]].pri > thr[sel].pri)
                sel = run[i];
            break;
          }
          case 2: {
            int m = 0, r2[MAXT];
            for (int i = 0; i < n; ++i)
              if (!(run[i] == victim && steps >= starve_a && steps < starve_b))
                r2[m++] = run[i];
            if (!m) {
              m = n;
              memcpy(r2, run, sizeof run);
            }
            bool keep = false;
            for (int i = 0; i < m; ++i)
              if (cur_ok && r2[i] == cur->id)
                keep = true;
            if (!keep || cur_yields || rng_dec.unit() < p_switch)
              sel = r2[rng_dec.below(m)];
            else
              sel = cur->id;
            break;
          }
          default:
            break;
        }
      }
      if (sel != def) {
        record(K_SCHED, (uint32_t)steps, sel + 1);
        R->switches += cur_ok;
      }
    }
    make_running(thr[sel]);
    return &thr[sel];
  }
}

static inline bool active() {
  return self_ && !self_->quiet;
}

// a scheduling point of a runnable thread
static void yield_point(unsigned op, bool yields = false) {
  Thr* me = self_;
  ++steps;
  now_ns += 1000;
  check_limits();
  hash_mix(R->hash, (uint64_t)me->id << 32 | op);
  hash_mix(R->shape, (uint64_t)me->id << 8 | op);
  if (!faults_off && (in.replay || p_kind[K_STALL] > 0)) {
    uint32_t v = 0;
    if (in.replay)
      v = lookup(K_STALL, (uint32_t)steps);
    else if (rng_dec.unit() < p_kind[K_STALL])
      v = 10 + rng_dec.below(200);
    if (v && g_nthr > 1) {
      record(K_STALL, (uint32_t)steps, v);
      me->stalled_until = steps + v;
      trace("stalls for %u steps", v);
    }
  }
  Thr* t = pick(me, yields);
  switch_to(me, t);
}
// current thread cannot go on: st/obj are set
static void block(State st, void* obj) {
  Thr* me = self_;
  me->st = st;
  me->obj = obj;
  me->wait_seq = ++seq_wait;
  ++steps;
  now_ns += 1000;
  check_limits();
  trace("blocks (%s %llx)", state_names[st], (unsigned long long)(uintptr_t)obj);
  Thr* t = pick(me, false);
  switch_to(me, t);
  me->obj = nullptr;
}

// ------------------------------------------------------------------ atomic locations
constexpr int NH = 8;
struct Store {
  uint64_t val;
  uint64_t time;
  uint32_t epoch;
  uint8_t tid;   // 255: initial value
  bool has_rel;
  VC rel;
};
struct Loc {
  uintptr_t addr;
  uint8_t size;
  bool mixed;
  uint16_t next;
  uint32_t n;     // total stores (index of the latest is n-1)
  Store h[NH];
  uint32_t seen[MAXT][NH];  // epoch at which thread read/wrote store index i (mod NH), 0 never
  uint8_t stale_run;
};
constexpr int MAXLOC = 12000;
static Loc* locs;
static uint32_t nlocs, loc_free;

struct Sync {
  uintptr_t addr;
  uint16_t next;
  uint8_t kind;  // 1 mutex 2 cond 3 rw 4 guard 5 once 6 sem
  int owner;     // -1
  int count;
  int readers;
  bool rd[MAXT];
  VC rel;
  int mtype;
  long sem;
};
constexpr int MAXSYNC = 4000;
static Sync* syncs;
static uint32_t nsyncs, sync_free;

static uint64_t load_raw(uintptr_t a, int size) {
  switch (size) {
    case 1:
      return *(volatile uint8_t*)a;
    case 2:
      return *(volatile uint16_t*)a;
    case 4:
      return *(volatile uint32_t*)a;
    default:
      return *(volatile uint64_t*)a;
  }
}

static void drop_objects(Granule* g) {
  while (g->loc) {
    uint16_t i = g->loc;
    g->loc = locs[i].next;
    locs[i].next = loc_free;
    loc_free = i;
  }
  while (g->sync) {
    uint16_t i = g->sync;
    g->sync = syncs[i].next;
    syncs[i].next = sync_free;
    sync_free = i;
  }
}

static Loc* get_loc(uintptr_t a, int size) {
  Granule* g = granule(a);
  if (!g)
    return nullptr;
  Loc* found = nullptr;
  bool mixed = false;
  for (uint16_t i = g->loc; i; i = locs[i].next) {
    Loc& l = locs[i];
    if (l.addr == a && l.size == size)
      found = &l;
    else if (l.addr < a + size && a < l.addr + l.size) {
      mixed = true;
      l.mixed = true;
    }
  }
  if (found) {
    if (mixed)
      found->mixed = true;
    return found;
  }
  uint32_t i;
  if (loc_free) {
    i = loc_free;
    loc_free = locs[i].next;
  } else {
    if (nlocs + 1 >= MAXLOC)
      runaway("atomic variables");
    i = ++nlocs;
  }
  Loc& l = locs[i];
  memset(&l, 0, sizeof l);
  l.addr = a;
  l.size = size;
  l.mixed = mixed;
  l.next = g->loc;
  g->loc = i;
  l.n = 1;
  l.h[0].tid = 255;
  l.h[0].val = load_raw(a, size);
  l.h[0].time = 0;
  return &l;
}

// mixed-size locations: one merged clock per granule, kept in the first Loc's h[0].rel of each; simple and
// conservative: every op on a mixed location acquires/releases with all overlapping locations.
static void mixed_acquire(Loc* l, VC& into) {
  Granule* g = granule(l->addr);
  for (uint16_t i = g->loc; i; i = locs[i].next) {
    Loc& o = locs[i];
    if (o.addr < l->addr + l->size && l->addr < o.addr + o.size) {
      Store& s = o.h[(o.n - 1) % NH];
      if (s.has_rel)
        vc_join(into, s.rel);
    }
  }
}

static bool is_acq(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static bool is_rel(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

static void mark_seen(Loc* l, Thr* t, uint32_t idx) {
  uint32_t& s = l->seen[t->id][idx % NH];
  if (!s)
    s = t->vc.c[t->id];
}
static void acquire_store(Loc* l, Thr* t, Store& s, int mo) {
  if (l->mixed) {
    if (is_acq(mo))
      mixed_acquire(l, t->vc);
    else
      mixed_acquire(l, t->fence_acq);
    return;
  }
  if (!s.has_rel)
    return;
  if (is_acq(mo))
    vc_join(t->vc, s.rel);
  else
    vc_join(t->fence_acq, s.rel);
}
static void push_store(Loc* l, Thr* t, uint64_t v, int mo, bool rmw) {
  Store& prev = l->h[(l->n - 1) % NH];
  Store& s = l->h[l->n % NH];
  bool keep = rmw && prev.has_rel;
  if (&s != &prev) {
    if (keep)
      s.rel = prev.rel;
    else
      s.rel = zero_vc;
  } else if (!keep)
    s.rel = zero_vc;
  s.has_rel = keep;
  if (l->mixed) {
    mixed_acquire(l, s.rel);  // conservative merge
    s.has_rel = true;
  }
  if (is_rel(mo)) {
    vc_join(s.rel, t->vc);
    s.has_rel = true;
  } else if (t->has_frel) {
    vc_join(s.rel, t->fence_rel);
    s.has_rel = true;
  }
  s.val = v;
  s.tid = t->id;
  s.epoch = t->vc.c[t->id];
  s.time = ++store_time;
  for (int i = 0; i < g_nthr; ++i)
    l->seen[i][l->n % NH] = 0;
  l->seen[t->id][l->n % NH] = s.epoch;
  l->n++;
  if (is_rel(mo))
    t->vc.c[t->id]++;
  if (l->mixed) {  // other overlapping locations must see the value
    Granule* g = granule(l->addr);
    for (uint16_t i = g->loc; i; i = locs[i].next) {
      Loc& o = locs[i];
      if (&o != l)
        o.h[(o.n - 1) % NH].val = load_raw(o.addr, o.size);
    }
  }
}

// ------------------------------------------------------------------ shadow checks
[[noreturn]] NOINLINE static void report_mem(const char* cls, uintptr_t a, size_t n, bool w, uint64_t pc);
struct Alloc {
  uintptr_t addr;
  size_t size, align;
  uint8_t kind;  // 0 new 1 new[]
  bool live, ignore;
  uint8_t tid, free_tid;
  uint32_t pc, free_pc;
  uint32_t next_free;
};
constexpr int MAXALLOC = 60000;
static Alloc* allocs;
static uint32_t nallocs;
static uint64_t arena_top;
static uint64_t live_b, live_n;

NOINLINE static void report_race(Slot& s, uintptr_t a, unsigned size, unsigned flags, uint64_t pc) {
  R->pc_other = s.pc;
  const char* k = (s.flags & SF) ? "free" : (s.flags & SA) ? ((s.flags & SW) ? "atomic write" : "atomic read") : (s.flags & SW) ? "write" : "read";
  const char* m = (flags & SF) ? "free" : (flags & SA) ? ((flags & SW) ? "atomic write" : "atomic read") : (flags & SW) ? "write" : "read";
  (void)pc;
  rfail("race", "data race: %s of %u bytes at %llx by T%d is unordered with earlier %s by T%d", m, size,
        (unsigned long long)a, self_->id, k, s.tid);
}

static inline void access_granule(Granule* g, uintptr_t a, unsigned mask, unsigned flags, uint64_t pc, unsigned size) {
  Thr* me = self_;
  uint32_t ep = me->vc.c[me->id];
  int free_slot = -1, same = -1;
  for (int i = 0; i < 4; ++i) {
    Slot& s = g->s[i];
    if (!(s.flags & SV)) {
      if (free_slot < 0)
        free_slot = i;
      continue;
    }
    if (s.tid == me->id) {
      if ((s.mask & mask) == s.mask && !((s.flags & SW) && !(flags & SW)) && ((s.flags & SA) == (flags & SA) || !(flags & SA)))
        same = i;
      else if (s.mask == mask && s.epoch == ep && (s.flags & SW) && !(flags & SW) && !((s.flags & SA)))
        return;  // an equal or stronger plain write of this epoch is there
      continue;
    }
    if (!(s.mask & mask))
      continue;
    if (!((s.flags | flags) & SW))
      continue;
    if ((s.flags & SA) && (flags & SA))
      continue;
    if (me->vc.c[s.tid] >= s.epoch)
      continue;
    report_race(s, a, size, flags, pc);
  }
  int k = same >= 0 ? same : free_slot >= 0 ? free_slot : -1;
  if (k < 0) {
    // evict: prefer an entry which is ordered before us
    for (int i = 0; i < 4 && k < 0; ++i) {
      int j = (g->rr + i) & 3;
      Slot& s = g->s[j];
      if (me->vc.c[s.tid] >= s.epoch && (s.mask & mask) == s.mask && (flags & SW))
        k = j;
    }
    if (k < 0)
      for (int i = 0; i < 4 && k < 0; ++i) {
        int j = (g->rr + i) & 3;
        if (!(g->s[j].flags & SW))
          k = j;
      }
    if (k < 0)
      k = g->rr & 3;
    g->rr++;
  }
  g->s[k] = Slot{ep, (uint8_t)me->id, (uint8_t)mask, (uint8_t)(SV | flags), 0, (uint32_t)pc};
}

static void access(uintptr_t a, size_t n, unsigned flags, uint64_t pc) {
  Granule* g = granule(a);
  if (!g || !n)
    return;
  if (UNLIKELY(++R->mem_accesses > 40000000u))
    rfail("hang", "a thread executes without reaching any synchronisation operation");
  uintptr_t end = a + n;
  bool arena = a - ARENA < ARENA_SZ;
  uintptr_t p = a;
  while (p < end) {
    uintptr_t gb = p & ~7ull;
    unsigned lo = p - gb, hi = end - gb < 8 ? end - gb : 8;
    if (arena) {
      if (UNLIKELY(g->state != M_LIVE || (g->tail && hi > g->tail)))
        report_mem(g->state == M_FREED ? "use-after-free" : "out-of-bounds", p, n, flags & SW, pc);
    }
    unsigned mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
    access_granule(g, p, mask, flags, pc, (unsigned)n);
    if (UNLIKELY((flags & (SW | SA)) == SW && (g->loc || g->sync)))
      drop_objects(g);  // plain write over an atomic or a lock: it is (re)constructed
    p = gb + 8;
    ++g;
  }
}

static NOINLINE void report_mem(const char* cls, uintptr_t a, size_t n, bool w, uint64_t pc) {
  (void)pc;
  Granule* g = granule(a);
  Alloc* al = nullptr;
  for (int d = 0; d < 40 && !al; ++d) {  // nearest block below
    Granule* q = g - d;
    if (q < sh_arena)
      break;
    if (q->alloc)
      al = &allocs[q->alloc];
  }
  char extra[300] = "";
  if (al) {
    snprintf(extra, sizeof extra, "; block of %zu bytes allocated by T%d%s", al->size, al->tid,
             al->live ? "" : ", freed");
    R->pc_other = al->live ? al->pc : al->free_pc;
    R->pc_other2 = al->pc;
  }
  rfail(cls, "%s of %zu bytes at %llx by T%d%s", w ? "write" : "read", n, (unsigned long long)a,
        self_ ? self_->id : -1, extra);
}

// ------------------------------------------------------------------ heap
constexpr int NBIN = 256;
static uint32_t bins[NBIN];  // free blocks by (size+15)/16 for immediate reuse

static void set_state(uintptr_t a, size_t n, uint8_t st, uint32_t id) {
  Granule* g = granule(a);
  size_t k = (n + 7) / 8;
  for (size_t i = 0; i < k; ++i) {
    g[i].state = st;
    g[i].alloc = id;
    g[i].tail = (i + 1 == k && (n & 7)) ? (n & 7) : 0;
  }
}

static void* sim_alloc(size_t size, size_t align, uint8_t kind, uint64_t pc) {
  Thr* me = self_;
  if ((me->alloc_armed || me->alloc_next) && !me->nofault) {
    if (decide_alloc(me)) {
      me->alloc_fired++;
      return nullptr;
    }
  }
  if (size > (size_t)1 << 40)
    return nullptr;  // no machine has that
  if (align < 16)
    align = 16;
  size_t sz = size ? size : 1;
  uint32_t id = 0;
  size_t bin = (sz + 15) / 16;
  VC from;
  bool reused = false;
  if (reuse_heap && align == 16 && bin < NBIN && bins[bin]) {
    id = bins[bin];
    bins[bin] = allocs[id].next_free;
    reused = true;
  }
  uintptr_t a;
  if (id) {
    a = allocs[id].addr;
  } else {
    a = (arena_top + 16 + align - 1) & ~(align - 1);
    size_t cap = (sz + 15) / 16 * 16;
    if (a + cap + 16 > ARENA + ARENA_SZ)
      runaway("memory");
    arena_top = a + cap;
    if (nallocs + 1 >= MAXALLOC)
      runaway("allocations");
    id = ++nallocs;
  }
  (void)from;
  Alloc& al = allocs[id];
  uint8_t oldfree = al.free_tid;
  al.addr = a;
  al.size = size;
  al.align = align;
  al.kind = kind;
  al.live = true;
  al.ignore = false;
  al.tid = me->id;
  al.pc = (uint32_t)pc;
  (void)oldfree;
  Granule* g = granule(a);
  size_t ng = (sz + 7) / 8;
  if (reused) {
    // the allocator orders the previous free before this allocation
    for (size_t i = 0; i < ng; ++i)
      for (int k = 0; k < 4; ++k) {
        Slot& s = g[i].s[k];
        if ((s.flags & SF) && me->vc.c[s.tid] < s.epoch)
          me->vc.c[s.tid] = s.epoch;  // only the freeing thread's own past
      }
  }
  for (size_t i = 0; i < ng; ++i) {
    memset(g[i].s, 0, sizeof g[i].s);
    g[i].s[0] = Slot{me->vc.c[me->id], (uint8_t)me->id, 0xff, SV | SW, 0, (uint32_t)pc};
    if (g[i].loc || g[i].sync)
      drop_objects(&g[i]);
  }
  set_state(a, sz, M_LIVE, id);
  memset((void*)a, fill_new, sz);
  live_b += size;
  live_n++;
  hash_mix(R->hash, a ^ size);
  return (void*)a;
}

static void sim_free(void* p, size_t size, bool sized, size_t align, uint8_t kind, uint64_t pc) {
  if (!p)
    return;
  uintptr_t a = (uintptr_t)p;
  Granule* g = granule(a);
  uint32_t id = g->alloc;
  if (!id || allocs[id].addr != a)
    rfail("bad-free", "delete of an address that is not the start of a block: %llx", (unsigned long long)a);
  Alloc& al = allocs[id];
  if (!al.live) {
    R->pc_other = al.free_pc;
    R->pc_other2 = al.pc;
    rfail("double-free", "block of %zu bytes is freed twice (first by T%d)", al.size, al.free_tid);
  }
  if (sized && size != al.size) {
    R->pc_other = al.pc;
    rfail("bad-free", "block of %zu bytes is freed with size %zu", al.size, size);
  }
  if (kind != al.kind) {
    R->pc_other = al.pc;
    rfail("bad-free", "new/delete mismatch (array versus object) for a block of %zu bytes", al.size);
  }
  if (align && align > 16 && al.align < align)
    rfail("bad-free", "alignment mismatch in delete");
  size_t sz = al.size ? al.size : 1;
  if (self_ && !self_->quiet)
    access(a, sz, SW | SF, pc);
  size_t ng = (sz + 7) / 8;
  for (size_t i = 0; i < ng; ++i) {
    if (g[i].loc || g[i].sync)
      drop_objects(&g[i]);
    uint32_t t = self_ ? self_->id : 0;
    if (!(g[i].s[0].flags & SF)) {
      g[i].s[0] = Slot{thr[t].vc.c[t], (uint8_t)t, 0xff, SV | SW | SF, 0, (uint32_t)pc};
    }
  }
  al.live = false;
  al.free_tid = self_ ? self_->id : 0;
  al.free_pc = (uint32_t)pc;
  set_state(a, sz, M_FREED, id);
  memset(p, 0xDD, sz);
  live_b -= al.size;
  live_n--;
  hash_mix(R->hash, a);
  if (reuse_heap && al.align == 16 && (sz + 15) / 16 < NBIN) {
    // blocks of one bin have the same capacity
    al.next_free = bins[(sz + 15) / 16];
    bins[(sz + 15) / 16] = id;
  }
}

// ------------------------------------------------------------------ failure
struct UwState {
  int n;
};
static _Unwind_Reason_Code uw_cb(_Unwind_Context* c, void* p) {
  UwState* s = (UwState*)p;
  if (s->n >= MAXPC)
    return _URC_END_OF_STACK;
  R->pcs[s->n++] = _Unwind_GetIP(c);
  return _URC_NO_REASON;
}
static bool failing;
static void note_use() {
  R->used[0] = (uint32_t)((arena_top - ARENA) >> 10);
  R->used[1] = nallocs;
  R->used[2] = nlocs;
  R->used[3] = nsyncs;
  R->used[4] = R->ndecs;
}
static void finish(int status) {
  R->status = status;
  R->steps = (uint32_t)steps;
  R->simtime_ns = now_ns;
  R->nthreads = g_nthr;
  note_use();
  _exit(0);
}
static void vfail(const char* cls, const char* fmt, va_list ap) {
  if (failing)
    finish(2);
  failing = true;
  if (self_)
    self_->quiet++;
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  note(0xdead);
  trace("VIOLATION %s: %s", R->cls, R->msg);
  UwState s{0};
  _Unwind_Backtrace(uw_cb, &s);
  R->npcs = s.n;
  finish(2);
}
static void rfail(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(cls, fmt, ap);
}
// limits far beyond what any workload needs
static void runaway(const char* what) {
  rfail("runaway", "T%d uses %s without bound", self_ ? self_->id : -1, what);
  __builtin_unreachable();
}
static void infra(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  snprintf(R->cls, sizeof R->cls, "infrastructure");
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  finish(3);
}

static void on_signal(int sig, siginfo_t* si, void*) {
  if (failing)
    _exit(0);
  failing = true;
  if (self_)
    self_->quiet++;
  snprintf(R->cls, sizeof R->cls, "%s", sig == SIGXCPU ? "hang" : "crash");
  snprintf(R->msg, sizeof R->msg, "signal %d (%s) address %llx in T%d", sig, strsignal(sig),
           sig == SIGSEGV || sig == SIGBUS ? (unsigned long long)(uintptr_t)si->si_addr : 0ull, self_ ? self_->id : -1);
  trace("VIOLATION %s: %s", R->cls, R->msg);
  UwState s{0};
  _Unwind_Backtrace(uw_cb, &s);
  R->npcs = s.n;
  finish(2);
}
static void on_alarm(int, siginfo_t*, void*) {
  infra("real-time watchdog expired after %llu steps", (unsigned long long)steps);
}
static void (*terminate_oracle)();
static void on_terminate() {
  if (terminate_oracle && !failing) {
    if (self_)
      self_->quiet++;
    trace("std::terminate, as expected");
    note(0x7e12);
    terminate_oracle();
    finish(1);
  }
  std::type_info* ti = abi::__cxa_current_exception_type();
  const char* nm = ti ? ti->name() : "none";
  rfail("terminate", "std::terminate called in T%d (current exception: %s)", self_ ? self_->id : -1, nm);
}

// ------------------------------------------------------------------ real functions
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static pthread_t (*real_pthread_self)();
static int (*real_thread_atexit)(void (*)(void*), void*, void*);
static int (*real_pthread_detach)(pthread_t);
static int (*real_mutex_lock)(pthread_mutex_t*);
static int (*real_mutex_trylock)(pthread_mutex_t*);
static int (*real_mutex_unlock)(pthread_mutex_t*);
static int (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
static int (*real_cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
static int (*real_cond_signal)(pthread_cond_t*);
static int (*real_cond_broadcast)(pthread_cond_t*);
static int (*real_cond_destroy)(pthread_cond_t*);
static int (*real_sched_yield)();
static int (*real_nanosleep)(const timespec*, timespec*);
static int (*real_clock_nanosleep)(clockid_t, int, const timespec*, timespec*);
static int (*real_clock_gettime)(clockid_t, timespec*);
static int (*real_gettimeofday)(timeval*, void*);
static int (*real_rw_rd)(pthread_rwlock_t*);
static int (*real_rw_wr)(pthread_rwlock_t*);
static int (*real_rw_tryrd)(pthread_rwlock_t*);
static int (*real_rw_trywr)(pthread_rwlock_t*);
static int (*real_rw_un)(pthread_rwlock_t*);
static int (*real_once)(pthread_once_t*, void (*)());
static int (*real_guard_acquire)(long long*);
static void (*real_guard_release)(long long*);
static void (*real_guard_abort)(long long*);

template <typename F>
static void res(F& f, const char* n) {
  f = (F)dlsym(RTLD_NEXT, n);
}
static bool resolved;
static void resolve() {
  if (resolved)
    return;
  resolved = true;
  res(real_pthread_create, "pthread_create");
  res(real_pthread_join, "pthread_join");
  res(real_pthread_self, "pthread_self");
  res(real_thread_atexit, "__cxa_thread_atexit");
  res(real_pthread_detach, "pthread_detach");
  res(real_mutex_lock, "pthread_mutex_lock");
  res(real_mutex_trylock, "pthread_mutex_trylock");
  res(real_mutex_unlock, "pthread_mutex_unlock");
  res(real_cond_wait, "pthread_cond_wait");
  res(real_cond_timedwait, "pthread_cond_timedwait");
  res(real_cond_clockwait, "pthread_cond_clockwait");
  res(real_cond_signal, "pthread_cond_signal");
  res(real_cond_broadcast, "pthread_cond_broadcast");
  res(real_cond_destroy, "pthread_cond_destroy");
  res(real_sched_yield, "sched_yield");
  res(real_nanosleep, "nanosleep");
  res(real_clock_nanosleep, "clock_nanosleep");
  res(real_clock_gettime, "clock_gettime");
  res(real_gettimeofday, "gettimeofday");
  res(real_rw_rd, "pthread_rwlock_rdlock");
  res(real_rw_wr, "pthread_rwlock_wrlock");
  res(real_rw_tryrd, "pthread_rwlock_tryrdlock");
  res(real_rw_trywr, "pthread_rwlock_trywrlock");
  res(real_rw_un, "pthread_rwlock_unlock");
  res(real_once, "pthread_once");
  res(real_guard_acquire, "__cxa_guard_acquire");
  res(real_guard_release, "__cxa_guard_release");
  res(real_guard_abort, "__cxa_guard_abort");
}

// ------------------------------------------------------------------ sync objects
static Sync* get_sync(void* p, uint8_t kind) {
  uintptr_t a = (uintptr_t)p;
  Granule* g = granule(a);
  if (!g)
    return nullptr;
  for (uint16_t i = g->sync; i; i = syncs[i].next)
    if (syncs[i].addr == a && syncs[i].kind == kind)
      return &syncs[i];
  uint32_t i;
  if (sync_free) {
    i = sync_free;
    sync_free = syncs[i].next;
  } else {
    if (nsyncs + 1 >= MAXSYNC)
      runaway("mutexes and condition variables");
    i = ++nsyncs;
  }
  Sync& s = syncs[i];
  memset(&s, 0, sizeof s);
  s.addr = a;
  s.kind = kind;
  s.owner = -1;
  s.next = g->sync;
  g->sync = i;
  if (kind == 1)
    s.mtype = ((pthread_mutex_t*)p)->__data.__kind & 3;
  return &s;
}
static bool sim_obj(const void* p) {
  return active() && granule((uintptr_t)p);
}

enum { O_LOCK = 1, O_TRY, O_UNLOCK, O_WAIT, O_SIGNAL, O_BCAST, O_CREATE, O_JOIN, O_EXIT, O_YIELD, O_AWAIT, O_ANOTIFY, O_START, O_LOAD, O_STORE, O_RMW, O_CAS, O_FENCE, O_SLEEP, O_USER, O_AFTER, O_RW, O_GUARD };

static void wake_mutex_waiters(uintptr_t addr) {
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_MUTEX && thr[i].obj == (void*)addr)
      thr[i].st = T_RUN;
}
static void mutex_acquire(pthread_mutex_t* m, uint64_t pc) {
  Thr* me = self_;
  for (;;) {
    access((uintptr_t)m, 8, SA | SW, pc);
    Sync* s = get_sync(m, 1);
    if (s->owner < 0) {
      s->owner = me->id;
      s->count = 1;
      vc_join(me->vc, s->rel);
      return;
    }
    if (s->owner == me->id) {
      if (s->mtype == PTHREAD_MUTEX_RECURSIVE_NP) {
        s->count++;
        return;
      }
      rfail("deadlock", "T%d locks a mutex it already holds", me->id);
    }
    me->obj_pc = pc;
    block(T_MUTEX, m);
  }
}
static void mutex_release(pthread_mutex_t* m, uint64_t pc) {
  Thr* me = self_;
  access((uintptr_t)m, 8, SA | SW, pc);
  Sync* s = get_sync(m, 1);
  if (s->owner != me->id)
    rfail("bad-unlock", "T%d unlocks a mutex it does not hold (owner %d)", me->id, s->owner);
  if (--s->count)
    return;
  s->owner = -1;
  vc_join(s->rel, me->vc);
  me->vc.c[me->id]++;
  wake_mutex_waiters((uintptr_t)m);
}

static void after_point() {
  yield_point(O_AFTER);
}

static uint64_t abs_to_sim(clockid_t, const timespec* ts) {
  // simulated clocks all show BASE + now_ns
  return 0;
}
constexpr uint64_t BASE_NS = 1700000000ull * 1000000000ull;
static uint64_t ts_to_sim(const timespec* ts) {
  uint64_t abs = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  (void)abs_to_sim;
  return abs > BASE_NS ? abs - BASE_NS : 1;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, uint64_t pc) {
  Thr* me = self_;
  yield_point(O_WAIT);
  access((uintptr_t)c, 8, SA | SW, pc);
  get_sync(c, 2);
  me->deadline = deadline;
  me->timed_out = false;
  // atomically: release the mutex and start waiting
  me->st = T_COND;
  mutex_release(m, pc);
  me->obj_pc = pc;
  block(T_COND, c);
  me->deadline = 0;
  bool to = me->timed_out;
  me->timed_out = false;
  mutex_acquire(m, pc);
  return to ? ETIMEDOUT : 0;
}
static void cond_notify(pthread_cond_t* c, bool all, uint64_t pc) {
  access((uintptr_t)c, 8, SA | SW, pc);
  get_sync(c, 2);
  Thr* w[MAXT];
  int n = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_COND && thr[i].obj == (void*)c)
      w[n++] = &thr[i];
  for (int i = 1; i < n; ++i)  // by arrival
    for (int j = i; j > 0 && w[j - 1]->wait_seq > w[j]->wait_seq; --j) {
      Thr* t = w[j];
      w[j] = w[j - 1];
      w[j - 1] = t;
    }
  if (!n)
    return;
  if (all) {
    for (int i = 0; i < n; ++i)
      w[i]->st = T_RUN;
  } else
    w[decide(K_CONDPICK, n)]->st = T_RUN;
}

// ------------------------------------------------------------------ threads
static void leak_check();
static void thread_end(Thr* me) {
  ++steps;
  check_limits();
  hash_mix(R->hash, (uint64_t)me->id << 32 | O_EXIT);
  hash_mix(R->shape, (uint64_t)me->id << 8 | O_EXIT);
  trace("thread exits");
  me->st = T_DONE;
  me->vc.c[me->id]++;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_JOIN && thr[i].obj == me)
      thr[i].st = T_RUN;
  bool any = false;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st != T_DONE)
      any = true;
  if (!any) {
    leak_check();
    finish(1);
  }
  switch_to(me, pick(me, false));
  infra("a finished thread was resumed");
}
extern "C" void sim_fiber_main() noexcept {
  Thr* me = self_;
  hash_mix(R->hash, (uint64_t)me->id << 32 | O_START);
  me->ret = me->fn(me->arg);
  while (me->natexit) {
    --me->natexit;
    me->atexit_[me->natexit].f(me->atexit_[me->natexit].a);
  }
  thread_end(me);
}

static Thr* new_thr(void* (*fn)(void*), void* arg) {
  if (g_nthr >= MAXT)
    finish(4);
  Thr* t = &thr[g_nthr];
  memset(t, 0, sizeof *t);
  t->id = g_nthr++;
  t->fn = fn;
  t->arg = arg;
  t->st = T_RUN;
  t->pri = 1000 + (in.replay ? 0 : (int)rng_dec.below(1000));
  char* top = (char*)(STACKS + STACK_SZ * (t->id + 1)) - 256;
  t->real = (pthread_t)(top + 128);
  t->tls = tls_images + t->id * ((tls_size + 63) & ~63ull);
  memset(t->tls, 0, tls_size);
  memcpy(t->tls, tls_init, tls_init_size);
  void** sp = (void**)top;
  *--sp = nullptr;                     // end of the stack for unwinders
  *--sp = nullptr;
  *--sp = (void*)&sim_fiber_entry;
  sp -= 6;                             // rbp rbx r12-r15 = 0
  for (int i = 0; i < 6; ++i)
    sp[i] = nullptr;
  --sp;
  uint32_t mx;
  uint16_t cw;
  asm volatile("stmxcsr %0\n\tfnstcw %1" : "=m"(mx), "=m"(cw));
  *(uint64_t*)sp = mx | (uint64_t)cw << 32;
  t->sp = sp;
  return t;
}
static Thr* find_thr(pthread_t p) {
  for (int i = 0; i < g_nthr; ++i)
    if (pthread_equal(thr[i].real, p))
      return &thr[i];
  return nullptr;
}

static void leak_check() {
  if (!live_n)
    return;
  uint32_t n = 0;
  uint64_t bytes = 0;
  uint32_t first = 0;
  for (uint32_t i = 1; i <= nallocs; ++i)
    if (allocs[i].live && !allocs[i].ignore) {
      ++n;
      bytes += allocs[i].size;
      if (!first)
        first = i;
    }
  if (!n)
    return;
  R->pc_other = allocs[first].pc;
  rfail("leak", "%u blocks (%llu bytes) are never freed; first: %zu bytes allocated by T%d", n,
        (unsigned long long)bytes, allocs[first].size, allocs[first].tid);
}

// ------------------------------------------------------------------ run
constexpr int MAXSCEN = 256;
static const sim::Scenario* scen[MAXSCEN];
static int nscen;
int scenario_count() {
  return nscen;
}
const sim::Scenario& scenario(int i) {
  return *scen[i];
}

static const sim::Scenario* cur_scen;
static void* root_fn(void*) {
  // first draws: address skew and heap mode (they vary hashes of addresses and allow address reuse)
  uint32_t skew = sim::draw(64);
  reuse_heap = sim::draw(3) == 2;
  static const uint8_t fills[3] = {0xCD, 0x00, 0xFF};
  fill_new = fills[sim::draw(3)];
  arena_top = ARENA + 4096 + skew * 48;
  hw_conc = 1 + sim::draw(4);
  cur_scen->fn();
  return nullptr;
}

void global_init() {
  resolve();
  auto mapfix = [](uintptr_t at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)at) {
      fprintf(stderr, "cannot map region %llx\n", (unsigned long long)at);
      exit(2);
    }
  };
  mapfix(ARENA, ARENA_SZ);
  mapfix(STACKS, STACKS_SZ);
  for (int i = 0; i < MAXT; ++i)
    mprotect((void*)(STACKS + STACK_SZ * i), GUARD, PROT_NONE);
  auto mapany = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(2);
    }
    return p;
  };
  sh_arena = (Granule*)mapany(ARENA_SZ / 8 * sizeof(Granule));
  sh_stack = (Granule*)mapany(STACKS_SZ / 8 * sizeof(Granule));
  glob_lo = (uintptr_t)&__data_start & ~15ull;
  glob_hi = ((uintptr_t)&_end + 15) & ~15ull;
  sh_glob = (Granule*)mapany((glob_hi - glob_lo) / 8 * sizeof(Granule));
  locs = (Loc*)mapany(MAXLOC * sizeof(Loc));
  syncs = (Sync*)mapany(MAXSYNC * sizeof(Sync));
  allocs = (Alloc*)mapany(MAXALLOC * sizeof(Alloc));
  dl_iterate_phdr(find_tls, nullptr);
  tls_images = (char*)mapany(MAXT * ((tls_size + 63) & ~63ull) + 4096);
}

static void configure() {
  rng_draw.seed(in.seed * 3 + 1);
  rng_dec.seed(in.seed * 3 + 2);
  rng_cfg.seed(in.seed * 3 + 3);
  for (double& p : p_kind)
    p = 0;
  if (in.replay) {
    strat = 3;
    for (int k = 0; k < NKINDS; ++k) {
      uint32_t i = 0;
      while (i < in.ndecs && in.decs[i].kind < k)
        ++i;
      kind_at[k] = i;
      while (i < in.ndecs && in.decs[i].kind == k)
        ++i;
      kind_end[k] = i;
    }
    return;
  }
  double u = rng_cfg.unit();
  static const double ps[] = {0.5, 0.25, 0.125, 0.05, 0.02};
  p_switch = ps[rng_cfg.below(5)];
  if (u < 0.45)
    strat = 0;
  else if (u < 0.80)
    strat = 1;
  else if (u < 0.93)
    strat = 2;
  else
    strat = 3;
  uint32_t len = 40u << rng_cfg.below(6);
  pct_n = rng_cfg.below(6);
  for (int i = 0; i < pct_n; ++i)
    pct_at[i] = rng_cfg.below(len);
  pct_low = 0;
  victim = rng_cfg.below(6);
  starve_a = rng_cfg.below(len);
  starve_b = starve_a + 20 + rng_cfg.below(len * 2);
  auto on = [&](uint32_t of) { return rng_cfg.below(of) == 0; };
  p_kind[K_CONDPICK] = on(2) ? 0.5 : 0;
  p_kind[K_SPUR] = on(3) ? (on(2) ? 0.05 : 0.01) : 0;
  p_kind[K_CASFAIL] = on(3) ? (on(2) ? 0.3 : 0.08) : 0;
  p_kind[K_STALE] = on(2) ? (on(2) ? 0.5 : 0.15) : 0;
  p_kind[K_STALL] = on(4) ? 0.01 : 0;
  static const double pa[] = {0.02, 0.06, 0.15, 0.35};
  p_kind[K_ALLOC] = on(2) ? pa[rng_cfg.below(4)] : 0;
  p_kind[K_THREAD] = on(2) ? pa[1 + rng_cfg.below(3)] : 0;
}

void run_child(const sim::Scenario& sc, const RunInput& ri, Result* out) {
  R = out;
  in = ri;
  cur_scen = &sc;
  configure();
  R->hash = 0x1234567;
  R->shape = 0x7654321;
  static char altstack[65536];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGXCPU})
    sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  struct rlimit rl {
    8, 12
  };
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  __libc_single_threaded = 0;  // libstdc++ picks atomic reference counts by this; simulated threads are no threads to libc
  Thr* t = new_thr(root_fn, nullptr);
  t->vc.c[0] = 1;
  run_active = true;
  // watchdog in real time (an uninstrumented block would stop everything)
  sa.sa_sigaction = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  alarm(60);
  static void* driver_sp;
  load_context(t);
  sim_switch(&driver_sp, t->sp);
  infra("the simulation ended without a result");
}

// ------------------------------------------------------------------ atomics
template <typename T>
static inline uint64_t to_u64(T v) {
  uint64_t r = 0;
  memcpy(&r, &v, sizeof(T));
  return r;
}
template <typename T>
static inline T from_u64(uint64_t r) {
  T v;
  memcpy(&v, &r, sizeof(T));
  return v;
}

template <typename T>
static T a_load(const volatile T* p, int mo, uint64_t pc) {
  if (!active())
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  Thr* me = self_;
  yield_point(O_LOAD);
  access((uintptr_t)p, sizeof(T), SA, pc);
  Loc* l = get_loc((uintptr_t)p, sizeof(T));
  if (!l)
    return *p;
  uint32_t latest = l->n - 1;
  uint32_t oldest = l->n > NH ? l->n - NH : 0;
  // plain initialisation may have changed the value behind our back only through drop_objects
  uint32_t floor = oldest;
  if (!l->mixed && mo != __ATOMIC_SEQ_CST && latest > oldest) {
    for (uint32_t i = latest + 1; i-- > oldest;) {
      Store& s = l->h[i % NH];
      bool vis = s.tid == 255 ? false : (s.tid == me->id || me->vc.c[s.tid] >= s.epoch);
      if (!vis && s.time <= me->sc_floor && s.time)
        vis = true;
      for (int u = 0; !vis && u < g_nthr; ++u) {
        uint32_t e = l->seen[u][i % NH];
        if (e && (u == me->id || me->vc.c[u] >= e))
          vis = true;
      }
      if (vis) {
        floor = i;
        break;
      }
    }
  } else
    floor = latest;
  uint32_t idx = latest;
  if (floor < latest && l->stale_run < 6) {
    idx = latest - decide(K_STALE, latest - floor + 1);
    if (idx != latest) {
      l->stale_run++;
      trace("load at %llx returns a value %u stores old", (unsigned long long)(uintptr_t)p, latest - idx);
    } else
      l->stale_run = 0;
  }
  Store& s = l->h[idx % NH];
  acquire_store(l, me, s, mo);
  mark_seen(l, me, idx);
  T v = idx == latest ? *p : from_u64<T>(s.val);
  note(to_u64(v) & 0xff);
  trace("load%zu %llx -> %llx", sizeof(T), (unsigned long long)(uintptr_t)p, (unsigned long long)to_u64(v));
  return v;
}
template <typename T>
static void a_store(volatile T* p, T v, int mo, uint64_t pc) {
  if (!active()) {
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    return;
  }
  yield_point(O_STORE);
  access((uintptr_t)p, sizeof(T), SA | SW, pc);
  Loc* l = get_loc((uintptr_t)p, sizeof(T));
  *p = v;
  if (l)
    push_store(l, self_, to_u64(v), mo, false);
  trace("store%zu %llx <- %llx", sizeof(T), (unsigned long long)(uintptr_t)p, (unsigned long long)to_u64(v));
  after_point();
}
template <typename T, typename F>
static T a_rmw(volatile T* p, int mo, uint64_t pc, F f) {
  if (!active()) {
    T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    for (;;) {
      T nv = f(o);
      if (__atomic_compare_exchange_n(p, &o, nv, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        return o;
    }
  }
  Thr* me = self_;
  yield_point(O_RMW);
  access((uintptr_t)p, sizeof(T), SA | SW, pc);
  Loc* l = get_loc((uintptr_t)p, sizeof(T));
  T o = *p;
  T nv = f(o);
  if (l) {
    acquire_store(l, me, l->h[(l->n - 1) % NH], mo);
    mark_seen(l, me, l->n - 1);
  }
  *p = nv;
  if (l)
    push_store(l, me, to_u64(nv), mo, true);
  trace("rmw%zu %llx %llx -> %llx", sizeof(T), (unsigned long long)(uintptr_t)p, (unsigned long long)to_u64(o),
        (unsigned long long)to_u64(nv));
  after_point();
  return o;
}
template <typename T>
static bool a_cas(volatile T* p, T* expected, T v, int mo, int fmo, bool weak, uint64_t pc) {
  if (!active())
    return __atomic_compare_exchange_n(p, expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  Thr* me = self_;
  yield_point(O_CAS);
  T o = *p;
  bool ok = o == *expected;
  if (ok && weak && decide(K_CASFAIL, 2))
    ok = false;
  access((uintptr_t)p, sizeof(T), ok ? SA | SW : SA, pc);
  Loc* l = get_loc((uintptr_t)p, sizeof(T));
  if (l) {
    acquire_store(l, me, l->h[(l->n - 1) % NH], ok ? mo : fmo);
    mark_seen(l, me, l->n - 1);
  }
  trace("cas%zu %llx %llx: expected %llx new %llx %s", sizeof(T), (unsigned long long)(uintptr_t)p,
        (unsigned long long)to_u64(o), (unsigned long long)to_u64(*expected), (unsigned long long)to_u64(v),
        ok ? "ok" : "failed");
  note(ok);
  if (ok) {
    *p = v;
    if (l)
      push_store(l, me, to_u64(v), mo, true);
    after_point();
    return true;
  }
  // the compiler's code stores 'expected' itself for builtins; libtsan's contract is to store here
  *expected = o;
  return false;
}
static void a_fence(int mo) {
  if (!active())
    return;
  Thr* me = self_;
  yield_point(O_FENCE);
  if (is_acq(mo))
    vc_join(me->vc, me->fence_acq);
  if (is_rel(mo)) {
    me->fence_rel = me->vc;
    me->has_frel = true;
    me->vc.c[me->id]++;
  }
  if (mo == __ATOMIC_SEQ_CST)
    me->sc_floor = store_time;
}

}  // namespace rt

using namespace rt;

// ==================================================================== instrumentation entry points
extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
#define ACC(p, n, f)                          \
  do {                                        \
    if (LIKELY(self_ && !self_->quiet))       \
      access((uintptr_t)(p), (n), (f), CALLER); \
  } while (0)
#define DEF_ACC(n)                                \
  void __tsan_read##n(void* p) { ACC(p, n, 0); }   \
  void __tsan_write##n(void* p) { ACC(p, n, SW); } \
  void __tsan_unaligned_read##n(void* p) { ACC(p, n, 0); } \
  void __tsan_unaligned_write##n(void* p) { ACC(p, n, SW); } \
  void __tsan_volatile_read##n(void* p) { ACC(p, n, 0); } \
  void __tsan_volatile_write##n(void* p) { ACC(p, n, SW); } \
  void __tsan_unaligned_volatile_read##n(void* p) { ACC(p, n, 0); } \
  void __tsan_unaligned_volatile_write##n(void* p) { ACC(p, n, SW); }
DEF_ACC(1)
DEF_ACC(2)
DEF_ACC(4)
DEF_ACC(8)
DEF_ACC(16)
void __tsan_read_range(void* p, long n) {
  ACC(p, n, 0);
}
void __tsan_write_range(void* p, long n) {
  ACC(p, n, SW);
}
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v)
    ACC(p, 8, SW);
}
void __tsan_vptr_read(void** p) {
  ACC(p, 8, 0);
}

#define DEF_ATOMIC(bits, T)                                                                                        \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, CALLER); }                     \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, CALLER); }                     \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                                     \
    return a_rmw<T>(a, mo, CALLER, [v](T) { return v; });                                                            \
  }                                                                                                                \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                                    \
    return a_rmw<T>(a, mo, CALLER, [v](T o) { return (T)(o + v); });                                                 \
  }                                                                                                                \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                                    \
    return a_rmw<T>(a, mo, CALLER, [v](T o) { return (T)(o - v); });                                                 \
  }                                                                                                                \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                                    \
    return a_rmw<T>(a, mo, CALLER, [v](T o) { return (T)(o & v); });                                                 \
  }                                                                                                                \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                                     \
    return a_rmw<T>(a, mo, CALLER, [v](T o) { return (T)(o | v); });                                                 \
  }                                                                                                                \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                                    \
    return a_rmw<T>(a, mo, CALLER, [v](T o) { return (T)(o ^ v); });                                                 \
  }                                                                                                                \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                                   \
    return a_rmw<T>(a, mo, CALLER, [v](T o) { return (T) ~(o & v); });                                               \
  }                                                                                                                \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                     \
    return a_cas<T>(a, c, v, mo, fmo, false, CALLER);                                                                \
  }                                                                                                                \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                       \
    return a_cas<T>(a, c, v, mo, fmo, true, CALLER);                                                                 \
  }                                                                                                                \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                           \
    a_cas<T>(a, &c, v, mo, fmo, false, CALLER);                                                                      \
    return c;                                                                                                      \
  }
DEF_ATOMIC(8, uint8_t)
DEF_ATOMIC(16, uint16_t)
DEF_ATOMIC(32, uint32_t)
DEF_ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  a_fence(mo);
}
void __tsan_atomic_signal_fence(int) {
}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  ACC(s, n, 0);
  ACC(d, n, SW);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  ACC(s, n, 0);
  ACC(d, n, SW);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  ACC(d, n, SW);
  return __real_memset(d, c, n);
}

// ==================================================================== pthread interposition
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  resolve();
  if (!self_)
    return real_pthread_create(out, at, fn, arg);
  Thr* me = self_;
  if (me->quiet)
    infra("thread created in quiet code");
  yield_point(O_CREATE);
  if (me->thr_armed && !me->nofault && decide(K_THREAD, 2)) {
    me->thr_fired++;
    return EAGAIN;
  }
  Thr* t = new_thr(fn, arg);
  me->vc.c[me->id]++;
  t->vc = me->vc;
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  t->quiet = 0;
  if (at) {
    int st = 0;
    pthread_attr_getdetachstate(at, &st);
    t->detached = st == PTHREAD_CREATE_DETACHED;
  }
  *out = t->real;
  trace("creates T%d", t->id);
  after_point();
  return 0;
}
pthread_t pthread_self() noexcept {
  if (self_)
    return self_->real;
  resolve();
  return real_pthread_self();
}
int __cxa_thread_atexit(void (*f)(void*), void* a, void* dso) noexcept {
  if (!self_) {
    resolve();
    return real_thread_atexit(f, a, dso);
  }
  if (self_->natexit >= 8)
    infra("too many thread-local destructors");
  self_->atexit_[self_->natexit++] = {f, a};
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  resolve();
  if (!self_)
    return real_pthread_join(p, ret);
  Thr* me = self_;
  yield_point(O_JOIN);
  Thr* t = find_thr(p);
  if (!t || t->joined || t->detached)
    rfail("bad-join", "T%d joins a thread that is not joinable", me->id);
  if (t == me)
    return EDEADLK;
  while (t->st != T_DONE)
    block(T_JOIN, t);
  t->joined = true;
  vc_join(me->vc, t->vc);
  if (ret)
    *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  resolve();
  if (!self_)
    return real_pthread_detach(p);
  Thr* t = find_thr(p);
  if (!t || t->joined || t->detached)
    rfail("bad-join", "detach of a thread that is not joinable");
  t->detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!sim_obj(m)) {
    resolve();
    return real_mutex_lock(m);
  }
  yield_point(O_LOCK);
  mutex_acquire(m, CALLER);
  trace("lock %llx", (unsigned long long)(uintptr_t)m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!sim_obj(m)) {
    resolve();
    return real_mutex_trylock(m);
  }
  yield_point(O_TRY);
  access((uintptr_t)m, 8, SA | SW, CALLER);
  Sync* s = get_sync(m, 1);
  if (s->owner >= 0 && !(s->owner == self_->id && s->mtype == PTHREAD_MUTEX_RECURSIVE_NP))
    return EBUSY;
  s->owner = self_->id;
  s->count++;
  vc_join(self_->vc, s->rel);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!sim_obj(m)) {
    resolve();
    return real_mutex_unlock(m);
  }
  yield_point(O_UNLOCK);
  trace("unlock %llx", (unsigned long long)(uintptr_t)m);
  mutex_release(m, CALLER);
  after_point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!sim_obj(c)) {
    resolve();
    return real_cond_wait(c, m);
  }
  return rt::cond_wait(c, m, 0, CALLER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!sim_obj(c)) {
    resolve();
    return real_cond_timedwait(c, m, ts);
  }
  return rt::cond_wait(c, m, ts_to_sim(ts), CALLER);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
  if (!sim_obj(c)) {
    resolve();
    return real_cond_clockwait(c, m, k, ts);
  }
  return rt::cond_wait(c, m, ts_to_sim(ts), CALLER);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!sim_obj(c)) {
    resolve();
    return real_cond_signal(c);
  }
  yield_point(O_SIGNAL);
  trace("notify_one %llx", (unsigned long long)(uintptr_t)c);
  cond_notify(c, false, CALLER);
  after_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!sim_obj(c)) {
    resolve();
    return real_cond_broadcast(c);
  }
  yield_point(O_BCAST);
  cond_notify(c, true, CALLER);
  after_point();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!sim_obj(c)) {
    resolve();
    return real_cond_destroy(c);
  }
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_COND && thr[i].obj == (void*)c)
      rfail("destroyed-in-use", "condition variable destroyed while T%d waits on it", i);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!sim_obj(l)) {
    resolve();
    return real_rw_rd(l);
  }
  yield_point(O_RW);
  for (;;) {
    access((uintptr_t)l, 8, SA | SW, CALLER);
    Sync* s = get_sync(l, 3);
    if (s->owner < 0) {
      s->readers++;
      vc_join(self_->vc, s->rel);
      return 0;
    }
    block(T_RW, l);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!sim_obj(l)) {
    resolve();
    return real_rw_wr(l);
  }
  yield_point(O_RW);
  for (;;) {
    access((uintptr_t)l, 8, SA | SW, CALLER);
    Sync* s = get_sync(l, 3);
    if (s->owner < 0 && !s->readers) {
      s->owner = self_->id;
      vc_join(self_->vc, s->rel);
      return 0;
    }
    block(T_RW, l);
  }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!sim_obj(l)) {
    resolve();
    return real_rw_tryrd(l);
  }
  yield_point(O_RW);
  access((uintptr_t)l, 8, SA | SW, CALLER);
  Sync* s = get_sync(l, 3);
  if (s->owner >= 0)
    return EBUSY;
  s->readers++;
  vc_join(self_->vc, s->rel);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!sim_obj(l)) {
    resolve();
    return real_rw_trywr(l);
  }
  yield_point(O_RW);
  access((uintptr_t)l, 8, SA | SW, CALLER);
  Sync* s = get_sync(l, 3);
  if (s->owner >= 0 || s->readers)
    return EBUSY;
  s->owner = self_->id;
  vc_join(self_->vc, s->rel);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!sim_obj(l)) {
    resolve();
    return real_rw_un(l);
  }
  yield_point(O_RW);
  access((uintptr_t)l, 8, SA | SW, CALLER);
  Sync* s = get_sync(l, 3);
  if (s->owner == self_->id)
    s->owner = -1;
  else if (s->readers > 0)
    s->readers--;
  else
    rfail("bad-unlock", "rwlock unlocked while not held");
  vc_join(s->rel, self_->vc);
  self_->vc.c[self_->id]++;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_RW && thr[i].obj == (void*)l)
      thr[i].st = T_RUN;
  after_point();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!sim_obj(o)) {
    resolve();
    return real_once(o, f);
  }
  yield_point(O_GUARD);
  for (;;) {
    Sync* s = get_sync(o, 5);
    if (s->count == 2) {
      vc_join(self_->vc, s->rel);
      return 0;
    }
    if (s->count == 0) {
      s->count = 1;
      try {
        f();
      } catch (...) {
        s = get_sync(o, 5);
        s->count = 0;
        for (int i = 0; i < g_nthr; ++i)
          if (thr[i].st == T_GUARD && thr[i].obj == (void*)o)
            thr[i].st = T_RUN;
        throw;
      }
      s = get_sync(o, 5);
      s->count = 2;
      *(volatile int*)o = 2;
      vc_join(s->rel, self_->vc);
      self_->vc.c[self_->id]++;
      for (int i = 0; i < g_nthr; ++i)
        if (thr[i].st == T_GUARD && thr[i].obj == (void*)o)
          thr[i].st = T_RUN;
      return 0;
    }
    block(T_GUARD, o);
  }
}
int __cxa_guard_acquire(long long* g) {
  if (!sim_obj(g)) {
    resolve();
    return real_guard_acquire(g);
  }
  yield_point(O_GUARD);
  for (;;) {
    if (*(volatile char*)g) {
      Sync* s = get_sync(g, 4);
      vc_join(self_->vc, s->rel);
      return 0;
    }
    Sync* s = get_sync(g, 4);
    if (s->count == 0) {
      s->count = 1;
      return 1;
    }
    block(T_GUARD, g);
  }
}
void __cxa_guard_release(long long* g) {
  if (!sim_obj(g)) {
    resolve();
    return real_guard_release(g);
  }
  Sync* s = get_sync(g, 4);
  vc_join(s->rel, self_->vc);
  self_->vc.c[self_->id]++;
  a_store<unsigned char>((volatile unsigned char*)g, 1, __ATOMIC_RELEASE, CALLER);  // the inline check of the guard is an acquire load of it
  s = get_sync(g, 4);
  s->count = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_GUARD && thr[i].obj == (void*)g)
      thr[i].st = T_RUN;
}
void __cxa_guard_abort(long long* g) {
  if (!sim_obj(g)) {
    resolve();
    return real_guard_abort(g);
  }
  Sync* s = get_sync(g, 4);
  s->count = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (thr[i].st == T_GUARD && thr[i].obj == (void*)g)
      thr[i].st = T_RUN;
}
int sched_yield() {
  if (!active()) {
    resolve();
    return real_sched_yield();
  }
  yield_point(O_YIELD, true);
  return 0;
}
static int sim_sleep(uint64_t until) {
  self_->deadline = until;
  block(T_SLEEP, nullptr);
  self_->deadline = 0;
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) {
  if (!active()) {
    resolve();
    return real_nanosleep(ts, rem);
  }
  return sim_sleep(now_ns + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int clock_nanosleep(clockid_t k, int flags, const timespec* ts, timespec* rem) {
  if (!active()) {
    resolve();
    return real_clock_nanosleep(k, flags, ts, rem);
  }
  if (flags & TIMER_ABSTIME)
    return sim_sleep(ts_to_sim(ts));
  return sim_sleep(now_ns + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int usleep(useconds_t us) {
  timespec ts{us / 1000000, (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  timespec ts{(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
int clock_gettime(clockid_t k, timespec* ts) {
  if (!self_) {
    resolve();
    return real_clock_gettime(k, ts);
  }
  uint64_t t = BASE_NS + now_ns;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(timeval* tv, void* tz) {
  if (!self_) {
    resolve();
    return real_gettimeofday(tv, tz);
  }
  uint64_t t = BASE_NS + now_ns;
  tv->tv_sec = t / 1000000000ull;
  tv->tv_usec = t % 1000000000ull / 1000;
  return 0;
}
int get_nprocs() {
  return (int)hw_conc;
}
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  if (!self_) {
    fprintf(stderr, "%s:%u: %s: assertion %s failed\n", file, line, fn, e);
    abort();
  }
  const char* b = strrchr(file, '/');
  rfail("assert", "assertion failed: %s (%s:%u)", e, b ? b + 1 : file, line);
}

// ==================================================================== atomic wait
static uint64_t notify_seq;
struct Ticket {
  uintptr_t addr;
  uint64_t seq;
};
static Ticket tickets[1024];
static Ticket* ticket_of(const void* a) {
  uintptr_t x = (uintptr_t)a;
  unsigned h = (x >> 2) * 2654435761u >> 22;
  for (int i = 0; i < 1024; ++i) {
    Ticket& t = tickets[(h + i) & 1023];
    if (t.addr == x || !t.addr) {
      t.addr = x;
      return &t;
    }
  }
  infra("too many atomic wait addresses");
}
unsigned long long sim_atomic_ticket(const void* a) {
  if (!active())
    return 0;
  return ticket_of(a)->seq;
}
int sim_atomic_wait(const void* a, const void* old, unsigned size, unsigned long long deadline) {
  if (!active()) {
    if (self_)
      infra("atomic wait in quiet code");
    return 1;
  }
  Thr* me = self_;
  yield_point(O_AWAIT);
  access((uintptr_t)a, size, SA, CALLER);
  if (memcmp(a, old, size) != 0)
    return 1;
  me->deadline = deadline;
  me->timed_out = false;
  block(T_ATOMIC, (void*)a);
  me->deadline = 0;
  bool to = me->timed_out;
  me->timed_out = false;
  return !to;
}
int sim_atomic_wait_ticket(const void* a, unsigned long long ticket, unsigned long long deadline) {
  if (!active()) {
    if (self_)
      infra("atomic wait in quiet code");
    return 1;
  }
  Thr* me = self_;
  yield_point(O_AWAIT);
  if (ticket_of(a)->seq != ticket)
    return 1;
  me->deadline = deadline;
  me->timed_out = false;
  block(T_TICKET, (void*)a);
  me->deadline = 0;
  bool to = me->timed_out;
  me->timed_out = false;
  return !to;
}
void sim_atomic_notify(const void* a, int all) {
  if (!active())
    return;
  yield_point(O_ANOTIFY);
  ticket_of(a)->seq = ++notify_seq;
  Thr* w[MAXT];
  int n = 0;
  for (int i = 0; i < g_nthr; ++i)
    if ((thr[i].st == T_ATOMIC || thr[i].st == T_TICKET) && thr[i].obj == (void*)a)
      w[n++] = &thr[i];
  trace("atomic notify %llx (%d waiters)", (unsigned long long)(uintptr_t)a, n);
  if (!n)
    return;
  if (all) {
    for (int i = 0; i < n; ++i)
      w[i]->st = T_RUN;
  } else
    w[decide(K_CONDPICK, n)]->st = T_RUN;
}
unsigned long long sim_now_ns() {
  return now_ns;
}
}  // extern "C"

// ==================================================================== operator new/delete
static inline void* do_new(size_t n, size_t al, uint8_t kind, uint64_t pc, bool nothrow) {
  if (self_ && !self_->quiet) {
    void* p = sim_alloc(n, al, kind, pc);
    if (!p && !nothrow)
      throw std::bad_alloc();
    return p;
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p && !nothrow)
    throw std::bad_alloc();
  return p;
}
static inline void do_delete(void* p, size_t n, bool sized, size_t al, uint8_t kind, uint64_t pc) {
  if (in_arena(p))
    sim_free(p, n, sized, al, kind, pc);
  else
    free(p);
}
void* operator new(size_t n) { return do_new(n, 0, 0, CALLER, false); }
void* operator new[](size_t n) { return do_new(n, 0, 1, CALLER, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, 0, CALLER, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, 1, CALLER, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 0, CALLER, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 1, CALLER, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, 0, CALLER, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, 1, CALLER, true); }
void operator delete(void* p) noexcept { do_delete(p, 0, false, 0, 0, CALLER); }
void operator delete[](void* p) noexcept { do_delete(p, 0, false, 0, 1, CALLER); }
void operator delete(void* p, size_t n) noexcept { do_delete(p, n, true, 0, 0, CALLER); }
void operator delete[](void* p, size_t n) noexcept { do_delete(p, n, true, 0, 1, CALLER); }
void operator delete(void* p, std::align_val_t a) noexcept { do_delete(p, 0, false, (size_t)a, 0, CALLER); }
void operator delete[](void* p, std::align_val_t a) noexcept { do_delete(p, 0, false, (size_t)a, 1, CALLER); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, n, true, (size_t)a, 0, CALLER); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, n, true, (size_t)a, 1, CALLER); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, false, 0, 0, CALLER); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, false, 0, 1, CALLER); }

// ==================================================================== workload API
namespace sim {

uint32_t draw(uint32_t n) {
  if (!self_)
    return 0;
  uint32_t i = ndraw_used++;
  if (i >= MAXDRAWS)
    infra("too many draws");
  uint32_t v = 0;
  if (n > 1) {
    if (in.replay)
      v = i < in.ndraws ? in.draws[i] % n : 0;
    else
      v = rng_draw.below(n);
  }
  R->draws[i] = v;
  R->draw_n[i] = n;
  R->ndraws = i + 1;
  hash_mix(R->hash, v + 77);
  hash_mix(R->shape, v + 77);
  return v;
}
void yield() {
  if (active())
    yield_point(O_USER);
}
int self() {
  return self_ ? self_->id : -1;
}
uint64_t now() {
  return ++event_seq;
}
bool faults_active() {
  return !faults_off;
}
void wait_until(bool (*pred)(void*), void* arg) {
  if (!active())
    infra("wait_until in quiet code");
  Thr* me = self_;
  struct Q {
    bool (*f)(void*);
    void* a;
  } q{pred, arg};
  auto quiet_pred = [](void* p) -> bool {
    Q* q = (Q*)p;
    Thr* s = self_;
    s->quiet++;
    bool r = q->f(q->a);
    s->quiet--;
    return r;
  };
  yield_point(O_USER);
  if (quiet_pred(&q))
    return;
  me->pred = quiet_pred;
  me->pred_arg = &q;
  block(T_PRED, nullptr);
}
void quiesce() {
  if (!active())
    infra("quiesce in quiet code");
  Thr* me = self_;
  yield_point(O_USER);
  auto pred = [](void* p) -> bool {
    for (int i = 0; i < g_nthr; ++i) {
      Thr& t = thr[i];
      if (&t == p || t.st == T_DONE)
        continue;
      if (t.st == T_RUN || t.st == T_SLEEP || t.st == T_PRED || t.deadline)
        return false;
    }
    return true;
  };
  if (!pred(me)) {
    me->pred = pred;
    me->pred_arg = me;
    block(T_PRED, nullptr);
  }
  for (int i = 0; i < g_nthr; ++i)
    vc_join(me->vc, thr[i].vc);
}
int live_threads() {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i)
    n += thr[i].st != T_DONE;
  return n;
}
void fail(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(cls, fmt, ap);
}
void probe(const char* name) {
  if (!R)
    return;
  for (uint32_t i = 0; i < R->nprobes; ++i)
    if (!strcmp(R->probes[i].name, name)) {
      R->probes[i].n++;
      return;
    }
  if (R->nprobes < MAXPROBES) {
    snprintf(R->probes[R->nprobes].name, sizeof R->probes[0].name, "%s", name);
    R->probes[R->nprobes++].n = 1;
  }
}
void event(const char* what, uint64_t a, uint64_t b) {
  hash_mix(R->hash, a * 31 + b + what[0]);
  trace("event %s %llu %llu", what, (unsigned long long)a, (unsigned long long)b);
}
Quiet::Quiet() {
  if (self_)
    self_->quiet++;
}
Quiet::~Quiet() {
  if (self_)
    self_->quiet--;
}
void fail_next_alloc(bool on) {
  self_->alloc_next = on;
}
AllocFaults::AllocFaults() {
  self_->alloc_armed++;
}
AllocFaults::~AllocFaults() {
  self_->alloc_armed--;
}
ThreadFaults::ThreadFaults() {
  self_->thr_armed++;
}
ThreadFaults::~ThreadFaults() {
  self_->thr_armed--;
}
NoFaults::NoFaults() {
  self_->nofault++;
}
NoFaults::~NoFaults() {
  self_->nofault--;
}
bool alloc_fault_here() {
  Thr* me = self_;
  if (!me || !(me->alloc_armed || me->alloc_next) || me->nofault)
    return false;
  if (decide_alloc(me)) {
    me->alloc_fired++;
    return true;
  }
  return false;
}
int alloc_faults_fired() {
  return self_->alloc_fired;
}
int thread_faults_fired() {
  return self_->thr_fired;
}
uint64_t live_bytes() {
  return live_b;
}
uint64_t live_blocks() {
  return live_n;
}
bool is_live_block(const void* p, size_t sz) {
  if (!in_arena(p))
    return true;
  Granule* g = granule((uintptr_t)p);
  if (g->state != M_LIVE)
    return false;
  Alloc& a = allocs[g->alloc];
  return a.live && (uintptr_t)p >= a.addr && (uintptr_t)p + sz <= a.addr + a.size;
}
void expect_terminate(void (*oracle)()) {
  rt::terminate_oracle = oracle;
}
void ignore_leaks() {
  for (uint32_t i = 1; i <= nallocs; ++i)
    if (allocs[i].live)
      allocs[i].ignore = true;
}
void set_hardware_concurrency(unsigned n) {
  hw_conc = n;
}
void touch_read(const void* p, size_t n) {
  if (active())
    access((uintptr_t)p, n, 0, CALLER);
}
void touch_write(void* p, size_t n) {
  if (active())
    access((uintptr_t)p, n, SW, CALLER);
}
void register_scenario(const Scenario& s) {
  if (nscen == MAXSCEN) {
    fprintf(stderr, "too many scenarios\n");
    abort();
  }
  {
    Scenario* c = (Scenario*)malloc(sizeof(Scenario));
    memcpy((void*)c, &s, sizeof s);
    scen[nscen++] = c;
  }
}
}  // namespace sim
