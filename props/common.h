// Shared by all workloads. Only kelcoro's public interface is used.
#pragma once
#include <atomic>
#include <coroutine>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

#include "kelcoro/kelcoro.hpp"
#include "kelcoro/algorithm.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/events.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/inplace_generator.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/latch.hpp"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/stack_memory_resource.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"

#include "sim.h"

// A trivially destructible exception: exception objects live outside the simulated heap, their reference counts are
// kept by the (uninstrumented) C++ runtime, so they must own nothing.
struct Err {
  int id;
};

// n scheduling points without any synchronisation
inline void pause(int n) {
  while (n-- > 0)
    sim::yield();
}

// a plain instrumented write / read of a heap cell: shows missing happens-before edges
struct Cell {
  int v = 0;
};

// mostly small, now and then large: sizes beyond what a few elements show
inline int often(int small, int large) {
  return sim::chance(1, 24) ? sim::draw(large) : sim::draw(small);
}

inline int scrambled(int x) {
  return x * 7919 + 13;
}

// counts objects: each id must be constructed once (as owner) and destroyed once
struct Tracker {
  static constexpr int N = 128;
  int made[N] = {};
  int dead[N] = {};
  uint64_t dead_at[N] = {};
  int n = 0;
  int fresh() {
    sim::Quiet q;
    SIM_CHECK(n < N, "harness", "too many tracked objects");
    return n++;
  }
};
inline Tracker g_track;

// move-only token; the owner's destruction is counted once
struct Token {
  int id = -1;
  Token() = default;
  explicit Token(int i) : id(i) {
    sim::Quiet q;
    g_track.made[i]++;
  }
  Token(Token&& o) noexcept : id(std::exchange(o.id, -1)) {
  }
  Token& operator=(Token&& o) noexcept {
    if (this != &o) {
      drop();
      id = std::exchange(o.id, -1);
    }
    return *this;
  }
  ~Token() {
    drop();
  }
  void drop() noexcept {
    if (id < 0)
      return;
    sim::Quiet q;
    g_track.dead[id]++;
    g_track.dead_at[id] = sim::now();
    if (g_track.dead[id] > 1)
      sim::fail("destroyed-twice", "captured object %d destroyed twice", id);
    id = -1;
  }
};
inline void check_tokens() {
  sim::Quiet q;
  for (int i = 0; i < g_track.n; ++i)
    SIM_CHECK(g_track.made[i] == g_track.dead[i], "object-leak", "tracked object %d constructed %d times, destroyed %d times", i,
              g_track.made[i], g_track.dead[i]);
}
inline bool token_dead(int id) {
  sim::Quiet q;
  return g_track.dead[id] == 1;
}

// memory resource which checks its client and fails on request
struct CheckedResource : std::pmr::memory_resource {
  struct B {
    size_t size, align;
  };
  std::map<uintptr_t, B>* live = nullptr;
  const char* name;
  bool can_fail = false;
  int allocs = 0, fails = 0;
  bool closed = false;
  int state = 0;  // a member its user reads on every allocation

  explicit CheckedResource(const char* n) : name(n) {
    sim::Quiet q;
    live = new std::map<uintptr_t, B>;
  }
  ~CheckedResource() {
    sim::Quiet q;
    if (!live->empty())
      sim::fail("resource-leak", "%zu blocks of resource %s are outstanding (first %zu bytes)", live->size(), name,
                live->begin()->second.size);
    closed = true;
    delete live;
  }
  void* do_allocate(size_t n, size_t al) override {
    SIM_CHECK(state == 0 || state == 1, "corrupt", "memory resource");
    if (can_fail && sim::alloc_fault_here()) {
      sim::Quiet q;
      fails++;
      throw std::bad_alloc();
    }
    void* p;
    {
      sim::NoFaults nf;
      p = ::operator new(n, std::align_val_t(al < 16 ? 16 : al));
    }
    sim::Quiet q;
    allocs++;
    (*live)[(uintptr_t)p] = B{n, al};
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    {
      sim::Quiet q;
      if (closed)
        sim::fail("resource-use-after-free", "resource %s used after its destruction", name);
      auto it = live->find((uintptr_t)p);
      if (it == live->end())
        sim::fail("resource-bad-free", "resource %s got back a block it never gave out", name);
      if (it->second.size != n || it->second.align != al)
        sim::fail("resource-bad-free", "resource %s: block of size %zu align %zu came back as size %zu align %zu", name,
                  it->second.size, it->second.align, n, al);
      live->erase(it);
    }
    ::operator delete(p, n, std::align_val_t(al < 16 ? 16 : al));
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
    return this == &o;
  }
  bool owns(const void* p) {
    sim::Quiet q;
    auto it = live->upper_bound((uintptr_t)p);
    if (it == live->begin())
      return false;
    --it;
    return (uintptr_t)p < it->first + it->second.size;
  }
  size_t outstanding() {
    sim::Quiet q;
    return live->size();
  }
};

// what await_suspend of the library returns is its own business (void, bool, a handle): pass it on
template <typename F, typename G>
auto call_then(F&& f, G&& after) {
  if constexpr (std::is_void_v<decltype(f())>) {
    f();
    after();
  } else {
    auto r = f();
    after();
    return r;
  }
}
