// task: laziness, exactly-once, results, exceptions, contexts, detaching, blocking get, abandonment.
#include "tasktree.h"

using namespace tt;

SIM_SCENARIO(task_tree, 3, "trees of tasks hopping between executors, consumed in every way, from several threads") {
  std::vector<Cell> a, b;
  std::vector<Stopped> sp;
  reset(a, b, sp);
  int nthr = 1 + sim::draw(2);
  struct Root {
    int i, how;
  };
  std::vector<std::vector<Root>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + sim::draw(2);
    for (int k = 0; k < n && nnodes < MAX; ++k) {
      int how = sim::draw(NHOW);
      p.push_back({draw_tree(2), how});
    }
  }
  wd::open(1 + sim::draw(2));
  {
    auto run = [&](int t) {
      for (Root& r : progs[t])
        consume_any(r.i, r.how).start_and_detach();
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] { run(t); });
    run(0);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    check_all();
  }
  wd::close();
}

namespace {
template <int K>
void blocking(int i, int then) {
  auto t = make<K>(i);
  if (then == 3) {
    // no memory for the coroutine which waits: the task dies unstarted
    sim::quiet([&] { st[i].never = true; });
    bool threw = false;
    sim::fail_next_alloc();
    try {
      if constexpr (K == K_VOID)
        t.get();
      else
        (void)t.get();
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    sim::fail_next_alloc(false);
    SIM_CHECK(threw, "value", "get succeeded without memory");
    SIM_CHECK(t.empty() && token_dead(st[i].arg), "object-leak", "task %d outlived a failed get", i);
    sim::probe("get failed to allocate");
    return;
  }
  sim::quiet([&] { st[i].awaited = true; });
  bool threw = false;
  int id = -1;
  try {
    if constexpr (K == K_VOID)
      t.get();
    else {
      decltype(auto) r = t.get();
      check_result<K>(i, r);
    }
  } catch (const Err& e) {
    threw = true;
    id = e.id;
  }
  sim::quiet([&] { SIM_CHECK(st[i].finished == 1, "early", "get returned before task %d finished", i); });
  SIM_CHECK(side[i].v == scrambled(i), "visibility", "get: what task %d wrote is not visible", i);
  check_threw(i, threw, id, "get");
  pause(then);
}
// destroys a tree which is suspended somewhere
template <int K>
void abandon(int i, int how) {
  auto t = make<K>(i);
  if (how == 0) {
    auto h = t.start_and_detach(true);
    SIM_CHECK(h && !h.done(), "harness", "not suspended");
    h.destroy();
  } else {
    auto h = t.detach();
    sim::quiet([&] { st[i].c_start = 1; });
    h.resume();
    SIM_CHECK(!h.done(), "harness", "not suspended");
    dd::task<ret_t<K>, Ctx> back(h);
    dd::task<ret_t<K>, Ctx> other(std::move(back));
  }
}
#define BY_KIND(f, i, ...)              \
  switch (plan[i].kind) {               \
    case K_INT: f<K_INT>(__VA_ARGS__); break;  \
    case K_VAL: f<K_VAL>(__VA_ARGS__); break;  \
    case K_REF: f<K_REF>(__VA_ARGS__); break;  \
    case K_RVO: f<K_RVO>(__VA_ARGS__); break;  \
    default: f<K_VOID>(__VA_ARGS__); break;    \
  }
}  // namespace

SIM_SCENARIO(task_get, 2, "blocking get from client threads against completion on executors") {
  std::vector<Cell> a, b;
  std::vector<Stopped> sp;
  reset(a, b, sp);
  int nthr = 1 + sim::draw(3);
  std::vector<std::vector<std::pair<int, int>>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + sim::draw(2);
    for (int k = 0; k < n && nnodes < MAX; ++k) {
      int then = sim::draw(sim::chance(1, 3) ? 4 : 3);
      p.push_back({draw_tree(1), then});
    }
  }
  wd::open(1 + sim::draw(2));
  {
    auto run = [&](int t) {
      for (auto& r : progs[t])
        BY_KIND(blocking, r.first, r.first, r.second)
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] { run(t); });
    run(0);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    check_all();
  }
  wd::close();
}

SIM_SCENARIO(task_abandon, 1, "a tree of tasks is destroyed while its leaf is suspended; creation fails") {
  std::vector<Cell> a, b;
  std::vector<Stopped> sp;
  reset(a, b, sp);
  int depth = often(4, 30);
  int how = sim::draw(2);
  int kinds[32];
  for (int i = 0; i <= depth; ++i) {
    int k = nnodes++;
    kinds[i] = k;
    st[k] = St{};
    plan[k] = Plan{};
    plan[k].kind = sim::draw(NKIND);
    plan[k].nhops = sim::draw(2);
    plan[k].hops[0] = wd::H_INLINE;
    st[k].abandoned = true;
  }
  for (int i = 0; i < depth; ++i) {
    static const int hows[] = {C_AWAIT, C_AWAIT2, C_WAIT_GET, C_MOVE};
    plan[i].nchildren = 1;
    plan[i].children[0] = i + 1;
    plan[i].how[0] = hows[sim::draw(4)];
  }
  plan[depth].noop = true;
  int fails = 1 + sim::draw(3);
  wd::open(1, false);
  BY_KIND(abandon, 0, 0, how)
  check_all();
  // creation fails: nothing starts, arguments die once
  for (int k = 0; k < fails; ++k) {
    int i = nnodes++;
    st[i] = St{};
    plan[i] = Plan{};
    Token tok = fresh(&st[i].arg);
    try {
      sim::AllocFaults f;
      auto t = node<K_VAL>(i, std::move(tok));
    } catch (const std::bad_alloc&) {
      sim::probe("creation failed");
    }
    tok.drop();
    sim::quiet([&] { SIM_CHECK(!st[i].started, "started", "task %d", i); });
    SIM_CHECK(token_dead(st[i].arg), "object-leak", "argument of an unstarted task %d", i);
    sim::quiet([&] { st[i].never = true; });
  }
  check_all();
  wd::close();
}
