// The same guarantees with hundreds of tasks, waiters, values and levels instead of a handful.
#include "world.h"

namespace {
using wd::W;
int big() {
  static const int base[] = {24, 33, 65, 129, 257};
  return base[sim::draw(5)] + sim::draw(8);
}
constexpr int N = 320;
int runs_of[N], order_of[N], norder;
std::thread::id tid_of[N];
int status_of[N];
void reset() {
  sim::Quiet z;
  norder = 0;
  for (int i = 0; i < N; ++i) {
    runs_of[i] = 0;
    tid_of[i] = {};
    status_of[i] = -1;
  }
}
void ran(int i, int status = 0) {
  sim::Quiet z;
  SIM_CHECK(++runs_of[i] == 1, "resumed-twice", "%d of many ran %d times", i, runs_of[i]);
  order_of[norder++] = i;
  tid_of[i] = std::this_thread::get_id();
  status_of[i] = status;
}
void all_ran(int n, const char* what) {
  sim::Quiet z;
  for (int i = 0; i < n; ++i)
    SIM_CHECK(runs_of[i] == 1, "lost-task", "%s: %d of %d ran %d times", what, i, n, runs_of[i]);
}

// a gate which keeps a worker busy
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool inside = false, open_ = false;
  void pass() {
    std::unique_lock l(m);
    inside = true;
    cv.notify_all();
    while (!open_)
      cv.wait(l);
  }
  void wait_inside() {
    std::unique_lock l(m);
    while (!inside)
      cv.wait(l);
  }
  void open() {
    std::lock_guard l(m);
    open_ = true;
    cv.notify_all();
  }
};

struct Nd : dd::task_node {
  int id = 0;
};
dd::job node_job(Nd* n) {
  co_await dd::this_coro::suspend_and([n](std::coroutine_handle<> h) { n->task = h; });
  ran(n->id, (int)n->status);
  delete n;
}
template <typename R, typename E>
R hopper(int i, E& e) {
  dd::schedule_status s = co_await dd::jump_on(e);
  ran(i, (int)s.what);
}
}  // namespace

// one queue, kept busy until everything is submitted: order, exactly once, status
SIM_SCENARIO(scale_queue, 1, "hundreds of tasks pile up behind a busy worker, then run or are cancelled") {
  reset();
  int n = big();
  int how = sim::draw(5);  // nodes one by one, lists, coroutines, callables, mixed
  bool is_pool = sim::draw(2);
  const int cut = is_pool && sim::draw(2) ? (int)sim::draw(n) : n;  // the pool is stopped before this one is submitted
  int chunk = 1 + sim::draw(40);
  auto body = [&](auto& q, auto stop) {
    Gate g;
    dd::schedule_to(q, [&g] { g.pass(); });
    g.wait_inside();
    bool stopped = false;
    for (int i = 0; i < n;) {
      if (i >= cut && !std::exchange(stopped, true))
        stop();
      switch (how == 4 ? (i / 7) % 4 : how) {
        case 0: {
          Nd* x = new Nd;
          x->id = i++;
          node_job(x);
          q.attach(x);
          break;
        }
        case 1: {
          dd::task_node* first = nullptr;
          Nd* last = nullptr;
          for (int k = 0; k < chunk && i < n && (stopped || i < cut); ++k) {
            Nd* x = new Nd;
            x->id = i++;
            node_job(x);
            (last ? last->next : first) = x;
            last = x;
          }
          dd::attach_list(q, first);
          break;
        }
        case 2: {
          int id = i++;
          if (id % 3 == 0)
            hopper<dd::async_task<void>>(id, q).detach();
          else if (id % 3 == 1)
            hopper<dd::job>(id, q);
          else
            hopper<dd::task<void>>(id, q).start_and_detach();
          break;
        }
        default: {
          int id = i++;
          if (id >= cut)
            sim::quiet([&] { status_of[id] = -2; });
          dd::schedule_to(q, [id] { ran(id); });
          break;
        }
      }
    }
    SIM_CHECK(sim::quiet([] { return norder; }) == 0, "overlap", "a task ran while the worker of its queue was busy");
    g.open();
    sim::quiesce();
  };
  if (is_pool) {
    dd::thread_pool p(1 + sim::draw(2));
    body(p.queues_range()[0], [&] { p.request_stop(); });
    if (cut < n)
      std::move(p).wait_stop();
  } else {
    dd::worker w;
    body(w, [&] {});
  }
  sim::quiesce();
  sim::quiet([&] {
    int prev = -1;
    for (int i = 0; i < norder; ++i)
      if (order_of[i] < cut) {
        SIM_CHECK(order_of[i] > prev, "fifo", "task %d ran after task %d", order_of[i], prev);
        SIM_CHECK(tid_of[order_of[i]] == tid_of[order_of[0]], "wrong-thread", "one queue, several threads");
        prev = order_of[i];
      }
    for (int i = 0; i < n; ++i) {
      bool dropped = status_of[i] == -2;
      SIM_CHECK(runs_of[i] == !dropped, "lost-task", "task %d of %d ran %d times", i, n, runs_of[i]);
      if (!dropped)
        SIM_CHECK((status_of[i] == (int)dd::schedule_errc::ok) == (i < cut), "status", "task %d has status %d, the stop was before task %d", i, status_of[i], cut);
    }
    sim::probe(cut < n ? "many cancelled" : "many executed");
  });
}

SIM_SCENARIO(scale_pool, 1, "hundreds of tasks for all workers of a pool at once") {
  reset();
  int n = big();
  int nt = 1 + sim::draw(3);
  int how = sim::draw(3);
  wd::open(1 + sim::draw(4));
  auto submit = [&](int t) {
    if (how == 2) {
      dd::task_node* first = nullptr;
      Nd* last = nullptr;
      for (int i = t; i < n; i += nt) {
        Nd* x = new Nd;
        x->id = i;
        node_job(x);
        (last ? last->next : first) = x;
        last = x;
      }
      dd::attach_list(*W.pool, first);
    } else
      for (int i = t; i < n; i += nt)
        if (how)
          W.pool->schedule([i] { ran(i); });
        else
          hopper<dd::job>(i, *W.pool);
  };
  std::thread ts[3];
  for (int t = 1; t < nt; ++t)
    ts[t] = std::thread([&, t] { submit(t); });
  submit(0);
  for (int t = 1; t < nt; ++t)
    ts[t].join();
  sim::quiesce();
  all_ran(n, "tasks of a pool");
  sim::quiet([&] {
    for (int i = 0; i < n; ++i)
      SIM_CHECK(status_of[i] == 0, "spurious-cancel", "task %d has status %d", i, status_of[i]);
  });
  wd::close();
}

namespace {
dd::job latch_waiter(dd::latch& l, int i) {
  co_await l.wait();
  ran(i);
}
dd::job latch_arriver(dd::latch& l, int i) {
  co_await l.arrive_and_wait();
  ran(i);
}
}  // namespace
SIM_SCENARIO(scale_latch, 1, "hundreds of waiters and arrivals") {
  reset();
  int n = big();
  int how = sim::draw(3);
  wd::open(1 + sim::draw(3));
  {
    dd::latch l(how == 1 ? n : how == 0 ? 1 : n / 2, *W.pool);
    int i = 0;
    for (; i < (how == 1 ? n - 1 : n / 2); ++i)
      if (how == 1)
        latch_arriver(l, i);
      else
        latch_waiter(l, i);
    if (how == 2) {
      // the other half arrives from a pool
      for (int k = 0; k < n / 2; ++k)
        W.pool->schedule([&l] { l.count_down(); });
      sim::quiesce();
      n = n / 2;
    } else {
      SIM_CHECK(!l.ready(), "early", "latch is ready with one arrival missing");
      SIM_CHECK(sim::quiet([] { return norder; }) == 0, "early", "released with one arrival missing");
      l.count_down();
      if (how == 1)
        --n;
      else
        n = n / 2;
    }
    sim::quiesce();
    SIM_CHECK(l.ready(), "not-ready", "all arrived");
    all_ran(n, "waiters of a latch");
  }
  wd::close();
}

namespace {
dd::job subscriber(dd::event<int>& e, int i, int times) {
  for (int k = 0; k < times; ++k) {
    int v = co_await e;
    SIM_CHECK(v == scrambled(k), "value", "subscriber %d got %d at notification %d", i, v, k);
  }
  ran(i);
}
}  // namespace
SIM_SCENARIO(scale_event, 1, "hundreds of subscribers of one event") {
  reset();
  int n = big();
  int times = 1 + sim::draw(3);
  int how = sim::draw(3);
  wd::open(1 + sim::draw(2));
  {
    dd::event<int> e;
    for (int i = 0; i < n; ++i)
      subscriber(e, i, times);
    for (int k = 0; k < times; ++k) {
      bool any;
      if (how == 0)
        any = e.notify_all(dd::this_thread_executor, scrambled(k));
      else if (how == 1)
        any = e.notify_all(*W.pool, scrambled(k));
      else
        any = e.notify_all(*W.work, scrambled(k));
      SIM_CHECK(any, "value", "notify_all with %d subscribers returned false", n);
      sim::quiesce();
    }
    all_ran(n, "subscribers");
    SIM_CHECK(!e.notify_all(dd::this_thread_executor, 0), "value", "notify_all without subscribers returned true");
  }
  wd::close();
}

namespace {
dd::task<int> leaf(int i, int how) {
  if (how == 1)
    (void)co_await dd::jump_on(*W.pool);
  if (how == 2 && i % 3 == 0)
    (void)co_await dd::jump_on(*W.work);
  ran(i);
  if (how == 3 && i % 5 == 2)
    throw i;
  co_return scrambled(i);
}
dd::task<void> all(int n, int how, int* done) {
  std::vector<dd::task<int>> v;
  for (int i = 0; i < n; ++i)
    v.push_back(leaf(i, how));
  auto r = co_await dd::when_all(std::move(v));
  all_ran(n, "tasks of when_all");
  SIM_CHECK((int)r.size() == n, "value", "when_all of %d tasks has %zu results", n, r.size());
  for (int i = 0; i < n; ++i) {
    if (how == 3 && i % 5 == 2) {
      SIM_CHECK(!r[i].has_value(), "value", "the exception of task %d was lost", i);
      int got = -1;
      try {
        std::rethrow_exception(r[i].error());
      } catch (int x) {
        got = x;
      }
      SIM_CHECK(got == i, "value", "task %d: exception of task %d", i, got);
    } else
      SIM_CHECK(r[i].has_value() && *r[i] == scrambled(i), "value", "result %d of when_all", i);
  }
  ++*done;
}
dd::task<int> chain(int depth, int hop) {
  if (depth % 16 == 0 && hop)
    (void)co_await dd::jump_on(*W.pool);
  std::unique_ptr<Cell> c(new Cell{depth});
  if (depth == 0)
    co_return 1;
  int r = co_await chain(depth - 1, hop);
  SIM_CHECK(c->v == depth && r == depth, "value", "level %d got %d", depth, r);
  co_return r + 1;
}
dd::task<int> failing_chain(int depth) {
  if (depth == 0)
    throw 77;
  std::unique_ptr<Cell> c(new Cell{depth});
  int r = co_await failing_chain(depth - 1);
  co_return r;
}
dd::task<void> looping(int n, int how, int* done) {
  for (int i = 0; i < n; ++i) {
    int r = co_await leaf(i, how == 3 ? 1 : how);
    SIM_CHECK(r == scrambled(i), "value", "task %d of a loop", i);
  }
  ++*done;
}
}  // namespace
SIM_SCENARIO(scale_when, 1, "when_all over hundreds of tasks") {
  reset();
  int n = big(), how = sim::draw(4), done = 0;
  wd::open(1 + sim::draw(3));
  all(n, how, &done).get();
  SIM_CHECK(done == 1, "value", "get() returned before the end");
  wd::close();
}
SIM_SCENARIO(scale_task, 1, "hundreds of nested tasks, hundreds of tasks one after the other") {
  reset();
  int n = big(), how = sim::draw(4), what = sim::draw(3), done = 0;
  wd::open(1 + sim::draw(2));
  if (what == 0) {
    int r = chain(n, how & 1).get();
    SIM_CHECK(r == n + 1, "value", "chain of %d tasks gave %d", n, r);
  } else if (what == 1) {
    int got = 0;
    try {
      (void)failing_chain(n).get();
    } catch (int x) {
      got = x;
    }
    SIM_CHECK(got == 77, "value", "the exception was lost on its way through %d tasks", n);
  } else {
    looping(n, how, &done).get();
    SIM_CHECK(done == 1, "value", "get() returned before the end");
    all_ran(n, "tasks of a loop");
  }
  wd::close();
}

namespace {
dd::channel<int> many_values(int n, int how, int depth) {
  if (depth) {
    co_yield dd::elements_of(many_values(n, how, depth - 1));
    co_return;
  }
  if (how == 1)
    (void)co_await dd::jump_on(*W.pool);
  std::vector<int> v;
  if (how == 2) {
    for (int i = 0; i < n; ++i)
      v.push_back(scrambled(i));
    co_yield dd::elements_of(v);
  } else
    for (int i = 0; i < n; ++i) {
      int x = scrambled(i);
      co_yield x;
    }
}
dd::job consume(int n, int how, int depth, int stop_at, int* done) {
  int i = 0;
  {
    auto c = many_values(n, how, depth);
    for (auto b = co_await c.begin(); b != c.end(); co_await ++b) {
      SIM_CHECK(*b == scrambled(i), "value", "value %d is %d", i, *b);
      ++i;
      if (i == stop_at)
        break;
    }
  }
  SIM_CHECK(i == (stop_at ? stop_at : n), "value", "channel of %d values yielded %d", n, i);
  ++*done;
}
dd::channel<int> deep_channel(int depth) {
  int x = depth;
  co_yield x;
  if (depth)
    co_yield dd::elements_of(deep_channel(depth - 1));
  x = -depth;
  co_yield x;
}
dd::job consume_deep(int depth, int* done) {
  int i = 0;
  {
    auto c = deep_channel(depth);
    for (auto b = co_await c.begin(); b != c.end(); co_await ++b) {
      int want = i <= depth ? depth - i : -(i - depth - 1);
      SIM_CHECK(*b == want, "value", "value %d is %d, not %d", i, *b, want);
      ++i;
    }
  }
  SIM_CHECK(i == 2 * (depth + 1), "value", "%d values", i);
  ++*done;
}
dd::generator<int> gen_values(int n, int how, int depth) {
  if (depth) {
    co_yield dd::elements_of(gen_values(n, how, depth - 1));
    co_return;
  }
  if (how == 2) {
    std::vector<int> v;
    for (int i = 0; i < n; ++i)
      v.push_back(scrambled(i));
    co_yield dd::elements_of(v);
  } else
    for (int i = 0; i < n; ++i)
      co_yield scrambled(i);
}
dd::generator<int> deep_generator(int depth) {
  co_yield int(depth);
  if (depth)
    co_yield dd::elements_of(deep_generator(depth - 1));
  co_yield int(-depth);
}
dd::inplace_generator<int> inplace_values(int n) {
  for (int i = 0; i < n; ++i)
    co_yield scrambled(i);
}
}  // namespace
SIM_SCENARIO(scale_channel, 1, "channels with hundreds of values and levels") {
  int n = big(), how = sim::draw(3), depth = sim::draw(3), what = sim::draw(2), done = 0;
  int stop_at = sim::draw(2) ? 1 + sim::draw(n) : 0;
  wd::open(1);
  if (what)
    consume(n, how, depth, stop_at, &done);
  else
    consume_deep(n, &done);
  sim::quiesce();
  SIM_CHECK(done == 1, "lost-task", "the consumer did not end");
  wd::close();
}
SIM_SCENARIO(scale_generator, 1, "generators with hundreds of values and levels") {
  int n = big(), how = sim::draw(3), depth = sim::draw(3), what = sim::draw(3);
  int stop_at = sim::draw(2) ? 1 + sim::draw(n) : 0;
  int i = 0;
  if (what == 0) {
    for (int x : gen_values(n, how, depth)) {
      SIM_CHECK(x == scrambled(i), "value", "value %d is %d", i, x);
      if (++i == stop_at)
        break;
    }
    SIM_CHECK(i == (stop_at ? stop_at : n), "value", "generator of %d values yielded %d", n, i);
  } else if (what == 1) {
    for (int x : deep_generator(n)) {
      int want = i <= n ? n - i : -(i - n - 1);
      SIM_CHECK(x == want, "value", "value %d is %d, not %d", i, x, want);
      ++i;
    }
    SIM_CHECK(i == 2 * (n + 1), "value", "%d values", i);
  } else {
    // resumed where it stopped
    auto g = gen_values(n, how, depth);
    while (!g.empty()) {
      for (int x : g) {
        SIM_CHECK(x == scrambled(i), "value", "value %d is %d", i, x);
        ++i;
        if (i % 50 == 0)
          break;
      }
      if (i >= n)
        break;
    }
    SIM_CHECK(i == n, "value", "generator of %d values yielded %d", n, i);
  }
}
SIM_SCENARIO(scale_inplace, 1, "inplace_generator with hundreds of values") {
  int n = big();
  int stop_at = sim::draw(2) ? 1 + sim::draw(n) : 0;
  int i = 0;
  auto g = inplace_values(n);
  for (auto&& x : g) {
    SIM_CHECK(x == scrambled(i), "value", "value %d is %d", i, x);
    if (++i == stop_at)
      break;
  }
  SIM_CHECK(i == (stop_at ? stop_at : n), "value", "inplace_generator of %d values yielded %d", n, i);
}

SIM_SCENARIO(scale_lthread, 1, "a range of many logical threads is stopped and joined") {
  reset();
  int n = 17 + sim::draw(60);
  wd::open(1 + sim::draw(3));
  {
    std::vector<dd::logical_thread> v;
    for (int i = 0; i < n; ++i)
      v.push_back([](int me) -> dd::logical_thread {
        while (!(co_await dd::this_coro::stop_token).stop_requested())
          (void)co_await dd::jump_on(*W.pool);
        ran(me);
      }(i));
    dd::stop(v);
    all_ran(n, "logical threads");
    for (auto& t : v)
      SIM_CHECK(!t.joinable(), "joinable", "a stopped logical thread is joinable");
  }
  wd::close();
}

namespace {
struct SNode {
  SNode* next = nullptr;
  int id = 0;
};
}  // namespace
SIM_SCENARIO(scale_stack, 1, "hundreds of nodes in a lock-free stack") {
  int n = big();
  int nt = 1 + sim::draw(3);
  bool stacks = sim::draw(2);
  dd::nonowner_lockfree_stack<SNode> st;
  std::vector<SNode> ns(n);
  auto push = [&](int t) {
    if (stacks) {
      dd::nonowner_lockfree_stack<SNode> own;
      for (int i = t; i < n; i += nt) {
        ns[i].id = i;
        own.push(&ns[i]);
      }
      st.push_stack(own.try_pop_all());
    } else
      for (int i = t; i < n; i += nt) {
        ns[i].id = i;
        st.push(&ns[i]);
      }
  };
  std::thread ts[3];
  for (int t = 1; t < nt; ++t)
    ts[t] = std::thread([&, t] { push(t); });
  push(0);
  for (int t = 1; t < nt; ++t)
    ts[t].join();
  int last[3] = {n + nt, n + nt, n + nt};
  int seen = 0;
  for (SNode* p = st.try_pop_all(); p; p = p->next) {
    SIM_CHECK(p->id < last[p->id % nt], "lifo", "node %d came out after node %d of the same thread", p->id, last[p->id % nt]);
    last[p->id % nt] = p->id;
    SIM_CHECK(++seen <= n, "list", "more nodes than were pushed");
  }
  SIM_CHECK(seen == n, "lost-task", "%d of %d nodes came out", seen, n);
}

// many blocks in a stack_resource, partly returned and allocated again
SIM_SCENARIO(scale_stackres, 1, "hundreds of blocks in a stack_resource") {
  int n = big();
  int kind = sim::draw(4) | (sim::draw(8) == 7 ? 6 : 0);  // bit 0: with a buffer, bit 1: sizes vary, bit 2: some are large
  int rounds = 1 + sim::draw(3);
  struct B {
    unsigned char* p;
    size_t size;
    unsigned char tag;
  };
  std::vector<B> live;
  alignas(16) static unsigned char buf[4096];
  {
    dd::stack_resource r = kind & 1 ? dd::stack_resource(std::span<unsigned char>(buf, sizeof(buf))) : dd::stack_resource();
    auto put = [&](int i) {
      static const size_t sizes[] = {16, 48, 200, 1000};
      size_t sz = kind & 2 ? sizes[i % 4] + i % 7 : 32;
      if (kind & 4 && i % 12 == 5)
        sz = i % 8 == 1 ? 70000 : 5000;
      auto* p = (unsigned char*)r.allocate(sz);
      SIM_CHECK(p && (uintptr_t)p % dd::coroframe_align() == 0, "alignment", "block of %zu bytes at %p", sz, p);
      unsigned char tag = (unsigned char)(i * 31 + 7);
      p[0] = p[sz - 1] = p[sz / 2] = tag;
      live.push_back({p, sz, tag});
    };
    auto take = [&] {
      B b = live.back();
      live.pop_back();
      SIM_CHECK(b.p[0] == b.tag && b.p[b.size / 2] == b.tag && b.p[b.size - 1] == b.tag, "overlap", "a block was overwritten by another one");
      r.deallocate(b.p, b.size);
    };
    for (int k = 0; k < rounds; ++k) {
      int target = k & 1 ? n / 2 : n;
      while ((int)live.size() < target)
        put(live.size());
      {
        sim::Quiet z;
        std::vector<B> s = live;
        std::sort(s.begin(), s.end(), [](const B& a, const B& b) { return a.p < b.p; });
        for (size_t i = 1; i < s.size(); ++i)
          SIM_CHECK(s[i - 1].p + s[i - 1].size <= s[i].p, "overlap", "two live blocks overlap");
      }
      int keep = sim::draw(target);
      while ((int)live.size() > keep)
        take();
    }
    while (!live.empty())
      take();
  }
}

// ------------------------------------------------------------------ symmetric transfer: no stack per step
namespace {
uintptr_t base_of[64];
uintptr_t worst;
int every, where;  // a hop at every n-th step, to where
__attribute__((noinline)) void mark() {
  sim::Quiet z;
  uintptr_t p = (uintptr_t)__builtin_frame_address(0);
  uintptr_t& b = base_of[sim::self() & 63];
  if (!b)
    b = p;
  if (p < b && b - p > worst)
    worst = b - p;
}
#define FLAT_HOP(i)                                   \
  do {                                                \
    mark();                                           \
    if (every && (i) % every == every - 1) {          \
      if (where)                                      \
        (void)co_await dd::jump_on(*W.pool);          \
      else                                            \
        (void)co_await dd::jump_on(*W.work);          \
      mark();                                         \
    }                                                 \
  } while (0)
dd::task<int> f_leaf(int i) {
  FLAT_HOP(i);
  co_return i;
}
dd::task<void> f_throw(int i) {
  FLAT_HOP(i);
  throw i;
}
dd::task<void> f_loop(int n) {
  for (int i = 0; i < n; ++i) {
    int r = co_await f_leaf(i);
    mark();
    SIM_CHECK(r == i, "value", "task %d of a loop", i);
    if (i % 8 == 5) {
      int got = -1;
      try {
        co_await f_throw(i);
      } catch (int x) {
        got = x;
      }
      SIM_CHECK(got == i, "value", "exception of a task");
    }
    if (i % 8 == 6)
      co_await f_leaf(i).wait();
  }
}
dd::task<int> f_chain(int d) {
  FLAT_HOP(d);
  if (!d)
    co_return 0;
  int r = co_await f_chain(d - 1);
  mark();
  co_return r + 1;
}
dd::channel<int> f_values(int from, int n) {
  for (int i = from; i < from + n; ++i) {
    FLAT_HOP(i);
    int x = i;
    co_yield x;
  }
}
dd::channel<int> f_nested(int n, int part) {
  for (int i = 0; i < n; i += part) {
    mark();
    co_yield dd::elements_of(f_values(i, part));
  }
}
dd::channel<int> f_deep(int d) {
  mark();
  co_yield int(d);
  if (d)
    co_yield dd::elements_of(f_deep(d - 1));
}
dd::job f_consume(dd::channel<int> c, int n, bool down, int* done) {
  int i = 0;
  for (auto b = co_await c.begin(); b != c.end(); co_await ++b) {
    mark();
    SIM_CHECK(*b == (down ? n - 1 - i : i), "value", "value %d is %d", i, *b);
    ++i;
  }
  SIM_CHECK(i >= n, "value", "%d of %d values", i, n);
  ++*done;
}
dd::generator<int> f_gen(int from, int n) {
  for (int i = from; i < from + n; ++i) {
    mark();
    co_yield int(i);
  }
}
dd::generator<int> f_gen_nested(int n, int part) {
  for (int i = 0; i < n; i += part) {
    mark();
    co_yield dd::elements_of(f_gen(i, part));
  }
}
dd::generator<int> f_gen_deep(int d) {
  mark();
  co_yield int(d);
  if (d)
    co_yield dd::elements_of(f_gen_deep(d - 1));
}
}  // namespace
SIM_SCENARIO(flat_stack, 1, "hundreds of awaits, yields and levels use no stack of their own") {
  for (auto& b : base_of)
    b = 0;
  worst = 0;
  int n = 250 + sim::draw(60);
  int what = sim::draw(8);
  every = sim::draw(2) ? 0 : 1 + sim::draw(2) * 50 + sim::draw(20);
  where = sim::draw(2);
  if (what == 4 || what >= 5)
    every = what == 4 ? every : 0;
  int part = 1 + sim::draw(3);
  int kind = sim::draw(3);
  wd::open(1 + sim::draw(2));
  int done = 0;
  auto owner = [](auto t) -> dd::async_task<void> { (void)co_await t; };
  switch (what) {
    case 0:
      if (kind == 0)
        f_loop(n).get();
      else if (kind == 1)
        owner(f_loop(n)).get();
      else
        f_loop(n).start_and_detach();
      break;
    case 1:
      if (kind == 0)
        SIM_CHECK(f_chain(n).get() == n, "value", "a chain of tasks");
      else
        owner(f_chain(n)).get();
      break;
    case 2:
      f_consume(f_values(0, n), n, false, &done);
      sim::quiesce();
      break;
    case 3:
      f_consume(f_nested(n, part), n, false, &done);
      sim::quiesce();
      break;
    case 4:
      f_consume(f_deep(n - 1), n, true, &done);
      sim::quiesce();
      break;
    case 5: {
      int i = 0;
      for (int x : f_gen(0, n)) {
        mark();
        SIM_CHECK(x == i++, "value", "generator");
      }
      break;
    }
    case 6: {
      int i = 0;
      for (int x : f_gen_nested(n, part)) {
        mark();
        SIM_CHECK(x == i++, "value", "generator");
      }
      break;
    }
    default: {
      int i = n;
      for (int x : f_gen_deep(n - 1)) {
        mark();
        SIM_CHECK(x == --i, "value", "generator");
      }
      break;
    }
  }
  sim::quiesce();
  if (what >= 2 && what <= 4)
    SIM_CHECK(done == 1, "lost-task", "the consumer did not end");
  SIM_CHECK(worst < 2000, "stack", "%d steps used %zu bytes of stack", n, (size_t)worst);
  wd::close();
}
