// latch: waiters, arrivals and late comers
#include "world.h"

namespace {
struct W_ {
  uint64_t inv = 0;
  bool suspended = false;
  int resumed = 0;
  int tid = -1;
};
struct St {
  std::ptrdiff_t total = 0;       // initial count
  std::ptrdiff_t arrived = 0;     // sum of the n of arrivals which were invoked
  int arrivals = 0;    // arrival operations so far
  int done = 0, waiters = 0, parties = 0, parties_done = 0;
  W_ w[64];
  int exe = 0;
};
St S;
std::vector<Cell>* cells;      // one per arrival operation, written before arriving
std::vector<int>* arrival_val;

int new_waiter() {
  sim::Quiet z;
  return S.waiters++;
}
void arriving(std::ptrdiff_t n) {
  sim::Quiet z;
  S.arrived += n;
  sim::event("arrive", n, S.arrived);
}
void released(int w) {
  {
    sim::Quiet z;
    W_& x = S.w[w];
    x.resumed++;
    sim::event("released", w);
    SIM_CHECK(x.resumed == 1, "resumed-twice", "waiter %d was released %d times", w, x.resumed);
    SIM_CHECK(S.arrived == S.total, "early", "waiter %d was released after arrivals of %td, the count was %td", w, S.arrived, S.total);
    if (x.suspended) {
      sim::probe("waiter suspended");
      if (S.exe == wd::H_POOL || S.exe == wd::H_STRAND)
        SIM_CHECK(wd::on_pool(), "wrong-thread", "waiter %d was not resumed by the latch's executor (pool)", w);
      if (S.exe == wd::H_WORKER)
        SIM_CHECK(wd::on_worker(), "wrong-thread", "waiter %d was not resumed by the latch's executor (worker)", w);
      if (S.exe == wd::H_NEW)
        SIM_CHECK(sim::self() != x.tid, "wrong-thread", "waiter %d was not resumed by the latch's executor (new thread)", w);
    } else
      sim::probe("waiter did not suspend");
  }
  // everything before every arrival is visible
  for (size_t i = 0; i < cells->size(); ++i)
    if ((*arrival_val)[i])  // arrivals of 0 do not count
      SIM_CHECK((*cells)[i].v == (*arrival_val)[i], "visibility", "waiter %d does not see what was written before arrival %zu", w, i);
}
// stamps whether the waiter suspended; the record is static, the awaiter may die inside of await_suspend
template <typename A>
struct stamped {
  A inner;
  int w;
  bool await_ready() {
    bool r = inner.await_ready();
    sim::quiet([&] { S.w[w].suspended = !r; S.w[w].tid = sim::self(); });
    return r;
  }
  auto await_suspend(std::coroutine_handle<> h) {
    // the awaiter may die in there, unless it turns out that nobody has to wait
    const int w_ = w;
    if constexpr (std::is_void_v<decltype(inner.await_suspend(h))>) {
      inner.await_suspend(h);
    } else {
      auto r = inner.await_suspend(h);
      bool goes_on = false;
      if constexpr (std::is_same_v<decltype(r), bool>)
        goes_on = !r;
      else
        goes_on = std::coroutine_handle<>(r) == h;
      if (goes_on)
        sim::quiet([&] { S.w[w_].suspended = false; });
      return r;
    }
  }
  void await_resume() {
    inner.await_resume();
  }
};
template <typename A>
stamped(A&&, int) -> stamped<A>;

struct Op {
  int kind;  // 0 count_down, 1 wait, 2 arrive_and_wait, 3 yield, 4 ready
  std::ptrdiff_t n;
  int idx;   // arrival index
  int pauses;
  int hop;
};
dd::job waiter(dd::latch& l, int w, int hop, int tail) {
  std::unique_ptr<Cell> local(new Cell{w});
  if (hop)
    WD_HOP(hop);
  co_await stamped{l.wait(), w};
  released(w);
  SIM_CHECK(local->v == w, "corrupt", "frame of waiter %d", w);
  SIM_CHECK(l.ready(), "not-ready", "ready() is false after a waiter was released");
  pause(tail);
  sim::quiet([] { S.done++; });
}
dd::job arriver(dd::latch& l, int w, std::ptrdiff_t n, int idx, int hop, int tail) {
  std::unique_ptr<Cell> local(new Cell{w});
  if (hop)
    WD_HOP(hop);
  (*cells)[idx].v = (*arrival_val)[idx];
  auto&& a = l.arrive_and_wait(n);
  arriving(n);
  co_await stamped{a, w};
  released(w);
  SIM_CHECK(local->v == w, "corrupt", "frame of waiter %d", w);
  SIM_CHECK(l.ready(), "not-ready", "ready() is false after a waiter was released");
  pause(tail);
  sim::quiet([] { S.done++; });
}
void perform(dd::latch& l, const Op& o) {
  pause(o.pauses);
  switch (o.kind) {
    case 0:
      (*cells)[o.idx].v = (*arrival_val)[o.idx];
      arriving(o.n);
      if (o.n == 1 && o.hop % 2)
        l.count_down();
      else
        l.count_down(o.n);
      break;
    case 1:
      waiter(l, new_waiter(), o.hop, o.pauses);
      break;
    case 2:
      arriver(l, new_waiter(), o.n, o.idx, o.hop, o.pauses);
      break;
    case 3:
      sim::yield();
      break;
    default: {
      bool before = sim::quiet([] { return S.arrived == S.total; });
      bool r = l.ready();
      bool after = sim::quiet([] { return S.arrived == S.total; });
      SIM_CHECK(!r || after, "early", "ready() is true although arrivals of only %td of %td were made", S.arrived, S.total);
      (void)before;
      break;
    }
  }
}
}  // namespace

SIM_SCENARIO(latch_mixed, 4, "latch: waits, arrivals of several n, arrive_and_wait race with the last decrement") {
  int nthr = 1 + sim::draw(3);
  int narr = often(5, 20);        // arrival operations; 0: the latch is ready at once
  int nwait = often(4, 20);
  static const int exes[] = {wd::H_INLINE, wd::H_POOL, wd::H_WORKER, wd::H_NEW, wd::H_STRAND};
  S = St{};
  S.exe = exes[sim::draw(5)];
  int nw = 1 + sim::draw(2);
  bool hops = sim::chance(1, 3);
  std::vector<std::vector<Op>> progs(nthr);
  std::vector<Op> ops;
  std::vector<std::ptrdiff_t> ns;
  // counts beyond 16, 31 and 32 bits
  static const std::ptrdiff_t units[] = {1, 1, 1, 1, 1, 1 << 8, 1 << 16, std::ptrdiff_t(1) << 31, std::ptrdiff_t(1) << 32, (std::ptrdiff_t(1) << 40) + 3};
  const std::ptrdiff_t unit = units[sim::draw(10)];
  for (int i = 0; i < narr; ++i) {
    Op o{sim::draw(2) ? 2 : 0, often(3, 300), i, (int)sim::draw(3), 0};
    if (o.n == 0 && sim::draw(2))
      o.n = 1;
    if (o.n > 1 || unit > 1 && sim::draw(2))
      o.n *= unit;
    ops.push_back(o);
    ns.push_back(o.n);
    S.total += o.n;
  }
  // count 0 with arrivals of 0 is allowed, too
  for (int i = 0; i < nwait; ++i)
    ops.push_back(Op{1, 0, 0, (int)sim::draw(3), 0});
  for (Op& o : ops)
    if (hops)
      o.hop = wd::draw_hop();
  // deal the operations out in a drawn order
  while (!ops.empty()) {
    int i = sim::draw(ops.size());
    progs[sim::draw(nthr)].push_back(ops[i]);
    ops.erase(ops.begin() + i);
  }
  for (auto& p : progs)
    if (sim::chance(1, 4))
      p.push_back(Op{4, 0, 0, (int)sim::draw(3), 0});
  std::vector<Cell> cs(narr);
  std::vector<int> av(narr);
  for (int i = 0; i < narr; ++i)
    av[i] = ns[i] ? scrambled(i) : 0;
  cells = &cs;
  arrival_val = &av;
  wd::open(nw);
  {
    wd::Exec ex{S.exe};
    auto run = [&](dd::latch& l) {
      SIM_CHECK(l.ready() == (S.total == 0), "not-ready", "ready() of a fresh latch of %td", S.total);
      std::vector<std::thread> ts;
      for (int i = 1; i < nthr; ++i)
        ts.emplace_back([&, i] {
          for (const Op& o : progs[i])
            perform(l, o);
        });
      for (const Op& o : progs[0])
        perform(l, o);
      for (auto& t : ts)
        t.join();
      sim::quiesce();
      sim::quiet([&] {
        SIM_CHECK(S.arrived == S.total, "harness", "arrivals");
        SIM_CHECK(S.done == S.waiters, "lost-waiter", "the count is zero, but %d of %d waiters were never released", S.waiters - S.done,
                  S.waiters);
      });
      SIM_CHECK(l.ready(), "not-ready", "ready() is false after the count reached zero");
      // late comers
      int before = sim::quiet([] { return S.done; });
      waiter(l, new_waiter(), 0, 0);
      SIM_CHECK(sim::quiet([] { return S.done; }) == before + 1, "lost-waiter", "wait() on a ready latch suspended");
      sim::quiesce();
      (void)l.get_executor();
    };
    if (S.exe == wd::H_POOL) {
      dd::latch l(S.total, *wd::W.pool);
      run(l);
    } else if (S.exe == wd::H_WORKER) {
      dd::latch l(S.total, *wd::W.work);
      run(l);
    } else if (S.exe == wd::H_INLINE) {
      dd::this_thread_executor_t e;
      dd::latch l(S.total, e);
      run(l);
    } else if (S.exe == wd::H_NEW) {
      dd::new_thread_executor_t e;
      dd::latch l(S.total, e);
      run(l);
    } else {
      dd::latch l(S.total, ex);
      run(l);
    }
  }
  wd::close();
}

// every waiter is an arriver: nobody else touches the latch, frames die as soon as they are released
SIM_SCENARIO(latch_barrier, 2, "latch: n coroutines on a pool meet with arrive_and_wait") {
  S = St{};
  int n = 2 + often(4, 20);
  S.total = n;
  S.exe = wd::H_POOL;
  int nw = 1 + sim::draw(3);
  int waits = sim::draw(3);
  std::vector<int> hops(n + waits);
  for (int& h : hops)
    h = 1 + sim::draw(wd::NH - 1);
  std::vector<Cell> cs(n);
  std::vector<int> av(n);
  for (int i = 0; i < n; ++i)
    av[i] = scrambled(i);
  cells = &cs;
  arrival_val = &av;
  wd::open(nw);
  {
    dd::latch l(n, *wd::W.pool);
    for (int i = 0; i < n; ++i) {
      if (i < waits)
        waiter(l, new_waiter(), hops[n + i], 0);
      arriver(l, new_waiter(), 1, i, hops[i], 0);
    }
    sim::quiesce();
    sim::quiet([&] {
      SIM_CHECK(S.done == S.waiters, "lost-waiter", "the count is zero, but %d of %d waiters were never released", S.waiters - S.done,
                S.waiters);
    });
  }
  wd::close();
}
