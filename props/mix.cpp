// Programs which combine everything: tasks, when_all, when_any, channels, generators, latches, events, hops, memory resources,
// blocking clients; optionally the pool is stopped and destroyed in the middle of it.
#include "world.h"

namespace {
enum { O_HOP, O_CHILD, O_ALL_VEC, O_ALL_PACK, O_ANY, O_CHAN, O_GEN, O_LATCH, O_EVENT, O_ANYEV, O_ALLEV, O_SPAWN, O_LT, O_ASYNC, O_TASK_EXEC, NOP };
struct Op {
  int kind = 0, a = 0, b = 0, nk = 0;
  int kids[3] = {};
};
struct Node {
  Op ops[4];
  int n = 0, form = 0;
  bool throws = false;
};
struct St {
  int token = -1, started = 0, ended = 0, created = 0;
  bool may_drop = false;
};
constexpr int MAXN = 48, MAXL = 12;
Node plan[MAXN];
St st[MAXN];
int nn;
bool stopped, closing;
CheckedResource* res;
struct Cancel {};

std::optional<dd::latch>* latches;
int nlatch;
dd::event<int>* ev;   // four
Cell* cells;          // written by a node before it ends, read by whoever consumed it
int waiting;          // for events

int draw_tree(int depth) {
  int i = nn++;
  plan[i] = Node{};
  st[i] = St{};
  Node p;
  p.n = sim::draw(depth ? 4 : 3);
  p.form = sim::draw(4);
  p.throws = sim::chance(1, 6);
  for (int k = 0; k < p.n; ++k) {
    Op& o = p.ops[k];
    o.kind = sim::draw(NOP);
    o.a = sim::draw(8);
    o.b = sim::draw(4);
    auto kids = [&](int lo, int hi) {
      int m = sim::range(lo, hi);
      if (!depth || nn + m > MAXN - 4) {
        o.kind = O_HOP;
        return;
      }
      o.nk = m;
      for (int q = 0; q < m; ++q)
        o.kids[q] = draw_tree(depth - 1);
    };
    switch (o.kind) {
      case O_CHILD:
      case O_CHAN:
      case O_SPAWN:
      case O_ASYNC:
        kids(1, 1);
        break;
      case O_ALL_VEC:
        kids(1, 3);
        break;
      case O_ALL_PACK:
      case O_ANY:
        kids(2, 2);
        break;
      case O_LATCH:
        if (nlatch >= MAXL)
          o.kind = O_HOP;
        else
          o.nk = nlatch++;
        break;
    }
  }
  plan[i] = p;
  return i;
}

#define MIX_HOP(k)                                                         \
  do {                                                                     \
    int hk_ = (k) % 7;                                                     \
    bool ok_ = true;                                                       \
    if (sim::quiet([&] { return closing; }) && (hk_ == wd::H_POOL || hk_ == wd::H_STRAND)) \
      throw Cancel{};                                                      \
    if (hk_ == wd::H_POOL) {                                               \
      ok_ = bool(co_await dd::jump_on(*wd::W.pool));                       \
      if (ok_)                                                             \
        SIM_CHECK(wd::on_pool(), "wrong-thread", "jump_on(pool)");         \
    } else if (hk_ == wd::H_STRAND) {                                      \
      auto s_ = wd::W.pool->get_strand(1);                                 \
      ok_ = bool(co_await dd::jump_on(s_));                                \
      if (ok_)                                                             \
        SIM_CHECK(wd::on_pool(), "wrong-thread", "jump_on(strand)");       \
    } else                                                                 \
      WD_HOP(hk_);                                                         \
    if (!ok_) {                                                            \
      SIM_CHECK(sim::quiet([] { return stopped; }), "spurious-cancel", "cancelled although nobody stops the pool"); \
      throw Cancel{};                                                      \
    }                                                                      \
  } while (0)

struct Body {
  int i;
  explicit Body(int i) : i(i) {
    sim::Quiet z;
    SIM_CHECK(++st[i].started == 1, "started-twice", "node %d", i);
  }
  ~Body() {
    sim::Quiet z;
    SIM_CHECK(++st[i].ended == 1, "ended-twice", "node %d", i);
  }
};
dd::task<void> op(int i, const Op& o);
template <typename... W>
dd::task<int> run(int i, Token t, W...) {
  Body b(i);
  for (int k = 0; k < plan[i].n; ++k)
    co_await op(i, plan[i].ops[k]);
  SIM_CHECK(t.id >= 0, "corrupt", "argument of node %d", i);
  cells[i].v = scrambled(i);
  if (plan[i].throws)
    throw Err{i};
  co_return scrambled(i);
}
template <typename... W>
dd::async_task<int> run_async(int i, Token t, W...) {
  Body b(i);
  for (int k = 0; k < plan[i].n; ++k)
    co_await op(i, plan[i].ops[k]);
  cells[i].v = scrambled(i);
  if (plan[i].throws)
    throw Err{i};
  co_return scrambled(i);
}
template <typename... W>
dd::channel<int> run_chan(int i, int m, Token t, W...) {
  Body b(i);
  for (int k = 0; k < m; ++k) {
    if (k < plan[i].n)
      co_await op(i, plan[i].ops[k]);
    cells[i].v = k;
    co_yield scrambled(i) + k;
  }
  cells[i].v = scrambled(i);
  if (plan[i].throws)
    throw Err{i};
}
dd::channel<int> chan_outer(dd::channel<int> in, int i) {
  co_yield scrambled(i) - 1;
  co_yield dd::elements_of(std::move(in));
}
Token fresh(int i) {
  int t = g_track.fresh();
  sim::quiet([&] { st[i].token = t; st[i].created++; });
  return Token(t);
}
auto resource() {
  return dd::with_resource{static_cast<std::pmr::memory_resource&>(*res)};
}
dd::task<int> spawn(int i) {
  if (plan[i].form == 0)
    return run(i, fresh(i), resource());
  return run(i, fresh(i));
}
dd::channel<int> spawn_chan(int i, int m) {
  if (plan[i].form == 0)
    return run_chan(i, m, fresh(i), resource());
  return run_chan(i, m, fresh(i));
}
// the result of node c as its consumer sees it: value, or its exception, or a cancellation on its way
void got(int c, bool threw, int what) {
  SIM_CHECK(threw == plan[c].throws, "value", "node %d: exception %s", c, threw ? "invented" : "lost");
  SIM_CHECK(what == (threw ? c : scrambled(c)), "value", "node %d delivered %d", c, what);
  SIM_CHECK(cells[c].v == scrambled(c), "visibility", "what node %d wrote is not visible", c);
  sim::quiet([&] { SIM_CHECK(st[c].ended == 1, "early", "node %d did not end", c); });
}
void got_cancel() {
  SIM_CHECK(sim::quiet([] { return stopped; }), "spurious-cancel", "a cancellation came out although nobody stops the pool");
}
template <typename X>
bool got_expected(int c, X& e) {  // true: cancelled
  if (e) {
    got(c, false, *e);
    return false;
  }
  SIM_CHECK(e.error(), "value", "node %d: neither value nor exception", c);
  try {
    std::rethrow_exception(e.error());
  } catch (const Err& x) {
    got(c, true, x.id);
  } catch (const Cancel&) {
    got_cancel();
    return true;
  }
  return false;
}
dd::this_thread_executor_t inline_exe;
dd::job arrive(dd::latch& l, int hop, int n) {
  try {
    MIX_HOP(hop);
  } catch (const Cancel&) {
  }
  l.count_down(n);
}
dd::logical_thread looper(int hop) {
  auto tok = co_await dd::this_coro::stop_token;
  try {
    MIX_HOP(hop);
    for (int k = 0; k < 3 && !tok.stop_requested(); ++k)
      sim::yield();
  } catch (const Cancel&) {
  }
}
dd::generator<int> numbers(int from, int n, int depth) {
  for (int k = 0; k < n; ++k) {
    if (depth && k == n / 2)
      co_yield dd::elements_of(numbers(from * 10, n, depth - 1));
    co_yield from + k;
  }
}
struct Waits {
  Waits() {
    sim::quiet([] { waiting++; });
  }
  ~Waits() {
    sim::quiet([] { waiting--; });
  }
};

dd::task<void> op(int i, const Op& o) {
  switch (o.kind) {
    case O_HOP:
      MIX_HOP(o.a);
      break;
    case O_TASK_EXEC: {
      if (sim::quiet([] { return closing; }))
        break;
      dd::any_executor_ref r(*wd::W.pool);
      if (!co_await dd::jump_on(r)) {
        got_cancel();
        throw Cancel{};
      }
      SIM_CHECK(wd::on_pool(), "wrong-thread", "jump_on(any_executor_ref)");
      break;
    }
    case O_CHILD: {
      int c = o.kids[0];
      bool threw = false;
      int what = -1;
      auto t = spawn(c);
      try {
        what = co_await t;
      } catch (const Err& e) {
        threw = true;
        what = e.id;
      }
      got(c, threw, what);
      break;
    }
    case O_ALL_VEC: {
      std::vector<dd::task<int>> v;
      for (int k = 0; k < o.nk; ++k)
        v.push_back(spawn(o.kids[k]));
      auto r = co_await dd::when_all(std::move(v));
      SIM_CHECK((int)r.size() == o.nk, "value", "when_all of %d returned %zu", o.nk, r.size());
      bool cancelled = false;
      for (int k = 0; k < o.nk; ++k)
        cancelled |= got_expected(o.kids[k], r[k]);
      if (cancelled)
        throw Cancel{};
      break;
    }
    case O_ALL_PACK: {
      auto r = co_await dd::when_all(spawn(o.kids[0]), spawn(o.kids[1]));
      bool c0 = got_expected(o.kids[0], std::get<0>(r)), c1 = got_expected(o.kids[1], std::get<1>(r));
      if (c0 || c1)
        throw Cancel{};
      break;
    }
    case O_ANY: {
      sim::quiet([&] { st[o.kids[0]].may_drop = st[o.kids[1]].may_drop = true; });
      auto r = co_await dd::when_any(spawn(o.kids[0]), spawn(o.kids[1]));
      SIM_CHECK(r.index() == 1 || r.index() == 2, "value", "when_any: index %zu", r.index());
      bool cancelled = r.index() == 1 ? got_expected(o.kids[0], std::get<1>(r)) : got_expected(o.kids[1], std::get<2>(r));
      if (cancelled)
        throw Cancel{};
      break;
    }
    case O_CHAN: {
      int c = o.kids[0], m = o.a % 4, k = 0;
      bool outer = o.b & 1, early = o.b & 2;
      bool threw = false, out = false;
      int what = -1;
      {
        dd::channel<int> ch = outer ? chan_outer(spawn_chan(c, m), c) : spawn_chan(c, m);
        try {
          bool first = outer;
          for (auto b = co_await ch.begin(); b != ch.end(); (void)(co_await (++b))) {
            if (first) {
              SIM_CHECK(*b == scrambled(c) - 1, "sequence", "first value of channel %d", c);
              first = false;
              continue;
            }
            SIM_CHECK(k < m && *b == scrambled(c) + k, "sequence", "value %d of channel %d is %d", k, c, *b);
            SIM_CHECK(cells[c].v == k, "visibility", "what the producer %d wrote is not visible", c);
            ++k;
            if (early && k == 2) {
              out = true;
              break;
            }
          }
        } catch (const Err& e) {
          threw = true;
          what = e.id;
        }
      }
      if (!out) {
        SIM_CHECK(k == m, "sequence", "channel %d ended after %d of %d", c, k, m);
        got(c, threw, threw ? what : scrambled(c));
      }
      break;
    }
    case O_GEN: {
      int n = o.a % 4, seen = 0;
      for (int x : numbers(i + 1, n, o.b))
        seen += x != 0;
      int want = 0;
      for (int d = 0; d <= o.b; ++d)
        want += n;
      SIM_CHECK(seen == want, "sequence", "generator: %d values instead of %d", seen, want);
      break;
    }
    case O_LATCH: {
      auto& slot = latches[o.nk];
      int n = 1 + o.a % 3;
      bool also = o.b & 2;
      if (o.b & 1)
        slot.emplace(n + also, *wd::W.work);
      else
        slot.emplace(n + also, inline_exe);
      dd::latch& l = *slot;
      for (int k = 0; k < n; ++k)
        arrive(l, o.a + k, 1);
      if (also)
        co_await l.arrive_and_wait();
      else
        co_await l.wait();
      SIM_CHECK(l.ready(), "early", "released by a latch which is not ready");
      break;
    }
    case O_EVENT: {
      Waits w;
      int x = co_await ev[o.a % 4];
      SIM_CHECK(x == 7, "value", "the event delivered %d", x);
      break;
    }
    case O_ANYEV: {
      Waits w;
      auto r = co_await dd::when_any(ev[o.a % 4], ev[(o.a + 1) % 4]);
      SIM_CHECK(r.index() < 2 && (r.index() ? std::get<1>(r) : std::get<0>(r)) == 7, "value", "when_any of events");
      break;
    }
    case O_ALLEV: {
      Waits w;
      auto [x, y] = co_await dd::when_all(ev[o.a % 4], ev[(o.a + 1) % 4]);
      SIM_CHECK(x == 7 && y == 7, "value", "when_all of events");
      break;
    }
    case O_SPAWN:
      spawn(o.kids[0]).start_and_detach();
      break;
    case O_ASYNC: {
      int c = o.kids[0];
      auto a = plan[c].form == 0 ? run_async(c, fresh(c), resource()) : run_async(c, fresh(c));
      if (a.ready()) {
        bool threw = false;
        int what = -1;
        try {
          what = a.get();
        } catch (const Err& e) {
          threw = true;
          what = e.id;
        }
        got(c, threw, what);
      }
      break;
    }
    case O_LT: {
      auto l = looper(o.a);
      if (o.b & 1)
        l.request_stop();
      l.detach();
      break;
    }
  }
}

dd::task<void> detached_root(int i) {
  try {
    int v = co_await spawn(i);
    got(i, false, v);
  } catch (const Err& e) {
    got(i, true, e.id);
  } catch (const Cancel&) {
    got_cancel();
  }
}
void blocking_root(int i) {
  try {
    int v = spawn(i).get();
    got(i, false, v);
  } catch (const Err& e) {
    got(i, true, e.id);
  } catch (const Cancel&) {
    got_cancel();
  }
}

void mix(bool stop) {
  nn = nlatch = waiting = 0;
  stopped = closing = false;
  int nthr = 1 + sim::draw(3);
  std::vector<std::vector<std::pair<int, bool>>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + sim::draw(2);
    for (int k = 0; k < n && nn < MAXN - 4; ++k) {
      int i = draw_tree(3);
      p.push_back({i, (bool)sim::draw(2)});
    }
  }
  int nw = 1 + sim::draw(3), pauses = sim::draw(12), notes = sim::draw(6), how = sim::draw(2);
  CheckedResource r("mix");
  std::vector<std::optional<dd::latch>> ls(MAXL);
  std::vector<Cell> cs(MAXN);
  auto evs = std::make_unique<dd::event<int>[]>(4);
  res = &r;
  latches = ls.data();
  cells = cs.data();
  ev = evs.get();
  wd::open(nw, true);
  int running = nthr;
  {
    std::vector<std::thread> ts;
    for (int t = 0; t < nthr; ++t)
      ts.emplace_back([&, t] {
        for (auto [i, block] : progs[t])
          if (block)
            blocking_root(i);
          else
            detached_root(i).start_and_detach();
        sim::quiet([&] { --running; });
      });
    for (int k = 0; k < notes; ++k) {
      pause(2);
      ev[k % 4].notify_all(inline_exe, 7);
    }
    pause(pauses);
    if (stop) {
      sim::quiet([] { stopped = true; });
      if (how)
        wd::W.pool->request_stop();
    }
    for (;;) {
      sim::quiesce();
      if (stop && sim::quiet([] { return !closing; })) {
        sim::quiet([] { closing = true; });
        wd::W.pool.reset();
        sim::probe("pool destroyed");
        continue;
      }
      if (sim::quiet([&] { return !running && !waiting; }))
        break;
      SIM_CHECK(sim::quiet([] { return waiting; }), "stuck", "clients wait for something which does not happen");
      bool any = false;
      for (int k = 0; k < 4; ++k)
        if (sim::draw(2))
          any |= ev[k].notify_all(inline_exe, 7);
        else
          any |= ev[k].notify_all(*wd::W.work, 7);
      SIM_CHECK(any, "lost", "%d nodes wait for events, but no event woke anybody", waiting);
    }
    for (auto& t : ts)
      t.join();
  }
  sim::quiesce();
  for (int k = 0; k < 4; ++k)  // when_any leaves the callbacks of the other events
    ev[k].notify_all(inline_exe, 7);
  sim::quiesce();
  sim::quiet([&] {
    for (int i = 0; i < nn; ++i) {
      SIM_CHECK(st[i].started == st[i].ended, "lost", "node %d started %d times and ended %d times", i, st[i].started, st[i].ended);
      SIM_CHECK(st[i].created <= 1 && (stop || st[i].started == st[i].created || st[i].may_drop), "lost", "node %d never started", i);
    }
  });
  check_tokens();
  SIM_CHECK(r.outstanding() == 0, "resource-leak", "%zu frames did not come back", r.outstanding());
  wd::W.work.reset();
  wd::W.pool.reset();
  sim::quiesce();
  SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left at the end", sim::live_threads() - 1);
}
}  // namespace

SIM_SCENARIO(mix_programs, 3, "random programs out of all primitives") {
  mix(false);
}
SIM_SCENARIO(mix_stopped, 2, "random programs out of all primitives, the pool is stopped and destroyed meanwhile") {
  mix(true);
}
