// logical_thread: completion against request_stop, join, detach, destruction, move assignment, swap and stop().
#include "world.h"

namespace {
enum { M_FREE, M_UNTIL_STOP, M_PEER, NMODE };  // ends by itself | runs until stopped | ends when its peer has seen its stop
struct Plan {
  int mode = 0;
  int hops[4] = {};
  int nhops = 1;
  int pauses = 0;
  int peer = -1;
};
struct L {
  int started = 0, finished = 0, tok = -1, local = -1;
  int start_tid = -1;
  uint64_t stop_called = 0;
  uint64_t saw_stop = 0;
  bool detached = false;
};
constexpr int MAX = 12;
Plan plan[MAX];
L st[MAX];
Cell* side;
Cell* before;   // written by the owner before request_stop, read by the coroutine after it saw the stop

struct Rendezvous {  // one coroutine waits for a mark, somebody sets it
  std::atomic<uintptr_t> h{0};
  static constexpr uintptr_t DONE = 1;
};
Rendezvous mark[MAX];
struct wait_mark {
  Rendezvous& r;
  bool await_ready() {
    return false;
  }
  bool await_suspend(std::coroutine_handle<> c) {
    uintptr_t e = 0;
    return r.h.compare_exchange_strong(e, (uintptr_t)c.address());
  }
  void await_resume() {
  }
};
void set_mark(Rendezvous& r) {
  uintptr_t p = r.h.exchange(Rendezvous::DONE);
  if (p && p != Rendezvous::DONE)
    std::coroutine_handle<>::from_address((void*)p).resume();
}

dd::logical_thread body(int i, Token arg) {
  sim::quiet([&] {
    SIM_CHECK(++st[i].started == 1, "started-twice", "logical_thread %d", i);
    st[i].start_tid = sim::self();
  });
  std::unique_ptr<Cell> c(new Cell{i});
  Token local;
  {
    int t = g_track.fresh();
    sim::quiet([&] { st[i].local = t; });
    local = Token(t);
  }
  const Plan& p = plan[i];
  dd::stop_token tok = co_await dd::this_coro::stop_token;
  auto stop = [&] {
    bool s = tok.stop_requested();
    if (s) {
      sim::quiet([&] {
        SIM_CHECK(st[i].stop_called, "stop-invented", "logical_thread %d sees a stop nobody requested", i);
        st[i].saw_stop = sim::now();
      });
      SIM_CHECK(before[i].v == scrambled(i), "visibility", "what was written before request_stop of %d is not visible", i);
    } else
      sim::quiet([&] { SIM_CHECK(!st[i].saw_stop, "stop-lost", "the stop of logical_thread %d disappeared", i); });
    return s;
  };
  for (int k = 0; k < p.nhops; ++k) {
    WD_HOP(p.hops[k]);
    pause(p.pauses);
    SIM_CHECK(c->v == i && arg.id == st[i].tok, "corrupt", "frame of logical_thread %d", i);
    stop();
  }
  if (p.mode == M_UNTIL_STOP)
    for (int k = 0; !stop(); ++k) {
      if (k < 4)
        WD_HOP(p.hops[k % p.nhops]);
      else {
        bool ok = bool(co_await dd::jump_on(*wd::W.work));
        SIM_CHECK(ok, "spurious-cancel", "cancelled");
      }
      sim::yield();
    }
  if (p.mode == M_PEER) {
    co_await wait_mark{mark[p.peer]};
    sim::probe("waited for a peer's stop");
  }
  side[i].v = scrambled(i);
  bool seen = p.mode == M_UNTIL_STOP;
  sim::quiet([&] { st[i].finished++; });
  if (seen)
    set_mark(mark[i]);
}

void note_stop(int i) {
  before[i].v = scrambled(i);
  sim::quiet([&] {
    if (!st[i].stop_called)
      st[i].stop_called = sim::now();
  });
}
// only the first stop writes
void will_stop(int i) {
  bool first = sim::quiet([&] { return !st[i].stop_called; });
  if (first)
    note_stop(i);
}
void joined(int i, const char* what) {
  sim::quiet([&] { SIM_CHECK(st[i].finished == 1, "early", "%s returned although logical_thread %d has not finished", what, i); });
  SIM_CHECK(side[i].v == scrambled(i), "visibility", "%s: what logical_thread %d wrote is not visible", what, i);
  SIM_CHECK(token_dead(st[i].tok) && token_dead(st[i].local), "object-leak", "%s: frame of logical_thread %d is still alive", what, i);
}
enum { O_STOP, O_MOVE, O_SWAP, O_PAUSE, O_JOIN, O_DETACH, O_DTOR, O_ASSIGN_EMPTY, O_ASSIGN, O_THREAD, NOPS };
struct Op {
  int kind;
  int pauses;
};
dd::logical_thread make(int i) {
  int t = g_track.fresh();
  sim::quiet([&] { st[i].tok = t; });
  dd::logical_thread l = body(i, Token(t));
  sim::quiet([&] {
    SIM_CHECK(st[i].started == 1 && st[i].start_tid == sim::self(), "not-immediate", "logical_thread %d did not start in its creator", i);
  });
  SIM_CHECK(l.joinable() && l.stop_possible(), "empty", "a new logical_thread is not joinable");
  return l;
}
// i2 is used by O_ASSIGN
void own(dd::logical_thread lt, int i, int i2, const Op* ops, int n) {
  bool stopped = plan[i].mode != M_UNTIL_STOP;
  {
    dd::logical_thread l(std::move(lt));
    SIM_CHECK(!lt.joinable() && l.joinable(), "empty", "move of a logical_thread");
    bool end = false;
    for (int k = 0; k < n && !end; ++k) {
      pause(ops[k].pauses);
      int kind = ops[k].kind;
      if ((kind == O_JOIN || kind == O_DETACH) && !stopped) {
        will_stop(i);
        SIM_CHECK(l.request_stop(), "request-stop", "request_stop of a joinable logical_thread returned false");
        stopped = true;
      }
      switch (kind) {
        case O_STOP:
          will_stop(i);
          SIM_CHECK(l.request_stop(), "request-stop", "request_stop of a joinable logical_thread returned false");
          stopped = true;
          break;
        case O_MOVE: {
          dd::logical_thread o(std::move(l));
          SIM_CHECK(!l.joinable() && o.joinable() && !l.request_stop(), "empty", "move of a logical_thread");
          l = std::move(o);
          break;
        }
        case O_SWAP: {
          dd::logical_thread o;
          swap(l, o);
          SIM_CHECK(!l.joinable() && o.joinable(), "empty", "swap");
          o.swap(l);
          break;
        }
        case O_JOIN:
          l.join();
          SIM_CHECK(!l.joinable(), "empty", "joinable after join");
          joined(i, "join");
          end = true;
          sim::probe("joined");
          break;
        case O_DETACH:
          sim::quiet([&] { st[i].detached = true; });
          l.detach();
          SIM_CHECK(!l.joinable(), "empty", "joinable after detach");
          end = true;
          sim::probe("detached");
          break;
        case O_DTOR: {
          will_stop(i);
          { dd::logical_thread dies(std::move(l)); }
          joined(i, "destructor");
          end = true;
          sim::probe("destroyed");
          break;
        }
        case O_ASSIGN_EMPTY:
          will_stop(i);
          l = dd::logical_thread();
          joined(i, "move assignment");
          end = true;
          break;
        case O_ASSIGN: {
          if (i2 < 0)
            break;
          dd::logical_thread o = make(i2);
          will_stop(i);
          l = std::move(o);
          SIM_CHECK(l.joinable() && !o.joinable(), "empty", "move assignment");
          joined(i, "move assignment");
          will_stop(i2);
          { dd::logical_thread dies(std::move(l)); }
          joined(i2, "destructor");
          return;
        }
        case O_THREAD: {
          std::thread th([&l, i, i2, ops, k, n] { own(std::move(l), i, i2, ops + k + 1, n - k - 1); });
          th.join();
          return;
        }
        default:
          pause(3);
          break;
      }
    }
    if (end)
      goto second;
    will_stop(i);
  }
  joined(i, "destructor");
second:
  if (i2 >= 0) {
    dd::logical_thread o = make(i2);
    will_stop(i2);
    o.request_stop();
    o.join();
    joined(i2, "join");
  }
}
Plan draw_plan(bool free_only) {
  Plan p;
  p.mode = free_only ? M_FREE : sim::draw(2);
  p.nhops = 1 + sim::draw(3);
  for (int h = 0; h < p.nhops; ++h)
    p.hops[h] = wd::draw_hop();
  p.pauses = sim::draw(3);
  return p;
}
}  // namespace

SIM_SCENARIO(lthread_mixed, 2, "logical_thread: every way to give up ownership against completion on other threads") {
  int nthr = 1 + sim::draw(3);
  struct Item {
    int i, i2 = -1;
    std::vector<Op> ops;
  };
  std::vector<std::vector<Item>> progs(nthr);
  int n = 0;
  for (auto& p : progs) {
    int m = 1 + sim::draw(2);
    for (int k = 0; k < m; ++k) {
      Item it;
      st[n] = L{};
      plan[n] = draw_plan(false);
      it.i = n++;
      if (sim::draw(2)) {
        st[n] = L{};
        plan[n] = draw_plan(false);
        it.i2 = n++;
      }
      int no = 1 + sim::draw(4);
      for (int o = 0; o < no; ++o)
        it.ops.push_back({(int)sim::draw(NOPS), (int)sim::draw(3)});
      p.push_back(std::move(it));
    }
  }
  std::vector<Cell> cells(MAX), cells2(MAX);
  side = cells.data();
  before = cells2.data();
  for (auto& m : mark)
    m.h = 0;
  wd::open(1 + sim::draw(2));
  {
    auto run = [&](int t) {
      for (Item& it : progs[t])
        own(make(it.i), it.i, it.i2, it.ops.data(), it.ops.size());
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] { run(t); });
    run(0);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    for (int i = 0; i < n; ++i) {
      if (!st[i].started)
        continue;
      SIM_CHECK(st[i].finished == 1, "lost", "logical_thread %d never finished", i);
      SIM_CHECK(token_dead(st[i].tok) && token_dead(st[i].local), "object-leak", "frame of logical_thread %d was not destroyed", i);
    }
    check_tokens();
  }
  wd::close();
}

SIM_SCENARIO(lthread_stop, 1, "stop over several logical_threads: one ends only after another one saw its stop") {
  int n = 2 + sim::draw(3);
  bool range = sim::draw(3) == 2;
  bool from_thread = sim::draw(2);
  for (int i = 0; i < n; ++i) {
    st[i] = L{};
    plan[i] = draw_plan(false);
  }
  // somebody who is joined earlier waits for somebody who is joined later
  int later = 1 + sim::draw(n - 1);
  plan[later].mode = M_UNTIL_STOP;
  int earlier = sim::draw(later);
  plan[earlier].mode = M_PEER;
  plan[earlier].peer = later;
  std::vector<Cell> cells(MAX), cells2(MAX);
  side = cells.data();
  before = cells2.data();
  for (auto& m : mark)
    m.h = 0;
  int pauses = sim::draw(4);
  wd::open(1 + sim::draw(2));
  auto go = [&] {
    std::vector<dd::logical_thread> v;
    v.reserve(n);
    for (int i = 0; i < n; ++i)
      v.push_back(make(i));
    pause(pauses);
    for (int i = 0; i < n; ++i)
      will_stop(i);
    if (range)
      dd::stop(v);
    else if (n == 2)
      dd::stop(v[0], v[1]);
    else if (n == 3)
      dd::stop(v[0], v[1], v[2]);
    else
      dd::stop(v[0], v[1], v[2], v[3]);
    for (int i = 0; i < n; ++i) {
      SIM_CHECK(!v[i].joinable(), "empty", "joinable after stop");
      joined(i, "stop");
    }
  };
  if (from_thread) {
    std::thread t(go);
    t.join();
  } else
    go();
  sim::quiesce();
  check_tokens();
  wd::close();
}
