// async_task: completion on any thread against wait / get / ready / detach / destruction / move / swap.
#include "world.h"

namespace {
enum { K_INT, K_VAL, K_REF, K_VOID, NKIND };
struct Val {
  int v = 0;
  std::unique_ptr<Cell> cell;
  Token tok;
};
template <int K>
using ret_t = std::conditional_t<K == K_INT, int, std::conditional_t<K == K_VAL, Val, std::conditional_t<K == K_REF, Cell&, void>>>;

struct Plan {
  int kind = 0;
  bool throws = false;
  int hops[3] = {};
  int nhops = 0;
  int pauses = 0;
};
struct T {
  int started = 0, finished = 0;
  int start_tid = -1;
  int arg = -1, local = -1, result = -1;  // tokens
  bool failed = false;
};
constexpr int MAX = 10;
Plan plan[MAX];
T st[MAX];
Cell* side;     // plain memory written by the producer
Cell* target;   // K_REF refers to it

void finish(int i) {
  side[i].v = scrambled(i);
  sim::Quiet z;
  st[i].finished++;
}
template <int K>
dd::async_task<ret_t<K>> body(int i, Token arg) {
  sim::quiet([&] {
    SIM_CHECK(++st[i].started == 1, "started-twice", "async_task %d", i);
    st[i].start_tid = sim::self();
  });
  std::unique_ptr<Cell> c(new Cell{i});
  Token local;
  {
    int t = g_track.fresh();
    sim::quiet([&] { st[i].local = t; });
    local = Token(t);
  }
  const Plan& p = plan[i];
  for (int k = 0; k < p.nhops; ++k) {
    WD_HOP(p.hops[k]);
    pause(p.pauses);
    SIM_CHECK(c->v == i && arg.id == st[i].arg, "corrupt", "frame of async_task %d", i);
  }
  finish(i);
  if (p.throws)
    throw Err{i};
  if constexpr (K == K_INT)
    co_return scrambled(i);
  else if constexpr (K == K_VAL) {
    Val v;
    v.v = scrambled(i);
    v.cell.reset(new Cell{scrambled(i)});
    int t = g_track.fresh();
    sim::quiet([&] { st[i].result = t; });
    v.tok = Token(t);
    co_return std::move(v);
  } else if constexpr (K == K_REF) {
    target[i].v = i;
    co_return target[i];
  } else
    co_return;
}
void check_done(int i, const char* what) {
  sim::quiet([&] { SIM_CHECK(st[i].finished == 1, "early", "%s returned although async_task %d has not finished", what, i); });
  SIM_CHECK(side[i].v == scrambled(i), "visibility", "%s: what async_task %d wrote is not visible", what, i);
}
enum { O_READY, O_WAIT, O_GET, O_MOVE, O_ASSIGN, O_SWAP, O_PAUSE, O_THREAD, O_DETACH, O_DESTROY, O_TAKE, O_ASSIGN_EMPTY, NOPS };
struct Op {
  int kind;
  int pauses;
};

template <int K>
void get(dd::async_task<ret_t<K>>& t, int i, bool take) {
  bool threw = false;
  try {
    if constexpr (K == K_VOID)
      t.get();
    else if constexpr (K == K_INT) {
      int v = t.get();
      SIM_CHECK(v == scrambled(i), "value", "get of async_task %d: %d", i, v);
    } else if constexpr (K == K_REF) {
      Cell& c = t.get();
      SIM_CHECK(&c == &target[i] && c.v == i, "value", "get of async_task %d: wrong reference", i);
    } else if (take) {
      Val v = t.get();
      SIM_CHECK(v.v == scrambled(i) && v.cell && v.cell->v == scrambled(i) && v.tok.id >= 0, "value", "get of async_task %d", i);
    } else {
      Val&& v = t.get();
      SIM_CHECK(v.v == scrambled(i) && v.cell && v.cell->v == scrambled(i) && v.tok.id >= 0, "value", "get of async_task %d", i);
    }
  } catch (const Err& e) {
    threw = true;
    SIM_CHECK(e.id == i, "value", "async_task %d delivered exception %d", i, e.id);
  }
  SIM_CHECK(threw == plan[i].throws, "value", "async_task %d: exception %s", i, threw ? "invented" : "lost");
  check_done(i, "get");
  SIM_CHECK(t.ready(), "ready", "async_task %d: ready is false after get", i);
}

template <int K>
void consume(dd::async_task<ret_t<K>> t, int i, const Op* ops, int n, bool was_ready) {
  dd::async_task<ret_t<K>> spare;
  auto check_ready = [&](bool must) {
    bool r = t.ready();
    SIM_CHECK(r || !must, "ready", "async_task %d: ready became false again", i);
    if (r) {
      was_ready = true;
      check_done(i, "ready");
    }
    return r;
  };
  for (int k = 0; k < n; ++k) {
    pause(ops[k].pauses);
    SIM_CHECK(!t.empty() && bool(t), "empty", "async_task %d is empty", i);
    switch (ops[k].kind) {
      case O_READY:
        check_ready(was_ready);
        break;
      case O_WAIT:
        t.wait();
        check_done(i, "wait");
        was_ready = true;
        check_ready(true);
        break;
      case O_GET:
        get<K>(t, i, false);
        was_ready = true;
        break;
      case O_TAKE:
        get<K>(t, i, true);
        sim::probe("got");
        return;
      case O_MOVE: {
        dd::async_task<ret_t<K>> o(std::move(t));
        SIM_CHECK(t.empty() && !t && !t.ready() && !o.empty() && bool(o), "empty", "move of async_task %d", i);
        t.wait();    // an empty one does not wait
        t.detach();
        t = std::move(o);
        break;
      }
      case O_ASSIGN:
        spare = std::move(t);
        t = std::move(spare);
        break;
      case O_SWAP:
        swap(t, spare);
        t.swap(spare);
        break;
      case O_THREAD: {
        std::thread th([&t, i, ops, k, n, was_ready] { consume<K>(std::move(t), i, ops + k + 1, n - k - 1, was_ready); });
        th.join();
        return;
      }
      case O_DETACH:
        t.detach();
        SIM_CHECK(t.empty() && !t, "empty", "async_task %d is not empty after detach", i);
        t.detach();
        sim::probe("detached");
        return;
      case O_DESTROY:
        sim::probe("destroyed");
        return;
      case O_ASSIGN_EMPTY: {
        t = dd::async_task<ret_t<K>>();
        SIM_CHECK(t.empty() && !t && !t.ready(), "empty", "async_task %d is not empty after an empty one was assigned to it", i);
        t.wait();
        sim::probe("assigned from an empty one");
        return;
      }
      default:
        pause(3);
        break;
    }
  }
  // t dies here
}
template <int K>
void run_one(int i, const Op* ops, int n, bool afault) {
  int tok = g_track.fresh();
  sim::quiet([&] { st[i].arg = tok; });
  Token arg(tok);
  dd::async_task<ret_t<K>> t;
  try {
    std::optional<sim::AllocFaults> f;
    if (afault)
      f.emplace();
    t = [&] {
      // only the frame may fail, the body runs without faults when it hops away; inline parts allocate too
      return body<K>(i, std::move(arg));
    }();
  } catch (const std::bad_alloc&) {
    SIM_CHECK(t.empty(), "harness", "not empty");
    sim::quiet([&] {
      st[i].failed = true;
      SIM_CHECK(!st[i].started, "started", "async_task %d started although its creation failed", i);
    });
    sim::probe("creation failed");
    return;
  }
  sim::quiet([&] {
    SIM_CHECK(st[i].started == 1 && st[i].start_tid == sim::self(), "not-immediate", "async_task %d did not start in its creator", i);
  });
  consume<K>(std::move(t), i, ops, n, false);
}
void dispatch(int i, const Op* ops, int n, bool afault) {
  switch (plan[i].kind) {
    case K_INT:
      return run_one<K_INT>(i, ops, n, afault);
    case K_VAL:
      return run_one<K_VAL>(i, ops, n, afault);
    case K_REF:
      return run_one<K_REF>(i, ops, n, afault);
    default:
      return run_one<K_VOID>(i, ops, n, afault);
  }
}
}  // namespace

SIM_SCENARIO(async_mixed, 1, "async_task: completion against wait, get, ready, detach, destruction, move and swap on several threads") {
  int nthr = 1 + sim::draw(3);
  struct Item {
    std::vector<Op> ops;
    bool afault;
  };
  std::vector<std::vector<int>> of(nthr);
  std::vector<Item> items;
  int n = 0;
  for (int t = 0; t < nthr; ++t) {
    int m = 1 + sim::draw(3);
    for (int k = 0; k < m; ++k) {
      Plan& p = plan[n] = Plan{};
      st[n] = T{};
      p.kind = sim::draw(NKIND);
      p.throws = sim::chance(1, 4);
      p.nhops = sim::draw(4);
      for (int h = 0; h < p.nhops; ++h)
        p.hops[h] = wd::draw_hop();
      p.pauses = sim::draw(3);
      Item it;
      int no = 1 + sim::draw(4);
      for (int o = 0; o < no; ++o)
        it.ops.push_back({(int)sim::draw(NOPS), (int)sim::draw(3)});
      it.afault = false;
      items.push_back(std::move(it));
      of[t].push_back(n++);
    }
  }
  std::vector<Cell> cells(MAX), refs(MAX);
  side = cells.data();
  target = refs.data();
  wd::open(1 + sim::draw(2));
  {
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] {
        for (int i : of[t])
          dispatch(i, items[i].ops.data(), items[i].ops.size(), items[i].afault);
      });
    for (int i : of[0])
      dispatch(i, items[i].ops.data(), items[i].ops.size(), items[i].afault);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    for (int i = 0; i < n; ++i) {
      SIM_CHECK(st[i].finished == 1, "lost", "async_task %d never finished", i);
      SIM_CHECK(token_dead(st[i].arg) && token_dead(st[i].local), "object-leak", "frame of async_task %d was not destroyed", i);
      SIM_CHECK(st[i].result < 0 || token_dead(st[i].result), "object-leak", "result of async_task %d was not destroyed", i);
    }
    check_tokens();
  }
  wd::close();
}

// ------------------------------------------------------------------ creation fails
namespace {
dd::async_task<Val> simple(int i, Token arg) {
  sim::quiet([&] { st[i].started++; });
  co_await dd::jump_on(*wd::W.work);
  Val v;
  v.v = i;
  v.tok = std::move(arg);
  sim::quiet([&] { st[i].finished++; });
  co_return v;
}
}  // namespace
SIM_SCENARIO(async_alloc, 1, "async_task: the frame cannot be allocated") {
  int n = 2 + often(5, 8);
  bool get_it[10];
  for (int i = 0; i < n; ++i) {
    st[i] = T{};
    get_it[i] = sim::draw(2);
  }
  wd::open(1);
  for (int i = 0; i < n; ++i) {
    int tok = g_track.fresh();
    std::optional<dd::async_task<Val>> t;
    Token arg(tok);
    try {
      sim::AllocFaults f;
      t.emplace(simple(i, std::move(arg)));
    } catch (const std::bad_alloc&) {
      sim::quiet([&] {
        st[i].failed = true;
        SIM_CHECK(!st[i].started, "started", "async_task %d started although its creation failed", i);
      });
      arg.drop();
      SIM_CHECK(token_dead(tok), "object-leak", "argument of a failed async_task");
      sim::probe("creation failed");
      continue;
    }
    if (get_it[i]) {
      Val v = t->get();
      SIM_CHECK(v.v == i && v.tok.id == tok, "value", "async_task %d", i);
    }
  }
  sim::quiesce();
  for (int i = 0; i < n; ++i)
    SIM_CHECK(st[i].failed != (st[i].finished == 1), "lost", "async_task %d never finished", i);
  check_tokens();
  wd::close();
}
