// Trees of dd::task with every result kind, context and way to consume a child. Used by task.cpp, when.cpp and mix.cpp.
#pragma once
#include "world.h"

namespace tt {

enum { K_INT, K_VAL, K_REF, K_VOID, K_RVO, NKIND };
struct Val {
  int v = 0;
  std::unique_ptr<Cell> cell;
  Token tok;
};
struct Big {
  int v[20] = {};
  Token tok;
};
template <int K>
using ret_t = std::conditional_t<
    K == K_INT, int,
    std::conditional_t<K == K_VAL, Val, std::conditional_t<K == K_REF, Cell&, std::conditional_t<K == K_RVO, Big, void>>>>;

struct St {
  int created = 0, started = 0, finished = 0, resumed = 0;  // body start, body end, awaiter resumed
  int c_owner = 0, c_start = 0, c_end = 0;                  // context callbacks
  bool awaited = false;                                     // on_owner_setted is expected
  bool never = false;                                       // dropped before it was started
  bool abandoned = false;                                   // may be destroyed in the middle
  int end_tid = -1;
  int arg = -1, local = -1, result = -1;
  void* owner = nullptr;    // whom on_owner_setted must name, if known
  uint64_t finished_at = 0;
};
struct Plan {
  int kind = 0;
  bool throws = false;
  int hops[3] = {};
  int nhops = 0;
  int pauses = 0;
  int children[3] = {};
  int nchildren = 0;
  int how[3] = {};     // of the child
  bool pass_on = false;   // an exception of a child ends this task too
  bool noop = false;   // suspends forever at the end
};
constexpr int MAX = 128;
inline St st[MAX];
inline Plan plan[MAX];
inline int nnodes = 0;
inline Cell* side;
inline Cell* target;
struct Stopped {  // tasks which stopped at their end
  std::coroutine_handle<> h;
  int i;
};
inline std::vector<Stopped>* stopped;

inline void reset(std::vector<Cell>& a, std::vector<Cell>& b, std::vector<Stopped>& s) {
  a.resize(MAX);
  b.resize(MAX);
  side = a.data();
  target = b.data();
  stopped = &s;
  nnodes = 0;
}

// the task which is about to be entered is found through its frame
struct Ctx {
  int id = -1;
  // the context sits in the frame of its task
  template <typename P>
  bool is_mine(std::coroutine_handle<P> self) {
    if constexpr (requires { self.promise().ctx; })
      return &self.promise().ctx == this;
    else
      return true;
  }
  template <typename O, typename P>
  void on_owner_setted(std::coroutine_handle<O> owner, std::coroutine_handle<P> self) {
    sim::Quiet z;
    if (id < 0)
      return;
    SIM_CHECK(owner && self, "context", "null handle in on_owner_setted");
    SIM_CHECK(is_mine(self), "context", "on_owner_setted of another task");
    St& s = st[id];
    SIM_CHECK(++s.c_owner == 1 && s.c_start == 0 && s.started == 0, "context", "task %d: on_owner_setted at the wrong time", id);
    SIM_CHECK(!s.owner || s.owner == owner.address(), "context", "task %d was given another owner than its awaiter", id);
    SIM_CHECK(s.awaited, "context", "task %d has an owner although nobody awaits it", id);
  }
  template <typename P>
  void on_start(std::coroutine_handle<P> self) {
    sim::Quiet z;
    if (id < 0)
      return;
    SIM_CHECK(is_mine(self), "context", "on_start of another task");
    St& s = st[id];
    SIM_CHECK(++s.c_start == 1 && s.started == 0, "context", "task %d: on_start at the wrong time", id);
    SIM_CHECK(s.c_owner == (s.awaited ? 1 : 0), "context", "task %d: on_start %s an owner", id, s.awaited ? "without" : "with");
  }
  template <typename P>
  void on_end(std::coroutine_handle<P> self) {
    sim::Quiet z;
    if (id < 0)
      return;
    SIM_CHECK(is_mine(self), "context", "on_end of another task");
    St& s = st[id];
    SIM_CHECK(++s.c_end == 1 && s.finished == 1, "context", "task %d: on_end at the wrong time", id);
    SIM_CHECK(s.resumed == 0, "context", "task %d: on_end after its awaiter was resumed", id);
    s.end_tid = sim::self();
  }
};

inline void enter(int i) {
  sim::Quiet z;
  St& s = st[i];
  SIM_CHECK(++s.started == 1, "started-twice", "task %d runs twice", i);
  SIM_CHECK(!s.never, "started", "task %d started although it was dropped", i);
  SIM_CHECK(s.c_start == 1, "context", "task %d started without on_start", i);
}
inline void finish(int i) {
  side[i].v = scrambled(i);
  sim::Quiet z;
  st[i].finished++;
  st[i].finished_at = sim::now();
}
inline Token fresh(int* where) {
  int t = g_track.fresh();
  sim::quiet([&] { *where = t; });
  return Token(t);
}

template <int K>
dd::task<ret_t<K>, Ctx> node(int i, Token arg);

template <int K>
dd::task<ret_t<K>, Ctx> make(int i) {
  auto t = node<K>(i, fresh(&st[i].arg));
  t.get_context()->id = i;
  sim::quiet([&] {
    st[i].created = 1;
    SIM_CHECK(!st[i].started, "not-lazy", "task %d started when it was created", i);
  });
  SIM_CHECK(!t.empty() && bool(t), "empty", "a new task is empty");
  return t;
}
// the awaiter of task i continues
inline void awaiter_resumed(int i) {
  sim::quiet([&] {
    St& s = st[i];
    s.resumed++;
    SIM_CHECK(s.resumed == 1, "resumed-twice", "the awaiter of task %d was resumed %d times", i, s.resumed);
    SIM_CHECK(s.finished == 1, "early", "the awaiter of task %d was resumed before it finished", i);
    SIM_CHECK(s.c_end == 1, "context", "task %d ended without on_end", i);
    SIM_CHECK(s.end_tid == sim::self(), "wrong-thread", "task %d was completed by T%d, but its awaiter was resumed by T%d", i, s.end_tid,
              sim::self());
  });
  SIM_CHECK(side[i].v == scrambled(i), "visibility", "what task %d wrote is not visible to its awaiter", i);
}
template <int K, typename R>
void check_result(int i, R&& r) {
  if constexpr (K == K_INT)
    SIM_CHECK(r == scrambled(i), "value", "task %d returned %d", i, r);
  else if constexpr (K == K_VAL)
    SIM_CHECK(r.v == scrambled(i) && r.cell && r.cell->v == scrambled(i) && r.tok.id >= 0, "value", "value of task %d", i);
  else if constexpr (K == K_REF)
    SIM_CHECK(&r == &target[i] && r.v == i, "value", "reference of task %d", i);
  else if constexpr (K == K_RVO)
    SIM_CHECK(r.v[0] == scrambled(i) && r.v[19] == i && r.tok.id >= 0, "value", "in-place result of task %d", i);
}
inline void check_threw(int i, bool threw, int id, const char* what) {
  SIM_CHECK(threw == plan[i].throws || (threw && plan[i].pass_on), "value", "%s: exception of task %d %s", what, i, threw ? "invented" : "lost");
  if (threw && !plan[i].pass_on)
    SIM_CHECK(id == i, "value", "%s: task %d delivered exception %d", what, i, id);
}

enum {
  C_AWAIT,
  C_AWAIT2,
  C_WAIT_GET,
  C_MOVE,
  C_DROP,
  C_DETACH,
  C_DETACH_STOP,
  C_RESUME,
  C_RELEASE,
  C_EMPTIED,
  C_GET_THREAD,
  C_ASSIGN_OVER,  // over a task which was never started
  C_REASSIGN,     // a finished task object takes another task
  C_TEMP,         // the task is a temporary of the co_await expression
  C_DONE_DETACH,  // detached after it finished
  C_DONE_STOP,
  NHOW
};

// a task which is of no interest but for its frame
template <int K>
dd::task<ret_t<K>, Ctx> spare(Token arg, int* local) {
  Token l = fresh(local);
  if constexpr (K == K_RVO) {
    (void)co_await dd::this_coro::return_place;
    co_return dd::rvo;
  } else if constexpr (K == K_INT)
    co_return 1;
  else if constexpr (K == K_VAL)
    co_return Val{};
  else if constexpr (K == K_REF)
    co_return target[0];
  else
    co_return;
}

// consume task i of kind K in the way planned; throws Err if the child did and lets it through
template <int K>
dd::task<void> consume(int i, int how) {
  if (how == C_TEMP) {
    sim::quiet([&] { st[i].awaited = true; });
    bool threw = false;
    int id = -1;
    try {
      if constexpr (K == K_VOID) {
        co_await make<K>(i);
        awaiter_resumed(i);
      } else if constexpr (K == K_VAL) {
        Val r = co_await make<K>(i);
        awaiter_resumed(i);
        check_result<K>(i, r);
      } else if constexpr (K == K_REF) {
        Cell& r = co_await make<K>(i);
        awaiter_resumed(i);
        check_result<K>(i, r);
      } else if constexpr (K == K_INT) {
        int r = co_await make<K>(i);
        awaiter_resumed(i);
        check_result<K>(i, r);
      } else {
        Big r = co_await make<K>(i);
        awaiter_resumed(i);
        check_result<K>(i, r);
      }
    } catch (const Err& e) {
      threw = true;
      id = e.id;
    }
    if (threw)
      awaiter_resumed(i);
    check_threw(i, threw, id, "co_await of a temporary");
    SIM_CHECK(token_dead(st[i].arg) && token_dead(st[i].local), "object-leak", "frame of temporary task %d", i);
    sim::probe("awaited a temporary");
    if (threw)
      throw Err{id};
    co_return;
  }
  dd::task<ret_t<K>, Ctx> t = make<K>(i);
  sim::yield();
  sim::quiet([&] { SIM_CHECK(!st[i].started, "not-lazy", "task %d started before it was awaited", i); });
  auto taken = [&](auto& x) {
    // get of a finished task; the result may be fetched again
    bool threw = false;
    int id = -1;
    try {
      if constexpr (K == K_VOID)
        x.get();
      else if constexpr (K == K_REF || K == K_INT) {
        decltype(auto) r = x.get();
        check_result<K>(i, r);
      } else {
        auto r = x.get();
        check_result<K>(i, r);
      }
    } catch (const Err& e) {
      threw = true;
      id = e.id;
    }
    check_threw(i, threw, id, "get");
  };
  switch (how) {
    default:
    case C_AWAIT:
    case C_AWAIT2:
    case C_MOVE: {
      sim::quiet([&] { st[i].awaited = true; });
      if (how == C_MOVE) {
        dd::task<ret_t<K>, Ctx> o(std::move(t));
        SIM_CHECK(t.empty() && !t && !o.empty() && o, "empty", "move of a task");
        dd::task<ret_t<K>, Ctx> o2;
        o2 = std::move(o);
        t = std::move(o2);
        SIM_CHECK(!t.empty() && o2.empty(), "empty", "move assignment of a task");
      }
      bool threw = false;
      int id = -1;
      try {
        if constexpr (K == K_VOID) {
          co_await t;
          awaiter_resumed(i);
        } else {
          auto&& r = co_await t;
          awaiter_resumed(i);
          check_result<K>(i, r);
        }
      } catch (const Err& e) {
        threw = true;
        id = e.id;
      }
      if (threw)
        awaiter_resumed(i);
      check_threw(i, threw, id, "co_await");
      if (how == C_AWAIT2) {
        bool threw2 = false;
        try {
          if constexpr (K == K_VOID)
            co_await t;
          else {
            auto&& r = co_await t;
            check_result<K>(i, r);
          }
        } catch (const Err& e) {
          threw2 = true;
          SIM_CHECK(e.id == id, "value", "second co_await of task %d delivered exception %d", i, e.id);
        }
        SIM_CHECK(threw == threw2, "value", "second co_await of task %d", i);
        sim::probe("awaited again");
      }
      {
        dd::task<ret_t<K>, Ctx> dies(std::move(t));
      }
      SIM_CHECK(token_dead(st[i].arg) && token_dead(st[i].local), "object-leak", "frame of task %d outlived the task", i);
      SIM_CHECK(st[i].result < 0 || token_dead(st[i].result), "object-leak", "result of task %d outlived the task", i);
      if (threw)
        throw Err{id};
      break;
    }
    case C_WAIT_GET: {
      sim::quiet([&] { st[i].awaited = true; });
      co_await t.wait();
      awaiter_resumed(i);
      taken(t);
      break;
    }
    case C_ASSIGN_OVER:
    case C_REASSIGN: {
      int arg = -1, local = -1;
      {
        // the frame assigned over dies with the two objects at the latest
        dd::task<ret_t<K>, Ctx> o = spare<K>(fresh(&arg), &local);
        if (how == C_REASSIGN) {
          co_await o.wait();
          sim::quiet([&] { SIM_CHECK(local >= 0, "lost", "a task was awaited but did not run"); });
        }
        o = std::move(t);
        SIM_CHECK(!o.empty() && o.raw_handle(), "empty", "task %d after an assignment", i);
        sim::quiet([&] { SIM_CHECK(!st[i].started, "not-lazy", "assignment started task %d", i); });
        sim::quiet([&] { st[i].awaited = true; });
        co_await o.wait();
        awaiter_resumed(i);
        taken(o);
        { dd::task<ret_t<K>, Ctx> dies(std::move(t)); }
      }
      SIM_CHECK(token_dead(arg) && (local < 0 || token_dead(local)), "object-leak", "frame of a task which was assigned over");
      SIM_CHECK((how == C_REASSIGN) == (local >= 0), how == C_REASSIGN ? "lost" : "started", "task which was assigned over");
      SIM_CHECK(token_dead(st[i].arg), "object-leak", "frame of task %d outlived the task", i);
      sim::probe(how == C_REASSIGN ? "assigned over a finished task" : "assigned over an unstarted task");
      break;
    }
    case C_DONE_DETACH:
    case C_DONE_STOP: {
      sim::quiet([&] { st[i].awaited = true; });
      co_await t.wait();
      awaiter_resumed(i);
      auto h = t.start_and_detach(how == C_DONE_STOP);
      SIM_CHECK(t.empty(), "empty", "finished task %d is not empty after start_and_detach", i);
      if (how == C_DONE_STOP) {
        SIM_CHECK(h && h.done(), "lost", "finished task %d after start_and_detach(true)", i);
        h.destroy();
      } else
        SIM_CHECK(!h, "empty", "finished task %d: start_and_detach returned a destroyed frame", i);
      SIM_CHECK(token_dead(st[i].arg), "object-leak", "frame of finished task %d was not destroyed", i);
      // everything is allowed on an empty task
      SIM_CHECK(!t && !t.start_and_detach() && !t.detach() && !t.release() && !t.get_context() && !t.raw_handle(), "empty",
                "operations on an empty task");
      sim::probe("detached when finished");
      break;
    }
    case C_DROP: {
      sim::quiet([&] { st[i].never = true; });
      { dd::task<ret_t<K>, Ctx> dies(std::move(t)); }
      SIM_CHECK(token_dead(st[i].arg), "object-leak", "arguments of a dropped task %d", i);
      sim::probe("dropped unstarted");
      break;
    }
    case C_DETACH: {
      t.start_and_detach();
      SIM_CHECK(t.empty(), "empty", "task %d is not empty after start_and_detach", i);
      sim::quiet([&] { SIM_CHECK(st[i].started == 1, "lost", "start_and_detach did not start task %d", i); });
      break;
    }
    case C_DETACH_STOP: {
      auto h = t.start_and_detach(true);
      SIM_CHECK(t.empty() && h, "empty", "task %d after start_and_detach(true)", i);
      sim::quiet([&] { stopped->push_back({h, i}); });
      break;
    }
    case C_RESUME: {
      auto h = t.detach();
      SIM_CHECK(t.empty() && h, "empty", "task %d after detach", i);
      sim::quiet([&] { SIM_CHECK(!st[i].started, "not-lazy", "detach started task %d", i); });
      switch (i % 3) {
        case 0:
          wd::W.pool->schedule([h, i] {
            sim::quiet([&] { st[i].c_start = 1; });  // nobody announces a start in this case
            h.resume();
          });
          break;
        case 1:
          // the handle itself is a callable
          sim::quiet([&] { st[i].c_start = 1; });
          wd::W.pool->schedule(h);
          break;
        default:
          sim::quiet([&] { st[i].c_start = 1; });
          dd::schedule_to(*wd::W.work, h);
          break;
      }
      break;
    }
    case C_RELEASE: {
      sim::quiet([&] { st[i].never = true; });
      auto h = t.release();
      SIM_CHECK(t.empty() && h, "empty", "task %d after release", i);
      h.destroy();
      SIM_CHECK(token_dead(st[i].arg), "object-leak", "arguments of a destroyed task %d", i);
      break;
    }
    case C_EMPTIED: {
      sim::quiet([&] { st[i].never = true; });
      t = dd::task<ret_t<K>, Ctx>();
      SIM_CHECK(t.empty() && !t && !t.get_context(), "empty", "task %d is not empty after an empty one was assigned to it", i);
      SIM_CHECK(token_dead(st[i].arg), "object-leak", "arguments of task %d, replaced by an empty one", i);
      sim::probe("assigned from an empty one");
      break;
    }
    case C_GET_THREAD: {
      sim::quiet([&] { st[i].awaited = true; });
      std::thread([i, t = std::move(t)]() mutable {
        bool threw = false;
        int id = -1;
        try {
          if constexpr (K == K_VOID)
            t.get();
          else {
            decltype(auto) r = t.get();
            check_result<K>(i, r);
          }
        } catch (const Err& e) {
          threw = true;
          id = e.id;
        }
        sim::quiet([&] { SIM_CHECK(st[i].finished == 1, "early", "get returned before task %d finished", i); });
        SIM_CHECK(side[i].v == scrambled(i), "visibility", "get: what task %d wrote is not visible", i);
        check_threw(i, threw, id, "get");
        sim::probe("blocking get");
      }).detach();
      break;
    }
  }
}

inline dd::task<void> consume_any(int i, int how) {
  switch (plan[i].kind) {
    case K_INT:
      return consume<K_INT>(i, how);
    case K_VAL:
      return consume<K_VAL>(i, how);
    case K_REF:
      return consume<K_REF>(i, how);
    case K_RVO:
      return consume<K_RVO>(i, how);
    default:
      return consume<K_VOID>(i, how);
  }
}

template <int K>
dd::task<ret_t<K>, Ctx> node(int i, Token arg) {
  enter(i);
  Token local = fresh(&st[i].local);
  std::unique_ptr<Cell> c(new Cell{i});
  const Plan& p = plan[i];
  Ctx& ctx = co_await dd::this_coro::context;
  SIM_CHECK(ctx.id == i, "context", "task %d sees the context of %d", i, ctx.id);
  for (int k = 0; k < 3; ++k) {
    if (k < p.nhops)
      WD_HOP(p.hops[k]);
    pause(p.pauses);
    if (k < p.nchildren) {
      bool threw = false;
      int id = -1;
      try {
        co_await consume_any(p.children[k], p.how[k]);
      } catch (const Err& e) {
        threw = true;
        id = e.id;
      }
      if (threw && p.pass_on) {
        finish(i);
        throw Err{id};
      }
    }
    SIM_CHECK(c->v == i && arg.id == st[i].arg && local.id == st[i].local, "corrupt", "frame of task %d", i);
  }
  if (p.noop) {
    sim::probe("abandoned in the middle");
    (void)co_await dd::jump_on(dd::noop_executor);
    SIM_CHECK(false, "resumed", "noop_executor resumed task %d", i);
  }
  if constexpr (K == K_RVO) {
    Big& b = co_await dd::this_coro::return_place;
    b.v[0] = scrambled(i);
    b.v[19] = i;
    b.tok = fresh(&st[i].result);
    finish(i);
    if (p.throws)
      throw Err{i};
    co_return dd::rvo;
  } else {
    finish(i);
    if (p.throws)
      throw Err{i};
    if constexpr (K == K_INT)
      co_return scrambled(i);
    else if constexpr (K == K_VAL) {
      Val v;
      v.v = scrambled(i);
      v.cell.reset(new Cell{scrambled(i)});
      v.tok = fresh(&st[i].result);
      co_return std::move(v);
    } else if constexpr (K == K_REF) {
      target[i].v = i;
      co_return target[i];
    } else
      co_return;
  }
}

// draws a tree, returns its root
inline int draw_tree(int depth, int how_max = NHOW) {
  int i = nnodes++;
  st[i] = St{};
  Plan& p = plan[i];
  p = Plan{};
  p.kind = sim::draw(NKIND);
  p.throws = sim::chance(1, 4);
  p.pass_on = sim::chance(1, 3);
  p.nhops = sim::draw(4);
  for (int k = 0; k < p.nhops; ++k)
    p.hops[k] = wd::draw_hop();
  p.pauses = sim::draw(2);
  int n = depth ? sim::draw(3) : 0;
  for (int k = 0; k < n && nnodes < MAX; ++k) {
    p.how[k] = sim::draw(how_max);
    int c = draw_tree(depth - 1, how_max);
    plan[i].children[k] = c;
    plan[i].nchildren = k + 1;
  }
  return i;
}
// after quiescence
inline void check_all() {
  for (auto& s : *stopped) {
    SIM_CHECK(s.h.done(), "lost", "task %d did not reach its end", s.i);
    SIM_CHECK(!token_dead(st[s.i].arg), "destroyed", "frame of task %d did not stay at its end", s.i);
    s.h.destroy();
    sim::probe("stopped at end");
  }
  sim::quiet([] { stopped->clear(); });
  for (int i = 0; i < nnodes; ++i) {
    St& s = st[i];
    if (!s.created)
      continue;
    if (s.never)
      SIM_CHECK(!s.started, "started", "task %d", i);
    else if (!s.abandoned) {
      SIM_CHECK(s.started == 1 && s.finished == 1, "lost", "task %d started %d times, finished %d times", i, s.started, s.finished);
      SIM_CHECK(s.c_end == 1, "context", "task %d ended, but on_end was called %d times", i, s.c_end);
    }
    SIM_CHECK(token_dead(s.arg), "object-leak", "frame of task %d was not destroyed", i);
    SIM_CHECK(s.local < 0 || token_dead(s.local), "object-leak", "local of task %d was not destroyed", i);
    SIM_CHECK(s.result < 0 || token_dead(s.result), "object-leak", "result of task %d was not destroyed", i);
  }
  check_tokens();
}

}  // namespace tt
