// when_all and when_any of tasks.
#include "tasktree.h"

using namespace tt;

namespace {
struct Aw {
  bool all = false;
  int resumed = 0;
  int first = 0, n = 0;   // children are plan[first .. first + n)
  int winner = -1;
};
Aw aw[8];
int naw;
int kids[8][20];

// one position of a result
template <int K, typename E>
void check_pos(int i, E& e) {
  sim::quiet([&] { SIM_CHECK(st[i].finished == 1, "early", "the result of task %d was delivered before it finished", i); });
  SIM_CHECK(side[i].v == scrambled(i), "visibility", "what task %d wrote is not visible", i);
  SIM_CHECK(e.has_value() == !!e, "value", "operator bool and has_value differ");
  if (e.has_value()) {
    SIM_CHECK(!plan[i].throws, "value", "the exception of task %d was lost", i);
    if constexpr (K != K_VOID) {
      SIM_CHECK(&*std::as_const(e) == &*e, "value", "const access names another object");
      check_result<K>(i, *e);
    }
  } else {
    SIM_CHECK(&std::as_const(e).error() == &e.error(), "value", "const access names another object");
    int id = -1;
    bool other = false;
    try {
      if (!e.error())
        other = true;
      else
        std::rethrow_exception(e.error());
    } catch (const Err& x) {
      id = x.id;
    } catch (...) {
      other = true;
    }
    SIM_CHECK(!other, "value", "task %d: no exception or another one", i);
    check_threw(i, true, id, "result");
  }
}
void woke(int a) {
  sim::Quiet z;
  SIM_CHECK(++aw[a].resumed == 1, "resumed-twice", "awaiter %d was resumed %d times", a, aw[a].resumed);
  sim::event("resumed", a);
}
void all_finished(int a) {
  sim::quiet([&] {
    for (int k = 0; k < aw[a].n; ++k) {
      St& s = st[kids[a][k]];
      SIM_CHECK(s.c_end == s.finished, "context", "task %d: finished %d times, on_end called %d times", kids[a][k], s.finished, s.c_end);
      SIM_CHECK(s.finished == 1, "early", "when_all %d is complete although task %d has not finished", a, kids[a][k]);
      SIM_CHECK(s.started == 1 && s.c_start == 1 && s.c_owner == 1, "context", "task %d: started %d on_start %d on_owner_setted %d", kids[a][k],
                s.started, s.c_start, s.c_owner);
      s.resumed = 1;
    }
  });
}
void frames_dead(int a) {
  for (int k = 0; k < aw[a].n; ++k) {
    St& s = st[kids[a][k]];
    SIM_CHECK(token_dead(s.arg) && token_dead(s.local), "object-leak", "the frame of task %d outlived when_all", kids[a][k]);
  }
}
template <int K>
auto kid(int a, int k) {
  int i = kids[a][k];
  auto t = make<K>(i);
  sim::quiet([&] { st[i].awaited = true; });
  return t;
}
// arguments are evaluated before when_all exists, so the owner is told to the children afterwards
template <typename W>
void announce(int a, W& w) {
  void* h = w.raw_handle().address();
  sim::quiet([&] {
    for (int k = 0; k < aw[a].n; ++k) {
      SIM_CHECK(!st[kids[a][k]].started, "not-lazy", "task %d started before when_all was awaited", kids[a][k]);
      if (aw[a].all)
        st[kids[a][k]].owner = h;
    }
  });
  sim::yield();
}

template <int... Ks>
dd::task<void> all_of(int a, bool deep) {
  std::unique_ptr<Cell> c(new Cell{a});
  {
    auto w = [&]<size_t... Is>(std::index_sequence<Is...>) { return dd::when_all(kid<Ks>(a, Is)...); }
    (std::make_index_sequence<sizeof...(Ks)>{});
    announce(a, w);
    auto r = co_await w;
    woke(a);
    all_finished(a);
    [&]<size_t... Is>(std::index_sequence<Is...>) { (check_pos<Ks>(kids[a][Is], std::get<Is>(r)), ...); }
    (std::make_index_sequence<sizeof...(Ks)>{});
  }
  frames_dead(a);
  SIM_CHECK(c->v == a, "corrupt", "frame of the awaiter");
  sim::probe("when_all done");
}
template <int K>
dd::task<void> all_vec(int a, bool deep) {
  std::unique_ptr<Cell> c(new Cell{a});
  {
    std::vector<dd::task<ret_t<K>, Ctx>> v;
    for (int k = 0; k < aw[a].n; ++k)
      v.push_back(kid<K>(a, k));
    auto w = dd::when_all(std::move(v));
    announce(a, w);
    auto r = co_await w;
    woke(a);
    all_finished(a);
    SIM_CHECK((int)r.size() == aw[a].n, "value", "when_all of %d tasks returned %zu results", aw[a].n, r.size());
    for (int k = 0; k < aw[a].n; ++k)
      check_pos<K>(kids[a][k], r[k]);
  }
  frames_dead(a);
  SIM_CHECK(c->v == a, "corrupt", "frame of the awaiter");
  sim::probe("when_all of a vector done");
}
template <int... Ks>
dd::task<void> any_of(int a, bool linger) {
  std::unique_ptr<Cell> c(new Cell{a});
  {
    auto w = [&]<size_t... Is>(std::index_sequence<Is...>) { return dd::when_any(kid<Ks>(a, Is)...); }
    (std::make_index_sequence<sizeof...(Ks)>{});
    announce(a, w);
    auto r = co_await w;
    woke(a);
    SIM_CHECK(r.index() > 0 && r.index() <= sizeof...(Ks), "value", "when_any %d returned index %zu", a, r.index());
    sim::quiet([&] { aw[a].winner = (int)r.index() - 1; });
    [&]<size_t... Is>(std::index_sequence<Is...>) {
      ((r.index() == Is + 1 ? check_pos<Ks>(kids[a][Is], std::get<Is + 1>(r)) : (void)0), ...);
    }
    (std::make_index_sequence<sizeof...(Ks)>{});
    bool ok = false;
    [&]<size_t... Is>(std::index_sequence<Is...>) {
      ((r.index() == Is + 1 ? (void)(ok = std::get<Is + 1>(r).has_value()) : (void)0), ...);
    }
    (std::make_index_sequence<sizeof...(Ks)>{});
    if (!ok)
      sim::quiet([&] {
        for (int k = 0; k < aw[a].n; ++k) {
          SIM_CHECK(plan[kids[a][k]].throws, "first-success", "when_any %d returned a failure although task %d does not fail", a, kids[a][k]);
          SIM_CHECK(st[kids[a][k]].finished == 1, "early", "when_any %d returned a failure before task %d finished", a, kids[a][k]);
        }
        sim::probe("all failed");
      });
    else
      sim::probe("when_any done");
  }
  if (linger)
    WD_HOP(wd::H_WORKER);
  SIM_CHECK(c->v == a, "corrupt", "frame of the awaiter");
}

void check_any(int a) {
  sim::Quiet z;
  Aw& x = aw[a];
  int w = kids[a][x.winner];
  for (int k = 0; k < x.n; ++k) {
    int j = kids[a][k];
    if (j == w)
      continue;
    uint64_t dj = g_track.dead_at[st[j].arg], dw = g_track.dead_at[st[w].arg];
    if (!plan[w].throws && st[j].finished && !plan[j].throws)
      SIM_CHECK(!(dj < st[w].finished_at), "first-success", "when_any %d returned task %d although task %d had succeeded and was gone before", a, w, j);
    if (plan[w].throws)
      SIM_CHECK(!(st[j].finished_at > dw), "last-failure", "when_any %d returned the failure of task %d although task %d failed later", a, w, j);
  }
}

enum { S_AA, S_A3, S_A4, S_A1, S_VI, S_VV, S_VVOID, S_N2, S_N3, S_N4, S_N1, NSHAPE };
struct Root {
  int shape, a;
  bool flag, block;
};
int shape_kinds(int shape, int* k) {
  switch (shape) {
    case S_AA:
    case S_N2:
      k[0] = K_INT, k[1] = K_VAL;
      return 2;
    case S_A3:
    case S_N3:
      k[0] = K_VOID, k[1] = K_INT, k[2] = K_RVO;
      return 3;
    case S_A4:
    case S_N4:
      k[0] = K_VAL, k[1] = K_VAL, k[2] = K_INT, k[3] = K_VOID;
      return 4;
    case S_A1:
    case S_N1:
      k[0] = K_VAL;
      return 1;
    default: {
      int n = often(5, 17);
      for (int i = 0; i < n; ++i)
        k[i] = shape == S_VI ? K_INT : shape == S_VV ? K_VAL : K_VOID;
      return n;
    }
  }
}
Root draw_root(bool any) {
  Root r;
  r.shape = any ? S_N2 + sim::draw(4) : sim::draw(S_N2);
  r.a = naw++;
  aw[r.a] = Aw{};
  int k[20];
  int n = shape_kinds(r.shape, k);
  aw[r.a].all = !any;
  aw[r.a].n = n;
  uint32_t fail_of = 1 + sim::draw(4);   // how often the children of this one fail
  for (int c = 0; c < n; ++c) {
    int i = draw_tree(sim::draw(6) == 5 ? 1 : 0);
    plan[i].kind = k[c];
    plan[i].throws = sim::chance(fail_of, 4);
    plan[i].pass_on = false;
    kids[r.a][c] = i;
  }
  r.flag = sim::draw(2);
  r.block = sim::draw(3) == 2;
  return r;
}
dd::task<void> go(const Root& r) {
  switch (r.shape) {
    case S_AA:
      return all_of<K_INT, K_VAL>(r.a, r.flag);
    case S_A3:
      return all_of<K_VOID, K_INT, K_RVO>(r.a, r.flag);
    case S_A4:
      return all_of<K_VAL, K_VAL, K_INT, K_VOID>(r.a, r.flag);
    case S_A1:
      return all_of<K_VAL>(r.a, r.flag);
    case S_VI:
      return all_vec<K_INT>(r.a, r.flag);
    case S_VV:
      return all_vec<K_VAL>(r.a, r.flag);
    case S_VVOID:
      return all_vec<K_VOID>(r.a, r.flag);
    case S_N2:
      return any_of<K_INT, K_VAL>(r.a, r.flag);
    case S_N3:
      return any_of<K_VOID, K_INT, K_RVO>(r.a, r.flag);
    case S_N4:
      return any_of<K_VAL, K_VAL, K_INT, K_VOID>(r.a, r.flag);
    default:
      return any_of<K_VAL>(r.a, r.flag);
  }
}
void scenario(bool any) {
  std::vector<Cell> a, b;
  std::vector<Stopped> sp;
  reset(a, b, sp);
  naw = 0;
  int nthr = 1 + sim::draw(2);
  std::vector<std::vector<Root>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + sim::draw(2);
    for (int k = 0; k < n && nnodes < MAX - 32; ++k)
      p.push_back(draw_root(any));
  }
  wd::open(1 + sim::draw(2));
  {
    auto run = [&](int t) {
      for (Root& r : progs[t])
        if (r.block)
          go(r).get();
        else
          go(r).start_and_detach();
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] { run(t); });
    run(0);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    for (int i = 0; i < naw; ++i) {
      SIM_CHECK(aw[i].resumed == 1, "lost-awaiter", "awaiter %d was never resumed", i);
      if (!aw[i].all) {
        check_any(i);
        // children that were not needed any more may have been dropped unstarted
        for (int k = 0; k < aw[i].n; ++k) {
          St& s = st[kids[i][k]];
          if (!s.started) {
            s.never = true;
            sim::probe("not started any more");
          }
        }
      }
    }
    check_all();
  }
  wd::close();
}
}  // namespace

SIM_SCENARIO(when_all_tasks, 1, "when_all of tasks (variadic and vector) completing on several threads") {
  scenario(false);
}
SIM_SCENARIO(when_any_tasks, 1, "when_any of tasks completing on several threads, during the start and after the awaiter is gone") {
  scenario(true);
}

// ------------------------------------------------------------------ combinators which never get to run
namespace {
int u_started, u_ended;
dd::task<int> u_leaf(Token, int hop) {
  Token local(g_track.fresh());
  sim::quiet([] { u_started++; });
  if (hop)
    WD_HOP(hop);
  sim::quiet([] { u_ended++; });
  co_return 5;
}
enum { U_ALL, U_VEC, U_ANY, NU };
template <typename T>
dd::task<int> u_await(T t, bool fail) {
  int got = 0;
  try {
    if (fail)
      sim::fail_next_alloc();
    auto r = co_await t;
    got = 1;
    if constexpr (requires { r.size(); })
      for (auto& e : r)
        SIM_CHECK(e.has_value() && *e == 5, "value", "result of a combinator");
    else if constexpr (requires { r.index(); })
      SIM_CHECK(r.index() > 0, "value", "when_any is empty");
  } catch (const std::bad_alloc&) {
    got = 2;
  }
  sim::fail_next_alloc(false);
  co_return got;
}
}  // namespace
SIM_SCENARIO(when_dropped, 1, "when_all / when_any whose creation or start fails, or which is dropped: no task starts, nothing is lost") {
  int n = 1 + sim::draw(5);
  struct D {
    int kind, what, n, hop;
  } d[5];
  for (int i = 0; i < n; ++i)
    d[i] = D{(int)sim::draw(NU), (int)sim::draw(5), (int)sim::draw(5), wd::draw_hop()};
  int nthr = 1 + sim::draw(2);
  u_started = u_ended = 0;
  wd::open(1 + sim::draw(2));
  int want = 0;  // tasks which have to run
  auto one = [&](D x) {
    auto mk = [&] { return u_leaf(Token(g_track.fresh()), x.hop); };
    auto use = [&](auto&& make_, int k, bool can_fail_start) {
      using T = std::remove_cvref_t<decltype(make_())>;
      switch (x.what) {
        case 0: {  // the frame cannot be allocated
          bool threw = false;
          try {
            auto w = make_();
            SIM_CHECK(false, "allocation", "a failing allocation was ignored");
          } catch (const std::bad_alloc&) {
            threw = true;
          }
          sim::fail_next_alloc(false);
          SIM_CHECK(threw, "allocation", "no exception");
          sim::probe("combinator not created");
          break;
        }
        case 1: {  // dropped
          auto w = make_();
          break;
        }
        case 2: {  // moved, swapped, dropped
          T w = make_();
          T v = std::move(w);
          SIM_CHECK(w.empty() && !v.empty(), "empty", "moved combinator");
          w = std::move(v);
          break;
        }
        case 3:
          if (can_fail_start) {
            int got = u_await<T>(make_(), true).get();
            SIM_CHECK(got == 2, "allocation", "the start of a combinator could not allocate: got %d", got);
            sim::probe("combinator not started");
            break;
          }
          [[fallthrough]];
        default: {
          sim::quiet([&] { want += x.kind == U_ANY ? 0 : k; });
          int got = u_await<T>(make_(), false).get();
          SIM_CHECK(got == 1, "allocation", "a combinator failed: %d", got);
          break;
        }
      }
    };
    switch (x.kind) {
      case U_ALL:
        use(
            [&] {
              auto a = mk(), b = mk(), c = mk();
              if (x.what == 0)
                sim::fail_next_alloc();
              return dd::when_all(std::move(a), std::move(b), std::move(c));
            },
            3, false);
        break;
      case U_ANY:
        use(
            [&] {
              auto a = mk(), b = mk();
              if (x.what == 0)
                sim::fail_next_alloc();
              return dd::when_any(std::move(a), std::move(b));
            },
            2, true);
        break;
      default:
        use(
            [&] {
              std::vector<dd::task<int>> v;
              for (int i = 0; i < x.n; ++i)
                v.push_back(mk());
              if (x.what == 0)
                sim::fail_next_alloc();
              return dd::when_all(std::move(v));
            },
            x.n, x.n > 0);
        break;
    }
  };
  std::thread th;
  if (nthr > 1)
    th = std::thread([&] {
      for (int i = 1; i < n; i += 2)
        one(d[i]);
    });
  for (int i = 0; i < n; ++i)
    if (nthr == 1 || !(i & 1))
      one(d[i]);
  if (nthr > 1)
    th.join();
  sim::quiesce();
  sim::quiet([&] {
    int any = 0;
    for (int i = 0; i < n; ++i)
      if (d[i].kind == U_ANY && d[i].what >= 4)
        any += 2;
    SIM_CHECK(u_started == u_ended, "lost-task", "%d tasks started, %d ended", u_started, u_ended);
    SIM_CHECK(u_started >= want + any / 2 && u_started <= want + any, "started", "%d tasks ran, %d to %d were awaited", u_started, want + any / 2, want + any);
  });
  check_tokens();
  wd::close();
}

// ------------------------------------------------------------------ when_any whose owner dies while it waits
namespace {
struct Ab {
  std::coroutine_handle<> h;
  bool at_once = false, throws = false, before = false;
  int hop = 0;
};
Ab ab[2][5];
int ab_started, ab_ended, ab_after;
dd::task<int> ab_leaf(int g, int i, Token) {
  Token local(g_track.fresh());
  sim::quiet([] { ab_started++; });
  if (!ab[g][i].at_once) {
    co_await dd::this_coro::suspend_and([g, i](std::coroutine_handle<> h) { ab[g][i].h = h; });
    if (ab[g][i].hop)
      WD_HOP(ab[g][i].hop);
  }
  sim::quiet([] { ab_ended++; });
  if (ab[g][i].throws)
    throw Err{i};
  co_return int(i);
}
template <size_t... Is>
auto ab_any(int g, std::index_sequence<Is...>) {
  return dd::when_any(ab_leaf(g, Is, Token(g_track.fresh()))...);
}
template <size_t N>
dd::task<void> ab_owner(int g, Token) {
  Token local(g_track.fresh());
  std::unique_ptr<Cell> c(new Cell{g});
  auto w = ab_any(g, std::make_index_sequence<N>{});
  auto r = co_await w;
  (void)r;
  sim::quiet([] { ab_after++; });
}
template <size_t N>
std::coroutine_handle<> ab_start(int g, bool owner) {
  if (owner)
    return ab_owner<N>(g, Token(g_track.fresh())).start_and_detach(true);
  return ab_any(g, std::make_index_sequence<N>{}).start_and_detach(true);
}
}  // namespace
SIM_SCENARIO(when_any_abandoned, 1, "when_any (or its owner) is destroyed while its tasks are suspended: they run on without it") {
  int groups = 1 + sim::draw(2), nthr = 1 + sim::draw(3);
  int size[2], total = 0;
  bool owner[2];
  std::coroutine_handle<> top[2];
  ab_started = ab_ended = ab_after = 0;
  for (int g = 0; g < groups; ++g) {
    size[g] = 2 + sim::draw(3);
    owner[g] = sim::draw(2);
    total += size[g];
    int keep = sim::draw(size[g]);  // at least this one is still suspended
    for (int i = 0; i < size[g]; ++i) {
      Ab& x = ab[g][i] = Ab{};
      x.throws = sim::draw(2);
      x.hop = wd::draw_hop();
      int how = i == keep ? 0 : sim::draw(4);
      if (how == 2)
        x.at_once = x.throws = true;
      else if (how == 3)
        x.before = x.throws = true;
    }
  }
  wd::open(1 + sim::draw(2));
  for (int g = 0; g < groups; ++g)
    top[g] = size[g] == 2 ? ab_start<2>(g, owner[g]) : size[g] == 3 ? ab_start<3>(g, owner[g]) : ab_start<4>(g, owner[g]);
  for (int g = 0; g < groups; ++g)
    for (int i = 0; i < size[g]; ++i)
      if (ab[g][i].before)
        std::exchange(ab[g][i].h, nullptr).resume();
  sim::quiesce();
  SIM_CHECK(ab_started == total, "lost-task", "%d of %d tasks of when_any were started", ab_started, total);
  for (int g = 0; g < groups; ++g) {
    SIM_CHECK(!top[g].done(), "early", "when_any ended although a task is suspended and none succeeded");
    top[g].destroy();
  }
  std::thread ts[3];
  auto run = [&](int t) {
    for (int g = 0, k = 0; g < groups; ++g)
      for (int i = 0; i < size[g]; ++i)
        if (ab[g][i].h && k++ % nthr == t)
          ab[g][i].h.resume();
  };
  for (int t = 1; t < nthr; ++t)
    ts[t] = std::thread(run, t);
  run(0);
  for (int t = 1; t < nthr; ++t)
    ts[t].join();
  sim::quiesce();
  sim::quiet([&] {
    SIM_CHECK(ab_ended == total, "lost-task", "%d of %d tasks ran to their end", ab_ended, total);
    SIM_CHECK(ab_after == 0, "resumed-dead", "a destroyed owner was resumed");
  });
  check_tokens();
  wd::close();
}
