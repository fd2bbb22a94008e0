// User types whose copies and moves throw, keep their address or count themselves: results, arguments, callables, yielded values.
#include "world.h"

namespace {
constexpr int MAXI = 64;
int fuse[MAXI];       // this many more copies or moves of values of item i until one throws (0: never)
int tripped[MAXI];    // how often it threw
int alive[MAXI];      // live values of item i

void burn(int i) {
  sim::Quiet z;
  if (i >= 0 && fuse[i] > 0 && --fuse[i] == 0) {
    tripped[i]++;
    throw Err{i};
  }
}
void arm(int i, int n) {
  sim::Quiet z;
  fuse[i] = n;
}
bool did_trip(int i) {
  sim::Quiet z;
  return tripped[i] != 0;
}
void reset(int n) {
  sim::Quiet z;
  for (int i = 0; i < n; ++i)
    fuse[i] = tripped[i] = alive[i] = 0;
}

// counts itself, knows its address, may throw when it is copied or moved
struct Frag {
  int item;
  const Frag* self = this;
  std::unique_ptr<Cell> c;
  void born() {
    sim::Quiet z;
    if (item >= 0)
      alive[item]++;
  }
  Frag() : item(-1) {
  }
  Frag(int i) : item(i) {
    burn(i);
    c.reset(new Cell{scrambled(i)});
    born();
  }
  Frag(const Frag& o) : item(o.item) {
    o.check();
    burn(item);
    if (o.c)
      c.reset(new Cell{o.c->v});
    born();
  }
  Frag(Frag&& o) : item(o.item) {
    o.check();
    burn(item);  // nothing was taken yet
    c = std::move(o.c);
    born();
  }
  Frag& operator=(const Frag&) = delete;
  ~Frag() {
    check();
    sim::Quiet z;
    if (item >= 0) {
      alive[item]--;
      SIM_CHECK(alive[item] >= 0, "destroyed-twice", "a value of item %d", item);
    }
    self = nullptr;
  }
  void check() const {
    SIM_CHECK(self == this, "corrupt", "a value of item %d was moved as bytes, or is dead", item);
  }
  bool good(int i) const {
    check();
    return item == i && c && c->v == scrambled(i);
  }
};
// trivially destructible and default constructible, all the same not to be copied as bytes
struct Self {
  int item = -1;
  const Self* self = this;
  Self() = default;
  Self(int i) : item(i) {
    burn(i);
  }
  Self(const Self& o) : item(o.item) {
    o.check();
    burn(item);
  }
  Self& operator=(const Self& o) {
    item = o.item;
    return *this;
  }
  void check() const {
    SIM_CHECK(self == this, "corrupt", "a value of item %d was copied as bytes", item);
  }
  bool good(int i) const {
    check();
    return item == i;
  }
};
static_assert(std::is_trivially_destructible_v<Self>);
// neither default constructible nor movable
struct Fixed {
  Frag f;
  explicit Fixed(int i) : f(i) {
  }
  Fixed(Fixed&&) = delete;
  bool good(int i) const {
    return f.good(i);
  }
};

struct Bomb {  // throws when it leaves its scope
  int item;
  bool on;
  ~Bomb() noexcept(false) {
    if (on) {
      sim::quiet([&] { tripped[item]++; });
      throw Err{item};
    }
  }
};

void all_dead(int n) {
  sim::Quiet z;
  for (int i = 0; i < n; ++i)
    SIM_CHECK(alive[i] == 0, "object-leak", "%d values of item %d are left", alive[i], i);
}

// ------------------------------------------------------------------ results
enum { R_LOCAL, R_TEMP, R_CONST, R_CONVERT, R_NESTED, NHOWRET };
enum { U_AWAIT_REF, U_AWAIT_VALUE, U_GET, U_ASYNC, U_DETACH, U_WAIT_TWICE, U_ASYNC_DETACH, U_THREAD, NUSE };
struct Item {
  int type, how, use, hop, fuse;
  bool bomb;
  int hop2;
};
Item plan[MAXI];
int bodies[MAXI];

template <typename T, typename Ret>
Ret make_result(int i) {
  Item& p = plan[i];
  WD_HOP(p.hop);
  sim::quiet([&] { SIM_CHECK(++bodies[i] == 1, "started-twice", "item %d", i); });
  arm(i, p.fuse);
  if constexpr (std::is_same_v<T, Fixed>) {
    co_return i;  // built in place
  } else {
    switch (p.how) {
      case R_LOCAL: {
        T t(i);
        co_return t;
      }
      case R_TEMP:
        co_return T(i);
      case R_CONST: {
        const T t(i);
        co_return t;
      }
      case R_NESTED: {
        T a(i);
        T b(a);
        co_return b;
      }
      default:
        co_return i;
    }
  }
}
template <typename T, typename Ret>
Ret make_bomb(int i) {
  Item& p = plan[i];
  WD_HOP(p.hop);
  sim::quiet([&] { SIM_CHECK(++bodies[i] == 1, "started-twice", "item %d", i); });
  arm(i, p.fuse);
  Bomb b{i, !p.fuse};
  if constexpr (std::is_same_v<T, Fixed>)
    co_return i;
  else
    co_return T(i);
}
template <typename T, typename Ret>
Ret make(int i) {
  return plan[i].bomb ? make_bomb<T, Ret>(i) : make_result<T, Ret>(i);
}

void check_out(int i, bool threw, int id) {
  sim::quiet([&] {
    SIM_CHECK(bodies[i] == 1, "lost", "item %d ran %d times", i, bodies[i]);
    SIM_CHECK(threw == (tripped[i] != 0), "value", "item %d: its result %s, but %s", i, tripped[i] ? "threw" : "was fine",
              threw ? "an exception came out" : "no exception came out");
    SIM_CHECK(!threw || id == i, "value", "item %d delivered exception %d", i, id);
  });
}
#define VALUE_TRY(i, ...)                                              \
  do {                                                                 \
    bool threw_ = false;                                               \
    int id_ = -1;                                                      \
    try {                                                              \
      __VA_ARGS__                                                      \
    } catch (const Err& e_) {                                          \
      threw_ = true;                                                   \
      id_ = e_.id;                                                     \
    }                                                                  \
    check_out(i, threw_, id_);                                         \
  } while (0)

template <typename T>
dd::task<void> use(int i) {
  Item& p = plan[i];
  switch (p.use) {
    case U_AWAIT_REF: {
      auto t = make<T, dd::task<T>>(i);
      VALUE_TRY(i, {
        auto&& r = co_await t;
        arm(i, 0);
        SIM_CHECK(r.good(i), "value", "result of item %d", i);
      });
      break;
    }
    case U_AWAIT_VALUE: {
      auto t = make<T, dd::task<T>>(i);
      VALUE_TRY(i, {
        if constexpr (std::is_same_v<T, Fixed>) {
          auto&& r = co_await t;
          arm(i, 0);
          SIM_CHECK(r.good(i), "value", "result of item %d", i);
        } else {
          T r = co_await t;
          arm(i, 0);
          SIM_CHECK(r.good(i), "value", "result of item %d", i);
        }
      });
      break;
    }
    case U_WAIT_TWICE: {
      auto t = make<T, dd::task<T>>(i);
      co_await t.wait();
      arm(i, 0);
      for (int k = 0; k < 2; ++k)
        VALUE_TRY(i, {
          auto&& r = co_await t;
          SIM_CHECK(r.good(i), "value", "result of item %d", i);
        });
      break;
    }
    case U_DETACH: {
      auto t = make<T, dd::task<T>>(i);
      t.start_and_detach();
      break;
    }
    case U_ASYNC_DETACH: {
      auto a = make<T, dd::async_task<T>>(i);
      a.detach();
      break;
    }
    case U_ASYNC:
    case U_GET:
    case U_THREAD:
      std::thread([i] {
        Item& p = plan[i];
        if constexpr (!std::is_same_v<T, Fixed>) {
          if (p.use == U_GET || p.use == U_THREAD) {
            auto t = make<T, dd::task<T>>(i);
            VALUE_TRY(i, {
              T r = t.get();
              arm(i, 0);
              SIM_CHECK(r.good(i), "value", "result of item %d", i);
            });
            return;
          }
        }
        auto a = make<T, dd::async_task<T>>(i);
        if (p.hop2)
          a.wait();
        for (int k = 0; k < 1 + p.hop2; ++k)
          VALUE_TRY(i, {
            auto&& r = a.get();
            arm(i, 0);
            SIM_CHECK(r.good(i), "value", "result of item %d", i);
          });
      }).detach();
      break;
  }
}
}  // namespace

SIM_SCENARIO(values_results, 2, "results whose construction throws: the exception arrives instead, nothing is left") {
  int n = 1 + often(6, 24);
  reset(n);
  for (int i = 0; i < n; ++i) {
    plan[i] = Item{(int)sim::draw(3), (int)sim::draw(NHOWRET), (int)sim::draw(NUSE), wd::draw_hop(), 0, false, 0};
    plan[i].fuse = sim::chance(2, 3) ? 1 + sim::draw(5) : 0;
    plan[i].bomb = sim::chance(1, 6);
    plan[i].hop2 = sim::draw(2);
    bodies[i] = 0;
  }
  wd::open(1 + sim::draw(2));
  for (int i = 0; i < n; ++i)
    switch (plan[i].type) {
      case 0:
        use<Frag>(i).start_and_detach();
        break;
      case 1:
        use<Self>(i).start_and_detach();
        break;
      default:
        use<Fixed>(i).start_and_detach();
        break;
    }
  sim::quiesce();
  all_dead(n);
  sim::quiet([&] {
    for (int i = 0; i < n; ++i) {
      SIM_CHECK(bodies[i] == 1, "lost", "item %d ran %d times", i, bodies[i]);
      if (tripped[i])
        sim::probe(plan[i].bomb ? "a destructor threw after co_return" : "a result threw");
    }
  });
  wd::close();
}

// ------------------------------------------------------------------ arguments and callables
namespace {
enum { A_TASK, A_ASYNC, A_GEN, A_CHAN, A_JOB, A_LTHREAD, A_INPLACE, A_SCHEDULE, A_SCHEDULE_TO, A_SCHEDULE_RES, A_CALLBACK, NARG };
enum { T_PLAIN, T_PMR, T_DEFTAG, NTAG };
struct Call {
  int i;
  Frag f;
  int* pad;
  void operator()() {
    SIM_CHECK(f.good(i), "corrupt", "state of callable %d", i);
    sim::quiet([&] { SIM_CHECK(++bodies[i] == 1, "ran-twice", "callable %d", i); });
    arm(i, 0);
  }
};
struct EvCall : Call {
  void operator()(int x) {
    SIM_CHECK(x == 7, "value", "the callback got %d", x);
    Call::operator()();
  }
};
dd::event<int>* evt;
struct A {
  int kind, tag, fuse, args;
  bool start;
};
A ap[MAXI];
void body(int i, const Frag& a, const Frag& b) {
  arm(i, 0);
  SIM_CHECK(a.good(i) && b.good(i), "corrupt", "arguments of item %d", i);
  sim::quiet([&] { SIM_CHECK(++bodies[i] == 1, "started-twice", "item %d", i); });
}
template <typename Ret, typename... W>
Ret c_value(int i, Frag a, Frag b, W...) {
  body(i, a, b);
  co_return i;
}
template <typename Ret, typename... W>
Ret c_void(int i, Frag a, Frag b, W...) {
  body(i, a, b);
  co_return;
}
template <typename Ret, typename... W>
Ret c_yield(int i, Frag a, Frag b, W...) {
  body(i, a, b);
  co_yield int(i);
}
dd::task<void> drain(dd::channel<int> c, int i) {
  int n = 0;
  co_foreach(int x, c) {
    SIM_CHECK(x == i && !n++, "value", "channel of item %d", i);
  }
  SIM_CHECK(n == 1, "value", "channel of item %d is empty", i);
}

// W: how the memory is given
template <typename... W>
void create(int i, const Frag& f, W... w) {
  A& p = ap[i];
  auto cp = [&](int k) -> Frag { return p.args >> k & 1 ? Frag(f) : Frag(i); };
  switch (p.kind) {
    case A_TASK: {
      auto t = c_value<dd::task<int>>(i, cp(0), cp(1), w...);
      arm(i, 0);
      if (p.start) {
        auto h = t.start_and_detach(true);
        SIM_CHECK(h && h.done() && h.promise().result() == i, "value", "task %d", i);
        h.destroy();
      }
      break;
    }
    case A_ASYNC: {
      auto t = c_value<dd::async_task<int>>(i, cp(0), cp(1), w...);
      SIM_CHECK(t.get() == i, "value", "async_task %d", i);
      break;
    }
    case A_GEN: {
      auto g = c_yield<dd::generator<int>>(i, cp(0), cp(1), w...);
      arm(i, 0);
      if (p.start)
        for (int x : g)
          SIM_CHECK(x == i, "value", "generator %d", i);
      break;
    }
    case A_CHAN: {
      dd::channel<int> c = c_yield<dd::channel<int>>(i, cp(0), cp(1), w...);
      arm(i, 0);
      if (p.start)
        drain(std::move(c), i).start_and_detach();
      break;
    }
    case A_JOB:
      c_void<dd::job>(i, cp(0), cp(1), w...);
      break;
    case A_LTHREAD: {
      dd::logical_thread l = c_void<dd::logical_thread>(i, cp(0), cp(1), w...);
      break;
    }
    case A_INPLACE:
      if constexpr (sizeof...(W) == 0) {
        auto g = c_yield<dd::inplace_generator<int>>(i, cp(0), cp(1));
        SIM_CHECK(!g.empty(), "value", "inplace_generator %d", i);
      } else {
        auto t = c_void<dd::job>(i, cp(0), cp(1), w...);
      }
      break;
    default:
      break;
  }
}
int submitted;
void submit(int i, const Frag& f, CheckedResource& res) {
  A& p = ap[i];
  Call c{i, f, nullptr};
  switch (p.kind) {
    case A_SCHEDULE:
      if (p.args & 1)
        wd::W.pool->schedule(c);
      else
        wd::W.pool->schedule(std::move(c), p.tag);
      break;
    case A_SCHEDULE_TO:
      if (p.args & 1)
        dd::schedule_to(*wd::W.pool, c);
      else
        dd::schedule_to(*wd::W.work, std::move(c));
      break;
    case A_SCHEDULE_RES:
      dd::schedule_to(*wd::W.work, std::move(c), dd::with_resource{static_cast<std::pmr::memory_resource&>(res)});
      break;
    case A_CALLBACK:
      evt->set_callback(EvCall{std::move(c)});
      break;
  }
}
}  // namespace

SIM_SCENARIO(values_args, 2, "arguments and callables whose copies throw: nothing starts, memory goes back where it came from") {
  int n = 1 + often(6, 24);
  reset(n);
  for (int i = 0; i < n; ++i) {
    ap[i] = A{(int)sim::draw(NARG), (int)sim::draw(NTAG), 0, (int)sim::draw(4), (bool)sim::draw(2)};
    ap[i].fuse = sim::chance(3, 4) ? 1 + sim::draw(8) : 0;
    bodies[i] = 0;
  }
  int nthr = 1 + sim::draw(2);
  CheckedResource res("explicit");
  wd::open(1, true, false);
  dd::event<int> ev;
  evt = &ev;
  int done[MAXI] = {};
  {
    auto run = [&](int t) {
      for (int i = t; i < n; i += nthr) {
        A& p = ap[i];
        bool threw = false;
        bool ok = false;
        {
          std::optional<Frag> f;
          f.emplace(i);
          arm(i, p.fuse);
          try {
            if (p.kind >= A_SCHEDULE)
              submit(i, *f, res);
            else if (p.tag == T_PMR)
              create(i, *f, dd::with_resource{static_cast<std::pmr::memory_resource&>(res)});
            else if (p.tag == T_DEFTAG)
              create(i, *f, dd::with_default_resource{});
            else
              create(i, *f);
          } catch (const Err& e) {
            threw = true;
            SIM_CHECK(e.id == i, "value", "exception %d instead of %d", e.id, i);
          }
          arm(i, 0);
        }
        ok = !threw;
        // a copy which threw may have been one inside of the executor's coroutine only before it was handed over
        SIM_CHECK(threw == did_trip(i), "value", "item %d: a copy %s, but %s", i, did_trip(i) ? "threw" : "never threw",
                  threw ? "an exception came out" : "no exception came out");
        if (threw) {
          SIM_CHECK(sim::quiet([&] { return bodies[i]; }) == 0, "started", "item %d started although its creation failed", i);
          SIM_CHECK(sim::quiet([&] { return alive[i]; }) == 0, "object-leak", "%d copies of the arguments of item %d are left", alive[i], i);
          sim::probe(p.kind >= A_SCHEDULE ? "a callable threw" : "an argument threw");
        }
        sim::quiet([&] { done[i] = ok; });
      }
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] { run(t); });
    run(0);
    for (auto& t : ts)
      t.join();
  }
  sim::quiesce();
  ev.notify_all(dd::this_thread_executor, 7);
  sim::quiesce();
  all_dead(n);
  sim::quiet([&] {
    for (int i = 0; i < n; ++i) {
      bool starts = ap[i].kind >= A_JOB || ap[i].kind == A_ASYNC || ap[i].start;
      SIM_CHECK(bodies[i] == (done[i] && starts), "lost-task", "item %d ran %d times", i, bodies[i]);
    }
  });
  SIM_CHECK(res.outstanding() == 0, "resource-leak", "%zu blocks did not come back", res.outstanding());
  wd::close();
}

// ------------------------------------------------------------------ yielded values
namespace {
enum { Y_LVALUE, Y_CONST, Y_TEMP, Y_REF, Y_HOP, NYIELD };
struct YP {
  int op[10], fuse[10], n, base;
  bool caught;       // by the producer itself
  int kind, stop;
};
YP yp[4];
int producers, eaten;
struct Prod {
  Prod() {
    sim::quiet([] { producers++; });
  }
  ~Prod() {
    sim::quiet([] { producers--; });
  }
};
#define YIELD_BODY(...)                                  \
  Prod alive_;                                           \
  for (int k = 0; k < p.n; ++k) {                        \
    int i = p.base + k;                                  \
    try {                                                \
      arm(i, 0);                                         \
      if (p.op[k] == Y_LVALUE) {                         \
        Frag f(i);                                       \
        arm(i, p.fuse[k]);                               \
        co_yield f;                                      \
        SIM_CHECK(f.good(i), "value", "value %d was changed by the consumer", i); \
      } else if (p.op[k] == Y_CONST) {                   \
        const Frag f(i);                                 \
        arm(i, p.fuse[k]);                               \
        co_yield f;                                      \
        SIM_CHECK(f.good(i), "value", "value %d was changed by the consumer", i); \
      } else if (p.op[k] == Y_TEMP) {                    \
        arm(i, p.fuse[k]);                               \
        co_yield Frag(i);                                \
      } else if (p.op[k] == Y_REF) {                     \
        Frag f(i);                                       \
        arm(i, p.fuse[k]);                               \
        co_yield dd::by_ref{f};                          \
        SIM_CHECK(!f.c, "value", "value %d was yielded by reference, but its copy was moved from", i); \
      } else {                                           \
        __VA_ARGS__;                                     \
      }                                                  \
    } catch (const Err& e) {                             \
      SIM_CHECK(e.id == i, "value", "value %d: exception %d", i, e.id); \
      if (!p.caught)                                     \
        throw;                                           \
    }                                                    \
  }
dd::generator<Frag> y_gen(YP& p) {
  YIELD_BODY(sim::yield())
}
dd::inplace_generator<Frag> y_inplace(YP& p) {
  YIELD_BODY(sim::yield())
}
dd::channel<Frag> y_chan(YP& p) {
  YIELD_BODY(WD_HOP(wd::H_POOL))
}
dd::generator<Frag> y_gen_outer(YP& p) {
  Prod alive_;
  co_yield dd::elements_of(y_gen(p));
}
dd::channel<Frag> y_chan_outer(YP& p) {
  Prod alive_;
  co_yield dd::elements_of(y_chan(p));
}
// what the consumer sees: every value in its place, but for those whose copies threw
struct Seen {
  const YP& p;
  int next = 0;
  void skip(int upto, bool all_caught) {
    sim::Quiet z;
    for (; next < upto; ++next)
      SIM_CHECK(p.op[next] == Y_HOP || (tripped[p.base + next] && all_caught), "sequence", "value %d is missing", p.base + next);
  }
  void took(Frag&& f) {
    int i = f.item;
    SIM_CHECK(i >= p.base + next && i < p.base + p.n, "sequence", "item %d after %d", i, p.base + next - 1);
    skip(i - p.base, p.caught);
    next++;
    arm(i, 0);
    SIM_CHECK(!did_trip(i), "sequence", "item %d arrived although its copy threw", i);
    SIM_CHECK(f.good(i), "sequence", "item %d", i);
    Frag mine(std::move(f));
    SIM_CHECK(mine.good(i), "value", "item %d", i);
  }
  void end(int err) {
    if (err < 0)
      skip(p.n, p.caught);
    else {
      SIM_CHECK(!p.caught && did_trip(err), "sequence", "exception %d invented", err);
      SIM_CHECK(err >= p.base + next && err < p.base + p.n, "sequence", "exception %d after %d", err, p.base + next - 1);
      skip(err - p.base, false);
    }
  }
};
dd::task<void> eat_channel(YP& p) {
  Seen w{p};
  int k = 0, err = -1;
  bool out = false;
  {
    dd::channel<Frag> c = p.kind & 1 ? y_chan_outer(p) : y_chan(p);
    try {
      for (auto b = co_await c.begin(); b != c.end(); (void)(co_await (++b))) {
        w.took(std::move(*b));
        if (++k == p.stop) {
          out = true;
          break;
        }
      }
    } catch (const Err& e) {
      err = e.id;
    }
  }
  if (!out)
    w.end(err);
  sim::quiet([] { eaten++; });
}
template <typename G>
void eat(YP& p, auto make) {
  Seen w{p};
  int k = 0, err = -1;
  sim::quiet([] { eaten++; });
  try {
    G g = make();
    for (auto b = g.begin(); b != g.end(); ++b) {
      w.took(std::move(*b));
      if (++k == p.stop)
        return;
    }
  } catch (const Err& e) {
    err = e.id;
  }
  w.end(err);
}
}  // namespace

SIM_SCENARIO(values_yields, 2, "yielded values whose copies throw, producers which go on all the same") {
  int np = 1 + sim::draw(4);
  reset(MAXI);
  producers = eaten = 0;
  for (int j = 0; j < np; ++j) {
    YP& p = yp[j];
    p.n = sim::draw(9);
    p.base = j * 12;
    p.caught = sim::draw(2);
    p.kind = sim::draw(5);
    p.stop = sim::chance(1, 4) ? 1 + sim::draw(6) : -1;
    for (int k = 0; k < p.n; ++k) {
      p.op[k] = sim::draw(NYIELD);
      p.fuse[k] = sim::chance(1, 3) ? 1 + sim::draw(2) : 0;
    }
  }
  wd::open(1, false, false);
  for (int j = 0; j < np; ++j) {
    YP& p = yp[j];
    if (p.kind < 2)
      eat_channel(p).start_and_detach();
    else if (p.kind == 2)
      eat<dd::generator<Frag>>(p, [&] { return y_gen(p); });
    else if (p.kind == 3)
      eat<dd::generator<Frag>>(p, [&] { return y_gen_outer(p); });
    else
      eat<dd::inplace_generator<Frag>>(p, [&] { return y_inplace(p); });
  }
  sim::quiesce();
  all_dead(MAXI);
  SIM_CHECK(sim::quiet([] { return eaten; }) == np, "lost", "%d of %d consumers finished", eaten, np);
  SIM_CHECK(sim::quiet([] { return producers; }) == 0, "object-leak", "%d producers are left", producers);
  sim::quiet([] {
    for (int i = 0; i < MAXI; ++i)
      if (tripped[i])
        sim::probe("a yielded value threw");
  });
  wd::close();
}
