// Frames of all coroutine kinds in all sorts of memory resources: who allocates, who gets the block back, what happens when it fails.
#include "world.h"

namespace {
enum { K_TASK, K_ASYNC, K_LTHREAD, K_GEN, K_CHAN, K_JOB, NKIND };
enum { M_PLAIN, M_DEFTAG, M_STATELESS, M_TRIVIAL, M_OWNER, M_CHUNK, M_PMR_TAG, M_R_STATELESS, M_R_TRIVIAL, M_PMR, M_PMR_EXPLICIT,
       M_OWNER_REF, M_OWNER_REF8, M_R_OWNER, M_CHUNK_EMPTY, M_MEMBER, M_R_NEWDEL, NMODE };

constexpr int NREG = 6;
CheckedResource* reg[NREG];  // 0, 1, 2: passed explicitly; 3: behind the stateless resource; 4, 5: default resources
int owners;                  // live Owner objects

struct Stateless {
  static void* allocate(size_t n) {
    return reg[3]->allocate(n);
  }
  static void deallocate(void* p, size_t n) {
    reg[3]->deallocate(p, n);
  }
};
struct Trivial {  // larger than its alignment
  CheckedResource* r;
  uint64_t canary[2] = {0x5aa5, 0xa55a};
  void* allocate(size_t n) {
    return r->allocate(n);
  }
  void deallocate(void* p, size_t n) {
    SIM_CHECK(canary[0] == 0x5aa5 && canary[1] == 0xa55a, "corrupt", "the resource in a frame was overwritten");
    r->deallocate(p, n);
  }
};
// not trivially destructible, aligned, and not usable after a move
struct alignas(16) Owner {
  CheckedResource* r;
  std::unique_ptr<Cell> mine;
  uint64_t canary = 0xa55a;
  explicit Owner(CheckedResource* r) : r(r), mine(new Cell{77}) {
    sim::quiet([&] { owners++; });
  }
  Owner(Owner&& o) noexcept : r(o.r), mine(std::move(o.mine)) {
    sim::quiet([&] { owners++; });
  }
  // the copy of the argument in the frame may be made after the resource was moved to its place
  Owner(const Owner& o) : r(o.r), mine(o.mine ? new Cell{o.mine->v} : nullptr) {
    sim::quiet([&] { owners++; });
  }
  ~Owner() {
    sim::quiet([&] {
      owners--;
      SIM_CHECK(owners >= 0, "destroyed-twice", "a memory resource was destroyed twice");
    });
  }
  void* allocate(size_t n) {
    SIM_CHECK(mine && mine->v == 77, "resource-moved-from", "allocation from a resource which was moved from");
    return r->allocate(n);
  }
  void deallocate(void* p, size_t n) {
    SIM_CHECK(canary == 0xa55a, "corrupt", "the resource in a frame was overwritten");
    SIM_CHECK(mine && mine->v == 77, "resource-moved-from", "deallocation with a resource which was moved from");
    r->deallocate(p, n);
  }
};
// the same, but nobody has to pass it
struct DefOwner : Owner {
  DefOwner() : Owner(reg[2]) {
  }
};
static_assert(alignof(DefOwner) == 16 && !std::is_empty_v<DefOwner> && dd::memory_resource<DefOwner>);
static_assert(dd::memory_resource<Owner> && dd::memory_resource<Trivial> && dd::memory_resource<Stateless>);

struct P {
  int kind = 0, mode = 0, r = 0, dies = 0, n = 0, nhops = 0, hops[2] = {}, pad = 0;
  bool throws = false, fail = false;
  // filled while running
  CheckedResource *expected = nullptr, *alt = nullptr;
  int token = -1, started = 0, ended = 0;
  bool failed = false;
};
constexpr int MAXP = 18;
P plan[MAXP];

void where(P& p, const void* frame) {
  sim::quiet([&] {
    if (p.expected && (p.expected->owns(frame) || (p.alt && p.alt->owns(frame))))
      return;
    for (int i = 0; i < NREG; ++i)
      SIM_CHECK(!reg[i]->owns(frame), "wrong-resource", "frame of kind %d mode %d is in resource %d (%s)", p.kind, p.mode, i, reg[i]->name);
    SIM_CHECK(!p.expected, "wrong-resource", "frame of kind %d mode %d is not in %s", p.kind, p.mode, p.expected->name);
  });
}
// in every body: lives in the frame
struct Guard {
  P& p;
  Token& t;
  std::unique_ptr<Cell> c;
  Guard(P& p, Token& t) : p(p), t(t), c(new Cell{p.pad}) {
    sim::quiet([&] { SIM_CHECK(++p.started == 1, "started-twice", "kind %d", p.kind); });
    check();
  }
  void check() {
    where(p, &t);
    where(p, this);
    SIM_CHECK(c->v == p.pad && t.id == p.token, "corrupt", "frame of kind %d mode %d", p.kind, p.mode);
  }
  ~Guard() {
    check();
    sim::quiet([&] { p.ended++; });
  }
};
template <int N>
struct Pad {
  unsigned char b[N];
};

template <typename Ret, typename... W>
Ret c_task(P& p, Token t, W...) {
  Guard g(p, t);
  auto h = co_await dd::this_coro::handle;
  where(p, h.address());
  for (int k = 0; k < p.nhops; ++k) {
    WD_HOP(p.hops[k]);
    g.check();
  }
  if (p.throws)
    throw Err{p.pad};
  co_return p.pad;
}
template <typename Ret, typename... W>
Ret c_lthread(P& p, Token t, W...) {
  Guard g(p, t);
  auto h = co_await dd::this_coro::handle;
  where(p, h.address());
  if constexpr (std::is_convertible_v<Ret, dd::logical_thread>) {
    dd::stop_token tok = co_await dd::this_coro::stop_token;
    SIM_CHECK(!tok.stop_requested(), "status", "stop requested by nobody");
  }
  Pad<40> pad;
  std::memset(pad.b, p.pad, sizeof pad.b);
  for (int k = 0; k < p.nhops; ++k) {
    WD_HOP(p.hops[k]);
    g.check();
  }
  for (auto x : pad.b)
    SIM_CHECK(x == (unsigned char)p.pad, "corrupt", "frame of kind %d mode %d", p.kind, p.mode);
}
template <typename Ret, typename... W>
Ret c_gen(P& p, Token t, W...) {
  Guard g(p, t);
  auto h = co_await dd::this_coro::handle;
  where(p, h.address());
  Pad<88> pad;
  std::memset(pad.b, p.pad, sizeof pad.b);
  for (int k = 0; k < p.n; ++k) {
    co_yield int(k);
    g.check();
    for (auto x : pad.b)
      SIM_CHECK(x == (unsigned char)p.pad, "corrupt", "frame of kind %d mode %d", p.kind, p.mode);
  }
  if (p.throws)
    throw Err{p.pad};
}
template <typename Ret, typename... W>
Ret c_chan(P& p, Token t, W...) {
  Guard g(p, t);
  auto h = co_await dd::this_coro::handle;
  where(p, h.address());
  for (int k = 0; k < p.n; ++k) {
    if (k < p.nhops)
      WD_HOP(p.hops[k]);
    co_yield int(k);
    g.check();
  }
  if (p.throws)
    throw Err{p.pad};
}

// coroutines which are member functions
struct Object {
  int number;
  template <typename Ret, typename... W>
  Ret task(P& p, Token t, W...) {
    Guard g(p, t);
    auto h = co_await dd::this_coro::handle;
    where(p, h.address());
    for (int k = 0; k < p.nhops; ++k) {
      WD_HOP(p.hops[k]);
      g.check();
    }
    SIM_CHECK(number == 4711, "corrupt", "object of a member coroutine");
    if (p.throws)
      throw Err{p.pad};
    co_return p.pad;
  }
  template <typename Ret, typename... W>
  Ret gen(P& p, Token t, W...) const {
    Guard g(p, t);
    auto h = co_await dd::this_coro::handle;
    where(p, h.address());
    for (int k = 0; k < p.n; ++k) {
      co_yield int(k);
      g.check();
    }
    SIM_CHECK(number == 4711, "corrupt", "object of a member coroutine");
    if (p.throws)
      throw Err{p.pad};
  }
};
Object object{4711};

template <int K, typename R>
struct coro {
  template <typename C>
  using w = std::conditional_t<std::is_void_v<R>, std::type_identity<C>, std::type_identity<dd::resourced<C, R>>>::type;
  using type = decltype([] {
    if constexpr (K == K_TASK)
      return std::type_identity<dd::task<int>>();
    else if constexpr (K == K_ASYNC)
      return std::type_identity<dd::async_task<int>>();
    else if constexpr (K == K_LTHREAD)
      return std::type_identity<dd::logical_thread>();
    else if constexpr (K == K_GEN)
      return std::type_identity<dd::generator<int>>();
    else if constexpr (K == K_CHAN)
      return std::type_identity<dd::channel<int>>();
    else
      return std::type_identity<dd::job>();
  }())::type;
};
template <int K>
struct coro<K, void> : coro<K, int> {};
template <int K, typename R>
using coro_t = std::conditional_t<std::is_void_v<R>, typename coro<K, void>::type,
                                  dd::resourced<typename coro<K, void>::type, std::conditional_t<std::is_void_v<R>, Stateless, R>>>;

template <int K, typename Ret, typename... W>
Ret start(P& p, Token t, W... w) {
  if constexpr (K == K_TASK && sizeof...(W) == 2)
    return object.task<Ret, W...>(p, std::move(t), std::move(w)...);
  else if constexpr (K == K_GEN && sizeof...(W) == 2)
    return object.gen<Ret, W...>(p, std::move(t), std::move(w)...);
  else
  // forwarded: the coroutine's arguments are these objects
  if constexpr (K == K_TASK || K == K_ASYNC)
    return c_task<Ret, W...>(p, std::move(t), std::move(w)...);
  else if constexpr (K == K_LTHREAD || K == K_JOB)
    return c_lthread<Ret, W...>(p, std::move(t), std::move(w)...);
  else if constexpr (K == K_GEN)
    return c_gen<Ret, W...>(p, std::move(t), std::move(w)...);
  else
    return c_chan<Ret, W...>(p, std::move(t), std::move(w)...);
}

dd::task<void> consume_channel(P& p, dd::channel<int> c, int upto) {
  bool threw = false;
  int k = 0;
  if (upto > 0) {
    try {
      co_foreach(int x, c) {
        SIM_CHECK(x == k, "sequence", "channel: %d instead of %d", x, k);
        if (++k >= upto)
          break;
      }
    } catch (const Err& e) {
      threw = true;
      SIM_CHECK(e.id == p.pad, "value", "exception of a channel");
    }
    SIM_CHECK(k == std::min(upto, p.n), "sequence", "channel: %d values", k);
    SIM_CHECK(threw == (p.throws && upto > p.n), "value", "exception of a channel");
  }
}

// what becomes of it
template <int K, typename C>
void use(P& p, C c) {
  if constexpr (K == K_TASK) {
    switch (p.dies) {
      case 0:
        break;  // never started
      case 1: {
        bool threw = false;
        try {
          SIM_CHECK(c.get() == p.pad, "value", "result of a task");
        } catch (const Err& e) {
          threw = true;
          SIM_CHECK(e.id == p.pad, "value", "exception of a task");
        }
        SIM_CHECK(threw == p.throws, "value", "exception of a task");
        break;
      }
      case 2: {
        C d(std::move(c));
        (void)d.start_and_detach();
        break;
      }
      default: {
        auto h = c.release();
        h.destroy();
        break;
      }
    }
  } else if constexpr (K == K_ASYNC) {
    switch (p.dies) {
      case 0:
        break;
      case 1: {
        bool threw = false;
        try {
          SIM_CHECK(c.get() == p.pad, "value", "result of an async_task");
        } catch (const Err& e) {
          threw = true;
        }
        SIM_CHECK(threw == p.throws, "value", "exception of an async_task");
        break;
      }
      case 2:
        c.detach();
        break;
      default: {
        C d(std::move(c));
        d.wait();
        break;
      }
    }
  } else if constexpr (K == K_LTHREAD) {
    switch (p.dies) {
      case 0:
        break;
      case 1:
        c.join();
        break;
      case 2:
        c.detach();
        break;
      default: {
        C d(std::move(c));
        break;
      }
    }
  } else if constexpr (K == K_GEN) {
    int upto = p.dies == 0 ? 0 : p.dies == 1 ? 1000 : p.dies - 1;
    C d(std::move(c));
    if (upto) {
      int k = 0;
      bool threw = false;
      try {
        for (int x : d) {
          SIM_CHECK(x == k, "sequence", "generator: %d instead of %d", x, k);
          if (++k >= upto)
            break;
        }
      } catch (const Err&) {
        threw = true;
      }
      SIM_CHECK(threw == (p.throws && upto > p.n), "value", "exception of a generator");
    }
  } else if constexpr (K == K_CHAN) {
    int upto = p.dies == 0 ? 0 : p.dies == 1 ? 1000 : p.dies - 1;
    auto t = [&] {
      if constexpr (requires { c.decay(); })
        return consume_channel(p, std::move(c).decay(), upto);
      else
        return consume_channel(p, std::move(c), upto);
    }();
    if (p.r & 1)
      t.get();
    else
      (void)t.start_and_detach();
  }
}

struct PerThread {
  CheckedResource* passed = nullptr;
};
bool two_defaults;
CheckedResource* default_reg;  // null: nobody set a default

template <int K, int M>
void one(P& p, PerThread& me) {
  CheckedResource* r = reg[p.r % 3];
  p.token = g_track.fresh();
  auto go = [&](auto make) {
    using C = decltype(make(Token()));
    std::optional<C> c;
    Token arg(p.token);
    bool failed = false;
    try {
      if (p.fail)
        sim::fail_next_alloc();
      c.emplace(make(std::move(arg)));
      sim::fail_next_alloc(false);
    } catch (const std::bad_alloc&) {
      failed = true;
    }
    SIM_CHECK(failed == p.fail, "allocation", "kind %d mode %d: %s", K, M, failed ? "failed" : "the failure of the resource was swallowed");
    if (failed) {
      arg.drop();
      SIM_CHECK(p.started == 0, "started", "kind %d mode %d was started although its creation failed", K, M);
      SIM_CHECK(token_dead(p.token), "object-leak", "argument of kind %d mode %d whose creation failed", K, M);
      sim::probe("creation failed");
      p.failed = true;
      return;
    }
    if constexpr (requires { c->decay(); }) {
      // what it is underneath is the same object
      auto& d = c->decay();
      auto&& r1 = std::as_const(*c).decay();
      auto&& r2 = std::move(std::as_const(*c)).decay();
      SIM_CHECK((void*)&d == (void*)&*c && (void*)&r1 == (void*)&*c && (void*)&r2 == (void*)&*c, "decay",
                "decay() is another object");
    }
    use<K>(p, std::move(*c));
  };
  if constexpr (M == M_PLAIN)
    go([&](Token t) { return start<K, coro_t<K, void>>(p, std::move(t)); });
  else if constexpr (M == M_DEFTAG)
    go([&](Token t) { return start<K, coro_t<K, void>, dd::with_default_resource>(p, std::move(t), {}); });
  else if constexpr (M == M_STATELESS) {
    p.expected = reg[3];
    go([&](Token t) { return start<K, coro_t<K, void>, dd::with_resource<Stateless>>(p, std::move(t), {}); });
  } else if constexpr (M == M_TRIVIAL) {
    p.expected = r;
    go([&](Token t) { return start<K, coro_t<K, void>, dd::with_resource<Trivial>>(p, std::move(t), Trivial{r}); });
  } else if constexpr (M == M_OWNER) {
    p.expected = r;
    Owner o(r);
    go([&](Token t) { return start<K, coro_t<K, void>, dd::with_resource<Owner>>(p, std::move(t), dd::with_resource<Owner>(std::move(o))); });
  } else if constexpr (M == M_CHUNK) {
    p.expected = r;
    go([&](Token t) {
      return start<K, coro_t<K, void>, dd::with_resource<dd::chunk_from<CheckedResource>>>(p, std::move(t), dd::chunk_from<CheckedResource>(*r));
    });
  } else if constexpr (M == M_PMR_TAG) {
    p.expected = r;
    go([&](Token t) {
      std::pmr::memory_resource& m = *r;
      dd::with_resource w{m};
      static_assert(std::is_same_v<decltype(w), dd::with_pmr_resource>);
      return start<K, coro_t<K, void>, dd::with_pmr_resource>(p, std::move(t), w);
    });
  } else if constexpr (M == M_R_STATELESS) {
    p.expected = reg[3];
    go([&](Token t) { return start<K, coro_t<K, Stateless>>(p, std::move(t)); });
  } else if constexpr (M == M_R_TRIVIAL) {
    p.expected = r;
    go([&](Token t) { return start<K, coro_t<K, Trivial>, dd::with_resource<Trivial>>(p, std::move(t), Trivial{r}); });
  } else if constexpr (M == M_PMR) {
    p.expected = me.passed ? me.passed : default_reg;
    if (!me.passed && two_defaults)
      p.alt = reg[5];
    if (me.passed)
      sim::probe("passed resource used");
    me.passed = nullptr;
    go([&](Token t) { return start<K, coro_t<K, dd::pmr::polymorphic_resource>>(p, std::move(t)); });
    if (p.failed) {
      // whether the failed creation counts as the next one is not specified
      dd::pmr::pass_resource(*r);
      me.passed = r;
    }
  } else if constexpr (M == M_OWNER_REF || M == M_OWNER_REF8) {
    // nothing in the frame but a reference: its size is not a multiple of the alignment of the resource, in one of the two
    p.expected = r;
    dd::with_resource<Owner> w{Owner(r)};
    go([&](Token t) {
      if constexpr (M == M_OWNER_REF)
        return start<K, coro_t<K, void>, dd::with_resource<Owner>&&>(p, std::move(t), std::move(w));
      else
        return start<K, coro_t<K, void>, void*, void*, void*, dd::with_resource<Owner>&&>(p, std::move(t), nullptr, nullptr, nullptr, std::move(w));
    });
  } else if constexpr (M == M_R_OWNER) {
    p.expected = reg[2];
    go([&](Token t) { return start<K, coro_t<K, DefOwner>>(p, std::move(t)); });
  } else if constexpr (M == M_CHUNK_EMPTY) {
    p.expected = reg[3];
    go([&](Token t) {
      if (p.r & 1)
        return start<K, coro_t<K, void>, dd::with_resource<dd::chunk_from<Stateless>>>(p, std::move(t), {});
      Stateless st;
      return start<K, coro_t<K, void>, dd::with_resource<dd::chunk_from<Stateless>>>(p, std::move(t), dd::chunk_from<Stateless>(st));
    });
  } else if constexpr (M == M_R_NEWDEL) {
    go([&](Token t) { return start<K, coro_t<K, dd::new_delete_resource>>(p, std::move(t)); });
  } else if constexpr (M == M_MEMBER) {
    p.expected = r;
    go([&](Token t) { return start<K, coro_t<K, void>, int, dd::with_resource<Trivial>>(p, std::move(t), 3, Trivial{r}); });
  } else {
    p.expected = r;
    go([&](Token t) {
      std::pmr::memory_resource& m = *r;
      return start<K, coro_t<K, dd::pmr::polymorphic_resource>, dd::with_resource<dd::pmr::polymorphic_resource>>(
          p, std::move(t), dd::with_resource<dd::pmr::polymorphic_resource>(m));
    });
  }
}
using Fn = void (*)(P&, PerThread&);
template <int... I>
constexpr auto make_table(std::integer_sequence<int, I...>) {
  return std::array<Fn, sizeof...(I)>{&one<I / NMODE, I % NMODE>...};
}
constexpr auto table = make_table(std::make_integer_sequence<int, NKIND * NMODE>());

void pass(PerThread& me, int r) {
  dd::pmr::pass_resource(*reg[r]);
  me.passed = reg[r];
}
}  // namespace

SIM_SCENARIO(resource_mixed, 1, "frames of every kind of coroutine in every kind of resource on several threads; resources fail") {
  static const char* names[NREG] = {"A", "B", "C", "stateless", "default", "default2"};
  CheckedResource* rs = (CheckedResource*)::operator new(sizeof(CheckedResource) * NREG);
  for (int i = 0; i < NREG; ++i) {
    reg[i] = new (rs + i) CheckedResource(names[i]);
    reg[i]->can_fail = true;
  }
  owners = 0;
  int nthr = 1 + sim::draw(3);
  struct Op {
    int what;  // plan index, or -1 - r: pass_resource(r)
  };
  std::vector<std::vector<int>> ops(nthr);
  int n = 0;
  for (int t = 0; t < nthr; ++t) {
    int m = 1 + sim::draw(MAXP / nthr);
    for (int k = 0; k < m; ++k) {
      P& p = plan[n] = P{};
      p.kind = sim::draw(NKIND);
      p.mode = sim::draw(NMODE);
      if (sim::chance(1, 4)) {
        ops[t].push_back(-1 - (int)sim::draw(3));
        if (sim::draw(2))
          p.mode = M_PMR;
      }
      p.r = sim::draw(6);
      p.dies = sim::draw(4);
      p.n = sim::draw(4);
      p.nhops = sim::draw(3);
      for (int& h : p.hops)
        h = wd::draw_hop();
      p.throws = sim::chance(1, 3);
      p.fail = sim::chance(1, 5);
      p.pad = 1 + n;
      ops[t].push_back(n++);
    }
  }
  int defaults = sim::draw(3);  // nobody, one, changing
  default_reg = nullptr;
  two_defaults = false;
  auto& original = dd::pmr::get_default_resource();
  SIM_CHECK(&original == std::pmr::new_delete_resource(), "default-resource", "the initial default resource");
  if (defaults) {
    default_reg = reg[4];
    auto& before = dd::pmr::set_default_resource(*reg[4]);
    SIM_CHECK(&before == &original && &dd::pmr::get_default_resource() == reg[4], "default-resource", "set_default_resource");
    two_defaults = defaults == 2;
  }
  wd::open(1 + sim::draw(2));
  {
    auto run = [&](int t) {
      PerThread me;
      for (int o : ops[t]) {
        if (defaults) {
          auto& r = dd::pmr::get_default_resource();
          SIM_CHECK(&r == reg[4] || (two_defaults && &r == reg[5]), "default-resource", "get_default_resource");
          int st = static_cast<CheckedResource&>(r).state;
          SIM_CHECK(st == (&r == reg[5]), "default-resource", "the default resource is seen before it was complete");
        }
        if (o < 0)
          pass(me, -1 - o);
        else
          table[plan[o].kind * NMODE + plan[o].mode](plan[o], me);
      }
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < nthr; ++t)
      ts.emplace_back([&, t] { run(t); });
    std::thread changer;
    if (two_defaults)
      changer = std::thread([&] {
        for (int k = 0; k < 3; ++k) {
          sim::yield();
          if (!k)
            reg[5]->state = 1;  // whoever finds it as the default sees it as it was left
          auto& old = dd::pmr::set_default_resource(*reg[k & 1 ? 4 : 5]);
          SIM_CHECK(&old == reg[k & 1 ? 5 : 4], "default-resource", "set_default_resource returns another resource");
        }
      });
    run(0);
    for (auto& t : ts)
      t.join();
    if (changer.joinable())
      changer.join();
    sim::quiesce();
    for (int i = 0; i < n; ++i) {
      P& p = plan[i];
      bool starts = !p.failed && !((p.kind == K_TASK && (p.dies == 0 || p.dies == 3)) || ((p.kind == K_GEN || p.kind == K_CHAN) && p.dies == 0));
      SIM_CHECK(p.started == starts, "started", "kind %d mode %d: started %d times", p.kind, p.mode, p.started);
      SIM_CHECK(p.ended == p.started, "object-leak", "locals of kind %d mode %d: %d of %d destroyed", p.kind, p.mode, p.ended, p.started);
      SIM_CHECK(token_dead(p.token), "object-leak", "argument of kind %d mode %d", p.kind, p.mode);
    }
    check_tokens();
    SIM_CHECK(owners == 0, "object-leak", "%d memory resources stored in frames are left", owners);
  }
  wd::close();
  dd::pmr::set_default_resource(original);
  for (int i = 0; i < NREG; ++i)
    reg[i]->~CheckedResource();  // complains about blocks which did not come back
  ::operator delete(rs);
}

SIM_SCENARIO(resource_pmr, 1, "pass_resource and set_default_resource in any order, with equal resources: one creation uses what was passed, others the default of that moment") {
  static const char* names[NREG] = {"A", "B", "C", "stateless", "default", "default2"};
  CheckedResource* rs = (CheckedResource*)::operator new(sizeof(CheckedResource) * NREG);
  for (int i = 0; i < NREG; ++i) {
    reg[i] = new (rs + i) CheckedResource(names[i]);
    reg[i]->can_fail = true;
  }
  owners = 0;
  two_defaults = false;
  default_reg = nullptr;
  auto& original = dd::pmr::get_default_resource();
  int n = 0, nops = 2 + sim::draw(2 * MAXP);
  int op[2 * MAXP + 2];
  for (int k = 0; k < nops; ++k) {
    int what = sim::draw(3);
    if (what == 2 && n == MAXP)
      what = 1;
    if (what == 2) {
      P& p = plan[n] = P{};
      p.kind = sim::draw(NKIND);
      p.mode = sim::chance(1, 4) ? sim::draw(NMODE) : M_PMR;
      p.r = sim::draw(6);
      p.dies = sim::draw(4);
      p.n = sim::draw(4);
      p.nhops = sim::draw(2);
      for (int& h : p.hops)
        h = wd::draw_hop();
      p.throws = sim::chance(1, 3);
      p.fail = sim::chance(1, 8);
      p.pad = 1 + n;
      op[k] = 100 + n++;
    } else
      op[k] = what * 10 + sim::draw(what ? 3 : 4);
  }
  bool other_thread = sim::draw(2);
  wd::open(1);
  auto run = [&] {
    PerThread me;
    constexpr int pool[3] = {0, 4, 5};
    for (int k = 0; k < nops; ++k) {
      if (op[k] >= 100)
        table[plan[op[k] - 100].kind * NMODE + plan[op[k] - 100].mode](plan[op[k] - 100], me);
      else if (op[k] >= 10)
        pass(me, pool[op[k] - 10]);
      else {
        dd::pmr::set_default_resource(op[k] == 3 ? original : *reg[pool[op[k]]]);
        default_reg = op[k] == 3 ? nullptr : reg[pool[op[k]]];
      }
    }
    // nothing stays behind for whoever comes next on this thread
    if (me.passed)
      (void)dd::pmr::polymorphic_resource();
  };
  if (other_thread)
    std::thread(run).join();
  else
    run();
  sim::quiesce();
  check_tokens();
  SIM_CHECK(owners == 0, "object-leak", "%d memory resources stored in frames are left", owners);
  wd::close();
  dd::pmr::set_default_resource(original);
  for (int i = 0; i < NREG; ++i)
    reg[i]->~CheckedResource();
  ::operator delete(rs);
}
