// Large frames, long argument packs, many events.
#include "world.h"
#include <numeric>

namespace {
using wd::W;
int scr(int i) {
  return i * 2654435 % 100003;
}

// ------------------------------------------------------------------ frames of every size
enum { K_TASK, K_ASYNC, K_GEN, K_CHAN, K_LTHREAD, K_JOB };
CheckedResource* res_;
struct Res {
  CheckedResource* r;
  void* allocate(size_t n) {
    return r->allocate(n);
  }
  void deallocate(void* p, size_t n) {
    r->deallocate(p, n);
  }
};
// odd alignment offset: the resource lies behind the frame
struct Wide {
  CheckedResource* r;
  uint64_t a, b, c, d;
  explicit Wide(CheckedResource* r) : r(r), a(1), b(2), c(3), d(4) {
  }
  void* allocate(size_t n) {
    SIM_CHECK(a == 1 && b == 2 && c == 3 && d == 4, "corrupt", "a resource before an allocation");
    return r->allocate(n);
  }
  void deallocate(void* p, size_t n) {
    SIM_CHECK(a == 1 && b == 2 && c == 3 && d == 4, "corrupt", "a resource before a deallocation");
    r->deallocate(p, n);
  }
};
int bodies, ends_;
struct Counted {
  int id;
  Counted(int id) : id(id) {
    sim::quiet([] { bodies++; });
  }
  ~Counted() {
    sim::quiet([] { ends_++; });
  }
};
template <size_t N>
struct Blob {
  unsigned char b[N];
  explicit Blob(int seed) {
    for (size_t i = 0; i < N; i += N > 600 ? 509 : 16)
      b[i] = (unsigned char)(seed + i);
    b[N - 1] = (unsigned char)(seed * 3);
  }
  bool good(int seed) const {
    for (size_t i = 0; i < N; i += N > 600 ? 509 : 16)
      if (b[i] != (unsigned char)(seed + i) && i != N - 1)
        return false;
    return b[N - 1] == (unsigned char)(seed * 3);
  }
};
void frame_at(const void* p, bool own) {
  sim::quiet([&] { SIM_CHECK(res_->owns(p) == own, "wrong-resource", "a large frame is %s its resource", own ? "not in" : "in"); });
}
#define BIG_BODY(own)                                                                        \
  Counted cnt(seed);                                                                         \
  Blob<N> blob(seed);                                                                        \
  frame_at(&blob, own);                                                                      \
  frame_at((char*)&blob + N - 1, own);                                                       \
  if (hop)                                                                                   \
    WD_HOP(hop);                                                                             \
  SIM_CHECK(blob.good(seed), "corrupt", "a frame of more than %zu bytes was overwritten", N)

template <typename C, size_t N, typename... A>
C big_ret(int seed, int hop, A...) {
  BIG_BODY(sizeof...(A) > 0);
  co_return seed;
}
template <typename C, size_t N, typename... A>
C big_void(int seed, int hop, A...) {
  BIG_BODY(sizeof...(A) > 0);
}
template <size_t N, typename... A>
dd::generator<int> big_gen(int seed, A...) {
  Counted cnt(seed);
  Blob<N> blob(seed);
  frame_at(&blob, sizeof...(A) > 0);
  for (int i = 0; i < 3; ++i) {
    co_yield seed + i;
    SIM_CHECK(blob.good(seed), "corrupt", "a frame of more than %zu bytes was overwritten", N);
  }
}
template <size_t N, typename... A>
dd::channel<int> big_chan(int seed, int hop, A...) {
  BIG_BODY(sizeof...(A) > 0);
  for (int i = 0; i < 3; ++i) {
    co_yield seed + i;
    SIM_CHECK(blob.good(seed), "corrupt", "a frame of more than %zu bytes was overwritten", N);
  }
}
dd::task<void> eat(dd::channel<int> c, int seed, int upto) {
  int k = 0;
  if (upto)
    co_foreach(int x, c) {
      SIM_CHECK(x == seed + k, "sequence", "value of a channel with a large frame");
      if (++k == upto)
        break;
    }
}
template <size_t N, typename... A>
void big_one(int kind, int seed, int hop, int how, A... a) {
  switch (kind) {
    case K_TASK: {
      auto t = big_ret<dd::task<int>, N>(seed, hop, a...);
      if (how)
        SIM_CHECK(t.get() == seed, "value", "a task with a large frame");
      break;
    }
    case K_ASYNC: {
      auto t = big_ret<dd::async_task<int>, N>(seed, hop, a...);
      if (how)
        SIM_CHECK(t.get() == seed, "value", "an async_task with a large frame");
      break;
    }
    case K_GEN: {
      auto g = big_gen<N>(seed, a...);
      int k = 0;
      if (how)
        for (int x : g) {
          SIM_CHECK(x == seed + k, "sequence", "value of a generator with a large frame");
          if (++k == how)
            break;
        }
      break;
    }
    case K_CHAN:
      eat(big_chan<N>(seed, hop, a...), seed, how).get();
      break;
    case K_LTHREAD: {
      auto t = big_void<dd::logical_thread, N>(seed, hop, a...);
      if (how)
        t.join();
      else
        t.detach();
      break;
    }
    default:
      big_void<dd::job, N>(seed, hop, a...);
      break;
  }
}
template <typename... A>
void big_sizes(int size, int kind, int seed, int hop, int how, A... a) {
  switch (size) {
    case 0:
      return big_one<40>(kind, seed, hop, how, a...);
    case 1:
      return big_one<1000>(kind, seed, hop, how, a...);
    case 2:
      return big_one<4096>(kind, seed, hop, how, a...);
    case 3:
      return big_one<33001>(kind, seed, hop, how, a...);
    default:
      return big_one<70003>(kind, seed, hop, how, a...);
  }
}
}  // namespace
SIM_SCENARIO(scale_frames, 1, "frames of up to 70 KB in resources of every kind") {
  bodies = ends_ = 0;
  CheckedResource r("large");
  res_ = &r;
  wd::open(1 + sim::draw(2));
  {
    dd::stack_resource stack;
    int n = 1 + sim::draw(6);
    for (int i = 0; i < n; ++i) {
      int size = sim::draw(5), kind = sim::draw(6), hop = sim::draw(2) ? wd::draw_hop() : 0, how = sim::draw(5);
      switch (sim::draw(5)) {
        case 0:
          big_sizes(size, kind, 100 + i, hop, how);
          break;
        case 1:
          big_sizes(size, kind, 100 + i, hop, how, dd::with_resource<Res>(&r));
          break;
        case 2:
          big_sizes(size, kind, 100 + i, hop, how, dd::with_resource<Wide>(&r));
          break;
        case 3:
          big_sizes(size, kind, 100 + i, hop, how, dd::with_pmr_resource(r));
          break;
        default: {
          // callables of any size in the pool
          dd::thread_pool p(1, dd::default_worker_job, r);
          switch (size) {
            case 0:
            case 1:
              p.schedule([b = Blob<1000>(i), i] {
                SIM_CHECK(b.good(i), "corrupt", "a large callable");
                frame_at(&b, true);
                sim::quiet([] { bodies++, ends_++; });
              });
              break;
            default:
              p.schedule([b = Blob<40000>(i), i] {
                SIM_CHECK(b.good(i), "corrupt", "a large callable");
                frame_at(&b, true);
                sim::quiet([] { bodies++, ends_++; });
              });
          }
          sim::quiesce();
          SIM_CHECK(r.outstanding() == 2, "leak", "%zu blocks are outstanding in an idle pool", r.outstanding() - 2);
          break;
        }
      }
      sim::quiesce();
      sim::quiet([] { SIM_CHECK(bodies == ends_, "frame-leak", "%d bodies started, %d ended", bodies, ends_); });
      SIM_CHECK(r.outstanding() == 0, "leak", "%zu large blocks are outstanding", r.outstanding());
    }
  }
  wd::close();
}

// ------------------------------------------------------------------ long argument packs
namespace {
constexpr int PACK = 17;
int p_hop[PACK], p_how[PACK];  // how: 0 value, 1 throws
int p_ended[PACK], p_order[PACK], p_n;
dd::task<int> pk(int i) {
  std::unique_ptr<Cell> c(new Cell{i});
  if (p_hop[i])
    WD_HOP(p_hop[i]);
  SIM_CHECK(c->v == i, "corrupt", "frame of task %d", i);
  sim::quiet([&] {
    SIM_CHECK(++p_ended[i] == 1, "resumed-twice", "task %d of a pack ended twice", i);
    p_order[p_n++] = i;
  });
  if (p_how[i])
    throw Err{i};
  co_return scr(i);
}
template <typename Ex>
void pk_check(const Ex& e, int i) {
  if (p_how[i]) {
    SIM_CHECK(!e.has_value(), "value", "the exception of task %d of a pack is lost", i);
    int id = -1;
    try {
      std::rethrow_exception(e.error());
    } catch (const Err& x) {
      id = x.id;
    }
    SIM_CHECK(id == i, "value", "task %d of a pack: exception of task %d", i, id);
  } else
    SIM_CHECK(e.has_value() && *e == scr(i), "value", "result of task %d of a pack", i);
}
template <size_t... I>
dd::task<void> pk_all(std::index_sequence<I...>) {
  auto r = co_await dd::when_all(pk(I)...);
  sim::quiet([] {
    for (size_t i = 0; i < sizeof...(I); ++i)
      SIM_CHECK(p_ended[i] == 1, "early", "when_all went on before task %zu ended", i);
  });
  (pk_check(std::get<I>(r), I), ...);
}
template <size_t... I>
dd::task<void> pk_any(std::index_sequence<I...>) {
  auto r = co_await dd::when_any(pk(I)...);
  int w = (int)r.index() - 1;
  SIM_CHECK(w >= 0 && w < (int)sizeof...(I), "value", "when_any without a winner");
  bool all_fail = true;
  sim::quiet([&] {
    SIM_CHECK(p_ended[w], "early", "the winner %d has not ended", w);
    for (size_t i = 0; i < sizeof...(I); ++i)
      all_fail &= p_how[i] != 0;
    if (all_fail)
      SIM_CHECK(p_n == (int)sizeof...(I), "early", "when_any reports a failure after %d of %zu tasks", p_n, sizeof...(I));
    else
      SIM_CHECK(!p_how[w], "value", "when_any reports the failure of %d although another task succeeds", w);
  });
  auto look = [&]<size_t K>(std::integral_constant<size_t, K>) {
    if (w == (int)K)
      pk_check(std::get<K + 1>(r), K);
  };
  (look(std::integral_constant<size_t, I>{}), ...);
}
void pk_draw(int n, bool any) {
  int fails = sim::draw(4);
  for (int i = 0; i < n; ++i) {
    p_hop[i] = sim::draw(3) ? wd::draw_hop() : 0;
    p_how[i] = fails == 3 ? 1 : fails == 0 ? 0 : sim::draw(2);
    p_ended[i] = 0;
  }
  p_n = 0;
  (void)any;
}
}  // namespace
SIM_SCENARIO(scale_all_pack, 1, "when_all over packs of 9 and 17 tasks") {
  bool small = sim::draw(2);
  wd::open(1 + sim::draw(3));
  pk_draw(PACK, false);
  if (small)
    pk_all(std::make_index_sequence<9>{}).get();
  else
    pk_all(std::make_index_sequence<PACK>{}).get();
  sim::quiesce();
  wd::close();
}
SIM_SCENARIO(scale_any_pack, 1, "when_any over packs of 9 and 17 tasks") {
  bool small = sim::draw(2);
  wd::open(1 + sim::draw(3));
  pk_draw(PACK, true);
  if (small)
    pk_any(std::make_index_sequence<9>{}).get();
  else
    pk_any(std::make_index_sequence<PACK>{}).get();
  sim::quiesce();
  wd::close();
}

// ------------------------------------------------------------------ many events
namespace {
constexpr int NEV = 40;
int ev_done, ev_index;
bool ev_begun[NEV];
template <size_t... I>
dd::job ev_all(dd::event<int>* e, std::index_sequence<I...>) {
  auto r = co_await dd::when_all(e[I]...);
  sim::quiet([&] {
    SIM_CHECK(++ev_done == 1, "resumed-twice", "when_all over %zu events resumed %d times", sizeof...(I), ev_done);
    for (size_t i = 0; i < sizeof...(I); ++i)
      SIM_CHECK(ev_begun[i], "early", "when_all over %zu events went on before event %zu was notified", sizeof...(I), i);
  });
  int got[] = {std::get<I>(r)...};
  for (size_t i = 0; i < sizeof...(I); ++i)
    SIM_CHECK(got[i] == scr((int)i + 1), "value", "input %zu of when_all over %zu events is %d", i, sizeof...(I), got[i]);
}
template <size_t... I>
dd::job ev_any(dd::event<int>* e, std::index_sequence<I...>) {
  auto r = co_await dd::when_any(e[I]...);
  sim::quiet([&] {
    SIM_CHECK(++ev_done == 1, "resumed-twice", "when_any over %zu events resumed %d times", sizeof...(I), ev_done);
    ev_index = (int)r.index();
    SIM_CHECK(ev_begun[ev_index], "early", "when_any names event %d, which was not notified", ev_index);
  });
  int got = std::visit([](int x) { return x; }, [&] {
    std::variant<int> v;
    auto pick = [&]<size_t K>(std::integral_constant<size_t, K>) {
      if (r.index() == K)
        v = std::get<K>(r);
    };
    (pick(std::integral_constant<size_t, I>{}), ...);
    return v;
  }());
  SIM_CHECK(got == scr(ev_index + 1), "value", "when_any: input %d with index %d", got, ev_index);
}
}  // namespace
SIM_SCENARIO(scale_events, 1, "when_all / when_any over 3, 9, 17 and 40 events") {
  ev_done = 0;
  ev_index = -1;
  std::fill(ev_begun, ev_begun + NEV, false);
  static const int sizes[] = {3, 9, 17, 40};
  int pick = sim::draw(4), n = sizes[pick], nt = 1 + sim::draw(2), exe = sim::draw(3);
  bool all = sim::draw(2), early = sim::draw(2);
  int first = sim::draw(n), step = 1 + 2 * sim::draw(2);
  while (std::gcd(step, n) != 1)
    ++step;
  wd::open(1 + sim::draw(2));
  {
    dd::event<int> e[NEV];
    auto subscribe = [&] {
      auto run = [&]<size_t K>(std::integral_constant<size_t, K>) {
        if (all)
          ev_all(e, std::make_index_sequence<K>{});
        else
          ev_any(e, std::make_index_sequence<K>{});
      };
      if (pick == 0)
        run(std::integral_constant<size_t, 3>{});
      else if (pick == 1)
        run(std::integral_constant<size_t, 9>{});
      else if (pick == 2)
        run(std::integral_constant<size_t, 17>{});
      else
        run(std::integral_constant<size_t, 40>{});
    };
    auto notify = [&](int t, int stride) {
      for (int k = t; k < n; k += stride) {
        int i = (first + k * step) % n;
        sim::quiet([&] { ev_begun[i] = true; });
        // whoever is too early tries again
        for (;;) {
          bool any;
          if (exe == 0)
            any = e[i].notify_all(dd::this_thread_executor, scr(i + 1));
          else if (exe == 1)
            any = e[i].notify_all(*W.pool, scr(i + 1));
          else
            any = e[i].notify_all(*W.work, scr(i + 1));
          if (any)
            break;
          sim::yield();
        }
      }
    };
    std::thread t;
    if (early && nt == 2) {
      t = std::thread([&] { notify(1, 2); });
      subscribe();
    } else {
      subscribe();
      if (nt == 2)
        t = std::thread([&] { notify(1, 2); });
    }
    notify(0, nt);
    if (t.joinable())
      t.join();
    sim::quiesce();
    sim::quiet([&] { SIM_CHECK(ev_done == 1, "lost-task", "%s over %d events was resumed %d times", all ? "when_all" : "when_any", n, ev_done); });
  }
  wd::close();
}
