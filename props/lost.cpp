// Exceptions which nobody can receive: they end the process, on whichever thread and path they leave the coroutine.
#include "world.h"

namespace {
enum { L_THREAD, L_JOB, L_SCHED, L_CALLBACK, L_CHANNEL, L_DOOMED, L_FOREIGN, NL };
enum { O_JOIN, O_DETACH, O_DIE, O_STOP_JOIN, O_ASSIGN, NO };

struct Item {
  int kind, nhops, hops[3], after, owner_does, exec, id;
  bool throws, caught, yields;
  // while running
  bool left = false;  // an exception left it
  int ended = 0;
};
constexpr int MAXI = 8;
Item items[MAXI];
int n_items, n_left;

void leaves(Item& it) {
  sim::quiet([&] {
    it.left = true;
    n_left++;
  });
}
void oracle() {
  SIM_CHECK(n_left > 0, "terminate", "std::terminate although every exception had its receiver");
  bool caught_only = true;
  for (int i = 0; i < n_items; ++i)
    caught_only &= !items[i].left;
  SIM_CHECK(!caught_only, "terminate", "std::terminate although every exception had its receiver");
  sim::probe("terminated");
}
// what the body does at step k
void maybe_throw(Item& it, int k) {
  if (!it.throws || it.after != k)
    return;
  if (it.caught) {
    try {
      throw Err{it.id};
    } catch (const Err& e) {
      SIM_CHECK(e.id == it.id, "value", "exception caught in a coroutine");
    }
    return;
  }
  leaves(it);
  throw Err{it.id};
}
struct Ended {
  Item& it;
  ~Ended() {
    sim::quiet([&] {
      it.ended++;
    });
  }
};

dd::logical_thread a_thread(Item& it) {
  Ended e(it);
  for (int k = 0; k < it.nhops; ++k) {
    maybe_throw(it, k);
    WD_HOP(it.hops[k]);
  }
  maybe_throw(it, it.nhops);
}
dd::job a_job(Item& it) {
  Ended e(it);
  for (int k = 0; k < it.nhops; ++k) {
    maybe_throw(it, k);
    WD_HOP(it.hops[k]);
  }
  maybe_throw(it, it.nhops);
}
std::optional<dd::thread_pool> doomed;
dd::job a_doomed(Item& it) {
  Ended e(it);
  bool ok = bool(co_await dd::jump_on(*doomed));
  sim::probe(ok ? "doomed: ran" : "doomed: cancelled");
  maybe_throw(it, it.after);
}
// a coroutine of the user which lets exceptions out: whoever resumes it on a thread of the library is the last one who could notice
struct foreign {
  struct promise_type {
    static std::suspend_never initial_suspend() noexcept {
      return {};
    }
    static std::suspend_never final_suspend() noexcept {
      return {};
    }
    foreign get_return_object() noexcept {
      return {};
    }
    void return_void() noexcept {
    }
    void unhandled_exception() {
      throw;
    }
  };
};
foreign a_foreign(Item& it) {
  Ended e(it);
  for (int k = 0; k <= it.nhops; ++k) {
    switch ((it.exec + k) % 4) {
      case 0:
        (void)co_await dd::jump_on(*wd::W.pool);
        break;
      case 1:
        (void)co_await dd::jump_on(*wd::W.work);
        break;
      case 2:
        (void)co_await dd::jump_on(dd::new_thread_executor);
        break;
      default:
        if (k == 0 && it.yields)
          (void)co_await dd::jump_on(*doomed);
        else {
          auto s = wd::W.pool->get_strand(it.id);
          (void)co_await dd::jump_on(s);
        }
        break;
    }
    if (it.throws && !it.caught && it.after == k)
      sim::probe("an exception left a coroutine of the user");
    maybe_throw(it, k);
  }
}
dd::channel<int> leaf(Item& it) {
  if (it.yields)
    co_yield 1;
  WD_HOP(it.hops[0]);
  throw Err{it.id};  // this one can be received
}
dd::channel<int> second_leaf(Item& it) {
  if (it.nhops)
    WD_HOP(it.hops[0]);
  if (!it.caught)
    leaves(it);
  throw Err{it.id + 100};
  co_return;
}
bool second_in_leaf(const Item& it) {
  return it.hops[2] & 1;
}
dd::channel<int> trunk(Item& it) {
  if (it.yields)
    co_yield 0;
  co_yield dd::elements_of(leaf(it));
  if (it.nhops)
    WD_HOP(it.hops[1]);
  if (it.nhops == 2)
    co_yield 2;
  if (it.throws) {
    if (second_in_leaf(it)) {
      co_yield dd::elements_of(second_leaf(it));
      co_return;
    }
    if (!it.caught)
      leaves(it);
    throw Err{it.id + 100};
  }
}
// the channel has an exception nobody has taken when the next one arrives, unless it is taken (caught) in between
dd::job consume(Item& it) {
  Ended e(it);
  std::optional<dd::channel<int>> first(trunk(it));
  dd::channel<int> other;
  dd::channel<int>* c = &*first;
  if (it.yields) {
    int* x = co_await c->next();
    SIM_CHECK(x && *x == 0, "sequence", "first value");
    x = co_await c->next();
    SIM_CHECK(x && *x == 1, "sequence", "second value");
  }
  int* x = co_await c->next();
  SIM_CHECK(!x, "sequence", "a value instead of an exception");
  if (it.hops[2] & 2) {
    // the exception moves with the channel
    other = std::move(*first);
    c = &other;
    first.reset();
  }
  auto taken = [&](int id) {
    auto p = c->take_exception();
    SIM_CHECK(p != nullptr, "exception-lost", "exception of a channel");
    try {
      std::rethrow_exception(p);
    } catch (const Err& e) {
      SIM_CHECK(e.id == id, "value", "exception of a channel");
    }
  };
  if (it.caught || !it.throws)
    taken(it.id);
  if (it.nhops == 2) {
    x = co_await c->next();
    SIM_CHECK(x && *x == 2, "sequence", "value after an exception");
  }
  x = co_await c->next();
  SIM_CHECK(!it.left, "exception-lost", "two exceptions of a channel and its consumer goes on");
  SIM_CHECK(!x, "sequence", "end of a channel");
  if (it.throws) {
    taken(it.id + 100);
    if (second_in_leaf(it)) {
      SIM_CHECK(!c->empty(), "sequence", "end of a channel");
      x = co_await c->next();
    }
  }
  SIM_CHECK(!x && c->empty(), "sequence", "end of a channel");
  if (it.throws)
    SIM_CHECK(c->take_exception() == nullptr, "value", "an exception out of nothing");
  else
    SIM_CHECK(c->take_exception() == nullptr, "value", "an exception out of nothing");
}

void own(Item& it) {
  dd::logical_thread t = a_thread(it);
  switch (it.owner_does) {
    case O_JOIN:
      t.join();
      break;
    case O_STOP_JOIN:
      t.request_stop();
      t.join();
      break;
    case O_DETACH:
      t.detach();
      return;
    case O_ASSIGN:
      t = dd::logical_thread();
      break;
    default: {
      dd::logical_thread u(std::move(t));
      break;
    }
  }
  SIM_CHECK(!it.left, "exception-lost", "a logical_thread which an exception left was joined");
  SIM_CHECK(it.ended == 1, "sequence", "a logical_thread was joined before its end");
}
}  // namespace

SIM_SCENARIO(lost_exception, 1, "exceptions leave jobs, logical threads, callbacks, scheduled functions and channels which nobody can tell about it") {
  n_items = 1 + sim::draw(4);
  n_left = 0;
  bool with_doomed = false;
  for (int i = 0; i < n_items; ++i) {
    Item& it = items[i] = Item{};
    it.id = i + 1;
    it.kind = sim::draw(NL);
    it.nhops = sim::draw(3);
    for (int& h : it.hops)
      h = wd::draw_hop();
    it.after = sim::draw(it.nhops + 1);
    it.owner_does = sim::draw(NO);
    it.exec = sim::draw(wd::NH - 1) + 1;
    it.throws = sim::chance(1, 3);
    it.caught = sim::chance(1, 3);
    it.yields = sim::draw(2);
    with_doomed |= it.kind == L_DOOMED || it.kind == L_FOREIGN;
  }
  int nthr = 1 + sim::draw(2);
  sim::expect_terminate(&oracle);
  wd::open(1 + sim::draw(2));
  if (with_doomed)
    doomed.emplace((size_t)1 + sim::draw(2));
  {
    dd::event<void> ev;
    dd::event<int> evi;
    auto start = [&](Item& it) {
      switch (it.kind) {
        case L_THREAD:
          own(it);
          break;
        case L_JOB:
          a_job(it);
          break;
        case L_SCHED: {
          auto f = [&it] {
            Ended e(it);
            maybe_throw(it, it.after);
          };
          switch (it.exec) {
            case wd::H_POOL:
              dd::schedule_to(*wd::W.pool, f);
              break;
            case wd::H_STRAND: {
              auto s = wd::W.pool->get_strand(it.id);
              dd::schedule_to(s, f);
              break;
            }
            case wd::H_WORKER:
              dd::schedule_to(*wd::W.work, f);
              break;
            default: {
              wd::Exec x{it.exec};
              dd::schedule_to(x, f);
              break;
            }
          }
          break;
        }
        case L_CALLBACK:
          if (it.yields)
            ev.set_callback([&it] {
              Ended e(it);
              maybe_throw(it, it.after);
            });
          else
            evi.set_callback([&it](int v) {
              Ended e(it);
              SIM_CHECK(v == 5, "value", "input of a callback");
              maybe_throw(it, it.after);
            });
          break;
        case L_CHANNEL:
          consume(it);
          break;
        case L_DOOMED:
          a_doomed(it);
          break;
        case L_FOREIGN:
          a_foreign(it);
          break;
      }
    };
    std::thread other;
    auto part = [&](int t) {
      for (int i = 0; i < n_items; ++i)
        if (i % nthr == t)
          start(items[i]);
    };
    if (nthr == 2)
      other = std::thread([&] { part(1); });
    part(0);
    if (sim::draw(2)) {
      wd::Exec x{(int)sim::draw(wd::NH - 1) + 1};
      ev.notify_all(x);
      evi.notify_all(x, 5);
    }
    if (other.joinable())
      other.join();
    doomed.reset();
    sim::quiesce();
    wd::Exec x{wd::H_INLINE};
    ev.notify_all(x);
    evi.notify_all(x, 5);
    sim::quiesce();
    for (int i = 0; i < n_items; ++i) {
      SIM_CHECK(!items[i].left, "exception-lost", "the exception which left item %d (kind %d) is lost", i, items[i].kind);
      SIM_CHECK(items[i].ended == 1, "sequence", "item %d (kind %d) ended %d times", i, items[i].kind, items[i].ended);
    }
    sim::probe("nothing thrown");
  }
  wd::close();
}
