// event: subscriptions and notifications; when_all / when_any over events
#include "world.h"

namespace {
using dd::event;

// ------------------------------------------------------------------ values
struct Val {  // copyable, owns memory: shows sharing of one value between receivers
  std::vector<int> v;
  Val() = default;
  explicit Val(int x) : v{x, x + 1} {
  }
};
int payload(const Val& v) {
  return v.v.size() == 2 && v.v[1] == v.v[0] + 1 ? v.v[0] : -1;
}
int payload(int v) {
  return v;
}
int payload(dd::nullstruct) {
  return -2;
}

// ------------------------------------------------------------------ records
struct Sub {
  int ev = 0;
  void* handle = nullptr;     // coroutine subscriptions
  bool callback = false;
  uint64_t inv = 0, ret = ~0ull, woke = 0;
  int resumed = 0;
  int notif = -1;             // which notification took it
  bool attached = false;
};
struct Notif {
  int ev = 0;
  int failed = -1;            // it threw: the event whose subscribers it held for a while
  int exe = 0;
  uint64_t inv = 0, ret = ~0ull;
  int value = 0;
  int woken = 0;              // nodes handed to the executor
  int tid = -1;
  bool result = false;
};
struct St {
  Sub s[192];
  int ns = 0;
  Notif n[96];
  int nn = 0;
};
St S;
std::vector<Cell>* pub;  // pub[k] written by notifier k before notify_all

int sub(int ev, bool cb) {
  sim::Quiet z;
  SIM_CHECK(S.ns < 192, "harness", "subs");
  Sub& s = S.s[S.ns];
  s = Sub{};
  s.ev = ev;
  s.callback = cb;
  return S.ns++;
}
int notif(int ev, int exe, int value) {
  sim::Quiet z;
  SIM_CHECK(S.nn < 96, "harness", "notifs");
  Notif& n = S.n[S.nn];
  n = Notif{};
  n.ev = ev;
  n.exe = exe;
  n.value = value;
  n.tid = sim::self();
  n.inv = sim::now();
  sim::event("notify", ev, S.nn);
  return S.nn++;
}

// the executor given to notify_all: knows which notification it works for
struct Tag {
  int n;
  int kind;
  void attach(dd::task_node* node) {
    {
      sim::Quiet z;
      S.n[n].woken++;
      void* h = node->task.address();
      for (int i = 0; i < S.ns; ++i) {
        Sub& s = S.s[i];
        if (s.handle == h && s.inv && !s.resumed) {
          SIM_CHECK(!s.attached, "woken-twice", "subscription %d was given to executors twice", i);
          s.attached = true;
          s.notif = n;
        }
      }
    }
    sim::NoFaults nf;
    wd::Exec{kind}.attach(node);
  }
};

void woken(int i, int value, bool is_void) {
  sim::Quiet z;
  Sub& s = S.s[i];
  s.resumed++;
  s.woke = sim::now();
  s.handle = nullptr;
  sim::event("woken", i, value);
  SIM_CHECK(s.resumed == 1, "woken-twice", "subscription %d was woken %d times", i, s.resumed);
  if (!is_void) {
    int by = -1;
    for (int k = 0; k < S.nn; ++k)
      if (S.n[k].ev == s.ev && S.n[k].value == value)
        by = k;
    SIM_CHECK(by >= 0, "value", "subscription %d got value %d, which nobody notified", i, value);
    SIM_CHECK(s.notif < 0 || s.notif == by, "value", "subscription %d was woken by notification %d, but got the value of %d", i, s.notif,
              by);
    s.notif = by;
  }
  if (s.notif >= 0) {
    Notif& n = S.n[s.notif];
    SIM_CHECK(n.ev == s.ev, "value", "subscription %d was woken by another event", i);
    SIM_CHECK(s.inv < n.ret, "resubscribe", "subscription %d was woken by notification %d, which was over before", i, s.notif);
    SIM_CHECK(n.inv < s.woke, "value", "subscription %d was woken before its notification", i);
    if (n.exe == wd::H_POOL || n.exe == wd::H_STRAND)
      SIM_CHECK(wd::on_pool(), "wrong-thread", "subscription %d was not resumed by the executor given", i);
    if (n.exe == wd::H_WORKER)
      SIM_CHECK(wd::on_worker(), "wrong-thread", "subscription %d was not resumed by the executor given", i);
    if (n.exe == wd::H_INLINE)
      SIM_CHECK(sim::self() == n.tid, "wrong-thread", "subscription %d was not resumed by the notifying thread", i);
  }
}

template <typename A>
struct stamped {
  A inner;
  int i;
  bool await_ready() {
    return inner.await_ready();
  }
  auto await_suspend(std::coroutine_handle<> h) {
    int k = i;
    sim::quiet([&] {
      S.s[k].handle = h.address();
      S.s[k].inv = sim::now();
      sim::event("subscribe", k);
    });
    return call_then([&] { return inner.await_suspend(h); }, [&] { sim::quiet([&] { S.s[k].ret = sim::now(); }); });
  }
  decltype(auto) await_resume() {
    return inner.await_resume();
  }
};
template <typename A>
stamped(A&&, int) -> stamped<A>;

template <typename T>
dd::job subscriber(event<T>& e, int ev, int times, int tail) {
  std::unique_ptr<Cell> local(new Cell{77});
  int last = -1;
  for (int k = 0; k < times; ++k) {
    int i = sub(ev, false);
    local->v = i;
    auto&& in = co_await stamped{e.operator co_await(), i};
    woken(i, payload(in), std::is_void_v<T>);
    SIM_CHECK(local->v == i, "corrupt", "frame of subscriber");
    int n = sim::quiet([&] { return S.s[i].notif; });
    if (n >= 0) {
      SIM_CHECK((*pub)[n].v == scrambled(n), "visibility", "subscription %d does not see what was written before notification %d", i, n);
      SIM_CHECK(n != last, "resubscribe", "one notification woke the same coroutine twice");
      last = n;
    }
    pause(tail);
  }
}
template <typename T>
void callback(event<T>& e, int ev, bool faults) {
  int i = sub(ev, true);
  sim::quiet([&] { S.s[i].inv = sim::now(); });
  std::unique_ptr<Cell> cell(new Cell{i});
  std::optional<sim::AllocFaults> af;
  try {
  if (faults)
    af.emplace();
  auto run = [i, cell = std::move(cell)](auto... v) {
    if constexpr (sizeof...(v) == 0)
      woken(i, 0, true);
    else
      woken(i, payload(v...), false);
    SIM_CHECK(cell->v == i, "corrupt", "state of a callback");
  };
  const int form = i % 4;
  if (form < 2) {
    e.set_callback(std::move(run));
  } else {
    // a callable with a name: it is copied and may die at once
    struct Named {
      std::shared_ptr<decltype(run)> f;
      int i;
      Cell own;
      void operator()() const requires(std::is_void_v<T>) {
        (*f)();
        SIM_CHECK(own.v == i, "corrupt", "copy of a callback");
      }
      void operator()(std::conditional_t<std::is_void_v<T>, int, T> v) const requires(!std::is_void_v<T>) {
        (*f)(std::move(v));
        SIM_CHECK(own.v == i, "corrupt", "copy of a callback");
      }
    };
    auto named = std::make_unique<Named>(std::make_shared<decltype(run)>(std::move(run)), i, Cell{i});
    if (form == 2)
      e.set_callback(*named);
    else
      e.set_callback(std::as_const(*named));
    sim::probe("callback from an lvalue");
  }
  } catch (const std::bad_alloc&) {
    SIM_CHECK(faults, "failure", "set_callback threw although no allocation failed");
    sim::quiet([&] {
      SIM_CHECK(!S.s[i].resumed, "failure", "set_callback failed, but the callback was called");
      S.s[i].resumed = 1;
      S.s[i].ev = -1;
    });
    sim::probe("set_callback failed");
  }
  sim::quiet([&] { S.s[i].ret = sim::now(); });
}
template <typename T>
bool notify(event<T>& e, int ev, int exe, int how, bool faults = false) {
  int k = notif(ev, exe, 1000 + sim::quiet([] { return S.nn; }));
  (*pub)[k].v = scrambled(k);
  int value = sim::quiet([&] { return S.n[k].value; });
  bool r;
  Tag tag{k, exe};
  auto go = [&](auto&& x) {
    if constexpr (std::is_void_v<T>)
      return e.notify_all(x);
    else {
      T v(value);
      std::optional<sim::AllocFaults> af;
      if (faults)
        af.emplace();
      return e.notify_all(x, std::move(v));
    }
  };
  try {
  if (how == 0)
    r = go(tag);
  else if (how == 1) {
    dd::any_executor_ref ref(tag);
    r = go(ref);
  } else
    r = go(Tag{k, exe});
  } catch (const std::bad_alloc&) {
    SIM_CHECK(faults, "failure", "notify_all threw although no allocation failed");
    sim::quiet([&] {
      Notif& n = S.n[k];
      SIM_CHECK(!n.woken, "partial", "notify_all failed, but woke %d subscribers", n.woken);
      n.failed = n.ev;
      n.ev = -1;
      n.ret = sim::now();
    });
    sim::probe("copying the input failed");
    return false;
  }
  sim::quiet([&] {
    Notif& n = S.n[k];
    n.ret = sim::now();
    n.result = r;
    SIM_CHECK(r == (n.woken > 0), "result", "notify_all returned %d after waking %d subscribers", r, n.woken);
    if (n.woken > 1)
      sim::probe("several subscribers woken");
  });
  return r;
}
// a notification which fails in the end holds the subscribers in between
bool overlaps_failed(int k) {
  for (int f = 0; f < S.nn; ++f)
    if (S.n[f].failed == S.n[k].ev && S.n[f].inv < S.n[k].ret && S.n[k].inv < S.n[f].ret)
      return true;
  return false;
}
void check_all() {
  sim::Quiet z;
  for (int i = 0; i < S.ns; ++i) {
    Sub& s = S.s[i];
    SIM_CHECK(s.resumed == 1, "lost-subscription", "subscription %d was never woken", i);
    // a subscription made before a notification began is woken by it or by one that overlaps it or is earlier
    for (int k = 0; k < S.nn; ++k) {
      Notif& n = S.n[k];
      if (n.ev != s.ev || !(s.ret < n.inv) || s.notif < 0 || overlaps_failed(k))
        continue;
      SIM_CHECK(S.n[s.notif].inv < n.ret, "lost-subscription", "subscription %d existed before notification %d began, but was woken by the later %d",
                i, k, s.notif);
    }
  }
}
struct Op {
  int kind, ev, arg, exe, pauses, how;
  bool faults = false;
};
Op draw_op(int nev) {
  Op o;
  o.kind = sim::draw(5);
  o.ev = sim::draw(nev);
  o.arg = 1 + sim::draw(3);
  static const int exes[] = {wd::H_INLINE, wd::H_POOL, wd::H_WORKER, wd::H_NEW, wd::H_STRAND};
  o.exe = exes[sim::draw(5)];
  o.pauses = sim::draw(3);
  o.how = sim::draw(3);
  o.faults = sim::chance(1, 3);
  return o;
}
}  // namespace

SIM_SCENARIO(event_mixed, 1, "event: coroutines, callbacks and resubscriptions race with notifications on several executors") {
  S.ns = S.nn = 0;
  int nthr = 1 + sim::draw(3);
  std::vector<std::vector<Op>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + often(5, 14);
    for (int i = 0; i < n; ++i)
      p.push_back(draw_op(3));
  }
  int nw = 1 + sim::draw(2);
  std::vector<Cell> cells(96);
  pub = &cells;
  wd::open(nw);
  {
    event<int> e0;
    event<void> e1;
    event<Val> e2;
    auto perform = [&](const Op& o) {
      pause(o.pauses);
      switch (o.kind) {
        case 0:
        case 1:
          o.ev == 0   ? (void)subscriber(e0, 0, o.arg, o.pauses)
          : o.ev == 1 ? (void)subscriber(e1, 1, o.arg, o.pauses)
                      : (void)subscriber(e2, 2, o.arg, o.pauses);
          break;
        case 2:
          o.ev == 0 ? callback(e0, 0, o.faults) : o.ev == 1 ? callback(e1, 1, o.faults) : callback(e2, 2, o.faults);
          break;
        default:
          o.ev == 0 ? notify(e0, 0, o.exe, o.how, o.faults) : o.ev == 1 ? notify(e1, 1, o.exe, o.how, o.faults) : notify(e2, 2, o.exe, o.how, o.faults);
          break;
      }
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < nthr; ++i)
      ts.emplace_back([&, i] {
        for (const Op& o : progs[i])
          perform(o);
      });
    for (const Op& o : progs[0])
      perform(o);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    // wake everybody who still waits; a resubscription needs a further notification
    for (int i = 0; i < 40; ++i) {
      bool a = notify(e0, 0, wd::H_INLINE, 0);
      bool b = notify(e1, 1, wd::H_INLINE, 0);
      bool c = notify(e2, 2, wd::H_INLINE, 0);
      if (!a && !b && !c)
        break;
      SIM_CHECK(i < 39, "resubscribe", "subscribers never end");
    }
    sim::quiesce();
    check_all();
  }
  wd::close();
}

// ------------------------------------------------------------------ when_all / when_any
namespace {
struct Await {
  bool all = false;
  uint64_t inv = 0, ret = ~0ull, woke = 0;
  int resumed = 0;
  int index = -1;
  int value[3] = {-9, -9, -9};
  bool faults = false, failed = false;
};
Await aw[64];
int naw;

// notification of event ev with that value
int by_value(int ev, int value) {
  for (int k = 0; k < S.nn; ++k)
    if (S.n[k].ev == ev && S.n[k].value == value)
      return k;
  return -1;
}
template <typename A>
struct stamped2 {
  A inner;
  int i;
  bool await_ready() {
    return inner.await_ready();
  }
  auto await_suspend(std::coroutine_handle<> h) {
    int k = i;
    sim::quiet([&] {
      aw[k].inv = sim::now();
      sim::event("await", k);
    });
    std::optional<sim::AllocFaults> af;
    if (sim::quiet([&] { return aw[k].faults; }))
      af.emplace();
    return call_then([&] { return inner.await_suspend(h); }, [&] { sim::quiet([&] { aw[k].ret = sim::now(); }); });
  }
  decltype(auto) await_resume() {
    return inner.await_resume();
  }
};
template <typename A>
stamped2(A&&, int) -> stamped2<A>;

void resumed(int i) {
  sim::Quiet z;
  Await& a = aw[i];
  a.resumed++;
  a.woke = sim::now();
  sim::event("resumed", i);
  SIM_CHECK(a.resumed == 1, "woken-twice", "awaiter %d was resumed %d times", i, a.resumed);
}
// an allocation failed during the registration
void failed(int i) {
  resumed(i);
  sim::Quiet z;
  SIM_CHECK(aw[i].faults, "failure", "co_await threw although no allocation failed");
  aw[i].failed = true;
  sim::probe("registration failed");
}
void check_value(int i, int ev, int value) {
  sim::Quiet z;
  int k = by_value(ev, value);
  SIM_CHECK(k >= 0, "value", "awaiter %d got value %d of event %d, which nobody notified", i, value, ev);
  SIM_CHECK(S.n[k].inv < aw[i].woke, "value", "awaiter %d got a value before its notification", i);
  SIM_CHECK(aw[i].inv < S.n[k].ret, "value", "awaiter %d got the value of a notification which was over before it subscribed", i);
}
int new_await(bool all, bool faults) {
  sim::Quiet z;
  aw[naw] = Await{};
  aw[naw].all = all;
  aw[naw].faults = faults;
  return naw++;
}
bool some_notif(int ev, uint64_t before) {
  for (int k = 0; k < S.nn; ++k)
    if (S.n[k].ev == ev && S.n[k].inv < before)
      return true;
  return false;
}
dd::job wait_all(event<int>& e0, event<void>& e1, event<Val>& e2, int shape, bool faults) {
  int i = new_await(true, faults);
  std::unique_ptr<Cell> local(new Cell{i});
  try {
  if (shape == 0) {
    auto [a, b, c] = co_await stamped2{dd::when_all(e0, e1, e2), i};
    resumed(i);
    (void)b;
    check_value(i, 0, a);
    check_value(i, 2, payload(c));
    sim::quiet([&] { aw[i].value[0] = a, aw[i].value[1] = -2, aw[i].value[2] = payload(c); });
  } else if (shape == 1) {
    auto [a, c] = co_await stamped2{dd::when_all(e0, e2), i};
    resumed(i);
    check_value(i, 0, a);
    check_value(i, 2, payload(c));
    sim::quiet([&] { aw[i].value[0] = a, aw[i].value[2] = payload(c); });
  } else if (shape == 2) {
    auto [a, b] = co_await stamped2{dd::when_all(e2, e1), i};
    resumed(i);
    check_value(i, 2, payload(a));
    sim::quiet([&] { aw[i].value[1] = -2, aw[i].value[2] = payload(a); });
  } else {
    auto [a] = co_await stamped2{dd::when_all(e0), i};
    resumed(i);
    check_value(i, 0, a);
    sim::quiet([&] { aw[i].value[0] = a; });
  }
  } catch (const std::bad_alloc&) {
    failed(i);
    SIM_CHECK(local->v == i, "corrupt", "frame of an awaiter");
    co_return;
  }
  SIM_CHECK(local->v == i, "corrupt", "frame of an awaiter");
  sim::quiet([&] {
    for (int ev = 0; ev < 3; ++ev)
      if (aw[i].value[ev] != -9)
        SIM_CHECK(some_notif(ev, aw[i].woke), "early", "when_all %d resumed although event %d was never notified", i, ev);
    sim::probe("when_all resumed");
  });
}
dd::job wait_any(event<int>& e0, event<void>& e1, event<Val>& e2, int shape, bool faults) {
  int i = new_await(false, faults);
  std::unique_ptr<Cell> local(new Cell{i});
  auto got = [&](int ev, int value) {
    sim::quiet([&] { aw[i].index = ev, aw[i].value[ev] = value; });
    if (ev != 1)
      check_value(i, ev, value);
    else
      sim::quiet([&] { SIM_CHECK(some_notif(ev, aw[i].woke), "early", "when_any %d: event %d was never notified", i, ev); });
  };
  try {
  if (shape & 1) {
    auto v = co_await stamped2{dd::when_any(e0, e1, e2), i};
    resumed(i);
    if (v.index() == 0)
      got(0, std::get<0>(v));
    else if (v.index() == 1)
      got(1, -2);
    else
      got(2, payload(std::get<2>(v)));
  } else {
    auto v = co_await stamped2{dd::when_any(e2, e0), i};
    resumed(i);
    if (v.index() == 0)
      got(2, payload(std::get<0>(v)));
    else
      got(0, std::get<1>(v));
  }
  } catch (const std::bad_alloc&) {
    failed(i);
    SIM_CHECK(local->v == i, "corrupt", "frame of an awaiter");
    co_return;
  }
  SIM_CHECK(local->v == i, "corrupt", "frame of an awaiter");
  sim::probe("when_any resumed");
}
}  // namespace

SIM_SCENARIO(event_when, 1, "when_all / when_any over events: notifications from several threads race with registration and each other") {
  S.ns = S.nn = 0;
  naw = 0;
  int nthr = 1 + sim::draw(3);
  std::vector<std::vector<Op>> progs(nthr);
  int naws = 0;
  for (auto& p : progs) {
    int n = 1 + often(5, 14);
    for (int i = 0; i < n; ++i) {
      p.push_back(draw_op(3));
      naws += p.back().kind < 2;
    }
  }
  if (!naws)
    progs[0].insert(progs[0].begin(), Op{(int)sim::draw(2), 0, 1, 0, 0, (int)sim::draw(4)});
  bool wfaults = sim::draw(2);
  bool inline_only = sim::draw(2);
  if (inline_only)
    for (auto& p : progs)
      for (Op& o : p)
        o.exe = wd::H_INLINE;
  int nw = 1 + sim::draw(2);
  std::vector<Cell> cells(96);
  pub = &cells;
  wd::open(nw);
  {
    event<int> e0;
    event<void> e1;
    event<Val> e2;
    auto perform = [&](const Op& o) {
      pause(o.pauses);
      switch (o.kind) {
        case 0:
          wait_all(e0, e1, e2, o.how + (o.arg == 3), o.faults && wfaults);
          break;
        case 1:
          wait_any(e0, e1, e2, o.arg, o.faults && wfaults);
          break;
        default:
          o.ev == 0 ? notify(e0, 0, o.exe, o.how, o.faults) : o.ev == 1 ? notify(e1, 1, o.exe, o.how, o.faults) : notify(e2, 2, o.exe, o.how, o.faults);
          break;
      }
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < nthr; ++i)
      ts.emplace_back([&, i] {
        for (const Op& o : progs[i])
          perform(o);
      });
    for (const Op& o : progs[0])
      perform(o);
    for (auto& t : ts)
      t.join();
    sim::quiesce();
    for (int i = 0; i < 4; ++i) {
      notify(e0, 0, wd::H_INLINE, 0);
      notify(e1, 1, wd::H_INLINE, 0);
      notify(e2, 2, wd::H_INLINE, 0);
    }
    sim::quiesce();
    sim::quiet([&] {
      for (int i = 0; i < naw; ++i) {
        Await& a = aw[i];
        SIM_CHECK(a.resumed == 1, "lost-awaiter", "%s %d was never resumed although every event was notified", a.all ? "when_all" : "when_any", i);
        if (a.failed)
          continue;
        if (a.all) {
          // each event delivers the input of the first notification after its registration
          for (int ev = 0; ev < 3; ++ev) {
            if (a.value[ev] < 0)
              continue;
            int w = by_value(ev, a.value[ev]);
            for (int k = 0; k < S.nn; ++k)
              if (S.n[k].ev == ev && a.ret < S.n[k].inv && !overlaps_failed(k))
                SIM_CHECK(S.n[w].inv < S.n[k].ret, "value", "when_all %d: event %d delivered notification %d although %d came first", i, ev, w, k);
          }
          continue;
        }
        // nobody may win over a notification that was completely over before
        if (a.value[a.index] >= 0) {
          int w = by_value(a.index, a.value[a.index]);
          for (int k = 0; k < S.nn; ++k) {
            Notif& n = S.n[k];
            if (k == w || !(a.ret < n.inv) || !(n.ret < S.n[w].inv) || overlaps_failed(k))
              continue;
            // {e2, e0} does not list e1
            if (n.ev == 1 || n.ev < 0)
              continue;
            // another notification of the same event may have taken the subscription and not have delivered it yet
            bool other = false;
            for (int j = 0; j < S.nn; ++j)
              other |= j != k && S.n[j].ev == n.ev && S.n[j].inv < n.ret && S.n[j].ret > a.inv;
            if (other)
              continue;
            SIM_CHECK(n.exe != wd::H_INLINE, "first", "when_any %d was resumed by notification %d although notification %d of event %d came first",
                      i, w, k, n.ev);
          }
        }
      }
    });
  }
  wd::close();
}
