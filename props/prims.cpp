// the primitives of this_coro: suspend_and, handle, destroy, destroy_and_transfer_control_to, transfer_control_to, build_awaiter
#include "world.h"

namespace {
enum { S_VOID, S_GO_ON, S_TRUE, S_SELF, S_NOOP, S_TO_OTHER, S_TRANSFER_NULL, S_TRANSFER, S_HANDLE, S_BUILD, S_CUSTOM, NS };
enum { E_RETURN, E_DESTROY, E_DESTROY_NULL, E_DESTROY_TO, NE };
constexpr int MAXC = 6, MAXSTEPS = 5, MAXP = MAXC * (MAXSTEPS + 1);
struct Step {
  int kind, how, form, partner;
};
struct Co {
  int kind, n, end, end_partner, resource;
  Step s[MAXSTEPS];
  int arg = -1, local = -1;
  int at = 0;          // steps begun
  bool over = false;   // reached its end
  void* self = nullptr;
  int tid = -1;        // thread of the last suspension
};
Co co[MAXC];
struct Partner {
  int runs = 0, expected = 0;
  int from = -1;  // coroutine which transfers to it
  int how = -1;   // resumes that coroutine this way, -1: does not
  bool after_death = false;
  int tid = -1;   // control leaves on this thread
  std::coroutine_handle<> h;
};
Partner pk[MAXP];
int npk, nco;

void post(int how, std::coroutine_handle<> h) {
  switch (how) {
    case 0:
      h.resume();
      break;
    case 1:
      if (wd::may_new_thread()) {
        std::thread([h] { h.resume(); }).detach();
        break;
      }
      [[fallthrough]];
    case 2:
      wd::W.pool->schedule([h] { h.resume(); });
      break;
    default:
      dd::schedule_to(*wd::W.work, [h] { h.resume(); });
      break;
  }
}
void leaves(int i, std::coroutine_handle<> h) {
  sim::quiet([&] {
    co[i].tid = sim::self();
    SIM_CHECK(h.address() == co[i].self, "handle", "coroutine %d is given the handle of another one", i);
    SIM_CHECK(!h.done(), "handle", "coroutine %d has ended", i);
  });
}
dd::job parked(int p) {
  co_await dd::this_coro::suspend_and([p](std::coroutine_handle<> h) { sim::quiet([&] { pk[p].h = h; }); });
  int how = -1, from = -1;
  void* back = nullptr;
  sim::quiet([&] {
    Partner& x = pk[p];
    SIM_CHECK(++x.runs == 1, "resumed-twice", "the coroutine control was transferred to was resumed %d times", x.runs);
    Co& c = co[x.from];
    SIM_CHECK(x.tid == sim::self(), "wrong-thread", "control was transferred to another thread");
    if (x.after_death) {
      SIM_CHECK(c.over, "early", "control was transferred before coroutine %d was at its end", x.from);
      SIM_CHECK(g_track.dead[c.arg] == 1 && g_track.dead[c.local] == 1, "early", "control was transferred before coroutine %d was destroyed", x.from);
    }
    how = x.how;
    from = x.from;
    back = c.self;
  });
  if (how >= 0)
    post(how, std::coroutine_handle<>::from_address(back));
}

// what suspend_and does with the result of the function
std::coroutine_handle<> target(int p) {
  return sim::quiet([&] {
    pk[p].tid = sim::self();
    return pk[p].h;
  });
}
struct Give {
  int i, how;
  void operator()(std::coroutine_handle<> h) const {
    leaves(i, h);
    post(how, h);
  }
};
struct GiveTrue {
  int i, how;
  bool operator()(std::coroutine_handle<> h) const {
    leaves(i, h);
    post(how, h);
    return true;
  }
};
struct GiveTo {
  int i, how;
  std::coroutine_handle<> next;
  std::coroutine_handle<> operator()(std::coroutine_handle<> h) const {
    leaves(i, h);
    auto n = next;
    post(how, h);
    return n;
  }
};
struct Member {
  int i, how;
  auto operator co_await() && {
    return dd::this_coro::suspend_and(Give{i, how});
  }
};
struct Global {
  int i, how;
};
auto operator co_await(Global&& g) {
  return dd::this_coro::suspend_and(GiveTrue{g.i, g.how});
}
void back_in(int i, Step& s, bool same_thread, const Token& arg, const Token& local, const Cell& cell) {
  sim::quiet([&] {
    SIM_CHECK(!same_thread || co[i].tid == sim::self(), "wrong-thread", "coroutine %d goes on on another thread", i);
    SIM_CHECK(arg.id == co[i].arg && local.id == co[i].local, "corrupt", "coroutine %d", i);
  });
  SIM_CHECK(cell.v == scrambled(i), "corrupt", "a local of coroutine %d", i);
}

template <typename R, typename... Res>
R walk(int i, Token arg, Res...) {
  Token local(g_track.fresh());
  std::unique_ptr<Cell> cell(new Cell{scrambled(i)});
  sim::quiet([&] { co[i].local = local.id; });
  co_await dd::this_coro::suspend_and([i](std::coroutine_handle<> h) {
    sim::quiet([&] { co[i].self = h.address(); });
    return false;
  });
  for (int k = 0; k < co[i].n; ++k) {
    Step& s = co[i].s[k];
    sim::quiet([&] {
      SIM_CHECK(co[i].at == k && !co[i].over, "resumed-twice", "coroutine %d begins step %d after %d", i, k, co[i].at);
      co[i].at++;
      co[i].tid = sim::self();
    });
    bool same = false;
    switch (s.kind) {
      case S_VOID:
        if (s.form & 1) {
          Give g{i, s.how};
          co_await dd::this_coro::suspend_and(g);
        } else
          co_await dd::this_coro::suspend_and(Give{i, s.how});
        same = s.how == 0;
        break;
      case S_GO_ON:
        co_await dd::this_coro::suspend_and([i](auto h) {
          leaves(i, h);
          return false;
        });
        same = true;
        break;
      case S_TRUE:
        co_await dd::this_coro::suspend_and(GiveTrue{i, s.how});
        same = s.how == 0;
        break;
      case S_SELF:
        co_await dd::this_coro::suspend_and([i](std::coroutine_handle<> h) {
          leaves(i, h);
          return h;
        });
        same = true;
        break;
      case S_NOOP:
        co_await dd::this_coro::suspend_and(GiveTo{i, s.how, std::noop_coroutine()});
        same = s.how == 0;
        break;
      case S_TO_OTHER:
        co_await dd::this_coro::suspend_and(GiveTo{i, s.how, target(s.partner)});
        break;
      case S_TRANSFER_NULL:
        co_await dd::transfer_control_to{nullptr};
        same = true;
        break;
      case S_TRANSFER:
        co_await dd::transfer_control_to{target(s.partner)};
        same = s.how == 0;
        break;
      case S_HANDLE: {
        auto h = co_await dd::this_coro::handle;
        SIM_CHECK(h.address() == co[i].self, "handle", "this_coro::handle of coroutine %d is another one", i);
        same = true;
        break;
      }
      case S_BUILD:
        if (s.form & 1)
          co_await dd::build_awaiter(dd::this_coro::suspend_and(Give{i, s.how}));
        else
          co_await dd::build_awaiter(Member{i, s.how});
        same = s.how == 0;
        break;
      case S_CUSTOM:
        if (s.form & 1)
          co_await Global{i, s.how};
        else
          co_await dd::build_awaiter(Global{i, s.how});
        same = s.how == 0;
        break;
    }
    back_in(i, s, same, arg, local, *cell);
  }
  sim::quiet([&] {
    SIM_CHECK(!co[i].over && co[i].at == co[i].n, "resumed-twice", "coroutine %d ends twice", i);
    co[i].over = true;
    co[i].tid = sim::self();
  });
  if constexpr (std::is_same_v<R, dd::job> || std::is_same_v<R, dd::task<void>>) {
    switch (co[i].end) {
      case E_DESTROY:
        co_await dd::this_coro::destroy;
        SIM_CHECK(false, "resumed", "a coroutine goes on after it was destroyed");
        break;
      case E_DESTROY_NULL:
        co_await dd::this_coro::destroy_and_transfer_control_to(std::coroutine_handle<>{});
        SIM_CHECK(false, "resumed", "a coroutine goes on after it was destroyed");
        break;
      case E_DESTROY_TO:
        co_await dd::this_coro::destroy_and_transfer_control_to(target(co[i].end_partner));
        SIM_CHECK(false, "resumed", "a coroutine goes on after it was destroyed");
        break;
    }
  }
}
template <typename... Res>
void launch(int i, Res... r) {
  Token arg(g_track.fresh());
  sim::quiet([&] { co[i].arg = arg.id; });
  switch (co[i].kind) {
    case 0:
      walk<dd::job>(i, std::move(arg), r...);
      break;
    case 1:
      walk<dd::task<void>>(i, std::move(arg), r...).start_and_detach();
      break;
    case 2:
      walk<dd::async_task<void>>(i, std::move(arg), r...).detach();
      break;
    default:
      walk<dd::logical_thread>(i, std::move(arg), r...).detach();
      break;
  }
}
int partner(int from, int how, bool after_death) {
  pk[npk] = Partner{};
  pk[npk].from = from;
  pk[npk].how = how;
  pk[npk].after_death = after_death;
  return npk++;
}
}  // namespace

SIM_SCENARIO(primitives, 1, "suspend_and, handle, destroy, transfer of control and build_awaiter, coroutines resumed by other threads meanwhile") {
  npk = 0;
  nco = 1 + sim::draw(MAXC);
  int nthr = 1 + sim::draw(2);
  for (int i = 0; i < nco; ++i) {
    Co& c = co[i] = Co{};
    c.kind = sim::draw(4);
    c.n = sim::draw(MAXSTEPS);
    c.resource = sim::draw(3);
    for (int k = 0; k < c.n; ++k) {
      Step& s = c.s[k];
      s = Step{(int)sim::draw(NS), (int)sim::draw(4), (int)sim::draw(2), -1};
      if (s.kind == S_TO_OTHER)
        s.partner = partner(i, -1, false);
      if (s.kind == S_TRANSFER)
        s.partner = partner(i, s.how, false);
    }
    c.end = sim::draw(NE);
    if (c.kind > 1)
      c.end = E_RETURN;
    if (c.end == E_DESTROY_TO)
      c.end_partner = partner(i, -1, true);
  }
  wd::open(1 + sim::draw(2));
  {
    CheckedResource res("of the coroutines");
    for (int p = 0; p < npk; ++p)
      parked(p);
    auto part = [&](int t) {
      for (int i = t; i < nco; i += nthr)
        switch (co[i].resource) {
          case 0:
            launch(i);
            break;
          case 1:
            launch(i, dd::with_resource{static_cast<std::pmr::memory_resource&>(res)});
            break;
          default:
            launch(i, dd::with_resource<dd::new_delete_resource>{});
            break;
        }
    };
    std::thread other;
    if (nthr == 2)
      other = std::thread([&] { part(1); });
    part(0);
    if (other.joinable())
      other.join();
    sim::quiesce();
    sim::Quiet z;
    for (int i = 0; i < nco; ++i) {
      SIM_CHECK(co[i].over, "lost", "coroutine %d stopped in step %d of %d", i, co[i].at, co[i].n);
      SIM_CHECK(g_track.dead[co[i].arg] == 1 && g_track.dead[co[i].local] == 1, "object-leak", "coroutine %d was not destroyed", i);
      if (co[i].end != E_RETURN)
        sim::probe("destroyed itself");
    }
    for (int p = 0; p < npk; ++p)
      SIM_CHECK(pk[p].runs == 1, "lost", "a coroutine control was transferred to was resumed %d times", pk[p].runs);
    SIM_CHECK(res.outstanding() == 0, "leak", "frames were not returned to their resource");
  }
  check_tokens();
  wd::close();
}
