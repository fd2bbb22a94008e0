// jump_on, schedule_to, attach_list, any_executor_ref over every executor; affinity of an operation to its queue.
#include "world.h"

namespace {
using wd::W;

// ------------------------------------------------------------------ an executor of the user: keeps nodes, its thread runs them
struct Relay {
  std::mutex m;
  std::condition_variable cv;
  dd::task_node* top = nullptr;
  bool stop = false;
  std::thread th;
  int attached = 0, run = 0;
  int mode = 0;
  std::thread::id id;
  void attach(dd::task_node* n) {
    SIM_CHECK(n && n->task, "bad-node", "an executor was given a node without a coroutine");
    SIM_CHECK(n->status == dd::schedule_errc::ok, "bad-node", "an executor was given a node with status %d", (int)n->status);
    std::lock_guard l(m);
    ++attached;
    n->next = top;
    top = n;
    cv.notify_one();
  }
  void work() {
    for (;;) {
      dd::task_node* l;
      {
        std::unique_lock g(m);
        while (!top && !stop)
          cv.wait(g);
        l = std::exchange(top, nullptr);
        if (!l)
          return;
      }
      if (mode & 1)
        l = dd::reverse_list(l);
      if (mode & 2)
        dd::attach_list(dd::this_thread_executor, l);
      else
        while (l) {
          dd::task_node* n = l->next;
          l->task.resume();
          l = n;
        }
    }
  }
  void start(int mode_) {
    mode = mode_;
    th = std::thread([this] { work(); });
    sim::quiet([&] { id = th.get_id(); });
  }
  void close() {
    {
      std::lock_guard l(m);
      stop = true;
      cv.notify_one();
    }
    th.join();
  }
};

struct Env {
  Relay relay;
  dd::new_thread_executor_t new_thread;
  dd::this_thread_executor_t inline_;
  std::optional<dd::strand> pool_strand[3];
  std::optional<dd::strand> work_strand;
  int queue_worker[8];   // which worker serves the queue
  int max_tid = 0;
};
std::optional<Env> E;

int pool_worker() {
  sim::Quiet z;
  auto id = std::this_thread::get_id();
  for (int i = 0; i < W.nw; ++i)
    if (W.ids[i] == id)
      return i;
  return -1;
}
bool on_relay() {
  sim::Quiet z;
  return std::this_thread::get_id() == E->relay.id;
}
int queue_index(const dd::task_queue& q) {
  return int(&q - W.pool->queues_range().data());
}
void saw_thread() {
  sim::Quiet z;
  if (sim::self() > E->max_tid)
    E->max_tid = sim::self();
}

void open(int most = 3) {
  int nw = 1 + sim::draw(most);
  wd::open(nw);
  E.emplace();
  E->relay.start(sim::draw(4));
  for (int i = 0; i < 3; ++i)
    E->pool_strand[i].emplace(W.pool->get_strand(i * 3 + 1));
  E->work_strand.emplace(*W.work);
  // who serves which queue
  for (int i = 0; i < nw; ++i)
    dd::schedule_to(W.pool->queues_range()[i], [i] {
      int w = pool_worker();
      SIM_CHECK(w >= 0, "wrong-thread", "a queue of the pool is served by a foreign thread");
      sim::quiet([&] { E->queue_worker[i] = w; });
    });
  sim::quiesce();
}
void close() {
  sim::quiesce();
  E->relay.close();
  wd::close();
  E.reset();
}

enum {
  J_POOL, J_POOL_ANY, J_POOL_ANY_COPY, J_STRAND, J_STRAND_TMP, J_STRAND_ANY, J_QUEUE, J_QUEUE_ANY,
  J_WORKER, J_WORKER_ANY, J_WORKER_STRAND, J_NEW, J_NEW_ANY, J_INLINE, J_INLINE_ANY, J_RELAY, J_RELAY_ANY, NJ
};
struct Hop {
  int kind, q, pauses;
};
constexpr int MAXC = 8, MAXH = 6;
struct Co {
  int nh = 0;
  Hop h[MAXH];
  int kind = 0;
  int started = 0, resumed = 0, asked = 0, done = 0;
  int tid = -1;   // of the last segment
  bool inside = false;   // somebody executes it
};
Co co[MAXC];
int nco;

// after a hop of kind k
void landed(int c, const Hop& h, bool ok, int from) {
  SIM_CHECK(ok, "spurious-cancel", "coroutine %d: hop %d was cancelled although nobody stopped anything", c, h.kind);
  bool good = true;
  switch (h.kind) {
    case J_POOL:
    case J_POOL_ANY:
    case J_POOL_ANY_COPY:
      good = pool_worker() >= 0;
      break;
    case J_STRAND:
    case J_STRAND_ANY:
    case J_STRAND_TMP: {
      int q = h.kind == J_STRAND_TMP ? queue_index(W.pool->get_strand(h.q).get_queue()) : queue_index(E->pool_strand[h.q]->get_queue());
      good = pool_worker() == E->queue_worker[q];
      break;
    }
    case J_QUEUE:
    case J_QUEUE_ANY:
      good = pool_worker() == E->queue_worker[h.q % W.nw];
      break;
    case J_WORKER:
    case J_WORKER_ANY:
    case J_WORKER_STRAND:
      good = wd::on_worker();
      break;
    case J_NEW:
    case J_NEW_ANY:
      good = pool_worker() < 0 && !wd::on_worker() && !on_relay() && sim::self() != 0 && sim::self() != from;
      break;
    case J_INLINE:
    case J_INLINE_ANY:
      good = sim::self() == from;
      break;
    case J_RELAY:
    case J_RELAY_ANY:
      good = on_relay();
      break;
  }
  SIM_CHECK(good, "wrong-thread", "coroutine %d: after a hop of kind %d it runs on T%d (before: T%d)", c, h.kind, sim::self(), from);
}
// records the hand-over; the coroutine must not be inside of another thread when it comes back
template <typename A>
struct hop_awaiter {
  A inner;
  int c;
  bool await_ready() {
    return inner.await_ready();
  }
  template <typename P>
  auto await_suspend(std::coroutine_handle<P> h) {
    sim::quiet([&] {
      co[c].asked++;
      co[c].inside = false;
    });
    return inner.await_suspend(h);
  }
  decltype(auto) await_resume() {
    sim::quiet([&] {
      Co& x = co[c];
      SIM_CHECK(++x.resumed == x.asked, "resumed-twice", "coroutine %d: %d resumptions for %d hops", c, x.resumed, x.asked);
      SIM_CHECK(!x.inside, "overlap", "coroutine %d runs on two threads", c);
      x.inside = true;
    });
    return inner.await_resume();
  }
};
template <typename A>
hop_awaiter(A&&, int) -> hop_awaiter<A>;

template <typename R>
R walk(int c, Token arg) {
  sim::quiet([&] {
    SIM_CHECK(++co[c].started == 1, "started-twice", "coroutine %d", c);
    co[c].inside = true;
  });
  std::unique_ptr<Cell> cell(new Cell{0});
  for (int i = 0; i < co[c].nh; ++i) {
    Hop h = co[c].h[i];
    pause(h.pauses);
    cell->v = scrambled(i);
    int from = sim::self();
    bool ok = true;
    if ((h.kind == J_NEW || h.kind == J_NEW_ANY) && !wd::may_new_thread())
      h.kind = J_INLINE;
#define HOP(...) ok = bool(co_await hop_awaiter{dd::jump_on(__VA_ARGS__), c})
    switch (h.kind) {
      case J_POOL:
        HOP(*W.pool);
        break;
      case J_POOL_ANY: {
        dd::any_executor_ref r(*W.pool);
        HOP(r);
        break;
      }
      case J_POOL_ANY_COPY: {
        // a copy names the executor itself, not the reference it was copied from
        std::optional<dd::any_executor_ref> r(*W.pool);
        dd::any_executor_ref copy(*r);
        r.emplace(*W.work);
        r.reset();
        HOP(copy);
        break;
      }
      case J_STRAND:
        HOP(*E->pool_strand[h.q]);
        break;
      case J_STRAND_TMP:
        HOP(W.pool->get_strand(h.q));
        break;
      case J_STRAND_ANY: {
        dd::any_executor_ref r(*E->pool_strand[h.q]);
        HOP(r);
        break;
      }
      case J_QUEUE:
        HOP(W.pool->queues_range()[h.q % W.nw]);
        break;
      case J_QUEUE_ANY: {
        dd::any_executor_ref r(W.pool->queues_range()[h.q % W.nw]);
        HOP(r);
        break;
      }
      case J_WORKER:
        HOP(*W.work);
        break;
      case J_WORKER_ANY: {
        dd::any_executor_ref r(*W.work);
        HOP(r);
        break;
      }
      case J_WORKER_STRAND: {
        const dd::strand s = *E->work_strand;
        HOP(s);
        break;
      }
      case J_NEW:
        HOP(dd::new_thread_executor);
        break;
      case J_NEW_ANY: {
        dd::any_executor_ref r(E->new_thread);
        HOP(r);
        break;
      }
      case J_INLINE:
        HOP(dd::this_thread_executor);
        break;
      case J_INLINE_ANY: {
        dd::any_executor_ref r(E->inline_);
        HOP(r);
        break;
      }
      case J_RELAY:
        HOP(E->relay);
        break;
      case J_RELAY_ANY: {
        dd::any_executor_ref r(E->relay);
        HOP(r);
        break;
      }
    }
#undef HOP
    landed(c, h, ok, from);
    SIM_CHECK(cell->v == scrambled(i), "corrupt", "coroutine %d: a local was lost on the way", c);
  }
  sim::quiet([&] { co[c].done++; });
  if constexpr (std::is_same_v<R, dd::job>)
    if (co[c].nh & 1) {
      co_await dd::build_awaiter(dd::this_coro::destroy);
      SIM_CHECK(false, "resumed", "a coroutine goes on after co_await this_coro::destroy");
    }
  co_return;
}
void launch(int c) {
  Token t(g_track.fresh());
  switch (co[c].kind) {
    case 0:
      walk<dd::job>(c, std::move(t));
      break;
    case 1:
      walk<dd::async_task<void>>(c, std::move(t)).detach();
      break;
    case 2:
      walk<dd::logical_thread>(c, std::move(t)).detach();
      break;
    case 3:
      walk<dd::task<void>>(c, std::move(t)).start_and_detach();
      break;
    default:
      walk<dd::task<void>>(c, std::move(t)).get();
      SIM_CHECK(sim::quiet([&] { return co[c].done == 1; }), "value", "get() of a task returned before its end");
      break;
  }
}
int draw_kind() {
  return sim::draw(NJ);
}

// ------------------------------------------------------------------ callables and lists
struct CallRec {
  int run = 0, tid = -1;
};
CallRec calls[32];
int ncalls;
struct Callable {
  int id, kind, q, from;
  Token tok;
  std::unique_ptr<Cell> cell;
  void operator()() {
    sim::quiet([&] {
      SIM_CHECK(++calls[id].run == 1, "resumed-twice", "callable %d was invoked %d times", id, calls[id].run);
      calls[id].tid = sim::self();
    });
    SIM_CHECK(cell->v == scrambled(id), "corrupt", "callable %d", id);
    landed(-1 - id, Hop{kind, q, 0}, true, from);
  }
};
void schedule(int kind, int q, bool resource, CheckedResource& mr, bool fail) {
  if ((kind == J_NEW || kind == J_NEW_ANY) && !wd::may_new_thread())
    kind = J_INLINE;
  int id = sim::quiet([] { return ncalls++; });
  int tok = g_track.fresh();
  Callable f{id, kind, q, sim::self(), Token(tok), std::unique_ptr<Cell>(new Cell{scrambled(id)})};
  bool started = false;
  // e lives until the callable is done
  auto to = [&](auto& e) {
    if (resource) {
      dd::with_pmr_resource r{mr};
      dd::schedule_to(e, std::move(f), r);
    } else {
      if (fail)
        sim::fail_next_alloc();
      dd::schedule_to(e, std::move(f));
      sim::fail_next_alloc(false);
    }
  };
  auto keep = [&](auto e) -> auto& {
    auto* p = new auto(e);
    sim::ignore_leaks();
    return *p;
  };
  (void)keep;
  try {
    switch (kind) {
      case J_POOL:
        if (resource)
          to(*W.pool);
        else if (fail) {
          sim::fail_next_alloc();
          W.pool->schedule(std::move(f));
          sim::fail_next_alloc(false);
        } else
          W.pool->schedule(std::move(f));
        break;
      case J_STRAND:
      case J_STRAND_ANY:
      case J_STRAND_TMP:
        f.kind = J_STRAND;
        to(*E->pool_strand[q]);
        break;
      case J_QUEUE:
      case J_QUEUE_ANY:
        to(W.pool->queues_range()[q % W.nw]);
        break;
      case J_WORKER:
        to(*W.work);
        break;
      case J_WORKER_STRAND:
        to(*E->work_strand);
        break;
      case J_NEW:
      case J_NEW_ANY:
        to(dd::new_thread_executor);
        break;
      case J_INLINE:
      case J_INLINE_ANY:
        to(dd::this_thread_executor);
        SIM_CHECK(sim::quiet([&] { return fail || calls[id].run == 1; }), "lost-task", "schedule_to(this_thread_executor) returned before the callable ran");
        break;
      case J_RELAY:
      case J_RELAY_ANY:
        to(E->relay);
        break;
      default:
        f.kind = J_POOL;
        to(*W.pool);
        break;
    }
  } catch (const std::bad_alloc&) {
    SIM_CHECK(fail, "allocation", "bad_alloc from nowhere");
    sim::quiet([&] {
      SIM_CHECK(calls[id].run == 0, "resumed", "callable %d ran although schedule_to failed", id);
      calls[id].run = 1;
    });
    sim::probe("schedule_to failed to allocate");
  }
}

struct Node : dd::task_node {
  int id;
  std::unique_ptr<Cell> cell;
};
struct NodeRec {
  int run = 0, tid = -1, worker = -1;
  uint64_t at = 0;
  bool never = false;
};
NodeRec nodes[160];
int nnodes;
std::coroutine_handle<> never_h[160];
dd::task_node* never_n[160];
dd::job node_job(Node* n, bool never) {
  co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) { n->task = h; });
  int id = n->id;
  sim::quiet([&] {
    SIM_CHECK(!nodes[id].never, "resumed", "noop_executor resumed a task");
    SIM_CHECK(++nodes[id].run == 1, "resumed-twice", "node %d", id);
    nodes[id].tid = sim::self();
    nodes[id].at = sim::now();
    nodes[id].worker = pool_worker();
  });
  SIM_CHECK(n->status == dd::schedule_errc::ok, "spurious-cancel", "node %d", id);
  SIM_CHECK(n->cell->v == scrambled(id), "corrupt", "node %d", id);
  delete n;
}
void attach_nodes(int kind, int q, int len) {
  Node* first = nullptr;
  Node* last = nullptr;
  int base = sim::quiet([&] { return std::exchange(nnodes, nnodes + len); });
  for (int i = 0; i < len; ++i) {
    Node* n = new Node;
    n->id = base + i;
    n->cell.reset(new Cell{scrambled(base + i)});
    sim::quiet([&] { nodes[base + i] = NodeRec{}; });
    if (kind == 9)
      sim::quiet([&] {
        nodes[base + i].never = true;
      });
    node_job(n, false);
    if (kind == 9)
      sim::quiet([&] {
        never_h[base + i] = n->task;
        never_n[base + i] = n;
      });
    (last ? last->next : (dd::task_node*&)first) = n;
    last = n;
  }
  if (kind == 8) {
    // reversed: the order of an inline executor shows it
    dd::task_node* t = dd::reverse_list(first);
    int k = 0;
    for (dd::task_node* p = t; p; p = p->next)
      SIM_CHECK(static_cast<Node*>(p)->id == base + len - 1 - k++, "list", "reverse_list");
    SIM_CHECK(k == len, "list", "reverse_list returned %d of %d nodes", k, len);
    first = static_cast<Node*>(dd::reverse_list(t));
    kind = 7;
  }
  switch (kind) {
    case 0:
    case 1:
      dd::attach_list(*W.pool, first);
      break;
    case 2: {
      dd::any_executor_ref r(*W.pool);
      dd::attach_list(r, first);
      break;
    }
    case 3:
      dd::attach_list(*W.work, first);
      break;
    case 4:
      dd::attach_list(W.pool->queues_range()[q % W.nw], first);
      break;
    case 5:
      dd::attach_list(E->relay, first);
      break;
    case 6: {
      dd::any_executor_ref r(E->relay);
      dd::attach_list(r, first);
      break;
    }
    case 7:
      dd::attach_list(dd::this_thread_executor, first);
      sim::quiet([&] {
        for (int i = 0; i < len; ++i) {
          SIM_CHECK(nodes[base + i].run == 1 && nodes[base + i].tid == sim::self(), "wrong-thread", "attach_list(this_thread_executor)");
          SIM_CHECK(!i || nodes[base + i - 1].at < nodes[base + i].at, "fifo", "attach_list(this_thread_executor): order");
        }
      });
      break;
    case 9:
      dd::attach_list(dd::noop_executor, first);
      break;
  }
}
// for lists given to the pool
struct ListRec {
  int base, len, kind;
};
ListRec lists[8];
int nlists;

dd::job never_job(int id, int how) {
  co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) {
    never_h[id] = h;
    return false;
  });
  Token t(g_track.fresh());
  auto st = co_await dd::jump_on(dd::noop_executor);
  SIM_CHECK(false, "resumed", "noop_executor resumed a coroutine");
}

struct Act {
  int what, kind, q, n, pauses;
  bool res, fail;
};
void act(const Act& a, int& c, CheckedResource& mr) {
  pause(a.pauses);
  switch (a.what) {
    case 0:
    case 1:
      launch(c++);
      break;
    case 2:
      schedule(a.kind, a.q, a.res, mr, a.fail);
      break;
    case 3:
      sim::quiet([&] { lists[nlists++] = ListRec{nnodes, a.n, a.kind % 10}; });
      attach_nodes(a.kind % 10, a.q, a.n);
      break;
  }
}
}  // namespace

SIM_SCENARIO(hops_mixed, 3, "coroutines hop between executors of every kind; callables and lists are handed over at the same time") {
  nco = ncalls = nnodes = nlists = 0;
  for (auto& c : calls)
    c = CallRec{};
  for (auto& n : nodes)
    n = NodeRec{};
  std::memset(never_h, 0, sizeof never_h);
  // the program
  int nt = 1 + sim::draw(3);
  Act acts[3][3];
  int na[3];
  int first_co[3];
  int total_nodes = 0;
  for (int t = 0; t < nt; ++t) {
    na[t] = 1 + sim::draw(t ? 2 : 3);
    first_co[t] = nco;
    for (int i = 0; i < na[t]; ++i) {
      Act& a = acts[t][i];
      a.what = sim::draw(4);
      a.kind = draw_kind();
      a.q = sim::draw(3);
      a.n = 1 + often(4, 16);
      a.pauses = sim::draw(3);
      a.res = sim::chance(1, 3);
      a.fail = sim::chance(1, 6);
      if (a.what < 2) {
        Co& c = co[nco++];
        c = Co{};
        c.kind = sim::draw(5);
        c.nh = 1 + sim::draw(MAXH);
        for (int k = 0; k < c.nh; ++k)
          c.h[k] = Hop{draw_kind(), (int)sim::draw(3), (int)sim::draw(2)};
      }
      if (a.what == 3) {
        total_nodes += a.n;
      }
    }
  }
  bool with_never = sim::draw(2);
  open();
  {
    CheckedResource mr("schedule_to");
    std::thread ts[3];
    for (int t = 1; t < nt; ++t)
      ts[t] = std::thread([&, t] {
        int c = first_co[t];
        for (int i = 0; i < na[t]; ++i)
          act(acts[t][i], c, mr);
      });
    if (with_never)
      never_job(159, 0);
    int c = first_co[0];
    for (int i = 0; i < na[0]; ++i)
      act(acts[0][i], c, mr);
    for (int t = 1; t < nt; ++t)
      ts[t].join();
    sim::quiesce();
    for (int i = 0; i < nco; ++i)
      sim::quiet([&] {
        SIM_CHECK(co[i].done == 1, "lost-task", "coroutine %d stopped after %d of %d hops", i, co[i].resumed, co[i].nh);
      });
    sim::quiet([&] {
      for (int i = 0; i < ncalls; ++i)
        SIM_CHECK(calls[i].run == 1, "lost-task", "callable %d was not invoked", i);
      for (int i = 0; i < nnodes; ++i)
        SIM_CHECK(nodes[i].run == !nodes[i].never, "lost-task", "node %d was resumed %d times", i, nodes[i].run);
      for (int i = 0; i < nlists; ++i) {
        ListRec& l = lists[i];
        for (int k = 0; k < l.len; ++k) {
          NodeRec& n = nodes[l.base + k];
          if (l.kind <= 1 && k) {
            // consecutive queues: the worker of the next queue
            int q0 = -1, q1 = -1;
            for (int q = 0; q < W.nw; ++q) {
              if (E->queue_worker[q] == nodes[l.base + k - 1].worker)
                q0 = q;
              if (E->queue_worker[q] == n.worker)
                q1 = q;
            }
            SIM_CHECK(q0 >= 0 && q1 == (q0 + 1) % W.nw, "spread", "list element %d is in queue %d, the one before in queue %d of %d", k, q1, q0, W.nw);
          }
          if (l.kind == 3 || l.kind == 4)
            SIM_CHECK(!k || (nodes[l.base + k - 1].at < n.at && nodes[l.base + k - 1].tid == n.tid), "fifo", "attach_list to one queue: order");
        }
        if (l.kind <= 1 && l.len > 1 && W.nw > 1)
          sim::probe("list spread over queues");
      }
    });
    for (int i = 0; i < 160; ++i)
      if (never_h[i]) {
        never_h[i].destroy();
        if (i < nnodes && nodes[i].never)
          delete static_cast<Node*>(never_n[i]);
      }
  }
  close();
  check_tokens();
}

// ------------------------------------------------------------------ executors which refuse
namespace {
// an executor of the user: resumes every node somewhere, with a status of its own
struct Refuser {
  int to = 0;  // world executor which really runs the node
  dd::schedule_errc what = dd::schedule_errc::ok;
  void attach(dd::task_node* n) {
    SIM_CHECK(n && n->task, "bad-node", "an executor was given a node without a coroutine");
    n->status = what;
    wd::Exec{to}.attach(n);
  }
};
Refuser refusers[6];
struct RCall {
  int run = 0, dead = 0;
  dd::schedule_errc want = dd::schedule_errc::ok;
};
RCall rcalls[24];
int nrcalls;
struct RFate {
  int id;
  RFate(int i) : id(i) {
  }
  RFate(RFate&& o) noexcept : id(std::exchange(o.id, -1)) {
  }
  ~RFate() {
    if (id >= 0)
      sim::quiet([&] { rcalls[id].dead++; });
  }
};
struct RCallable {
  RFate fate;
  std::unique_ptr<Cell> cell;
  void operator()() {
    SIM_CHECK(cell->v == scrambled(fate.id), "corrupt", "callable %d", fate.id);
    sim::quiet([&] { rcalls[fate.id].run++; });
  }
};
int rdone[8];
struct RHop {
  int how, ex, pauses;
};
RHop rhops[8][4];
int nrhops[8];
template <typename R>
R rwalk(int c, Token) {
  std::unique_ptr<Cell> cell(new Cell{0});
  for (int i = 0; i < nrhops[c]; ++i) {
    const RHop& h = rhops[c][i];
    cell->v = scrambled(i);
    Refuser& e = refusers[h.ex];
    pause(h.pauses);
    dd::schedule_status st;
    if (h.how == 0)
      st = co_await dd::jump_on(e);
    else if (h.how == 1) {
      dd::any_executor_ref r(e);
      st = co_await dd::jump_on(r);
    } else {
      auto aw = dd::jump_on(e);
      st = co_await aw;
    }
    SIM_CHECK(st.what == e.what && bool(st) == (e.what == dd::schedule_errc::ok), "status",
              "the executor said %d, the coroutine was told %d", (int)e.what, (int)st.what);
    SIM_CHECK(cell->v == scrambled(i), "corrupt", "coroutine %d: a local was lost on the way", c);
  }
  sim::quiet([&] { rdone[c]++; });
}
}  // namespace
SIM_SCENARIO(hops_refused, 1, "executors of the user which resume with a status other than ok") {
  static const dd::schedule_errc errs[] = {dd::schedule_errc::ok, dd::schedule_errc::cancelled, dd::schedule_errc::executor_overload,
                                           dd::schedule_errc::timed_out};
  int ne = 1 + sim::draw(5);
  for (int i = 0; i < ne; ++i)
    refusers[i] = Refuser{wd::draw_hop(), errs[sim::draw(4)]};
  for (auto& c : rcalls)
    c = RCall{};
  nrcalls = 0;
  int n = 1 + sim::draw(8);
  int kind[8], arg[8];
  for (int i = 0; i < n; ++i) {
    rdone[i] = 0;
    kind[i] = sim::draw(6);
    arg[i] = sim::draw(ne);
    nrhops[i] = 1 + sim::draw(4);
    for (int k = 0; k < nrhops[i]; ++k)
      rhops[i][k] = RHop{(int)sim::draw(3), (int)sim::draw(ne), (int)sim::draw(2)};
  }
  bool two = sim::draw(2);
  open();
  auto one = [&](int i) {
    Token t(g_track.fresh());
    switch (kind[i]) {
      case 0:
        rwalk<dd::job>(i, std::move(t));
        break;
      case 1:
        rwalk<dd::logical_thread>(i, std::move(t)).detach();
        break;
      case 2:
        rwalk<dd::task<void>>(i, std::move(t)).start_and_detach();
        break;
      case 3:
        rwalk<dd::async_task<void>>(i, std::move(t)).get();
        SIM_CHECK(sim::quiet([&] { return rdone[i] == 1; }), "value", "get() returned before the end");
        break;
      default: {
        int id = sim::quiet([&] { return nrcalls++; });
        Refuser& e = refusers[arg[i]];
        sim::quiet([&] { rcalls[id].want = e.what; });
        RCallable f{RFate(id), std::unique_ptr<Cell>(new Cell{scrambled(id)})};
        if (kind[i] == 4)
          dd::schedule_to(e, std::move(f));
        else
          dd::schedule_to(e, std::move(f), dd::with_pmr_resource{*std::pmr::new_delete_resource()});
        sim::quiet([&] { rdone[i]++; });
        break;
      }
    }
  };
  std::thread th;
  if (two)
    th = std::thread([&] {
      for (int i = 1; i < n; i += 2)
        one(i);
    });
  for (int i = 0; i < n; ++i)
    if (!two || !(i & 1))
      one(i);
  if (two)
    th.join();
  sim::quiesce();
  sim::quiet([&] {
    for (int i = 0; i < n; ++i)
      SIM_CHECK(rdone[i] == 1, "lost-task", "coroutine %d did not end", i);
    for (int i = 0; i < nrcalls; ++i) {
      RCall& c = rcalls[i];
      SIM_CHECK(c.run == (c.want == dd::schedule_errc::ok), "status", "a callable ran %d times although its executor said %d", c.run, (int)c.want);
      SIM_CHECK(c.dead == 1, "object-leak", "the state of a callable was destroyed %d times", c.dead);
      if (!c.run)
        sim::probe("callable refused");
    }
  });
  close();
  check_tokens();
}

// ------------------------------------------------------------------ coroutines which start others from inside of an executor
namespace {
struct Tree {
  int nsteps = 0;
  int step[4];
  int child[4];  // -1: none
  int kind = 0;
  bool inline_only = true;
  int started = 0, done = 0;
};
Tree tree[40];
int ntree;
int called;
struct TreeCall {
  int me;
  void operator()();
};
void grow(int me);
template <typename R>
R tree_walk(int me, Token) {
  sim::quiet([&] { SIM_CHECK(++tree[me].started == 1, "started-twice", "coroutine %d", me); });
  std::unique_ptr<Cell> cell(new Cell{scrambled(me)});
  for (int i = 0; i < tree[me].nsteps; ++i) {
    int from = sim::self();
    bool inl = true;
    switch (tree[me].step[i]) {
      case 0:
      case 1:
        SIM_CHECK(bool(co_await dd::jump_on(dd::this_thread_executor)), "spurious-cancel", "inline hop");
        break;
      case 2: {
        dd::any_executor_ref r(E->inline_);
        SIM_CHECK(bool(co_await dd::jump_on(r)), "spurious-cancel", "inline hop");
        break;
      }
      case 3: {
        int before = sim::quiet([&] { return called; });
        int* ran = new int(0);
        dd::schedule_to(dd::this_thread_executor, [ran] {
          ++*ran;
          sim::quiet([&] { ++called; });
        });
        SIM_CHECK(*ran == 1, "late", "schedule_to(this_thread_executor) returned, the callable ran %d times", *ran);
        delete ran;
        (void)before;
        break;
      }
      case 4: {
        // a list: all of it, in its order, before attach_list returns
        int base = sim::quiet([&] { return nnodes; });
        bool room = sim::quiet([&] { return nnodes + 3 < 140; });
        if (!room)
          break;
        attach_nodes(7, 0, 3);
        sim::quiet([&] {
          for (int k = 0; k < 3; ++k)
            SIM_CHECK(nodes[base + k].run == 1 && nodes[base + k].tid == from, "late", "attach_list(this_thread_executor) returned before node %d ran", k);
        });
        break;
      }
      case 5:
        (void)co_await dd::jump_on(E->relay);
        inl = false;
        break;
      case 6:
        (void)co_await dd::jump_on(*W.pool);
        inl = false;
        break;
      default:
        pause(1);
        break;
    }
    if (inl)
      SIM_CHECK(sim::self() == from, "wrong-thread", "coroutine %d: an inline hop moved it from T%d to T%d", me, from, sim::self());
    if (tree[me].child[i] >= 0)
      grow(tree[me].child[i]);
  }
  SIM_CHECK(cell->v == scrambled(me), "corrupt", "coroutine %d: a local was lost on the way", me);
  sim::quiet([&] { tree[me].done++; });
}
void TreeCall::operator()() {
  grow(me);
}
void grow(int me) {
  Token t(g_track.fresh());
  Tree& x = tree[me];
  switch (x.kind) {
    case 0:
      tree_walk<dd::job>(me, std::move(t));
      break;
    case 1:
      tree_walk<dd::logical_thread>(me, std::move(t)).detach();
      break;
    case 2:
      tree_walk<dd::async_task<void>>(me, std::move(t)).detach();
      break;
    case 3:
      tree_walk<dd::task<void>>(me, std::move(t)).start_and_detach();
      break;
    default:
      if (x.inline_only)
        tree_walk<dd::task<void>>(me, std::move(t)).get();
      else
        tree_walk<dd::job>(me, std::move(t));
      break;
  }
  if (x.inline_only) {
    SIM_CHECK(sim::quiet([&] { return x.done == 1; }), "late", "coroutine %d only used this_thread_executor, but did not run to its end inline", me);
    sim::probe("nested inline run");
  }
}
int plant(int depth, bool only) {
  if (ntree >= 40)
    return -1;
  int me = ntree++;
  tree[me] = Tree{};
  tree[me].kind = sim::draw(5);
  tree[me].nsteps = 1 + sim::draw(3);
  for (int i = 0; i < tree[me].nsteps; ++i) {
    tree[me].step[i] = sim::draw(only ? 5 : 8);
    if (tree[me].step[i] == 5 || tree[me].step[i] == 6)
      tree[me].inline_only = false;
    int c = -1;
    if (depth && sim::draw(2))
      c = plant(depth - 1, only || sim::draw(2));
    tree[me].child[i] = c;
  }
  return me;
}
}  // namespace
SIM_SCENARIO(hops_nested, 1, "coroutines started from inside of an executor: this_thread_executor resumes before attach returns") {
  ntree = nnodes = nlists = called = 0;
  for (int i = 0; i < 160; ++i) {
    nodes[i] = NodeRec{};
    never_h[i] = {};
  }
  int n = 1 + sim::draw(3);
  int roots[3];
  int where[3];
  for (int i = 0; i < n; ++i) {
    roots[i] = plant(3, sim::draw(2));
    where[i] = sim::draw(4);
  }
  open();
  for (int i = 0; i < n; ++i) {
    if (roots[i] < 0)
      continue;
    switch (where[i]) {
      case 0:
        grow(roots[i]);
        break;
      case 1:
        dd::schedule_to(dd::this_thread_executor, TreeCall{roots[i]});
        break;
      case 2:
        dd::schedule_to(*W.pool, TreeCall{roots[i]});
        break;
      default:
        dd::schedule_to(E->relay, TreeCall{roots[i]});
        break;
    }
  }
  sim::quiesce();
  sim::quiet([&] {
    for (int i = 0; i < ntree; ++i)
      SIM_CHECK(tree[i].done == 1, "lost-task", "coroutine %d of the tree did not end", i);
    for (int i = 0; i < nnodes; ++i)
      SIM_CHECK(nodes[i].run == 1, "lost-task", "node %d was resumed %d times", i, nodes[i].run);
  });
  close();
  check_tokens();
}

// ------------------------------------------------------------------ affinity
namespace {
struct Aff {
  int worker = -1;
  uint64_t hash = 0;
  int hops = 0;
  int done = 0;
};
Aff aff[12];
int draws[12][6];
int nsteps[12];

// the coroutine handed to the pool always meets the same worker
void same_worker(int i) {
  int w = pool_worker();
  SIM_CHECK(w >= 0, "wrong-thread", "operation %d is not on a worker of the pool", i);
  sim::quiet([&] {
    SIM_CHECK(aff[i].worker < 0 || aff[i].worker == w, "affinity", "operation %d ran on worker %d and on worker %d of the pool", i, aff[i].worker, w);
    aff[i].worker = w;
    aff[i].hops++;
  });
}
struct RawAttach : dd::task_node {
  bool await_ready() {
    return false;
  }
  void await_suspend(std::coroutine_handle<> h) {
    task = h;
    W.pool->attach(this);
  }
  void await_resume() {
    SIM_CHECK(status == dd::schedule_errc::ok, "spurious-cancel", "attach");
  }
};
#define AFF_STEP(i, k)                                              \
  switch (draws[i][k]) {                                            \
    case 0:                                                         \
    case 1:                                                         \
      (void)co_await dd::jump_on(*W.pool);                          \
      same_worker(i);                                               \
      break;                                                        \
    case 2: {                                                       \
      dd::any_executor_ref r_(*W.pool);                             \
      (void)co_await dd::jump_on(r_);                               \
      same_worker(i);                                               \
      break;                                                        \
    }                                                               \
    case 3: {                                                       \
      RawAttach a_;                                                 \
      co_await a_;                                                  \
      same_worker(i);                                               \
      break;                                                        \
    }                                                               \
    case 4:                                                         \
      (void)co_await dd::jump_on(*W.work);                          \
      break;                                                        \
    case 5: {                                                       \
      (void)co_await dd::jump_on(W.pool->queues_range()[k % W.nw]); \
      break;                                                        \
    }                                                               \
    default:                                                        \
      pause(2);                                                     \
      break;                                                        \
  }

void same_hash(int i, uint64_t h) {
  sim::quiet([&] {
    SIM_CHECK(!aff[i].hash || aff[i].hash == h, "hash", "the hash of operation %d changed", i);
    aff[i].hash = h;
  });
}
template <typename R>
R aff_walk(int i) {
  std::coroutine_handle<> self = co_await dd::this_coro::handle;
  for (int k = 0; k < nsteps[i]; ++k) {
    AFF_STEP(i, k);
    uint64_t h = co_await dd::this_coro::operation_hash;
    same_hash(i, h);
    SIM_CHECK(h == dd::calculate_operation_hash(self), "hash", "this_coro::operation_hash of a coroutine is not the hash of its handle");
  }
  sim::quiet([&] { aff[i].done++; });
}
// a task belongs to the operation of whoever waits for it
dd::task<uint64_t> aff_child(int i, int from) {
  for (int k = from; k < nsteps[i]; ++k) {
    AFF_STEP(i + 6, k);
    same_hash(i, co_await dd::this_coro::operation_hash);
  }
  co_return 1;
}
dd::task_r<uint64_t, dd::pmr::polymorphic_resource> aff_child_r(int i, int from) {
  for (int k = from; k < nsteps[i]; ++k) {
    AFF_STEP(i + 6, k);
    same_hash(i, co_await dd::this_coro::operation_hash);
  }
  co_return 1;
}
dd::job aff_parent(int i) {
  std::coroutine_handle<> self = co_await dd::this_coro::handle;
  for (int k = 0; k < 2; ++k) {
    AFF_STEP(i, k);
    same_hash(i, dd::calculate_operation_hash(self));
    sim::quiet([&] { aff[i + 6].worker = -1; });
    if (k & 1)
      co_await aff_child(i, k);
    else
      co_await aff_child_r(i, k);
    same_hash(i, co_await dd::this_coro::operation_hash);
  }
  sim::quiet([&] { aff[i].done++; });
}
// leafs of a channel belong to the operation of the root
dd::channel<int> aff_leaf(int i, int depth) {
  for (int k = 0; k < nsteps[i]; ++k) {
    (void)co_await dd::jump_on(*W.pool);
    same_hash(i + 6, co_await dd::this_coro::operation_hash);
    co_yield int(k);
  }
  if (depth)
    co_yield dd::elements_of(aff_leaf(i, depth - 1));
}
dd::channel<int> aff_root(int i) {
  same_hash(i + 6, co_await dd::this_coro::operation_hash);
  co_yield dd::elements_of(aff_leaf(i, 1));
  same_hash(i + 6, co_await dd::this_coro::operation_hash);
  (void)co_await dd::jump_on(*W.work);
  co_yield 5;
  same_hash(i + 6, co_await dd::this_coro::operation_hash);
}
dd::job aff_consumer(int i) {
  int n = 0;
  {
    dd::channel<int> c = aff_root(i);
    co_foreach(int x, c) {
      (void)x;
      ++n;
    }
  }
  SIM_CHECK(n == 2 * nsteps[i] + 1, "value", "channel yielded %d values", n);
  sim::quiet([&] { aff[i].done++; });
}
struct AffCall {
  int i;
  void operator()() const {
    same_worker(i);
  }
};
void aff_callable(int i) {
  // the same callable object is one operation, so is an explicit hash
  AffCall f{i};
  uint64_t h = dd::calculate_operation_hash(f);
  same_hash(i, h);
  for (int k = 0; k < nsteps[i]; ++k) {
    int d = draws[i][k];
    if (d < 3)
      W.pool->schedule(f);
    else if (d < 5)
      W.pool->schedule(AffCall{i}, h);
    else {
      dd::strand s = W.pool->get_strand(h);
      SIM_CHECK(&s.get_queue() == &W.pool->select_queue(h), "affinity", "get_strand(hash) names another queue than select_queue(hash)");
      dd::schedule_to(s, AffCall{i});
      sim::quiesce();
    }
    same_hash(i, dd::calculate_operation_hash(f));
  }
  sim::quiet([&] { aff[i].done++; });
}
}  // namespace
SIM_SCENARIO(hops_affinity, 1, "one operation always meets the same worker of a pool, and its hash does not change") {
  for (auto& a : aff)
    a = Aff{};
  int n = 1 + sim::draw(4);
  int kind[6];
  for (int i = 0; i < n; ++i) {
    kind[i] = sim::draw(7);
    nsteps[i] = nsteps[i + 6] = 2 + sim::draw(4);
    for (int k = 0; k < 6; ++k) {
      draws[i][k] = sim::draw(7);
      draws[i + 6][k] = sim::draw(7);
    }
  }
  open();
  for (int i = 0; i < n; ++i)
    switch (kind[i]) {
      case 0:
        aff_walk<dd::job>(i);
        break;
      case 1:
        aff_walk<dd::async_task<void>>(i).detach();
        break;
      case 2:
        aff_walk<dd::logical_thread>(i).detach();
        break;
      case 3:
        aff_walk<dd::job_r<dd::pmr::polymorphic_resource>>(i);
        break;
      case 4:
        aff_parent(i);
        break;
      case 5:
        aff_consumer(i);
        break;
      default:
        aff_callable(i);
        break;
    }
  sim::quiesce();
  sim::quiet([&] {
    for (int i = 0; i < n; ++i)
      SIM_CHECK(aff[i].done == 1, "lost-task", "operation %d did not end", i);
  });
  close();
}

// ------------------------------------------------------------------ any hash, any number of workers
namespace {
struct HashOp {
  uint64_t h;
  int worker = -1;
  int done = 0, expected = 0;
};
std::vector<HashOp> hops_h;
void hash_saw(int i) {
  int w = pool_worker();
  SIM_CHECK(w >= 0, "wrong-thread", "the operation with hash %llx is not on a worker of the pool", (unsigned long long)hops_h[i].h);
  sim::quiet([&] {
    HashOp& o = hops_h[i];
    SIM_CHECK(o.worker < 0 || o.worker == w, "affinity", "what has the hash %llx ran on worker %d and on worker %d of %d", (unsigned long long)o.h,
              o.worker, w, W.nw);
    o.worker = w;
    o.done++;
  });
}
struct HashCall {
  int i;
  void operator()() const {
    hash_saw(i);
  }
};
template <size_t N>
struct BigHashCall {
  int i;
  unsigned char pad[N] = {};
  explicit BigHashCall(int i) : i(i) {
    for (size_t k = 0; k < N; k += 37)
      pad[k] = (unsigned char)(i + k);
  }
  void operator()() const {
    for (size_t k = 0; k < N; k += 37)
      SIM_CHECK(pad[k] == (unsigned char)(i + k), "corrupt", "a scheduled callable was changed");
    hash_saw(i);
  }
};
template <typename S>
dd::job hash_jump(int i, S s) {
  (void)co_await dd::jump_on(s);
  hash_saw(i);
}
void hash_give(int i, int how) {
  uint64_t h = hops_h[i].h;
  sim::quiet([&] { hops_h[i].expected++; });
  switch (how) {
    case 0:
      W.pool->schedule(HashCall{i}, h);
      break;
    case 1: {
      dd::strand s = W.pool->get_strand(h);
      dd::schedule_to(s, HashCall{i});
      break;
    }
    case 2:
      hash_jump(i, W.pool->get_strand(h));
      break;
    case 3:
      dd::schedule_to(W.pool->select_queue(h), HashCall{i});
      break;
    case 6:
      W.pool->schedule(BigHashCall<100>(i), h);
      break;
    case 7: {
      BigHashCall<1500> f(i);
      W.pool->schedule(f, h);
      break;
    }
    case 4: {
      dd::strand s = W.pool->get_strand(h), t = s;
      dd::any_executor_ref r(t);
      dd::schedule_to(r, HashCall{i});
      break;
    }
    case 5: {
      dd::strand s = W.pool->get_strand(h);
      hash_jump(i, dd::any_executor_ref(s));
      break;
    }
    default: {
      // a strand of a strand's queue is that strand
      dd::strand s = W.pool->get_strand(h), t(s.get_queue());
      hash_jump(i, t);
      break;
    }
  }
}
uint64_t draw64() {
  uint64_t h = 0;
  switch (sim::draw(4)) {
    case 0:
      return sim::draw(64);
    case 1:
      return ~uint64_t(0) - sim::draw(64);
    case 2:
      return (uint64_t(1) << sim::draw(64)) + sim::draw(3) - 1;
    default:
      for (int k = 0; k < 4; ++k)
        h = h << 16 | sim::draw(65536);
      return h;
  }
}
}  // namespace
SIM_SCENARIO(hops_hashes, 1, "whatever is handed to a pool of 1..8 workers under one hash meets one worker, by every way of naming it") {
  int nw = 1 + sim::draw(8), n = 1 + sim::draw(4), nt = 1 + sim::draw(3);
  hops_h.assign(n, {});
  for (auto& o : hops_h)
    o.h = draw64();
  int how[3][4][3];
  for (auto& a : how)
    for (auto& b : a)
      for (int& c : b)
        c = sim::draw(11);
  wd::open(nw, false);
  auto give = [&](int t) {
    for (int k = 0; k < 3; ++k)
      for (int i = 0; i < n; ++i)
        if (how[t][i][k] < 9)
          hash_give(i, how[t][i][k]);
  };
  std::thread ts[3];
  for (int t = 1; t < nt; ++t)
    ts[t] = std::thread([&, t] { give(t); });
  give(0);
  for (int t = 1; t < nt; ++t)
    ts[t].join();
  sim::quiesce();
  for (int i = 0; i < n; ++i) {
    SIM_CHECK(&W.pool->get_strand(hops_h[i].h).get_queue() == &W.pool->select_queue(hops_h[i].h), "affinity",
              "get_strand(%llx) names another queue than select_queue", (unsigned long long)hops_h[i].h);
    int q = queue_index(W.pool->select_queue(hops_h[i].h));
    SIM_CHECK(q >= 0 && q < nw, "affinity", "select_queue names no queue of the pool");
    SIM_CHECK(hops_h[i].done == hops_h[i].expected, "lost-task", "%d of %d tasks with one hash ran", hops_h[i].done, hops_h[i].expected);
  }
  wd::close();
  hops_h.clear();
  hops_h.shrink_to_fit();
}

// ------------------------------------------------------------------ independent operations use all workers
namespace {
struct Spread {
  std::mutex m;
  std::condition_variable cv;
  int seen[8] = {};  // operations executed by each worker
  int wait_for = 0;  // workers which must have executed something before the blocked one goes on
  int blocked = -1;
  bool released = false;
  int done = 0;
};
std::optional<Spread> sp;
std::coroutine_handle<> sp_h[512];
int sp_n;
bool sp_enough() {
  for (int i = 0; i < W.nw; ++i)
    if (i != sp->blocked && sp->seen[i] < sp->wait_for)
      return false;
  return true;
}
// places the frames at regular distances, like an allocator does for frames of equal size
struct Placed {
  static inline std::byte* arena;
  static inline size_t stride, used, cap;
  static void* allocate(size_t n) {
    sim::Quiet z;
    size_t step = (n + stride - 1) / stride * stride;
    if (!arena || used + step > cap)
      return ::operator new(n);
    return arena + std::exchange(used, used + step);
  }
  static void deallocate(void* p, size_t) noexcept {
    if (!arena || p < arena || p >= arena + cap)
      ::operator delete(p);
  }
};
using SpRes = dd::with_resource<Placed>;
template <int HOW, typename R, typename... Res>
R sp_walk(int i, Res...) {
  co_await dd::this_coro::suspend_and([i](std::coroutine_handle<> h) { sp_h[i] = h; });
  if constexpr (HOW == 0)
    (void)co_await dd::jump_on(*W.pool);
  else if constexpr (HOW == 1) {
    dd::any_executor_ref r(*W.pool);
    (void)co_await dd::jump_on(r);
  } else {
    RawAttach a;
    co_await a;
  }
  int w = pool_worker();
  SIM_CHECK(w >= 0, "wrong-thread", "operation %d is not on a worker of the pool", i);
  std::lock_guard l(sp->m);
  ++sp->seen[w];
  ++sp->done;
  if (sp_enough())
    sp->cv.notify_all();
}
template <int HOW, typename... Res>
void sp_start(int i, int kind, Res... r) {
  switch (kind) {
    case 0:
      sp_walk<HOW, dd::job>(i, r...);
      break;
    case 1:
      sp_walk<HOW, dd::async_task<void>>(i, r...).detach();
      break;
    case 2:
      sp_walk<HOW, dd::logical_thread>(i, r...).detach();
      break;
    default:
      sp_walk<HOW, dd::task<void>>(i, r...).start_and_detach();
      break;
  }
}
template <int HOW>
void sp_start_any(int i, int kind) {
  if (Placed::arena)
    sp_start<HOW>(i, kind, SpRes{});
  else
    sp_start<HOW>(i, kind);
}
}  // namespace
SIM_SCENARIO(hops_spread, 1, "many independent operations: every worker of the pool gets some, one busy worker does not hold up the others") {
  sp.emplace();
  int nt = 1 + sim::draw(3);
  int how = sim::draw(4), kind = sim::draw(5);
  bool block = sim::draw(2);
  int victim = sim::draw(8);
  int place = sim::draw(2) ? sim::draw(9) : 0;  // distance of frames 32..4096, or what the heap gives
  open(sim::draw(4) ? 3 : 8);
  // all of them exist at the same time
  sp_n = W.nw * (W.nw > 3 ? 40 : 24);
  sp->wait_for = 1;
  std::unique_ptr<std::byte[]> arena;
  Placed::arena = nullptr;
  if (place) {
    Placed::stride = size_t(16) << place;
    Placed::used = 0;
    Placed::cap = sp_n * std::max<size_t>(1024, Placed::stride);
    arena.reset(new std::byte[Placed::cap]);
    Placed::arena = arena.get();
  }
  for (int i = 0; i < sp_n; ++i) {
    int k = kind == 4 ? i % 4 : kind;
    switch (how == 3 ? i % 3 : how) {
      case 0:
        sp_start_any<0>(i, k);
        break;
      case 1:
        sp_start_any<1>(i, k);
        break;
      default:
        sp_start_any<2>(i, k);
        break;
    }
  }
  if (W.nw < 2)
    block = false;
  if (block) {
    // a task which takes long: until everybody else has executed something
    dd::schedule_to(W.pool->queues_range()[victim % W.nw], [] {
      std::unique_lock l(sp->m);
      sp->blocked = pool_worker();
      sp->cv.notify_all();
      while (!sp_enough())
        sp->cv.wait(l);
      sp->released = true;
      sim::probe("went on behind a busy worker");
    });
    std::unique_lock l(sp->m);
    while (sp->blocked < 0)
      sp->cv.wait(l);
  }
  std::thread ts[3];
  for (int t = 1; t < nt; ++t)
    ts[t] = std::thread([t, nt] {
      for (int i = t; i < sp_n; i += nt)
        sp_h[i].resume();
    });
  for (int i = 0; i < sp_n; i += nt)
    sp_h[i].resume();
  for (int t = 1; t < nt; ++t)
    ts[t].join();
  sim::quiesce();
  sim::quiet([&] {
    SIM_CHECK(sp->done == sp_n, "lost-task", "%d of %d operations ran", sp->done, sp_n);
    for (int i = 0; i < W.nw; ++i)
      SIM_CHECK(sp->seen[i] > 0, "idle-worker", "%d operations, none of them was given to worker %d of %d", sp_n, i, W.nw);
    if (block)
      SIM_CHECK(sp->released, "idle-worker", "the busy task did not end");
  });
  close();
  sp.reset();
}
