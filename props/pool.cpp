// Executors: thread_pool, worker, strand, task_queue under concurrent submission, stop and destruction.
#include "pool_common.h"

namespace {
using namespace wl;

// ------------------------------------------------------------------ program of one run (drawn up-front)
struct Op {
  int kind;    // how to hand the work over
  int q;       // queue index / hash
  int len;     // list length, number of hops
  int nested;  // what the task does when it runs
  int pauses;  // scheduling points before the operation
  bool whole = true;  // lists: pushed at once or node by node
};
enum { N_NONE, N_YIELD, N_HOP, N_RESUBMIT, N_STOP, NN };

struct Env {
  dd::thread_pool* pool = nullptr;
  dd::worker* work = nullptr;
  dd::task_queue* queue = nullptr;
  int nq = 1;
  bool may_stop = false;   // nested tasks may call request_stop
  bool allocfail = false;
  bool stopfail = false;   // a stop request may fail to allocate
};
Env env;
// a request which fails half-way stops some workers and may be repeated
bool request_stop(dd::thread_pool& p, bool must) {
  stop_requested(0);
  if (env.stopfail) {
    try {
      sim::AllocFaults f;
      p.request_stop();
      return true;
    } catch (const std::bad_alloc&) {
      sim::probe("a stop request failed to allocate");
      if (!must)
        return false;
    }
  }
  p.request_stop();
  return true;
}
// a worker job of the user, written against the documented contract of worker::job_t
int user_jobs_over;
void user_job(dd::task_queue& queue) {
  bool stop = false;
  while (!stop) {
    dd::task_node* n = queue.pop_all_not_empty();
    while (n && !stop) {
      bool pill = n->is_deadpill();
      auto h = n->task;
      dd::task_node* next = n->next;
      if (pill) {
        while (next) {  // the rest is cancelled
          dd::task_node* after = next->next;
          if (auto c = next->task) {
            next->status = dd::schedule_errc::cancelled;
            c.resume();
          }
          next = after;
        }
        stop = true;
      } else
        h.resume();
      n = next;
    }
  }
  sim::quiet([] { user_jobs_over++; });
}
int queue_of(dd::task_queue& q) {
  return int(&q - env.pool->queues_range().data());
}

Op draw_op(int nkinds) {
  Op o;
  o.kind = sim::draw(nkinds);
  o.q = sim::draw(3);
  o.len = 1 + often(3, 10);
  o.nested = sim::draw(NN);
  o.pauses = sim::draw(3);
  o.whole = !sim::chance(1, 3);
  return o;
}

void run_nested(int nested, int q, int depth);

// a node which is not part of a coroutine frame: freed by the coroutine it resumes
struct HeapNode : dd::task_node {
  int rec;
  int nested, q, depth;
  std::unique_ptr<Cell> cell;
};
dd::job heap_node_job(HeapNode* n) {
  co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) { n->task = h; });
  bool ok = n->status == dd::schedule_errc::ok;
  int rec = n->rec, nested = n->nested, q = n->q, depth = n->depth;
  begin(rec, ok);
  SIM_CHECK(n->cell->v == scrambled(rec), "corrupt", "node %d", rec);
  delete n;  // from now on nobody may touch the node
  if (ok)
    run_nested(nested, q, depth);
  end(rec);
}
HeapNode* make_node(int exec, int q, int nested, int depth) {
  HeapNode* n = new HeapNode;
  n->rec = add(exec, q);
  n->nested = nested;
  n->q = q < 0 ? 0 : q;
  n->depth = depth;
  n->cell.reset(new Cell{scrambled(n->rec)});
  heap_node_job(n);
  return n;
}

// coroutine which hops several times
dd::job hopper(int kind, int q, int hops, int nested, int depth) {
  std::unique_ptr<Cell> cell(new Cell{0});
  for (int i = 0; i < hops; ++i) {
    cell->v++;
    bool ok = false;
    int r;
    if (env.pool) {
      switch (kind % 4) {
        case 0: {
          r = add(0);
          ok = bool(co_await timed{dd::jump_on(*env.pool), r});
          break;
        }
        case 1: {
          dd::any_executor_ref ref(*env.pool);
          r = add(0);
          ok = bool(co_await timed{dd::jump_on(ref), r});
          break;
        }
        case 2: {
          dd::strand s = env.pool->get_strand(q);
          r = add(0, queue_of(s.get_queue()));
          ok = bool(co_await timed{dd::jump_on(s), r});
          break;
        }
        default: {
          r = add(0, q % env.nq);
          ok = bool(co_await timed{dd::jump_on(env.pool->queues_range()[q % env.nq]), r});
          break;
        }
      }
    } else if (env.work) {
      r = add(0, 0);
      if (kind % 3 == 0)
        ok = bool(co_await timed{dd::jump_on(*env.work), r});
      else if (kind % 3 == 1) {
        dd::strand s(*env.work);
        ok = bool(co_await timed{dd::jump_on(s), r});
      } else {
        dd::any_executor_ref ref(*env.work);
        ok = bool(co_await timed{dd::jump_on(ref), r});
      }
    } else {
      r = add(0, 0);
      ok = bool(co_await timed{dd::jump_on(*env.queue), r});
    }
    begin(r, ok);
    SIM_CHECK(cell->v == i + 1, "corrupt", "coroutine frame: local is %d, expected %d", cell->v, i + 1);
    if (!ok) {
      end(r);
      co_return;
    }
    if (i + 1 == hops)
      run_nested(nested, q, depth);
    else if (nested == N_YIELD)
      sim::yield();
    end(r);
  }
}

template <typename E>
void push_list(E& e, int q, int len, int nested, int depth, bool whole) {
  HeapNode* first = nullptr;
  HeapNode* last = nullptr;
  int lid = sim::quiet([] { return nlist++; });
  for (int i = 0; i < len; ++i) {
    HeapNode* n = make_node(0, q, i + 1 == len ? nested : N_NONE, depth);
    sim::quiet([&] {
      recs[n->rec].list = lid;
      recs[n->rec].lpos = i;
      recs[n->rec].whole_list = whole;
    });
    if (last)
      last->next = n;
    else
      first = n;
    last = n;
  }
  int base = first->rec;
  std::vector<int> ids;
  {
    sim::Quiet z;
    for (dd::task_node* n = first; n; n = n->next)
      ids.push_back(static_cast<HeapNode*>(n)->rec);
  }
  (void)base;
  sim::quiet([&] {
    for (int r : ids)
      invoke(r);
  });
  if constexpr (std::is_same_v<E, dd::task_queue>) {
    if (whole) {
      if (sim::draw(2)) {
        e.push_list(nullptr);  // nothing
        e.push_list(first);
      } else
        e.push_list(first, last);
    } else
      dd::attach_list(e, first);
  } else
    dd::attach_list(e, first);
  sim::quiet([&] {
    for (int r : ids)
      returned(r);
    std::vector<int>().swap(ids);
  });
}

// callables of several sizes
template <size_t N>
struct Pad {
  unsigned char c[N] = {};
  void fill(int rec) {
    for (size_t k = 0; k < N; k += 61)
      c[k] = (unsigned char)(rec * 7 + k);
  }
  void check(int rec) const {
    for (size_t k = 0; k < N; k += 61)
      SIM_CHECK(c[k] == (unsigned char)(rec * 7 + k), "corrupt", "callable %d was changed", rec);
  }
};
template <>
struct Pad<0> {
  void fill(int) {
  }
  void check(int) const {
  }
};
template <size_t N>
void call_schedule_of(int kind, int q, int nested, int depth) {
  int rec = add(0, -1);
  struct Body {
    int rec, nested, q, depth;
    Fate fate;
    Token tok;
    std::unique_ptr<Cell> cell;
    Pad<N> pad = {};
    void operator()() {
      begin(rec, true);
      pad.check(rec);
      SIM_CHECK(cell && cell->v == scrambled(rec), "corrupt", "callable %d: captured state is wrong", rec);
      cell->v++;
      if (env.pool)
        SIM_CHECK(env.pool->is_worker(), "is-worker", "a worker is not taken for a worker");
      run_nested(nested, q, depth);
      end(rec);
    }
  };
  Body b{rec, nested, q, depth, Fate(rec), Token(g_track.fresh()), std::unique_ptr<Cell>(new Cell{scrambled(rec)})};
  b.pad.fill(rec);
  auto setq = [&](int k) { sim::quiet([&] { recs[rec].q = k; }); };
  invoke(rec);
  try {
    std::optional<sim::AllocFaults> af;
    if (env.allocfail)
      af.emplace();
    if (env.pool) {
      switch (kind % 5) {
        case 0:
          env.pool->schedule(std::move(b));
          break;
        case 1:
          setq(queue_of(env.pool->select_queue(q)));
          env.pool->schedule(std::move(b), q);
          break;
        case 2:
          dd::schedule_to(*env.pool, std::move(b));
          break;
        case 3: {
          setq(queue_of(env.pool->select_queue(q)));
          dd::schedule_to(env.pool->select_queue(q), std::move(b));
          break;
        }
        default: {
          dd::schedule_to(*env.pool, std::move(b), dd::with_resource{env.pool->get_resource()});
          break;
        }
      }
    } else if (env.work) {
      setq(0);
      dd::schedule_to(*env.work, std::move(b));
    } else {
      setq(0);
      dd::schedule_to(*env.queue, std::move(b));
    }
    returned(rec);
  } catch (const std::bad_alloc&) {
    not_submitted(rec);
    sim::probe("schedule failed to allocate");
  }
}
void call_schedule(int kind, int q, int nested, int depth) {
  int size = (kind * 3 + q + nested) % 4;
  if (size < 2)
    call_schedule_of<0>(kind, q, nested, depth);
  else if (size == 2)
    call_schedule_of<300>(kind, q, nested, depth);
  else
    call_schedule_of<2000>(kind, q, nested, depth);
}

void perform(const Op& o, int depth) {
  pause(o.pauses);
  if (env.pool) {
    switch (o.kind) {
      case 0: {  // bare node attached to the pool
        HeapNode* n = make_node(0, -1, o.nested, depth);
        int r = n->rec;
        n->q = o.q;
        invoke(r);
        env.pool->attach(n);
        returned(r);
        break;
      }
      case 1: {
        HeapNode* n = make_node(0, queue_of(env.pool->get_strand(o.q).get_queue()), o.nested, depth);
        int r = n->rec;
        invoke(r);
        env.pool->get_strand(o.q).attach(n);
        returned(r);
        break;
      }
      case 2:
        hopper(o.q, o.q, o.len, o.nested, depth);
        break;
      case 3:
        hopper(o.q + o.len, o.q, 1, o.nested, depth);
        break;
      case 4:
      case 5:
        call_schedule(o.q * 2 + o.len, o.q, o.nested, depth);
        break;
      case 6:
        push_list(*env.pool, -1, o.len, o.nested, depth, false);
        break;
      default:
        push_list(env.pool->queues_range()[o.q % env.nq], o.q % env.nq, o.len, o.nested, depth, o.whole);
        break;
    }
  } else {
    switch (o.kind) {
      case 0:
      case 1: {
        HeapNode* n = make_node(0, 0, o.nested, depth);
        int r = n->rec;
        invoke(r);
        if (env.work) {
          if (o.kind)
            dd::strand(*env.work).attach(n);
          else
            env.work->attach(n);
        } else if (o.kind)
          env.queue->push(n);
        else
          env.queue->attach(n);
        returned(r);
        break;
      }
      case 2:
      case 3:
        hopper(o.q, 0, o.kind == 2 ? o.len : 1, o.nested, depth);
        break;
      case 4:
      case 5:
        call_schedule(o.q, 0, o.nested, depth);
        break;
      default:
        if (env.work) {
          if (o.kind == 6)
            push_list(*env.work, 0, o.len, o.nested, depth, false);
          else
            push_list(dd::strand(*env.work).get_queue(), 0, o.len, o.nested, depth, o.whole);
        } else
          push_list(*env.queue, 0, o.len, o.nested, depth, o.whole);
        break;
    }
  }
}

void run_nested(int nested, int q, int depth) {
  switch (nested) {
    case N_YIELD:
      pause(3);
      break;
    case N_HOP:
      if (depth < 1)
        hopper(q + 1, q, 1, N_NONE, depth + 1);
      break;
    case N_RESUBMIT:
      if (depth < 1) {
        perform(Op{q, q, 1, N_YIELD, 0}, depth + 1);
        perform(Op{4, q + 1, 1, N_NONE, 1}, depth + 1);
      }
      break;
    case N_STOP:
      if (env.pool && env.may_stop) {
        request_stop(*env.pool, false);
      } else
        sim::yield();
      break;
    default:
      break;
  }
}

void finish_check() {
  check_history();
}

}  // namespace

// ------------------------------------------------------------------ thread_pool
static void pool_run(int nw, int nsub, int end_mode, bool stopper, int maxops) {
  int nkinds = 8;
  std::vector<std::vector<Op>> progs(nsub);
  for (auto& p : progs) {
    int n = 1 + sim::draw(maxops);
    for (int i = 0; i < n; ++i)
      p.push_back(draw_op(nkinds));
  }
  env.may_stop = sim::chance(1, 4);
  env.allocfail = sim::chance(1, 4);
  int stop_pauses = sim::draw(12);
  int root_pauses = sim::draw(12);
  int stops = 1 + sim::draw(2);
  bool by_root = sim::draw(2);
  env.stopfail = sim::chance(1, 5);
  bool own_job = sim::chance(1, 5);
  user_jobs_over = 0;
  static CheckedResource* res;
  CheckedResource resource("pool");
  res = &resource;
  resource.can_fail = true;
  {
    std::optional<dd::thread_pool> pool;
    pool.emplace(nw, own_job ? user_job : dd::default_worker_job, resource);
    env.pool = &*pool;
    sim::quiet([&] {
      env.nq = (int)pool->queues_range().size();
      groups[0].nworkers = (int)pool->workers_range().size();
      for (int i = 0; i < groups[0].nworkers; ++i)
        groups[0].ids[i] = pool->workers_range()[i].get_id();
    });
    SIM_CHECK(env.nq == nw && groups[0].nworkers == nw, "count", "pool of %d has %d queues, %d threads", nw, env.nq,
              groups[0].nworkers);
    std::vector<std::thread> subs;
    SIM_CHECK(&pool->get_resource() == &resource, "resource", "get_resource names another resource");
    SIM_CHECK(!pool->is_worker(), "is-worker", "the creator of the pool is taken for a worker");
    for (int i = by_root; i < nsub; ++i)
      subs.emplace_back([&, i] {
        for (const Op& o : progs[i])
          perform(o, 0);
        if (std::as_const(env).pool->is_worker())
          sim::fail("is-worker", "a client thread is taken for a worker");
      });
    if (stopper)
      subs.emplace_back([&] {
        pause(stop_pauses);
        for (int i = 0; i < stops; ++i) {
          request_stop(*pool, false);
        }
      });
    if (by_root)
      for (const Op& o : progs[0])
        perform(o, 0);
    for (auto& t : subs)
      t.join();
    if (end_mode == 1 || end_mode == 4) {
      // nobody stops the pool: everything must run, workers may not sleep with work queued
      if (!stopper && !env.may_stop)
        sim::wait_until([] { return pending() == 0; });
    } else
      pause(root_pauses);
    stop_requested(0);
    if (end_mode == 2 || end_mode == 3 || end_mode == 4)
      request_stop(*pool, end_mode != 3);
    if (end_mode == 3)
      request_stop(*pool, false);
    if (end_mode == 2 || end_mode == 4) {
      std::move(*pool).wait_stop();
      SIM_CHECK(pending() == 0, "lost-task", "wait_stop returned, but %d tasks were neither run nor cancelled", pending());
    }
    pool.reset();
    SIM_CHECK(user_jobs_over == (own_job ? nw : 0), "job", "%d of %d jobs of the user ended", user_jobs_over, nw);
    sim::quiet([] { groups[0].destroyed = true; });
    env.pool = nullptr;
  }
  finish_check();
}

SIM_SCENARIO(pool_mixed, 4, "thread_pool: submitters of every kind race with stop requests and destruction") {
  int nw = 1 + often(3, 8);
  int nsub = 1 + sim::draw(3);
  int end_mode = sim::draw(5);
  bool stopper = sim::draw(2);
  pool_run(nw, nsub, end_mode, stopper, 3);
}

SIM_SCENARIO(pool_drain, 2, "thread_pool: everything submitted must run while nobody stops the pool") {
  int nw = 1 + often(3, 8);
  int nsub = 1 + sim::draw(3);
  pool_run(nw, nsub, 1 + 3 * sim::draw(2), false, 4);
}

// a pool is stopped and destroyed while its own tasks keep submitting
SIM_SCENARIO(pool_self_feeding, 2, "thread_pool: running tasks keep submitting to all queues while the pool stops and dies") {
  int nw = 2 + sim::draw(2);
  int ntasks = 1 + sim::draw(3);
  struct P {
    int q, n, step, pauses;
  };
  std::vector<P> ps;
  for (int i = 0; i < ntasks; ++i)
    ps.push_back(P{(int)sim::draw(3), 1 + (int)sim::draw(4), (int)sim::draw(3), (int)sim::draw(4)});
  int mode = sim::draw(3);
  int root_pauses = sim::draw(16);
  {
    std::optional<dd::thread_pool> pool;
    pool.emplace(nw);
    env.pool = &*pool;
    sim::quiet([&] {
      env.nq = nw;
      groups[0].nworkers = nw;
      for (int i = 0; i < nw; ++i)
        groups[0].ids[i] = pool->workers_range()[i].get_id();
    });
    for (P& p : ps) {
      int r = add(0, p.q % nw);
      invoke(r);
      dd::schedule_to(pool->queues_range()[p.q % nw], [&p, r, nw] {
        begin(r, true);
        for (int i = 0; i < p.n; ++i) {
          pause(p.pauses);
          int q = (p.q + 1 + i * (p.step + 1)) % nw;
          HeapNode* n = make_node(0, q, N_NONE, 1);
          int nr = n->rec;
          invoke(nr);
          env.pool->queues_range()[q].attach(n);
          returned(nr);
        }
        end(r);
      });
      returned(r);
      sim::quiet([&] { recs[r].callable = true; recs[r].dropped = NEVER - 1; });
    }
    pause(root_pauses);
    stop_requested(0);
    if (mode)
      pool->request_stop();
    if (mode == 2) {
      std::move(*pool).wait_stop();
      SIM_CHECK(pending() == 0, "lost-task", "wait_stop returned, but %d tasks were neither run nor cancelled", pending());
    }
    pool.reset();
    sim::quiet([] { groups[0].destroyed = true; });
    env.pool = nullptr;
  }
  finish_check();
}

// the owner only waits: the one stop request comes from a task of the pool or from another thread
SIM_SCENARIO(pool_stop_by_other, 2, "thread_pool: wait_stop by the owner while the only stop request comes from a task or a foreign thread") {
  int nw = 1 + often(3, 8);
  int nsub = sim::draw(3);
  std::vector<std::vector<Op>> progs(nsub);
  for (auto& p : progs) {
    int n = 1 + sim::draw(3);
    for (int i = 0; i < n; ++i) {
      p.push_back(draw_op(8));
      if (p.back().nested == N_STOP)
        p.back().nested = N_YIELD;
    }
  }
  int from = sim::draw(4);  // 0: callable, 1: node, 2: coroutine which jumped, 3: foreign thread
  int q = sim::draw(nw), before = sim::draw(8), after = sim::draw(3);
  int again = sim::draw(2);
  bool settle = sim::draw(2);  // the owner waits for the request before it calls wait_stop
  bool clients_first = sim::draw(2);
  static bool requested;
  requested = false;
  {
    std::optional<dd::thread_pool> pool;
    pool.emplace(nw);
    env.pool = &*pool;
    sim::quiet([&] {
      env.nq = nw;
      groups[0].nworkers = nw;
      for (int i = 0; i < nw; ++i)
        groups[0].ids[i] = pool->workers_range()[i].get_id();
    });
    auto stop_it = [&pool, before, after, again] {
      pause(before);
      for (int i = 0; i <= again; ++i)
        request_stop(*pool, true);
      sim::quiet([] { requested = true; });
      pause(after);
    };
    std::vector<std::thread> subs;
    for (int i = 0; i < nsub; ++i)
      subs.emplace_back([&, i] {
        for (const Op& o : progs[i])
          perform(o, 0);
      });
    if (clients_first)
      for (auto& t : subs)
        t.join();
    auto body = [&](int r, bool ok) {
      begin(r, ok);
      if (ok)
        stop_it();
      end(r);
    };
    switch (from) {
      case 0: {
        int r = add(0, q);
        invoke(r);
        dd::schedule_to(pool->select_queue(q), [&body, r] { body(r, true); });
        returned(r);
        break;
      }
      case 1: {
        int r = add(0, q);
        invoke(r);
        [](dd::thread_pool& p, int q, int r, decltype(body)& body) -> dd::job {
          dd::schedule_status st = co_await dd::jump_on(p.queues_range()[q]);
          body(r, bool(st));
        }(*pool, q, r, body);
        returned(r);
        break;
      }
      case 2: {
        int r = add(0, -1);
        invoke(r);
        [](dd::thread_pool& p, int r, decltype(body)& body) -> dd::job {
          dd::schedule_status st = co_await dd::jump_on(p);
          body(r, bool(st));
        }(*pool, r, body);
        returned(r);
        break;
      }
      default:
        subs.emplace_back(stop_it);
        break;
    }
    if (settle)
      sim::wait_until([] { return requested; });
    if (!clients_first || from == 3) {
      // clients must be over before the owner takes what remained in the queues
      for (int i = clients_first ? nsub : 0; i < nsub; ++i)
        subs[i].join();
    }
    std::move(*pool).wait_stop();
    SIM_CHECK(sim::quiet([] { return stopping(0); }), "early", "wait_stop returned before anybody requested a stop");
    if (from != 3 || settle)
      SIM_CHECK(pending() == 0, "lost-task", "wait_stop returned, but %d tasks were neither run nor cancelled", pending());
    if (from == 3)
      subs.back().join();
    pool.reset();
    sim::quiet([] { groups[0].destroyed = true; });
    env.pool = nullptr;
  }
  if (from == 3)
    sim::probe("stopped by a foreign thread only");
  else
    sim::probe("stopped by a task of the pool only");
  finish_check();
}

SIM_SCENARIO(worker_mixed, 2, "worker and strands over it: concurrent submitters, then destruction") {
  int nsub = 1 + sim::draw(3);
  std::vector<std::vector<Op>> progs(nsub);
  for (auto& p : progs) {
    int n = 1 + sim::draw(4);
    for (int i = 0; i < n; ++i)
      p.push_back(draw_op(8));
  }
  env.allocfail = sim::chance(1, 4);
  bool drain = sim::draw(2);
  int root_pauses = sim::draw(12);
  bool own_job = sim::chance(1, 4);
  {
    std::optional<dd::worker> w;
    if (own_job)
      w.emplace(user_job);
    else
      w.emplace();
    env.work = &*w;
    sim::quiet([&] {
      groups[0].nworkers = 1;
      groups[0].ids[0] = w->get_id();
    });
    std::vector<std::thread> subs;
    for (int i = 0; i < nsub; ++i)
      subs.emplace_back([&, i] {
        for (const Op& o : progs[i])
          perform(o, 0);
      });
    for (auto& t : subs)
      t.join();
    if (drain)
      sim::wait_until([] { return pending() == 0; });
    else
      pause(root_pauses);
    stop_requested(0);
    w.reset();
    sim::quiet([] { groups[0].destroyed = true; });
    env.work = nullptr;
  }
  finish_check();
}

// task_queue with consumers written by the user
SIM_SCENARIO(queue_consumers, 2, "task_queue: several producers, one or two consumers using pop_all_not_empty and pop_all") {
  int nsub = 1 + sim::draw(3);
  int ncons = 1 + sim::draw(2);
  std::vector<std::vector<Op>> progs(nsub);
  for (auto& p : progs) {
    int n = 1 + sim::draw(4);
    for (int i = 0; i < n; ++i) {
      p.push_back(draw_op(8));
      if (p.back().nested == N_RESUBMIT)
        p.back().nested = N_YIELD;
    }
  }
  bool poll = sim::chance(1, 3);
  {
    dd::task_queue queue;
    env.queue = &queue;
    static std::atomic<int> left;
    static bool produced;
    produced = false;
    left = 0;
    std::vector<std::thread> subs, cons;
    auto consume = [&queue](bool blocking) {
      for (;;) {
        dd::task_node* n = blocking ? queue.pop_all_not_empty() : queue.pop_all();
        if (blocking)
          SIM_CHECK(n, "empty-pop", "pop_all_not_empty returned an empty list");
        if (!n && !blocking) {
          if (sim::quiet([] { return produced; }) && sim::quiet([] { return pending() == 0; }))
            return;
          std::this_thread::yield();
          continue;
        }
        while (n) {
          auto h = n->task;
          dd::task_node* next = n->next;
          if (!h) {  // pill: this consumer is over; put the rest back for the others
            dd::task_node* rest = blocking ? next : n;
            if (rest)
              queue.push_list(rest);
            return;
          }
          h.resume();
          n = next;
        }
      }
    };
    for (int i = 0; i < ncons; ++i)
      cons.emplace_back([&, i] { consume(!(poll && i == 0)); });
    for (int i = 0; i < nsub; ++i)
      subs.emplace_back([&, i] {
        for (const Op& o : progs[i])
          perform(o, 0);
      });
    for (auto& t : subs)
      t.join();
    sim::wait_until([] { return pending() == 0; });
    sim::quiet([] { produced = true; });
    dd::task_node pills[2];
    for (int i = poll; i < ncons; ++i)
      queue.push(&pills[i]);
    for (auto& t : cons)
      t.join();
    SIM_CHECK(!queue.pop_all(), "leftover", "the queue is not empty at the end");
    env.queue = nullptr;
  }
  // several consumers: order of execution is not the order of pushes
  if (ncons > 1)
    sim::quiet([] {
      for (int i = 0; i < nrec; ++i)
        recs[i].q = -1, recs[i].list = -1;
    });
  finish_check();
}
