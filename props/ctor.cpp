// Construction of pools and workers under failing thread creation and allocation; memory resources of pools.
#include "pool_common.h"

namespace {
using namespace wl;

// a worker job which counts its starts and exits
int started, exited;
void counting_job(dd::task_queue& q) {
  sim::quiet([] { started++; });
  dd::default_worker_job(q);
  sim::quiet([] { exited++; });
}

struct Attempt {
  int kind;      // 0 pool default resource, 1 pool own resource, 2 worker, 3 pool on the heap, 4 default size, 5 size 0
  unsigned hc = 4;  // hardware_concurrency
  int nw;
  int job;
  bool tfault, afault, rfault;
  int work;
  int pauses;
};
Attempt draw_attempt() {
  Attempt a;
  a.kind = sim::draw(6);
  a.nw = 1 + often(5, 14);
  if (a.kind == 4)
    a.hc = often(6, 14);
  if (a.kind == 5)
    a.nw = 1;
  a.job = sim::draw(2);
  a.tfault = sim::chance(2, 3);
  a.afault = sim::chance(1, 2);
  a.rfault = sim::chance(1, 2);
  a.work = sim::draw(5);
  a.pauses = sim::draw(3);
  return a;
}

int ran, want;
template <typename P>
void use(P& p, int n) {
  for (int i = 0; i < n; ++i) {
    sim::quiet([] { want++; });
    Token tok(g_track.fresh());
    auto fn = [tok = std::move(tok)] {
      SIM_CHECK(tok.id >= 0, "corrupt", "callable lost its state");
      sim::quiet([] { ran++; });
    };
    if constexpr (requires { p.schedule(std::move(fn)); })
      p.schedule(std::move(fn));
    else
      dd::schedule_to(p, std::move(fn));
  }
  sim::quiesce();
  sim::quiet([] { SIM_CHECK(ran == want, "lost-task", "%d of %d callables ran on a freshly built executor", ran, want); });
}

// one attempt; true if it was built
bool attempt(const Attempt& a, CheckedResource& res, bool alone) {
  int threads = sim::live_threads();
  uint64_t bytes = sim::live_bytes();
  int tf = sim::thread_faults_fired(), af = sim::alloc_faults_fired();
  int rf = res.fails;
  bool threw = false, built = false;
  res.can_fail = a.rfault && a.kind == 1;
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> work;
  std::unique_ptr<dd::thread_pool> hpool;
  dd::worker::job_t job = a.job ? &counting_job : &dd::default_worker_job;
  auto build = [&] {
    if (a.kind == 0)
      pool.emplace((size_t)a.nw, job);
    else if (a.kind == 1)
      pool.emplace((size_t)a.nw, job, res);
    else if (a.kind == 2)
      work.emplace(job);
    else if (a.kind == 3)
      hpool = std::make_unique<dd::thread_pool>((size_t)a.nw, job);
    else if (a.kind == 4)
      pool.emplace();
    else
      pool.emplace(size_t(0), job);
  };
  int nw = a.nw;
  if (a.kind == 4 && alone) {
    sim::set_hardware_concurrency(a.hc);
    nw = (int)dd::thread_pool::default_thread_count();
    SIM_CHECK(nw >= 1 && nw <= std::max(1, (int)a.hc), "size", "default_thread_count is %d on %u processors", nw, a.hc);
  } else if (a.kind == 4) {
    nw = (int)dd::thread_pool::default_thread_count();
    SIM_CHECK(nw >= 1 && nw <= 16, "size", "default_thread_count is %d", nw);
  }
  try {
    std::optional<sim::ThreadFaults> t;
    std::optional<sim::AllocFaults> f;
    if (a.tfault)
      t.emplace();
    if (a.afault || res.can_fail)
      f.emplace();
    build();
    built = true;
  } catch (const std::bad_alloc&) {
    threw = true;
    SIM_CHECK(sim::alloc_faults_fired() > af || res.fails > rf, "wrong-error", "bad_alloc although no allocation failed");
    sim::probe("allocation failed in constructor");
  } catch (const std::system_error& e) {
    threw = true;
    SIM_CHECK(sim::thread_faults_fired() > tf, "wrong-error", "system_error although no thread creation failed");
    sim::probe("thread creation failed in constructor");
  }
  res.can_fail = false;
  if (threw && !built) {
    SIM_CHECK(!pool && !work && !hpool, "harness", "built in spite of the exception");
    SIM_CHECK(res.outstanding() == 0, "leak", "the failed constructor left %zu blocks of the resource", res.outstanding());
    if (alone) {
      SIM_CHECK(sim::live_threads() == threads, "thread-leak", "the failed constructor left %d threads running", sim::live_threads() - threads);
      SIM_CHECK(sim::live_bytes() == bytes, "leak", "the failed constructor left %lld bytes", (long long)(sim::live_bytes() - bytes));
      if (a.job)
        sim::quiet([] { SIM_CHECK(started == exited, "thread-leak", "%d workers started, %d ended", started, exited); });
    }
    return false;
  }
  SIM_CHECK(sim::thread_faults_fired() == tf, "swallowed", "a thread creation failed, but the constructor succeeded");
  SIM_CHECK(sim::alloc_faults_fired() == af && res.fails == rf, "swallowed", "an allocation failed, but the constructor succeeded");
  dd::thread_pool* p = pool ? &*pool : hpool.get();
  if (p) {
    SIM_CHECK((int)p->workers_range().size() == nw && (int)p->queues_range().size() == nw, "size", "pool of %d workers has %zu",
              nw, p->workers_range().size());
    for (auto& t : p->workers_range())
      SIM_CHECK(t.joinable() && p->is_worker(t.get_id()), "not-started", "a worker of a built pool has no thread");
    SIM_CHECK(!p->is_worker(), "is-worker", "the creator of the pool is taken for a worker");
    SIM_CHECK(std::as_const(*p).workers_range().data() == p->workers_range().data() && std::as_const(*p).workers_range().size() == (size_t)nw &&
                  std::as_const(*p).queues_range().data() == p->queues_range().data() && std::as_const(*p).queues_range().size() == (size_t)nw,
              "size", "the const view of the pool differs");
    if (alone) {
      SIM_CHECK(sim::live_threads() <= threads + nw, "thread-leak", "too many threads");
      use(*p, a.work);
    }
  } else {
    SIM_CHECK(work->get_thread().joinable() && std::as_const(*work).get_thread().get_id() == work->get_id() && work->get_id() != std::this_thread::get_id(),
              "not-started", "a built worker has no thread");
    if (alone)
      use(*work, a.work);
  }
  pause(a.pauses);
  pool.reset();
  work.reset();
  hpool.reset();
  SIM_CHECK(res.outstanding() == 0, "leak", "the destroyed pool left %zu blocks of the resource", res.outstanding());
  if (alone) {
    SIM_CHECK(sim::live_threads() == threads, "thread-leak", "the destroyed executor left %d threads running", sim::live_threads() - threads);
    SIM_CHECK(sim::live_bytes() == bytes, "leak", "the destroyed executor left %lld bytes", (long long)(sim::live_bytes() - bytes));
  }
  sim::probe("built after failures");
  return true;
}
}  // namespace

SIM_SCENARIO(ctor_faults, 3, "thread_pool and worker constructors under failing thread creation and allocation, alone") {
  started = exited = ran = want = 0;
  int n = 1 + sim::draw(4);
  std::vector<Attempt> as;
  for (int i = 0; i < n; ++i)
    as.push_back(draw_attempt());
  Attempt& big = as[sim::draw(n)];
  if (big.kind != 2 && big.kind < 4 && sim::draw(24) == 23)  // many workers: the failure hits late
    big.nw = 6 + sim::draw(26);
  CheckedResource res("pool");
  for (const Attempt& a : as)
    attempt(a, res, true);
  // a later construction succeeds
  Attempt last = as.back();
  last.nw = std::min(last.nw, 5);
  last.tfault = last.afault = last.rfault = false;
  last.work = 3;
  SIM_CHECK(attempt(last, res, true), "late-failure", "construction fails although nothing fails any more");
  check_tokens();
  sim::quiesce();
  SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left at the end", sim::live_threads() - 1);
}

SIM_SCENARIO(ctor_concurrent, 1, "constructors under faults on several threads at once") {
  started = exited = ran = want = 0;
  int nthr = 2 + sim::draw(2);
  std::vector<std::vector<Attempt>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + sim::draw(2);
    for (int i = 0; i < n; ++i)
      p.push_back(draw_attempt());
  }
  uint64_t bytes = sim::live_bytes();
  {
    std::vector<std::thread> ts;
    for (int i = 0; i < nthr; ++i)
      ts.emplace_back([&progs, i] {
        CheckedResource res("pool");
        for (const Attempt& a : progs[i])
          attempt(a, res, false);
      });
    for (auto& t : ts)
      t.join();
  }
  sim::quiesce();
  SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left at the end", sim::live_threads() - 1);
  SIM_CHECK(sim::live_bytes() == bytes, "leak", "%lld bytes are left", (long long)(sim::live_bytes() - bytes));
  sim::quiet([] { SIM_CHECK(started == exited, "thread-leak", "%d workers started, %d ended", started, exited); });
}

// ------------------------------------------------------------------ C06
namespace {
struct RCall {  // knows the resource it must live in when it runs
  Call call;
  CheckedResource* res;
  char pad[40] = {};
  void operator()() {
    SIM_CHECK(res->owns(this), "wrong-resource", "the state of callable %d is not in the pool's resource", call.rec);
    call();
  }
};
struct POp {
  int kind, hash, pauses, pool;
};
}  // namespace

SIM_SCENARIO(pool_resource, 4, "pools with resources of their own: every block comes from and returns to the resource given") {
  nrec = nlist = 0;
  int npools = 1 + sim::draw(2);
  int mode[2], nw[2];
  bool can_fail = sim::draw(2);
  for (int i = 0; i < npools; ++i) {
    mode[i] = sim::draw(3);  // 0: passed, 1: default resource, 2: passed, default resource set to something else afterwards
    nw[i] = 1 + sim::draw(3);
  }
  int nthr = 1 + sim::draw(3);
  std::vector<std::vector<POp>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + sim::draw(5);
    for (int i = 0; i < n; ++i)
      p.push_back({(int)sim::draw(5), (int)sim::draw(4), (int)sim::draw(3), (int)sim::draw(npools)});
  }
  bool quiet_end = sim::draw(2);   // let everything run before the end
  int end_kind = sim::draw(3);     // destroy | request_stop + destroy | request_stop + wait_stop + destroy
  {
    CheckedResource other("default"), r0("first"), r1("second");
    CheckedResource* res[2] = {&r0, &r1};
    std::pmr::memory_resource* old = std::pmr::get_default_resource();
    std::optional<dd::thread_pool> pools[2];
    for (int i = 0; i < npools; ++i) {
      if (mode[i] == 1) {
        std::pmr::set_default_resource(res[i]);
        pools[i].emplace((size_t)nw[i]);
      } else
        pools[i].emplace((size_t)nw[i], dd::default_worker_job, *res[i]);
      std::pmr::set_default_resource(&other);
      groups[i] = Group{};
      groups[i].nworkers = nw[i];
      for (int k = 0; k < nw[i]; ++k)
        groups[i].ids[k] = pools[i]->workers_range()[k].get_id();
      SIM_CHECK(&pools[i]->get_resource() == res[i], "wrong-resource", "get_resource does not report the resource of the pool");
      SIM_CHECK(res[i]->owns(pools[i]->queues_range().data()), "wrong-resource", "the queues are not in the pool's resource");
      SIM_CHECK(res[i]->owns(pools[i]->workers_range().data()), "wrong-resource", "the threads are not in the pool's resource");
      SIM_CHECK(res[i]->outstanding() == 2, "wrong-resource", "%zu blocks", res[i]->outstanding());
      res[i]->can_fail = can_fail;
    }
    std::function<void(int)> nested = [&](int rec) {
      // a running task schedules another one on the other pool
      int i = npools - 1 - sim::quiet([&] { return recs[rec].exec; });
      if (!quiet_end || i < 0 || sim::quiet([] { return nrec; }) > 60)
        return;
      int r = add(i);
      invoke(r);
      bool failed = false;
      try {
        sim::AllocFaults f;
        RCall c{Call(r, nullptr), res[i]};
        pools[i]->schedule(std::move(c));
      } catch (const std::bad_alloc&) {
        failed = true;
      }
      if (failed)
        not_submitted(r);
      returned(r);
    };
    auto submit = [&](const POp& o) {
      pause(o.pauses);
      auto& pool = *pools[o.pool];
      int r = add(o.pool, o.kind == 0 ? o.hash % nw[o.pool] : -1);
      bool failed = false;
      int before = sim::alloc_faults_fired();
      std::optional<RCall> call;
      try {
        sim::AllocFaults f;
        {
          sim::NoFaults nf;
          call.emplace(RCall{Call(r, o.kind == 3 ? &nested : nullptr), res[o.pool]});
        }
        invoke(r);
        if (o.kind == 0)
          pool.schedule(std::move(*call), (dd::operation_hash_t)o.hash);
        else
          pool.schedule(std::move(*call));
      } catch (const std::bad_alloc&) {
        failed = true;
        SIM_CHECK(can_fail || sim::alloc_faults_fired() > before, "spurious-failure", "schedule failed to allocate");
        sim::probe("schedule failed to allocate");
      }
      if (failed)
        not_submitted(r);
      returned(r);
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < nthr; ++i)
      ts.emplace_back([&, i] {
        for (const POp& o : progs[i])
          submit(o);
      });
    for (const POp& o : progs[0])
      submit(o);
    for (auto& t : ts)
      t.join();
    if (quiet_end) {
      sim::quiesce();
      SIM_CHECK(all_resumed(), "lost-task", "a scheduled callable never ran");
      for (int i = 0; i < npools; ++i)
        SIM_CHECK(res[i]->outstanding() == 2, "leak", "%zu blocks of an idle pool are outstanding", res[i]->outstanding() - 2);
    }
    for (int i = 0; i < npools; ++i) {
      stop_requested(i);
      if (end_kind >= 1)
        pools[i]->request_stop();
      if (end_kind == 2)
        std::move(*pools[i]).wait_stop();
      pools[i].reset();
      sim::quiet([&] { groups[i].destroyed = true; });
      SIM_CHECK(res[i]->outstanding() == 0, "leak", "%zu blocks are outstanding after the pool is destroyed", res[i]->outstanding());
    }
    SIM_CHECK(other.allocs == 0, "wrong-resource", "%d allocations went to the default resource instead of the pool's", other.allocs);
    std::pmr::set_default_resource(old);
    sim::quiesce();
    check_history();
  }
}
