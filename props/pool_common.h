// Records and oracles for work handed to executors.
#pragma once
#include "common.h"

namespace wl {

constexpr uint64_t NEVER = ~0ull;

struct Rec {
  bool used = false;
  int exec = -1;        // executor group
  int q = -1;           // queue inside of it, if known
  int list = -1, lpos = 0;
  bool whole_list = false;
  uint64_t inv = 0, ret = NEVER, start = 0, end = 0;
  bool callable = false;
  uint64_t dropped = 0;  // callable destroyed without having been invoked
  int resumed = 0;
  bool ok = false, expect_never = false, not_submitted = false;
  int thread = -1;      // worker index, -1: not a worker of the executor
  int tid = -1;
};
constexpr int MAXREC = 600;
inline Rec recs[MAXREC];
inline int nrec = 0;
inline int nlist = 0;

struct Group {            // an executor as the oracle sees it
  int nworkers = 0;       // 0: no thread check
  std::thread::id ids[8];
  uint64_t stop_at = NEVER;  // first request_stop / destruction
  bool destroyed = false;
  int running[8] = {};    // task running on worker i
};
inline Group groups[4];

inline int add(int exec, int q = -1) {
  sim::Quiet z;
  SIM_CHECK(nrec < MAXREC, "harness", "too many records");
  Rec& r = recs[nrec];
  r.used = true;
  r.exec = exec;
  r.q = q;
  return nrec++;
}
inline void invoke(int r) {
  sim::Quiet z;
  recs[r].inv = sim::now();
  sim::event("submit", r);
}
inline void returned(int r) {
  sim::Quiet z;
  recs[r].ret = sim::now();
}
inline void not_submitted(int r) {
  sim::Quiet z;
  recs[r].not_submitted = true;
}
inline void stop_requested(int g) {
  sim::Quiet z;
  if (groups[g].stop_at == NEVER)
    groups[g].stop_at = sim::now();
}
inline bool stopping(int g) {
  sim::Quiet z;
  return groups[g].stop_at != NEVER;
}
inline int worker_index(int g) {
  sim::Quiet z;
  auto id = std::this_thread::get_id();
  for (int i = 0; i < groups[g].nworkers; ++i)
    if (groups[g].ids[i] == id)
      return i;
  return -1;
}
// the task was resumed
inline void begin(int r, bool ok) {
  sim::Quiet z;
  Rec& c = recs[r];
  c.resumed++;
  sim::event(ok ? "run" : "cancelled", r);
  SIM_CHECK(c.resumed == 1, "resumed-twice", "task %d was resumed %d times", r, c.resumed);
  SIM_CHECK(!c.expect_never, "resumed", "task %d must never be resumed", r);
  c.start = sim::now();
  c.ok = ok;
  c.tid = sim::self();
  Group& g = groups[c.exec];
  if (ok) {
    if (g.nworkers) {
      c.thread = worker_index(c.exec);
      SIM_CHECK(c.thread >= 0, "wrong-thread", "task %d runs with status ok on T%d, which is not a worker of its executor", r, c.tid);
      SIM_CHECK(!g.destroyed, "after-stop", "task %d runs with status ok after its executor was destroyed", r);
      SIM_CHECK(!g.running[c.thread], "overlap", "task %d starts while task %d runs on the same worker", r, g.running[c.thread] - 1);
      g.running[c.thread] = r + 1;
    }
  } else
    SIM_CHECK(g.stop_at != NEVER, "spurious-cancel", "task %d was cancelled although nobody stopped its executor", r);
}
inline void end(int r) {
  sim::Quiet z;
  Rec& c = recs[r];
  c.end = sim::now();
  Group& g = groups[c.exec];
  if (c.ok && c.thread >= 0 && g.running[c.thread] == r + 1)
    g.running[c.thread] = 0;
}
inline bool all_resumed() {
  sim::Quiet z;
  for (int i = 0; i < nrec; ++i)
    if (!recs[i].resumed && !recs[i].dropped && !recs[i].expect_never && !recs[i].not_submitted && recs[i].inv)
      return false;
  return true;
}
inline int pending() {
  sim::Quiet z;
  int n = 0;
  for (int i = 0; i < nrec; ++i)
    n += recs[i].inv && !recs[i].end && !recs[i].dropped && !recs[i].expect_never && !recs[i].not_submitted;
  return n;
}

// everything is over: the history must make sense
inline void check_history() {
  sim::Quiet z;
  int ok = 0, cancelled = 0;
  for (int i = 0; i < nrec; ++i) {
    Rec& a = recs[i];
    if (a.callable && !a.resumed && a.dropped && !a.not_submitted) {  // cancelled
      SIM_CHECK(groups[a.exec].stop_at < a.dropped, "spurious-cancel", "callable %d was dropped although nobody stopped its executor", i);
      a.resumed = 1;
      a.start = a.end = a.dropped;
    }
    if (!a.inv || a.not_submitted) {
      SIM_CHECK(!a.resumed, "resumed", "task %d was resumed although it was never submitted", i);
      continue;
    }
    if (a.expect_never)
      continue;
    SIM_CHECK(a.resumed == 1, "lost-task", "task %d was never resumed", i);
    (a.ok ? ok : cancelled)++;
  }
  // real-time order of pushes to one queue is the order of execution
  for (int i = 0; i < nrec; ++i)
    for (int j = 0; j < nrec; ++j) {
      Rec &a = recs[i], &b = recs[j];
      if (i == j || !a.resumed || !b.resumed || a.exec != b.exec || !(a.ret < b.inv))
        continue;
      bool same = (a.q >= 0 && a.q == b.q) || (a.ok && b.ok && a.thread >= 0 && a.thread == b.thread);
      if (!same)
        continue;
      SIM_CHECK(a.start < b.start, "fifo", "task %d was pushed before task %d to the same queue, but started after it", i, j);
      if (a.q >= 0 && a.q == b.q)
        SIM_CHECK(a.ok || !b.ok, "status", "task %d was cancelled, but task %d, pushed later to the same queue, ran", i, j);
    }
  // equal queue - equal thread
  for (int i = 0; i < nrec; ++i)
    for (int j = 0; j < i; ++j) {
      Rec &a = recs[i], &b = recs[j];
      if (a.resumed && b.resumed && a.ok && b.ok && a.exec == b.exec && a.q >= 0 && a.q == b.q && a.thread >= 0)
        SIM_CHECK(a.thread == b.thread, "queue-thread", "tasks %d and %d of one queue ran on workers %d and %d", j, i, b.thread, a.thread);
    }
  // lists: order, and contiguity if pushed as a whole
  for (int i = 0; i < nrec; ++i)
    for (int j = 0; j < nrec; ++j) {
      Rec &a = recs[i], &b = recs[j];
      if (a.list < 0 || a.list != b.list || !a.resumed || !b.resumed || a.lpos + 1 != b.lpos || !a.whole_list)
        continue;
      SIM_CHECK(a.start < b.start, "fifo", "list %d: element %d started after element %d", a.list, a.lpos, b.lpos);
      for (int k = 0; k < nrec; ++k) {
        Rec& c = recs[k];
        if (k != i && k != j && c.resumed && c.exec == a.exec && c.q >= 0 && c.q == a.q)
          SIM_CHECK(!(c.start > a.start && c.start < b.start), "list-split", "task %d ran between two consecutive elements of a list", k);
      }
    }
  if (ok)
    sim::probe("tasks run");
  if (cancelled)
    sim::probe("tasks cancelled");
  if (ok && cancelled)
    sim::probe("both run and cancelled");
  check_tokens();
}

// co_await wrapper which stamps invocation and return of the hand-over
template <typename A>
struct timed {
  A inner;
  int r;
  bool await_ready() {
    return inner.await_ready();
  }
  template <typename P>
  auto await_suspend(std::coroutine_handle<P> h) {
    int rr = r;
    invoke(rr);
    // the frame may be gone afterwards: only locals
    return call_then([&] { return inner.await_suspend(h); }, [&] { returned(rr); });
  }
  decltype(auto) await_resume() {
    return inner.await_resume();
  }
};
template <typename A>
timed(A&&, int) -> timed<A>;

struct Fate {
  int rec = -1;
  explicit Fate(int r) : rec(r) {
    sim::Quiet z;
    recs[r].callable = true;
  }
  Fate(Fate&& o) noexcept : rec(std::exchange(o.rec, -1)) {
  }
  ~Fate() {
    if (rec < 0)
      return;
    sim::Quiet z;
    if (!recs[rec].resumed)
      recs[rec].dropped = sim::now();
  }
};

// callable with identity; state must die exactly once
struct Call {
  int rec;
  Fate fate;
  Token tok;
  std::unique_ptr<Cell> cell;
  std::function<void(int)>* body;  // owned by the workload
  Call(int r, std::function<void(int)>* b) : rec(r), fate(r), tok(g_track.fresh()), cell(new Cell{scrambled(r)}), body(b) {
  }
  Call(Call&&) = default;
  void operator()() {
    begin(rec, true);
    SIM_CHECK(cell && cell->v == scrambled(rec), "corrupt", "callable %d: captured state is wrong", rec);
    cell->v++;
    if (body)
      (*body)(rec);
    end(rec);
  }
};

}  // namespace wl
