// Executors for workloads which are about something else: nothing is stopped while work is pending.
#pragma once
#include "common.h"

namespace wd {

struct World {
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> work;
  int nw = 0;
  std::thread::id ids[8];
  std::thread::id wid;
  bool allow_new_thread = true;
  int new_threads = 0;
};
inline World W;

inline void open(int nw, bool worker = true, bool allow_new_thread = true) {
  W.pool.emplace((size_t)nw);
  if (worker)
    W.work.emplace();
  sim::Quiet z;
  W.nw = nw;
  for (int i = 0; i < nw; ++i)
    W.ids[i] = W.pool->workers_range()[i].get_id();
  if (worker)
    W.wid = W.work->get_id();
  W.allow_new_thread = allow_new_thread;
}
// everything submitted has run, nobody is inside of the library: executors may die in any order
inline void close() {
  sim::quiesce();
  W.work.reset();
  W.pool.reset();
  sim::quiesce();
  SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left at the end", sim::live_threads() - 1);
}
inline bool on_pool() {
  sim::Quiet z;
  auto id = std::this_thread::get_id();
  for (int i = 0; i < W.nw; ++i)
    if (W.ids[i] == id)
      return true;
  return false;
}
inline bool on_worker() {
  sim::Quiet z;
  return std::this_thread::get_id() == W.wid;
}
// a new detached thread, bounded
inline bool may_new_thread() {
  sim::Quiet z;
  return W.allow_new_thread && W.new_threads < 8 && ++W.new_threads;
}
enum { H_NONE, H_POOL, H_STRAND, H_WORKER, H_NEW, H_INLINE, H_ANY, NH };
inline int draw_hop() {
  return sim::draw(NH);
}

// executor chosen at run time, checks nothing
struct Exec {
  int kind;
  void attach(dd::task_node* n) {
    switch (kind) {
      case H_POOL:
      case H_ANY:
        W.pool->attach(n);
        break;
      case H_STRAND:
        W.pool->get_strand(1).attach(n);
        break;
      case H_WORKER:
        W.work->attach(n);
        break;
      case H_NEW:
        if (may_new_thread())
          dd::new_thread_executor.attach(n);
        else
          W.pool->attach(n);
        break;
      default:
        dd::this_thread_executor.attach(n);
        break;
    }
  }
};

}  // namespace wd

// move the coroutine somewhere; the status must be ok because nobody stops anything
#define WD_HOP(k)                                                                                     \
  do {                                                                                                \
    bool hop_ok_ = true;                                                                              \
    switch (k) {                                                                                      \
      case wd::H_POOL:                                                                                \
        hop_ok_ = bool(co_await dd::jump_on(*wd::W.pool));                                            \
        SIM_CHECK(wd::on_pool(), "wrong-thread", "jump_on(pool) resumed on another thread");          \
        break;                                                                                        \
      case wd::H_STRAND: {                                                                            \
        auto hop_s_ = wd::W.pool->get_strand(1);                                                      \
        hop_ok_ = bool(co_await dd::jump_on(hop_s_));                                                 \
        SIM_CHECK(wd::on_pool(), "wrong-thread", "jump_on(strand) resumed on another thread");        \
        break;                                                                                        \
      }                                                                                               \
      case wd::H_WORKER:                                                                              \
        hop_ok_ = bool(co_await dd::jump_on(*wd::W.work));                                            \
        SIM_CHECK(wd::on_worker(), "wrong-thread", "jump_on(worker) resumed on another thread");      \
        break;                                                                                        \
      case wd::H_NEW:                                                                                 \
        if (wd::may_new_thread())                                                                     \
          hop_ok_ = bool(co_await dd::jump_on(dd::new_thread_executor));                              \
        break;                                                                                        \
      case wd::H_INLINE:                                                                              \
        hop_ok_ = bool(co_await dd::jump_on(dd::this_thread_executor));                               \
        break;                                                                                        \
      case wd::H_ANY: {                                                                               \
        dd::any_executor_ref hop_r_(*wd::W.work);                                                     \
        hop_ok_ = bool(co_await dd::jump_on(hop_r_));                                                 \
        SIM_CHECK(wd::on_worker(), "wrong-thread", "jump_on(any_executor_ref) resumed on another thread"); \
        break;                                                                                        \
      }                                                                                               \
      default:                                                                                        \
        sim::yield();                                                                                 \
        break;                                                                                        \
    }                                                                                                 \
    SIM_CHECK(hop_ok_, "spurious-cancel", "a hop was cancelled although nobody stopped the executor"); \
  } while (0)
