// channel: sequence, exceptions, hops on both sides, moves, swaps, abandonment.
#include "producers.h"

namespace {
template <typename Y>
dd::channel<Y> chan(int c, int i, Alive);
template <typename Y>
dd::channel_r<Y, Heap> chan_r(int c, int i, Alive, dd::with_resource<Heap>);

// ---- channels
#define SPECIAL                                                            \
  if (s.op == S_PART) {                                                    \
    auto x = chan<Y>(c, s.arg, Alive(c));                                  \
    bool any, value;                                                       \
    int id;                                                                \
    first_is(first_id(s.arg), any, value, id);                             \
    auto* p = co_await x.next();                                           \
    SIM_CHECK(!!p == (any && value), "sequence", "first value of a part"); \
    if (p)                                                                 \
      got(c, *p, id);                                                      \
    auto ex = x.take_exception();                                          \
    SIM_CHECK(!!ex == (any && !value), "exception", "exception of a part");\
    co_yield dd::elements_of(x);                                           \
  }                                                                        \
  if (s.op == S_GEN)                                                       \
    co_yield dd::elements_of(gen<Y>(c, s.arg, Alive(c)));                  \
  if (s.op == S_OTHER) {                                                   \
    if constexpr (std::is_same_v<Y, Item>)                                 \
      co_yield dd::elements_of(chan<int>(c, s.arg, Alive(c)));             \
    else if constexpr (std::is_same_v<Y, int>)                             \
      co_yield dd::elements_of(gen<Y>(c, s.arg, Alive(c)));                \
  }
template <typename Y>
dd::channel<Y> chan(int c, int i, Alive a) {
  PRODUCER_BODY(chan, WD_HOP(s.arg);)
}
template <typename Y>
dd::channel_r<Y, Heap> chan_r(int c, int i, Alive a, dd::with_resource<Heap>) {
  PRODUCER_BODY(chan, WD_HOP(s.arg);)
}
#undef SPECIAL

// ------------------------------------------------------------------ consumer
enum { A_NEXT, A_LOOP, A_SWAP, A_MOVE, A_HOP, A_CLEAR, A_RESET, A_RELEASE, A_THROW, A_FOREACH, A_LOOP_SWAP, A_ASSIGN, NACT };
struct Act {
  int kind, obj, n, hop;
  bool sub = false;
};
struct Obj {
  int content = -1;   // -1: empty
  int pos = 0;        // events seen
  bool at_value = false;
};
struct Consumer {
  std::vector<Act> acts;
  int first = 0;      // contents first, first + 1
  bool drain = true;
  bool res = false;   // frames come from a resource
  int done = 0;
};
struct Stop {};

const Ev* next_event(Obj& o) {
  if (o.content < 0)
    return nullptr;
  auto& v = *cont[o.content].ev;
  return o.pos < (int)v.size() ? &v[o.pos] : nullptr;
}
// a step of object o ended with a value (or not)
template <typename I>
void check_step(Obj& o, I* p) {
  const Ev* e = sim::quiet([&] { return next_event(o); });
  if (!p) {
    SIM_CHECK(!e || !e->value, "sequence", "content %d ended before value %d", o.content, e->id);
    o.at_value = false;
    return;
  }
  SIM_CHECK(e && e->value, "sequence", "content %d: value %d after the end", o.content, p->v);
  SIM_CHECK(to_consumer[e->id].v == scrambled(e->id), "visibility", "the consumer does not see what the producer wrote before value %d", e->id);
  SIM_CHECK(cont[o.content].emitted == e->emitted, "lazy", "content %d: %d values computed, %d asked for", o.content, cont[o.content].emitted,
            e->emitted);
  got(o.content, *p, e->id);
  o.at_value = true;
  o.pos++;
}
// a segment ended without a value: exception or the real end
void check_end(Obj& o, bool threw, int id, bool empty) {
  const Ev* e = sim::quiet([&] { return next_event(o); });
  if (e && !e->value) {
    SIM_CHECK(threw, "exception", "content %d: exception %d did not reach the consumer", o.content, e->id);
    SIM_CHECK(id == e->id, "exception", "content %d: exception %d instead of %d", o.content, id, e->id);
    o.pos++;
    sim::probe("exception reached the consumer");
  } else {
    SIM_CHECK(!threw, "exception", "content %d: exception %d reached the consumer again or from nowhere", o.content, id);
    SIM_CHECK(empty, "sequence", "content %d is not empty at its end", o.content);
  }
}
int err_id(std::exception_ptr p) {
  try {
    std::rethrow_exception(p);
  } catch (const Err& e) {
    return e.id;
  } catch (...) {
    return -77;
  }
}
void emptied(Obj& o) {
  if (o.content >= 0)
    SIM_CHECK(cont[o.content].frames == 0, "object-leak", "%d producers of content %d outlived the clearing", cont[o.content].frames, o.content);
  o = Obj{};
}

// the next step is asked for by another coroutine than the one before
template <typename Y>
dd::task<void> step_elsewhere(dd::channel_iterator<Y>& it, int hop) {
  WD_HOP(hop);
  co_await ++it;
}
template <typename Y>
dd::task<std::add_pointer_t<Y>> next_elsewhere(dd::channel<Y>& c, int hop) {
  WD_HOP(hop);
  co_return co_await c.next();
}

template <typename Y>
dd::task<void> consumer(Consumer& me) {
  dd::channel<Y> obj[2];
  Obj st[2];
  for (int i = 0; i < 2; ++i) {
    if (me.res)
      obj[i] = chan_r<Y>(me.first + i, cont[me.first + i].root, Alive(me.first + i), Heap{&res_live}).decay();
    else
      obj[i] = chan<Y>(me.first + i, cont[me.first + i].root, Alive(me.first + i));
    st[i].content = me.first + i;
  }
  try {
    for (size_t a = 0; a <= me.acts.size(); ++a) {
      bool last = a == me.acts.size();
      if (last && !me.drain)
        break;
      Act act = last ? Act{A_LOOP, 0, 1000, 0} : me.acts[a];
      for (int rep = 0; rep < (last ? 2 : 1); ++rep) {
        int o = last ? rep : act.obj;
        bool more = last;
        do {
          switch (act.kind) {
            case A_NEXT: {
              std::add_pointer_t<Y> p;
              if (act.sub)
                p = co_await next_elsewhere<Y>(obj[o], act.hop);
              else
                p = co_await obj[o].next();
              check_step(st[o], p);
              if (!p) {
                // an exception nobody took yet stays with its channel
                if (act.n == 1) {
                  dd::channel<Y> t(std::move(obj[o]));
                  SIM_CHECK(!obj[o].take_exception(), "exception", "a moved-from channel has an exception");
                  obj[o] = std::move(t);
                } else if (act.n == 2) {
                  swap(obj[0], obj[1]);
                  std::swap(st[0], st[1]);
                  SIM_CHECK(!obj[o].take_exception(), "exception", "an exception stays behind");
                  o = 1 - o;
                } else if (act.n == 3 && next_event(st[o])) {
                  auto h = obj[o].release();
                  SIM_CHECK(!obj[o].raw_handle(), "empty", "a released channel has a handle");
                  obj[o].reset(h);
                  SIM_CHECK(obj[o].raw_handle() == h, "empty", "a channel after reset");
                }
                auto ex = obj[o].take_exception();
                check_end(st[o], !!ex, ex ? err_id(ex) : 0, obj[o].empty());
                SIM_CHECK(!obj[o].take_exception(), "exception", "an exception was taken twice");
              }
              break;
            }
            case A_LOOP:
            case A_LOOP_SWAP: {
              bool threw = false, at_end = false, other = false;
              int id = 0;
              int n = act.n;
              int swap_at = act.kind == A_LOOP_SWAP ? n / 2 : -1;
              try {
                auto it = co_await obj[o].begin();
                check_step(st[o], it == obj[o].end() ? nullptr : it.operator->());
                if (it != obj[o].end())
                  SIM_CHECK(&it.owner() == &obj[o] && it.equivalent(dd::channel_iterator<Y>(obj[o])) &&
                                !it.equivalent(dd::channel_iterator<Y>(obj[1 - o])),
                            "iterator", "owner of an iterator");
                for (int k = 0; it != obj[o].end(); ++k) {
                  if (k == swap_at) {
                    // the iterator stays with its object and continues with the other content
                    obj[o].swap(obj[1 - o]);
                    std::swap(st[o], st[1 - o]);
                    SIM_CHECK((it == obj[o].end()) == !st[o].at_value, "iterator", "iterator after a swap");
                    if (obj[o].empty() || it == obj[o].end()) {
                      other = true;  // not started yet, or ended before
                      break;
                    }
                    sim::probe("swapped in the middle of a loop");
                  }
                  if (k >= n)
                    break;
                  if (act.hop)
                    WD_HOP(act.hop);
                  if (act.sub && (k & 1))
                    co_await step_elsewhere<Y>(it, act.hop);
                  else
                    co_await ++it;
                  check_step(st[o], it == obj[o].end() ? nullptr : it.operator->());
                }
                at_end = !other && it == obj[o].end();
              } catch (const Err& e) {
                threw = true;
                at_end = true;
                id = e.id;
              }
              if (at_end && !st[o].at_value)
                check_end(st[o], threw, id, obj[o].empty());
              else
                SIM_CHECK(!threw, "exception", "exception %d although the loop was left at a value", id);
              break;
            }
            case A_FOREACH: {
              int k = 0;
              bool threw = false, left = false;
              int id = 0;
              try {
                co_foreach(auto&& x, obj[o]) {
                  check_step(st[o], std::addressof(x));
                  if (act.hop)
                    WD_HOP(act.hop);
                  if (++k > act.n) {
                    left = true;
                    break;
                  }
                }
                if (!left)
                  st[o].at_value = false;
              } catch (const Err& e) {
                threw = true;
                id = e.id;
                st[o].at_value = false;
              }
              if (!left)
                check_end(st[o], threw, id, obj[o].empty());
              break;
            }
            case A_SWAP:
              swap(obj[0], obj[1]);
              std::swap(st[0], st[1]);
              break;
            case A_MOVE: {
              dd::channel<Y> t(std::move(obj[o]));
              SIM_CHECK(obj[o].empty() && !obj[o], "empty", "a moved-from channel is not empty");
              SIM_CHECK((t == obj[o]) == t.empty() && t == t && bool(t) == !t.empty(), "empty", "comparison with a moved-from channel");
              {
                auto it = co_await obj[o].begin();
                SIM_CHECK(it == obj[o].end(), "empty", "a moved-from channel is not an empty range");
              }
              obj[o] = std::move(t);
              break;
            }
            case A_ASSIGN:
              obj[1 - o] = std::move(obj[o]);  // exchanges or destroys what was there
              std::swap(st[0], st[1]);
              if (obj[o].empty() && next_event(st[o]))
                emptied(st[o]);
              SIM_CHECK(st[1 - o].content >= 0 || obj[1 - o].empty(), "empty", "a channel is not empty after an empty one was assigned to it");
              sim::probe("assigned");
              break;
            case A_HOP:
              WD_HOP(act.hop);
              break;
            case A_CLEAR: {
              obj[o].clear();
              emptied(st[o]);
              SIM_CHECK(obj[o].empty(), "empty", "a cleared channel is not empty");
              {
                auto it = co_await obj[o].begin();
                SIM_CHECK(it == obj[o].end(), "empty", "a cleared channel is not an empty range");
              }
              SIM_CHECK(!co_await obj[o].next(), "empty", "a cleared channel has a next value");
              sim::probe("cleared");
              break;
            }
            case A_RESET: {
              auto h = obj[o].release();
              SIM_CHECK(obj[o].empty(), "empty", "a released channel is not empty");
              {
                auto it = co_await obj[o].begin();
                SIM_CHECK(it == obj[o].end(), "empty", "a released channel is not an empty range");
              }
              if (act.n & 1) {
                // into the other one, which loses its own
                obj[1 - o].reset(h);
                emptied(st[1 - o]);
                std::swap(st[0], st[1]);
                st[1 - o].at_value = false;
              } else {
                obj[o].reset(h);
                st[o].at_value = false;
              }
              break;
            }
            case A_RELEASE: {
              auto h = obj[o].release();
              if (h)
                h.destroy();
              emptied(st[o]);
              SIM_CHECK(!co_await obj[o].next(), "empty", "a released channel has a next value");
              break;
            }
            case A_THROW:
              throw Stop{};
          }
          if (last)
            more = !obj[o].empty();
        } while (more);
        if (last)
          SIM_CHECK(!next_event(st[o]), "sequence", "content %d ended too early", st[o].content);
      }
    }
  } catch (const Stop&) {
    sim::probe("consumer failed");
  }
  for (int i = 0; i < 2; ++i) {
    obj[i].clear();
    emptied(st[i]);
  }
  sim::quiet([&] { me.done++; });
}
template dd::task<void> consumer<Item>(Consumer&);

void run(bool ref) {
  nn = next_id = res_live = 0;
  int nc = 1 + sim::draw(2);
  Consumer cs[2];
  for (int i = 0; i < nc; ++i) {
    cs[i].first = 2 * i;
    make_content(2 * i, true, ref, 2 + often(1, 12));
    make_content(2 * i + 1, true, ref, 1);
    int na = sim::draw(7);
    for (int a = 0; a < na; ++a)
      cs[i].acts.push_back({(int)sim::draw(NACT), (int)sim::draw(2), (int)sim::draw(5), sim::draw(2) ? wd::draw_hop() : 0, sim::chance(1, 3)});
    cs[i].drain = !sim::chance(1, 4);
    cs[i].res = sim::chance(1, 3);
  }
  int how[2] = {(int)sim::draw(2), (int)sim::draw(2)};
  std::vector<Cell> a(next_id + 1), b(next_id + 1);
  to_consumer = a.data();
  to_producer = b.data();
  wd::open(1 + sim::draw(2));
  {
    auto go = [&](int i) {
      auto t = ref ? consumer<Item&>(cs[i]) : consumer<Item>(cs[i]);
      if (how[i])
        t.get();
      else
        t.start_and_detach();
    };
    if (nc == 2) {
      std::thread t([&] { go(1); });
      go(0);
      t.join();
    } else
      go(0);
    sim::quiesce();
    for (int i = 0; i < nc; ++i)
      SIM_CHECK(cs[i].done == 1, "lost", "consumer %d did not finish", i);
    SIM_CHECK(res_live == 0, "resource-leak", "%d frames of resourced channels", res_live);
  }
  wd::close();
  free_contents(2 * nc);
}
}  // namespace

SIM_SCENARIO(channel_values, 2, "channels of values: nested channels, ranges and generators, hops on both sides, exceptions, moves and swaps") {
  run(false);
}
SIM_SCENARIO(channel_refs, 1, "channels of references") {
  run(true);
}
