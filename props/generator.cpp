// generator and inplace_generator: sequence, laziness, exceptions, abandonment, moves; consumed from coroutines which change threads.
#include "producers.h"

namespace {
enum { A_BEGIN, A_LOOP, A_SWAP, A_MOVE, A_HOP, A_CLEAR, A_RESET, A_RELEASE, A_THROW, A_FOREACH, A_LOOP_SWAP, A_OUT, A_CUR, A_ASSIGN, NACT };
struct Act {
  int kind, obj, n, hop;
};
struct Obj {
  int content = -1;  // -1: empty
  int pos = 0;       // events seen
  bool at_value = false;
};
struct Consumer {
  std::vector<Act> acts;
  int first = 0;  // contents first, first + 1
  bool drain = true;
  bool res = false;
  int done = 0;
};
struct Stop {};

const Ev* next_event(Obj& o) {
  if (o.content < 0)
    return nullptr;
  auto& v = *cont[o.content].ev;
  return o.pos < (int)v.size() ? &v[o.pos] : nullptr;
}
template <typename I>
void check_step(Obj& o, I* p) {
  const Ev* e = sim::quiet([&] { return next_event(o); });
  o.at_value = false;
  if (!p) {
    SIM_CHECK(!e || !e->value, "sequence", "content %d ended before value %d", o.content, e->id);
    return;
  }
  SIM_CHECK(e && e->value, "sequence", "content %d: value %d after the end", o.content, p->v);
  SIM_CHECK(to_consumer[e->id].v == scrambled(e->id), "visibility", "the consumer does not see what the producer wrote before value %d", e->id);
  SIM_CHECK(cont[o.content].emitted == e->emitted, "lazy", "content %d: %d values computed, %d asked for", o.content, cont[o.content].emitted,
            e->emitted);
  got(o.content, *p, e->id);
  o.at_value = true;
  o.pos++;
}
void check_end(Obj& o, bool threw, int id, bool empty) {
  const Ev* e = sim::quiet([&] { return next_event(o); });
  o.at_value = false;
  if (e && !e->value) {
    SIM_CHECK(threw, "exception", "content %d: exception %d did not reach the consumer", o.content, e->id);
    SIM_CHECK(id == e->id, "exception", "content %d: exception %d instead of %d", o.content, id, e->id);
    o.pos++;
    sim::probe("exception reached the consumer");
  } else {
    SIM_CHECK(!threw, "exception", "content %d: exception %d reached the consumer again or from nowhere", o.content, id);
    SIM_CHECK(empty, "sequence", "content %d is not empty at its end", o.content);
  }
}
void emptied(Obj& o) {
  if (o.content >= 0)
    SIM_CHECK(cont[o.content].frames == 0, "object-leak", "%d producers of content %d outlived the clearing", cont[o.content].frames, o.content);
  o = Obj{};
}
template <typename Y>
void must_be_empty(dd::generator<Y>& g, const char* what) {
  SIM_CHECK(g.empty() && !g, "empty", "a %s generator is not empty", what);
  auto it = g.begin();
  SIM_CHECK(it == g.end(), "empty", "a %s generator is not an empty range", what);
  for (auto&& x : g) {
    (void)x;
    sim::fail("empty", "a %s generator yields", what);
  }
}
// one step: begin, or ++ of the iterator
template <typename Y, typename F>
bool step(Obj& o, dd::generator<Y>& g, F&& f) {
  bool threw = false;
  int id = 0;
  try {
    f();
  } catch (const Err& e) {
    threw = true;
    id = e.id;
  }
  dd::generator_iterator<Y> it(g);
  if (it != g.end()) {
    SIM_CHECK(!threw, "exception", "exception %d together with a value", id);
    check_step(o, it.operator->());
    return true;
  }
  if (!threw)
    check_step(o, decltype(it.operator->())());
  check_end(o, threw, id, g.empty());
  return false;
}

template <typename Y>
dd::task<void> consumer(Consumer& me) {
  dd::generator<Y> obj[2];
  Obj st[2];
  for (int i = 0; i < 2; ++i) {
    int c = me.first + i;
    if (me.res)
      obj[i] = gen_r<Y>(c, cont[c].root, Alive(c), Heap{&res_live}).decay();
    else
      obj[i] = gen<Y>(c, cont[c].root, Alive(c));
    st[i].content = c;
    SIM_CHECK(cont[c].emitted == 0, "lazy", "content %d runs before it is asked for", c);
  }
  try {
    for (size_t a = 0; a <= me.acts.size(); ++a) {
      bool last = a == me.acts.size();
      if (last && !me.drain)
        break;
      Act act = last ? Act{A_LOOP, 0, 1000, 0} : me.acts[a];
      for (int rep = 0; rep < (last ? 2 : 1); ++rep) {
        int o = last ? rep : act.obj;
        auto& g = obj[o];
        auto& s = st[o];
        bool more = last;
        do {
          switch (act.kind) {
            case A_BEGIN:
              step(s, g, [&] { (void)g.begin(); });
              break;
            case A_LOOP:
            case A_LOOP_SWAP: {
              int n = act.n;
              int swap_at = act.kind == A_LOOP_SWAP ? n / 2 : -1;
              bool go = step(s, g, [&] { (void)g.begin(); });
              dd::generator_iterator<Y> it(g);
              SIM_CHECK(&it.owner() == &g && it.equivalent(dd::generator_iterator<Y>(g)) && !it.equivalent(dd::generator_iterator<Y>(obj[1 - o])),
                        "iterator", "owner of an iterator");
              for (int k = 0; go; ++k) {
                if (k == swap_at) {
                  g.swap(obj[1 - o]);
                  std::swap(st[0], st[1]);
                  SIM_CHECK((it == g.end()) == !s.at_value, "iterator", "iterator after a swap");
                  if (g.empty() || it == g.end())
                    break;
                  sim::probe("swapped in the middle of a loop");
                }
                if (k >= n)
                  break;
                if (act.hop)
                  WD_HOP(act.hop);
                if (k & 1)
                  go = step(s, g, [&] { it++; });
                else
                  go = step(s, g, [&] { ++it; });
              }
              break;
            }
            case A_FOREACH: {
              int k = 0;
              bool threw = false, left = false;
              int id = 0;
              try {
                for (auto&& x : g) {
                  check_step(s, std::addressof(x));
                  if (act.hop)
                    WD_HOP(act.hop);
                  if (++k > act.n) {
                    left = true;
                    break;
                  }
                }
              } catch (const Err& e) {
                threw = true;
                id = e.id;
              }
              if (!left)
                check_end(s, threw, id, g.empty());
              break;
            }
            case A_OUT:
              // the iterator as an output iterator: what is assigned reaches a producer which yields by reference
              if constexpr (std::is_reference_v<Y>) {
                const Ev* e = sim::quiet([&] { return next_event(s); });
                if (!e || !e->value)
                  break;
                auto it = g.begin().out();
                bool go = true;
                for (int k = 0; go; ++k) {
                  e = sim::quiet([&] { return next_event(s); });
                  if (k && (!e || !e->value)) {  // ended, or the body failed
                    break;
                  }
                  SIM_CHECK(e && e->value && it != g.end() && (*it).v == e->id, "sequence", "output iterator: value %d instead of %d", (*it).v,
                            e ? e->id : -1);
                  SIM_CHECK(to_consumer[e->id].v == scrambled(e->id), "visibility", "output iterator");
                  SIM_CHECK(cont[s.content].emitted == e->emitted, "lazy", "output iterator: %d values computed, %d asked for",
                            cont[s.content].emitted, e->emitted);
                  Item y(~e->id);
                  *it = std::move(y);
                  to_producer[e->id].v = scrambled(~e->id);
                  s.at_value = true;
                  s.pos++;
                  if (k >= act.n)
                    break;
                  bool threw = false;
                  int id = 0;
                  s.at_value = false;
                  try {
                    if (k & 1)
                      it++;
                    else
                      SIM_CHECK(&++it == &it, "iterator", "++ of an output iterator");
                  } catch (const Err& x) {
                    threw = true;
                    id = x.id;
                  }
                  if (it == g.end()) {
                    check_end(s, threw, id, g.empty());
                    go = false;
                  } else
                    SIM_CHECK(!threw, "exception", "exception %d together with a value", id);
                }
                sim::probe("output iterator");
              }
              break;
            case A_CUR:
              if (g.raw_handle()) {
                auto it = g.cur_iterator();
                SIM_CHECK((it != g.end()) == s.at_value, "iterator", "cur_iterator of a generator which is %sat a value", s.at_value ? "" : "not ");
                if (!g.empty())
                  step(s, g, [&] { ++it; });
              }
              break;
            case A_SWAP:
              swap(obj[0], obj[1]);
              std::swap(st[0], st[1]);
              break;
            case A_MOVE: {
              dd::generator<Y> t(std::move(g));
              must_be_empty(g, "moved-from");
              SIM_CHECK(bool(t) == !t.empty() && (t == g) == t.empty() && t == t, "empty", "comparison with a moved-from generator");
              if (s.at_value)
                SIM_CHECK(t.cur_iterator() != t.end(), "iterator", "a moved generator forgot its value");
              if (act.n & 1)
                step(s, t, [&] { (void)t.begin(); });
              g = std::move(t);
              break;
            }
            case A_ASSIGN:
              obj[1 - o] = std::move(g);  // exchanges or destroys what was there
              std::swap(st[0], st[1]);
              if (g.empty() && next_event(s))
                emptied(s);
              SIM_CHECK(st[1 - o].content >= 0 || obj[1 - o].empty(), "empty", "a generator is not empty after an empty one was assigned to it");
              break;
            case A_HOP:
              WD_HOP(act.hop);
              break;
            case A_CLEAR:
              g.clear();
              emptied(s);
              must_be_empty(g, "cleared");
              sim::probe("cleared");
              break;
            case A_RESET: {
              auto h = g.release();
              must_be_empty(g, "released");
              if (act.n & 1) {
                // into the other one, which loses its own
                obj[1 - o].reset(h);
                emptied(st[1 - o]);
                std::swap(st[0], st[1]);
                st[1 - o].at_value = false;
              } else {
                g.reset(h);
                s.at_value = false;
              }
              sim::probe("reset");
              break;
            }
            case A_RELEASE: {
              auto h = g.release();
              must_be_empty(g, "released");
              if (h)
                h.destroy();
              emptied(s);
              break;
            }
            case A_THROW:
              throw Stop{};
          }
          if (last)
            more = !g.empty();
        } while (more);
        if (last) {
          SIM_CHECK(!next_event(s), "sequence", "content %d ended too early", s.content);
          if (s.content >= 0)
            must_be_empty(g, "finished");
        }
      }
    }
  } catch (const Stop&) {
    sim::probe("consumer failed");
  }
  for (int i = 0; i < 2; ++i) {
    obj[i].clear();
    emptied(st[i]);
  }
  sim::quiet([&] { me.done++; });
}

void run(bool ref) {
  nn = next_id = res_live = 0;
  int nc = 1 + sim::draw(2);
  Consumer cs[2];
  for (int i = 0; i < nc; ++i) {
    cs[i].first = 2 * i;
    make_content(2 * i, false, ref, 2 + often(1, 12));
    make_content(2 * i + 1, false, ref, 1);
    int na = sim::draw(9);
    for (int a = 0; a < na; ++a)
      cs[i].acts.push_back({(int)sim::draw(NACT), (int)sim::draw(2), (int)sim::draw(5), sim::draw(2) ? wd::draw_hop() : 0});
    cs[i].drain = !sim::chance(1, 4);
    cs[i].res = sim::chance(1, 3);
  }
  int how[2] = {(int)sim::draw(2), (int)sim::draw(2)};
  std::vector<Cell> a(next_id + 1), b(next_id + 1);
  to_consumer = a.data();
  to_producer = b.data();
  wd::open(1 + sim::draw(2));
  {
    auto go = [&](int i) {
      auto t = ref ? consumer<Item&>(cs[i]) : consumer<Item>(cs[i]);
      if (how[i])
        t.get();
      else
        t.start_and_detach();
    };
    if (nc == 2) {
      std::thread t([&] { go(1); });
      go(0);
      t.join();
    } else
      go(0);
    sim::quiesce();
    for (int i = 0; i < nc; ++i)
      SIM_CHECK(cs[i].done == 1, "lost", "consumer %d did not finish", i);
    SIM_CHECK(res_live == 0, "resource-leak", "%d frames of resourced generators", res_live);
  }
  wd::close();
  free_contents(2 * nc);
}
}  // namespace

SIM_SCENARIO(generator_values, 2, "generators of values: nested generators and ranges, exceptions, moves, swaps, clearing; consumers change threads") {
  run(false);
}
SIM_SCENARIO(generator_refs, 1, "generators of references") {
  run(true);
}

// ------------------------------------------------------------------ generator<nothing_t>
namespace {
struct NPlan {
  int kind[6], arg[6], n;
};
NPlan nplan[6];
int nsteps, nframes, nthrows;
struct NAlive {
  NAlive() {
    sim::quiet([&] { nframes++; });
  }
  ~NAlive() {
    sim::quiet([&] { nframes--; });
  }
};
dd::generator<dd::nothing_t> ngen(int i) {
  NAlive alive;
  std::unique_ptr<Cell> c(new Cell{i});
  for (int k = 0; k < nplan[i].n; ++k) {
    switch (nplan[i].kind[k]) {
      case 0:
        sim::quiet([&] { nsteps++; });
        co_yield {};
        break;
      case 1:
        co_yield dd::elements_of(ngen(nplan[i].arg[k]));
        break;
      case 2:
        throw Err{i};
    }
    SIM_CHECK(c->v == i, "corrupt", "frame of generator %d", i);
  }
}
// number of values up to every exception / the end
bool nmodel(int i, std::vector<int>& segs) {
  for (int k = 0; k < nplan[i].n; ++k)
    switch (nplan[i].kind[k]) {
      case 0:
        segs.back()++;
        break;
      case 1:
        nmodel(nplan[i].arg[k], segs);
        break;
      case 2:
        segs.push_back(0);
        return false;
    }
  return true;
}
}  // namespace
SIM_SCENARIO(generator_nothing, 1, "generators which yield nothing but steps") {
  int n = 1 + sim::draw(4);
  for (int i = n - 1; i >= 0; --i) {
    nplan[i].n = sim::draw(6);
    for (int k = 0; k < nplan[i].n; ++k) {
      int kind = sim::draw(4);
      if (kind == 3)
        kind = 0;
      if (kind == 1 && i == n - 1)
        kind = 0;
      if (kind == 2 && sim::draw(2))
        kind = 0;
      nplan[i].kind[k] = kind;
      nplan[i].arg[k] = kind == 1 ? i + 1 + sim::draw(n - 1 - i) : 0;
    }
  }
  int stop_after = sim::draw(2) ? 1000 : sim::draw(8);
  int mv = sim::draw(3);
  nsteps = nframes = 0;
  std::vector<int>* segs = sim::quiet([&] {
    auto* s = new std::vector<int>{0};
    nmodel(0, *s);
    return s;
  });
  int total = 0;
  {
    dd::generator<dd::nothing_t> g = ngen(0), other;
    SIM_CHECK(nframes == 0, "lazy", "a generator runs before it is asked");
    for (size_t s = 0; s < segs->size() && total < stop_after; ++s) {
      int cnt = 0;
      bool threw = false, left = false;
      try {
        for (auto&& x : g) {
          (void)x;
          ++cnt;
          SIM_CHECK(nsteps == ++total, "lazy", "%d steps computed, %d asked for", nsteps, total);
          if (total >= stop_after) {
            left = true;
            break;
          }
        }
      } catch (const Err&) {
        threw = true;
      }
      if (left)
        break;
      SIM_CHECK(cnt == (*segs)[s], "sequence", "%d steps instead of %d", cnt, (*segs)[s]);
      SIM_CHECK(threw == (s + 1 < segs->size()), "exception", "exception %s", threw ? "invented" : "lost");
      if (mv == 1) {
        other = std::move(g);
        g = std::move(other);
      } else if (mv == 2) {
        dd::generator<dd::nothing_t> t(std::move(g));
        swap(t, g);
      }
    }
    if (stop_after == 1000)
      SIM_CHECK(g.empty(), "sequence", "not empty at its end");
    auto h = g.release();
    SIM_CHECK(g.empty() && g.begin() == g.end(), "empty", "a released generator is not an empty range");
    g.reset(h);
    g.clear();
    SIM_CHECK(g.empty() && g.begin() == g.end(), "empty", "a cleared generator is not an empty range");
    SIM_CHECK(other.begin() == other.end(), "empty", "a default constructed generator is not an empty range");
    for (auto&& x : other) {
      (void)x;
      sim::fail("empty", "a default constructed generator yields");
    }
  }
  SIM_CHECK(nframes == 0, "object-leak", "%d generators left", nframes);
  sim::quiet([&] { delete segs; });
}

// ------------------------------------------------------------------ inplace_generator
namespace {
struct IPlan {
  int n = 0, fail_at = -1;
  int kind[20] = {};
};
struct ISt {
  int steps = 0, frames = 0;
};
struct IAlive {
  ISt* s;
  explicit IAlive(ISt* s) : s(s) {
    sim::quiet([&] { s->frames++; });
  }
  IAlive(IAlive&& o) noexcept : s(std::exchange(o.s, nullptr)) {
  }
  ~IAlive() {
    if (s)
      sim::quiet([&] {
        s->frames--;
        SIM_CHECK(s->frames >= 0, "destroyed-twice", "frame of an inplace_generator");
      });
  }
};
dd::inplace_generator<Item> igen(IPlan p, ISt* st, IAlive) {
  std::unique_ptr<Cell> c(new Cell{p.n});
  for (int k = 0; k <= p.n; ++k) {
    if (k == p.fail_at)
      throw Err{k};
    if (k == p.n)
      break;
    sim::quiet([&] { st->steps++; });
    if (p.kind[k] == 0)
      co_yield Item(k);
    else if (p.kind[k] == 1) {
      const Item x(k);
      co_yield x;
      SIM_CHECK(x.v == k && x.good(), "corrupt", "a const value was changed");
    } else {
      Item x(k);
      co_yield dd::by_ref{x};
      SIM_CHECK(x.v == ~k && x.good(), "by-ref", "the producer does not see what the consumer did to value %d", k);
    }
    SIM_CHECK(c->v == p.n, "corrupt", "frame of an inplace_generator");
  }
}
struct IObj {
  int which = -1;  // -1: empty
  int pos = 0;
  bool fresh = true;  // the value at pos was not looked at
};
}  // namespace
SIM_SCENARIO(inplace_generator_mixed, 1, "inplace_generator: sequence, exceptions, moves, abandonment; the consumer changes threads") {
  IPlan plan[2];
  ISt st[2];
  for (auto& p : plan) {
    p.n = often(6, 20);
    for (int& k : p.kind)
      k = sim::draw(3);
    if (sim::chance(1, 3))
      p.fail_at = sim::draw(p.n + 1);
  }
  struct A {
    int kind, obj, n;
  };
  A acts[8];
  int na = sim::draw(9);
  for (int a = 0; a < na; ++a)
    acts[a] = {(int)sim::draw(7), (int)sim::draw(2), (int)sim::draw(4)};
  {
    try {
      // the frame cannot be allocated: nothing starts
      sim::AllocFaults f;
      auto x = igen(plan[0], &st[0], IAlive(&st[0]));
      sim::NoFaults nf;
      SIM_CHECK(st[0].steps == (plan[0].n > 0), "eager", "%d values computed at creation", st[0].steps);
    } catch (const std::bad_alloc&) {
      sim::probe("creation failed");
    } catch (const Err& e) {
      SIM_CHECK(plan[0].fail_at == 0 && e.id == 0, "exception", "exception %d at creation", e.id);
    }
    SIM_CHECK(st[0].frames == 0, "object-leak", "%d frames", st[0].frames);
    st[0] = ISt{};
    for (int i = 0; i < 2; ++i)
      if (plan[i].fail_at == 0) {
        bool threw = false;
        try {
          auto x = igen(plan[i], &st[i], IAlive(&st[i]));
        } catch (const Err& e) {
          threw = true;
        }
        SIM_CHECK(threw, "exception", "an exception before the first value is lost");
        SIM_CHECK(st[i].frames == 0 && st[i].steps == 0, "object-leak", "an inplace_generator whose creation failed");
        plan[i].fail_at = -1;
        sim::probe("failed before the first value");
      }
    dd::inplace_generator<Item> g[2] = {igen(plan[0], &st[0], IAlive(&st[0])), igen(plan[1], &st[1], IAlive(&st[1]))};
    IObj o[2];
    for (int i = 0; i < 2; ++i) {
      o[i].which = i;
      SIM_CHECK(st[i].steps == (plan[i].n > 0), "eager", "%d values computed at creation", st[i].steps);
    }
    // looks at the current value and goes one step
    auto look = [&](int i) {
      IObj& x = o[i];
      auto it = g[i].begin();
      if (x.which < 0) {
        SIM_CHECK(g[i].empty() && it == g[i].end(), "empty", "an emptied inplace_generator is not an empty range");
        return false;
      }
      IPlan& p = plan[x.which];
      bool end = x.pos >= p.n || (p.fail_at >= 0 && x.pos >= p.fail_at);
      SIM_CHECK((it == g[i].end()) == end && g[i].empty() == end && bool(g[i]) == !end, "sequence", "inplace_generator %s after %d values",
                end ? "goes on" : "ended", x.pos);
      if (end)
        return false;
      SIM_CHECK(st[x.which].steps == x.pos + 1, "lazy", "%d values computed, %d asked for", st[x.which].steps, x.pos + 1);
      if (x.fresh) {
        SIM_CHECK(it->v == x.pos && it->good(), "sequence", "value %d instead of %d", it->v, x.pos);
        auto&& v = *it;
        v.mutate();
        x.fresh = false;
      } else
        SIM_CHECK((*it).v == ~x.pos && (*it).good(), "sequence", "the value changed before it was asked for the next");
      return true;
    };
    auto advance = [&](int i) {
      if (!look(i))
        return false;
      IObj& x = o[i];
      IPlan& p = plan[x.which];
      bool threw = false;
      auto it = g[i].begin();
      try {
        if (x.pos & 1)
          it++;
        else
          ++it;
      } catch (const Err& e) {
        threw = true;
        SIM_CHECK(e.id == x.pos + 1, "exception", "exception %d", e.id);
      }
      x.pos++;
      x.fresh = true;
      SIM_CHECK(threw == (p.fail_at == x.pos), "exception", "exception %s", threw ? "invented" : "lost");
      return true;
    };
    for (int a = 0; a < na; ++a) {
      int i = acts[a].obj;
      switch (acts[a].kind) {
        case 0:
          look(i);
          break;
        case 1:
          for (int k = 0; k <= acts[a].n; ++k)
            advance(i);
          break;
        case 2:
          swap(g[0], g[1]);
          std::swap(o[0], o[1]);
          break;
        case 3: {
          dd::inplace_generator<Item> t(std::move(g[i]));
          IObj keep = std::exchange(o[i], IObj{});
          look(i);
          g[i] = std::move(t);
          o[i] = keep;
          break;
        }
        case 4: {
          std::thread t([&] { advance(i); });
          t.join();
          break;
        }
        case 5: {
          // abandoned
          {
            dd::inplace_generator<Item> t(std::move(g[i]));
          }
          if (o[i].which >= 0)
            SIM_CHECK(st[o[i].which].frames == 0, "object-leak", "%d frames of an abandoned inplace_generator", st[o[i].which].frames);
          o[i] = IObj{};
          look(i);
          break;
        }
        case 6: {
          // assigned over whatever is there: goes on where the other one was; what was there is destroyed or changes places
          IObj old = std::exchange(o[i], o[1 - i]);
          g[i] = std::move(g[1 - i]);
          o[1 - i] = old.which >= 0 && st[old.which].frames ? old : IObj{};
          if (o[1 - i].which < 0 && !g[1 - i].empty())
            SIM_CHECK(false, "empty", "an inplace_generator which was assigned from is neither empty nor the old one");
          look(i);
          look(1 - i);
          break;
        }
      }
    }
    for (int i = 0; i < 2; ++i)
      while (advance(i)) {
      }
  }
  for (auto& s : st)
    SIM_CHECK(s.frames == 0, "object-leak", "%d frames of inplace_generators", s.frames);
}
