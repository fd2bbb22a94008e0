// Programs for generators and channels: trees of producers, and the sequence of events a consumer must observe.
#pragma once
#include "world.h"

namespace sq {

struct Item {
  int v = -1;
  std::unique_ptr<Cell> c;
  Item() = default;
  Item(int x) : v(x), c(new Cell{scrambled(x)}) {
  }
  Item(const Item& o) : v(o.v), c(o.c ? new Cell(*o.c) : nullptr) {
  }
  Item(Item&&) = default;
  Item& operator=(Item&&) = default;
  bool good() const {
    return c && c->v == scrambled(v);
  }
  void mutate() {
    v = ~v;
    c->v = scrambled(v);
  }
};

enum { S_RVAL, S_CONST, S_REF, S_PAUSE, S_HOP, S_VEC, S_VECL, S_CHILD, S_CHILD_LV, S_PART, S_RES, S_OTHER, S_EMPTY, S_RANGE, S_GEN, S_NOMEM, S_THROW, NSTEP };
struct Step {
  int op = 0, arg = 0;   // arg: child node, number of elements, hop
  int id = 0;            // first id of the values / id of the exception
  int fail_at = -1;      // S_RANGE: throws instead of this element; S_NOMEM: what cannot be allocated, escapes
};
struct Node {
  Step s[6];
  int n = 0;
};
struct Ev {
  bool value;
  int id;
  int emitted;   // explicit yields executed when the consumer sees it
};
constexpr int MAXN = 64, MAXC = 4;
inline Node nodes[MAXN];
inline int nn, next_id;
struct Content {
  int root = -1;
  std::vector<Ev>* ev = nullptr;
  int emitted = 0;
  int frames = 0, frames_max = 0;
};
inline Content cont[MAXC];
inline Cell* to_consumer;   // written by the producer before a yield
inline Cell* to_producer;   // written by the consumer before it asks for the next value

struct Alive {  // lives in the frame of a producer
  int c;
  explicit Alive(int c) : c(c) {
    sim::Quiet z;
    cont[c].frames++;
    cont[c].frames_max++;
  }
  Alive(Alive&& o) noexcept : c(std::exchange(o.c, -1)) {
  }
  ~Alive() {
    if (c < 0)
      return;
    sim::Quiet z;
    cont[c].frames--;
    SIM_CHECK(cont[c].frames >= 0, "destroyed-twice", "frame of content %d", c);
  }
};

inline bool heavy(int op) {
  return op == S_CHILD || op == S_CHILD_LV || op == S_PART || op == S_RES || op == S_OTHER || op == S_GEN;
}
// which: steps allowed by the caller
inline int draw_node(int depth, bool hops, bool ref, int budget = 6) {
  int i = nn++;
  nodes[i] = Node{};
  int n = sim::draw(budget);
  for (int k = 0; k < n; ++k) {
    Step s;
    s.op = sim::draw(NSTEP);
    if (depth > 2 && k == n / 2)  // deep nesting: a chain of producers
      s.op = s.op & 1 ? S_CHILD : S_CHILD_LV;
    if (heavy(s.op) && (!depth || nn >= MAXN - 8))
      s.op = S_RVAL;
    if (ref && (s.op == S_OTHER))
      s.op = S_CHILD;
    if (s.op == S_HOP && !hops)
      s.op = S_PAUSE;
    if (s.op == S_THROW && sim::draw(2))
      s.op = S_RVAL;
    switch (s.op) {
      case S_HOP:
        s.arg = wd::draw_hop();
        break;
      case S_VEC:
      case S_VECL:
        s.arg = sim::draw(4);
        s.id = next_id;
        next_id += s.arg;
        break;
      case S_RANGE:
        s.arg = sim::draw(4);
        s.id = next_id;
        next_id += s.arg + 1;
        if (sim::draw(2))
          s.fail_at = sim::draw(s.arg + 1);
        break;
      case S_CHILD:
      case S_CHILD_LV:
      case S_PART:
      case S_RES:
      case S_OTHER:
      case S_GEN:
        s.arg = draw_node(depth - 1, hops && s.op != S_GEN, ref, budget > 3 ? 4 : budget);
        break;
      case S_NOMEM:
        s.arg = 2;
        s.fail_at = sim::draw(5);
        s.id = next_id;
        next_id += s.arg;
        break;
      default:
        s.id = next_id++;
        break;
    }
    nodes[i].s[nodes[i].n++] = s;
  }
  return i;
}
// reference model; false: ended with an exception (which is the last event)
inline bool model(int i, std::vector<Ev>& out, int& emitted) {
  auto val = [&](int id) { out.push_back({true, id, emitted}); };
  for (int k = 0; k < nodes[i].n; ++k) {
    const Step& s = nodes[i].s[k];
    switch (s.op) {
      case S_RVAL:
      case S_CONST:
      case S_REF:
        emitted++;
        val(s.id);
        break;
      case S_VEC:
      case S_VECL:
        for (int e = 0; e < s.arg; ++e)
          val(s.id + e);
        break;
      case S_RANGE:
        for (int e = 0; e < s.arg; ++e) {
          if (e == s.fail_at)
            break;
          val(s.id + e);
        }
        if (s.fail_at >= 0)
          out.push_back({false, s.id + s.fail_at, emitted});
        break;
      case S_CHILD:
      case S_CHILD_LV:
      case S_RES:
        model(s.arg, out, emitted);
        break;
      case S_PART: {
        // the owner takes the first event itself
        std::vector<Ev> sub;
        model(s.arg, sub, emitted);
        for (size_t e = 1; e < sub.size(); ++e)
          out.push_back(sub[e]);
        break;
      }
      case S_OTHER:
      case S_GEN: {
        // goes through a coroutine which forwards: the first exception ends all of it
        std::vector<Ev> sub;
        int em = emitted;
        model(s.arg, sub, em);
        int last = em;
        for (Ev& e : sub) {
          out.push_back(e);
          if (!e.value) {
            last = e.emitted;
            break;
          }
        }
        emitted = last;
        break;
      }
      case S_NOMEM:
        // the conversion or the nested producer cannot be created; the body gives up, goes on, or tries again
        if (s.fail_at == 0 || s.fail_at == 1) {
          out.push_back({false, s.id, emitted});
          return false;
        }
        if (s.fail_at == 4)
          for (int e = 0; e < s.arg; ++e)
            val(s.id + e);
        break;
      case S_THROW:
        out.push_back({false, s.id, emitted});
        return false;
      default:
        break;
    }
  }
  return true;
}
// explicit yields of a part consumed by its owner happen before the next event: recomputed here
inline void make_content(int c, bool hops, bool ref, int depth) {
  Content& x = cont[c];
  x = Content{};
  x.root = draw_node(depth, hops, ref);
  sim::quiet([&] {
    x.ev = new std::vector<Ev>;
    int em = 0;
    model(x.root, *x.ev, em);
  });
}
inline void free_contents(int n) {
  sim::Quiet z;
  for (int c = 0; c < n; ++c)
    delete cont[c].ev;
}

// a range which is not borrowed and throws at one position
struct ThrowingRange {
  std::vector<Item> v;
  int fail_at, id;
  struct it {
    ThrowingRange* r;
    int i;
    using value_type = Item;
    using difference_type = ptrdiff_t;
    using iterator_category = std::input_iterator_tag;
    Item& operator*() const {
      if (i == r->fail_at)
        throw Err{r->id + i};
      return r->v[i];
    }
    it& operator++() {
      ++i;
      return *this;
    }
    void operator++(int) {
      ++i;
    }
    bool operator==(const it& o) const {
      return i == o.i;
    }
  };
  it begin() {
    return {this, 0};
  }
  it end() {
    return {this, (int)v.size()};
  }
};
inline std::vector<Item> make_vec(int id, int n) {
  std::vector<Item> v;
  v.reserve(n);
  for (int i = 0; i < n; ++i)
    v.emplace_back(id + i);
  return v;
}
inline ThrowingRange make_range(const Step& s) {
  // one more element, so that the last position may fail too
  return ThrowingRange{make_vec(s.id, s.fail_at == s.arg ? s.arg + 1 : s.arg), s.fail_at, s.id};
}
inline void before_yield(int c, int id) {
  to_consumer[id].v = scrambled(id);
  sim::quiet([&] { cont[c].emitted++; });
}
inline void after_yield(int id) {
  SIM_CHECK(to_producer[id].v == scrambled(~id), "visibility", "the producer does not see what the consumer wrote after value %d", id);
}
// the consumer got this value
template <typename I>
void got(int c, I& x, int id) {
  if constexpr (std::is_same_v<I, int>)
    SIM_CHECK(x == id, "sequence", "content %d: value %d instead of %d", c, x, id);
  else {
    SIM_CHECK(x.v == id, "sequence", "content %d: value %d instead of %d", c, x.v, id);
    SIM_CHECK(x.good(), "corrupt", "content %d: value %d is broken", c, id);
    x.mutate();
  }
  to_producer[id].v = scrambled(~id);
}

}  // namespace sq
