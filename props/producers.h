// Generators which run the programs of seq.h; the body is shared with channel.cpp.
#pragma once
#include "seq.h"

using namespace sq;

namespace {
struct Heap {  // a stateful resource
  int* live;
  void* allocate(size_t n) {
    sim::quiet([&] { ++*live; });
    return ::operator new(n);
  }
  void deallocate(void* p, size_t) {
    sim::quiet([&] { --*live; });
    ::operator delete(p);
  }
};
int res_live;

template <typename Y>
dd::generator<Y> gen(int c, int i, Alive);

template <typename Y>
constexpr bool is_ref = std::is_reference_v<Y>;

#define PRODUCER_BODY(FAMILY, CO_HOP)                                                                                 \
  std::unique_ptr<Cell> local(new Cell{i});                                                                           \
  const Node& n = nodes[i];                                                                                           \
  for (int k = 0; k < n.n; ++k) {                                                                                     \
    const Step& s = n.s[k];                                                                                           \
    switch (s.op) {                                                                                                   \
      case S_RVAL:                                                                                                    \
        before_yield(c, s.id);                                                                                        \
        if constexpr (is_ref<Y>) {                                                                                    \
          Item x(s.id);                                                                                               \
          co_yield x;                                                                                                 \
          SIM_CHECK(x.v == ~s.id && x.good(), "by-ref", "the producer does not see what the consumer did to value %d", s.id); \
        } else if constexpr (std::is_same_v<Y, int>)                                                                  \
          co_yield int(s.id);                                                                                         \
        else                                                                                                          \
          co_yield Item(s.id);                                                                                        \
        after_yield(s.id);                                                                                            \
        break;                                                                                                        \
      case S_CONST: {                                                                                                 \
        before_yield(c, s.id);                                                                                        \
        if constexpr (is_ref<Y>) {                                                                                    \
          Item x(s.id);                                                                                               \
          co_yield x;                                                                                                 \
        } else {                                                                                                      \
          const Y x(s.id);                                                                                            \
          co_yield x;                                                                                                 \
          if constexpr (!std::is_same_v<Y, int>)                                                                      \
            SIM_CHECK(x.v == s.id && x.good(), "corrupt", "a const value %d was changed by the consumer", s.id);      \
        }                                                                                                             \
        after_yield(s.id);                                                                                            \
        break;                                                                                                        \
      }                                                                                                               \
      case S_REF: {                                                                                                   \
        before_yield(c, s.id);                                                                                        \
        std::remove_reference_t<Y> x(s.id);                                                                           \
        co_yield dd::by_ref{x};                                                                                       \
        if constexpr (!std::is_same_v<Y, int>)                                                                        \
          SIM_CHECK(x.v == ~s.id && x.good(), "by-ref", "the producer does not see what the consumer did to value %d", s.id); \
        after_yield(s.id);                                                                                            \
        break;                                                                                                        \
      }                                                                                                               \
      case S_HOP:                                                                                                     \
        CO_HOP                                                                                                        \
        break;                                                                                                        \
      case S_VEC:                                                                                                     \
      case S_VECL: {                                                                                                  \
        for (int e = 0; e < s.arg; ++e)                                                                               \
          to_consumer[s.id + e].v = scrambled(s.id + e);                                                              \
        if constexpr (std::is_same_v<Y, int>) {                                                                       \
          std::vector<int> v(s.arg);                                                                                  \
          for (int e = 0; e < s.arg; ++e)                                                                             \
            v[e] = s.id + e;                                                                                          \
          co_yield dd::elements_of(v);                                                                                \
        } else if (s.op == S_VEC && !is_ref<Y>) {                                                                     \
          if constexpr (!is_ref<Y>)                                                                                   \
            co_yield dd::elements_of(make_vec(s.id, s.arg));                                                          \
        } else {                                                                                                      \
          auto v = make_vec(s.id, s.arg);                                                                             \
          if constexpr (is_ref<Y>) {                                                                                  \
            co_yield dd::elements_of(v);                                                                              \
            for (int e = 0; e < s.arg; ++e)                                                                           \
              SIM_CHECK(v[e].v == ~(s.id + e) && v[e].good(), "by-ref", "element %d of a range is not the one the consumer saw", e); \
          } else                                                                                                      \
            co_yield dd::elements_of(std::move(v));                                                                   \
        }                                                                                                             \
        for (int e = 0; e < s.arg; ++e)                                                                               \
          after_yield(s.id + e);                                                                                      \
        break;                                                                                                        \
      }                                                                                                               \
      case S_RANGE:                                                                                                   \
        for (int e = 0; e < s.arg; ++e)                                                                               \
          to_consumer[s.id + e].v = scrambled(s.id + e);                                                              \
        if constexpr (std::is_same_v<Y, Item>)                                                                        \
          co_yield dd::elements_of(make_range(s));                                                                    \
        else if constexpr (is_ref<Y>) {                                                                               \
          auto r = make_range(s);                                                                                     \
          co_yield dd::elements_of(r);                                                                                \
        } else                                                                                                        \
          co_yield dd::elements_of(int_range(c, s));                                                                  \
        break;                                                                                                        \
      case S_CHILD:                                                                                                   \
        co_yield dd::elements_of(FAMILY<Y>(c, s.arg, Alive(c)));                                                      \
        break;                                                                                                        \
      case S_CHILD_LV: {                                                                                              \
        auto x = FAMILY<Y>(c, s.arg, Alive(c));                                                                       \
        auto y = std::move(x);                                                                                        \
        co_yield dd::elements_of(y);                                                                                  \
        SIM_CHECK(x.empty() && y.empty(), "empty", "a nested producer is not taken over");                            \
        break;                                                                                                        \
      }                                                                                                               \
      case S_RES:                                                                                                     \
        co_yield dd::elements_of(FAMILY##_r<Y>(c, s.arg, Alive(c), Heap{&res_live}));                                 \
        break;                                                                                                        \
      case S_EMPTY:                                                                                                   \
        co_yield dd::elements_of(decltype(FAMILY<Y>(c, 0, Alive(c))){});                                              \
        break;                                                                                                        \
      case S_NOMEM: {                                                                                                 \
        auto v = make_elems<Y>(s);                                                                                    \
        bool thrown = false;                                                                                          \
        try {                                                                                                         \
          sim::fail_next_alloc();                                                                                     \
          if (s.fail_at & 1)                                                                                          \
            co_yield dd::elements_of(FAMILY<Y>(c, i, Alive(c)));                                                      \
          else                                                                                                        \
            co_yield dd::elements_of(v);                                                                              \
        } catch (const std::bad_alloc&) {                                                                             \
          thrown = true;                                                                                              \
        }                                                                                                             \
        SIM_CHECK(thrown, "harness", "nothing was allocated");                                                        \
        sim::probe("a nested producer could not be created");                                                         \
        if (s.fail_at < 2)                                                                                            \
          throw Err{s.id};                                                                                            \
        if (s.fail_at == 4) {                                                                                         \
          for (int e = 0; e < s.arg; ++e)                                                                             \
            to_consumer[s.id + e].v = scrambled(s.id + e);                                                            \
          co_yield dd::elements_of(v);                                                                                \
        }                                                                                                             \
        break;                                                                                                        \
      }                                                                                                               \
      case S_THROW:                                                                                                   \
        throw Err{s.id};                                                                                              \
      default:                                                                                                        \
        sim::yield();                                                                                                 \
        break;                                                                                                        \
    }                                                                                                                 \
    SPECIAL                                                                                                           \
    SIM_CHECK(local->v == i, "corrupt", "frame of producer %d", i);                                                   \
  }

template <typename Y>
auto make_elems(const Step& s) {
  std::vector<std::remove_reference_t<Y>> v;
  v.reserve(s.arg);
  for (int e = 0; e < s.arg; ++e)
    v.emplace_back(s.id + e);
  return v;
}
// int producers get their throwing range from a generator
dd::generator<int> int_range(int c, Step s) {
  for (int e = 0; e < s.arg; ++e) {
    if (e == s.fail_at)
      break;
    co_yield int(s.id + e);
  }
  if (s.fail_at >= 0)
    throw Err{s.id + s.fail_at};
}

template <typename Y>
dd::generator_r<Y, Heap> gen_r(int c, int i, Alive a, dd::with_resource<Heap> r);

// ---- generators (used as ranges inside of channels)
#define SPECIAL                                                            \
  if (s.op == S_PART) {                                                    \
    auto g = gen<Y>(c, s.arg, Alive(c));                                   \
    take_first(c, g, s.arg);                                               \
    co_yield dd::elements_of(g);                                           \
  }                                                                        \
  if (s.op == S_GEN)                                                       \
    co_yield dd::elements_of(forward_gen<Y>(gen<Y>(c, s.arg, Alive(c))));  \
  if (s.op == S_OTHER) {                                                   \
    if constexpr (std::is_same_v<Y, Item>)                                 \
      co_yield dd::elements_of(gen<int>(c, s.arg, Alive(c)));              \
    else if constexpr (std::is_same_v<Y, int>)                             \
      co_yield dd::elements_of(forward_gen<Y>(gen<Y>(c, s.arg, Alive(c)))); \
  }
template <typename Y>
dd::generator<Y> forward_gen(dd::generator<Y> g) {
  for (auto&& x : g)
    co_yield static_cast<Y&&>(x);
}
int first_id(int node) {
  std::vector<Ev> ev;
  return sim::quiet([&] {
    int em = 0;
    std::vector<Ev> v;
    model(node, v, em);
    return v.empty() ? 0 : (v[0].value ? v[0].id : ~v[0].id) + 1000000;
  });
}
// decodes first_id
void first_is(int code, bool& any, bool& value, int& id) {
  any = code != 0;
  int x = code - 1000000;
  value = x >= 0;
  id = value ? x : ~x;
}
template <typename Y>
void take_first(int c, dd::generator<Y>& g, int node) {
  bool any, value;
  int id;
  first_is(first_id(node), any, value, id);
  bool threw = false;
  try {
    auto it = g.begin();
    SIM_CHECK((it != g.end()) == (any && value), "sequence", "first value of a part");
    if (any && value) {
      auto&& x = *it;
      got(c, x, id);
    }
  } catch (const Err& e) {
    threw = true;
    SIM_CHECK(any && !value && e.id == id, "exception", "exception %d of a part", e.id);
  }
  SIM_CHECK(threw == (any && !value), "exception", "exception of a part is lost");
}
template <typename Y>
dd::generator<Y> gen(int c, int i, Alive a) {
  PRODUCER_BODY(gen, sim::yield();)
}
template <typename Y>
dd::generator_r<Y, Heap> gen_r(int c, int i, Alive a, dd::with_resource<Heap>) {
  PRODUCER_BODY(gen, sim::yield();)
}
#undef SPECIAL
}  // namespace
