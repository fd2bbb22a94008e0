// stack_resource: blocks, chunks, failing chunk allocations, moves, reuse; and as the home of coroutine frames.
#include "world.h"

namespace {
struct Block {
  unsigned char* p;
  size_t len;
  unsigned char pat;
};
constexpr size_t A = dd::coroframe_align();

struct Model {
  dd::stack_resource* r = nullptr;
  unsigned char* buf = nullptr;
  size_t buf_sz = 0;
  std::vector<Block>* live = nullptr;
};
unsigned char next_pat;

void fill(const Block& b) {
  // the ends through the checker, everything as memory
  sim::touch_write(b.p, b.len);
  sim::quiet([&] { std::memset(b.p, b.pat, b.len); });
}
void verify(const Block& b) {
  sim::touch_read(b.p, b.len);
  sim::quiet([&] {
    for (size_t i = 0; i < b.len; ++i)
      SIM_CHECK(b.p[i] == b.pat, "corrupt", "byte %zu of a live block of %zu bytes was overwritten", i, b.len);
  });
}
bool inside(const Model& m, const unsigned char* p, size_t len) {
  return m.buf && p >= m.buf && p + len <= m.buf + m.buf_sz;
}
void check_all(const Model& m) {
  for (size_t i = 0;; ++i) {
    Block b;
    bool end = sim::quiet([&] {
      if (i >= m.live->size())
        return true;
      b = (*m.live)[i];
      return false;
    });
    if (end)
      return;
    verify(b);
  }
}
// returns false if the resource failed
bool push(Model& m, size_t len, bool fail) {
  void* p = nullptr;
  bool failed = false;
  try {
    if (fail)
      sim::fail_next_alloc();
    p = m.r->allocate(len);
    sim::fail_next_alloc(false);
  } catch (const std::bad_alloc&) {
    failed = true;
    SIM_CHECK(fail || len > (1u << 30), "allocation", "allocation of %zu bytes failed", len);
  }
  if (failed) {
    check_all(m);
    sim::probe("chunk allocation failed");
    return false;
  }
  Block b{(unsigned char*)p, len, 0};
  sim::quiet([&] {
    SIM_CHECK(p, "null", "allocate returned null");
    SIM_CHECK((uintptr_t)p % A == 0, "alignment", "block %p", p);
    SIM_CHECK(inside(m, b.p, len) || sim::is_live_block(p, len), "not-owned", "block of %zu bytes is not inside of a chunk or the initial buffer", len);
    for (const Block& o : *m.live)
      SIM_CHECK(b.p + len <= o.p || o.p + o.len <= b.p, "overlap", "block of %zu bytes overlaps a live block of %zu bytes", len, o.len);
    b.pat = next_pat = next_pat * 37 + 11;
    m.live->push_back(b);
  });
  fill(b);
  return true;
}
void pop(Model& m) {
  Block b;
  bool any = sim::quiet([&] {
    if (m.live->empty())
      return false;
    b = m.live->back();
    m.live->pop_back();
    return true;
  });
  if (!any)
    return;
  verify(b);
  m.r->deallocate(b.p, b.len);
}
size_t draw_len() {
  switch (sim::draw(6)) {
    case 0:
      return 1 + sim::draw(32);
    case 1:
      return 16 * (1 + sim::draw(8));
    case 2:
      return 1 + sim::draw(200);
    case 3:
      return 100 + sim::draw(900);
    case 4:
      return 15 + sim::draw(3);
    default:
      return 1 + sim::draw(64);
  }
}
struct Buf {
  unsigned char* p = nullptr;
  size_t n = 0;
  explicit Buf(size_t n) : p(n ? (unsigned char*)::operator new(n) : nullptr), n(n) {
  }
  ~Buf() {
    if (p)
      ::operator delete(p);
  }
  std::span<unsigned char> span() const {
    return {p, n};
  }
};
size_t draw_buf() {
  switch (sim::draw(4)) {
    case 0:
      return 0;
    case 1:
      return 16 * (1 + sim::draw(6));
    case 2:
      return 1 + sim::draw(300);
    default:
      return 256;
  }
}
}  // namespace

SIM_SCENARIO(stack_resource_lifo, 4, "random sequences of allocate and deallocate, moves, reuse, failing chunks") {
  uint64_t before;
  {
    Buf bufs[2] = {Buf(draw_buf()), Buf(draw_buf())};
    before = sim::live_blocks();
    std::optional<dd::stack_resource> r[2];
    Model m[2];
    for (int i = 0; i < 2; ++i) {
      r[i].emplace(bufs[i].span());
      m[i].r = &*r[i];
      m[i].buf = bufs[i].p;
      m[i].buf_sz = bufs[i].n;
      sim::quiet([&] { m[i].live = new std::vector<Block>; });
    }
    int n = sim::draw(80);
    for (int k = 0; k < n; ++k) {
      int i = sim::draw(8) == 7;
      switch (sim::draw(16)) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
        case 5:
          push(m[i], draw_len(), false);
          break;
        case 6:
          push(m[i], draw_len(), true);
          break;
        case 7:
        case 8:
        case 9:
        case 10:
          pop(m[i]);
          break;
        case 11: {
          int c = 1 + sim::draw(6);
          while (c--)
            pop(m[i]);
          break;
        }
        case 12: {
          // moved to a new object and back
          dd::stack_resource t(std::move(*r[i]));
          m[i].r = &t;
          check_all(m[i]);
          push(m[i], draw_len(), false);
          pop(m[i]);
          // the moved-from one is an empty resource
          Model e{&*r[i], nullptr, 0, nullptr};
          sim::quiet([&] { e.live = new std::vector<Block>; });
          push(e, draw_len(), false);
          push(e, draw_len(), false);
          pop(e);
          pop(e);
          sim::quiet([&] { delete e.live; });
          *r[i] = std::move(t);
          m[i].r = &*r[i];
          check_all(m[i]);
          sim::probe("moved");
          break;
        }
        case 13: {
          // the other one is forgotten, this one goes there
          *r[1 - i] = std::move(*r[i]);
          std::swap(m[0], m[1]);
          m[0].r = &*r[0];
          m[1].r = &*r[1];
          sim::quiet([&] { m[i].live->clear(); });
          m[i].buf = nullptr;
          m[i].buf_sz = 0;
          check_all(m[1 - i]);
          break;
        }
        case 14:
          r[i]->reuse_memory();
          sim::quiet([&] { m[i].live->clear(); });
          if (m[i].buf_sz) {
            size_t len = 1 + sim::draw(m[i].buf_sz / 16 * 16);
            if (len <= m[i].buf_sz / 16 * 16) {
              push(m[i], len, false);
              sim::quiet([&] {
                const Block& b = m[i].live->back();
                SIM_CHECK(inside(m[i], b.p, b.len), "reuse", "the initial buffer of %zu bytes is not reused for %zu bytes", m[i].buf_sz, len);
              });
            }
          }
          sim::probe("reuse_memory");
          break;
        case 15:
          push(m[i], (size_t)1 << 44, false);
          break;
      }
      check_all(m[0]);
      check_all(m[1]);
    }
    if (sim::draw(2))
      for (auto& x : m)
        while (sim::quiet([&] { return !x.live->empty(); }))
          pop(x);
    for (auto& x : r)
      x.reset();
    sim::quiet([&] {
      for (auto& x : m)
        delete x.live;
    });
    SIM_CHECK(sim::live_blocks() == before, "chunk-leak", "%lld chunks did not come back", (long long)(sim::live_blocks() - before));
  }
}

SIM_SCENARIO(stack_resource_rounds, 1, "chunks are reused when the same blocks are needed again") {
  Buf buf(draw_buf());
  int n = 1 + sim::draw(24);
  size_t lens[24];
  for (int k = 0; k < n; ++k)
    lens[k] = draw_len();
  bool reuse = sim::draw(2);
  uint64_t before = sim::live_blocks();
  {
    dd::stack_resource r(buf.span());
    Model m{&r, buf.p, buf.n, nullptr};
    sim::quiet([&] { m.live = new std::vector<Block>; });
    uint64_t chunks = 0;
    for (int round = 0; round < 3; ++round) {
      for (int k = 0; k < n; ++k)
        push(m, lens[k], false);
      check_all(m);
      if (!round)
        chunks = sim::live_blocks();
      else
        SIM_CHECK(sim::live_blocks() == chunks, "reuse", "round %d needed %lld more chunks than the first", round,
                  (long long)(sim::live_blocks() - chunks));
      if (reuse) {
        r.reuse_memory();
        sim::quiet([&] { m.live->clear(); });
      } else
        for (int k = 0; k < n; ++k)
          pop(m);
    }
    sim::quiet([&] { delete m.live; });
  }
  SIM_CHECK(sim::live_blocks() == before, "chunk-leak", "%lld chunks did not come back", (long long)(sim::live_blocks() - before));
}

// ------------------------------------------------------------------ coroutine frames
namespace {
struct TNode {
  int n = 0, child[3] = {}, kind[3] = {}, hop[3] = {};
  bool throws = false;
  int size = 0;
  int fail[3] = {};
};
TNode tn[16];
int ntn, live_frames;
struct Frame {
  int id;
  explicit Frame(int id) : id(id) {
    sim::quiet([&] { live_frames++; });
  }
  ~Frame() {
    sim::quiet([&] { live_frames--; });
  }
};
template <int N>
dd::task<int> tree(int i, dd::with_stack_resource r);
dd::task<int> any_tree(int i, dd::with_stack_resource r) {
  switch (tn[i].size) {
    case 0:
      return tree<8>(i, r);
    case 1:
      return tree<100>(i, r);
    default:
      return tree<700>(i, r);
  }
}
dd::generator<int> numbers(int i, int depth, dd::with_stack_resource r) {
  Frame f(i);
  for (int k = 0; k < 2; ++k)
    co_yield int(i * 10 + k);
  if (depth)
    co_yield dd::elements_of(numbers(i, depth - 1, r));
  co_yield int(i * 10 + 5);
}
template <int N>
dd::task<int> tree(int i, dd::with_stack_resource r) {
  Frame f(i);
  unsigned char pad[N];
  std::memset(pad, i, N);
  auto check = [&] {
    for (auto x : pad)
      SIM_CHECK(x == (unsigned char)i, "corrupt", "frame of task %d in a stack_resource", i);
  };
  int sum = i;
  for (int k = 0; k < tn[i].n; ++k) {
    if (tn[i].kind[k] == 0) {
      WD_HOP(tn[i].hop[k]);
    } else if (tn[i].kind[k] == 1) {
      bool started = false;
      try {
        if (tn[i].fail[k])
          sim::fail_next_alloc();
        auto t = any_tree(tn[i].child[k], r);
        sim::fail_next_alloc(false);
        started = true;
        if (tn[i].hop[k] & 1)
          sum += co_await t;
        // else: destroyed without a start
      } catch (const Err&) {
        sum += 1000;
      } catch (const std::bad_alloc&) {
        SIM_CHECK(!started && tn[i].fail[k], "allocation", "bad_alloc from nowhere");
        sim::probe("frame could not be allocated");
      }
    } else {
      int c = 0, stop = tn[i].hop[k];
      for (int x : numbers(i, tn[i].child[k] & 3, r)) {
        SIM_CHECK(x / 10 == i, "sequence", "generator in a stack_resource");
        if (++c > stop)
          break;
      }
    }
    check();
  }
  if (tn[i].throws)
    throw Err{i};
  co_return sum;
}
int draw_tree(int depth) {
  int i = ntn++;
  tn[i] = TNode{};
  tn[i].throws = sim::chance(1, 4);
  tn[i].size = sim::draw(3);
  int n = sim::draw(4);
  for (int k = 0; k < n; ++k) {
    int kind = sim::draw(3);
    if (kind == 1 && (!depth || ntn >= 15))
      kind = 0;
    tn[i].kind[k] = kind;
    tn[i].hop[k] = kind == 2 ? sim::draw(8) : wd::draw_hop();
    tn[i].fail[k] = sim::chance(1, 5);
    tn[i].child[k] = kind == 1 ? draw_tree(depth - 1) : (int)sim::draw(4);
    tn[i].n++;
  }
  return i;
}
}  // namespace
SIM_SCENARIO(stack_resource_frames, 2, "frames of task trees and generators which change threads live in one stack_resource") {
  ntn = live_frames = 0;
  int nroots = 1 + sim::draw(2);
  int root[2];
  for (int i = 0; i < nroots; ++i)
    root[i] = draw_tree(3);
  Buf buf(draw_buf());
  int rounds = 1 + sim::draw(2);
  wd::open(1 + sim::draw(2));
  {
    // get() returns as soon as the result is set, the frames die a little later on another thread:
    // the resources stay until everybody is done
    dd::stack_resource r[2] = {dd::stack_resource(buf.span()), dd::stack_resource()};
    auto go = [&](int i) {
      bool threw = false;
      try {
        any_tree(root[i], r[i]).get();
      } catch (const Err& e) {
        threw = true;
      }
      SIM_CHECK(threw == tn[root[i]].throws, "value", "exception of the root");
    };
    std::thread t;
    if (nroots == 2)
      t = std::thread([&] { go(1); });
    for (int k = 0; k < rounds; ++k) {
      go(0);
      sim::quiesce();
    }
    if (nroots == 2)
      t.join();
    sim::quiesce();
    SIM_CHECK(live_frames == 0, "object-leak", "%d frames", live_frames);
  }
  wd::close();
}
