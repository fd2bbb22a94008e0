// nonowner_lockfree_stack: pushes, stack pushes and pops of several threads
#include "common.h"

namespace {
struct Node {
  Node* next = nullptr;
  int id = -1;
  int payload = 0;     // plain, written before the push
  int* heap = nullptr;
};
struct Rec {
  int producer = -1, batch = 0, pos = 0;
  bool in = false;           // currently pushed (a node may be pushed again later: new record)
  uint64_t inv = 0, ret = ~0ull;
  int popped = 0;
  uint64_t pinv = 0, pret = 0;
};
struct St {
  Rec r[2048];
  int n = 0;
  uint64_t pop_inv[2048], pop_ret[2048];
  int npops = 0;
};
St S;
dd::nonowner_lockfree_stack<Node>* st;

int rec(int producer, int batch, int pos) {
  sim::Quiet z;
  SIM_CHECK(S.n < 2048, "harness", "records");
  Rec& r = S.r[S.n];
  r = Rec{};
  r.producer = producer;
  r.batch = batch;
  r.pos = pos;
  r.in = true;
  return S.n++;
}
void fill(Node* n, int id) {
  n->id = id;
  n->payload = scrambled(id);
  n->heap = new int(id);
}
struct Prod {
  int id;
  int batch = 0;
  std::vector<Node*> spare;    // popped nodes to be used again
  Node* get() {
    if (!spare.empty()) {
      Node* n = spare.back();
      spare.pop_back();
      return n;
    }
    return new Node;
  }
  void push() {
    Node* n = get();
    int id = rec(this->id, batch++, 0);
    fill(n, id);
    sim::quiet([&] { S.r[id].inv = sim::now(); sim::event("push", id); });
    st->push(n);
    sim::quiet([&] { S.r[id].ret = sim::now(); });
  }
  void push_stack(int len) {
    int b = batch++;
    std::vector<int> ids;
    Node* top = nullptr;
    Node* last = nullptr;
    for (int i = 0; i < len; ++i) {
      Node* n = get();
      int id = rec(this->id, b, i);
      fill(n, id);
      n->next = nullptr;
      if (last)
        last->next = n;
      else
        top = n;
      last = n;
      ids.push_back(id);
    }
    sim::quiet([&] {
      for (int i : ids)
        S.r[i].inv = sim::now();
      sim::event("push_stack", len);
    });
    st->push_stack(top);
    sim::quiet([&] {
      for (int i : ids)
        S.r[i].ret = sim::now();
    });
  }
  // reuse: 0 free the nodes, 1 keep them for later pushes, 2 push the whole list back
  void pop(int reuse) {
    int pi = sim::quiet([] {
      SIM_CHECK(S.npops < 256, "harness", "pops");
      S.pop_inv[S.npops] = sim::now();
      S.pop_ret[S.npops] = ~0ull;
      return S.npops++;
    });
    Node* top = st->try_pop_all();
    sim::quiet([&] { S.pop_ret[pi] = sim::now(); });
    std::vector<int> ids;
    std::vector<Node*> nodes;
    for (Node* n = top; n; n = n->next) {
      int id = n->id;
      SIM_CHECK(id >= 0 && id < S.n, "corrupt", "a pop returned a node with id %d", id);
      sim::quiet([&] {
        Rec& r = S.r[id];
        r.popped++;
        sim::event("popped", id);
        SIM_CHECK(r.popped == 1, "duplicate", "node %d was returned by %d pops", id, r.popped);
        r.pinv = S.pop_inv[pi];
        r.pret = S.pop_ret[pi];
        r.in = false;
        SIM_CHECK(r.inv < r.pret, "corrupt", "node %d was popped before it was pushed", id);
      });
      SIM_CHECK(n->payload == scrambled(id) && *n->heap == id, "visibility", "node %d: contents written before the push are not visible", id);
      delete n->heap;
      n->heap = nullptr;
      ids.push_back(id);
      nodes.push_back(n);
      SIM_CHECK(ids.size() < 300, "corrupt", "a popped list is cyclic");
    }
    sim::quiet([&] {
      for (size_t i = 0; i < ids.size(); ++i)
        for (size_t j = i + 1; j < ids.size(); ++j) {  // i is above j
          Rec &a = S.r[ids[i]], &b = S.r[ids[j]];
          if (a.producer == b.producer) {
            SIM_CHECK(a.batch >= b.batch, "lifo", "node %d, pushed later by the same thread, lies under node %d", ids[j], ids[i]);
            if (a.batch == b.batch)
              SIM_CHECK(a.pos < b.pos, "lifo", "order inside of a pushed stack changed (nodes %d and %d)", ids[i], ids[j]);
          } else
            SIM_CHECK(!(a.ret < b.inv), "lifo", "node %d was pushed after node %d, but lies under it", ids[j], ids[i]);
        }
      if (ids.size() > 1)
        sim::probe("pop returned several nodes");
    });
    if (reuse == 2 && top) {
      int b = batch++;
      std::vector<int> ids2;
      int pos = 0;
      for (Node* n : nodes) {
        int id = rec(this->id, b, pos++);
        fill(n, id);
        ids2.push_back(id);
      }
      sim::quiet([&] {
        for (int i : ids2)
          S.r[i].inv = sim::now();
      });
      st->push_stack(top);
      sim::quiet([&] {
        for (int i : ids2)
          S.r[i].ret = sim::now();
      });
      sim::probe("popped stack pushed back");
      return;
    }
    if (reuse == 2)
      st->push_stack(nullptr);
    for (Node* n : nodes)
      if (reuse == 1)
        spare.push_back(n);
      else
        delete n;
  }
  void drop() {
    for (Node* n : spare)
      delete n;
    spare.clear();
  }
};
}  // namespace

SIM_SCENARIO(stack_mixed, 1, "nonowner_lockfree_stack: pushes of nodes and stacks race with pops; nodes are reused or freed at once") {
  S.n = 0;
  S.npops = 0;
  int nthr = 1 + sim::draw(4);
  struct Op {
    int kind, arg, pauses;
  };
  std::vector<std::vector<Op>> progs(nthr);
  for (auto& p : progs) {
    int n = 1 + often(5, 20);
    for (int i = 0; i < n; ++i)
      p.push_back(Op{(int)sim::draw(5), (int)sim::draw(3), (int)sim::draw(3)});
  }
  {
    dd::nonowner_lockfree_stack<Node> stack;
    st = &stack;
    auto body = [&](int i) {
      Prod p{i};
      for (const Op& o : progs[i]) {
        pause(o.pauses);
        if (o.kind < 2)
          p.push();
        else if (o.kind == 2)
          p.push_stack(1 + o.arg);
        else
          p.pop(o.arg);
      }
      p.drop();
    };
    std::vector<std::thread> ts;
    for (int i = 1; i < nthr; ++i)
      ts.emplace_back([&, i] { body(i); });
    body(0);
    for (auto& t : ts)
      t.join();
    Prod p{99};
    p.pop(0);
    SIM_CHECK(!stack.try_pop_all(), "duplicate", "the stack is not empty after try_pop_all");
    p.drop();
  }
  sim::quiet([] {
    for (int i = 0; i < S.n; ++i) {
      Rec& r = S.r[i];
      SIM_CHECK(r.popped == 1, "lost", "node %d was never popped", i);
      // a push that was over before a pop began is taken by that pop or by one that overlaps or precedes it
      for (int k = 0; k < S.npops; ++k)
        if (r.ret < S.pop_inv[k])
          SIM_CHECK(r.pinv < S.pop_ret[k], "lost", "node %d was pushed before pop %d began, but only a later pop returned it", i, k);
    }
  });
}
