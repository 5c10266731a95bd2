// C19: every priority queue equals a reference map after every operation sequence.
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <vector>

#include "mc.h"

#include "kaminpar-common/datastructures/binary_heap.h"

using namespace kaminpar;

namespace {
using Key = int;
using Ref = std::map<int, Key>; // content of one heap

// Uniform adapter: H heaps over a shared id space.
struct Adapter {
  int cap, heaps;
  bool max;
  virtual ~Adapter() = default;
  virtual const char *name() = 0;
  virtual void push(int h, int id, Key k) = 0;
  virtual void pop(int h) = 0;
  virtual void remove(int h, int id) = 0;
  virtual void change(int h, int id, Key k) = 0;
  virtual void push_or_change(int h, int id, Key k) = 0;
  virtual void clear(int h) = 0;
  virtual bool contains(int h, int id) = 0;
  virtual Key key(int h, int id) = 0;
  virtual std::size_t size(int h) = 0;
  virtual bool empty(int h) = 0;
  virtual int peek_id(int h) = 0;
  virtual Key peek_key(int h) = 0;
  virtual void resize(int) {}
  virtual void extra(std::vector<Ref> &) {}
};
template <typename Heap, bool kMax> struct Plain : Adapter {
  Heap q;
  Plain(int c) : q(c) { cap = c; heaps = 1; max = kMax; }
  const char *name() override { return kMax ? "BinaryMaxHeap" : "BinaryMinHeap"; }
  void push(int, int id, Key k) override { q.push(id, k); }
  void pop(int) override { q.pop(); }
  void remove(int, int id) override { q.remove(id); }
  void change(int, int id, Key k) override { q.change_priority(id, k); }
  void push_or_change(int, int id, Key k) override { q.push_or_change_priority(id, k); }
  void clear(int) override { q.clear(); }
  bool contains(int, int id) override { return q.contains(id); }
  Key key(int, int id) override { return q.key(id); }
  std::size_t size(int) override { return q.size(); }
  bool empty(int) override { return q.empty(); }
  int peek_id(int) override { return static_cast<int>(q.peek_id()); }
  Key peek_key(int) override { return q.peek_key(); }
  void resize(int c) override { q.resize(c); cap = c; }
  void extra(std::vector<Ref> &) override {
    if (q.capacity() != static_cast<std::size_t>(cap)) mc::fail("capacity");
  }
};
template <template <typename> typename Heap, bool kMax> struct Shared : Adapter {
  std::vector<std::size_t> pos;
  std::vector<Heap<Key>> q;
  Shared(int c, int h) : pos(c, Heap<Key>::kInvalidID) {
    cap = c; heaps = h; max = kMax;
    for (int i = 0; i < h; ++i) q.emplace_back(c, pos.data());
  }
  const char *name() override { return kMax ? "SharedBinaryMaxHeap" : "SharedBinaryMinHeap"; }
  void push(int h, int id, Key k) override { q[h].push(id, k); }
  void pop(int h) override { q[h].pop(); }
  void remove(int h, int id) override { q[h].remove(id); }
  void change(int h, int id, Key k) override { q[h].change_priority(id, k); }
  void push_or_change(int h, int id, Key k) override { q[h].push_or_change_priority(id, k); }
  void clear(int h) override { q[h].clear(); }
  bool contains(int h, int id) override { return q[h].contains(id); }
  Key key(int h, int id) override { return q[h].key(id); }
  std::size_t size(int h) override { return q[h].size(); }
  bool empty(int h) override { return q[h].empty(); }
  int peek_id(int h) override { return static_cast<int>(q[h].peek_id()); }
  Key peek_key(int h) override { return q[h].peek_key(); }
};
template <typename Forest, bool kMax> struct Forests : Adapter {
  Forest q;
  Forests(int c, int h) : q(c, h) { cap = c; heaps = h; max = kMax; }
  const char *name() override { return kMax ? "DynamicBinaryMaxForest" : "DynamicBinaryMinForest"; }
  void push(int h, int id, Key k) override { q.push(h, id, k); }
  void pop(int h) override { q.pop(h); }
  void remove(int h, int id) override { q.remove(h, id); }
  void change(int h, int id, Key k) override { q.change_priority(h, id, k); }
  void push_or_change(int h, int id, Key k) override { q.push_or_change_priority(h, id, k); }
  void clear(int h) override { q.clear(h); }
  bool contains(int, int id) override { return q.contains(id); }
  Key key(int h, int id) override { return q.key(h, id); }
  std::size_t size(int h) override { return q.size(h); }
  bool empty(int h) override { return q.empty(h); }
  int peek_id(int h) override { return static_cast<int>(q.peek_id(h)); }
  Key peek_key(int h) override { return q.peek_key(h); }
  void extra(std::vector<Ref> &r) override {
    std::size_t n = 0;
    for (int h = 0; h < heaps; ++h) {
      n += r[h].size();
      Ref seen;
      for (auto &e : q.elements(h)) seen[static_cast<int>(e.id)] = e.key;
      if (seen != r[h]) mc::fail("elements()");
    }
    if (q.size() != n) mc::fail("total size");
    if (q.capacity() != static_cast<std::size_t>(cap)) mc::fail("capacity");
  }
};
template <bool kMax> struct MinMax : Adapter { // kMax: which end plays the role of the top
  DynamicBinaryMinMaxForest<unsigned, Key> q;
  MinMax(int c, int h) : q(c, h) { cap = c; heaps = h; max = kMax; }
  const char *name() override { return kMax ? "DynamicBinaryMinMaxForest/max" : "DynamicBinaryMinMaxForest/min"; }
  void push(int h, int id, Key k) override { q.push(h, id, k); }
  void pop(int h) override { kMax ? q.pop_max(h) : q.pop_min(h); }
  void remove(int h, int id) override { q.remove(h, id); }
  void change(int h, int id, Key k) override { q.change_priority(h, id, k); }
  void push_or_change(int h, int id, Key k) override { q.contains(id) ? q.change_priority(h, id, k) : q.push(h, id, k); }
  void clear(int h) override { q.clear(h); }
  bool contains(int, int id) override { return q.contains(id); }
  Key key(int h, int id) override { return q.key(h, id); }
  std::size_t size(int h) override { return q.size(h); }
  bool empty(int h) override { return q.empty(h); }
  int peek_id(int h) override { return static_cast<int>(kMax ? q.peek_max_id(h) : q.peek_min_id(h)); }
  Key peek_key(int h) override { return kMax ? q.peek_max_key(h) : q.peek_min_key(h); }
  void extra(std::vector<Ref> &r) override {
    std::size_t n = 0;
    for (int h = 0; h < heaps; ++h) {
      n += r[h].size();
      if (r[h].empty()) continue;
      Key lo = r[h].begin()->second, hi = lo;
      for (auto [i, k] : r[h]) { lo = std::min(lo, k); hi = std::max(hi, k); }
      if (q.peek_min_key(h) != lo || r[h].at(static_cast<int>(q.peek_min_id(h))) != lo) mc::fail("minimum of the min-max forest");
      if (q.peek_max_key(h) != hi || r[h].at(static_cast<int>(q.peek_max_id(h))) != hi) mc::fail("maximum of the min-max forest");
    }
    if (q.size() != n || q.capacity() != static_cast<std::size_t>(cap)) mc::fail("total size of the min-max forest");
  }
};

std::string show(const std::vector<Ref> &r) {
  std::string s;
  for (auto &h : r) {
    s += "{";
    for (auto [i, k] : h) s += std::to_string(i) + ":" + std::to_string(k) + " ";
    s += "}";
  }
  return s;
}
void verify(Adapter &a, std::vector<Ref> &r, const std::string &trail) {
  const auto bad = [&](const std::string &w) { mc::fail(std::string(a.name()) + ": " + w + " after" + trail + ", expected content " + show(r)); };
  std::vector<char> in(a.cap, 0);
  for (int h = 0; h < a.heaps; ++h) {
    if (a.size(h) != r[h].size() || a.empty(h) != r[h].empty()) bad("size of heap " + std::to_string(h) + " is " + std::to_string(a.size(h)));
    if (!r[h].empty()) {
      Key best = r[h].begin()->second;
      for (auto [i, k] : r[h]) best = a.max ? std::max(best, k) : std::min(best, k);
      if (a.peek_key(h) != best) bad("top key is " + std::to_string(a.peek_key(h)));
      const int id = a.peek_id(h);
      if (!r[h].count(id) || r[h][id] != best) bad("top id is " + std::to_string(id));
    }
    for (auto [i, k] : r[h]) {
      in[i] = 1;
      if (!a.contains(h, i)) bad("element " + std::to_string(i) + " lost");
      if (a.key(h, i) != k) bad("key of " + std::to_string(i) + " is " + std::to_string(a.key(h, i)));
    }
  }
  for (int i = 0; i < a.cap; ++i)
    if (!in[i] && a.contains(0, i)) bad("element " + std::to_string(i) + " should be absent");
  a.extra(r);
}
void drain(Adapter &a, std::vector<Ref> &r, const std::string &trail) {
  for (int h = 0; h < a.heaps; ++h) {
    while (!r[h].empty()) {
      Key best = r[h].begin()->second;
      for (auto [i, k] : r[h]) best = a.max ? std::max(best, k) : std::min(best, k);
      const int id = a.peek_id(h);
      if (a.peek_key(h) != best || !r[h].count(id) || r[h][id] != best)
        mc::fail(std::string(a.name()) + ": draining delivers " + std::to_string(a.peek_key(h)) + " after" + trail + ", content " + show(r));
      a.pop(h);
      r[h].erase(id);
      if (a.size(h) != r[h].size() || a.contains(h, id)) mc::fail(std::string(a.name()) + ": pop did not remove the top after" + trail);
    }
    if (!a.empty(h)) mc::fail(std::string(a.name()) + ": not empty after draining, after" + trail);
  }
}

enum Kind { Push, Pop, Remove, Change, PushOrChange, Clear };
struct Op { Kind kind; int h, id; Key k; };
// Applies the operation if its precondition holds; false otherwise.
bool apply(Adapter &a, std::vector<Ref> &r, const Op &o, std::string *trail) {
  static const char *names[] = {"push", "pop", "remove", "change", "push_or_change", "clear"};
  int owner = -1;
  if (o.id >= 0)
    for (int h = 0; h < a.heaps; ++h)
      if (r[h].count(o.id)) owner = h;
  switch (o.kind) {
  case Push: if (owner >= 0) return false; a.push(o.h, o.id, o.k); r[o.h][o.id] = o.k; break;
  case Pop: {
    if (r[o.h].empty()) return false;
    const int id = a.peek_id(o.h);
    if (!r[o.h].count(id)) mc::fail(std::string(a.name()) + ": top is not an element after" + *trail);
    a.pop(o.h);
    r[o.h].erase(id);
    break;
  }
  case Remove: if (owner != o.h) return false; a.remove(o.h, o.id); r[o.h].erase(o.id); break;
  case Change: if (owner != o.h) return false; a.change(o.h, o.id, o.k); r[o.h][o.id] = o.k; break;
  case PushOrChange: if (owner >= 0 && owner != o.h) return false; a.push_or_change(o.h, o.id, o.k); r[o.h][o.id] = o.k; break;
  case Clear: a.clear(o.h); r[o.h].clear(); break;
  }
  *trail += std::string(" ") + names[o.kind] + (a.heaps > 1 ? "@" + std::to_string(o.h) : "") + (o.id >= 0 ? " " + std::to_string(o.id) : "") +
            (o.kind == Push || o.kind == Change || o.kind == PushOrChange ? "=" + std::to_string(o.k) : "");
  return true;
}
using Make = std::function<std::unique_ptr<Adapter>(int cap)>;

void all_sequences(const Make &make, int ids, const std::vector<Key> &keys, int depth) {
  auto probe = make(ids);
  std::vector<Op> ops;
  for (int h = 0; h < probe->heaps; ++h) {
    for (int i = 0; i < ids; ++i) {
      for (Key k : keys) {
        ops.push_back({PushOrChange, h, i, k});
      }
      ops.push_back({Remove, h, i, 0});
      ops.push_back({Push, h, i, keys[1]});
      ops.push_back({Change, h, i, keys[0]});
    }
    ops.push_back({Pop, h, -1, 0});
    ops.push_back({Clear, h, -1, 0});
  }
  std::vector<int> seq;
  std::function<void()> rec = [&] {
    if (!seq.empty()) {
      auto a = make(ids);
      std::vector<Ref> r(a->heaps);
      std::string trail;
      for (int i : seq)
        if (!apply(*a, r, ops[i], &trail)) return; // disabled operation: prune
      mc::count_case();
      verify(*a, r, trail);
      if (static_cast<int>(seq.size()) == depth) drain(*a, r, trail);
    }
    if (static_cast<int>(seq.size()) == depth) return;
    for (int i = 0; i < static_cast<int>(ops.size()); ++i) {
      seq.push_back(i);
      rec();
      seq.pop_back();
    }
  };
  rec();
}

// n elements in every insertion order / with every tie pattern, then every single change or removal.
void fills(const Make &make, int n, bool ties) {
  std::vector<int> order(n);
  std::iota(order.begin(), order.end(), 0);
  std::vector<int> code(n, 0);
  while (true) {
    std::vector<Key> keys(n);
    for (int i = 0; i < n; ++i) keys[i] = ties ? code[i] * 10 : order[i] * 10;
    auto base = [&](Adapter &a, std::vector<Ref> &r, std::string &t) {
      for (int i = 0; i < n; ++i) apply(a, r, {Push, i % a.heaps, i, keys[i]}, &t);
    };
    {
      mc::count_case();
      auto a = make(n);
      std::vector<Ref> r(a->heaps);
      std::string t;
      base(*a, r, t);
      verify(*a, r, t);
      drain(*a, r, t);
    }
    for (int i = 0; i < n; ++i) {
      std::vector<Key> news;
      if (ties) news = {-5, 5, 15, 25};
      else news = {-5, keys[i] - 15, keys[i] + 15, 10 * n + 5};
      for (int c = 0; c <= static_cast<int>(news.size()); ++c) {
        mc::count_case();
        auto a = make(n);
        std::vector<Ref> r(a->heaps);
        std::string t;
        base(*a, r, t);
        if (c < static_cast<int>(news.size())) apply(*a, r, {Change, i % a->heaps, i, news[c]}, &t);
        else apply(*a, r, {Remove, i % a->heaps, i, 0}, &t);
        verify(*a, r, t);
        drain(*a, r, t);
        // reuse after being emptied
        apply(*a, r, {Push, 0, n - 1, 3}, &t);
        verify(*a, r, t);
      }
    }
    if (ties) {
      int i = 0;
      for (; i < n; ++i) {
        if (++code[i] < 3) break;
        code[i] = 0;
      }
      if (i == n) break;
    } else if (!std::next_permutation(order.begin(), order.end())) {
      break;
    }
  }
}
// Larger heaps (three and four levels): a menu of orders, every single change/removal.
void large(const Make &make, int n) {
  for (int pat = 0; pat < 6; ++pat) {
    std::vector<Key> keys(n);
    for (int i = 0; i < n; ++i)
      keys[i] = pat == 0 ? i * 10 : pat == 1 ? (n - i) * 10 : pat == 2 ? ((i * 37) % n) * 10 : pat == 3 ? ((i * 11 + 5) % 7) * 10 : pat == 4 ? (i % 2 ? i : n - i) * 10 : 10 * ((i ^ (i >> 1)) % 16);
    for (int i = -1; i < n; ++i)
      for (int c = 0; c < 6; ++c) {
        mc::count_case();
        auto a = make(n);
        std::vector<Ref> r(a->heaps);
        std::string t = " large";
        for (int j = 0; j < n; ++j) apply(*a, r, {Push, j % a->heaps, j, keys[j]}, &t);
        if (i >= 0) {
          const Key nk = c == 0 ? -5 : c == 1 ? 10 * n + 5 : c == 2 ? keys[i] - 25 : c == 3 ? keys[i] + 25 : keys[(i * 3 + 1) % n];
          if (c < 5) apply(*a, r, {Change, i % a->heaps, i, nk}, &t);
          else apply(*a, r, {Remove, i % a->heaps, i, 0}, &t);
        }
        verify(*a, r, t);
        drain(*a, r, t);
      }
  }
}

template <typename Q> void dynamic_heap(bool max, int depth) { // ids may repeat
  std::vector<int> seq;
  const int K = 4, I = 2;
  std::function<void()> rec = [&] {
    mc::count_case();
    Q q(seq.size() % 3);
    std::multimap<Key, int> ref;
    std::string trail;
    for (int s : seq) {
      if (s < K * I) {
        q.push(static_cast<unsigned>(s / K), s % K);
        ref.insert({s % K, s / K});
        trail += " push " + std::to_string(s / K) + "=" + std::to_string(s % K);
      } else if (s == K * I) {
        if (ref.empty()) return;
        const Key best = max ? ref.rbegin()->first : ref.begin()->first;
        if (q.peek_key() != best) mc::fail("DynamicBinaryHeap top after" + trail);
        auto [lo, hi] = ref.equal_range(best);
        auto it = std::find_if(lo, hi, [&](auto &e) { return e.second == static_cast<int>(q.peek_id()); });
        if (it == hi) mc::fail("DynamicBinaryHeap top id after" + trail);
        ref.erase(it);
        q.pop();
        trail += " pop";
      } else {
        q.clear();
        ref.clear();
        trail += " clear";
      }
    }
    if (q.size() != ref.size() || q.empty() != ref.empty()) mc::fail("DynamicBinaryHeap size after" + trail);
    std::multimap<Key, int> el;
    for (auto &e : q.elements()) el.insert({e.key, static_cast<int>(e.id)});
    std::map<std::pair<Key, int>, int> c1, c2;
    for (auto [k, i] : el) ++c1[{k, i}];
    for (auto [k, i] : ref) ++c2[{k, i}];
    if (c1 != c2) mc::fail("DynamicBinaryHeap elements after" + trail);
    while (!q.empty()) {
      const Key best = max ? ref.rbegin()->first : ref.begin()->first;
      if (q.peek_key() != best) mc::fail("DynamicBinaryHeap drain after" + trail);
      auto [lo, hi] = ref.equal_range(best);
      auto it = std::find_if(lo, hi, [&](auto &e) { return e.second == static_cast<int>(q.peek_id()); });
      if (it == hi) mc::fail("DynamicBinaryHeap drain id after" + trail);
      ref.erase(it);
      q.pop();
    }
    if (static_cast<int>(seq.size()) == depth) return;
    for (int s = 0; s < K * I + 2; ++s) {
      seq.push_back(s);
      rec();
      seq.pop_back();
    }
  };
  rec();
}
} // namespace

void mc_main() {
  const bool th = mc::thorough();
  std::vector<std::pair<std::string, Make>> kinds = {
      {"max", [](int c) { return std::make_unique<Plain<BinaryMaxHeap<Key>, true>>(c); }},
      {"min", [](int c) { return std::make_unique<Plain<BinaryMinHeap<Key>, false>>(c); }},
      {"shared max", [](int c) { return std::make_unique<Shared<SharedBinaryMaxHeap, true>>(c, 2); }},
      {"shared min", [](int c) { return std::make_unique<Shared<SharedBinaryMinHeap, false>>(c, 2); }},
      {"forest max", [](int c) { return std::make_unique<Forests<DynamicBinaryMaxForest<unsigned, Key>, true>>(c, 2); }},
      {"forest min", [](int c) { return std::make_unique<Forests<DynamicBinaryMinForest<unsigned, Key>, false>>(c, 2); }},
      {"forest1 max", [](int c) { return std::make_unique<Forests<DynamicBinaryMaxForest<unsigned, Key>, true>>(c, 1); }},
      {"minmax max", [](int c) { return std::make_unique<MinMax<true>>(c, 2); }},
      {"minmax min", [](int c) { return std::make_unique<MinMax<false>>(c, 1); }},
  };
  for (auto &[n, mk] : kinds) {
    const bool two = mk(3)->heaps == 2;
    mc::run(n + " sequences 3 ids", [&] { all_sequences(mk, two ? 2 : 3, {0, 1, 2}, (two ? 4 : 4) + (th ? 1 : 0)); });
    mc::run(n + " sequences 2 ids", [&] { all_sequences(mk, 2, {-7, 4}, (two ? 4 : 5) + (th ? 1 : 0)); });
    mc::run(n + " fills ties", [&] { for (int k = 1; k <= (th ? 9 : 7); ++k) fills(mk, k, true); });
    mc::run(n + " fills orders", [&] { for (int k = 1; k <= (th ? 8 : 7); ++k) fills(mk, k, false); });
    mc::run(n + " large", [&] { for (int k : {9, 21, 22, 26, 40, 86, 100}) large(mk, k); });
  }
  mc::run("resize and reuse", [&] {
    for (int c1 = 0; c1 <= 5; ++c1)
      for (int c2 = 1; c2 <= 12; ++c2)
        for (bool mx : {false, true}) {
          mc::count_case();
          auto a = mx ? kinds[0].second(c1) : kinds[1].second(c1);
          std::vector<Ref> r(1);
          std::string t = " capacity " + std::to_string(c1);
          for (int i = 0; i < c1; ++i) apply(*a, r, {Push, 0, i, (i * 5) % 3}, &t);
          verify(*a, r, t);
          apply(*a, r, {Clear, 0, -1, 0}, &t);
          a->resize(c2);
          t += " resize " + std::to_string(c2);
          verify(*a, r, t);
          for (int i = 0; i < c2; ++i) apply(*a, r, {Push, 0, i, (i * 7) % 4}, &t);
          verify(*a, r, t);
          drain(*a, r, t);
        }
  });
  mc::run("decrease_priority_by", [&] {
    for (int n = 1; n <= 24; ++n)
      for (int i = 0; i < n; ++i)
        for (int by : {1, 3, 100}) {
          mc::count_case();
          BinaryMinHeap<Key> q(n);
          std::vector<std::size_t> pos(n, SharedBinaryMinHeap<Key>::kInvalidID);
          SharedBinaryMinHeap<Key> s(n, pos.data());
          std::map<int, int> ref;
          for (int j = 0; j < n; ++j) { q.push(j, (j * 5) % 11); s.push(j, (j * 5) % 11); ref[j] = (j * 5) % 11; }
          q.decrease_priority_by(i, by);
          s.decrease_priority_by(i, by);
          ref[i] -= by;
          for (auto [id, k] : ref)
            if (q.key(id) != k || s.key(id) != k) mc::fail("decrease_priority_by");
          int best = 1000;
          for (auto [id, k] : ref) best = std::min(best, k);
          if (q.peek_key() != best || s.peek_key() != best) mc::fail("top after decrease_priority_by");
        }
  });
  mc::run("dynamic max heap", [&] { dynamic_heap<DynamicBinaryMaxHeap<unsigned, Key>>(true, th ? 7 : 6); });
  mc::run("dynamic min heap", [&] { dynamic_heap<DynamicBinaryMinHeap<unsigned, Key>>(false, th ? 7 : 6); });
}
