// C21: concurrent containers lose and duplicate nothing, under all interleavings up to a deviation bound.
#include <map>
#include <set>
#include <vector>

#include "kv.h"
#include "mc.h"

#include <tbb/concurrent_vector.h>
#include <tbb/parallel_for.h>

#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/refinement/fm/border_nodes.h"
#include "kaminpar-shm/refinement/fm/node_tracker.h"

#include "kaminpar-common/datastructures/concurrent_circular_vector.h"
#include "kaminpar-common/datastructures/concurrent_fast_reset_array.h"
#include "kaminpar-common/datastructures/scalable_vector.h"
#include "kaminpar-common/datastructures/ts_navigable_linked_list.h"
#include "kaminpar-common/parallel/vector_ets.h"

using namespace kaminpar;

namespace {
mc::Config cfg(int T, int p, mc::Assign a = mc::Assign::RoundRobin) {
  mc::Config c;
  c.workers = T;
  c.preemptions = p;
  c.assign = a;
  return c;
}
const char *as_name(mc::Assign a) { return a == mc::Assign::RoundRobin ? "rr" : a == mc::Assign::Mirrored ? "mirrored" : a == mc::Assign::Block ? "block" : "dynamic"; }

// ---------------------------------------------------------------- buffered linked list
struct Elem {
  int a;
  long b;
};
using List = NavigableLinkedList<int, Elem, ScalableVector>;
using Mark = NavigationMarker<int, Elem, ScalableVector>;

// Key i owns sizes[i] elements (a = i, b = running number).
template <template <typename> typename Global> void check_list(const std::vector<int> &sizes, bool preset_global) {
  List list;
  tbb::parallel_for<int>(0, static_cast<int>(sizes.size()), [&](const int key) {
    auto &local = list.local();
    local.mark(key);
    for (int j = 0; j < sizes[key]; ++j) {
      if (j % 3 == 0) local.push_back(Elem{key, j});
      else if (j % 3 == 1) { Elem e{key, j}; local.push_back(e); }
      else local.emplace_back(Elem{key, j});
    }
  });
  Global<Mark> init;
  if (preset_global) init.resize(sizes.size() + 2);
  auto markers = ts_navigable_list::combine<int, Elem, ScalableVector, Global>(list, std::move(init));
  if (markers.size() != sizes.size() + (preset_global ? 2 : 0)) mc::fail("wrong number of markers: " + std::to_string(markers.size()));
  std::set<int> keys;
  std::set<std::pair<const void *, std::size_t>> slots;
  for (std::size_t i = 0; i < sizes.size(); ++i) {
    const Mark &m = markers[i];
    if (m.key < 0 || m.key >= static_cast<int>(sizes.size()) || !keys.insert(m.key).second) mc::fail("marker lost or duplicated: key " + std::to_string(m.key));
    for (int j = 0; j < sizes[m.key]; ++j) {
      const Elem &e = m.local_list->get(m.position + static_cast<std::size_t>(j));
      if (e.a != m.key || e.b != j) mc::fail("element " + std::to_string(j) + " of key " + std::to_string(m.key) + " reads " + std::to_string(e.a) + "/" + std::to_string(e.b));
      if (!slots.insert({m.local_list, m.position + static_cast<std::size_t>(j)}).second) mc::fail("two elements share a slot");
    }
  }
  std::uint64_t h = 0;
  for (std::size_t i = 0; i < sizes.size(); ++i) h = kv::hash_add(h, static_cast<std::uint64_t>(markers[i].key) * 64 + markers[i].position);
  mc::observe(h);
}
void linked_list() {
  for (auto a : {mc::Assign::RoundRobin, mc::Assign::Dynamic, mc::Assign::Block})
    for (int T = 1; T <= 3; ++T)
      for (bool preset : {false, true}) {
        const std::string tag = std::string(" T=") + std::to_string(T) + " " + as_name(a) + (preset ? " preallocated" : "");
        mc::explore("linked list, small" + tag, cfg(T, T == 2 ? 2 : 1, a), [=] { check_list<StaticArray>({2, 0, 3, 1}, preset); });
        mc::explore("linked list, ScalableVector" + tag, cfg(T, 1, a), [=] { check_list<ScalableVector>({1, 2, 0}, preset); });
        // chunk boundaries of 2^15 elements
        for (auto &s : std::vector<std::vector<int>>{{32768, 1, 2}, {32767, 1, 1, 5}, {32769, 3, 0, 2}, {1, 40000, 2, 40000, 3}, {32766, 4, 32768, 32768, 7}, {0, 32768, 0, 65536, 0}})
          mc::explore("linked list, chunk boundary " + kv::vec(s) + tag, cfg(T, 0, a), [=] { check_list<StaticArray>(s, preset); });
      }
}

// ---------------------------------------------------------------- ordering buffers
template <typename Buf> void circular(const std::string &name) {
  for (int T = 1; T <= 3; ++T)
    for (int size = T; size <= T + 1; ++size)
      for (int per = 1; per <= (T == 1 ? 6 : T == 2 ? 3 : 2); ++per) {
        const int p = T == 3 ? (mc::thorough() ? 3 : 2) : (mc::thorough() ? 5 : 3);
        mc::explore(name + " T=" + std::to_string(T) + " size=" + std::to_string(size) + " entries/thread=" + std::to_string(per), cfg(T, p), [=] {
          Buf buf(size);
          std::vector<std::vector<std::array<unsigned, 3>>> log(T); // entry, delta, value
          tbb::parallel_for<int>(0, T, [&](const int w) {
            for (int i = 0; i < per; ++i) {
              const unsigned e = buf.next();
              const unsigned delta = static_cast<unsigned>(1 + w * 10 + i); // never zero
              log[w].push_back({e, delta, static_cast<unsigned>(buf.fetch_and_update(e, delta))});
            }
          });
          std::map<unsigned, std::array<unsigned, 3>> all;
          for (auto &l : log)
            for (auto &x : l)
              if (!all.emplace(x[0], x).second) mc::fail("two threads got entry " + std::to_string(x[0]));
          unsigned sum = 0, idx = 0;
          std::uint64_t h = 0;
          for (auto &[e, x] : all) {
            if (e != idx++) mc::fail("entries are not consecutive");
            if (x[2] != sum) mc::fail("entry " + std::to_string(e) + " was released with " + std::to_string(x[2]) + " instead of " + std::to_string(sum));
            sum += x[1];
            h = kv::hash_add(h, x[1]);
          }
          mc::observe(h);
        });
      }
}

// ---------------------------------------------------------------- resettable array
void fast_reset() {
  for (auto a : {mc::Assign::RoundRobin, mc::Assign::Dynamic})
    for (int T = 1; T <= 3; ++T)
      mc::explore(std::string("concurrent resettable array T=") + std::to_string(T) + " " + as_name(a), cfg(T, T == 2 ? 3 : 2, a), [=] {
        ConcurrentFastResetArray<int, unsigned> arr(5);
        const std::vector<unsigned> pos = {1, 3, 1, 4, 3, 1};
        for (int round = 0; round < 2; ++round) {
          if (round == 1) arr.resize(6);
          if (arr.capacity() != (round ? 6u : 5u)) mc::fail("capacity");
          tbb::parallel_for<int>(0, static_cast<int>(pos.size()), [&](const int i) {
            if (__atomic_fetch_add(&arr[pos[i]], i + 1, __ATOMIC_RELAXED) == 0) arr.local_used_entries().push_back(pos[i]);
          });
          std::map<unsigned, int> want, got;
          for (std::size_t i = 0; i < pos.size(); ++i) want[pos[i]] += static_cast<int>(i) + 1;
          tbb::concurrent_vector<std::pair<unsigned, int>> out;
          tbb::concurrent_vector<std::size_t> who;
          arr.iterate_and_reset([&](const auto i, auto &&entries) {
            who.push_back(i);
            for (const auto [p, v] : entries) out.push_back({static_cast<unsigned>(p), v});
          });
          for (const auto &[p, v] : out)
            if (!got.emplace(p, v).second) mc::fail("entry reported twice");
          if (got != want) mc::fail("content of the resettable array is wrong");
          std::set<std::size_t> w;
          for (const auto x : who)
            if (static_cast<int>(x) >= T || !w.insert(x).second) mc::fail("per-thread list visited twice");
          for (unsigned p = 0; p < arr.capacity(); ++p)
            if (arr[p] != 0) mc::fail("entry " + std::to_string(p) + " was not reset");
          int left = 0;
          arr.iterate_and_reset([&](auto, auto &&) { ++left; });
          if (left) mc::fail("used entries were not cleared");
          mc::observe(kv::hash_add(out.size(), w.size() * 8 + (out.empty() ? 0 : out[0].first)));
        }
        arr.free();
        if (arr.capacity() != 0) mc::fail("free");
        arr.resize(3);
        arr[2] = 4;
        arr.local_used_entries().push_back(2);
        int n = 0;
        arr.iterate_and_reset([&](auto, auto &&es) { for (const auto [p, v] : es) n += static_cast<int>(p) * 10 + v; });
        if (n != 24 || arr[2] != 0) mc::fail("reuse after free");
      });
}

// ---------------------------------------------------------------- per-thread vectors
void ets() {
  for (auto a : {mc::Assign::RoundRobin, mc::Assign::Dynamic})
    for (int T = 1; T <= 3; ++T)
      mc::explore(std::string("per-thread vector T=") + std::to_string(T) + " " + as_name(a), cfg(T, 2, a), [=] {
        parallel::vector_ets<long> v(3);
        std::vector<long> want(3, 0), mx(3, 0);
        tbb::parallel_for<int>(0, 8, [&](int i) { v.local()[i % 3] += 1l << (4 * i); });
        for (int i = 0; i < 8; ++i) want[i % 3] += 1l << (4 * i);
        const auto sum = v.combine(std::plus<>{});
        for (int i = 0; i < 3; ++i)
          if (sum[i] != want[i]) mc::fail("combined per-thread vector");
        const auto again = v.combine([](long x, long y) { return std::max(x, y); });
        for (int i = 0; i < 3; ++i)
          if (again[i] > want[i] || again[i] * 8 < want[i]) mc::fail("combine changed the content");
      });
}

// ---------------------------------------------------------------- shared queue of border nodes
struct FakeGains {
  unsigned border; // bitmask
  bool is_border_node(const shm::NodeID u, const shm::BlockID) const { return (border >> u) & 1; }
};
void border() {
  using namespace kaminpar::shm;
  for (int T = 1; T <= 3; ++T)
    for (unsigned mask : {0b11111u, 0b10110u, 0b00001u, 0u})
      for (int cnt = 1; cnt <= 3; ++cnt)
        for (int locked = 0; locked < 2; ++locked)
          mc::explore("border node queue T=" + std::to_string(T) + " mask " + std::to_string(mask) + " batch " + std::to_string(cnt) + (locked ? " with locked nodes" : ""), cfg(T, T == 2 ? 3 : 2), [=] {
            kv::RefGraph rg = kv::path(5);
            Graph g = kv::mkgraph(rg);
            PartitionedGraph pg(g, 2, StaticArray<BlockID>(5, 0, static_array::seq));
            FakeGains gains{mask};
            fm::NodeTracker tracker(5);
            tracker.set(2, 9); // stale owner, must be reset by init
            fm::BorderNodes<FakeGains> q(gains, tracker);
            q.init(pg);
            const std::size_t num = static_cast<std::size_t>(__builtin_popcount(mask));
            if (q.size() != num || q.remaining() != num || q.has_more() != (num > 0)) mc::fail("size of the queue");
            if (locked) tracker.set(1, fm::NodeTracker::MOVED_GLOBALLY);
            std::vector<std::vector<NodeID>> got(T);
            tbb::parallel_for<int>(0, T, [&](const int w) {
              while (true) {
                const std::size_t before = got[w].size();
                const NodeID p = q.poll(static_cast<NodeID>(cnt), w + 1, [&](const NodeID u) { got[w].push_back(u); });
                if (got[w].size() - before != p || p > static_cast<NodeID>(cnt)) mc::fail("poll reports a wrong number");
                if (p == 0) break;
              }
            });
            std::set<NodeID> all;
            std::uint64_t h = 0;
            for (int w = 0; w < T; ++w)
              for (NodeID u : got[w]) {
                if (!all.insert(u).second) mc::fail("border node " + std::to_string(u) + " was given out twice");
                if (tracker.owner(u) != w + 1) mc::fail("owner of node " + std::to_string(u));
                h = kv::hash_add(h, u * 4 + w);
              }
            for (NodeID u = 0; u < 5; ++u) {
              const bool expect = ((mask >> u) & 1) && !(locked && u == 1);
              if (expect != (all.count(u) > 0)) mc::fail("border node " + std::to_string(u) + (expect ? " was lost" : " was given out wrongly"));
            }
            if (q.has_more() || q.remaining() != 0) mc::fail("drained queue has more");
            mc::observe(h);
            q.init_precomputed(pg, std::vector<NodeID>{3, 0});
            if (q.size() != 2 || q.get() != 3 || q.remaining() != 2 || tracker.owner(3) != 0) mc::fail("init_precomputed");
          });
  // seed nodes contended directly
  for (int T = 2; T <= 3; ++T)
    mc::explore("node locks T=" + std::to_string(T), cfg(T, 3), [=] {
      fm::NodeTracker t(2);
      std::vector<std::vector<int>> won(2, std::vector<int>(T, 0));
      tbb::parallel_for<int>(0, T, [&](const int w) {
        for (int i = 0; i < 2; ++i) {
          const int u = w % 2 ? 1 - i : i;
          won[u][w] = t.lock(static_cast<NodeID>(u), w + 1);
        }
      });
      for (int u = 0; u < 2; ++u) {
        int sum = 0, who = 0;
        for (int w = 0; w < T; ++w)
          if (won[u][w]) { ++sum; who = w + 1; }
        if (sum != 1 || t.owner(static_cast<NodeID>(u)) != who) mc::fail("a node lock was granted " + std::to_string(sum) + " times");
        mc::observe(static_cast<std::uint64_t>(u * 8 + who));
      }
      t.reset();
      if (t.owner(0) != 0 || t.owner(1) != 0) mc::fail("reset");
    });
}
} // namespace

void mc_main() {
  linked_list();
  circular<ConcurrentCircularVectorSpinlock<unsigned, unsigned>>("spinning ordering buffer");
  circular<ConcurrentCircularVectorMutex<unsigned, unsigned>>("mutex ordering buffer");
  fast_reset();
  ets();
  border();
}
