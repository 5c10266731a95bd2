// C17: block weights are exact and conditional moves respect their limit, for all move sequences and
// all interleavings.
#include <tbb/parallel_for.h>

#include "kv.h"

#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"

using namespace kv;

namespace {
using PG = PartitionedGraph;

RefGraph nodes(const std::vector<long> &w) {
  RefGraph g = path(static_cast<int>(w.size()));
  g.vw = w;
  return g;
}
StaticArray<BlockID> part(const std::vector<int> &p) {
  StaticArray<BlockID> a(p.size(), kaminpar::static_array::seq);
  for (size_t i = 0; i < p.size(); ++i) a[i] = p[i] < 0 ? kInvalidBlockID : static_cast<BlockID>(p[i]);
  return a;
}
template <typename P> void verify(const P &pg, const RefGraph &g, const std::vector<int> &p, BlockID k, const std::string &what) {
  std::map<long, long> w;
  for (int u = 0; u < g.n(); ++u) {
    const BlockID want = p[u] < 0 ? kInvalidBlockID : static_cast<BlockID>(p[u]);
    if (pg.block(u) != want) mc::fail(what + ": block of vertex " + std::to_string(u));
    if (p[u] >= 0) w[p[u]] += g.vw[u];
  }
  for (BlockID b = 0; b < k; ++b) {
    if (b > 20 && b + 20 < k && !w.count(b)) continue;
    if (pg.block_weight(b) != (w.count(b) ? w[b] : 0)) mc::fail(what + ": weight of block " + std::to_string(b) + " is " + std::to_string(pg.block_weight(b)) + " for partition " + vec(p) + " weights " + vec(g.vw));
  }
}

void init_case(const RefGraph &g, const std::vector<int> &p, BlockID k) {
  mc::count_case();
  Graph gr = mkgraph(g);
  CSRGraph cg = csr(g);
  const std::string what = "init k=" + std::to_string(k);
  {
    PG pg(gr, k, part(p));
    verify(pg, g, p, k, what + " par");
    for (BlockID b : pg.blocks())
      if (b >= k) mc::fail("blocks()");
  }
  {
    PG pg(PG::seq{}, gr, k, part(p));
    verify(pg, g, p, k, what + " seq");
  }
  {
    PartitionedCSRGraph pg(PartitionedCSRGraph::seq{}, cg, k, part(p));
    verify(pg, g, p, k, what + " csr seq");
    PartitionedCSRGraph pg2(cg, k, part(p));
    verify(pg2, g, p, k, what + " csr par");
    auto bw = pg2.take_raw_block_weights();
    auto pp = pg2.take_raw_partition();
    PartitionedCSRGraph pg3(cg, k, std::move(pp), std::move(bw));
    verify(pg3, g, p, k, what + " given");
  }
}

struct SeqOp { int kind, u, to; long max; };
// model: conditional move, forced assignment, pure weight shift
void sequences(const RefGraph &g, const std::vector<int> &init, BlockID k, const std::vector<long> &limits, int depth, bool delta) {
  std::vector<SeqOp> ops;
  for (int u = 0; u < g.n(); ++u)
    for (int to = 0; to < static_cast<int>(k); ++to) {
      ops.push_back({1, u, to, 0});
      for (long m : limits) ops.push_back({0, u, to, m});
    }
  Graph gr = mkgraph(g);
  std::vector<size_t> idx(depth, 0);
  while (true) {
    mc::count_case();
    PG pg(PG::seq{}, gr, k, part(init));
    DeltaPartitionedGraph dpg(&pg);
    std::vector<int> p = init;
    std::vector<long> w(k, 0);
    for (int u = 0; u < g.n(); ++u)
      if (p[u] >= 0) w[p[u]] += g.vw[u];
    std::string trail;
    std::set<int> touched;
    for (int d = 0; d < depth; ++d) {
      const auto &o = ops[idx[d]];
      trail += " " + std::string(o.kind ? "set " : "move ") + std::to_string(o.u) + "->" + std::to_string(o.to) + (o.kind ? "" : " max " + std::to_string(o.max));
      if (delta) {
        if (o.kind != 1) continue;
        dpg.set_block(o.u, o.to);
        if (p[o.u] >= 0) w[p[o.u]] -= g.vw[o.u];
        p[o.u] = o.to;
        w[o.to] += g.vw[o.u];
        touched.insert(o.u);
        verify(dpg, g, p, k, "delta after" + trail);
        verify(pg, g, init, k, "base after" + trail);
        if (dpg.size() != touched.size()) mc::fail("delta size after" + trail);
        continue;
      }
      if (o.kind == 1) {
        pg.set_block(o.u, o.to);
        if (p[o.u] >= 0) w[p[o.u]] -= g.vw[o.u];
        p[o.u] = o.to;
        w[o.to] += g.vw[o.u];
      } else if (p[o.u] >= 0 && p[o.u] != o.to) {
        const bool want = w[o.to] + g.vw[o.u] <= o.max;
        if (pg.move(o.u, p[o.u], o.to, o.max) != want) mc::fail("move returned the wrong verdict after" + trail);
        if (want) {
          w[p[o.u]] -= g.vw[o.u];
          p[o.u] = o.to;
          w[o.to] += g.vw[o.u];
        }
      }
      verify(pg, g, p, k, "after" + trail);
    }
    if (delta) {
      std::map<int, int> seen;
      dpg.for_each([&](const NodeID u, const BlockID b) {
        if (!seen.emplace(u, b).second) mc::fail("delta lists a vertex twice after" + trail);
      });
      if (seen.size() != touched.size()) mc::fail("delta lists " + std::to_string(seen.size()) + " vertices after" + trail);
      for (auto [u, b] : seen)
        if (!touched.count(u) || p[u] != b) mc::fail("delta lists a wrong block after" + trail);
      dpg.clear();
      verify(dpg, g, init, k, "cleared delta after" + trail);
      if (dpg.size()) mc::fail("delta not empty after clear");
    }
    int i = 0;
    for (; i < depth; ++i) {
      if (++idx[i] < ops.size()) break;
      idx[i] = 0;
    }
    if (i == depth) break;
  }
}

struct Move { int u, to; long max; bool force; };
void concurrent(const std::string &name, int T, int bound, const RefGraph &g, const std::vector<int> &init, BlockID k, const std::vector<std::vector<Move>> &prog) {
  mc::Config c;
  c.workers = T;
  c.preemptions = bound;
  c.chunks = T;
  mc::explore(name, c, [&] {
    Graph gr = mkgraph(g);
    PG pg(PG::seq{}, gr, k, part(init));
    std::vector<std::vector<int>> res(prog.size());
    for (size_t i = 0; i < prog.size(); ++i) res[i].assign(prog[i].size(), -1);
    std::vector<int> fin = init;
    std::vector<int> over(prog.size(), 0);
    tbb::parallel_for(0, static_cast<int>(prog.size()), [&](int w) {
      for (size_t i = 0; i < prog[w].size(); ++i) {
        const auto &m = prog[w][i];
        if (m.force) {
          pg.set_block(m.u, m.to);
          fin[m.u] = m.to;
          continue;
        }
        const BlockID from = pg.block(m.u);
        if (static_cast<int>(from) == m.to) continue;
        const bool ok = pg.move(m.u, from, m.to, m.max);
        res[w][i] = ok;
        if (ok) fin[m.u] = m.to;
        if (pg.block(m.u) != static_cast<BlockID>(fin[m.u])) over[w] = 1;
      }
    });
    for (int o : over)
      if (o) mc::fail("a rejected move changed the block, or an accepted one did not");
    verify(pg, g, fin, k, "after concurrent moves");
    // limits: no forced moves into a block => it never exceeds the largest limit used for it (or its initial weight)
    auto w0 = ref_block_weights(g, init, k), w1 = ref_block_weights(g, fin, k);
    for (BlockID b = 0; b < k; ++b) {
      long lim = w0[b];
      bool forced = false;
      for (auto &p : prog)
        for (auto &m : p)
          if (static_cast<BlockID>(m.to) == b) {
            lim = std::max(lim, m.max);
            forced = forced || m.force;
          }
      if (!forced && w1[b] > lim) mc::fail("conditional moves jointly exceeded the limit of block " + std::to_string(b) + ": " + std::to_string(w1[b]) + " > " + std::to_string(lim));
    }
    // two single moves: the verdicts must match one of the sequential orders
    if (prog.size() == 2 && prog[0].size() == 1 && prog[1].size() == 1 && !prog[0][0].force && !prog[1][0].force) {
      bool ok = false;
      for (int first = 0; first < 2; ++first) {
        auto p = init;
        auto w = w0;
        int r[2] = {-1, -1};
        for (int s : {first, 1 - first}) {
          const auto &m = prog[s][0];
          if (p[m.u] == m.to) continue;
          r[s] = w[m.to] + g.vw[m.u] <= m.max;
          if (r[s]) { w[p[m.u]] -= g.vw[m.u]; p[m.u] = m.to; w[m.to] += g.vw[m.u]; }
        }
        ok = ok || (r[0] == res[0][0] && r[1] == res[1][0]);
      }
      if (!ok) mc::fail("verdicts of two concurrent moves match no sequential order");
    }
    std::uint64_t h = 1;
    for (int x : fin) h = hash_add(h, x);
    mc::observe(h);
  });
}
} // namespace

void mc_main() {
  const bool th = mc::thorough();
  // initial weights, all divisions
  for (int T = 1; T <= 3; ++T)
    for (auto as : {mc::Assign::RoundRobin, mc::Assign::Block}) {
      mc::Config c;
      c.workers = T;
      c.chunks = T == 1 ? 3 : 5;
      c.assign = as;
      c.reverse = T == 1;
      mc::explore("init T=" + std::to_string(T) + "/" + std::to_string(static_cast<int>(as)), c, [&] {
        for (int n = 0; n <= 5; ++n)
          for (int wk = 0; wk < 3; ++wk) {
            std::vector<long> w(n, 1);
            for (int i = 0; i < n; ++i) w[i] = wk == 0 ? 1 : wk == 1 ? 1 + i * i : (i % 2 ? 1 : 1000000);
            const RefGraph g = nodes(w);
            for (int k = 1; k <= 3; ++k) {
              long total = 1;
              for (int i = 0; i < n; ++i) total *= k + 1;
              for (long code = 0; code < total; ++code) {
                std::vector<int> p(n);
                long x = code;
                for (int i = 0; i < n; ++i, x /= k + 1) p[i] = static_cast<int>(x % (k + 1)) - 1;
                init_case(g, p, k);
              }
            }
            for (int k : {65535, 65536, 65537, 70000}) {
              std::vector<int> p(n);
              for (int i = 0; i < n; ++i) p[i] = i == 1 ? -1 : i == 0 ? k - 1 : (i * 7919) % k;
              init_case(g, p, k);
              init_case(g, std::vector<int>(n, -1), k);
            }
          }
      });
    }
  // all sequences of operations
  for (auto &w : std::vector<std::vector<long>>{{1, 1, 1}, {1, 2, 3}, {5, 1, 2}})
    for (auto &init : std::vector<std::vector<int>>{{0, 0, 0}, {0, 1, 0}, {1, 0, 1}, {-1, -1, -1}, {0, 1, 2}})
      for (bool delta : {false, true}) {
        bool unassigned = init[0] < 0;
        int k = 3;
        if (delta && unassigned) continue;
        mc::run("sequences w=" + vec(w) + " init=" + vec(init) + (delta ? " delta" : ""), [&] {
          if (delta) sequences(nodes(w), init, k, {}, th ? 5 : 4, true);
          else sequences(nodes(w), init, k, {0, 3, 4}, th ? 3 : 2, false);
          if (!delta) sequences(nodes(w), init, 2, {3}, unassigned || init[2] == 2 ? 1 : (th ? 5 : 4), false);
        });
      }
  // concurrency
  const std::vector<std::vector<long>> ws = {{1, 1, 1, 1}, {3, 2, 2, 1}, {2, 5, 1, 1}};
  const std::vector<std::vector<int>> inits = {{0, 0, 1, 1}, {0, 1, 2, 2}, {0, 0, 0, 0}, {1, 0, 0, 1}};
  for (auto &w : ws)
    for (auto &init : inits) {
      const RefGraph g = nodes(w);
      for (int b1 = 0; b1 < 3; ++b1)
        for (int b2 = 0; b2 < 3; ++b2)
          for (long max : {2, 3, 5, 7}) {
            if (b1 == init[0] || b2 == init[1]) continue;
            concurrent("pair w=" + vec(w) + " init=" + vec(init) + " 0->" + std::to_string(b1) + " 1->" + std::to_string(b2) + " max " + std::to_string(max), 2, 3, g, init, 3, {{{0, b1, max, false}}, {{1, b2, max, false}}});
          }
      for (long max : {2, 4, 6}) {
        concurrent("two by two w=" + vec(w) + " init=" + vec(init) + " max " + std::to_string(max), 2, th ? 4 : 3, g, init, 3,
                   {{{0, 1, max, false}, {2, 0, max, false}, {0, 2, max, false}}, {{1, 2, max, false}, {3, 0, max, false}, {1, 1, max, false}}});
        concurrent("forced w=" + vec(w) + " init=" + vec(init) + " max " + std::to_string(max), 2, th ? 4 : 3, g, init, 3,
                   {{{0, 1, 0, true}, {2, 0, max, false}}, {{1, 2, max, false}, {3, 1, 0, true}}});
        concurrent("three w=" + vec(w) + " init=" + vec(init) + " max " + std::to_string(max), 3, th ? 3 : 2, g, init, 3,
                   {{{0, 1, max, false}, {0, 2, max, false}}, {{1, 2, max, false}}, {{2, 0, max, false}, {3, 1, max, false}}});
        concurrent("three into one w=" + vec(w) + " max " + std::to_string(max) + vec(init), 3, th ? 3 : 2, g, {0, 0, 0, 0}, 2,
                   {{{0, 1, max, false}}, {{1, 1, max, false}}, {{2, 1, max, false}}});
      }
    }
}
