// C09: block-induced subgraphs are exact and their partitions are copied back losslessly.
#include <functional>

#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/subgraph_extractor.h"
#include "kaminpar-shm/partitioning/partition_utils.h"

using namespace kv;
namespace kg = kaminpar::shm::graph;
using kaminpar::ScalableVector;

namespace {
std::unique_ptr<Graph> make(const RefGraph &r, bool comp) {
  if (!comp) return std::make_unique<Graph>(mkgraph(r));
  RefGraph s = r;
  s.sort_adj();
  CSRGraph tmp = csr(s);
  return std::make_unique<Graph>(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)));
}
StaticArray<BlockID> arr(const std::vector<int> &p) {
  StaticArray<BlockID> a(p.size(), kaminpar::static_array::seq);
  for (size_t i = 0; i < p.size(); ++i) a[i] = static_cast<BlockID>(p[i]);
  return a;
}
std::vector<int> decode(long code, int n, int k) {
  std::vector<int> p(n);
  for (int u = 0; u < n; ++u) { p[u] = static_cast<int>(code % k); code /= k; }
  return p;
}
long ipow(long b, int e) { long r = 1; while (e-- > 0) r *= b; return r; }

// `sub` must be the subgraph of r induced by the vertices with p[u] == b; map[u]: position of u within it.
template <typename M> void check_sub(const RefGraph &r, const std::vector<int> &p, int b, const Graph &sub, const M &map, const std::string &at0) {
  const std::string at = " block " + std::to_string(b) + at0;
  std::vector<int> orig;
  int size = 0;
  for (int u = 0; u < r.n(); ++u) size += p[u] == b;
  MC_CHECK(static_cast<int>(sub.n()) == size, "subgraph has " + std::to_string(sub.n()) + " vertices instead of " + std::to_string(size) + at);
  orig.assign(size, -1);
  long m = 0, vw = 0, tew = 0, maxvw = 0;
  for (int u = 0; u < r.n(); ++u) {
    if (p[u] != b) continue;
    const long s = static_cast<long>(map[u]);
    MC_CHECK(s >= 0 && s < size && orig[s] < 0, "vertex " + std::to_string(u) + " maps to a wrong position " + std::to_string(s) + at);
    orig[s] = u;
    vw += r.vw[u];
    maxvw = std::max(maxvw, r.vw[u]);
    for (auto [v, w] : r.adj[u])
      if (p[v] == b) { ++m; tew += w; }
  }
  MC_CHECK(static_cast<long>(sub.m()) == m, "subgraph has " + std::to_string(sub.m()) + " edges instead of " + std::to_string(m) + at);
  MC_CHECK(static_cast<long>(sub.total_node_weight()) == vw, "total vertex weight " + std::to_string(sub.total_node_weight()) + " instead of " + std::to_string(vw) + at);
  if (size > 0) MC_CHECK(static_cast<long>(sub.max_node_weight()) == maxvw, "maximum vertex weight" + at);
  MC_CHECK(static_cast<long>(sub.total_edge_weight()) == tew, "total edge weight" + at);
  for (int s = 0; s < size; ++s) {
    const int u = orig[s];
    MC_CHECK(static_cast<long>(sub.node_weight(s)) == r.vw[u], "weight of vertex " + std::to_string(u) + at);
    std::vector<std::pair<int, long>> want, got;
    for (auto [v, w] : r.adj[u])
      if (p[v] == b) want.push_back({v, w});
    sub.adjacent_nodes(static_cast<NodeID>(s), [&](const NodeID v, const EdgeWeight w) {
      MC_CHECK(static_cast<int>(v) < size, "neighbour out of range" + at);
      got.push_back({orig[v], static_cast<long>(w)});
    });
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    MC_CHECK(want == got, "neighbours of vertex " + std::to_string(u) + at);
    MC_CHECK(static_cast<size_t>(sub.degree(s)) == want.size(), "degree of vertex " + std::to_string(u) + at);
  }
}

RefGraph induced(const RefGraph &r, const std::vector<int> &p, int b, std::vector<int> &old) {
  old.clear();
  std::vector<int> pos(r.n(), -1);
  for (int u = 0; u < r.n(); ++u)
    if (p[u] == b) { pos[u] = static_cast<int>(old.size()); old.push_back(u); }
  RefGraph s(static_cast<int>(old.size()));
  for (size_t i = 0; i < old.size(); ++i) {
    s.vw[i] = r.vw[old[i]];
    for (auto [v, w] : r.adj[old[i]])
      if (p[v] == b) s.adj[i].push_back({pos[v], w});
  }
  return s;
}

// A sequential bipartition of a graph that lives in `mem` at `pos`, recursively: checks both halves at
// each level while the other half stays untouched.
void recurse(const Graph &g, const RefGraph &r, BlockID final_k, kg::SubgraphMemoryStartPosition pos, kg::SubgraphMemory &mem, kg::TemporarySubgraphMemory &tmp, uint64_t seed, const std::string &at) {
  if (final_k < 2) return;
  const std::array<BlockID, 2> ks{(final_k + 1) / 2, final_k / 2};
  std::vector<int> p(r.n());
  for (int u = 0; u < r.n(); ++u) p[u] = static_cast<int>(hash64(seed * 100 + u) % (seed % 3 == 0 ? 1 : 2)); // every third: empty second half
  PartitionedGraph pg(PartitionedGraph::seq{}, g, 2, arr(p));
  auto res = kg::extract_subgraphs_sequential(pg, ks, pos, mem, tmp);
  std::vector<int> map(r.n());
  int c[2] = {0, 0};
  for (int u = 0; u < r.n(); ++u) map[u] = c[p[u]]++; // sequential extraction keeps the order
  for (int b = 0; b < 2; ++b) check_sub(r, p, b, res.subgraphs[b], map, " sequential, final k " + std::to_string(final_k) + at);
  std::vector<int> old0, old1;
  const RefGraph r0 = induced(r, p, 0, old0), r1 = induced(r, p, 1, old1);
  recurse(res.subgraphs[0], r0, ks[0], res.positions[0], mem, tmp, seed * 2 + 1, at + "/0");
  for (int u = 0; u < r1.n(); ++u) map[u] = u;
  check_sub(r1, std::vector<int>(r1.n(), 0), 0, res.subgraphs[1], map, " second half after recursing into the first" + at);
  recurse(res.subgraphs[1], r1, ks[1], res.positions[1], mem, tmp, seed * 2 + 2, at + "/1");
}

struct Pools {
  kg::SubgraphMemory mem;
  kg::TemporarySubgraphMemory tmp;
};

void one(const RefGraph &r, const Graph &g, int k, const std::vector<int> &p, BlockID input_k, const std::string &how, bool deep, Pools *pools) {
  const std::string at = " [" + how + "] " + r.str() + " P=" + vec(p) + " k=" + std::to_string(k) + "->" + std::to_string(input_k);
  PartitionedGraph pg(PartitionedGraph::seq{}, g, static_cast<BlockID>(k), arr(p));
  kg::SubgraphMemory mem;
  mem.resize(r.n(), input_k, r.m(), g.is_node_weighted(), g.is_edge_weighted());
  auto res = kg::extract_subgraphs(pg, input_k, mem);
  MC_CHECK(res.subgraphs.size() == static_cast<size_t>(k), "number of subgraphs" + at);
  for (int b = 0; b < k; ++b) check_sub(r, p, b, res.subgraphs[b], res.node_mapping, at);
  mc::RtGuard guard;
  if (deep) {
    kg::TemporarySubgraphMemory local;
    kg::TemporarySubgraphMemory &tmp = pools ? pools->tmp : local;
    std::vector<RefGraph> subs;
    for (int b = 0; b < k; ++b) {
      RefGraph s(static_cast<int>(res.subgraphs[b].n()));
      s = read_back(res.subgraphs[b]);
      s.sort_adj();
      subs.push_back(s);
    }
    for (int b = 0; b < k; ++b) {
      const BlockID fk = partitioning::compute_final_k(b, k, input_k);
      // the subgraph of block b is still intact although all earlier blocks have been worked on
      std::vector<int> id(subs[b].n());
      std::iota(id.begin(), id.end(), 0);
      check_sub(subs[b], std::vector<int>(subs[b].n(), 0), 0, res.subgraphs[b], id, " after working on earlier blocks" + at);
      recurse(res.subgraphs[b], subs[b], fk, res.positions[b], mem, tmp, 1 + b, at);
    }
  }
  // lazy extraction into per-call memory
  auto pre = kg::lazy_extract_subgraphs_preprocessing(pg);
  for (int b = 0; b < k; ++b) {
    long cnt = 0, me = 0;
    for (int u = 0; u < r.n(); ++u)
      if (p[u] == b) {
        ++cnt;
        for (auto [v, w] : r.adj[u]) me += p[v] == b;
      }
    MC_CHECK(static_cast<long>(pre.block_nodes_offset[b + 1] - pre.block_nodes_offset[b]) == cnt, "announced number of vertices of block " + std::to_string(b) + at);
    MC_CHECK(static_cast<long>(pre.block_num_edges[b]) == me, "announced number of edges of block " + std::to_string(b) + at);
    kg::SubgraphMemory own;
    kg::SubgraphMemory &m2 = pools ? pools->mem : own;
    m2.resize(static_cast<NodeID>(cnt), 1, static_cast<EdgeID>(me), g.is_node_weighted(), g.is_edge_weighted());
    StaticArray<NodeID> nodes(cnt, pre.block_nodes.data() + pre.block_nodes_offset[b]);
    auto sub = kg::extract_subgraph(pg, static_cast<BlockID>(b), nodes, pre.mapping, m2);
    check_sub(r, p, b, sub, pre.mapping, " lazy" + at);
  }
  // copy back: every subgraph partitioned by a fixed rule
  for (int mode = 0; mode < 2; ++mode) {
    const BlockID kp = mode == 0 ? input_k : static_cast<BlockID>(k * 2);
    if (mode == 1 && kp >= input_k) continue; // extension to an intermediate number of blocks
    std::vector<long> first(k + 1, 0);
    for (int b = 0; b < k; ++b) first[b + 1] = first[b] + (mode == 0 ? static_cast<long>(partitioning::compute_final_k(b, k, input_k)) : 2);
    ScalableVector<StaticArray<BlockID>> parts;
    std::vector<std::vector<int>> rule(k);
    for (int b = 0; b < k; ++b) {
      const int sn = static_cast<int>(res.subgraphs[b].n());
      StaticArray<BlockID> a(sn, kaminpar::static_array::seq);
      rule[b].resize(sn);
      for (int s = 0; s < sn; ++s) { rule[b][s] = static_cast<int>(hash64(s * 31 + b) % (first[b + 1] - first[b])); a[s] = static_cast<BlockID>(rule[b][s]); }
      parts.push_back(std::move(a));
    }
    PartitionedGraph src(PartitionedGraph::seq{}, g, static_cast<BlockID>(k), arr(p));
    PartitionedGraph out = kg::copy_subgraph_partitions(std::move(src), parts, kp, input_k, res.node_mapping);
    MC_CHECK(out.k() == kp, "number of blocks after copying back" + at);
    for (int u = 0; u < r.n(); ++u) {
      const long want = first[p[u]] + rule[p[u]][res.node_mapping[u]];
      MC_CHECK(static_cast<long>(out.block(u)) == want, "vertex " + std::to_string(u) + " copied to block " + std::to_string(out.block(u)) + " instead of " + std::to_string(want) + at);
    }
    const auto bw = ref_block_weights(r, [&] { std::vector<int> q(r.n()); for (int u = 0; u < r.n(); ++u) q[u] = static_cast<int>(out.block(u)); return q; }(), static_cast<int>(kp));
    for (BlockID b = 0; b < kp; ++b) MC_CHECK(static_cast<long>(out.block_weight(b)) == bw[b], "block weight after copying back" + at);
  }
}

#if !defined(__SANITIZE_THREAD__)
void sequential() {
  const int N = mc::thorough() ? 6 : 5;
  for (int n = 0; n <= N; ++n) {
    std::vector<uint32_t> masks;
    if (n == 0) masks = {0};
    else if (n <= 4) for (uint32_t i = 0; i < num_masks(n); ++i) masks.push_back(i);
    else masks = iso_classes(n);
    const int parts = n < 4 ? 1 : 12;
    for (int part = 0; part < parts; ++part)
      mc::run("small n=" + std::to_string(n) + "/" + std::to_string(part), [&] {
        for (size_t mi = part; mi < masks.size(); mi += parts)
          for (int wk : {0, 1, 2, 3}) {
            if (n == N && (wk == 1 || wk == 2)) continue;
            const RefGraph r = with_weights(by_mask(n, masks[mi]), wk);
            Pools pools;
            for (bool comp : {false, true}) {
              if (n == 0 && comp) continue;
              auto g = make(r, comp);
              for (int k = 1; k <= (n == N ? 3 : 4); ++k)
                for (long c = 0; c < ipow(k, n); ++c) {
                  const auto p = decode(c, n, k);
                  for (BlockID ik : {static_cast<BlockID>(k), static_cast<BlockID>(2 * k), static_cast<BlockID>(3 * k + 1)}) {
                    if (ik == static_cast<BlockID>(2 * k) && n == N) continue;
                    // ranges of final blocks are only defined for numbers of blocks the partitioner creates
                    if (!(k & (k - 1)) || ik == static_cast<BlockID>(k)) { mc::count_case(); one(r, *g, k, p, ik, comp ? "compressed" : "csr", true, &pools); }
                  }
                }
            }
            mc::observe(hash64(masks[mi] * 8 + wk));
          }
      });
  }
  std::vector<RefGraph> menu = {grid(6, 7), star(30), clique(12), path(40), matching(20), caveman(4, 6), disjoint(star(9), empty(7)), prand(60, 6, 1), scattered(grid(5, 8)), empty(9)};
  for (auto &base : menu)
    for (int wk : {0, 1, 2, 3, 4})
      for (int T : {1, 2, 3})
        for (int chunks : {1, 2, 7}) {
          mc::Config cfg;
          cfg.workers = T;
          cfg.chunks = chunks;
          mc::explore("menu " + base.name + " w" + std::to_string(wk) + " T" + std::to_string(T) + "/" + std::to_string(chunks), cfg, [&] {
            const RefGraph r = with_weights(base, wk);
            Pools pools;
            for (bool comp : {false, true}) {
              auto g = make(r, comp);
              for (int k : {1, 2, 4, 8, 16})
                for (int kind = 0; kind < 3; ++kind)
                  for (int ik : {k, k + k / 2, 2 * k, 4 * k - 1}) {
                    std::vector<int> p(r.n());
                    for (int u = 0; u < r.n(); ++u) p[u] = kind == 0 ? u * k / r.n() : kind == 1 ? static_cast<int>(hash64(u) % k) : (u % 2 ? k - 1 : 0);
                    mc::count_case();
                    one(r, *g, k, p, static_cast<BlockID>(ik), comp ? "compressed" : "csr", true, &pools);
                  }
            }
          });
        }
}
#else
void concurrent() {
  struct In { RefGraph g; int k; std::vector<int> p; };
  std::vector<In> ins = {
      {with_weights(path(4), 3), 2, {0, 1, 1, 0}},  {with_weights(clique(4), 3), 2, {0, 0, 0, 0}},     {with_weights(cycle(5), 3), 2, {0, 0, 1, 1, 0}},
      {with_weights(star(5), 0), 4, {3, 3, 1, 1, 0}}, {with_weights(path(6), 3), 4, {0, 3, 3, 3, 0, 0}}, {disjoint(path(3), empty(2)), 2, {1, 1, 1, 1, 0}},
  };
  for (auto &in : ins)
    for (bool comp : {false, true})
      for (auto a : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block})
        for (int T : {2, 3}) {
          mc::Config cfg;
          cfg.workers = T;
          cfg.assign = a;
          cfg.preemptions = mc::thorough() ? (T == 2 ? 4 : 3) : (T == 2 ? 3 : 2);
          cfg.max_exec = mc::thorough() ? 8000000 : 400000;
          mc::explore("mt " + in.g.name + vec(in.p) + (comp ? " compressed" : "") + " T" + std::to_string(T) + " a" + std::to_string(static_cast<int>(a)), cfg, [&] {
            auto g = make(in.g, comp);
            const std::string at = " " + in.g.str() + " P=" + vec(in.p);
            PartitionedGraph pg(PartitionedGraph::seq{}, *g, static_cast<BlockID>(in.k), arr(in.p));
            kg::SubgraphMemory mem;
            mem.resize(in.g.n(), in.k + 1, in.g.m(), g->is_node_weighted(), g->is_edge_weighted());
            auto res = kg::extract_subgraphs(pg, in.k + 1, mem);
            auto pre = kg::lazy_extract_subgraphs_preprocessing(pg);
            uint64_t h = 0;
            ScalableVector<StaticArray<BlockID>> parts;
            {
              mc::RtGuard guard;
              for (int b = 0; b < in.k; ++b) {
                check_sub(in.g, in.p, b, res.subgraphs[b], res.node_mapping, at);
                kg::SubgraphMemory own;
                own.resize(in.g.n(), 1, in.g.m(), g->is_node_weighted(), g->is_edge_weighted());
                StaticArray<NodeID> nodes(pre.block_nodes_offset[b + 1] - pre.block_nodes_offset[b], pre.block_nodes.data() + pre.block_nodes_offset[b]);
                check_sub(in.g, in.p, b, kg::extract_subgraph(pg, static_cast<BlockID>(b), nodes, pre.mapping, own), pre.mapping, " lazy" + at);
                StaticArray<BlockID> a2(res.subgraphs[b].n(), kaminpar::static_array::seq);
                for (size_t i = 0; i < a2.size(); ++i) a2[i] = (b == 0 && i % 2) ? 1 : 0;
                parts.push_back(std::move(a2));
              }
              for (int u = 0; u < in.g.n(); ++u) h = hash_add(h, res.node_mapping[u] * 10 + pre.mapping[u]);
            }
            PartitionedGraph src(PartitionedGraph::seq{}, *g, static_cast<BlockID>(in.k), arr(in.p));
            PartitionedGraph out = kg::copy_subgraph_partitions(std::move(src), parts, in.k + 1, in.k + 1, res.node_mapping);
            mc::RtGuard guard;
            for (int u = 0; u < in.g.n(); ++u) {
              const long off = in.p[u] == 0 ? (res.node_mapping[u] % 2) : in.p[u] + 1;
              MC_CHECK(static_cast<long>(out.block(u)) == off, "block of vertex " + std::to_string(u) + " after copying back: " + std::to_string(out.block(u)) + at);
            }
            mc::observe(h);
          });
        }
}
#endif
} // namespace

void mc_main() {
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
