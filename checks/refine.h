// Shared by the refinement and balancing harnesses: representations, limits, starting partitions and what must hold after every call.
#pragma once
#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/presets.h"

namespace kv {
using kaminpar::shm::PartitionContext;

struct Rep {
  RefGraph ref;
  Graph graph;
};
inline Rep rep_of(const RefGraph &r, int kind) { // 0 plain, 1 compressed, 2 sorted by degree (without isolated vertices: they are never refined in this order)
  if (kind == 2 && r.m() == 0) kind = 0;
  if (kind == 1) {
    RefGraph s = r;
    s.sort_adj();
    CSRGraph tmp = csr(s);
    return {s, Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)))};
  }
  if (kind == 2) {
    CSRGraph c = csr(r);
    Graph g = kaminpar::shm::graph::rearrange_by_degree_buckets(c);
    g.remove_isolated_nodes(kaminpar::shm::graph::count_isolated_nodes(g));
    RefGraph q = read_back(g);
    q.name = r.name + ".sorted";
    return {q, std::move(g)};
  }
  return {r, mkgraph(r)};
}

inline PartitionContext limits(const Rep &rep, const std::vector<long> &l) {
  PartitionContext p;
  std::vector<BlockWeight> b(l.begin(), l.end());
  rep.graph.reified([&](const auto &g) { p.setup(g, std::move(b), false); });
  return p;
}

inline PartitionedGraph partitioned(const Rep &rep, int k, const std::vector<int> &p) {
  StaticArray<BlockID> a(p.size(), kaminpar::static_array::seq);
  for (size_t i = 0; i < p.size(); ++i) a[i] = static_cast<BlockID>(p[i]);
  return PartitionedGraph(rep.graph, static_cast<BlockID>(k), std::move(a));
}

struct State {
  std::vector<int> part;
  std::vector<long> weight;
  long cut = 0, overload = 0;
};
inline State snapshot(const Rep &rep, const PartitionedGraph &p, int k, const std::vector<long> &limit, const std::string &at) {
  State s;
  MC_CHECK(static_cast<int>(p.n()) == rep.ref.n() && static_cast<int>(p.k()) == k, "the partition is of something else" + at);
  s.weight.assign(static_cast<size_t>(k), 0);
  for (int u = 0; u < rep.ref.n(); ++u) {
    const auto b = p.block(static_cast<NodeID>(u));
    MC_CHECK(b < static_cast<BlockID>(k), "vertex " + std::to_string(u) + " is in block " + std::to_string(b) + at);
    s.part.push_back(static_cast<int>(b));
    s.weight[b] += rep.ref.vw[u];
  }
  for (int b = 0; b < k; ++b) {
    MC_CHECK(static_cast<long>(p.block_weight(static_cast<BlockID>(b))) == s.weight[b],
             "block " + std::to_string(b) + " is said to weigh " + std::to_string(p.block_weight(static_cast<BlockID>(b))) + ", its vertices weigh " + std::to_string(s.weight[b]) + at);
    s.overload += std::max(0l, s.weight[b] - limit[b]);
  }
  s.cut = ref_cut(rep.ref, s.part);
  return s;
}
inline std::string show(const Rep &rep, int k, const std::vector<int> &p, const std::vector<long> &limit) {
  return " k=" + std::to_string(k) + " limits " + vec(limit) + " P=" + (p.size() <= 64 ? vec(p) : "...") + " " + (rep.ref.n() <= 30 ? rep.ref.str() : rep.ref.name);
}
inline std::vector<std::vector<long>> limit_menu(const RefGraph &r, int k) {
  const long t = r.total_vw(), h = (t + k - 1) / k, m = *std::max_element(r.vw.begin(), r.vw.end());
  std::set<std::vector<long>> s;
  s.insert(std::vector<long>(k, h));
  s.insert(std::vector<long>(k, h + m));
  s.insert(std::vector<long>(k, t));
  s.insert(std::vector<long>(k, std::max(1l, h - 1)));
  std::vector<long> skew(k, std::max(1l, t / (2 * k)));
  skew[0] = t;
  s.insert(skew);
  skew.assign(k, h + 1);
  skew[k - 1] = std::max(1l, h - 1);
  s.insert(skew);
  return {s.begin(), s.end()};
}
inline void next_assignment(std::vector<int> &p, int k, bool &more) {
  more = false;
  for (auto &x : p) {
    if (++x < k) { more = true; return; }
    x = 0;
  }
}
inline std::vector<int> start(const RefGraph &r, int k, int kind) {
  std::vector<int> p(r.n());
  for (int u = 0; u < r.n(); ++u)
    p[u] = kind == 0 ? u % k : kind == 1 ? static_cast<int>(static_cast<long>(u) * k / r.n()) : kind == 2 ? 0 : kind == 3 ? static_cast<int>(hash64(u * 7 + 3) % k) : kind == 4 ? (u % 5 ? 0 : static_cast<int>(hash64(u) % k)) : k - 1 - u % std::min(k, 2);
  return p;
}
} // namespace kv
