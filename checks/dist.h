// Shared helpers of the harnesses that use KaMinPar's distributed-memory part: reference graphs spread over ranks.
#pragma once
#include <functional>
#include <memory>

#include "kv.h"

#include <mpi.h>

#include "kaminpar-dist/datastructures/distributed_compressed_graph.h"
#include "kaminpar-dist/datastructures/distributed_csr_graph.h"
#include "kaminpar-dist/datastructures/distributed_graph.h"
#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
#include "kaminpar-dist/datastructures/ghost_node_mapper.h"
#include "kaminpar-dist/dkaminpar.h"
#include "kaminpar-dist/graphutils/synchronization.h"

#include "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h"

namespace kd {
using kaminpar::Random;
using kaminpar::StaticArray;
using kv::RefGraph;
namespace kdist = kaminpar::dist;
namespace kmpi = kaminpar::mpi;
using namespace kaminpar::dist;

// Vertex distributions: spread[r] is the first vertex of rank r, spread[p] == n.
using Spread = std::vector<int>;
inline std::vector<Spread> spreads(const int n, const int p) { // all of them: weak compositions of n into p parts
  std::vector<Spread> out;
  Spread s(static_cast<size_t>(p) + 1, 0);
  const std::function<void(int)> go = [&](const int i) {
    if (i == p) {
      s[static_cast<size_t>(p)] = n;
      out.push_back(s);
      return;
    }
    for (int x = s[static_cast<size_t>(i) - 1]; x <= n; ++x) {
      s[static_cast<size_t>(i)] = x;
      go(i + 1);
    }
  };
  go(1);
  return out;
}
inline std::vector<Spread> some_spreads(const int n, const int p) { // balanced, all on one rank, alternating, cut off
  std::vector<Spread> out;
  const auto push = [&](Spread s) {
    if (std::find(out.begin(), out.end(), s) == out.end()) out.push_back(std::move(s));
  };
  Spread s(static_cast<size_t>(p) + 1, 0);
  for (int r = 0; r <= p; ++r) s[r] = static_cast<int>(static_cast<long>(n) * r / p);
  push(s);
  for (int owner = 0; owner < p; ++owner) {
    for (int r = 0; r <= p; ++r) s[r] = r <= owner ? 0 : n;
    push(s);
  }
  for (int r = 0; r <= p; ++r) s[r] = std::min(n, r);
  s[p] = n;
  push(s);
  for (int r = 0; r <= p; ++r) s[r] = r == p ? n : static_cast<int>(static_cast<long>(n) * (r / 2) / std::max(1, (p + 1) / 2));
  push(s);
  return out;
}
inline std::string str(const Spread &s) {
  std::string o = "ranks=";
  for (size_t r = 0; r + 1 < s.size(); ++r) o += (r ? "," : "") + std::to_string(s[r + 1] - s[r]);
  return o;
}
inline int owner(const Spread &s, const int u) {
  int r = 0;
  while (u >= s[static_cast<size_t>(r) + 1]) ++r;
  return r;
}

struct Options {
  bool node_weights = false, edge_weights = false; // store them although they are all one
  bool sorted = false;
};

inline StaticArray<GlobalNodeID> node_distribution(const Spread &s) {
  StaticArray<GlobalNodeID> d(s.size());
  for (size_t i = 0; i < s.size(); ++i) d[i] = static_cast<GlobalNodeID>(s[i]);
  return d;
}
inline StaticArray<GlobalEdgeID> edge_distribution(const RefGraph &g, const Spread &s) {
  StaticArray<GlobalEdgeID> d(s.size());
  GlobalEdgeID m = 0;
  for (size_t r = 0; r + 1 < s.size(); ++r) {
    d[r] = m;
    for (int u = s[r]; u < s[r + 1]; ++u) m += g.adj[u].size();
  }
  d[s.size() - 1] = m;
  return d;
}

inline DistributedCSRGraph csr(const RefGraph &g, const Spread &s, const Options &o = {}, MPI_Comm comm = MPI_COMM_WORLD) {
  const int rank = kmpi::get_comm_rank(comm);
  const bool nw = o.node_weights || !g.unit_vw(), ew = o.edge_weights || !g.unit_ew();
  auto nd = node_distribution(s);
  auto ed = edge_distribution(g, s);
  const int from = s[rank], to = s[rank + 1];
  kdist::graph::GhostNodeMapper mapper(rank, nd);
  const std::size_t m = ed[rank + 1] - ed[rank];
  StaticArray<EdgeID> nodes(static_cast<size_t>(to - from) + 1);
  StaticArray<NodeID> edges(m);
  StaticArray<EdgeWeight> weights(ew ? m : std::size_t{0});
  EdgeID e = 0;
  nodes[0] = 0;
  for (int u = from; u < to; ++u) {
    for (const auto &[v, w] : g.adj[u]) {
      edges[e] = v >= from && v < to ? static_cast<NodeID>(v - from) : mapper.new_ghost_node(static_cast<GlobalNodeID>(v));
      if (ew) weights[e] = static_cast<EdgeWeight>(w);
      ++e;
    }
    nodes[static_cast<size_t>(u - from) + 1] = e;
  }
  StaticArray<NodeWeight> vw(nw ? static_cast<size_t>(mapper.next_ghost_node()) : std::size_t{0});
  if (nw)
    for (int u = from; u < to; ++u) vw[u - from] = static_cast<NodeWeight>(g.vw[u]);
  auto [global_to_ghost, ghost_to_global, ghost_owner] = mapper.finalize();
  DistributedCSRGraph out(std::move(nd), std::move(ed), std::move(nodes), std::move(edges), std::move(vw), std::move(weights), std::move(ghost_owner), std::move(ghost_to_global), std::move(global_to_ghost), o.sorted, comm);
  if (nw) kdist::graph::synchronize_ghost_node_weights(out);
  return out;
}

inline DistributedCompressedGraph compressed(const RefGraph &g, const Spread &s, const Options &o = {}, MPI_Comm comm = MPI_COMM_WORLD) {
  const int rank = kmpi::get_comm_rank(comm);
  const bool nw = o.node_weights || !g.unit_vw(), ew = o.edge_weights || !g.unit_ew();
  auto nd = node_distribution(s);
  auto ed = edge_distribution(g, s);
  const int from = s[rank], to = s[rank + 1];
  CompactGhostNodeMappingBuilder mapper(rank, nd);
  kaminpar::CompressedNeighborhoodsBuilder<NodeID, EdgeID, EdgeWeight> builder(static_cast<NodeID>(to - from), static_cast<EdgeID>(ed[rank + 1] - ed[rank]), ew);
  std::vector<std::pair<NodeID, EdgeWeight>> hood;
  for (int u = from; u < to; ++u) {
    hood.clear();
    for (const auto &[v, w] : g.adj[u])
      hood.emplace_back(v >= from && v < to ? static_cast<NodeID>(v - from) : mapper.new_ghost_node(static_cast<GlobalNodeID>(v)), static_cast<EdgeWeight>(w));
    builder.add(static_cast<NodeID>(u - from), hood);
  }
  StaticArray<NodeWeight> vw(nw ? static_cast<size_t>(mapper.next_ghost_node()) : std::size_t{0});
  if (nw)
    for (int u = from; u < to; ++u) vw[u - from] = static_cast<NodeWeight>(g.vw[u]);
  DistributedCompressedGraph out(std::move(nd), std::move(ed), builder.build(), std::move(vw), mapper.finalize(), o.sorted, comm);
  if (nw) kdist::graph::synchronize_ghost_node_weights(out);
  return out;
}

inline DistributedGraph make(const RefGraph &g, const Spread &s, const bool comp = false, const Options &o = {}, MPI_Comm comm = MPI_COMM_WORLD) {
  if (comp) return DistributedGraph(std::make_unique<DistributedCompressedGraph>(compressed(g, s, o, comm)));
  return DistributedGraph(std::make_unique<DistributedCSRGraph>(csr(g, s, o, comm)));
}

// A partition of a distributed graph from a global assignment (also sets the ghost vertices).
template <typename P> DistributedPartitionedGraph partitioned(const DistributedGraph &graph, const P &part, const int k) {
  StaticArray<BlockID> b(graph.total_n());
  for (NodeID u = 0; u < graph.total_n(); ++u) b[u] = static_cast<BlockID>(part[static_cast<size_t>(graph.local_to_global_node(u))]);
  return DistributedPartitionedGraph(&graph, static_cast<BlockID>(k), std::move(b));
}

// A distributed graph collected from all ranks: vertices in global order.
struct Collected {
  RefGraph g;
  std::vector<int> first; // first global vertex of each rank
};
// Every rank adds its part; `all` is shared by the ranks (they run in one process).
template <typename G> void collect(const G &graph, RefGraph &all) {
  if (all.n() != static_cast<int>(graph.global_n())) all = RefGraph(static_cast<int>(graph.global_n()));
  kmpi::barrier(graph.communicator());
  for (NodeID u = 0; u < graph.n(); ++u) {
    const size_t gu = static_cast<size_t>(graph.local_to_global_node(u));
    all.vw[gu] = static_cast<long>(graph.node_weight(u));
    all.adj[gu].clear();
    graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { all.adj[gu].push_back({static_cast<int>(graph.local_to_global_node(v)), static_cast<long>(w)}); });
  }
  kmpi::barrier(graph.communicator());
}

// Is this a well-formed distributed graph? (checked from inside, per rank; `all` collected before)
template <typename G> void well_formed(const G &graph, const RefGraph &all, const std::string &where) {
  MPI_Comm comm = graph.communicator();
  const int rank = kmpi::get_comm_rank(comm), size = kmpi::get_comm_size(comm);
  MC_CHECK(graph.node_distribution().size() == static_cast<size_t>(size) + 1, where + ": size of the vertex distribution");
  const auto &d = graph.node_distribution();
  MC_CHECK(d[0] == 0 && d[size] == graph.global_n(), where + ": ends of the vertex distribution");
  for (int r = 0; r < size; ++r) MC_CHECK(d[r] <= d[r + 1], where + ": vertex distribution not monotone");
  MC_CHECK(graph.n() == d[rank + 1] - d[rank] && graph.offset_n() == d[rank], where + ": own vertex range");
  MC_CHECK(graph.total_n() == graph.n() + graph.ghost_n(), where + ": total_n");
  const auto &ed = graph.edge_distribution();
  MC_CHECK(ed[0] == 0 && ed[size] == graph.global_m() && ed[rank + 1] - ed[rank] == graph.m() && graph.offset_m() == ed[rank], where + ": edge distribution");
  long m = 0, w = 0, vw = 0, gvw = 0, gw = 0, maxvw = 0, gmaxvw = 0;
  for (int u = 0; u < all.n(); ++u) {
    gvw += all.vw[u];
    gmaxvw = std::max(gmaxvw, all.vw[u]);
    for (auto [v, x] : all.adj[u]) gw += x;
  }
  std::set<GlobalNodeID> ghosts;
  std::vector<long> cut(static_cast<size_t>(size), 0), vol(static_cast<size_t>(size), 0);
  for (NodeID u = 0; u < graph.n(); ++u) {
    const int gu = static_cast<int>(graph.local_to_global_node(u));
    MC_CHECK(gu == static_cast<int>(d[rank] + u), where + ": global ID of an owned vertex");
    MC_CHECK(graph.global_to_local_node(static_cast<GlobalNodeID>(gu)) == u, where + ": local ID of an owned vertex");
    MC_CHECK(graph.is_owned_node(u) && !graph.is_ghost_node(u) && graph.is_owned_global_node(static_cast<GlobalNodeID>(gu)), where + ": ownership");
    MC_CHECK(graph.degree(u) == all.adj[gu].size(), where + ": degree");
    vw += all.vw[gu];
    maxvw = std::max(maxvw, all.vw[gu]);
    std::set<int> pes;
    for (auto [v, x] : all.adj[gu]) {
      ++m;
      w += x;
      const int o = static_cast<int>(graph.find_owner_of_global_node(static_cast<GlobalNodeID>(v)));
      MC_CHECK(d[o] <= static_cast<GlobalNodeID>(v) && static_cast<GlobalNodeID>(v) < d[o + 1], where + ": owner of a vertex");
      if (o != rank) {
        ghosts.insert(static_cast<GlobalNodeID>(v));
        ++cut[static_cast<size_t>(o)];
        pes.insert(o);
      }
    }
    for (const int o : pes) ++vol[static_cast<size_t>(o)];
  }
  MC_CHECK(static_cast<long>(graph.m()) == m, where + ": number of local edges");
  MC_CHECK(graph.ghost_n() == ghosts.size(), where + ": number of ghost vertices is " + std::to_string(graph.ghost_n()) + " instead of " + std::to_string(ghosts.size()));
  for (NodeID u = graph.n(); u < graph.total_n(); ++u) {
    const GlobalNodeID gu = graph.local_to_global_node(u);
    MC_CHECK(ghosts.count(gu) == 1, where + ": ghost vertex without an edge to it");
    MC_CHECK(graph.contains_global_node(gu) && graph.global_to_local_node(gu) == u, where + ": local ID of a ghost vertex");
    MC_CHECK(graph.is_ghost_node(u) && !graph.is_owned_node(u) && !graph.is_owned_global_node(gu), where + ": ghost vertex counted as owned");
    const int o = graph.ghost_owner(u);
    MC_CHECK(o != rank && d[o] <= gu && gu < d[o + 1], where + ": owner of a ghost vertex");
    MC_CHECK(graph.map_remote_node(static_cast<NodeID>(gu - d[o]), o) == u, where + ": map_remote_node");
    MC_CHECK(static_cast<long>(graph.node_weight(u)) == all.vw[static_cast<size_t>(gu)], where + ": weight of ghost vertex " + std::to_string(gu) + " is " + std::to_string(graph.node_weight(u)) + " instead of " + std::to_string(all.vw[static_cast<size_t>(gu)]));
    ghosts.erase(gu);
  }
  for (GlobalNodeID gu = 0; gu < graph.global_n(); ++gu) {
    bool adjacent = false;
    for (NodeID u = graph.n(); u < graph.total_n(); ++u) adjacent |= graph.local_to_global_node(u) == gu;
    MC_CHECK(graph.contains_global_node(gu) == (adjacent || (gu >= d[rank] && gu < d[rank + 1])), where + ": contains_global_node");
  }
  MC_CHECK(static_cast<long>(graph.total_node_weight()) == vw, where + ": local vertex weight");
  MC_CHECK(static_cast<long>(graph.global_total_node_weight()) == gvw, where + ": global vertex weight is " + std::to_string(graph.global_total_node_weight()) + " instead of " + std::to_string(gvw));
  MC_CHECK(static_cast<long>(graph.total_edge_weight()) == w, where + ": local edge weight");
  MC_CHECK(static_cast<long>(graph.global_total_edge_weight()) == gw, where + ": global edge weight");
  if (graph.n() > 0) MC_CHECK(static_cast<long>(graph.max_node_weight()) == maxvw, where + ": largest local vertex weight");
  if (all.n() > 0) MC_CHECK(static_cast<long>(graph.global_max_node_weight()) == gmaxvw, where + ": largest vertex weight is " + std::to_string(graph.global_max_node_weight()) + " instead of " + std::to_string(gmaxvw));
  for (int r = 0; r < size; ++r) {
    MC_CHECK(static_cast<long>(graph.edge_cut_to_pe(r)) == cut[static_cast<size_t>(r)], where + ": edge_cut_to_pe");
    MC_CHECK(static_cast<long>(graph.comm_vol_to_pe(r)) == vol[static_cast<size_t>(r)], where + ": comm_vol_to_pe of rank " + std::to_string(r) + " is " + std::to_string(graph.comm_vol_to_pe(r)) + " instead of " + std::to_string(vol[static_cast<size_t>(r)]));
  }
  NodeID covered = 0;
  for (std::size_t b = 0; b < graph.number_of_buckets(); ++b) {
    MC_CHECK(graph.first_node_in_bucket(b) == covered, where + ": buckets are not contiguous");
    MC_CHECK(graph.bucket_size(b) == graph.first_invalid_node_in_bucket(b) - graph.first_node_in_bucket(b), where + ": bucket_size");
    covered = graph.first_invalid_node_in_bucket(b);
  }
  MC_CHECK(covered == graph.n(), where + ": the degree buckets contain " + std::to_string(covered) + " of " + std::to_string(graph.n()) + " vertices");
}

// Is this a consistent partition? Returns nothing; `part` collects the global assignment.
inline void consistent(const DistributedPartitionedGraph &p, const RefGraph &g, std::vector<int> &part, const std::string &where) {
  MPI_Comm comm = p.communicator();
  part.resize(static_cast<size_t>(g.n()));
  for (NodeID u = 0; u < p.n(); ++u) part[static_cast<size_t>(p.local_to_global_node(u))] = static_cast<int>(p.block(u));
  kmpi::barrier(comm);
  for (int u = 0; u < g.n(); ++u) MC_CHECK(part[u] >= 0 && part[u] < static_cast<int>(p.k()), where + ": vertex " + std::to_string(u) + " in block " + std::to_string(part[u]));
  for (NodeID u = p.n(); u < p.total_n(); ++u) {
    const size_t gu = static_cast<size_t>(p.local_to_global_node(u));
    MC_CHECK(static_cast<int>(p.block(u)) == part[gu], where + ": ghost vertex " + std::to_string(gu) + " is in block " + std::to_string(p.block(u)) + ", its owner says " + std::to_string(part[gu]));
  }
  const auto w = kv::ref_block_weights(g, part, static_cast<int>(p.k()));
  for (BlockID b = 0; b < p.k(); ++b) MC_CHECK(static_cast<long>(p.block_weight(b)) == w[b], where + ": block " + std::to_string(b) + " is reported to weigh " + std::to_string(p.block_weight(b)) + ", its vertices " + std::to_string(w[b]));
  kmpi::barrier(comm);
}
} // namespace kd
