// C30: distributed graphs (plain and compressed) agree with the global graph.
#include "dist.h"

#include "kaminpar-dist/algorithms/greedy_node_coloring.h"
#include "kaminpar-dist/context.h"
#include "kaminpar-dist/graphutils/rearrangement.h"
#include "kaminpar-dist/metrics.h"

using namespace kd;

namespace {
void same(const RefGraph &a, const RefGraph &b, const std::string &where, const bool ordered) {
  MC_CHECK(a.n() == b.n(), where + ": number of vertices");
  for (int u = 0; u < a.n(); ++u) {
    MC_CHECK(a.vw[u] == b.vw[u], where + ": weight of vertex " + std::to_string(u));
    auto x = a.adj[u], y = b.adj[u];
    if (!ordered) std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
    MC_CHECK(x == y, where + ": neighbourhood of vertex " + std::to_string(u));
  }
}

void one(const RefGraph &g, const Spread &s, const bool comp, const Options &o) {
  const std::string where = g.str() + " " + str(s) + (comp ? " compressed" : "") + (o.sorted ? " sorted" : "");
  const int p = static_cast<int>(s.size()) - 1;
  RefGraph all;
  kv_mpi::run(p, true, false, [&](const int rank) {
    DistributedGraph graph = make(g, s, comp, o);
    collect(graph, all);
    if (rank == 0) same(all, g, where, !comp);
    kmpi::barrier(MPI_COMM_WORLD);
    well_formed(graph, g, where);
    if (o.sorted) {
      for (std::size_t b = 0; b < graph.number_of_buckets(); ++b)
        for (NodeID u = graph.first_node_in_bucket(b); u < graph.first_invalid_node_in_bucket(b); ++u) {
          const size_t d = graph.degree(u);
          MC_CHECK(b == 0 ? d == 0 : (d >= (1ul << (b - 1)) && d < (1ul << b)), where + ": vertex of degree " + std::to_string(d) + " in degree bucket " + std::to_string(b));
        }
    }
    for (const EdgeID t : {EdgeID{1}, EdgeID{2}, EdgeID{1}}) {
      graph.init_high_degree_info(t);
      for (NodeID u = 0; u < graph.total_n(); ++u)
        MC_CHECK(graph.is_high_degree_node(u) == (g.adj[static_cast<size_t>(graph.local_to_global_node(u))].size() > t), where + ": high-degree flag");
    }
    // early stop and bounded iteration
    for (NodeID u = 0; u < graph.n(); ++u) {
      std::vector<NodeID> full, stopped, bounded;
      graph.adjacent_nodes(u, [&](const NodeID v) { full.push_back(v); });
      graph.adjacent_nodes(u, [&](const NodeID v) { stopped.push_back(v); return stopped.size() == 2; });
      graph.adjacent_nodes(u, 2, [&](const NodeID v) { bounded.push_back(v); });
      auto first2 = full;
      first2.resize(std::min<size_t>(2, full.size()));
      MC_CHECK(stopped == first2, where + ": iteration that stops early");
      MC_CHECK(bounded.size() == first2.size(), where + ": iteration over at most two neighbours");
    }
  });
}

// Partition metrics
void metric(const RefGraph &g, const Spread &s, const bool comp, const std::vector<int> &part, const int k) {
  const std::string where = g.str() + " " + str(s) + " k=" + std::to_string(k) + " part=" + kv::vec(part);
  std::vector<int> got;
  kv_mpi::run(static_cast<int>(s.size()) - 1, true, false, [&](int) {
    const DistributedGraph graph = make(g, s, comp);
    DistributedPartitionedGraph p = partitioned(graph, part, k);
    const auto w = kv::ref_block_weights(g, part, k);
    for (BlockID b = 0; b < p.k(); ++b) MC_CHECK(static_cast<long>(p.block_weight(b)) == w[b], where + ": block weight");
    MC_CHECK(static_cast<long>(kdist::metrics::edge_cut(p)) == kv::ref_cut(g, part), where + ": cut");
    long lc = 0, over = 0, l1 = 0;
    for (NodeID u = 0; u < graph.n(); ++u) {
      const int gu = static_cast<int>(graph.local_to_global_node(u));
      bool border = false;
      for (auto [v, x] : g.adj[gu])
        if (part[v] != part[gu]) lc += x, border = true;
      MC_CHECK(p.check_border_node(u) == border, where + ": check_border_node");
    }
    MC_CHECK(static_cast<long>(kdist::metrics::local_edge_cut(p)) == lc, where + ": local cut");
    const long total = g.total_vw(), avg = (total + k - 1) / k;
    double imb = 0, l2 = 0;
    if (avg > 0)
      for (const long x : w) imb = std::max(imb, static_cast<double>(x) / static_cast<double>(avg) - 1.0);
    if (avg > 0) MC_CHECK(std::abs(kdist::metrics::imbalance(p) - imb) < 1e-9, where + ": imbalance " + std::to_string(kdist::metrics::imbalance(p)));
    PartitionContext ctx(static_cast<BlockID>(k), static_cast<BlockID>(k), 0.1);
    ctx.graph = std::make_unique<GraphContext>(graph, ctx);
    for (int b = 0; b < k; ++b) {
      const long limit = static_cast<long>(ctx.graph->max_block_weight(static_cast<BlockID>(b)));
      MC_CHECK(limit >= avg && (g.n() == 0 || limit <= std::max<long>(static_cast<long>(1.1 * static_cast<double>(avg)), avg + *std::max_element(g.vw.begin(), g.vw.end()))), where + ": block weight limit " + std::to_string(limit));
      if (w[static_cast<size_t>(b)] > limit) {
        const long x = w[static_cast<size_t>(b)] - limit;
        ++over;
        l1 += x;
        l2 += static_cast<double>(x * x);
      }
    }
    MC_CHECK(kdist::metrics::num_imbalanced_blocks(p, ctx) == static_cast<BlockID>(over), where + ": number of overloaded blocks");
    MC_CHECK(kdist::metrics::is_feasible(p, ctx) == (over == 0), where + ": feasibility");
    MC_CHECK(std::abs(kdist::metrics::imbalance_l1(p, ctx) - static_cast<double>(l1)) < 1e-9, where + ": L1");
    MC_CHECK(std::abs(kdist::metrics::imbalance_l2(p, ctx) - std::sqrt(l2)) < 1e-9, where + ": L2");
    consistent(p, g, got, where);
    // Wrong ghost blocks are repaired by a synchronisation; moves keep the weights
    for (NodeID u = graph.n(); u < graph.total_n(); ++u) p.set_block<false>(u, 0);
    kdist::graph::synchronize_ghost_node_block_ids(p);
    consistent(p, g, got, where + " after synchronising ghosts");
    p.reinit_block_weights();
    consistent(p, g, got, where + " after recomputing weights");
  });
}

// Vertex orders
void rearranged(const RefGraph &g, const Spread &s, const Options &o, const bool coloring) {
  const std::string where = g.str() + " " + str(s) + (coloring ? " by coloring" : " by degree buckets");
  RefGraph all, before;
  std::vector<long> to(static_cast<size_t>(g.n()), -1), color(static_cast<size_t>(g.n()), -1);
  kv_mpi::run(static_cast<int>(s.size()) - 1, true, false, [&](const int rank) {
    Context ctx = create_default_context();
    ctx.parallel.num_mpis = static_cast<PEID>(s.size()) - 1;
    ctx.parallel.num_threads = 1;
    ctx.rearrange_by = coloring ? GraphOrdering::COLORING : GraphOrdering::DEGREE_BUCKETS;
    DistributedCSRGraph graph = kdist::graph::rearrange(csr(g, s, o), ctx);
    MC_CHECK(graph.n() == 0 || graph.permuted(), where + ": no permutation is stored");
    for (int u = s[rank]; u < s[rank + 1]; ++u) {
      const NodeID x = graph.map_original_node(static_cast<NodeID>(u - s[rank]));
      MC_CHECK(x < graph.n(), where + ": permutation leaves the rank");
      to[static_cast<size_t>(u)] = static_cast<long>(x) + s[rank];
    }
    kmpi::barrier(MPI_COMM_WORLD);
    if (rank == 0) {
      std::vector<long> sorted = to;
      std::sort(sorted.begin(), sorted.end());
      for (int u = 0; u < g.n(); ++u) MC_CHECK(sorted[static_cast<size_t>(u)] == u, where + ": not a permutation");
    }
    collect(graph, all);
    if (rank == 0) {
      before = RefGraph(g.n());
      for (int u = 0; u < g.n(); ++u) {
        before.vw[to[u]] = g.vw[u];
        for (auto [v, w] : g.adj[u]) before.adj[to[u]].push_back({static_cast<int>(to[v]), w});
      }
      same(all, before, where, false);
    }
    kmpi::barrier(MPI_COMM_WORLD);
    well_formed(graph, before, where);
    if (coloring) {
      MC_CHECK(graph.color_sorted(), where + ": colors are not recorded");
      const std::size_t c = graph.number_of_colors();
      const std::size_t all_c = kmpi::allreduce(c, MPI_MAX, MPI_COMM_WORLD);
      MC_CHECK(c == all_c, where + ": ranks disagree about the number of colors");
      const auto &sizes = graph.get_color_sizes();
      MC_CHECK(sizes.size() >= 1 && sizes[0] == 0 && sizes[c] == graph.n(), where + ": color classes do not cover the vertices");
      for (std::size_t x = 0; x < c; ++x)
        for (NodeID u = sizes[x]; u < sizes[x + 1]; ++u) color[static_cast<size_t>(s[rank]) + u] = static_cast<long>(x);
      kmpi::barrier(MPI_COMM_WORLD);
      for (int u = s[rank]; u < s[rank + 1]; ++u)
        for (auto [v, w] : before.adj[u]) MC_CHECK(color[u] != color[v], where + ": neighbours " + std::to_string(u) + " and " + std::to_string(v) + " are in color class " + std::to_string(color[u]));
    }
  });
}

// Colorings are proper over all ranks
void colored(const RefGraph &g, const Spread &s, const bool comp, const NodeID steps) {
  const std::string where = g.str() + " " + str(s) + " coloring in " + std::to_string(steps) + " steps";
  std::vector<long> color(static_cast<size_t>(g.n()), -1);
  kv_mpi::run(static_cast<int>(s.size()) - 1, true, false, [&](int) {
    const DistributedGraph graph = make(g, s, comp);
    graph.reified([&](const auto &gr) {
      const auto c = compute_node_coloring_sequentially(gr, steps);
      for (NodeID u = 0; u < gr.total_n(); ++u)
        if (u < gr.n()) color[static_cast<size_t>(gr.local_to_global_node(u))] = static_cast<long>(c[u]);
      kmpi::barrier(MPI_COMM_WORLD);
    });
  });
  for (int u = 0; u < g.n(); ++u) {
    MC_CHECK(color[u] >= 0, where + ": a vertex has no color");
    for (auto [v, w] : g.adj[u]) MC_CHECK(color[u] != color[v], where + ": neighbours " + std::to_string(u) + " and " + std::to_string(v) + " share color " + std::to_string(color[u]));
  }
}
} // namespace

void mc_main() {
  const bool deep = mc::thorough();
  // Every graph, every distribution
  for (int n = 0; n <= (deep ? 5 : 4); ++n)
    for (int p = 1; p <= (deep ? 4 : 3); ++p)
      mc::run("all n=" + std::to_string(n) + " p=" + std::to_string(p), [&] {
        for (uint32_t mask = 0; mask < kv::num_masks(n); ++mask) {
          if (n == 5 && mask % 7 != 3) continue;
          for (const Spread &s : spreads(n, p))
            for (const bool comp : {false, true})
              for (int kind = 0; kind < 3; ++kind) {
                RefGraph g = kv::by_mask(n, mask);
                if (kind) g = kv::with_weights(g, kind == 1 ? 1 : 3);
                one(g, s, comp, {});
                mc::count_case();
              }
        }
      });
  std::vector<RefGraph> menu{kv::path(9), kv::star(7), kv::clique(6), kv::grid(3, 4), kv::empty(6), kv::matching(8), kv::caveman(3, 4)};
  if (deep)
    for (uint32_t x = 0; x < 6; ++x) menu.push_back(kv::prand(14, 30, 40 + x));
  for (size_t i = 0; i < menu.size(); ++i)
    for (const int p : {1, 2, 3, 4, 5, 8, 13})
      mc::run("menu " + std::to_string(i) + " p=" + std::to_string(p), [&] {
        for (const Spread &s : some_spreads(menu[i].n(), p))
          for (int kind = 0; kind < 6; ++kind)
            for (const bool comp : {false, true}) {
              RefGraph g = kv::with_weights(menu[i], kind);
              one(g, s, comp, {});
              one(g, s, comp, {.node_weights = true, .edge_weights = true, .sorted = false});
              mc::count_case();
            }
      });
  // Sorted graphs (vertices of each rank ordered by degree bucket)
  for (const int p : {1, 2, 3})
    mc::run("sorted p=" + std::to_string(p), [&] {
      for (RefGraph g : {kv::path(7), kv::star(6), kv::clique(5), kv::empty(4), kv::caveman(2, 3), kv::disjoint(kv::empty(2), kv::star(5))})
        for (const Spread &s : some_spreads(g.n(), p)) {
          std::vector<int> order;
          for (int r = 0; r < p; ++r) {
            std::vector<int> mine;
            for (int u = s[r]; u < s[r + 1]; ++u) mine.push_back(u);
            std::stable_sort(mine.begin(), mine.end(), [&](int a, int b) { return g.adj[a].size() < g.adj[b].size(); });
            order.insert(order.end(), mine.begin(), mine.end());
          }
          std::vector<int> to(static_cast<size_t>(g.n()));
          for (int i = 0; i < g.n(); ++i) to[order[i]] = i;
          RefGraph h(g.n());
          for (int u = 0; u < g.n(); ++u)
            for (auto [v, w] : g.adj[u]) h.adj[to[u]].push_back({to[v], w});
          h.name = "sorted " + g.name;
          one(h, s, false, {.node_weights = false, .edge_weights = false, .sorted = true});
          one(h, s, true, {.node_weights = false, .edge_weights = false, .sorted = true});
          mc::count_case();
        }
    });
  // Metrics: all bipartitions and 3-partitions of small graphs
  for (int p = 1; p <= 3; ++p)
    mc::run("metrics p=" + std::to_string(p), [&] {
      for (const uint32_t mask : {0u, 11u, 45u, 63u})
        for (int kind : {0, 1, 3})
          for (const Spread &s : spreads(4, p))
            for (int code = 0; code < 81; ++code) {
              if (p == 3 && code % 3 == 1) continue;
              std::vector<int> part;
              for (int u = 0, c = code; u < 4; ++u, c /= 3) part.push_back(c % 3);
              metric(kv::with_weights(kv::by_mask(4, mask), kind), s, code % 2, part, 3);
              mc::count_case();
            }
    });
  for (int p = 1; p <= 4; ++p)
    mc::run("orders p=" + std::to_string(p), [&] {
      for (const RefGraph &m : menu)
        for (const Spread &s : some_spreads(m.n(), p))
          for (int kind : {0, 1, 3})
            for (const bool coloring : {false, true}) {
              rearranged(kv::with_weights(m, kind), s, {}, coloring);
              mc::count_case();
            }
      for (uint32_t mask = 0; mask < 64; ++mask)
        for (const Spread &s : spreads(4, std::min(p, 3)))
          for (const bool coloring : {false, true}) {
            rearranged(kv::by_mask(4, mask), s, {}, coloring);
            mc::count_case();
          }
    });
  for (int p = 1; p <= 4; ++p)
    mc::run("colors p=" + std::to_string(p), [&] {
      for (const RefGraph &m : menu)
        for (const Spread &s : some_spreads(m.n(), p))
          for (const bool comp : {false, true})
            for (const NodeID steps : {1u, 2u, 5u}) {
              colored(m, s, comp, steps);
              mc::count_case();
            }
      for (uint32_t mask = 0; mask < 64; ++mask)
        for (const Spread &s : spreads(4, std::min(p, 3))) {
          colored(kv::by_mask(4, mask), s, mask % 2, 1 + mask % 3);
          mc::count_case();
        }
    });
}
