// C08: reordering and isolated-vertex removal only relabel the graph.
#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"

#include "kaminpar-common/degree_buckets.h"

using namespace kv;
namespace kg = kaminpar::shm::graph;

namespace {
using Adj = std::vector<std::vector<std::pair<int, long>>>;

// g must be r with vertex u renamed to map[u]; the order of neighbours is irrelevant.
template <typename G, typename M> void same_graph(const RefGraph &r, const G &g, const M &map, const std::string &at) {
  const int n = r.n();
  MC_CHECK(static_cast<int>(g.n()) == n, "number of vertices " + std::to_string(g.n()) + at);
  MC_CHECK(static_cast<long>(g.m()) == r.m(), "number of edges " + std::to_string(g.m()) + at);
  std::vector<int> inv(n, -1);
  for (int u = 0; u < n; ++u) {
    const long x = static_cast<long>(map[u]);
    MC_CHECK(x >= 0 && x < n && inv[x] < 0, "mapping is not a bijection at " + std::to_string(u) + at);
    inv[x] = u;
  }
  MC_CHECK(static_cast<long>(g.total_node_weight()) == r.total_vw(), "total vertex weight" + at);
  long tew = 0, maxd = 0;
  for (int u = 0; u < n; ++u) {
    std::vector<std::pair<int, long>> want = r.adj[u], got;
    const NodeID x = static_cast<NodeID>(map[u]);
    g.adjacent_nodes(x, [&](const NodeID v, const EdgeWeight w) {
      MC_CHECK(static_cast<int>(v) < n, "neighbour out of range" + at);
      got.push_back({inv[v], static_cast<long>(w)});
    });
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    MC_CHECK(want == got, "neighbours of vertex " + std::to_string(u) + at);
    MC_CHECK(static_cast<long>(g.node_weight(x)) == r.vw[u], "weight of vertex " + std::to_string(u) + at);
    MC_CHECK(static_cast<size_t>(g.degree(x)) == want.size(), "degree of vertex " + std::to_string(u) + at);
    for (auto [v, w] : want) tew += w;
    maxd = std::max<long>(maxd, static_cast<long>(want.size()));
  }
  MC_CHECK(static_cast<long>(g.total_edge_weight()) == tew, "total edge weight" + at);
  MC_CHECK(static_cast<long>(g.max_degree()) == maxd, "maximum degree" + at);
}

template <typename G> void buckets_exact(const G &g, const std::string &at) {
  NodeID next = 0;
  for (size_t b = 0; b < g.number_of_buckets(); ++b) {
    MC_CHECK(g.first_node_in_bucket(b) == next, "bucket " + std::to_string(b) + " begins at " + std::to_string(g.first_node_in_bucket(b)) + " instead of " + std::to_string(next) + at);
    MC_CHECK(g.first_invalid_node_in_bucket(b) == next + g.bucket_size(b), "bucket " + std::to_string(b) + " size" + at);
    for (NodeID u = next; u < next + g.bucket_size(b); ++u) {
      MC_CHECK(u < g.n(), "bucket beyond the graph" + at);
      const auto d = g.degree(u);
      size_t want = 0; // class 0: isolated, class i: degree in [2^(i-1), 2^i)
      while ((1ull << want) <= d) ++want;
      MC_CHECK(want == b, "vertex of degree " + std::to_string(d) + " in bucket " + std::to_string(b) + at);
    }
    next += g.bucket_size(b);
  }
  MC_CHECK(next == g.n(), "buckets cover " + std::to_string(next) + " of " + std::to_string(g.n()) + " vertices" + at);
}

template <typename G> Adj dump(const G &g) {
  Adj a(g.n());
  for (NodeID u = 0; u < g.n(); ++u) g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { a[u].push_back({static_cast<int>(v), static_cast<long>(w)}); });
  return a;
}

// removal and re-integration on a graph sorted by degree buckets (isolated vertices last)
void isolated(const RefGraph &r, Graph &g, const std::vector<int> &old_to_new, const std::string &at) {
  const int n = r.n();
  int iso = 0;
  for (int u = 0; u < n; ++u) iso += r.adj[u].empty();
  MC_CHECK(static_cast<int>(kg::count_isolated_nodes(g)) == iso, "number of isolated vertices " + std::to_string(kg::count_isolated_nodes(g)) + " instead of " + std::to_string(iso) + at);
  std::vector<int> new_to_old(n);
  for (int u = 0; u < n; ++u) new_to_old[old_to_new[u]] = u;
  for (int x = 0; x < n; ++x) MC_CHECK((x >= n - iso) == r.adj[new_to_old[x]].empty(), "isolated vertices are not exactly the last ones" + at);
  for (int round = 0; round < 2; ++round) {
    g.remove_isolated_nodes(static_cast<NodeID>(iso));
    long w = 0, mx = 0;
    for (int u = 0; u < n; ++u)
      if (!r.adj[u].empty()) { w += r.vw[u]; mx = std::max(mx, r.vw[u]); }
    MC_CHECK(static_cast<int>(g.n()) == n - iso, "vertices after removal: " + std::to_string(g.n()) + at);
    MC_CHECK(static_cast<long>(g.m()) == r.m(), "edges after removal" + at);
    MC_CHECK(static_cast<long>(g.total_node_weight()) == w, "total vertex weight after removal: " + std::to_string(g.total_node_weight()) + " instead of " + std::to_string(w) + at);
    if (iso < n) MC_CHECK(static_cast<long>(g.max_node_weight()) == mx, "maximum vertex weight after removal" + at);
    MC_CHECK(kg::count_isolated_nodes(g) == 0, "isolated vertices left" + at);
    buckets_exact(g, " after removal" + at);
    for (int x = 0; x < n - iso; ++x) {
      std::vector<std::pair<int, long>> got, want = r.adj[new_to_old[x]];
      g.adjacent_nodes(static_cast<NodeID>(x), [&](const NodeID v, const EdgeWeight ew) { got.push_back({new_to_old[v], static_cast<long>(ew)}); });
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      MC_CHECK(got == want && static_cast<long>(g.node_weight(x)) == r.vw[new_to_old[x]], "vertex " + std::to_string(x) + " after removal" + at);
    }
    // a partition of the remaining graph, completed for the isolated vertices
    const int k = 3;
    PartitionContext pc;
    const int back_expected = iso;
    std::vector<int> mine(n - iso);
    StaticArray<BlockID> a(n - iso);
    for (int x = 0; x < n - iso; ++x) { mine[x] = static_cast<int>(hash64(x + round) % k); a[x] = static_cast<BlockID>(mine[x]); }
    PartitionedGraph pg(g, k, std::move(a));
    const NodeID back = g.integrate_isolated_nodes();
    MC_CHECK(static_cast<int>(back) == back_expected, "re-integrated " + std::to_string(back) + " instead of " + std::to_string(iso) + " vertices" + at);
    same_graph(r, g, old_to_new, " after re-integration" + at);
    long mxall = 0;
    for (long x : r.vw) mxall = std::max(mxall, x);
    if (n > 0) MC_CHECK(static_cast<long>(g.max_node_weight()) == mxall, "maximum vertex weight after re-integration" + at);
    pc.setup(g, k, 0.03 + round);
    PartitionedGraph full = kg::assign_isolated_nodes(std::move(pg), back, pc);
    std::vector<int> p(n);
    for (int x = 0; x < n; ++x) {
      p[x] = static_cast<int>(full.block(x));
      MC_CHECK(p[x] >= 0 && p[x] < k, "isolated vertex without block" + at);
      if (x < n - iso) MC_CHECK(p[x] == mine[x], "block of a non-isolated vertex changed" + at);
    }
    std::vector<long> bw(k, 0);
    for (int x = 0; x < n; ++x) bw[p[x]] += r.vw[new_to_old[x]];
    for (int b = 0; b < k; ++b) MC_CHECK(static_cast<long>(full.block_weight(b)) == bw[b], "block weight after completing the partition" + at);
    // unit weights: completing never overloads a block that had room as long as any block has room
    if (r.unit_vw() && n > 0) {
      std::vector<long> start(k, 0);
      for (int x = 0; x < n - iso; ++x) ++start[mine[x]];
      long room = 0;
      for (int b = 0; b < k; ++b) room += std::max(0l, static_cast<long>(pc.max_block_weight(b)) - start[b]);
      for (int b = 0; b < k; ++b)
        if (room >= iso) MC_CHECK(bw[b] <= std::max<long>(start[b], pc.max_block_weight(b)), "completing the partition overloads block " + std::to_string(b) + at);
    }
  }
}

void by_degree(const RefGraph &r, bool keep_weights, const std::string &how) {
  const std::string at = " [" + how + "] " + r.str();
  CSRGraph c = csr(r, keep_weights);
  Graph g = kg::rearrange_by_degree_buckets(c);
  MC_CHECK(g.sorted() && (r.n() == 0 || g.permuted()), "rearranged graph is not marked as such" + at);
  std::vector<int> map(r.n());
  for (int u = 0; u < r.n(); ++u) map[u] = static_cast<int>(g.map_original_node(static_cast<NodeID>(u)));
  same_graph(r, g, map, at);
  isolated(r, g, map, at);
  // compressed form of the rearranged graph
  if (r.n() > 0) {
    CSRGraph sorted = kaminpar::shm::debug::sort_neighbors(std::move(g.csr_graph()));
    same_graph(r, sorted, map, " neighbours sorted" + at);
    for (NodeID u = 0; u < sorted.n(); ++u) MC_CHECK(static_cast<int>(sorted.map_original_node(u)) == map[u], "mapping changed by sorting neighbours" + at);
    Graph cg(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(sorted)));
    MC_CHECK(cg.sorted(), "compressed graph is not marked as sorted" + at);
    isolated(r, cg, map, " compressed" + at);
    Graph cp(std::make_unique<CompressedGraph>(parallel_compress(sorted)));
    isolated(r, cp, map, " compressed in parallel" + at);
    // the order of neighbours matches the compressed representation
    CSRGraph re = csr(r, keep_weights);
    kg::reorder_edges_by_compression(re);
    std::vector<int> id(r.n());
    std::iota(id.begin(), id.end(), 0);
    same_graph(r, re, id, " edges reordered" + at);
    CSRGraph plain = csr(r, keep_weights);
    CSRGraph plain_sorted = kaminpar::shm::debug::sort_neighbors(std::move(plain));
    CompressedGraph comp = CompressedGraphBuilder::compress(plain_sorted);
    MC_CHECK(dump(re) == dump(comp), "edge order differs from the compressed graph's" + at);
  }
}

// any permutation, by the generic builder
void by_permutation(const RefGraph &r, const std::vector<int> &p, bool ghosts, const std::string &how) {
  const std::string at = " [" + how + "] " + r.str() + " permutation " + vec(p);
  const int n = r.n();
  kg::NodePermutations np;
  np.old_to_new = StaticArray<NodeID>(n);
  np.new_to_old = StaticArray<NodeID>(n);
  for (int u = 0; u < n; ++u) { np.old_to_new[u] = static_cast<NodeID>(p[u]); np.new_to_old[p[u]] = static_cast<NodeID>(u); }
  CSRGraph c = csr(r);
  StaticArray<EdgeID> nn(n + 1);
  StaticArray<NodeID> ne(r.m());
  StaticArray<NodeWeight> nw(c.raw_node_weights().size());
  StaticArray<EdgeWeight> ew(c.raw_edge_weights().size());
  kg::build_permuted_graph(c.raw_nodes(), c.raw_edges(), c.raw_node_weights(), c.raw_edge_weights(), np, nn, ne, nw, ew);
  CSRGraph out(std::move(nn), std::move(ne), std::move(nw), std::move(ew));
  same_graph(r, out, p, at);
  if (ghosts && n > 1) { // the last vertex is a ghost: kept in place, no neighbourhood of its own
    const int ln = n - 1;
    RefGraph part(n);
    for (int u = 0; u < ln; ++u) part.adj[u] = r.adj[u];
    StaticArray<EdgeID> gn(ln + 1);
    std::vector<NodeID> e;
    std::vector<EdgeWeight> w;
    gn[0] = 0;
    for (int u = 0; u < ln; ++u) {
      for (auto [v, x] : r.adj[u]) { e.push_back(static_cast<NodeID>(v)); w.push_back(static_cast<EdgeWeight>(x)); }
      gn[u + 1] = e.size();
    }
    StaticArray<NodeID> ge(e.begin(), e.end());
    StaticArray<EdgeWeight> gw(w.begin(), w.end());
    StaticArray<NodeWeight> gv(n);
    for (int u = 0; u < n; ++u) gv[u] = static_cast<NodeWeight>(r.vw[u]);
    std::vector<int> q;
    for (int u = 0; u < n; ++u) if (u < ln) q.push_back(p[u] < p[ln] ? p[u] : p[u] - 1);
    kg::NodePermutations lp;
    lp.old_to_new = StaticArray<NodeID>(ln);
    lp.new_to_old = StaticArray<NodeID>(ln);
    for (int u = 0; u < ln; ++u) { lp.old_to_new[u] = static_cast<NodeID>(q[u]); lp.new_to_old[q[u]] = static_cast<NodeID>(u); }
    StaticArray<EdgeID> on(ln + 1);
    StaticArray<NodeID> oe(ge.size());
    StaticArray<NodeWeight> ov(n);
    StaticArray<EdgeWeight> ow(gw.size());
    kg::build_permuted_graph<true>(gn, ge, gv, gw, lp, on, oe, ov, ow);
    for (int u = 0; u < ln; ++u) {
      std::vector<std::pair<int, long>> got, want;
      for (auto [v, x] : r.adj[u]) want.push_back({v < ln ? q[v] : v, x});
      for (EdgeID i = on[q[u]]; i < on[q[u] + 1]; ++i) got.push_back({static_cast<int>(oe[i]), static_cast<long>(ow[i])});
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      MC_CHECK(got == want, "neighbours of " + std::to_string(u) + " with a ghost vertex" + at);
      MC_CHECK(static_cast<long>(ov[q[u]]) == r.vw[u], "weight with a ghost vertex" + at);
    }
  }
}

void generic_buckets(int n, int nb, uint64_t seed, const std::string &at0) {
  std::vector<int> b(n);
  for (int u = 0; u < n; ++u) b[u] = static_cast<int>(hash64(seed * 1000 + u) % nb);
  const std::string at = " buckets " + vec(b) + at0;
  auto np = kg::compute_node_permutation_by_generic_buckets(static_cast<NodeID>(n), nb, [&](const NodeID u) { return static_cast<NodeID>(b[u]); });
  std::vector<int> order(n);
  std::iota(order.begin(), order.end(), 0);
  std::stable_sort(order.begin(), order.end(), [&](int x, int y) { return b[x] < b[y]; });
  for (int x = 0; x < n; ++x) {
    MC_CHECK(static_cast<int>(np.new_to_old[x]) < n, "new_to_old out of range" + at);
    MC_CHECK(static_cast<int>(np.old_to_new[np.new_to_old[x]]) == x, "mappings are not inverse" + at);
    MC_CHECK(b[np.new_to_old[x]] == b[order[x]], "vertices are not sorted by bucket" + at);
  }
}

#if !defined(__SANITIZE_THREAD__)
void sequential() {
  struct Div { int T, chunks; };
  const std::vector<Div> divs = {{1, 1}, {2, 2}, {3, 7}, {5, 5}};
  const int N = mc::thorough() ? 6 : 5;
  for (auto d : divs)
    for (int n = 0; n <= N; ++n) {
      std::vector<uint32_t> masks;
      if (n == 0) masks = {0};
      else if (n <= 4) for (uint32_t i = 0; i < num_masks(n); ++i) masks.push_back(i);
      else masks = iso_classes(n);
      mc::Config cfg;
      cfg.workers = d.T;
      cfg.chunks = d.chunks;
      const int parts = n < 4 ? 1 : 4;
      for (int part = 0; part < parts; ++part)
        mc::explore("small n=" + std::to_string(n) + "/" + std::to_string(part) + " T" + std::to_string(d.T), cfg, [&] {
          const std::string how = "T" + std::to_string(d.T) + "/" + std::to_string(d.chunks);
          for (size_t mi = part; mi < masks.size(); mi += parts)
            for (int wk : {0, 1, 2, 3}) {
              const RefGraph r = with_weights(by_mask(n, masks[mi]), wk);
              std::vector<int> p(n);
              std::iota(p.begin(), p.end(), 0);
              do {
                mc::count_case();
                by_permutation(r, p, true, how);
                if (wk == 0 || wk == 3) {
                  RefGraph q = relabel(r, p);
                  q.name += vec(p);
                  if (n <= 4 || (mi + p[0]) % 3 == 0 || mc::thorough()) by_degree(q, wk == 3, how);
                }
              } while (std::next_permutation(p.begin(), p.end()));
            }
        });
      mc::explore("buckets n=" + std::to_string(n) + " T" + std::to_string(d.T), cfg, [&] {
        for (int nn : {n, n + 6, 10 * n + 3})
          for (int nb : {1, 2, 3, 5, 70})
            for (uint64_t s = 0; s < 40; ++s) { mc::count_case(); generic_buckets(nn, nb, s, " T" + std::to_string(d.T)); }
      });
    }
  std::vector<RefGraph> menu = {star(300), disjoint(star(70), empty(13)), disjoint(empty(9), clique(20)), grid(12, 13), disjoint(prand(150, 7, 2), empty(30)), disjoint(matching(30), path(40)), caveman(5, 9), empty(17),
                                disjoint(disjoint(star(5), empty(3)), disjoint(star(17), star(65)))};
  {
    RefGraph g(300); // consecutive neighbours (intervals) and gaps
    for (int u = 10; u < 290; ++u)
      if (u % 7) g.add(0, u);
    for (int u = 20; u < 60; ++u) g.add(1, u);
    for (int u = 3; u < 299; u += 4) g.add(2, u);
    g.name = "intervals300";
    g.sort_adj();
    menu.push_back(g);
  }
  for (auto &base : menu)
    for (int sc : {0, 1, 2})
      for (int wk : {0, 1, 2, 3, 4})
        for (auto d : divs) {
          mc::Config cfg;
          cfg.workers = d.T;
          cfg.chunks = d.chunks;
          mc::explore("menu " + base.name + " s" + std::to_string(sc) + " w" + std::to_string(wk) + " T" + std::to_string(d.T), cfg, [&] {
            const RefGraph r = with_weights(sc ? scattered(base, sc) : base, wk);
            mc::count_case();
            by_degree(r, false, "T" + std::to_string(d.T));
            std::vector<int> p(r.n());
            std::iota(p.begin(), p.end(), 0);
            for (int i = r.n() - 1; i > 0; --i) std::swap(p[i], p[hash64(sc * 77 + i) % (i + 1)]);
            by_permutation(r, p, true, "T" + std::to_string(d.T));
            mc::observe(hash64(wk * 10 + sc));
          });
        }
  // vertices whose neighbourhoods are stored in parts, with and without intervals
  for (const int deg : {9999, 10000, 10001, 11000, 12345})
    for (int wk : {0, 1, 3})
      mc::run("hub " + std::to_string(deg) + " w" + std::to_string(wk), [=] {
        RefGraph g(deg + deg / 3 + 40);
        int added = 0;
        for (int u = 3; added < deg; ++u)
          if (u % 5) g.add(u % 37 == 1 && u > 100 ? 2 : 0, u), added += !(u % 37 == 1 && u > 100);
        g.name = "hub" + std::to_string(deg);
        g.sort_adj();
        by_degree(with_weights(g, wk), false, "hub");
        by_degree(with_weights(scattered(g), wk), false, "hub");
        mc::count_case();
      });
}
#else
void concurrent() {
  std::vector<RefGraph> ins = {with_weights(path(4), 3), with_weights(disjoint(star(4), empty(2)), 3), with_weights(disjoint(empty(1), cycle(4)), 1), clique(4), empty(3)};
  for (auto &r : ins)
    for (auto a : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block})
      for (int T : {2, 3}) {
        mc::Config cfg;
        cfg.workers = T;
        cfg.assign = a;
        cfg.preemptions = mc::thorough() ? 3 : 2;
        cfg.max_exec = mc::thorough() ? 2000000 : 100000;
        mc::explore("mt " + r.name + " T" + std::to_string(T) + " a" + std::to_string(static_cast<int>(a)), cfg, [&] {
          CSRGraph c = csr(r);
          Graph g = kg::rearrange_by_degree_buckets(c);
          const NodeID iso = kg::count_isolated_nodes(g);
          kg::reorder_edges_by_compression(g.csr_graph());
          g.remove_isolated_nodes(iso);
          std::vector<int> map(r.n());
          {
            mc::RtGuard guard;
            buckets_exact(g, r.str());
            for (int u = 0; u < r.n(); ++u) map[u] = static_cast<int>(g.map_original_node(static_cast<NodeID>(u)));
          }
          StaticArray<BlockID> b(g.n());
          PartitionedGraph pg(g, 2, std::move(b));
          const NodeID back = g.integrate_isolated_nodes();
          MC_CHECK(back == iso, "re-integrated " + std::to_string(back));
          PartitionContext pc;
          pc.setup(g, 2, 1.0);
          PartitionedGraph full = kg::assign_isolated_nodes(std::move(pg), back, pc);
          mc::RtGuard guard;
          same_graph(r, g, map, " " + r.str());
          for (NodeID u = 0; u < full.n(); ++u) MC_CHECK(full.block(u) < 2, "block of " + std::to_string(u));
          MC_CHECK(static_cast<long>(full.block_weight(0) + full.block_weight(1)) == r.total_vw(), "weights of the completed partition");
          uint64_t h = 0;
          for (int x : map) h = hash_add(h, x);
          mc::observe(h);
        });
      }
}
#endif
} // namespace

void mc_main() {
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
