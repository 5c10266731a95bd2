// C14: gain caches always report the true connection of a vertex to a block. Built in several variants: sequential with 32- and 64-bit weights (all
// move sequences) and multi-threaded (all schedules of concurrent moves).
#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"

using namespace kv;

namespace {
// the two instantiations that exist but have no alias
template <typename G> using ExactDense = DenseGainCache<G, GenericDeltaGainCache, true, true>;
template <typename G> using ExactSparse = SparseGainCache<G, LargeKGenericDeltaGainCache, false, true>;
template <typename G> using ExactCompact = CompactHashingGainCache<G, GenericDeltaGainCache, true, true>;
template <typename G> using ExactHashing = HashingGainCache<G, LargeKGenericDeltaGainCache, false, true>;

Context &context() {
  static Context c = kaminpar::shm::create_default_context();
  return c;
}

StaticArray<BlockID> arr(const std::vector<int> &p) {
  StaticArray<BlockID> a(p.size(), kaminpar::static_array::seq);
  for (size_t i = 0; i < p.size(); ++i) a[i] = static_cast<BlockID>(p[i]);
  return a;
}

// Whether one 32/64-bit entry can hold block and weight (the documented precondition of the hash based caches with fixed width).
bool packable(const RefGraph &r, int k) {
  long maxw = 0;
  for (int u = 0; u < r.n(); ++u) {
    long s = 0;
    for (auto [v, w] : r.adj[u]) s += w;
    maxw = std::max(maxw, s);
  }
  int bits = 0;
  while ((1l << bits) < k) ++bits;
  return maxw < (1l << (sizeof(EdgeWeight) * 8 - 1 - bits));
}

// Any object with the query interface (cache or delta view) against the partition p.
template <bool kExact, bool kNonadjacent, bool kDelta, typename Q> void check_queries(Q &q, const RefGraph &r, int k, const std::vector<int> &p, const std::string &at) {
  for (int u = 0; u < r.n(); ++u) {
    std::vector<long> conn(k, 0);
    for (auto [v, w] : r.adj[u]) conn[p[v]] += w;
    const int from = p[u];
    for (int b = 0; b < k; ++b) {
      const long c = static_cast<long>(q.conn(static_cast<NodeID>(u), static_cast<BlockID>(b)));
      MC_CHECK(c == conn[b], "connection of " + std::to_string(u) + " to block " + std::to_string(b) + " is " + std::to_string(c) + " instead of " + std::to_string(conn[b]) + at);
      if (b == from) continue;
      const long g = static_cast<long>(q.gain(static_cast<NodeID>(u), static_cast<BlockID>(from), static_cast<BlockID>(b)));
      MC_CHECK(g == conn[b] - conn[from], "gain of moving " + std::to_string(u) + " to block " + std::to_string(b) + " is " + std::to_string(g) + at);
      for (int b2 = 0; b2 < k; ++b2) {
        if (b2 == from || b2 == b) continue;
        const auto pr = q.gain(static_cast<NodeID>(u), static_cast<BlockID>(from), std::make_pair(static_cast<BlockID>(b), static_cast<BlockID>(b2)));
        MC_CHECK(static_cast<long>(pr.first) == conn[b] - conn[from] && static_cast<long>(pr.second) == conn[b2] - conn[from], "pair of gains of " + std::to_string(u) + at);
        if (k > 6) break;
      }
    }
    std::vector<int> seen(k, 0);
    q.gains(static_cast<NodeID>(u), static_cast<BlockID>(from), [&](const BlockID to, auto &&gain) {
      MC_CHECK(static_cast<int>(to) < k && static_cast<int>(to) != from, "visited block " + std::to_string(to) + " for vertex " + std::to_string(u) + at);
      ++seen[to];
      const long g = static_cast<long>(gain());
      MC_CHECK(g == conn[to] - (kExact ? conn[from] : 0), "iteration reports " + std::to_string(g) + " for vertex " + std::to_string(u) + " and block " + std::to_string(to) + at);
    });
    for (int b = 0; b < k; ++b) {
      if (b == from) continue;
      const bool want = kNonadjacent || conn[b] > 0;
      if (want) MC_CHECK(seen[b] >= 1, "iteration for vertex " + std::to_string(u) + " misses block " + std::to_string(b) + at);
      if (!kDelta) MC_CHECK(seen[b] == (want ? 1 : 0), "iteration for vertex " + std::to_string(u) + " visits block " + std::to_string(b) + " " + std::to_string(seen[b]) + " times" + at);
    }
    if constexpr (requires { q.is_border_node(NodeID(0), BlockID(0)); }) {
      bool border = false;
      for (auto [v, w] : r.adj[u]) border |= p[v] != from;
      MC_CHECK(q.is_border_node(static_cast<NodeID>(u), static_cast<BlockID>(from)) == border, "border status of " + std::to_string(u) + at);
    }
  }
}

template <typename G, typename Cache> struct Driver {
  Cache cache;
  const char *name;
  std::vector<int> p;
  std::string at;
  const RefGraph *r = nullptr;
  const G *g = nullptr;
  std::unique_ptr<PartitionedGraph> pg;
  int k = 0;

  Driver(const char *name, int n, int k) : cache(context(), static_cast<NodeID>(n), static_cast<BlockID>(k)), name(name) {}

  void init(const RefGraph &ref, const Graph &graph, const G &concrete, int kk, const std::vector<int> &part) {
    r = &ref, g = &concrete, k = kk, p = part;
    pg = std::make_unique<PartitionedGraph>(PartitionedGraph::seq{}, graph, static_cast<BlockID>(kk), arr(part));
    cache.initialize(concrete, *pg);
    at = std::string(" [") + name + "] k=" + std::to_string(k) + " " + ref.str() + " P=" + vec(part);
  }
  void check() { check_queries<Cache::kIteratesExactGains, Cache::kIteratesNonadjacentBlocks, false>(cache, *r, k, p, at); }
  void move(int u, int to) {
    const int from = p[u];
    pg->set_block(static_cast<NodeID>(u), static_cast<BlockID>(to));
    cache.move(static_cast<NodeID>(u), static_cast<BlockID>(from), static_cast<BlockID>(to));
    p[u] = to;
  }
  void walk(int depth, const std::vector<int> &movable) {
    mc::count_case();
    check();
    if (depth == 0) return;
    const std::string save = at;
    for (int u : movable)
      for (int b = 0; b < k; ++b) {
        const int from = p[u];
        if (b == from) continue;
        at = save + " " + std::to_string(u) + "->" + std::to_string(b);
        move(u, b);
        walk(depth - 1, movable);
        at += " back";
        move(u, from);
      }
    at = save;
    check();
  }
};

// Views of uncommitted moves: visible only in the view, then dropped, finally committed.
template <typename G, typename Cache> void delta_history(Driver<G, Cache> &dr, const std::vector<std::pair<int, int>> &moves) {
  mc::count_case();
  const std::string save = dr.at;
  DeltaPartitionedGraph d(dr.pg.get());
  typename Cache::DeltaGainCache dc(dr.cache, d);
  std::vector<int> q = dr.p;
  std::string at = dr.at + " delta";
  for (int round = 0; round < 2; ++round) {
    for (auto [u, b] : moves) {
      if (q[u] == b) continue;
      const int from = q[u];
      d.set_block(static_cast<NodeID>(u), static_cast<BlockID>(b));
      dc.move(static_cast<NodeID>(u), static_cast<BlockID>(from), static_cast<BlockID>(b));
      q[u] = b;
      at += " " + std::to_string(u) + "->" + std::to_string(b);
      check_queries<Cache::kIteratesExactGains, Cache::kIteratesNonadjacentBlocks, true>(dc, *dr.r, dr.k, q, at);
    }
    for (int u = 0; u < dr.r->n(); ++u) MC_CHECK(static_cast<int>(d.block(static_cast<NodeID>(u))) == q[u], "block of " + std::to_string(u) + " in the view" + at);
    const auto w = ref_block_weights(*dr.r, q, dr.k);
    for (int b = 0; b < dr.k; ++b) MC_CHECK(static_cast<long>(d.block_weight(static_cast<BlockID>(b))) == w[b], "block weight in the view" + at);
    dr.check(); // the cache itself is unaffected
    d.clear();
    dc.clear();
    q = dr.p;
    at += " cleared";
    check_queries<Cache::kIteratesExactGains, Cache::kIteratesNonadjacentBlocks, true>(dc, *dr.r, dr.k, q, at);
  }
  // commit underneath a fresh view
  for (auto [u, b] : moves)
    if (dr.p[u] != b) dr.move(u, b);
  dr.at = save + " committed";
  dr.check();
  dr.at = save;
}

// Calls f(name, type tag) for every kind of cache.
template <typename G, typename F> void for_each_cache(bool is_packable, F &&f) {
  f("compact", std::type_identity<NormalCompactHashingGainCache<G>>{});
  f("compact-largek", std::type_identity<LargeKCompactHashingGainCache<G>>{});
  f("compact-exact", std::type_identity<ExactCompact<G>>{});
  f("dense", std::type_identity<NormalDenseGainCache<G>>{});
  f("dense-largek", std::type_identity<LargeKDenseGainCache<G>>{});
  f("dense-exact", std::type_identity<ExactDense<G>>{});
  f("on-the-fly", std::type_identity<NormalOnTheFlyGainCache<G>>{});
  if (is_packable) {
    f("sparse", std::type_identity<NormalSparseGainCache<G>>{});
    f("sparse-largek", std::type_identity<LargeKSparseGainCache<G>>{});
    f("sparse-exact", std::type_identity<ExactSparse<G>>{});
    f("hashing", std::type_identity<NormalHashingGainCache<G>>{});
    f("hashing-largek", std::type_identity<LargeKHashingGainCache<G>>{});
    f("hashing-exact", std::type_identity<ExactHashing<G>>{});
  }
}

// A graph in one of its representations; `ref` describes it in the representation's own vertex order.
struct Rep {
  RefGraph ref;
  Graph graph;
};
Rep plain(const RefGraph &r) { return {r, mkgraph(r)}; }
Rep sorted(const RefGraph &r) {
  CSRGraph c = csr(r);
  Graph g = kaminpar::shm::graph::rearrange_by_degree_buckets(c);
  g.remove_isolated_nodes(kaminpar::shm::graph::count_isolated_nodes(g));
  RefGraph q = read_back(g);
  q.name = r.name + ".sorted";
  return {q, std::move(g)};
}
Rep compressed(const RefGraph &r) {
  RefGraph s = r;
  s.sort_adj();
  CSRGraph tmp = csr(s);
  return {s, Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)))};
}
template <typename F> void for_each_rep(const RefGraph &r, F &&f) {
  {
    Rep a = plain(r);
    f(a, a.graph.csr_graph());
  }
  {
    Rep a = sorted(r);
    f(a, a.graph.csr_graph());
  }
  {
    Rep a = compressed(r);
    f(a, a.graph.compressed_graph());
  }
}
std::vector<int> all_nodes(int n) {
  std::vector<int> v(n);
  std::iota(v.begin(), v.end(), 0);
  return v;
}
// menu of partitions
std::vector<int> menu(int n, int k, int kind) {
  std::vector<int> p(n);
  for (int u = 0; u < n; ++u) p[u] = kind == 0 ? u * k / std::max(n, 1) : kind == 1 ? static_cast<int>(hash64(u * 31 + k) % k) : kind == 2 ? 0 : (u % 2 ? k - 1 : 0);
  return p;
}

#if !defined(__SANITIZE_THREAD__)
RefGraph scaled(RefGraph g, long f) { // edge weights such that weighted degrees approach f
  long maxdeg = 1;
  for (auto &a : g.adj) maxdeg = std::max<long>(maxdeg, static_cast<long>(a.size()));
  for (int u = 0; u < g.n(); ++u)
    for (auto &[v, w] : g.adj[u]) w = std::max(1l, f / maxdeg + ((std::min(u, v) + std::max(u, v)) % 2 && f > 4 * maxdeg ? -1 : 0));
  g.name += ".x" + std::to_string(f);
  return g;
}
RefGraph heavy_edge(RefGraph g, long f) { // one edge carries nearly all of the weight
  bool first = true;
  for (int u = 0; u < g.n(); ++u)
    for (auto &[v, w] : g.adj[u])
      if (first && u < v) {
        first = false;
        w = f;
        for (auto &[x, y] : g.adj[v])
          if (x == u) y = f;
      }
  g.name += ".h" + std::to_string(f);
  return g;
}

void sequential() {
  // every small graph, every partition, every sequence of moves
  for (int n = 1; n <= 4; ++n) {
    const auto masks = iso_classes(n);
    for (size_t mi = 0; mi < masks.size(); ++mi)
      for (int wk : {0, 3, 5})
        mc::run("moves n=" + std::to_string(n) + "/" + std::to_string(masks[mi]) + " w" + std::to_string(wk), [&, n, mi, wk] {
          const RefGraph r = with_weights(by_mask(n, masks[mi]), wk);
          for_each_rep(r, [&](Rep &rep, auto &g) {
            using G = std::remove_reference_t<decltype(g)>;
            const int m = rep.ref.n();
            for (int k : {2, 3, 4, 5, 8}) {
              std::vector<int> p(m, 0);
              long total = 1;
              for (int i = 0; i < m; ++i) total *= k;
              for_each_cache<G>(packable(rep.ref, k), [&]<typename C>(const char *name, std::type_identity<C>) {
                Driver<G, C> d(name, m, k);
                const long step = mc::thorough() || total <= 81 ? 1 : total / 27;
                for (long code = 0; code < total; code += step) {
                  long c = code;
                  for (int i = 0; i < m; ++i) p[i] = static_cast<int>(c % k), c /= k;
                  d.init(rep.ref, rep.graph, g, k, p);
                  d.walk(total <= 16 ? 3 : total <= 81 ? 2 : 1, all_nodes(m));
                }
              });
            }
          });
        });
  }
  // structured graphs: hash tables, full tables and the mix of both; neighbourhoods that empty and fill up
  const std::vector<RefGraph> gs{star(4), star(5), star(6), star(9), star(17), clique(5), clique(6), caveman(2, 4), cycle(6), grid(2, 4), disjoint(star(5), empty(2)), disjoint(empty(1), clique(4)), prand(12, 5, 1), scattered(caveman(3, 4)), disjoint(star(9), path(4))};
  for (auto &base : gs)
    for (int wk : {0, 3, 5})
      mc::run("structured " + base.name + " w" + std::to_string(wk), [&, wk] {
        for_each_rep(with_weights(base, wk), [&](Rep &rep, auto &g) {
          using G = std::remove_reference_t<decltype(g)>;
          const int m = rep.ref.n();
          std::vector<int> movable;
          for (int i = 0; i < m && movable.size() < 4; i += std::max(1, m / 4)) movable.push_back(i);
          for (int k : {1, 2, 3, 4, 7, 8, 9, 16, 17, 33})
            for (int kind = 0; kind < 4; ++kind) {
              const auto p = menu(m, k, kind);
              for_each_cache<G>(packable(rep.ref, k), [&]<typename C>(const char *name, std::type_identity<C>) {
                Driver<G, C> d(name, m, k);
                d.init(rep.ref, rep.graph, g, k, p);
                d.walk(k <= 4 ? 2 : 1, movable);
                // move everything around once
                for (int round = 0; round < 3; ++round)
                  for (int u = 0; u < m; ++u) {
                    const int to = static_cast<int>(hash64(u * 7 + round * 1000 + kind) % k);
                    if (to != d.p[u]) d.move(u, to);
                    if (u % 3 == 2) d.check();
                  }
                d.check();
              });
            }
        });
      });
  // weights around every width of the table entries
  std::vector<long> weights{7, 8, 15, 16, 31, 63, 64, 127, 128, 254, 255, 256, 257, 511, 1023, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 29) - 1, 1 << 29, (1l << 30) - 1, (1l << 30), (1l << 31) - 40};
  if (sizeof(EdgeWeight) == 8)
    for (int b = 31; b <= 54; ++b) weights.push_back(1l << b), weights.push_back((1l << b) - 1);
  for (long w : weights)
    mc::run("weights " + std::to_string(w), [&, w] {
      for (const RefGraph &r : {scaled(star(4), w), heavy_edge(star(5), w), scaled(clique(5), w), heavy_edge(cycle(4), w), scaled(path(2), w)}) {
        long total = 0;
        for (auto &a : r.adj)
          for (auto [v, x] : a) total += x;
        if (total > (sizeof(EdgeWeight) == 8 ? 1l << 60 : (1l << 31) - 1)) continue;
        for_each_rep(r, [&](Rep &rep, auto &g) {
          using G = std::remove_reference_t<decltype(g)>;
          for (int k : {2, 3, 5, 8, 16, 17})
            for (int kind : {0, 1, 2})
              for_each_cache<G>(packable(rep.ref, k), [&]<typename C>(const char *name, std::type_identity<C>) {
                Driver<G, C> d(name, rep.ref.n(), k);
                d.init(rep.ref, rep.graph, g, k, menu(rep.ref.n(), k, kind));
                d.walk(k <= 3 ? 2 : 1, all_nodes(rep.ref.n()));
              });
        });
      }
    });
  // views of uncommitted moves
  for (const RefGraph &base : {star(4), cycle(4), clique(4), disjoint(path(3), empty(1)), star(7), grid(2, 3)})
    for (int wk : {0, 3})
      mc::run("views " + base.name + " w" + std::to_string(wk), [&, base, wk] {
        for_each_rep(with_weights(base, wk), [&](Rep &rep, auto &g) {
          using G = std::remove_reference_t<decltype(g)>;
          const int m = rep.ref.n();
          for (int k : {2, 3, 5, 9})
            for (int kind = 0; kind < 3; ++kind)
              for_each_cache<G>(packable(rep.ref, k), [&]<typename C>(const char *name, std::type_identity<C>) {
                const int depth = k == 2 ? (mc::thorough() ? 4 : 3) : k <= 3 ? 2 : 1;
                Driver<G, C> d(name, m, k);
                std::vector<std::pair<int, int>> seq;
                const int A = m * k;
                long total = 1;
                for (int i = 0; i < depth; ++i) total *= A;
                for (long code = 0; code < total; ++code) {
                  long c = code;
                  seq.clear();
                  for (int i = 0; i < depth; ++i, c /= A) seq.push_back({static_cast<int>(c % A) / k, static_cast<int>(c % A) % k});
                  d.init(rep.ref, rep.graph, g, k, menu(m, k, kind));
                  delta_history(d, seq);
                }
              });
        });
      });
  // one cache for many graphs and numbers of blocks in a row (growing, shrinking)
  mc::run("reuse", [&] {
    std::vector<RefGraph> seqs{path(3), star(9), clique(6), empty(4), grid(3, 4), star(30), path(20), clique(12), matching(6), prand(40, 6, 1), path(2), clique(9)};
    auto go = [&](auto &&make) {
      std::vector<Rep> reps;
      for (auto &s : seqs) reps.push_back(make(with_weights(s, 3)));
      using G = std::remove_reference_t<decltype(reps[0].graph.csr_graph())>;
      for (size_t first = 0; first < reps.size(); ++first)
        for (int ks = 0; ks < 3; ++ks)
          for_each_cache<G>(true, [&]<typename C>(const char *name, std::type_identity<C>) {
            Driver<G, C> d(name, reps[first].ref.n(), 4);
            for (size_t i = 0; i < reps.size(); ++i)
              for (int k : ks == 0 ? std::vector<int>{2, 16, 3} : ks == 1 ? std::vector<int>{64, 2} : std::vector<int>{5}) {
                Rep &rep = reps[(first + i) % reps.size()];
                if (name == std::string("on-the-fly") && k > 4) continue; // sized once for the number of blocks
                d.init(rep.ref, rep.graph, rep.graph.csr_graph(), k, menu(rep.ref.n(), k, 1));
                d.check();
                for (int u = 0; u < rep.ref.n(); u += 2) d.move(u, (d.p[u] + 1) % k);
                d.check();
                mc::count_case();
              }
          });
    };
    go(plain);
    go(sorted);
  });
  // several workers initialise
  for (int T : {2, 3})
    for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
      mc::Config cfg;
      cfg.workers = T, cfg.assign = as;
      mc::explore("workers " + std::to_string(T) + "/" + std::to_string(static_cast<int>(as)), cfg, [&] {
        for (auto &base : gs)
          for_each_rep(with_weights(base, 3), [&](Rep &rep, auto &g) {
            using G = std::remove_reference_t<decltype(g)>;
            for (int k : {2, 4, 9, 33})
              for_each_cache<G>(true, [&]<typename C>(const char *name, std::type_identity<C>) {
                mc::count_case();
                Driver<G, C> d(name, rep.ref.n(), k);
                d.init(rep.ref, rep.graph, g, k, menu(rep.ref.n(), k, 1));
                d.check();
              });
          });
      });
    }
}
#else
// Threads move different vertices at the same time.
void concurrent() {
  struct Script {
    RefGraph g;
    int k;
    std::vector<int> p;
    std::vector<std::vector<std::pair<int, int>>> moves; // per thread: (vertex, target)
  };
  const std::vector<Script> scripts = {
      {with_weights(star(3), 3), 8, {0, 1, 2}, {{{1, 3}}, {{2, 3}}}},
      {with_weights(star(3), 3), 8, {0, 1, 2}, {{{1, 2}}, {{2, 1}}}},
      {with_weights(star(3), 3), 8, {0, 1, 1}, {{{1, 2}, {1, 5}}, {{2, 9 % 8}}}},
      {with_weights(star(4), 3), 2, {0, 1, 1, 0}, {{{1, 0}}, {{2, 0}}}},
      {with_weights(star(4), 3), 2, {0, 1, 1, 0}, {{{1, 0}, {1, 1}}, {{3, 1}, {2, 0}}}},
      {with_weights(star(5), 5), 16, {0, 1, 2, 3, 4}, {{{1, 4}}, {{4, 1}}}},
      {with_weights(path(3), 3), 4, {0, 1, 2}, {{{0, 2}}, {{2, 0}}}},
      {with_weights(clique(3), 3), 4, {0, 1, 2}, {{{0, 1}}, {{1, 2}}}},
      {with_weights(clique(3), 3), 4, {0, 1, 2}, {{{0, 1}}, {{1, 2}}, {{2, 0}}}},
      {with_weights(star(4), 3), 8, {0, 1, 2, 3}, {{{1, 2}}, {{2, 3}}, {{3, 1}}}},
      {with_weights(star(4), 3), 3, {0, 1, 2, 1}, {{{1, 2}}, {{2, 1}}, {{3, 0}}}},
      {with_weights(disjoint(star(3), empty(1)), 5), 8, {0, 1, 2, 0}, {{{1, 3}, {0, 1}}, {{2, 7}}}},
      {with_weights(cycle(4), 3), 4, {0, 1, 2, 3}, {{{0, 2}}, {{2, 0}}}},
      {with_weights(cycle(4), 5), 64, {7, 15, 23, 31}, {{{0, 15}, {0, 39}}, {{2, 39}}}},
  };
  int i = 0;
  for (auto &s : scripts)
    for (int rep_kind = 0; rep_kind < 2; ++rep_kind) {
      ++i;
      auto go = [&](auto tag, const char *name) {
        using C = typename decltype(tag)::type;
        mc::Config cfg;
        cfg.workers = static_cast<int>(s.moves.size());
        cfg.preemptions = cfg.workers == 2 ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 3 : 2);
        cfg.assign = i % 2 ? mc::Assign::RoundRobin : mc::Assign::Mirrored;
        cfg.max_exec = mc::thorough() ? 5000000 : 200000;
        mc::explore(std::string("mt ") + name + " script " + std::to_string(i) + (rep_kind ? " sorted" : ""), cfg, [&] {
          Rep rep = rep_kind ? sorted(s.g) : plain(s.g);
          const CSRGraph &g = rep.graph.csr_graph();
          // scripts name vertices of the original numbering
          auto id = [&](int u) { return rep_kind ? static_cast<int>(rep.graph.map_original_node(static_cast<NodeID>(u))) : u; };
          std::vector<int> p(rep.ref.n());
          for (int u = 0; u < s.g.n(); ++u)
            if (id(u) < rep.ref.n()) p[id(u)] = s.p[u];
          Driver<CSRGraph, C> d(name, rep.ref.n(), s.k);
          {
            mc::RtGuard guard;
            d.init(rep.ref, rep.graph, g, s.k, p);
          }
          tbb::parallel_for<int>(0, static_cast<int>(s.moves.size()), [&](const int t) {
            for (auto [v, to] : s.moves[t]) {
              const NodeID u = static_cast<NodeID>(id(v));
              const BlockID from = d.pg->block(u);
              if (from == static_cast<BlockID>(to)) continue;
              d.pg->set_block(u, static_cast<BlockID>(to));
              d.cache.move(u, from, static_cast<BlockID>(to));
            }
          });
          mc::RtGuard guard;
          for (int u = 0; u < rep.ref.n(); ++u) d.p[u] = static_cast<int>(d.pg->block(static_cast<NodeID>(u)));
          d.at += " after concurrent moves P=" + vec(d.p);
          for (auto &th : s.moves)
            for (size_t x = 0; x < th.size(); ++x) {
              bool last = true;
              for (size_t y = x + 1; y < th.size(); ++y) last &= th[y].first != th[x].first;
              if (last) MC_CHECK(d.p[id(th[x].first)] == th[x].second, "a vertex ended in another block" + d.at);
            }
          d.check();
        });
      };
      for_each_cache<CSRGraph>(true, [&]<typename C>(const char *name, std::type_identity<C> t) {
        const std::string n = name;
        if (n == "on-the-fly" || n.find("exact") != std::string::npos) return;
        go(t, name);
      });
    }
}
#endif
} // namespace

void mc_main() {
  mc::watchdog(30);
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
