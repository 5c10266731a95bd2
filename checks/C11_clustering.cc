// C11: label propagation clustering. Sequential part: every configuration on every small graph, the weight limit is strict. Concurrent part: every schedule; a move
// into a cluster is a check followed by an addition, so each other thread may overshoot the limit by one vertex, and never by more.
#include "kv.h"

#include "kaminpar-shm/coarsening/clustering/lp_clusterer.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/presets.h"

using namespace kv;
using kaminpar::shm::CoarseningContext;
using kaminpar::shm::IsolatedNodesClusteringStrategy;
using kaminpar::shm::LabelPropagationImplementation;
using kaminpar::shm::LPClustering;
using kaminpar::shm::TieBreakingStrategy;
using kaminpar::shm::TwoHopStrategy;

namespace {
struct Setup {
  int isolated = 0, two_hop = 0, impl = 0, tie = 0, iterations = 1, threshold = 1, neighbors = 0, degree = 0;
  std::string str() const {
    std::ostringstream o;
    o << " isolated=" << isolated << " twohop=" << two_hop << " impl=" << impl << " tie=" << tie << " it=" << iterations << " thr=" << threshold << " nb=" << neighbors << " deg=" << degree;
    return o.str();
  }
};
CoarseningContext context(const Setup &s) {
  CoarseningContext c = kaminpar::shm::create_default_context().coarsening;
  auto &lp = c.clustering.lp;
  lp.isolated_nodes_strategy = static_cast<IsolatedNodesClusteringStrategy>(s.isolated);
  lp.two_hop_strategy = static_cast<TwoHopStrategy>(s.two_hop);
  lp.impl = static_cast<LabelPropagationImplementation>(s.impl);
  lp.tie_breaking_strategy = static_cast<TieBreakingStrategy>(s.tie);
  lp.num_iterations = static_cast<size_t>(s.iterations);
  lp.two_hop_threshold = s.threshold == 1 ? 1.0 : s.threshold == 0 ? 0.0 : 0.5;
  if (s.neighbors) lp.max_num_neighbors = static_cast<NodeID>(s.neighbors);
  if (s.degree) lp.large_degree_threshold = static_cast<NodeID>(s.degree);
  return c;
}

struct Rep {
  RefGraph ref;
  Graph graph;
};
Rep plain(const RefGraph &r) { return {r, mkgraph(r)}; }
Rep sorted(const RefGraph &r, bool keep_isolated) {
  CSRGraph c = csr(r);
  Graph g = kaminpar::shm::graph::rearrange_by_degree_buckets(c);
  if (!keep_isolated) g.remove_isolated_nodes(kaminpar::shm::graph::count_isolated_nodes(g));
  RefGraph q = read_back(g);
  q.name = r.name + ".sorted";
  return {q, std::move(g)};
}
Rep compressed(const RefGraph &r) {
  RefGraph s = r;
  s.sort_adj();
  CSRGraph tmp = csr(s);
  return {s, Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)))};
}

std::string show(const StaticArray<NodeID> &cl) { return cl.size() <= 64 ? " C=" + vec(cl) : std::string(); }

void check_clustering(const RefGraph &r, const StaticArray<NodeID> &cl, long limit, const std::vector<NodeID> &com, int threads, const std::string &at) {
  const int n = r.n();
  std::vector<long> w(n, 0), heaviest(n, 0);
  std::vector<int> size(n, 0), first(n, -1);
  for (int u = 0; u < n; ++u) {
    const int c = static_cast<int>(cl[u]);
    MC_CHECK(c >= 0 && c < n, "vertex " + std::to_string(u) + " has cluster " + std::to_string(cl[u]) + at + show(cl));
    w[c] += r.vw[u], ++size[c];
    heaviest[c] = std::max(heaviest[c], r.vw[u]);
    if (first[c] < 0) first[c] = u;
    if (!com.empty()) MC_CHECK(com[first[c]] == com[u], "vertices " + std::to_string(first[c]) + " and " + std::to_string(u) + " of different communities share a cluster" + at + show(cl));
  }
  for (int c = 0; c < n; ++c)
    if (size[c] > 1)
      MC_CHECK(w[c] <= limit + (threads - 1) * heaviest[c], "cluster " + std::to_string(c) + " weighs " + std::to_string(w[c]) + at + show(cl));
}

std::string describe(const RefGraph &r, const Setup &s, long limit, int seed, const std::vector<NodeID> &com) {
  return " limit=" + std::to_string(limit) + s.str() + " seed=" + std::to_string(seed) + " " + (r.n() <= 64 ? r.str() : r.name) + (com.empty() || r.n() > 64 ? "" : " communities=" + vec(com));
}

// returns the number of clusters
int one(LPClustering &lp, const Rep &rep, const Setup &s, long limit, long desired, int seed, const std::vector<NodeID> &com, bool free_afterwards, int threads = 1) {
  const RefGraph &r = rep.ref;
  reseed(seed);
  lp.set_max_cluster_weight(static_cast<NodeWeight>(limit));
  lp.set_desired_cluster_count(static_cast<NodeID>(desired));
  lp.set_communities(com);
  StaticArray<NodeID> cl(r.n(), kaminpar::static_array::noinit);
  lp.compute_clustering(cl, rep.graph, free_afterwards);
  mc::RtGuard guard;
  check_clustering(r, cl, limit, com, threads, describe(r, s, limit, seed, com));
  std::set<NodeID> ids(cl.begin(), cl.end());
  return static_cast<int>(ids.size());
}

std::vector<NodeID> communities(int n, int kind) {
  if (kind == 0) return {};
  std::vector<NodeID> c(n);
  for (int u = 0; u < n; ++u) c[u] = static_cast<NodeID>(kind == 1 ? u % 2 : kind == 2 ? (u >= n / 2) : kind == 3 ? hash64(u * 5 + 3) % 3 : u);
  return c;
}

// leaf clusters that compete for heavy centres
RefGraph stars(int centres, int leaves, long centre_weight, long leaf_weight) {
  RefGraph g(centres * (leaves + 1));
  for (int c = 0; c < centres; ++c) {
    g.vw[c] = centre_weight;
    for (int l = 0; l < leaves; ++l) {
      const int u = centres + c * leaves + l;
      g.add(c, u);
      g.vw[u] = leaf_weight;
    }
  }
  g.name = "stars" + std::to_string(centres) + "x" + std::to_string(leaves) + "/" + std::to_string(centre_weight) + "/" + std::to_string(leaf_weight);
  return g;
}
RefGraph bipartite(int a, int b, long wa) {
  RefGraph g(a + b);
  for (int i = 0; i < a; ++i) g.vw[i] = wa;
  for (int i = 0; i < a; ++i)
    for (int j = 0; j < b; ++j) g.add(i, a + j);
  g.name = "K" + std::to_string(a) + "," + std::to_string(b) + "/" + std::to_string(wa);
  return g;
}

#if !defined(__SANITIZE_THREAD__)
void sequential() {
  const int N = mc::thorough() ? 6 : 5;
  for (int n = 1; n <= N; ++n) {
    const auto masks = iso_classes(n);
    for (size_t mi = 0; mi < masks.size(); ++mi)
      for (int wk : {0, 1, 3, 5}) {
        if (n >= 5 && (wk == 1 || wk == 5) && !mc::thorough()) continue;
        mc::run("small n=" + std::to_string(n) + "/" + std::to_string(masks[mi]) + " w" + std::to_string(wk), [&, n, mi, wk] {
          const RefGraph r = with_weights(by_mask(n, masks[mi]), wk);
          std::vector<Rep> reps;
          reps.push_back(plain(r));
          reps.push_back(sorted(r, true));
          reps.push_back(compressed(r));
          const long maxw = *std::max_element(r.vw.begin(), r.vw.end());
          std::set<long> limits{1, maxw - 1, maxw, maxw + 1, 2 * maxw, r.total_vw() / 2, r.total_vw() - 1, r.total_vw()};
          limits.erase(0);
          const bool small = n <= 4;
          for (int isolated : {0, 1, 2, 3, 4})
            for (int two_hop = 0; two_hop < 5; ++two_hop)
              for (int impl = 0; impl < 3; ++impl)
                for (int tie = 0; tie < 2; ++tie)
                  for (int iterations : {1, 3}) {
                    if ((isolated == 3 || isolated == 4) && two_hop != 0) continue; // as 1, 2
                    if (!small && (impl == 1 || (isolated == 2 && two_hop < 3)) && !mc::thorough()) continue;
                    if (!mc::thorough() && iterations == 1 && tie == 1) continue;
                    Setup s{isolated, two_hop, impl, tie, iterations};
                    if (isolated >= 3) s.threshold = 2;
                    const auto ctx = context(s);
                    LPClustering lp(ctx);
                    for (auto &rep : reps)
                      for (long limit : limits) {
                        for (int seed = 0; seed < (small ? 2 : 1); ++seed) one(lp, rep, s, limit, seed, seed, {}, true);
                        // every assignment of two communities
                        const int lim = 1 << (n - 1);
                        for (int cm = 1; cm < lim; cm += small || mc::thorough() ? 1 : 4) {
                          std::vector<NodeID> com(n);
                          for (int u = 0; u < n; ++u) com[u] = cm >> u & 1;
                          one(lp, rep, s, limit, 0, cm, com, true);
                        }
                        mc::count_case((small ? 2 : 1) + lim - 1);
                      }
                  }
        });
      }
  }
  // graphs on which many clusters fill up
  std::vector<RefGraph> gs{star(9), clique(8), cycle(12), path(17), grid(4, 5), caveman(4, 4), matching(12), empty(9), disjoint(star(6), empty(5)), disjoint(matching(6), star(7)), prand(40, 4, 1), prand(30, 8, 2),
                           scattered(caveman(5, 5)), stars(2, 6, 5, 1), stars(3, 5, 8, 2), stars(1, 20, 10, 3), bipartite(2, 9, 6), bipartite(3, 12, 4), bipartite(1, 12, 9), disjoint(stars(2, 8, 9, 1), empty(7)), grid(9, 9), prand(150, 6, 3)};
  for (auto &base : gs)
    for (int wk : {0, 3, 5})
      mc::run("structured " + base.name + " w" + std::to_string(wk), [&, base, wk] {
        const RefGraph r = wk == 0 ? base : with_weights(base, wk);
        std::vector<Rep> reps;
        reps.push_back(plain(r));
        reps.push_back(sorted(r, true));
        reps.push_back(sorted(r, false));
        reps.push_back(compressed(r));
        const long maxw = *std::max_element(r.vw.begin(), r.vw.end());
        std::set<long> limits{1, maxw + 1, 2 * maxw, 3 * maxw, r.total_vw() / 4};
        if (mc::thorough()) limits.insert({maxw, maxw + 2, r.total_vw()});
        limits.erase(0);
        for (int isolated : {0, 1, 2})
          for (int two_hop = 0; two_hop < 5; ++two_hop)
            for (int impl = 0; impl < 3; ++impl)
              for (int tie = 0; tie < 2; ++tie)
                for (int iterations : {1, 2, 5})
                  for (int extra = 0; extra < 4; ++extra) {
                    if (!mc::thorough() && (extra + iterations + tie + impl) % (r.n() > 50 ? 6 : 3)) continue;
                    Setup s{isolated, two_hop, impl, tie, iterations, extra == 3 ? 2 : 1};
                    if (extra == 1) s.neighbors = 3;
                    if (extra == 2) s.degree = 4;
                    const auto ctx = context(s);
                    LPClustering lp(ctx);
                    for (auto &rep : reps)
                      for (long limit : limits)
                        for (int seed = 0; seed < (r.n() <= 30 && (mc::thorough() || two_hop) ? 2 : 1); ++seed) {
                          mc::count_case();
                          one(lp, rep, s, limit, extra == 3 ? r.n() / 4 : 0, seed, communities(rep.ref.n(), (seed + extra + static_cast<int>(limit)) % 5), true);
                        }
                  }
      });
  // many seeds on the shapes in which the two-hop stage has to clean up after vertices that changed their minds
  for (auto &base : {stars(2, 3, 4, 1), bipartite(2, 4, 3), with_weights(cycle(6), 3), with_weights(path(6), 5), caveman(2, 3), with_weights(caveman(2, 4), 3), with_weights(prand(10, 3, 7), 5), with_weights(prand(8, 4, 5), 3)})
    mc::run("seeds " + base.name, [&, base] {
      std::vector<Rep> reps;
      reps.push_back(plain(base));
      reps.push_back(sorted(base, true));
      const long maxw = *std::max_element(base.vw.begin(), base.vw.end());
      for (int two_hop = 1; two_hop < 5; ++two_hop)
        for (int tie = 0; tie < 2; ++tie)
          for (int iterations : {1, 2, 3, 4}) {
            Setup s{0, two_hop, 2, tie, iterations};
            const auto ctx = context(s);
            LPClustering lp(ctx);
            for (auto &rep : reps)
              for (long limit = maxw; limit <= 3 * maxw; ++limit)
                for (int seed = 0; seed < (mc::thorough() ? 2000 : 40); ++seed) {
                  mc::count_case();
                  one(lp, rep, s, limit, 0, seed, {}, true);
                }
          }
    });
  // one instance along a hierarchy, with and without releasing its memory in between
  mc::run("reuse", [&] {
    for (int impl = 0; impl < 3; ++impl)
      for (int two_hop = 0; two_hop < 5; ++two_hop) {
        Setup s{2, two_hop, impl, 0, 3};
        const auto ctx = context(s);
        for (int round = 0; round < 3; ++round) {
          LPClustering lp(ctx);
          const std::vector<RefGraph> chain{prand(round == 2 ? 80 : 60, 5, 3 + round), grid(5, 8), stars(3, 6, 7, 1), clique(7), path(6), path(2)};
          for (size_t i = 0; i < chain.size(); ++i) {
            const RefGraph r = with_weights(chain[i], 3);
            const Rep rep = i % 3 == 0 ? sorted(r, true) : i % 3 == 1 ? plain(r) : compressed(r);
            for (long limit : {3l, 9l, r.total_vw()})
              for (int c = 0; c < 3; ++c) one(lp, rep, s, limit, c, static_cast<int>(limit), communities(rep.ref.n(), c), i + 1 == chain.size() && limit == r.total_vw() && c == 2);
            mc::count_case(9);
          }
        }
      }
  });
  // vertices with so many neighbouring clusters that they are handled in a second phase
  for (int communities_kind : {0, 1})
    for (int relabel : {1, 0})
      mc::run("huge star " + std::to_string(communities_kind) + "/" + std::to_string(relabel), [&, communities_kind, relabel] {
        for (int shape = 0; shape < 3; ++shape) {
          RefGraph r = shape == 0 ? star(10020) : shape == 1 ? stars(2, 10050, 4, 1) : disjoint(star(10010), disjoint(matching(40), caveman(5, 5)));
          if (shape == 2) r = with_weights(r, 3);
          const Rep rep = plain(r), rs = sorted(r, true);
          for (int two_hop : {0, 1, 3})
            for (int tie = 0; tie < 2; ++tie)
              for (long limit : {2l, 40l, 30000l}) {
                Setup s{2, two_hop, 1, tie, 2};
                auto ctx = context(s);
                ctx.clustering.lp.relabel_before_second_phase = relabel;
                for (const Rep *x : {&rep, &rs}) {
                  LPClustering lp(ctx);
                  mc::count_case();
                  mc::label("huge star " + s.str() + " limit " + std::to_string(limit));
                  one(lp, *x, s, limit, 0, 1, communities(x->ref.n(), communities_kind), true);
                }
              }
        }
      });
}
#else
void concurrent() {
  const bool deep = mc::thorough();
  struct In {
    RefGraph g;
    bool sort;
    std::vector<long> limits;
    int com;
  };
  const std::vector<In> ins = {
      {with_weights(caveman(2, 3), 0), true, {2, 3}, 0},
      {stars(2, 3, 2, 1), true, {2, 3, 4}, 0},
      {stars(1, 4, 3, 1), true, {4, 3}, 0},
      {bipartite(2, 3, 2), true, {3, 4}, 0},
      {disjoint(path(3), empty(4)), false, {2, 3}, 0},
      {disjoint(star(4), matching(4)), true, {2, 3}, 0},
      {with_weights(disjoint(star(5), path(3)), 3), true, {4, 6}, 0},
      {disjoint(star(4), matching(4)), true, {3, 8}, 1},
      {disjoint(path(3), empty(4)), false, {3}, 1},
      {stars(2, 3, 2, 1), true, {4}, 2},
  };
  int i = 0;
  for (auto &in : ins)
    for (long limit : in.limits)
      for (int two_hop = 1; two_hop < 5; ++two_hop) {
        ++i;
        for (int threads : {2, 3}) {
          mc::Config cfg;
          cfg.workers = threads;
          cfg.preemptions = threads == 2 ? (deep ? 3 : 2) : (deep ? 2 : 1);
          cfg.assign = i % 2 ? mc::Assign::RoundRobin : mc::Assign::Mirrored;
          cfg.max_exec = deep ? 2000000 : 60000;
          cfg.monitor_locals = false;
          mc::explore("mt " + in.g.name + " limit " + std::to_string(limit) + " twohop " + std::to_string(two_hop) + " com " + std::to_string(in.com) + " T" + std::to_string(threads), cfg, [&] {
            Setup s{2 - i % 2, two_hop, i % 3, (i / 2) % 2, 2};
            Rep rep = [&] {
              mc::RtGuard guard;
              return in.sort ? sorted(in.g, true) : plain(in.g);
            }();
            const auto ctx = context(s);
            reseed(0); // the permutations are drawn when the instance is created
            LPClustering lp(ctx);
            one(lp, rep, s, limit, 0, i % 5, communities(rep.ref.n(), in.com), true, threads);
          });
        }
      }
}
#endif
} // namespace

void mc_main() {
  mc::watchdog(60);
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
