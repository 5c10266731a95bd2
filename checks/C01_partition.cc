// C01: a computed partition is complete, in range, and scored with its true edge cut.
#include "api.h"

using namespace kv;

namespace {
void one(const RefGraph &g, const Preset &p, const Limits &l, Input in, int seed, const char *extra = "") {
  mc::count_case();
  const std::string at = " [" + p.name + extra + "] " + l.str() + " seed " + std::to_string(seed) + " " + input_name(in) + " " + g.str();
  mc::label(at);
  Result r;
  try {
    r = partition(g, p.ctx, l, in, seed);
  } catch (const std::exception &e) {
    mc::fail(std::string("exception ") + e.what() + at);
  }
  check_valid(g, r, l.k, at);
}

// Variations that no preset selects but the context offers.
std::vector<Preset> variations() {
  std::vector<Preset> v;
  auto add = [&](const char *n, auto &&f) {
    Preset p{n, deepened(create_default_context())};
    f(p.ctx);
    v.push_back(p);
  };
  add("kway", [](Context &c) { c.partitioning.mode = PartitioningMode::KWAY; });
  add("kway/coarse", [](Context &c) { c.partitioning.mode = PartitioningMode::KWAY, c.coarsening.contraction_limit = 1; });
  add("deep/sequential", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::SEQUENTIAL; });
  add("deep/sync", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::SYNCHRONOUS_PARALLEL; });
  add("deep/async", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::ASYNCHRONOUS_PARALLEL; });
  add("natural", [](Context &c) { c.node_ordering = NodeOrdering::NATURAL; });
  add("edge order", [](Context &c) { c.edge_ordering = EdgeOrdering::COMPRESSION; });
  add("refine after extending", [](Context &c) { c.partitioning.refine_after_extending_partition = true; });
  add("eager memory", [](Context &c) { c.partitioning.use_lazy_subgraph_memory = false; });
  add("no coarsening", [](Context &c) { c.coarsening.algorithm = CoarseningAlgorithm::NOOP; });
  add("limit 1", [](Context &c) { c = deepened(c, 1, 1); });
  add("limit 2000", [](Context &c) { c = deepened(c, 2000, 20); });
  for (auto a : {ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE})
    add("contraction", [&](Context &c) { c.coarsening.contraction.algorithm = a, c.node_ordering = NodeOrdering::NATURAL; });
  for (auto t : {TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH, TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER, TwoHopStrategy::CLUSTER_THREADWISE})
    for (auto i : {IsolatedNodesClusteringStrategy::KEEP, IsolatedNodesClusteringStrategy::MATCH, IsolatedNodesClusteringStrategy::CLUSTER, IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP, IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP})
      add("two-hop", [&](Context &c) {
        c.coarsening.clustering.lp.two_hop_strategy = t, c.coarsening.clustering.lp.isolated_nodes_strategy = i;
        c.coarsening.clustering.lp.two_hop_threshold = 1.0, c.node_ordering = NodeOrdering::NATURAL;
      });
  for (auto gc : {GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::SPARSE, GainCacheStrategy::HASHING, GainCacheStrategy::DENSE, GainCacheStrategy::ON_THE_FLY})
    add("fm cache", [&](Context &c) {
      c = deepened(create_context_by_preset_name("fm"));
      c.refinement.kway_fm.gain_cache_strategy = gc;
    });
  return v;
}
bool power_of_two(int k) { return (k & (k - 1)) == 0; }
Preset rb() {
  Preset p{"rb", deepened(create_default_context())};
  p.ctx.partitioning.mode = PartitioningMode::RB;
  return p;
}

std::vector<RefGraph> structured() {
  std::vector<RefGraph> v{path(9), cycle(16), star(12), clique(9), grid(4, 5), matching(12), caveman(4, 5), caveman(3, 7), disjoint(grid(3, 4), empty(5)), disjoint(star(7), disjoint(empty(3), path(6))),
                          disjoint(clique(5), clique(6)), prand(30, 4, 1), prand(60, 6, 2), prand(90, 3, 3), scattered(grid(8, 8)), empty(7), disjoint(empty(20), path(2)), star(70), scattered(caveman(8, 9)), prand(250, 8, 4)};
  return v;
}
} // namespace

void mc_main() {
  mc::watchdog(20);
  const auto all = presets();
  std::vector<Preset> deep;
  for (auto &p : all) deep.push_back({p.name + "/deepened", deepened(p.ctx)});
  const auto var = variations();

  // every small graph
  const int N = mc::thorough() ? 5 : 4;
  for (int n = 0; n <= N; ++n) {
    const int parts = n < 3 ? 1 : n == 3 ? 4 : 32;
    for (int part = 0; part < parts; ++part)
      mc::run("small n=" + std::to_string(n) + "/" + std::to_string(part), [&, n, part, parts] {
        for (uint32_t mask = part; mask < num_masks(n); mask += parts)
          for (int wk : {0, 1, 2, 3}) {
            if (n == 0 && wk) continue;
            const RefGraph g = with_weights(by_mask(n, mask), wk);
            for (int k = 1; k <= n + 1; ++k) {
              for (size_t i = 0; i < all.size(); ++i) {
                const int seed = static_cast<int>(hash64(mask * 7 + k) % 5);
                if (wk == 0 || wk == 3) one(g, all[i], by_eps(k, 0.03), (i + k) % 2 ? Input::Copy : Input::Compressed, seed);
                one(g, deep[i], by_eps(k, 0.03), wk % 2 ? Input::Copy : Input::Compressed, seed);
              }
              one(g, deep[0], by_eps(k, 0.0), Input::Borrow, 1);
              one(g, deep[2], by_default(k), Input::Set, 2);
              if (power_of_two(k)) one(g, rb(), by_eps(k, 0.03), Input::Copy, 0);
            }
          }
      });
  }
  // larger graphs up to isomorphism: default and the distinct algorithms
  for (int n = 5; n <= 6; ++n) {
    const auto masks = iso_classes(n);
    for (int part = 0; part < 16; ++part)
      mc::run("iso n=" + std::to_string(n) + "/" + std::to_string(part), [&, n, part] {
        for (size_t mi = part; mi < masks.size(); mi += 16)
          for (int wk : {0, 3}) {
            const RefGraph g = with_weights(by_mask(n, masks[mi]), wk);
            for (int k = 2; k <= n; ++k)
              for (const char *name : {"default", "strong", "jet", "largek", "vcycle"})
                for (size_t i = 0; i < deep.size(); ++i)
                  if (all[i].name == name) one(g, deep[i], by_eps(k, (k % 2) ? 0.03 : 0.5), (mi + k) % 2 ? Input::Copy : Input::Compressed, static_cast<int>(mi % 3));
          }
      });
  }
  // structured graphs: all presets, all variations
  const auto gs = structured();
  for (size_t gi = 0; gi < gs.size(); ++gi) {
    const std::vector<int> ks = gs[gi].n() > 100 ? std::vector<int>{2, 5, 16, 33} : std::vector<int>{1, 2, 3, 4, 5, 7, 8, 11, 16, 23};
    for (int wk : {0, 1, 3, 4, 5})
      mc::run("structured " + gs[gi].name + " w" + std::to_string(wk), [&, gi, wk] {
        const RefGraph g = with_weights(gs[gi], wk);
        for (int k : ks) {
          for (size_t i = 0; i < all.size(); ++i) {
            if (!mc::thorough() && (i + k + wk) % 3 != 0) continue;
            one(g, all[i], by_eps(k, 0.03), (k + i) % 2 ? Input::Borrow : Input::Compressed, static_cast<int>(i));
            one(g, deep[i], by_eps(k, 0.03), (k + i) % 2 ? Input::Compressed : Input::Copy, static_cast<int>(i + 1));
          }
          for (size_t i = 0; i < var.size(); ++i) {
            if (!mc::thorough() && (i + k + wk) % 4 != 0) continue;
            const bool compressible = var[i].ctx.edge_ordering != EdgeOrdering::COMPRESSION;
            one(g, var[i], by_eps(k, 0.03), compressible && (i + k) % 2 ? Input::Compressed : Input::Copy, static_cast<int>(i % 7), (" #" + std::to_string(i)).c_str());
          }
          if (power_of_two(k)) {
            one(g, rb(), by_eps(k, 0.03), Input::Copy, 3);
            Preset p = rb();
            p.ctx.partitioning.rb_enable_kway_toplevel_refinement = true;
            one(g, p, by_eps(k, 0.03), Input::Copy, 4, " with k-way refinement");
          }
          // individual limits, feasible and infeasible
          const long W = g.total_vw();
          std::vector<BlockWeight> loose(k), tight(k), skewed(k);
          std::vector<double> rel(k, 1.1 / k), odd(k);
          for (int b = 0; b < k; ++b) {
            loose[b] = static_cast<BlockWeight>(2 * W / k + 2);
            tight[b] = static_cast<BlockWeight>(std::max<long>(1, W / k));
            skewed[b] = static_cast<BlockWeight>(1 + 2 * W * (b + 1) / (k * (k + 1) / 2 + 1));
            odd[b] = (b % 3 + 1) * 0.7 / k;
          }
          one(g, deep[0], by_abs(loose), Input::Copy, 0);
          one(g, deep[3], by_abs(tight), Input::Copy, 1);
          one(g, deep[(gi + k) % deep.size()], by_abs(skewed), Input::Compressed, 2);
          one(g, deep[5], by_rel(rel), Input::Set, 3);
          one(g, deep[(gi + wk) % deep.size()], by_rel(odd), Input::Copy, 4);
        }
      });
  }
  // many blocks
  mc::run("large k", [&] {
    for (int k : {31, 32, 33, 64, 100, 127, 128, 200, 257})
      for (size_t i : {size_t(0), size_t(2), size_t(3), size_t(9), size_t(12)})
        for (auto g : {prand(100, 5, 1), grid(20, 20), star(130), prand(300, 12, 6)}) one(g, k % 2 ? deep[i] : all[i], by_eps(k, 0.03), k % 3 ? Input::Copy : Input::Compressed, k);
  });
  // default limits: coarsening starts above 2000 vertices
  for (auto g : {prand(4200, 6, 2), grid(70, 70), scattered(caveman(420, 11)), star(4500)})
    for (size_t i = 0; i < all.size(); ++i)
      mc::run("medium " + g.name + " " + all[i].name, [&, g, i] {
        one(g, all[i], by_eps(2 + static_cast<int>(i % 3), 0.03), i % 2 ? Input::Copy : Input::Compressed, 1);
        one(with_weights(g, 3), all[i], by_eps(i % 2 ? 16 : 37, 0.03), i % 2 ? Input::Copy : Input::Borrow, 2);
      });
  // weights close to the limits of their types
  mc::run("heavy", [&] {
    for (auto base : {clique(5), grid(5, 6), star(9), caveman(4, 5)})
      for (int k : {2, 3, 4})
        for (size_t i = 0; i < deep.size(); ++i) {
          RefGraph g = base;
          const long share = 2000000000l / g.m();
          for (int u = 0; u < g.n(); ++u)
            for (auto &[v, w] : g.adj[u]) w = share - (std::min(u, v) * 7 + std::max(u, v)) % 5;
          g.name += " heavy edges";
          one(g, deep[i], by_eps(k, 0.03), Input::Copy, 1);
          RefGraph h = base;
          const long part = 1000000000l / h.n();
          for (int u = 0; u < h.n(); ++u) h.vw[u] = part - u % 3;
          h.name += " heavy vertices";
          one(h, deep[i], by_eps(k, 0.03), Input::Compressed, 1);
        }
  });
  // several workers: divisions of the parallel loops
  for (size_t gi : {size_t(3), size_t(4), size_t(6), size_t(8), size_t(11), size_t(12), size_t(14), size_t(17), size_t(18)})
    for (int workers : {2, 3, 4})
      for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
        mc::Config c;
        c.workers = workers, c.assign = as;
        mc::explore("workers " + gs[gi].name + " " + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, gi, workers] {
          for (int wk : {0, 3}) {
            const RefGraph g = with_weights(gs[gi], wk);
            for (int k : {2, 3, 5, 8})
              for (size_t i = 0; i < deep.size(); ++i) one(g, deep[i], by_eps(k, 0.03), (i + k) % 2 ? Input::Copy : Input::Compressed, static_cast<int>(i));
            for (size_t i = 0; i < var.size(); i += 2) one(g, var[i], by_eps(4, 0.03), Input::Copy, static_cast<int>(i));
          }
        });
      }
}
