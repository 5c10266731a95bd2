// C03: thread interleavings never corrupt a partitioning run.
#include "api.h"

using namespace kv;

namespace {
bool has_balancer(const std::string &n) { return n.find("noref") == std::string::npos && n.find("restricted-vcycle") == std::string::npos && n.find("rb") != 0; }

void scenario(const Preset &p, const RefGraph &g, int k, double eps, Input in, int T, mc::Assign as, int chunks, int preemptions) {
  mc::Config c;
  c.workers = T, c.assign = as, c.preemptions = preemptions, c.chunks = chunks, c.monitor_locals = false;
  const std::string what = p.name + " " + g.name + " k=" + std::to_string(k) + " eps=" + std::to_string(eps) + " " + input_name(in);
  mc::explore(what + " T" + std::to_string(T) + "/" + std::to_string(chunks) + " a" + std::to_string(static_cast<int>(as)) + " p" + std::to_string(preemptions), c, [&] {
    const Limits l = by_eps(k, eps);
    const Result r = partition(g, p.ctx, l, in, 1);
    mc::RtGuard guard;
    check_valid(g, r, k, " " + what);
    if (g.unit_vw() && has_balancer(p.name)) check_balanced(g, r, l, " " + what);
    uint64_t h = 0;
    for (auto b : r.part) h = h * 31 + b;
    mc::observe(h);
  });
}
} // namespace

void mc_main() {
  mc::watchdog(60);
  std::vector<Preset> ps;
  auto add = [&](std::string name, Context ctx, auto &&f) {
    Preset q{name, deepened(ctx, 2, 1)};
    // one attempt per portfolio entry: concurrency is in the parallel phases, not in the repetitions
    q.ctx.initial_partitioning.pool.min_num_repetitions = 1;
    q.ctx.initial_partitioning.pool.min_num_non_adaptive_repetitions = 1;
    q.ctx.initial_partitioning.pool.max_num_repetitions = 1;
    f(q.ctx);
    ps.push_back(q);
  };
  for (auto &p : presets()) add(p.name, p.ctx, [](Context &) {});
  const Context d = create_default_context();
  add("kway", d, [](Context &c) { c.partitioning.mode = PartitioningMode::KWAY; });
  add("rb", d, [](Context &c) { c.partitioning.mode = PartitioningMode::RB; });
  add("deep/sequential", d, [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::SEQUENTIAL; });
  add("deep/sync", d, [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::SYNCHRONOUS_PARALLEL; });
  add("deep/async", d, [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::ASYNCHRONOUS_PARALLEL; });
  add("natural", d, [](Context &c) { c.node_ordering = NodeOrdering::NATURAL; });
  add("eager memory", d, [](Context &c) { c.partitioning.use_lazy_subgraph_memory = false; });
  for (auto a : {ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE})
    add("contraction/" + std::to_string(static_cast<int>(a)), d, [&](Context &c) { c.coarsening.contraction.algorithm = a; });
  for (auto t : {TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH, TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER, TwoHopStrategy::CLUSTER_THREADWISE})
    add("two-hop/" + std::to_string(static_cast<int>(t)), d, [&](Context &c) {
      c.coarsening.clustering.lp.two_hop_strategy = t, c.coarsening.clustering.lp.two_hop_threshold = 1.0, c.node_ordering = NodeOrdering::NATURAL;
    });
  for (auto gc : {GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::SPARSE, GainCacheStrategy::HASHING, GainCacheStrategy::DENSE, GainCacheStrategy::ON_THE_FLY})
    add("fm/" + std::to_string(static_cast<int>(gc)), create_context_by_preset_name("fm"), [&](Context &c) { c.refinement.kway_fm.gain_cache_strategy = gc; });

  const std::vector<RefGraph> gs{path(6), disjoint(clique(3), path(3)), star(6), with_weights(cycle(6), 3), disjoint(cycle(4), empty(3)), grid(2, 4), with_weights(caveman(2, 4), 1)};
  const int deep = mc::thorough() ? 2 : 1;
  int i = 0;
  for (auto &p : ps)
    for (auto &g : gs) {
      if (!mc::thorough() && p.name == "4xjet" && g.name != "path6") continue;
      const bool rb = p.name == "rb";
      const int k = rb ? 2 + 2 * (i % 2) : 2 + i % 3;
      const bool compressed = (i / 2) % 2 && p.name.find("contraction") == std::string::npos;
      scenario(p, g, k, i % 4 ? 0.03 : 0.0, compressed ? Input::Compressed : Input::Copy, 2, i % 2 ? mc::Assign::RoundRobin : mc::Assign::Mirrored, 2, deep);
      scenario(p, g, rb ? 4 : 3, 0.03, Input::Copy, i % 2 ? 2 : 3, i % 4 < 2 ? mc::Assign::Mirrored : mc::Assign::Block, 4, deep);
      if (mc::thorough() || ((g.name == "path6" || g.name == "star6") && (p.name == "default" || p.name == "terapart" || p.name == "kway")))
        scenario(p, g, rb ? 4 : 3, 0.03, Input::Copy, mc::thorough() ? 3 : 2, mc::Assign::Dynamic, 4, 1);
      ++i;
    }
}
