// C15: the k-way refiners on their own and in sequence. Sequential part: every graph, partition, limit and setting of a menu. Concurrent part: every schedule.
#include "refine.h"

#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/metrics.h"

using namespace kv;
using namespace kaminpar::shm;
using kv::csr;
using kv::limits;
using kv::Rep;

namespace {
using RA = RefinementAlgorithm;
struct Setting {
  std::string name;
  RefinementContext c;
  bool exact_cut = true;    // one thread: never a larger cut
  bool jet = false, fm = false;
};
bool has(const Setting &s, RA a) { return s.c.includes_algorithm(a); }

std::vector<Setting> settings() {
  const RefinementContext base = create_default_context().refinement;
  std::vector<Setting> v;
  for (int impl = 0; impl < 3; ++impl)
    for (int tie = 0; tie < 2; ++tie) {
      Setting s{"lp" + std::to_string(impl) + std::to_string(tie), base};
      s.c.algorithms = {RA::LABEL_PROPAGATION};
      s.c.lp.impl = static_cast<LabelPropagationImplementation>(impl);
      s.c.lp.tie_breaking_strategy = static_cast<TieBreakingStrategy>(tie);
      s.c.lp.num_iterations = 1 + 4 * (1 - tie);
      v.push_back(s);
    }
  {
    Setting s{"lp degree limit", base};
    s.c.algorithms = {RA::LABEL_PROPAGATION};
    s.c.lp.large_degree_threshold = 2;
    v.push_back(s);
    s.name = "lp neighbor limit";
    s.c.lp.large_degree_threshold = base.lp.large_degree_threshold;
    s.c.lp.max_num_neighbors = 2;
    s.exact_cut = false;
    v.push_back(s);
  }
#if defined(KAMINPAR_EXPERIMENTAL)
  const std::vector<GainCacheStrategy> caches{GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::COMPACT_HASHING_LARGE_K, GainCacheStrategy::SPARSE, GainCacheStrategy::SPARSE_LARGE_K, GainCacheStrategy::HASHING, GainCacheStrategy::HASHING_LARGE_K,
                                              GainCacheStrategy::DENSE, GainCacheStrategy::DENSE_LARGE_K, GainCacheStrategy::ON_THE_FLY};
#else
  const std::vector<GainCacheStrategy> caches{GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::SPARSE};
#endif
  int i = 0;
  for (auto cache : caches)
    for (int mode = 0; mode < 4; ++mode) {
      Setting s{"fm" + std::to_string(static_cast<int>(cache)) + "/" + std::to_string(mode), base};
      s.fm = true;
      s.c.algorithms = {RA::KWAY_FM};
      auto &f = s.c.kway_fm;
      f.gain_cache_strategy = cache;
      f.num_seed_nodes = mode % 2 ? 1 : 10;
      f.num_iterations = mode < 2 ? 10 : 2;
      f.unlock_locally_moved_nodes = (mode + i) % 2;
      f.unlock_seed_nodes = (mode / 2 + i) % 2;
      f.use_exact_abortion_threshold = mode == 1;
      f.abortion_threshold = mode == 2 ? 1.5 : 0.999;
      f.alpha = mode == 3 ? 0.1 : 1.0;
      ++i;
      v.push_back(s);
    }
  for (int mode = 0; mode < 6; ++mode) {
    Setting s{"jet" + std::to_string(mode), base};
    s.jet = true;
    s.c.algorithms = {RA::JET};
    auto &j = s.c.jet;
    j.num_iterations = mode == 1 ? 1 : mode == 2 ? 3 : 0;
    j.num_fruitless_iterations = mode == 2 ? 0 : mode == 3 ? 1 : 4;
    j.fruitless_threshold = mode == 4 ? 0.5 : 0.999;
    j.num_rounds_on_fine_level = mode % 3;
    j.num_rounds_on_coarse_level = 1 + mode % 2;
    j.initial_gain_temp_on_fine_level = mode == 5 ? 0 : 0.75, j.final_gain_temp_on_fine_level = mode == 3 ? 2.0 : 0.25;
    j.initial_gain_temp_on_coarse_level = 0.75, j.final_gain_temp_on_coarse_level = 0.25;
    if (mode != 1 && j.num_iterations == 0 && j.num_fruitless_iterations == 0) j.num_iterations = 2;
    v.push_back(s);
  }
  {
    Setting s{"none", base};
    s.c.algorithms = {};
    v.push_back(s);
    s.name = "noop";
    s.c.algorithms = {RA::NOOP};
    v.push_back(s);
    s.name = "lp fm lp";
    s.c.algorithms = {RA::LABEL_PROPAGATION, RA::KWAY_FM, RA::LABEL_PROPAGATION};
    v.push_back(s);
    s.name = "balancer lp fm balancer";
    s.c.algorithms = {RA::GREEDY_BALANCER, RA::LABEL_PROPAGATION, RA::KWAY_FM, RA::GREEDY_BALANCER};
    v.push_back(s);
    s.name = "fm jet lp";
    s.jet = true;
    s.c.algorithms = {RA::KWAY_FM, RA::JET, RA::LABEL_PROPAGATION};
    v.push_back(s);
  }
  return v;
}
std::vector<Setting> &menu() {
  static std::vector<Setting> v = settings();
#if defined(KAMINPAR_EXPERIMENTAL) // only what this build adds
  if (!v.empty() && !v[0].fm) std::erase_if(v, [](auto &s) { return !s.fm || s.c.kway_fm.gain_cache_strategy == GainCacheStrategy::COMPACT_HASHING || s.c.kway_fm.gain_cache_strategy == GainCacheStrategy::SPARSE; });
#endif
  return v;
}
Context context_for(const Setting &s, const Rep &rep, int k, int threads) {
  Context c = create_default_context();
  c.refinement = s.c;
  rep.graph.reified([&](const auto &g) { c.partition.setup(g, static_cast<BlockID>(k), 0.03, false); });
  c.parallel.num_threads = threads;
  c.compression.enabled = rep.graph.reified([](const CSRGraph &) { return false; }, [](const CompressedGraph &) { return true; });
  return c;
}

// One call. threads = 1: whatever the division of the loops, the threads run one after the other.
State one(Refiner &refiner, const Setting &s, const Rep &rep, int k, const std::vector<long> &limit, const PartitionContext &pc, const std::vector<int> &p0, const std::string &at, int threads, const std::vector<NodeID> &com = {}) {
  const std::string here = " (" + s.name + at + (com.empty() ? "" : " communities " + vec(com)) + ")" + show(rep, k, p0, limit);
  PartitionedGraph p = partitioned(rep, k, p0);
  State before;
  {
    mc::RtGuard guard;
    before = snapshot(rep, p, k, limit, here);
    if (rep.ref.n() <= 30) mc::label(here);
  }
  refiner.initialize(p);
  if (!com.empty()) refiner.set_communities(com);
  refiner.refine(p, pc);
  mc::RtGuard guard;
  const State after = snapshot(rep, p, k, limit, here);
  if (s.c.algorithms.empty() || s.c.algorithms[0] == RA::NOOP) MC_CHECK(after.part == before.part, "a refiner that does nothing changed the partition to " + vec(after.part) + here);
  // limits
  const bool unit = rep.ref.total_vw() == rep.ref.n();
  const bool room = std::accumulate(limit.begin(), limit.end(), 0l) >= rep.ref.total_vw();
  if (!s.jet && !(has(s, RA::KWAY_FM) && threads > 1)) {
    for (int b = 0; b < k; ++b)
      MC_CHECK(after.weight[b] <= std::max(limit[b], before.weight[b]), "block " + std::to_string(b) + " went from " + std::to_string(before.weight[b]) + " to " + std::to_string(after.weight[b]) + here + " -> " + vec(after.part));
  }
  if (s.jet && unit && room && before.overload == 0) MC_CHECK(after.overload == 0 || (has(s, RA::KWAY_FM) && threads > 1), "overload " + std::to_string(after.overload) + " from a balanced partition" + here + " -> " + vec(after.part));
  // cut
  std::map<int, NodeID> of;
  bool pure = true;
  if (!com.empty())
    for (int u = 0; u < rep.ref.n(); ++u) pure &= of.emplace(p0[u], com[u]).first->second == com[u];
  const bool balanced_or_no_balancer = before.overload == 0 || !has(s, RA::GREEDY_BALANCER);
  const bool only_jet = s.jet && s.c.algorithms.size() == 1;
  if (s.exact_cut && pure && balanced_or_no_balancer && (threads == 1 || only_jet))
    MC_CHECK(after.cut <= before.cut, "cut increased from " + std::to_string(before.cut) + " to " + std::to_string(after.cut) + here + " -> " + vec(after.part));
  // communities: blocks made of vertices of one community stay that way
  if (!com.empty() && s.c.algorithms == std::vector<RA>{RA::LABEL_PROPAGATION}) {
    std::map<int, NodeID> of2 = of;
    if (pure)
      for (int u = 0; u < rep.ref.n(); ++u)
        MC_CHECK(of2.emplace(after.part[u], com[u]).first->second == com[u], "vertex " + std::to_string(u) + " moved into a block of another community" + here + " -> " + vec(after.part));
    for (int u = 0; u < rep.ref.n(); ++u)
      if (after.part[u] != p0[u]) {
        bool seen = false;
        for (auto [v, w] : rep.ref.adj[u]) seen |= com[v] == com[u];
        MC_CHECK(seen, "vertex " + std::to_string(u) + " without neighbors in its community moved" + here + " -> " + vec(after.part));
      }
  }
  return after;
}

std::vector<RefGraph> structured() {
  return {path(40), cycle(33), star(40), clique(12), grid(8, 8), grid(3, 13), caveman(5, 5), matching(30), empty(12), disjoint(grid(5, 5), empty(9)), disjoint(star(9), cycle(12)), prand(65, 6, 1), prand(130, 4, 2), prand(300, 5, 3), scattered(caveman(12, 6))};
}

#if !defined(__SANITIZE_THREAD__)
void sequential() {
  const bool deep = mc::thorough();
  const int N = deep ? 6 : 5;
  for (auto &s : menu())
    for (int n = 2; n <= N; ++n)
      for (int wk : {0, 3, 4})
        mc::run(s.name + " n=" + std::to_string(n) + " w" + std::to_string(wk), [&, n, wk] {
          int i = 0;
          for (uint32_t mask : iso_classes(n)) {
            const Rep rep = rep_of(with_weights(by_mask(n, mask), wk), i++ % 3);
            const RefGraph &r = rep.ref;
            for (int k = 2; k <= (n <= 4 ? 4 : 3); ++k) {
              if (n == 6 && k == 3) continue;
              const Context ctx = context_for(s, rep, k, 1);
              auto refiner = factory::create_refiner(ctx);
              std::vector<PartitionContext> pcs;
              const auto lims = limit_menu(r, k);
              for (auto &l : lims) pcs.push_back(limits(rep, l));
              std::vector<int> p(r.n(), 0);
              int j = 0;
              for (bool more = true; more; next_assignment(p, k, more))
                for (size_t l = 0; l < lims.size(); ++l) {
                  #if defined(KAMINPAR_EXPERIMENTAL)
                  const int full = 3;
#else
                  const int full = 1;
#endif
                  const int thin = deep || n < 4 ? 1 : s.jet ? (n == 4 ? 2 : 9) : n == 5 ? 2 * full + 1 : full;
                  if ((j + static_cast<int>(l)) % thin && (++j, true)) continue;
                  mc::count_case();
                  reseed(++j % 3);
                  one(*refiner, s, rep, k, lims[l], pcs[l], p, "", 1);
                }
            }
          }
        });
#if !defined(KAMINPAR_EXPERIMENTAL)
  // label propagation with communities
  for (size_t si : {size_t(0), size_t(1), size_t(3), size_t(5), size_t(6), size_t(7)})
    for (int n = 2; n <= N; ++n)
      mc::run("communities " + menu()[si].name + " n=" + std::to_string(n), [&, si, n] {
        const Setting &s = menu()[si];
        int i = 0;
        for (uint32_t mask : iso_classes(n)) {
          const RefGraph r = with_weights(by_mask(n, mask), i % 2 ? 3 : 0);
          const Rep rep = rep_of(r, i++ % 2);
          const int k = 3;
          const Context ctx = context_for(s, rep, k, 1);
          auto refiner = factory::create_refiner(ctx);
          const auto lims = limit_menu(r, k);
          std::vector<PartitionContext> pcs;
          for (auto &l : lims) pcs.push_back(limits(rep, l));
          std::vector<int> p(n, 0);
          for (bool more = true; more; next_assignment(p, k, more))
            for (int cm = 0; cm < (1 << (n - 1)); ++cm) {
              std::vector<NodeID> com(n);
              for (int u = 0; u < n; ++u) com[u] = cm >> u & 1;
              mc::count_case();
              reseed(cm);
              const size_t l = static_cast<size_t>(cm + p[0]) % lims.size();
              one(*refiner, s, rep, k, lims[l], pcs[l], p, "", 1, com);
            }
        }
      });
#endif
  // structured graphs: one object refines a hierarchy from small to large graphs, then other partitions again
  for (auto &s : menu())
    for (int k : {2, 3, 8, 20})
      mc::run("chain " + s.name + " k=" + std::to_string(k), [&, k] {
        auto gs = structured();
        std::stable_sort(gs.begin(), gs.end(), [](auto &a, auto &b) { return a.n() < b.n(); });
        for (int wk : {0, 2, 3, 5})
          for (int kind = 0; kind < 2; ++kind) {
            const Rep largest = rep_of(with_weights(gs.back(), wk), kind);
            const Context ctx = context_for(s, largest, k, 1);
            auto refiner = factory::create_refiner(ctx);
            for (auto &g : gs) {
              const RefGraph r = with_weights(g, wk);
              const Rep rep = rep_of(r, kind ? 1 : (wk + g.n()) % 2 * 2);
              int j = 0;
              for (auto &l : limit_menu(rep.ref, k)) {
                const auto pc = limits(rep, l);
                for (int st = 0; st < 6; ++st) {
                  if (!deep && g.n() > 100 && (st + j) % 3) continue;
                  mc::count_case();
                  reseed(++j);
                  const auto a = one(*refiner, s, rep, k, l, pc, start(rep.ref, k, st), " start " + std::to_string(st), 1);
                  if (st == 1) one(*refiner, s, rep, k, l, pc, a.part, " again", 1);
                }
              }
            }
          }
      });
#if !defined(KAMINPAR_EXPERIMENTAL)
  // vertices with more than 10000 adjacent blocks are handled in a second phase
  for (int impl = 0; impl < 3; ++impl)
    for (int tie = 0; tie < 2; ++tie)
      mc::run("many blocks " + std::to_string(impl) + std::to_string(tie), [&, impl, tie] {
        const Setting &s = menu()[static_cast<size_t>(2 * impl + tie)];
        for (int shape = 0; shape < 2; ++shape) {
          RefGraph r = shape ? disjoint(star(10040), caveman(4, 4)) : star(10021);
          const int k = r.n() - 10;
          const Rep rep = rep_of(with_weights(r, shape ? 3 : 0), shape);
          const Context ctx = context_for(s, rep, k, 1);
          auto refiner = factory::create_refiner(ctx);
          for (long lim : {2l, 8l}) {
            const std::vector<long> l(k, lim);
            const auto pc = limits(rep, l);
            std::vector<int> p(r.n());
            for (int u = 0; u < r.n(); ++u) p[u] = u % k;
            mc::count_case();
            one(*refiner, s, rep, k, l, pc, p, " many blocks", 1);
          }
        }
      });
#endif
  // divisions of the loops among threads that run one after the other
  for (auto &s : menu())
    for (int workers : {2, 3})
      for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
        mc::Config c;
        c.workers = workers, c.assign = as;
        mc::explore("workers " + s.name + " " + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, workers] {
          for (auto &g : {path(12), caveman(3, 4), prand(65, 6, 1), disjoint(star(9), cycle(12))})
            for (int wk : {0, 3})
              for (int k : {2, 4}) {
                const Rep rep = rep_of(with_weights(g, wk), (k + wk) % 2);
                reseed(k);
                const Context ctx = context_for(s, rep, k, workers);
                auto refiner = factory::create_refiner(ctx);
                for (auto &l : limit_menu(rep.ref, k)) {
                  const auto pc = limits(rep, l);
                  for (int st = 0; st < 4; ++st) {
                    mc::count_case();
                    one(*refiner, s, rep, k, l, pc, start(rep.ref, k, st), " divided", 1);
                  }
                }
              }
        });
      }
}
#else
void concurrent() {
  const bool deep = mc::thorough();
  struct In {
    RefGraph g;
    int k;
    std::vector<int> p;
    std::vector<long> limit;
    std::vector<std::string> only;
  };
  const std::vector<In> ins = {
      {path(4), 2, {0, 1, 0, 1}, {3, 3}},
      {path(5), 2, {0, 1, 0, 1, 0}, {3, 3}},
      {cycle(6), 3, {0, 1, 2, 0, 1, 2}, {3, 3, 3}},
      {star(5), 3, {0, 1, 1, 2, 2}, {2, 3, 2}},
      {with_weights(caveman(2, 3), 3), 2, {0, 1, 0, 1, 0, 1}, {8, 9}},
      {clique(4), 4, {0, 1, 2, 3}, {2, 2, 2, 2}},
      {disjoint(path(3), matching(4)), 2, {0, 1, 0, 1, 0, 1, 0}, {4, 4}},
      {with_weights(grid(2, 3), 3), 2, {0, 1, 1, 0, 0, 1}, {6, 14}},
  };
  int i = 0;
  for (auto &in : ins)
    for (auto &s : menu()) {
      ++i;
      if (s.c.algorithms.empty() || s.c.algorithms[0] == RA::NOOP) continue;
      for (int threads : {2, 3}) {
        mc::Config cfg;
        cfg.workers = threads;
        cfg.preemptions = (threads == 2 ? 2 : 1) + (deep ? 1 : 0) - (s.c.algorithms.size() > 1 || s.jet || (s.fm && (in.g.n() > 4 || in.k > 2)) ? 1 : 0);
        if (cfg.preemptions < 1) cfg.preemptions = 1;
        cfg.assign = i % 2 ? mc::Assign::RoundRobin : mc::Assign::Mirrored;
        cfg.max_exec = deep ? 1000000 : 200000;
        cfg.monitor_locals = false;
        mc::explore("mt " + in.g.name + " " + s.name + " T" + std::to_string(threads), cfg, [&] {
          reseed(i % 3);
          std::optional<Rep> rep;
          Context ctx;
          PartitionContext pc;
          {
            mc::RtGuard guard;
            rep.emplace(rep_of(in.g, i % 2));
            ctx = context_for(s, *rep, in.k, threads);
            pc = limits(*rep, in.limit);
          }
          auto refiner = factory::create_refiner(ctx);
          one(*refiner, s, *rep, in.k, in.limit, pc, in.p, "", threads);
        });
      }
    }
}
#endif
} // namespace

void mc_main() {
  mc::watchdog(60);
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
