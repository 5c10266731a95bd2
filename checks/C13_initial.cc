// C13: initial bipartitioning. Every algorithm, the 2-way refinement, the selection among repetitions (with scripted candidates) and the multilevel bipartitioner as a whole.
#include "kv.h"

#include <array>

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_bipartitioner_worker_pool.h"
#include "kaminpar-shm/initial_partitioning/initial_fm_refiner.h"
#include "kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.h"
#include "kaminpar-shm/initial_partitioning/initial_random_bipartitioner.h"
#include "kaminpar-shm/presets.h"

using namespace kv;
using namespace kaminpar::shm;
using kv::csr;

namespace {
PartitionContext limits_of(const CSRGraph &g, long a, long b) {
  PartitionContext p;
  p.setup(g, std::vector<BlockWeight>{static_cast<BlockWeight>(a), static_cast<BlockWeight>(b)}, false);
  return p;
}
struct View {
  std::vector<int> part;
  long cut = 0, overload = 0;
  bool feasible = false;
  double imbalance = 0;
};
// checks what every result must satisfy
View check_result(const RefGraph &r, const PartitionedCSRGraph &p, const CSRGraph &g, long a, long b, const std::string &at) {
  View v;
  MC_CHECK(&p.graph() == &g && static_cast<int>(p.n()) == r.n() && p.k() == 2, "the bipartition is of something else" + at);
  long w[2] = {0, 0};
  for (int u = 0; u < r.n(); ++u) {
    const BlockID x = p.block(static_cast<NodeID>(u));
    MC_CHECK(x == 0 || x == 1, "vertex " + std::to_string(u) + " is in block " + std::to_string(x) + at);
    v.part.push_back(static_cast<int>(x));
    w[x] += r.vw[u];
  }
  for (int x = 0; x < 2; ++x)
    MC_CHECK(static_cast<long>(p.block_weight(static_cast<BlockID>(x))) == w[x], "block " + std::to_string(x) + " is reported to weigh " + std::to_string(p.block_weight(static_cast<BlockID>(x))) + ", its vertices " + std::to_string(w[x]) + at);
  v.cut = ref_cut(r, v.part);
  v.overload = std::max(0l, w[0] - a) + std::max(0l, w[1] - b);
  v.feasible = v.overload == 0;
  const double per = std::ceil(1.0 * static_cast<double>(r.total_vw()) / 2);
  v.imbalance = static_cast<double>(std::max(w[0], w[1])) / per - 1.0;
  return v;
}
std::string name_of(const RefGraph &r) { return " " + (r.n() <= 30 ? r.str() : r.name); }
std::vector<std::pair<long, long>> limit_menu(const RefGraph &r, bool small) {
  const long t = r.total_vw(), h = (t + 1) / 2, m = *std::max_element(r.vw.begin(), r.vw.end());
  std::set<std::pair<long, long>> s{{h, h}, {h + m, h + m}, {t, t}, {(2 * t + 2) / 3, (t + 2) / 3}, {std::max(1l, h - 1), h}};
  if (small) s.insert({{1, t}, {t, 1}, {1, 1}, {t / 3 + 1, t}, {0, t}});
  return {s.begin(), s.end()};
}

// ------------------------------------------------------------------ algorithms
const char *alg_name(int a) {
  static const char *n[] = {"bfs alternating", "bfs lighter", "bfs longer queue", "bfs shorter queue", "bfs sequential", "greedy graph growing", "random"};
  return n[a];
}
std::unique_ptr<InitialFlatBipartitioner> algorithm(int a, const InitialPoolPartitionerContext &c) {
  switch (a) {
  case 0: return std::make_unique<AlternatingBfsBipartitioner>(c);
  case 1: return std::make_unique<LighterBlockBfsBipartitioner>(c);
  case 2: return std::make_unique<LongerQueueBfsBipartitioner>(c);
  case 3: return std::make_unique<ShorterQueueBfsBipartitioner>(c);
  case 4: return std::make_unique<SequentialBfsBipartitioner>(c);
  case 5: return std::make_unique<InitialGGGBipartitioner>(c);
  }
  return std::make_unique<InitialRandomBipartitioner>(c);
}
void algorithms_on(InitialFlatBipartitioner &b, const RefGraph &r, int seeds, bool small, const std::string &what) {
  const CSRGraph g = csr(r);
  for (auto [a, c] : limit_menu(r, small)) {
    const PartitionContext p = limits_of(g, a, c);
    b.init(g, p);
    for (int seed = 0; seed < seeds; ++seed) {
      mc::count_case();
      reseed(seed);
      StaticArray<BlockID> part(static_cast<size_t>(r.n() + seed % 3), kaminpar::static_array::seq);
      StaticArray<BlockWeight> bw(2, kaminpar::static_array::seq);
      for (auto &x : part) x = 77;
      bw[0] = 5, bw[1] = 6;
      const auto q = b.bipartition(std::move(part), std::move(bw));
      check_result(r, q, g, a, c, " (" + what + " limits " + std::to_string(a) + "," + std::to_string(c) + " seed " + std::to_string(seed) + ")" + name_of(r));
    }
  }
}

// ------------------------------------------------------------------ 2-way refinement
InitialRefinementContext fm_context(int i) {
  InitialRefinementContext c = create_default_context().initial_partitioning.refinement;
  c.disabled = false;
  c.stopping_rule = i % 2 ? FMStoppingRule::ADAPTIVE : FMStoppingRule::SIMPLE;
  c.num_fruitless_moves = i / 2 % 3 == 0 ? 100 : i / 2 % 3 == 1 ? 0 : 2;
  c.num_iterations = i < 6 ? 5 : 1;
  c.improvement_abortion_threshold = i % 3 == 0 ? 0.0001 : i % 3 == 1 ? 0.5 : 0.0;
  c.alpha = i % 3 == 2 ? 4.0 : 1.0;
  return c;
}
void refine_one(InitialRefiner &fm, const InitialRefinementContext &fc, const RefGraph &r, const CSRGraph &g, const PartitionContext &pc, long a, long b, const std::vector<int> &start, int seed, const std::string &at) {
  mc::count_case();
  reseed(seed);
  StaticArray<BlockID> part(r.n(), kaminpar::static_array::seq);
  for (int u = 0; u < r.n(); ++u) part[u] = static_cast<BlockID>(start[u]);
  PartitionedCSRGraph p(PartitionedCSRGraph::seq{}, g, 2, std::move(part));
  const std::string here = " (" + at + " limits " + std::to_string(a) + "," + std::to_string(b) + " seed " + std::to_string(seed) + ")" + name_of(r) + (r.n() <= 64 ? " P=" + vec(start) : "");
  const View before = check_result(r, p, g, a, b, here);
  const bool improved = fm.refine(p, pc);
  const View after = check_result(r, p, g, a, b, here);
  MC_CHECK(after.overload <= before.overload, "refinement increased the overload from " + std::to_string(before.overload) + " to " + std::to_string(after.overload) + here);
  MC_CHECK(after.cut <= before.cut, "refinement increased the cut from " + std::to_string(before.cut) + " to " + std::to_string(after.cut) + here);
  if (fc.disabled) MC_CHECK(after.part == before.part && !improved, "disabled refinement changed the bipartition" + here);
  if (fc.num_iterations > 1) MC_CHECK(improved == (after.cut < before.cut), std::string("refinement reported ") + (improved ? "" : "no ") + "improvement, cut " + std::to_string(before.cut) + " -> " + std::to_string(after.cut) + here);
}

// ------------------------------------------------------------------ selection among candidates
// A bipartitioner that returns what the script says.
std::vector<std::vector<int>> script;
size_t next_in_script;
std::vector<size_t> used;
struct Scripted : InitialFlatBipartitioner {
  explicit Scripted(const InitialPoolPartitionerContext &c) : InitialFlatBipartitioner(c) {}
  void fill_bipartition() override {
    const size_t i = next_in_script++;
    used.push_back(i);
    const auto &s = script[i % script.size()];
    for (NodeID u = 0; u < _graph->n(); ++u) set_block(u, static_cast<BlockID>(s[u]));
  }
};
void selection(InitialPoolBipartitioner &pool, const RefGraph &r, const CSRGraph &g, long a, long b, const std::string &at) {
  mc::count_case();
  const PartitionContext pc = limits_of(g, a, b);
  next_in_script = 0, used.clear();
  pool.init(g, pc);
  const PartitionedCSRGraph p = pool.bipartition();
  std::string here = " (" + at + " limits " + std::to_string(a) + "," + std::to_string(b) + ")" + name_of(r);
  for (size_t i : used) here += " " + vec(script[i % script.size()]);
  const View got = check_result(r, p, g, a, b, here);
  MC_CHECK(!used.empty(), "no bipartition was computed" + here);
  bool any = false, member = false;
  long best = std::numeric_limits<long>::max();
  for (size_t i : used) {
    const auto &s = script[i % script.size()];
    long w[2] = {0, 0};
    for (int u = 0; u < r.n(); ++u) w[s[u]] += r.vw[u];
    const bool ok = w[0] <= a && w[1] <= b;
    const long cut = ref_cut(r, s);
    if (s == got.part) member = true;
    if (ok && !any) any = true, best = cut;
    else if (ok == any) best = std::min(best, cut);
  }
  MC_CHECK(member, "the selected bipartition " + vec(got.part) + " is none of the candidates" + here);
  MC_CHECK(got.feasible == any, "an infeasible bipartition " + vec(got.part) + " was selected although a candidate is feasible" + here);
  MC_CHECK(got.cut == best, "a bipartition with cut " + std::to_string(got.cut) + " was selected, the best candidate has " + std::to_string(best) + here);
}

std::vector<std::vector<int>> all_bipartitions(int n) {
  std::vector<std::vector<int>> v;
  for (int m = 0; m < (1 << n); ++m) {
    std::vector<int> p(n);
    for (int u = 0; u < n; ++u) p[u] = m >> u & 1;
    v.push_back(p);
  }
  return v;
}
std::vector<RefGraph> structured() {
  return {path(70), cycle(63), star(40), clique(12), grid(8, 8), grid(5, 13), caveman(5, 5), matching(30), empty(20), disjoint(grid(5, 5), empty(9)), disjoint(star(9), cycle(12)), prand(65, 6, 1), prand(130, 4, 2), prand(300, 5, 3), scattered(caveman(12, 6))};
}

void run_all() {
  const bool deep = mc::thorough();
  const int N = deep ? 6 : 5;
  const Context base = create_default_context();
  for (int alg = 0; alg < 7; ++alg)
    for (int n = 1; n <= N; ++n)
      for (int wk : {0, 3, 4})
        mc::run(std::string(alg_name(alg)) + " n=" + std::to_string(n) + " w" + std::to_string(wk), [&, alg, n, wk] {
          for (int it : {1, 0, 5}) {
            InitialPoolPartitionerContext c = base.initial_partitioning.pool;
            c.num_seed_iterations = it;
            auto b = algorithm(alg, c);
            for (uint32_t mask : iso_classes(n)) algorithms_on(*b, with_weights(by_mask(n, mask), wk), n <= 4 ? 12 : 8, true, std::string(alg_name(alg)) + " seeds " + std::to_string(it));
          }
        });
  for (int alg = 0; alg < 7; ++alg)
    for (int order = 0; order < 2; ++order)
      mc::run(std::string(alg_name(alg)) + " chain " + std::to_string(order), [&, alg, order] {
        auto b = algorithm(alg, base.initial_partitioning.pool);
        auto gs = structured();
        if (order) std::reverse(gs.begin(), gs.end());
        for (int wk = 0; wk < 6; ++wk)
          for (auto &g : gs) algorithms_on(*b, with_weights(g, wk), deep ? 40 : 10, false, alg_name(alg));
      });

  for (int fi = 0; fi < 13; ++fi) {
    auto fc = fm_context(fi);
    if (fi == 12) fc.disabled = true;
    for (int n = 1; n <= N; ++n)
      for (int wk : {0, 3, 4, 5})
        mc::run("refinement " + std::to_string(fi) + " n=" + std::to_string(n) + " w" + std::to_string(wk), [&, fc, fi, n, wk] {
          auto fm = create_initial_refiner(fc);
          const auto ps = all_bipartitions(n);
          for (uint32_t mask : iso_classes(n)) {
            const RefGraph r = with_weights(by_mask(n, mask), wk);
            const CSRGraph g = csr(r, fi % 2);
            fm->init(g);
            for (auto [a, b] : limit_menu(r, n <= 4)) {
              const PartitionContext pc = limits_of(g, a, b);
              for (auto &p : ps)
                for (int seed = 0; seed < (n <= 4 ? 3 : 1); ++seed) refine_one(*fm, fc, r, g, pc, a, b, p, seed, "context " + std::to_string(fi));
            }
          }
        });
    for (int order = 0; order < 2; ++order)
      mc::run("refinement chain " + std::to_string(fi) + "/" + std::to_string(order), [&, fc, fi, order] {
        auto fm = create_initial_refiner(fc);
        auto gs = structured();
        if (order) std::reverse(gs.begin(), gs.end());
        for (int wk = 0; wk < 6; ++wk)
          for (auto &base_graph : gs) {
            const RefGraph r = with_weights(base_graph, wk);
            const CSRGraph g = csr(r);
            fm->init(g);
            for (auto [a, b] : limit_menu(r, false)) {
              const PartitionContext pc = limits_of(g, a, b);
              for (int kind = 0; kind < 6; ++kind) {
                std::vector<int> p(r.n());
                for (int u = 0; u < r.n(); ++u) p[u] = kind == 0 ? 0 : kind == 1 ? u % 2 : kind == 2 ? u >= r.n() / 2 : static_cast<int>(hash64(u * 3 + kind) % (kind == 5 ? 5 : 2) == 0);
                for (int seed = 0; seed < (deep ? 12 : 3); ++seed) refine_one(*fm, fc, r, g, pc, a, b, p, seed, "context " + std::to_string(fi));
              }
            }
          }
      });
  }

  // selection: every sequence of candidates
  for (int adaptive = 0; adaptive < 2; ++adaptive)
    for (int algs = 1; algs <= 3; ++algs)
      mc::run("selection adaptive " + std::to_string(adaptive) + " " + std::to_string(algs), [&, adaptive, algs] {
        for (int reps = 1; reps <= 3; ++reps) {
          InitialPoolPartitionerContext c = base.initial_partitioning.pool;
          c.enable_bfs_bipartitioner = c.enable_ggg_bipartitioner = c.enable_random_bipartitioner = false;
          c.refinement.disabled = true;
          c.use_adaptive_bipartitioner_selection = adaptive;
          c.min_num_non_adaptive_repetitions = 1;
          c.min_num_repetitions = 1, c.max_num_repetitions = reps;
          InitialPoolBipartitioner pool(c);
          const char *names[] = {"a", "b", "c"};
          for (int i = 0; i < algs; ++i) pool.register_bipartitioner<Scripted>(names[i]);
          pool.set_num_repetitions(reps);
          for (auto &base_graph : {path(3), with_weights(path(4), 3), star(4), with_weights(clique(3), 4), empty(2)}) {
            const RefGraph r = base_graph;
            const CSRGraph g = csr(r);
            const auto ps = all_bipartitions(r.n());
            const int runs = std::min(algs * reps, deep ? 4 : 3);
            std::vector<size_t> idx(runs, 0);
            for (bool more = true; more;) {
              script.clear();
              for (size_t i : idx) script.push_back(ps[i]);
              for (auto [a, b] : limit_menu(r, true)) selection(pool, r, g, a, b, "adaptive " + std::to_string(adaptive) + " algorithms " + std::to_string(algs) + " repetitions " + std::to_string(reps));
              more = false;
              for (auto &i : idx) {
                if (++i < ps.size()) { more = true; break; }
                i = 0;
              }
            }
          }
        }
      });

  // the pool and the multilevel bipartitioner as they are used
  std::vector<Context> ctxs{create_context_by_preset_name("default"), create_context_by_preset_name("fast"), create_context_by_preset_name("strong"), create_context_by_preset_name("terapart")};
  for (size_t ci = 0; ci < ctxs.size(); ++ci)
    for (int order = 0; order < 2; ++order)
      for (int contraction_limit : {20, 3})
        mc::run("multilevel " + std::to_string(ci) + "/" + std::to_string(order) + "/" + std::to_string(contraction_limit), [&, ci, order, contraction_limit] {
          auto gs = structured();
          for (int n = 1; n <= 4; ++n)
            for (uint32_t mask : iso_classes(n)) gs.push_back(by_mask(n, mask));
          if (order) std::reverse(gs.begin(), gs.end());
          for (int k : {2, 3, 4, 7}) {
            Context ctx = ctxs[ci];
            ctx.initial_partitioning.coarsening.contraction_limit = static_cast<NodeID>(contraction_limit);
            std::vector<std::tuple<BlockID, BlockID>> subs{{0, 1}};
            if (k >= 4) subs.push_back({0, 2}), subs.push_back({1, 2});
            if (k == 7) subs.push_back({2, 4});
            reseed(0);
            InitialBipartitionerWorkerPool pool(ctx);
            int i = 0;
            for (auto &base_graph : gs) {
              const RefGraph r = with_weights(base_graph, i++ % 6);
              const CSRGraph g = csr(r);
              const Graph whole = i % 3 == 0 ? Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(g))) : mkgraph(r);
              RefGraph rr = read_back(whole);
              rr.name = r.name;
              ctx.partition.setup(g, static_cast<BlockID>(k), 0.03, true);
              for (auto [block, cur] : subs)
                for (int seed = 0; seed < 2; ++seed) {
                  mc::count_case();
                  reseed(seed);
                  const std::string here = " (context " + std::to_string(ci) + " k=" + std::to_string(k) + " block " + std::to_string(block) + "/" + std::to_string(cur) + " seed " + std::to_string(seed) + ")" + name_of(r);
                  {
                    InitialMultilevelBipartitioner ml(ctx);
                    ml.initialize(g, block, cur);
                    const auto p = ml.partition(nullptr);
                    check_result(r, p, g, ml.p_ctx().max_block_weight(0), ml.p_ctx().max_block_weight(1), here);
                  }
                  const PartitionedGraph p = pool.bipartition(&whole, block, cur, true);
                  long w[2] = {0, 0};
                  for (int u = 0; u < rr.n(); ++u) {
                    MC_CHECK(p.block(static_cast<NodeID>(u)) < 2, "block of vertex " + std::to_string(u) + here);
                    w[p.block(static_cast<NodeID>(u))] += rr.vw[u];
                  }
                  MC_CHECK(static_cast<long>(p.block_weight(0)) == w[0] && static_cast<long>(p.block_weight(1)) == w[1], "block weights of the pooled bipartitioner" + here);
                }
            }
          }
        });
}
} // namespace

void mc_main() {
  mc::watchdog(60);
  run_all();
}
