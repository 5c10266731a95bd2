// C02: every computed partition of a graph with unit vertex weights respects the balance constraint.
#include "api.h"

using namespace kv;

namespace {
void one(const RefGraph &g, const Preset &p, const Limits &l, Input in, int seed, const char *extra = "") {
  mc::count_case();
  const std::string at = " [" + p.name + extra + "] " + l.str() + " seed " + std::to_string(seed) + " " + input_name(in) + " " + g.str();
  mc::label(at);
  const Result r = partition(g, p.ctx, l, in, seed);
  for (int u = 0; u < g.n(); ++u) MC_CHECK(r.part[u] < static_cast<BlockID>(l.k), "block id out of range" + at);
  check_balanced(g, r, l, at);
}
// edge weights vary, vertex weights do not
RefGraph edges(const RefGraph &g, int kind) {
  RefGraph h = g;
  if (kind) {
    for (int u = 0; u < h.n(); ++u)
      for (auto &[v, w] : h.adj[u]) w = kind == 1 ? 1 + (std::min(u, v) * 3 + std::max(u, v)) % 3 : 1 + (std::min(u, v) * 131 + std::max(u, v) * 17) % 900;
    h.name += kind == 1 ? ".small" : ".large";
  }
  return h;
}
std::vector<RefGraph> structured() {
  return {path(9), cycle(16), star(12), clique(9), grid(4, 5), matching(12), caveman(4, 5), caveman(3, 7), disjoint(grid(3, 4), empty(5)), disjoint(star(7), disjoint(empty(3), path(6))), disjoint(clique(5), clique(6)), prand(30, 4, 1),
          prand(60, 6, 2), prand(90, 3, 3), scattered(grid(8, 8)), empty(7), disjoint(empty(20), path(2)), disjoint(clique(12), empty(20)), star(70), scattered(caveman(8, 9)), disjoint(star(30), star(40)), prand(250, 8, 4)};
}
} // namespace

void mc_main() {
  mc::watchdog(20);
  std::vector<Preset> all, deep;
  for (auto &p : presets())
    if (p.name != "noref" && p.name != "restricted-vcycle") { // these presets have no balancer
      all.push_back(p);
      deep.push_back({p.name + "/deepened", deepened(p.ctx)});
    }
  Preset rb{"rb", deepened(create_default_context())}, kway{"kway", deepened(create_default_context())};
  rb.ctx.partitioning.mode = PartitioningMode::RB, rb.ctx.partitioning.rb_enable_kway_toplevel_refinement = true;
  kway.ctx.partitioning.mode = PartitioningMode::KWAY;

  const int N = mc::thorough() ? 5 : 4;
  for (int n = 0; n <= N; ++n) {
    const int parts = n < 3 ? 1 : n == 3 ? 4 : 32;
    for (int part = 0; part < parts; ++part)
      mc::run("small n=" + std::to_string(n) + "/" + std::to_string(part), [&, n, part, parts] {
        for (uint32_t mask = part; mask < num_masks(n); mask += parts)
          for (int ek : {0, 1}) {
            const RefGraph g = edges(by_mask(n, mask), ek);
            for (int k = 1; k <= n + 1; ++k)
              for (size_t i = 0; i < all.size(); ++i)
                for (double eps : {0.0, 0.03, 0.5}) {
                  const int seed = static_cast<int>(hash64(mask * 7 + k) % 5);
                  if (ek == 0) one(g, all[i], by_eps(k, eps), (i + k) % 2 ? Input::Copy : Input::Compressed, seed);
                  one(g, deep[i], by_eps(k, eps), ek % 2 ? Input::Copy : Input::Compressed, seed);
                }
          }
      });
  }
  for (int n = 5; n <= 6; ++n) {
    const auto masks = iso_classes(n);
    for (int part = 0; part < 16; ++part)
      mc::run("iso n=" + std::to_string(n) + "/" + std::to_string(part), [&, n, part] {
        for (size_t mi = part; mi < masks.size(); mi += 16) {
          const RefGraph g = edges(by_mask(n, masks[mi]), static_cast<int>(mi % 2));
          for (int k = 2; k <= n; ++k)
            for (const char *name : {"default", "strong", "jet", "largek", "vcycle"})
              for (size_t i = 0; i < deep.size(); ++i)
                if (all[i].name == name)
                  for (double eps : {0.0, 0.5}) one(g, deep[i], by_eps(k, eps), (mi + k) % 2 ? Input::Copy : Input::Compressed, static_cast<int>(mi % 3));
        }
      });
  }
  const auto gs = structured();
  for (size_t gi = 0; gi < gs.size(); ++gi) {
    const std::vector<int> ks = gs[gi].n() > 100 ? std::vector<int>{2, 5, 16, 33} : std::vector<int>{2, 3, 4, 5, 7, 8, 11, 16, 23};
    for (int ek : {0, 1, 2})
      mc::run("structured " + gs[gi].name + " e" + std::to_string(ek), [&, gi, ek] {
        const RefGraph g = edges(gs[gi], ek);
        for (int k : ks) {
          for (size_t i = 0; i < all.size(); ++i)
            for (double eps : {0.0, 0.03, 0.2}) {
              if (!mc::thorough() && (i + k + ek) % 3 != 0) continue;
              one(g, all[i], by_eps(k, eps), (k + i) % 2 ? Input::Borrow : Input::Compressed, static_cast<int>(i));
              one(g, deep[i], by_eps(k, eps), (k + i) % 2 ? Input::Compressed : Input::Copy, static_cast<int>(i + 1));
            }
          one(g, kway, by_eps(k, 0.03), Input::Copy, 2);
          if ((k & (k - 1)) == 0) one(g, rb, by_eps(k, 0.03), Input::Copy, 3);
          // individual limits that sum to at least the total weight
          const long W = g.total_vw();
          std::vector<BlockWeight> tight(k), skewed(k), loose(k);
          std::vector<double> rel(k);
          long left = W;
          for (int b = 0; b < k; ++b) {
            tight[b] = static_cast<BlockWeight>(W / k + (b < W % k));
            skewed[b] = static_cast<BlockWeight>(b + 1 == k ? std::max(1l, left) : std::max(1l, std::min(left - (k - b - 1), W * (b + 1) / (k * (k + 1) / 2))));
            left -= skewed[b];
            loose[b] = static_cast<BlockWeight>(W * (1 + b % 2) / k + 1);
            rel[b] = (1.0 + 0.4 * (b % 3)) / k;
          }
          for (size_t i = 0; i < deep.size(); ++i) {
            if (!mc::thorough() && (i + k + ek) % 4 != 0) continue;
            if (W >= k) one(g, deep[i], by_abs(tight), Input::Copy, 1, " tight");
            one(g, deep[i], by_abs(skewed), i % 2 ? Input::Compressed : Input::Copy, 2, " skewed");
            one(g, deep[i], by_abs(loose), i % 2 ? Input::Copy : Input::Set, 3, " loose");
            if (W >= 2 * k) one(g, deep[i], by_rel(rel), Input::Copy, 4, " relative");
          }
        }
      });
  }
  for (auto g : {prand(4200, 6, 2), grid(70, 70), scattered(caveman(420, 11)), star(4500), disjoint(prand(2500, 8, 3), empty(1500)), disjoint(star(2200), star(2300))})
    for (size_t i = 0; i < all.size(); ++i)
      mc::run("medium " + g.name + " " + all[i].name, [&, g, i] {
        one(g, all[i], by_eps(2 + static_cast<int>(i % 3), 0.0), i % 2 ? Input::Copy : Input::Compressed, 1);
        one(edges(g, 1), all[i], by_eps(i % 2 ? 16 : 37, 0.03), i % 2 ? Input::Copy : Input::Borrow, 2);
        one(edges(g, 2), deep[i], by_eps(i % 2 ? 300 : 64, 0.0), Input::Copy, 3);
      });
  // several workers: divisions of the parallel loops
  for (size_t gi : {size_t(3), size_t(4), size_t(6), size_t(8), size_t(12), size_t(14), size_t(18), size_t(20)})
    for (int workers : {2, 3, 4})
      for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
        mc::Config c;
        c.workers = workers, c.assign = as;
        mc::explore("workers " + gs[gi].name + " " + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, gi, workers] {
          for (int ek : {0, 2}) {
            const RefGraph g = edges(gs[gi], ek);
            for (int k : {2, 3, 5, 8})
              for (size_t i = 0; i < deep.size(); ++i) one(g, deep[i], by_eps(k, k % 2 ? 0.0 : 0.03), (i + k) % 2 ? Input::Copy : Input::Compressed, static_cast<int>(i));
          }
        });
      }
}
