// C27: quality metrics equal their textbook definitions.
#include <cmath>

#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/partitioning/helper.h"

using namespace kv;
namespace mt = kaminpar::shm::metrics;

namespace {
StaticArray<BlockID> part(const std::vector<int> &p) {
  StaticArray<BlockID> a(p.size(), kaminpar::static_array::seq);
  for (size_t i = 0; i < p.size(); ++i) a[i] = static_cast<BlockID>(p[i]);
  return a;
}

template <typename PG> void metrics_of(const RefGraph &r, const PG &pg, const std::vector<int> &p, int k, const std::string &what) {
  const long cut = ref_cut(r, p);
  const auto bw = ref_block_weights(r, p, k);
  const std::string at = what + " " + r.str() + " P=" + vec(p) + " k=" + std::to_string(k);
  MC_CHECK(mt::edge_cut(pg) == cut, "edge cut " + std::to_string(mt::edge_cut(pg)) + " instead of " + std::to_string(cut) + at);
  MC_CHECK(mt::edge_cut_seq(pg) == cut, "sequential edge cut" + at);
  const double avg = std::ceil(1.0 * r.total_vw() / k);
  double imb = 0;
  for (long w : bw) imb = std::max(imb, w / avg - 1.0);
  MC_CHECK(std::abs(mt::imbalance(pg) - imb) < 1e-9, "imbalance " + std::to_string(mt::imbalance(pg)) + " instead of " + std::to_string(imb) + at);
}
template <typename PG> void limits_of(const PG &pg, const std::vector<long> &bw, const PartitionContext &pc, const std::vector<long> &lim, const std::string &at) {
  long over = 0;
  for (size_t b = 0; b < bw.size(); ++b) over += std::max(0l, bw[b] - lim[b]);
  MC_CHECK(mt::total_overload(pg, pc) == over, "overload " + std::to_string(mt::total_overload(pg, pc)) + " instead of " + std::to_string(over) + at);
  MC_CHECK(mt::is_balanced(pg, pc) == (over == 0), "balanced" + at);
  MC_CHECK(mt::is_feasible(pg, pc) == (over == 0), "feasible" + at);
}

void one(const RefGraph &r, int k, bool limits) {
  const int n = r.n();
  Graph g = mkgraph(r);
  CSRGraph cg = csr(r);
  std::unique_ptr<Graph> comp;
  {
    CSRGraph tmp = csr(r);
    comp = std::make_unique<Graph>(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)));
  }
  long total = 1;
  for (int i = 0; i < n; ++i) total *= k;
  std::vector<std::pair<PartitionContext, std::vector<long>>> pcs;
  if (limits) {
    for (double eps : {0.0, 0.03, 0.34, 1.0}) {
      PartitionContext pc;
      pc.setup(g, k, eps);
      pcs.push_back({pc, std::vector<long>(k, static_cast<long>((1.0 + eps) * std::ceil(1.0 * r.total_vw() / k)))});
    }
    for (int s = 0; s < 3; ++s) {
      std::vector<BlockWeight> l(k);
      for (int b = 0; b < k; ++b) l[b] = s == 0 ? 1 : s == 1 ? b * static_cast<BlockWeight>(r.total_vw()) / k : static_cast<BlockWeight>(r.total_vw());
      std::vector<long> ll(l.begin(), l.end());
      PartitionContext pc;
      pc.setup(g, std::move(l));
      pcs.push_back({pc, ll});
    }
  }
  std::vector<int> p(n, 0);
  for (long i = 0; i < total; ++i) {
    mc::count_case();
    long x = i;
    for (int u = 0; u < n; ++u) { p[u] = static_cast<int>(x % k); x /= k; }
    PartitionedGraph pg(PartitionedGraph::seq{}, g, k, part(p));
    metrics_of(r, pg, p, k, " csr");
    PartitionedGraph pc_(PartitionedGraph::seq{}, *comp, k, part(p));
    metrics_of(r, pc_, p, k, " compressed");
    const auto bw = ref_block_weights(r, p, k);
    for (auto &[pc, lim] : pcs) limits_of(pg, bw, pc, lim, " " + r.str() + " P=" + vec(p) + " limits " + vec(lim));
  }
}

// select_best: a feasible partition if there is one, of those the first with the smallest cut.
void best(const RefGraph &r, int k, double eps) {
  Graph g = mkgraph(r);
  PartitionContext pc;
  pc.setup(g, k, eps);
  const int n = r.n();
  std::vector<std::vector<int>> menu;
  for (int v = 0; v < 7; ++v) {
    std::vector<int> p(n);
    for (int u = 0; u < n; ++u) p[u] = v == 0 ? 0 : v == 1 ? u % k : v == 2 ? u * k / n : v == 3 ? (u == 0) : v == 4 ? static_cast<int>(hash64(u) % k) : v == 5 ? k - 1 : (u + 1) * k / n % k;
    menu.push_back(p);
  }
  for (size_t a = 0; a < menu.size(); ++a)
    for (size_t b = 0; b < menu.size(); ++b)
      for (size_t c = 0; c < menu.size(); ++c) {
        mc::count_case();
        kaminpar::ScalableVector<PartitionedGraph> v;
        std::vector<size_t> ids{a, b, c};
        for (size_t i : ids) v.emplace_back(PartitionedGraph::seq{}, g, static_cast<BlockID>(k), part(menu[i]));
        const size_t got = kaminpar::shm::partitioning::select_best(v, pc);
        auto key = [&](size_t i) {
          const auto bw = ref_block_weights(r, menu[ids[i]], k);
          bool ok = true;
          for (int x = 0; x < k; ++x) ok &= bw[x] <= pc.max_block_weight(x);
          return std::pair<int, long>(!ok, ref_cut(r, menu[ids[i]]));
        };
        for (size_t i = 0; i < 3; ++i) MC_CHECK(key(got) <= key(i), "selected a worse partition of " + r.str());
      }
}
} // namespace

void mc_main() {
  const bool T = mc::thorough();
  for (int n = 1; n <= (T ? 5 : 4); ++n)
    for (uint32_t m : iso_classes(n))
      mc::run("all partitions n=" + std::to_string(n) + " G" + std::to_string(m), [&] {
        for (int w = 0; w <= 5; ++w)
          for (int k = 1; k <= n + 1; ++k) one(with_weights(by_mask(n, m), w), k, true);
      });
  std::vector<RefGraph> gs{path(9), grid(3, 3), star(9), empty(6), disjoint(clique(4), empty(3)), clique(8)};
  for (auto &g : gs)
    for (int w = 0; w <= 5; ++w)
      mc::run("menu " + g.name + " w" + std::to_string(w), [&] {
        one(with_weights(g, w), 2, true);
        one(with_weights(g, w), 3, w < 2);
        best(with_weights(g, w), 2, 0.1);
        best(with_weights(g, w), 3, 0.0);
      });
  // every division of the summation
  std::vector<RefGraph> ds{path(9), with_weights(grid(3, 4), 3), with_weights(star(12), 5), prand(40, 5, 1)};
  for (auto &g : ds)
    for (int workers : {1, 2, 3})
      for (int chunks : {1, 2, 3, 5, 8})
        for (bool rev : {false, true}) {
          mc::Config c;
          c.workers = workers;
          c.chunks = chunks;
          c.reverse = rev;
          mc::explore("division " + g.name + " T" + std::to_string(workers) + " c" + std::to_string(chunks) + (rev ? " rev" : ""), c, [&] {
            Graph gr = mkgraph(g);
            for (int k = 1; k <= 4; ++k)
              for (int v = 0; v < 4; ++v) {
                mc::count_case();
                std::vector<int> p(g.n());
                for (int u = 0; u < g.n(); ++u) p[u] = v == 0 ? u % k : v == 1 ? u * k / g.n() : v == 2 ? 0 : static_cast<int>(hash64(u + 17) % k);
                PartitionedGraph pg(gr, k, part(p));
                metrics_of(g, pg, p, k, " division");
              }
          });
        }
  if constexpr (sizeof(EdgeWeight) == 8)
    mc::run("cuts beyond 32 bits", [&] {
      for (long w : {1l << 30, 1l << 31, (1l << 32) - 1, 1l << 32, (1l << 40) + 3, 1l << 52})
        for (int n : {2, 3, 5}) {
          RefGraph g = clique(n);
          for (auto &a : g.adj)
            for (auto &[v, x] : a) x = w;
          if (sizeof(NodeWeight) == 8)
            for (auto &x : g.vw) x = w / 3 + 1;
          one(g, 2, true);
          one(g, 3, true);
        }
    });
  else
    mc::run("cuts up to 31 bits", [&] {
      for (long w : {1l << 20, 1l << 28, 357913941l}) { // total edge weights below 2^31
        RefGraph g = path(4);
        for (auto &a : g.adj)
          for (auto &[v, x] : a) x = w;
        one(g, 2, true);
        one(g, 4, true);
      }
    });
}
