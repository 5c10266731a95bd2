// C22: recursive block splitting covers exactly the requested blocks, with consistent limits, and
// extending a partition keeps every vertex inside the range of final blocks of its block.
#include <cmath>

#include "kv.h"

#include "kaminpar-shm/context_io.h"
#include "kaminpar-shm/partitioning/helper.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
#include "kaminpar-shm/presets.h"

#include "kaminpar-common/logger.h"
#include "kaminpar-common/math.h"

using namespace kv;
namespace pt = kaminpar::shm::partitioning;

namespace {
// Reference: labels of all nodes of the level with `ck` nodes of the splitting tree of `k`.
std::vector<BlockID> level(BlockID k, BlockID ck) {
  if (ck == k) return std::vector<BlockID>(k, 1);
  std::vector<BlockID> l{k};
  while (l.size() < ck) {
    std::vector<BlockID> n;
    for (BlockID x : l) {
      n.push_back(x - x / 2);
      n.push_back(x / 2);
    }
    l = n;
  }
  return l;
}
std::vector<BlockID> starts(const std::vector<BlockID> &l) {
  std::vector<BlockID> s{0};
  for (BlockID x : l) s.push_back(s.back() + x);
  return s;
}

void tables(BlockID k) {
  for (BlockID ck = 1;; ck *= 2) {
    if (ck > k) break;
    mc::count_case(ck);
    const auto l = level(k, ck);
    const auto s = starts(l);
    for (BlockID b = 0; b < ck; ++b) {
      const std::string at = " k=" + std::to_string(k) + " current_k=" + std::to_string(ck) + " block=" + std::to_string(b);
      MC_CHECK(pt::compute_final_k(b, ck, k) == l[b], "number of final blocks of" + at + " is " + std::to_string(pt::compute_final_k(b, ck, k)));
      MC_CHECK(pt::compute_first_sub_block(b, ck, k) == s[b], "first final block of" + at + " is " + std::to_string(pt::compute_first_sub_block(b, ck, k)));
      MC_CHECK(pt::compute_first_invalid_sub_block(b, ck, k) == s[b + 1], "end of range of" + at);
      MC_CHECK(l[b] >= 1 && l[b] >= k / ck && l[b] <= k / ck + 1, "reference" + at);
    }
    MC_CHECK(s[ck] == k, "coverage");
  }
  for (BlockID b = 0; b < k; ++b) MC_CHECK(pt::compute_final_k(b, k, k) == 1u, "final level k=" + std::to_string(k));
}

Context base_ctx(NodeID contraction_limit = 2000) {
  Context ctx = create_context_by_preset_name("default");
  ctx.coarsening.contraction_limit = contraction_limit;
  ctx.parallel.num_threads = 1;
  ctx.compression.enabled = false;
  return ctx;
}

void next_k(BlockID k) {
  Context ctx = base_ctx(20);
  ctx.partition.k = k;
  for (BlockID ck = 1; ck < k; ck *= 2) {
    mc::count_case();
    const BlockID n = pt::compute_next_k(ck, ctx);
    MC_CHECK(n == std::min(2 * ck, k), "compute_next_k");
  }
  if (k < 2) return;
  NodeID prev_k = 0;
  for (NodeID n = 1; n < 20 * (k + 3); n += (n < 200 ? 1 : 7)) {
    mc::count_case();
    const BlockID kp = pt::compute_k_for_n(n, ctx);
    const std::string at = " n=" + std::to_string(n) + " k=" + std::to_string(k) + " -> " + std::to_string(kp);
    MC_CHECK(kp == k || (kp >= 2 && kp < k && (kp & (kp - 1)) == 0), "number of blocks for a level is k or a smaller power of two" + at);
    MC_CHECK(kp >= prev_k, "monotone" + at);
    prev_k = kp;
  }
  MC_CHECK(pt::compute_k_for_n(20 * 4 * (k + 1), ctx) == k, "large graphs get all blocks");
}

// ---------------------------------------------------------------- limits
struct Limits { bool uniform; double eps; int kind; };

void setup(Context &ctx, const Graph &g, BlockID k, const Limits &li, std::vector<long> &lim) {
  lim.assign(k, 0);
  if (li.uniform) {
    ctx.partition.setup(g, k, li.eps);
    for (auto &x : lim) x = static_cast<long>((1.0 + li.eps) * std::ceil(1.0 * g.total_node_weight() / k));
  } else {
    std::vector<BlockWeight> v(k);
    for (BlockID b = 0; b < k; ++b) {
      const long per = (g.total_node_weight() + k - 1) / k;
      lim[b] = li.kind == 0 ? per + b % 3 : li.kind == 1 ? 1 + b * 2 * per / k + per : per * (b % 2 ? 3 : 1) + 1;
      v[b] = static_cast<BlockWeight>(lim[b]);
    }
    ctx.partition.setup(g, std::move(v));
  }
  ctx.partition.n = g.n();
}

void kway_limits(const RefGraph &r, BlockID k, const Limits &li, long removed) {
  Graph g = mkgraph(r);
  Context ctx = base_ctx();
  std::vector<long> lim;
  setup(ctx, g, k, li, lim);
  const int left = r.n() - static_cast<int>(removed); // the last vertices are isolated and were cut off
  for (int u = left; u < r.n(); ++u) ctx.partition.total_node_weight -= static_cast<NodeWeight>(r.vw[u]);
  ctx.partition.n = static_cast<NodeID>(left);
  const long W = ctx.partition.total_node_weight;
  for (BlockID b = 0; b < k; ++b) MC_CHECK(ctx.partition.max_block_weight(b) == lim[b], "final limit of block " + std::to_string(b));
  for (BlockID ck = 1; ck <= k; ck = ck * 2 > k && ck < k ? k : ck * 2) {
    const auto l = level(k, ck);
    const auto s = starts(l);
    for (int top = 0; top < 2; ++top) {
      mc::count_case();
      RefGraph q(top ? left : left - 1);
      for (int u = 0; u < q.n(); ++u) q.vw[u] = r.vw[u];
      if (!top) q.vw[0] += r.vw[left - 1];
      Graph cg = mkgraph(q);
      PartitionedGraph pg(PartitionedGraph::seq{}, cg, ck, StaticArray<BlockID>(q.n(), kaminpar::static_array::seq));
      const PartitionContext pc = pt::create_kway_context(ctx, pg);
      MC_CHECK(pc.k == ck, "k of the context");
      for (BlockID b = 0; b < ck; ++b) {
        long sum = 0;
        for (BlockID f = s[b]; f < s[b + 1]; ++f) sum += lim[f];
        const std::string at = " graph " + r.str() + " k=" + std::to_string(k) + " current=" + std::to_string(ck) + " block=" + std::to_string(b) +
                               (li.uniform ? " eps=" + std::to_string(li.eps) : " limits " + vec(lim)) + " removed=" + std::to_string(removed) + (top ? " top" : " coarse") + ": " + std::to_string(pc.max_block_weight(b));
        double lo, hi;
        if (li.uniform) { // (1 + eps) times the rounded-up proportional share
          const double share = std::ceil(static_cast<double>(l[b]) * W / k);
          const double f = (1.0 + li.eps) * std::ceil(1.0 * r.total_vw() / k) / std::ceil(1.0 * W / k);
          lo = std::max(share, std::floor(f * share - 1e-6));
          hi = f * share + 1e-6;
        } else {
          lo = hi = static_cast<double>(sum);
        }
        if (!top) {
          MC_CHECK(pc.max_block_weight(b) >= lo - 1e-6, "limit too small" + at);
          MC_CHECK(pc.max_block_weight(b) <= hi + static_cast<double>(cg.max_node_weight()) + 1, "limit too large" + at);
        } else {
          MC_CHECK(pc.max_block_weight(b) >= lo - 1e-6, "limit too small" + at);
          MC_CHECK(pc.max_block_weight(b) <= hi + 1e-6, "limit too large" + at);
        }
      }
    }
    if (ck == k) break;
  }
}

void twoway_limits(const RefGraph &r, BlockID k, const Limits &li, bool adaptive) {
  Graph g = mkgraph(r);
  Context ctx = base_ctx();
  ctx.initial_partitioning.use_adaptive_epsilon = adaptive;
  std::vector<long> lim;
  setup(ctx, g, k, li, lim);
  for (BlockID ck = 1; ck < k; ck *= 2) {
    const auto l = level(k, ck);
    const auto s = starts(l);
    for (BlockID b = 0; b < ck; ++b) {
      if (l[b] < 2) continue;
      for (int parts = 1; parts <= 3; ++parts) { // weight of the block: average, lighter, heavier
        mc::count_case();
        const int want = std::max(1, static_cast<int>(r.n() * static_cast<long>(l[b]) * (parts == 1 ? 4 : parts == 2 ? 3 : 5) / (4l * k)));
        RefGraph q(std::min(want, r.n()));
        for (int u = 0; u < q.n(); ++u) q.vw[u] = r.vw[u];
        CSRGraph cg = csr(q);
        const PartitionContext pc = pt::create_twoway_context(ctx, b, ck, cg);
        const BlockID k0 = l[b] - l[b] / 2;
        long sum[2] = {0, 0};
        for (BlockID f = s[b]; f < s[b + 1]; ++f) sum[f >= s[b] + k0] += lim[f];
        const double qw = static_cast<double>(q.total_vw()), tot = static_cast<double>(sum[0] + sum[1]);
        MC_CHECK(pc.k == 2, "bipartition");
        for (int i = 0; i < 2; ++i) {
          const std::string at = " k=" + std::to_string(k) + " current=" + std::to_string(ck) + " block=" + std::to_string(b) + " side " + std::to_string(i) + (adaptive ? " adaptive" : "") +
                                 (li.uniform ? " eps=" + std::to_string(li.eps) : " limits " + vec(lim)) + " block weight " + std::to_string(q.total_vw()) + ": " + std::to_string(pc.max_block_weight(i)) + " sums " + std::to_string(sum[0]) + "," + std::to_string(sum[1]);
          double lo = static_cast<double>(sum[i]), hi = lo;
          if (li.uniform && adaptive) {
            const double base = (1.0 + li.eps) * l[b] * r.total_vw() / k / qw;
            // the rounded-up average block weight enters the adapted imbalance: allow for both roundings
            const double base_hi = (1.0 + li.eps) * std::ceil(1.0 * r.total_vw() / k) * l[b] / qw;
            const double e = 1.0 / std::ceil(std::log2(l[b]));
            lo = std::max(1.0001, std::pow(base, e)) * qw * sum[i] / tot - 1 - 1e-6;
            hi = std::max(1.0001, std::pow(base_hi, e)) * qw * sum[i] / tot + 1e-6;
          }
          MC_CHECK(pc.max_block_weight(i) >= lo - 1e-6, "limit of a side too small" + at);
          const double share = qw * sum[i] / tot; // relaxed by at most one vertex above the proportional share
          MC_CHECK(pc.max_block_weight(i) <= std::max(hi, share + 2 + static_cast<double>(cg.max_node_weight())) + 1e-6, "limit of a side too large" + at);
          MC_CHECK(pc.max_block_weight(i) >= share - 1 || tot < qw, "proportional share does not fit" + at);
        }
      }
    }
  }
}

// ---------------------------------------------------------------- extending partitions
struct Pools {
  pt::SubgraphMemoryEts mem;
  pt::TemporarySubgraphMemoryEts tmp;
  graph::SubgraphMemory flat;
};

void check_extended(const RefGraph &r, const std::vector<BlockID> &before, const PartitionedGraph &pg, const std::vector<BlockID> &ranges, BlockID dk, const std::string &what) {
  MC_CHECK(pg.k() == dk, what + " ends with " + std::to_string(pg.k()) + " blocks");
  std::vector<long> w(dk, 0);
  for (int u = 0; u < r.n(); ++u) {
    const BlockID nb = pg.block(u), ob = before[u];
    if (nb >= dk) mc::fail(what + ": vertex " + std::to_string(u) + " in block " + std::to_string(nb));
    if (nb < ranges[ob] || nb >= ranges[ob + 1]) mc::fail(what + ": vertex " + std::to_string(u) + " moved from block " + std::to_string(ob) + " to " + std::to_string(nb) + " outside of its range");
    w[nb] += r.vw[u];
  }
  for (BlockID b = 0; b < dk; ++b) MC_CHECK(pg.block_weight(b) == w[b], what + ": block weight");
}

// ranges of the blocks of level ck within level dk (in units of blocks of level dk)
std::vector<BlockID> ranges_between(BlockID k, BlockID ck, BlockID dk) {
  std::vector<BlockID> l(ck);
  if (dk == k) l = level(k, ck);
  else for (auto &x : l) x = dk / ck;
  return starts(l);
}

void extend_chain(const RefGraph &r, BlockID k, const std::vector<BlockID> &chain, int variant, int threads, const Limits &li, int initial) {
  mc::count_case();
  kv::reseed(0);
  Graph g = mkgraph(r);
  Context ctx = base_ctx();
  ctx.parallel.num_threads = threads;
  ctx.partitioning.min_consecutive_seq_bipartitioning_levels = variant == 2 ? 0 : 1;
  std::vector<long> lim;
  setup(ctx, g, k, li, lim);
  InitialBipartitionerWorkerPool pool(ctx);
  Pools p;
  if (variant == 1) p.flat.resize(g.n(), k, g.m(), g.is_node_weighted(), g.is_edge_weighted());
  const BlockID k0 = chain[0];
  StaticArray<BlockID> part(r.n(), kaminpar::static_array::seq);
  for (int u = 0; u < r.n(); ++u) part[u] = initial == 0 ? static_cast<BlockID>(static_cast<long>(u) * k0 / r.n()) : initial == 1 ? u % k0 : (k0 - 1);
  PartitionedGraph pg(PartitionedGraph::seq{}, g, k0, std::move(part));
  for (size_t i = 1; i < chain.size(); ++i) {
    std::vector<BlockID> before(r.n());
    for (int u = 0; u < r.n(); ++u) before[u] = pg.block(u);
    const BlockID ck = pg.k(), dk = chain[i];
    if (variant == 1) pt::extend_partition(pg, dk, ctx, p.flat, p.tmp, pool, threads);
    else if (variant == 3) pt::extend_partition(pg, dk, ctx, p.tmp, pool, threads);
    else pt::extend_partition_lazy_extraction(pg, dk, ctx, p.mem, p.tmp, pool, threads);
    check_extended(r, before, pg, ranges_between(k, ck, dk), dk, "extend variant " + std::to_string(variant) + " k=" + std::to_string(k) + " " + std::to_string(ck) + "->" + std::to_string(dk) + " threads " + std::to_string(threads) + " on " + r.str());
  }
}

// Different graphs extended with the same memory pools, as along a multilevel hierarchy.
void shared_pools(const RefGraph &coarse, const RefGraph &fine, BlockID k, bool lazy) {
  mc::count_case();
  kv::reseed(0);
  Graph gc = mkgraph(coarse), gf = mkgraph(fine);
  Context ctx = base_ctx();
  std::vector<long> lim;
  setup(ctx, gf, k, {true, 0.1, 0}, lim);
  InitialBipartitionerWorkerPool pool(ctx);
  Pools p;
  BlockID from = 1;
  for (const auto &[r, g] : {std::pair<const RefGraph &, const Graph &>(coarse, gc), {fine, gf}}) {
    StaticArray<BlockID> part(r.n(), kaminpar::static_array::seq);
    for (int u = 0; u < r.n(); ++u) part[u] = static_cast<BlockID>(static_cast<long>(u) * from / r.n());
    std::vector<BlockID> before(part.begin(), part.end());
    PartitionedGraph pg(PartitionedGraph::seq{}, g, from, std::move(part));
    const BlockID dk = from == 1 ? 2 : k;
    pt::extend_partition_lazy_extraction(pg, dk, ctx, p.mem, p.tmp, pool, 1);
    check_extended(r, before, pg, ranges_between(k, from, dk), dk, "shared pools: " + coarse.str() + " then " + r.str() + " k=" + std::to_string(k));
    from = 2;
  }
}

// Partially split levels: 2^L + e blocks, the first e blocks of level L already split.
bool consistent_partial(BlockID ck, BlockID k) {
  BlockID L = 1;
  while (L * 2 <= ck) L *= 2;
  const auto l = level(k, L);
  for (BlockID b = 0; b < ck - L; ++b)
    if (l[b] < 2) return false;
  return true;
}
void partial_levels() {
  // V-cycles hand partitions with any number of blocks to the deep scheme, which then computes block
  // limits (create_kway_context) from the number of final blocks of each of these blocks.
  for (auto [ck, k] : {std::pair<BlockID, BlockID>{5, 8}, {6, 16}, {10, 11}}) {
    BlockID sum = 0;
    for (BlockID b = 0; b < ck; ++b) sum += pt::compute_final_k(b, ck, k);
    if (sum != k)
      mc::finding("partial-level-" + std::to_string(ck) + "-of-" + std::to_string(k), "the " + std::to_string(ck) + " blocks of a v-cycle step stand for " + std::to_string(sum) + " instead of " + std::to_string(k) + " final blocks");
  }
}

// A partition with 2^L + e blocks (the first e blocks of level L already split) is completed.
void complete_partial(const RefGraph &r, BlockID ck, BlockID k) {
  mc::count_case();
  kv::reseed(0);
  if (ck < k && !consistent_partial(ck, k)) return; // see partial_levels()
  Graph g = mkgraph(r);
  Context ctx = base_ctx();
  std::vector<long> lim;
  setup(ctx, g, k, {true, 0.1, 0}, lim);
  InitialBipartitionerWorkerPool pool(ctx);
  Pools p;
  StaticArray<BlockID> part(r.n(), kaminpar::static_array::seq);
  for (int u = 0; u < r.n(); ++u) part[u] = u % ck;
  std::vector<BlockID> before(part.begin(), part.end());
  PartitionedGraph pg(PartitionedGraph::seq{}, g, ck, std::move(part));
  pt::complete_partial_extend_partition(pg, ctx, p.mem, p.tmp, pool);
  BlockID L = 1;
  while (L * 2 <= ck) L *= 2;
  if (ck == k || L == ck) {
    for (int u = 0; u < r.n(); ++u) MC_CHECK(pg.block(u) == before[u], "nothing to complete");
    return;
  }
  const BlockID e = ck - L, dk = std::min(2 * L, k);
  const auto l = level(k, L);
  std::vector<BlockID> len(ck);
  for (BlockID b = 0; b < ck; ++b) len[b] = b < 2 * e ? 1 : std::min<BlockID>(2, l[b - e]);
  const auto rg = starts(len);
  check_extended(r, before, pg, rg, dk, "complete " + std::to_string(ck) + " towards " + std::to_string(k) + " on " + r.str());
}
} // namespace

void mc_main() {
  kaminpar::Logger::set_quiet_mode(true);
  const bool T = mc::thorough();
  const BlockID kmax = T ? 8192 : 2048;
  for (BlockID k0 = 1; k0 <= kmax; k0 += 64)
    mc::run("tables k=" + std::to_string(k0), [&] { for (BlockID k = k0; k < k0 + 64 && k <= kmax; ++k) tables(k); });
  for (BlockID k : {4095u, 4096u, 4097u, 10000u, 65535u, 65536u, 65537u, 100000u, (1u << 17) - 1, (1u << 20) + 1})
    mc::run("tables k=" + std::to_string(k), [&] { tables(k); });
  mc::run("next_k", [&] { for (BlockID k = 1; k <= 70; ++k) next_k(k); });

  mc::run("partial levels", partial_levels);

  std::vector<RefGraph> ws;
  ws.push_back(empty(64));
  ws.push_back(empty(37));
  ws.push_back(with_weights(empty(40), 1));
  ws.push_back(with_weights(empty(50), 4));
  std::vector<Limits> lis{{true, 0.0, 0}, {true, 0.03, 0}, {true, 0.1, 0}, {true, 0.5, 0}, {true, 2.0, 0}, {false, 0, 0}, {false, 0, 1}, {false, 0, 2}};
  for (auto &w : ws)
    for (auto &li : lis) {
      mc::run("limits " + w.name + (li.uniform ? " eps " + std::to_string(li.eps) : " menu " + std::to_string(li.kind)), [&] {
        for (BlockID k = 2; k <= (T ? 200u : 70u); ++k) {
          for (long rem : {0l, 1l, 3l, static_cast<long>(w.n()) / 3}) kway_limits(w, k, li, rem);
          for (bool a : {false, true}) twoway_limits(w, k, li, a);
        }
      });
    }

  std::vector<RefGraph> gs{path(12), grid(4, 5), star(9), empty(7), disjoint(clique(5), empty(4)), caveman(4, 4), prand(20, 4, 1), matching(10), path(3), with_weights(grid(4, 4), 3), with_weights(caveman(3, 5), 5), with_weights(prand(18, 5, 2), 4)};
  for (auto &g : gs)
    for (int var = 0; var < 4; ++var)
      mc::run("extend " + g.name + " v" + std::to_string(var), [&] {
        for (BlockID k = 2; k <= (T ? 33u : 17u); ++k)
          for (int init = 0; init < 3; ++init) {
            std::vector<std::vector<BlockID>> chains{{1, k}};
            std::vector<BlockID> full{1};
            while (full.back() * 2 < k) full.push_back(full.back() * 2);
            full.push_back(k);
            if (full.size() > 2) chains.push_back(full);
            if (k > 4) { chains.push_back({1, 4, k}); chains.push_back({2, k}); chains.push_back({4, k}); }
            if (k > 8) chains.push_back({2, 8, k});
            for (auto &c : chains)
              for (int th : {1, 4}) {
                extend_chain(g, k, c, var, th, {true, 0.03, 0}, init);
                if (k <= 7) extend_chain(g, k, c, var, th, {false, 0, 1}, init);
              }
          }
      });
  for (auto &g : gs)
    mc::run("complete " + g.name, [&] {
      for (BlockID k = 2; k <= (T ? 40u : 20u); ++k)
        for (BlockID ck = 1; ck <= k; ++ck) complete_partial(g, ck, k);
    });
  // coarse graphs without weights of their own, finer graphs with weights, and the other way around
  std::vector<RefGraph> cs{clique(12), grid(4, 5), prand(24, 8, 3), path(30), empty(30)};
  std::vector<RefGraph> fs{with_weights(clique(12), 2), with_weights(prand(40, 4, 5), 2), with_weights(prand(30, 3, 5), 3), with_weights(path(20), 1), with_weights(grid(5, 5), 3), clique(10), caveman(5, 5)};
  for (auto &c : cs)
    for (auto &f : fs)
      for (int w : {0, 1, 2, 3})
        mc::run("pools " + c.name + " " + f.name + " w" + std::to_string(w), [&] {
          for (BlockID k : {3u, 4u, 6u, 8u}) shared_pools(with_weights(c, w), f, k, true);
        });
}
