// C16: the balancer. Sequential part: every graph, partition, limit of a menu, reused balancers, tracked gain caches. Concurrent part: every schedule.
#include "refine.h"

#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/refinement/adapters/mtkahypar_refiner.h"
#include "kaminpar-shm/refinement/balancer/greedy_balancer.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"

using namespace kv;
using kaminpar::shm::GreedyBalancer;
using kaminpar::shm::NormalSparseGainCache;
using kv::limits;
using kv::Rep;

namespace {
Context context_for(const Rep &rep, int k) {
  Context c = kaminpar::shm::create_default_context();
  rep.graph.reified([&](const auto &g) { c.partition.setup(g, static_cast<BlockID>(k), 0.03, false); });
  return c;
}

State one(GreedyBalancer &balancer, const Context &ctx, const Rep &rep, int k, const std::vector<long> &limit, const PartitionContext &pc, const std::vector<int> &p0, bool track, const std::string &at) {
  const std::string here = at + show(rep, k, p0, limit);
  PartitionedGraph p = partitioned(rep, k, p0);
  State before;
  std::optional<NormalSparseGainCache<Graph>> cache;
  {
    mc::RtGuard guard;
    before = snapshot(rep, p, k, limit, here);
    if (rep.ref.n() <= 30) mc::label(here);
    if (track) {
      cache.emplace(ctx, static_cast<NodeID>(rep.ref.n()), static_cast<BlockID>(k));
      cache->initialize(rep.graph, p);
    }
  }
  balancer.initialize(p);
  balancer.track_moves(track ? &*cache : nullptr);
  const bool done = balancer.refine(p, pc);
  mc::RtGuard guard;
  const State after = snapshot(rep, p, k, limit, here);
  const std::string to = here + " -> " + vec(after.part);
  if (before.overload == 0) MC_CHECK(after.part == before.part, "a partition without overload was changed" + to);
  for (int b = 0; b < k; ++b) {
    if (before.weight[b] > limit[b]) MC_CHECK(after.weight[b] <= before.weight[b], "overloaded block " + std::to_string(b) + " grew from " + std::to_string(before.weight[b]) + " to " + std::to_string(after.weight[b]) + to);
    else MC_CHECK(after.weight[b] <= limit[b] && after.weight[b] >= before.weight[b], "block " + std::to_string(b) + " with room went from " + std::to_string(before.weight[b]) + " to " + std::to_string(after.weight[b]) + to);
  }
  MC_CHECK(done == (after.overload == 0), std::string("the balancer reports ") + (done ? "success" : "failure") + " with overload " + std::to_string(after.overload) + to);
  const bool unit = rep.ref.total_vw() == rep.ref.n();
  if (unit && std::accumulate(limit.begin(), limit.end(), 0l) >= rep.ref.total_vw()) MC_CHECK(after.overload == 0, "overload " + std::to_string(after.overload) + " is left although single vertices could be moved" + to);
  if (track)
    for (int u = 0; u < rep.ref.n(); ++u) {
      std::vector<long> conn(k, 0);
      for (auto [v, w] : rep.ref.adj[u]) conn[after.part[v]] += w;
      for (int b = 0; b < k; ++b)
        MC_CHECK(static_cast<long>(cache->conn(static_cast<NodeID>(u), static_cast<BlockID>(b))) == conn[b], "the tracking gain cache has connection " + std::to_string(cache->conn(static_cast<NodeID>(u), static_cast<BlockID>(b))) + " of vertex " + std::to_string(u) + " to block " + std::to_string(b) + ", it is " + std::to_string(conn[b]) + to);
    }
  return after;
}

// limits: those of the refiners and sums around the total weight
std::vector<std::vector<long>> menu(const RefGraph &r, int k) {
  auto v = limit_menu(r, k);
  std::set<std::vector<long>> s(v.begin(), v.end());
  const long t = r.total_vw();
  std::vector<long> exact(k, t / k); // sums to the total
  for (int b = 0; b < t % k; ++b) ++exact[b];
  s.insert(exact);
  std::reverse(exact.begin(), exact.end());
  s.insert(exact);
  if (t > 2 * k) {
    std::vector<long> steep(k, 1);
    steep[k / 2] = t - (k - 1);
    s.insert(steep);
    std::vector<long> uneven(k);
    long left = t;
    for (int b = 0; b < k; ++b) uneven[b] = b + 1 == k ? left : std::max(1l, left / 2), left -= uneven[b];
    if (left >= 0 && *std::min_element(uneven.begin(), uneven.end()) > 0) s.insert(uneven);
  }
  return {s.begin(), s.end()};
}
std::vector<RefGraph> structured() {
  return {path(40), cycle(33), star(40), clique(12), grid(8, 8), grid(3, 13), caveman(5, 5), matching(30), empty(12), disjoint(grid(5, 5), empty(9)), disjoint(star(9), cycle(12)), prand(65, 6, 1), prand(130, 4, 2), prand(300, 5, 3), scattered(caveman(12, 6)), star(500)};
}

#if !defined(__SANITIZE_THREAD__)
void sequential() {
  const bool deep = mc::thorough();
  const int N = deep ? 7 : 6;
  for (int n = 1; n <= N; ++n)
    for (int wk = 0; wk < 6; ++wk)
      for (int k = 2; k <= (n <= 4 ? 4 : 3); ++k)
        for (int track = 0; track < 2; ++track) {
          if (n == 7 && k == 3) continue;
          mc::run("balance n=" + std::to_string(n) + " w" + std::to_string(wk) + " k=" + std::to_string(k) + (track ? " tracked" : ""), [&, n, wk, k, track] {
            int i = 0;
            for (uint32_t mask : iso_classes(n)) {
              const Rep rep = rep_of(with_weights(by_mask(n, mask), wk), i++ % 3);
              const RefGraph &r = rep.ref;
              const Context ctx = context_for(rep, k);
              GreedyBalancer balancer(ctx);
              const auto lims = menu(r, k);
              std::vector<PartitionContext> pcs;
              for (auto &l : lims) pcs.push_back(limits(rep, l));
              std::vector<int> p(r.n(), 0);
              int j = 0;
              for (bool more = true; more; next_assignment(p, k, more))
                for (size_t l = 0; l < lims.size(); ++l) {
                  ++j;
                  if (n == 6 && !deep && k == 3 && j % 7) continue;
                  if (n == 6 && !deep && (j / 7) % 2 && track) continue;
                  mc::count_case();
                  reseed(j % 3);
                  one(balancer, ctx, rep, k, lims[l], pcs[l], p, track, "");
                }
            }
          });
        }
  for (int k : {2, 3, 5, 8, 20, 64})
    for (int order = 0; order < 2; ++order)
      for (int kind = 0; kind < 3; ++kind)
        mc::run("chain k=" + std::to_string(k) + "/" + std::to_string(order) + "/" + std::to_string(kind), [&, k, order, kind] {
          auto gs = structured();
          std::stable_sort(gs.begin(), gs.end(), [&](auto &a, auto &b) { return order ? a.n() > b.n() : a.n() < b.n(); });
          for (int wk = 0; wk < 6; ++wk) {
            const Rep first = rep_of(with_weights(star(500), wk), 0);
            const Context ctx = context_for(first, k);
            GreedyBalancer balancer(ctx);
            for (auto &g : gs) {
              const Rep rep = rep_of(with_weights(g, wk), kind);
              int j = 0;
              for (auto &l : menu(rep.ref, k)) {
                const auto pc = limits(rep, l);
                for (int st = 0; st < 6; ++st)
                  for (int seed = 0; seed < (deep ? 6 : 1); ++seed) {
                    mc::count_case();
                    reseed(++j);
                    const auto a = one(balancer, ctx, rep, k, l, pc, start(rep.ref, k, st), j % 3 == 0, " start " + std::to_string(st));
                    if (st == 2) one(balancer, ctx, rep, k, l, pc, a.part, j % 2, " again");
                  }
              }
            }
          }
        });
  // the smaller k of coarse levels with a balancer prepared for the final k
  mc::run("fewer blocks", [] {
    const Rep rep = rep_of(prand(65, 6, 1), 0);
    const Context ctx = context_for(rep, 40);
    GreedyBalancer balancer(ctx);
    for (int k : {40, 2, 7, 3, 40, 16})
      for (auto &l : menu(rep.ref, k)) {
        const auto pc = limits(rep, l);
        for (int st = 0; st < 6; ++st) {
          mc::count_case();
          one(balancer, ctx, rep, k, l, pc, start(rep.ref, k, st), st % 2, " start " + std::to_string(st));
        }
      }
  });
  for (int workers : {2, 3, 4})
    for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
      mc::Config c;
      c.workers = workers, c.assign = as;
      mc::explore("workers " + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, workers] {
        for (auto &g : structured())
          for (int wk : {0, 3})
            for (int k : {2, 4, 7}) {
              const Rep rep = rep_of(with_weights(g, wk), (k + wk) % 3);
              reseed(k);
              const Context ctx = context_for(rep, k);
              GreedyBalancer balancer(ctx);
              for (auto &l : menu(rep.ref, k)) {
                const auto pc = limits(rep, l);
                for (int st = 0; st < 6; ++st) {
                  mc::count_case();
                  one(balancer, ctx, rep, k, l, pc, start(rep.ref, k, st), st % 2, " divided");
                }
              }
            }
      });
    }
}
#else
void concurrent() {
  const bool deep = mc::thorough();
  struct In {
    RefGraph g;
    int k;
    std::vector<int> p;
    std::vector<long> limit;
  };
  const std::vector<In> ins = {
      {path(6), 3, {0, 0, 0, 1, 1, 1}, {2, 2, 2}},
      {path(7), 3, {0, 0, 0, 1, 1, 1, 1}, {3, 3, 3}},
      {cycle(6), 3, {0, 1, 0, 1, 0, 1}, {2, 2, 2}},
      {star(7), 4, {0, 0, 0, 1, 1, 1, 2}, {2, 2, 2, 2}},
      {with_weights(caveman(2, 3), 3), 3, {0, 1, 0, 1, 0, 1}, {6, 7, 9}},
      {with_weights(path(6), 3), 3, {0, 0, 0, 1, 1, 1}, {5, 5, 5}},
      {clique(5), 4, {0, 0, 1, 1, 1}, {1, 1, 2, 2}},
      {matching(6), 4, {0, 0, 1, 1, 0, 1}, {2, 2, 1, 1}},
      {empty(6), 4, {0, 0, 0, 2, 2, 2}, {1, 3, 1, 1}},
      {empty(8), 4, {0, 0, 1, 1, 2, 2, 2, 1}, {2, 2, 2, 2}},
      {with_weights(grid(2, 4), 3), 4, {0, 0, 1, 1, 0, 0, 1, 1}, {5, 6, 4, 5}},
      {with_weights(star(6), 2), 3, {0, 0, 0, 1, 1, 1}, {3, 3, 3}},
  };
  int i = 0;
  for (auto &in : ins)
    for (int kind = 0; kind < 3; ++kind)
      for (int track = 0; track < 2; ++track)
        for (int threads : {2, 3}) {
          ++i;
          mc::Config cfg;
          cfg.workers = threads;
          cfg.preemptions = (threads == 2 ? 3 : 2) + (deep ? 1 : 0);
          cfg.assign = (i / 2) % 2 ? mc::Assign::RoundRobin : mc::Assign::Mirrored;
          cfg.max_exec = deep ? 2000000 : 200000;
          cfg.monitor_locals = false;
          mc::explore("mt " + std::to_string(i) + " " + in.g.name + "/" + std::to_string(kind) + (track ? " tracked" : "") + " T" + std::to_string(threads), cfg, [&] {
            reseed(i % 3);
            std::optional<Rep> rep;
            Context ctx;
            PartitionContext pc;
            {
              mc::RtGuard guard;
              rep.emplace(rep_of(in.g, kind));
              ctx = context_for(*rep, in.k);
              pc = limits(*rep, in.limit);
            }
            std::vector<int> p(in.p.begin(), in.p.begin() + rep->ref.n());
            GreedyBalancer balancer(ctx);
            one(balancer, ctx, *rep, in.k, in.limit, pc, p, track, "");
          });
        }
}
#endif
} // namespace

void mc_main() {
  mc::watchdog(60);
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
