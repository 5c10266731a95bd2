// C31: contracting a clustering of a distributed graph yields exactly the quotient graph, and projecting a partition of
// the coarse graph gives every vertex the block of its cluster.
#include "dist.h"

#include "kaminpar-dist/coarsening/contraction/global_cluster_contraction.h"
#include "kaminpar-dist/coarsening/contraction/local_cluster_contraction.h"
#include "kaminpar-dist/context.h"
#include "kaminpar-dist/presets.h"

using namespace kd;

namespace {
struct Mode {
  double imbalance;
  bool prefix, perfect;
  std::string str() const { return imbalance > 1e9 ? "" : " imbalance " + std::to_string(imbalance) + (prefix ? " prefix" : "") + (perfect ? " perfect" : ""); }
};
const Mode kNatural{std::numeric_limits<double>::max(), false, true};

// label[u]: a global vertex (global contraction) or local vertex of u's rank (local contraction)
void contract(const RefGraph &g, const Spread &s, const bool comp, const std::vector<int> &label, const bool local, const Mode &mode, const Options &o = {}) {
  const std::string where = g.str() + " " + str(s) + (comp ? " compressed" : "") + (local ? " local" : "") + " clusters " + kv::vec(label) + mode.str();
  mc::label(where);
  const int p = static_cast<int>(s.size()) - 1;
  std::vector<long> coarse_of(static_cast<size_t>(g.n()), -1);
  RefGraph all;
  kv_mpi::run(p, true, false, [&](const int rank) {
    Random::reseed(0);
    const DistributedGraph graph = make(g, s, comp, o);
    std::unique_ptr<CoarseGraph> coarse;
    if (local) {
      StaticArray<NodeID> c(graph.n());
      for (NodeID u = 0; u < graph.n(); ++u) c[u] = static_cast<NodeID>(label[static_cast<size_t>(s[rank]) + u]);
      coarse = contract_local_clustering(graph, c);
    } else {
      StaticArray<GlobalNodeID> c(graph.total_n());
      for (NodeID u = 0; u < graph.total_n(); ++u) c[u] = static_cast<GlobalNodeID>(label[static_cast<size_t>(graph.local_to_global_node(u))]);
      coarse = contract_clustering(graph, c, mode.imbalance, mode.prefix, mode.perfect);
    }
    const DistributedGraph &cg = coarse->get();
    collect(cg, all);
    well_formed(cg, all, where + " (coarse graph)");
    // Recover the mapping by projecting a partition into single coarse vertices, then project two others
    for (int round = 0; round < 3; ++round) {
      StaticArray<BlockID> cp(cg.total_n()), fp(graph.total_n());
      const auto block = [&](const long c) { return static_cast<BlockID>(round == 0 ? c : round == 1 ? c % 2 : (7 * c + 3) % 5); };
      for (NodeID u = 0; u < cg.total_n(); ++u) cp[u] = block(static_cast<long>(cg.local_to_global_node(u)));
      for (NodeID u = 0; u < graph.total_n(); ++u) fp[u] = 12345;
      coarse->project(cp, fp);
      if (round == 0)
        for (NodeID u = 0; u < graph.n(); ++u) {
          coarse_of[static_cast<size_t>(graph.local_to_global_node(u))] = static_cast<long>(fp[u]);
          MC_CHECK(fp[u] < cg.global_n(), where + ": vertex " + std::to_string(graph.local_to_global_node(u)) + " is mapped to " + std::to_string(fp[u]));
        }
      kmpi::barrier(MPI_COMM_WORLD);
      for (NodeID u = 0; u < graph.total_n(); ++u) {
        const BlockID want = block(coarse_of[static_cast<size_t>(graph.local_to_global_node(u))]);
        MC_CHECK(fp[u] == want, where + ": projection " + std::to_string(round) + " gives vertex " + std::to_string(graph.local_to_global_node(u)) + (u < graph.n() ? "" : " (ghost)") + " block " + std::to_string(fp[u]) + " instead of " + std::to_string(want));
      }
    }
  });
  // Same coarse vertex iff same cluster
  std::map<std::pair<int, int>, long> id;
  std::set<long> used;
  for (int u = 0; u < g.n(); ++u) {
    const std::pair<int, int> key{local ? owner(s, u) : 0, label[u]};
    const auto [it, fresh] = id.emplace(key, coarse_of[u]);
    MC_CHECK(it->second == coarse_of[u], where + ": vertices of one cluster are in different coarse vertices");
    if (fresh) MC_CHECK(used.insert(coarse_of[u]).second, where + ": two clusters in one coarse vertex");
  }
  MC_CHECK(static_cast<int>(used.size()) == all.n(), where + ": " + std::to_string(all.n()) + " coarse vertices for " + std::to_string(used.size()) + " clusters");
  RefGraph want(all.n());
  std::vector<long> vw(static_cast<size_t>(all.n()), 0);
  std::map<std::pair<long, long>, long> ew;
  for (int u = 0; u < g.n(); ++u) {
    vw[coarse_of[u]] += g.vw[u];
    for (auto [v, w] : g.adj[u])
      if (coarse_of[u] != coarse_of[v]) ew[{coarse_of[u], coarse_of[v]}] += w;
  }
  size_t edges = 0;
  for (int c = 0; c < all.n(); ++c) {
    MC_CHECK(all.vw[c] == vw[c], where + ": coarse vertex " + std::to_string(c) + " weighs " + std::to_string(all.vw[c]) + " instead of " + std::to_string(vw[c]));
    std::set<int> seen;
    for (auto [d, w] : all.adj[c]) {
      ++edges;
      MC_CHECK(seen.insert(d).second, where + ": coarse edge " + std::to_string(c) + "-" + std::to_string(d) + " exists twice");
      const auto it = ew.find({c, d});
      MC_CHECK(it != ew.end() && it->second == w, where + ": coarse edge " + std::to_string(c) + "-" + std::to_string(d) + " weighs " + std::to_string(w));
    }
  }
  MC_CHECK(edges == ew.size(), where + ": coarse edges are missing");
  mc::count_case();
}

std::vector<int> labels(const int n, long code) {
  std::vector<int> l(static_cast<size_t>(n));
  for (int u = 0; u < n; ++u, code /= n) l[u] = static_cast<int>(code % n);
  return l;
}
long power(const int n) {
  long r = 1;
  for (int i = 0; i < n; ++i) r *= n;
  return r;
}
const std::vector<Mode> kModes{kNatural, {1.0, false, true}, {1.0, true, true}, {1.1, false, false}, {1.5, true, false}, {1.0, true, false}};
} // namespace

void mc_main() {
  const bool deep = mc::thorough();
  kaminpar::Logger::set_quiet_mode(true);
  // Every graph, every labelling with global vertices, every distribution
  for (int n = 0; n <= 3; ++n)
    for (int p = 1; p <= (deep ? 4 : 3); ++p)
      for (int kind : {0, 3})
        mc::run("all n=" + std::to_string(n) + " p=" + std::to_string(p) + " w" + std::to_string(kind), [&] {
          for (uint32_t mask = 0; mask < kv::num_masks(n); ++mask) {
            const RefGraph g = kv::with_weights(kv::by_mask(n, mask), kind);
            for (const Spread &s : spreads(n, p))
              for (long code = 0; code < power(n); ++code)
                for (size_t m = 0; m < kModes.size(); ++m) {
                  if (!deep && m && (mask + static_cast<size_t>(code)) % (kModes.size() - 1) != m - 1) continue;
                  contract(g, s, (code + mask) % 2, labels(n, code), false, kModes[m]);
                }
          }
        });
  for (int p = 2; p <= 3; ++p)
    for (int part = 0; part < 4; ++part)
      mc::run("all n=4 p=" + std::to_string(p) + " part " + std::to_string(part), [&] {
        const auto classes = kv::iso_classes(4);
        int i = 0;
        for (const auto mask : classes) {
          const RefGraph g = kv::with_weights(kv::by_mask(4, mask), mask % 2 ? 3 : 0);
          for (const Spread &s : spreads(4, p))
            for (long code = 0; code < 256; ++code)
              if (++i % 4 == part && (deep || p == 2 || i % 12 == part)) contract(g, s, code % 2, labels(4, code), false, kModes[static_cast<size_t>(code / 2) % kModes.size()]);
        }
      });
  // Local clusterings
  for (int n = 0; n <= 4; ++n)
    for (int p = 1; p <= 3; ++p)
      for (uint32_t part = 0; part < (n == 4 ? 8u : 1u); ++part)
      mc::run("local n=" + std::to_string(n) + " p=" + std::to_string(p) + " part " + std::to_string(part), [&] {
        for (uint32_t mask = part; mask < kv::num_masks(n); mask += n == 4 ? 8 : 1)
          for (const Spread &s : spreads(n, p))
            for (long code = 0; code < power(n); ++code) {
              const auto l = labels(n, code);
              bool ok = true;
              for (int u = 0; u < n; ++u) {
                const int r = owner(s, u);
                ok = ok && l[u] < s[r + 1] - s[r];
              }
              if (!ok || (n == 4 && !deep && code % 3)) continue;
              for (const bool comp : {false, true})
                if (deep || n < 4 || comp == (code % 2 == 1)) contract(kv::with_weights(kv::by_mask(n, mask), code % 3 == 1 ? 3 : 0), s, comp, l, true, kNatural);
            }
      });
  // Structured graphs on more ranks
  const std::vector<RefGraph> menu{kv::path(12), kv::cycle(9), kv::star(14), kv::clique(7), kv::grid(4, 5), kv::caveman(4, 4), kv::prand(20, 40, 3), kv::disjoint(kv::clique(4), kv::path(5)), kv::empty(6)};
  for (size_t i = 0; i < menu.size(); ++i)
    mc::run("menu " + std::to_string(i), [&] {
      for (int kind : {0, 1, 2, 3}) {
        const RefGraph g = kv::with_weights(menu[i], kind);
        const int n = g.n();
        for (int p = 1; p <= 6; ++p)
          for (const Spread &s : some_spreads(n, p))
            for (int how = 0; how < 8; ++how) {
              std::vector<int> l(static_cast<size_t>(n));
              for (int u = 0; u < n; ++u)
                switch (how) {
                case 0: l[u] = u; break;
                case 1: l[u] = n - 1; break;
                case 2: l[u] = u / 2 * 2; break;
                case 3: l[u] = u % 3; break;
                case 4: l[u] = n - 1 - u % 4; break;
                case 5: l[u] = static_cast<int>(kv::hash64(static_cast<uint64_t>(u)) % static_cast<uint64_t>(n)); break;
                case 6: l[u] = n - 1 - u / 3; break;
                default: l[u] = g.adj[u].empty() ? u : std::min(u, g.adj[u][0].first); break;
                }
              for (size_t m = 0; m < kModes.size(); ++m) {
                if (!deep && m && m != 1 + static_cast<size_t>(how + p) % (kModes.size() - 1)) continue;
                contract(g, s, (how + p) % 2, l, false, kModes[m], {.node_weights = kind == 0 && how == 2, .edge_weights = kind == 0 && how == 3});
              }
              std::vector<int> ll(static_cast<size_t>(n));
              for (int u = 0; u < n; ++u) {
                const int r = owner(s, u), size = s[r + 1] - s[r];
                ll[u] = l[u] % size;
              }
              contract(g, s, (how + p) % 2, ll, true, kNatural);
            }
      }
    });
}
