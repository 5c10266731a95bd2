// C10: contracting a clustering yields the exact quotient graph. Built in two variants: sequential (all
// inputs) and multi-threaded (schedules, when compiled with access instrumentation).
#include "kv.h"

#include "kaminpar-shm/coarsening/contraction/cluster_contraction.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"

using namespace kv;

namespace {
struct Setup {
  ContractionCoarseningContext ctx;
  std::string name;
};
std::vector<Setup> setups() {
  std::vector<Setup> v;
  for (double f : {1.0, 0.1}) {
    v.push_back({{ContractionAlgorithm::BUFFERED, ContractionImplementation::TWO_PHASE, f}, "buffered/" + std::to_string(f)});
  }
  v.push_back({{ContractionAlgorithm::BUFFERED_LEGACY, ContractionImplementation::TWO_PHASE, 1.0}, "legacy"});
  for (auto [impl, n] : std::vector<std::pair<ContractionImplementation, std::string>>{
           {ContractionImplementation::SINGLE_PHASE, "single"}, {ContractionImplementation::TWO_PHASE, "two"}, {ContractionImplementation::GROWING_HASH_TABLES, "growing"}}) {
    v.push_back({{ContractionAlgorithm::UNBUFFERED, impl, 1.0}, "unbuffered/" + n});
    v.push_back({{ContractionAlgorithm::UNBUFFERED_NAIVE, impl, 1.0}, "naive/" + n});
  }
  return v;
}

// `cl`: cluster ids of the vertices, below n.
void check_coarse(const RefGraph &r, const std::vector<int> &cl, CoarseGraph &cg, const std::string &at) {
  std::map<int, std::vector<int>> members;
  for (int u = 0; u < r.n(); ++u) members[cl[u]].push_back(u);
  const int cn = static_cast<int>(members.size());
  const Graph &g = cg.get();
  MC_CHECK(static_cast<int>(g.n()) == cn, "coarse vertices " + std::to_string(g.n()) + " instead of " + std::to_string(cn) + at);
  // the mapping, observed through project_up
  std::vector<BlockID> coarse(cn), fine(r.n(), 77777777);
  for (int i = 0; i < cn; ++i) coarse[i] = static_cast<BlockID>(i);
  cg.project_up(coarse, fine);
  std::vector<int> image_of_cluster(r.n(), -1);
  std::vector<char> used(cn, 0);
  for (auto &[c, us] : members) {
    const int img = static_cast<int>(fine[us[0]]);
    MC_CHECK(img >= 0 && img < cn, "coarse vertex of " + std::to_string(us[0]) + " out of range" + at);
    MC_CHECK(!used[img], "two clusters share a coarse vertex" + at);
    used[img] = 1;
    image_of_cluster[c] = img;
    for (int u : us) MC_CHECK(static_cast<int>(fine[u]) == img, "members of one cluster projected from different vertices" + at);
  }
  // quotient
  std::vector<std::map<int, long>> q(cn);
  std::vector<long> w(cn, 0);
  long total = 0;
  for (int u = 0; u < r.n(); ++u) {
    const int a = image_of_cluster[cl[u]];
    w[a] += r.vw[u];
    total += r.vw[u];
    for (auto [v, x] : r.adj[u]) {
      const int b = image_of_cluster[cl[v]];
      if (a != b) q[a][b] += x;
    }
  }
  long m = 0, tew = 0, maxw = 0;
  for (int a = 0; a < cn; ++a) {
    m += static_cast<long>(q[a].size());
    for (auto [b, x] : q[a]) tew += x;
    maxw = std::max(maxw, w[a]);
  }
  MC_CHECK(static_cast<long>(g.m()) == m, "coarse edges " + std::to_string(g.m()) + " instead of " + std::to_string(m) + at);
  MC_CHECK(static_cast<long>(g.total_node_weight()) == total, "total vertex weight " + std::to_string(g.total_node_weight()) + at);
  MC_CHECK(static_cast<long>(g.max_node_weight()) == maxw, "maximum vertex weight " + std::to_string(g.max_node_weight()) + at);
  MC_CHECK(static_cast<long>(g.total_edge_weight()) == tew, "total edge weight " + std::to_string(g.total_edge_weight()) + at);
  for (int a = 0; a < cn; ++a) {
    MC_CHECK(static_cast<long>(g.node_weight(a)) == w[a], "weight of coarse vertex " + std::to_string(a) + ": " + std::to_string(g.node_weight(a)) + " instead of " + std::to_string(w[a]) + at);
    MC_CHECK(static_cast<size_t>(g.degree(a)) == q[a].size(), "degree of coarse vertex" + at);
    std::map<int, long> got;
    size_t seen = 0;
    g.adjacent_nodes(static_cast<NodeID>(a), [&](const NodeID b, const EdgeWeight x) {
      ++seen;
      got[static_cast<int>(b)] += static_cast<long>(x);
    });
    MC_CHECK(seen == got.size(), "duplicate coarse edges at " + std::to_string(a) + at);
    MC_CHECK(got == q[a], "coarse neighbours of " + std::to_string(a) + at);
  }
  // projections
  for (int i = 0; i < cn; ++i) coarse[i] = static_cast<BlockID>(hash64(i) % 3);
  cg.project_up(coarse, fine);
  for (int u = 0; u < r.n(); ++u) MC_CHECK(fine[u] == coarse[image_of_cluster[cl[u]]], "projected block of " + std::to_string(u) + at);
  std::vector<NodeID> down(cn, 99999), up(r.n());
  for (int u = 0; u < r.n(); ++u) up[u] = static_cast<NodeID>(hash64(cl[u] + 5) % 4);
  cg.project_down(up, down);
  for (int u = 0; u < r.n(); ++u) MC_CHECK(down[image_of_cluster[cl[u]]] == up[u], "community of the coarse vertex of " + std::to_string(u) + at);
}

StaticArray<NodeID> ids(const std::vector<int> &cl) {
  StaticArray<NodeID> a(cl.size(), kaminpar::static_array::seq);
  for (size_t i = 0; i < cl.size(); ++i) a[i] = static_cast<NodeID>(cl[i]);
  return a;
}
std::unique_ptr<Graph> compressed(const RefGraph &r) {
  RefGraph s = r;
  s.sort_adj();
  CSRGraph tmp = csr(s);
  return std::make_unique<Graph>(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)));
}

// restricted growth string -> cluster ids (style 0: first member, 1: last member, 2: dense from above)
std::vector<int> ids_of(const std::vector<int> &rgs, int style) {
  const int n = static_cast<int>(rgs.size());
  std::vector<int> out(n), rep(n, -1);
  for (int u = 0; u < n; ++u)
    if (rep[rgs[u]] < 0 || style == 1) rep[rgs[u]] = u;
  for (int u = 0; u < n; ++u) out[u] = style == 2 ? n - 1 - rgs[u] : rep[rgs[u]];
  return out;
}
template <typename F> void set_partitions(int n, F &&f) {
  std::vector<int> a(n, 0);
  std::function<void(int, int)> rec = [&](int i, int used) {
    if (i == n) { f(a); return; }
    for (int c = 0; c <= used; ++c) {
      a[i] = c;
      rec(i + 1, std::max(used, c + 1));
    }
  };
  rec(0, 0);
}

#if !defined(__SANITIZE_THREAD__)
void sequential() {
  const auto all = setups();
  const int N = mc::thorough() ? 6 : 5;
  for (int n = 1; n <= N; ++n) {
    std::vector<uint32_t> masks;
    if (n <= 4) for (uint32_t i = 0; i < num_masks(n); ++i) masks.push_back(i);
    else masks = iso_classes(n);
    for (int part = 0; part < (n < 4 ? 1 : 16); ++part)
      mc::run("small n=" + std::to_string(n) + "/" + std::to_string(part), [&] {
        contraction::MemoryContext shared[16];
        for (size_t mi = part; mi < masks.size(); mi += (n < 4 ? 1 : 16)) {
          for (int wk : {0, 3}) {
            const RefGraph r = with_weights(by_mask(n, masks[mi]), wk);
            Graph g = mkgraph(r, wk == 3);
            auto c = compressed(r);
            set_partitions(n, [&](const std::vector<int> &rgs) {
              for (int style = 0; style < 3; ++style) {
                const auto cl = ids_of(rgs, style);
                for (size_t s = 0; s < all.size(); ++s) {
                  mc::count_case();
                  const std::string at = " [" + all[s].name + "] " + r.str() + " clusters " + vec(cl);
                  // one memory context per algorithm is reused over all calls
                  auto cg = contract_clustering(g, ids(cl), all[s].ctx, shared[s]);
                  check_coarse(r, cl, *cg, at);
                  if (style == 0 && (s == 0 || s >= 2)) {
                    auto cc = contract_clustering(*c, ids(cl), all[s].ctx);
                    check_coarse(r, cl, *cc, at + " compressed");
                  }
                }
              }
            });
          }
          mc::observe(masks[mi]);
        }
      });
  }
  // Structured graphs, several clusterings, divisions of the loops.
  std::vector<RefGraph> menu = {grid(6, 7), star(40), clique(16), path(33), matching(20), caveman(4, 6), disjoint(star(9), empty(7)), prand(60, 6, 1), scattered(grid(5, 8)), empty(6)};
  for (auto &base : menu)
    for (int wk : {0, 1, 2, 4, 5})
      for (int T : {1, 3})
        for (int chunks : {1, 2, 7}) {
          mc::Config cfg;
          cfg.workers = T;
          cfg.chunks = chunks;
          mc::explore("menu " + base.name + " w" + std::to_string(wk) + " T" + std::to_string(T) + "/" + std::to_string(chunks), cfg, [&] {
            const RefGraph r = with_weights(base, wk);
            const int n = r.n();
            Graph g = mkgraph(r);
            auto c = compressed(r);
            contraction::MemoryContext shared[16];
            for (int kind = 0; kind < 7; ++kind) {
              std::vector<int> cl(n);
              for (int u = 0; u < n; ++u)
                cl[u] = kind == 0 ? u : kind == 1 ? 0 : kind == 2 ? u / 2 * 2 : kind == 3 ? n - 1 - (u % 3) : kind == 4 ? u / 5 : kind == 5 ? static_cast<int>(hash64(u) % n) : (u % 2 ? u : n - 1);
              for (size_t s = 0; s < all.size(); ++s) {
                mc::count_case(2);
                const std::string at = " [" + all[s].name + "] " + r.str() + " clusters " + vec(cl);
                auto cg = contract_clustering(g, ids(cl), all[s].ctx, shared[s]);
                check_coarse(r, cl, *cg, at);
                auto cc = contract_clustering(*c, ids(cl), all[s].ctx, shared[s]);
                check_coarse(r, cl, *cc, at + " compressed");
              }
            }
          });
        }
  // Beyond the internal thresholds: enough edges to split the coarse vertices into chunks, coarse degrees
  // above the first-phase tables, more coarse vertices and edges than one local buffer holds.
  struct Big { std::string name; std::function<RefGraph()> make; };
  std::vector<Big> bigs = {
      {"hubs", [] {
         RefGraph g(50003); // three hubs adjacent to (almost) everything
         for (int u = 3; u < g.n(); ++u)
           for (int h = 0; h < 3; ++h)
             if ((u + h) % 5) g.add(h, u);
         g.name = "hubs50003";
         return g;
       }},
      {"grid", [] { return grid(200, 200); }},
      {"dense", [] { return prand(3000, 80, 3); }},
      {"hub5000", [] { RefGraph g = star(6000); for (int u = 1; u + 7 < 6000; u += 3) g.add(u, u + 7); g.name = "hub6000"; g.sort_adj(); return g; }},
  };
  for (auto &b : bigs)
    for (int kind = 0; kind < 5; ++kind)
      for (int T : {1, 4})
        for (int wk : {0, 3}) {
          if (!mc::thorough() && wk == 0 && T == 4) continue;
          mc::Config cfg;
          cfg.workers = T;
          mc::explore("big " + b.name + " clustering " + std::to_string(kind) + " T" + std::to_string(T) + " w" + std::to_string(wk), cfg, [&] {
            const RefGraph r = with_weights(b.make(), wk);
            const int n = r.n();
            Graph g = mkgraph(r);
            auto c = compressed(r);
            std::vector<int> cl(n);
            for (int u = 0; u < n; ++u)
              cl[u] = kind == 0 ? u : kind == 1 ? u / 4 * 4 : kind == 2 ? (u < 10 ? 5 : u) : kind == 3 ? static_cast<int>(hash64(u) % (n / 8)) : static_cast<int>(hash64(u) % 6);
            auto more = all;
            more.push_back({{ContractionAlgorithm::BUFFERED, ContractionImplementation::TWO_PHASE, 0.0}, "buffered/0"});
            more.push_back({{ContractionAlgorithm::BUFFERED, ContractionImplementation::TWO_PHASE, 0.4}, "buffered/0.4"});
            contraction::MemoryContext shared;
            for (auto &s : more) {
              if (s.ctx.algorithm == ContractionAlgorithm::BUFFERED && s.ctx.edge_buffer_fill_fraction == 0.0 && (n > 5000)) continue; // one chunk per vertex
              mc::count_case();
              const std::string at = " [" + s.name + "] " + r.str() + " clustering kind " + std::to_string(kind);
              auto cg = contract_clustering(g, ids(cl), s.ctx, shared);
              check_coarse(r, cl, *cg, at);
              if (T == 1) {
                auto cc = contract_clustering(*c, ids(cl), s.ctx, shared);
                check_coarse(r, cl, *cc, at + " compressed");
              }
            }
            mc::observe(hash64(n * 10 + kind));
          });
        }
}
#else
void concurrent() {
  struct In { RefGraph g; std::vector<int> cl; };
  std::vector<In> ins = {
      {with_weights(path(4), 3), {0, 0, 2, 2}},   {with_weights(path(4), 3), {1, 0, 0, 1}},   {with_weights(clique(4), 3), {3, 2, 3, 2}},
      {with_weights(cycle(5), 3), {4, 4, 1, 1, 0}}, {with_weights(star(5), 2), {0, 1, 1, 3, 3}}, {with_weights(disjoint(path(3), empty(1)), 1), {0, 1, 2, 3}},
      {with_weights(path(6), 3), {0, 0, 2, 2, 4, 4}}, {with_weights(clique(4), 3), {0, 0, 0, 0}},
  };
  const auto all = setups();
  for (auto &in : ins)
    for (size_t s = 0; s < all.size(); ++s) {
      if (s == 1) continue; // fill fraction is irrelevant for small graphs
      for (auto a : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block})
        for (int T : {2, 3}) {
          if (T == 3 && a != mc::Assign::RoundRobin) continue;
          mc::Config cfg;
          cfg.workers = T;
          cfg.assign = a;
          cfg.preemptions = mc::thorough() ? 3 : 2;
          cfg.max_exec = mc::thorough() ? 4000000 : 200000;
          mc::explore("mt " + all[s].name + " " + in.g.name + vec(in.cl) + " T" + std::to_string(T) + " a" + std::to_string(static_cast<int>(a)), cfg, [&] {
            Graph g = mkgraph(in.g);
            auto cg = contract_clustering(g, ids(in.cl), all[s].ctx);
            mc::RtGuard guard;
            check_coarse(in.g, in.cl, *cg, " [" + all[s].name + "] " + in.g.str() + " clusters " + vec(in.cl));
            uint64_t h = 0;
            for (NodeID u : cg->get().nodes()) cg->get().adjacent_nodes(u, [&](NodeID v, EdgeWeight w) { h = hash_add(h, v * 100 + w); });
            mc::observe(h);
          });
        }
    }
}
#endif
} // namespace

void mc_main() {
#if defined(__SANITIZE_THREAD__)
  concurrent();
#else
  sequential();
#endif
}
