// C12: hierarchies of the cluster coarsener (all graph representations and configurations) and of the sequential coarsener of initial bipartitioning. Each level is an exact
// quotient of the level below (the mapping is observed by projecting a partition into singletons), each uncoarsening step is exact.
#include "kv.h"

#include "kaminpar-shm/coarsening/cluster_coarsener.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/initial_partitioning/initial_coarsener.h"
#include "kaminpar-shm/initial_partitioning/sequential_graph_hierarchy.h"
#include "kaminpar-shm/presets.h"

using namespace kv;
using kaminpar::shm::Coarsener;
using kaminpar::shm::ClusterWeightLimit;
using kaminpar::shm::CoarseningAlgorithm;
using kaminpar::shm::ContractionAlgorithm;
using kaminpar::shm::ContractionImplementation;
using kaminpar::shm::InitialCoarsener;
using kaminpar::shm::InitialCoarseningContext;
using kaminpar::shm::IsolatedNodesClusteringStrategy;
using kaminpar::shm::LabelPropagationImplementation;
using kaminpar::shm::PartitionedCSRGraph;
using kaminpar::shm::TwoHopStrategy;

namespace {
struct Level {
  RefGraph g;
  std::vector<NodeID> com;
};
template <typename G> Level snapshot(const G &g) {
  Level l{read_back(g), {}};
  return l;
}
bool same(const RefGraph &a, const RefGraph &b) { return a.vw == b.vw && a.adj == b.adj; }

template <typename G> void check_totals(const G &g, const RefGraph &r, const std::string &at) {
  long tew = 0, m = 0;
  for (int u = 0; u < r.n(); ++u)
    for (auto [v, w] : r.adj[u]) tew += w, ++m;
  MC_CHECK(static_cast<long>(g.total_node_weight()) == r.total_vw(), "stored total vertex weight " + std::to_string(g.total_node_weight()) + " of a level that weighs " + std::to_string(r.total_vw()) + at);
  MC_CHECK(static_cast<long>(g.total_edge_weight()) == tew, "stored total edge weight " + std::to_string(g.total_edge_weight()) + " instead of " + std::to_string(tew) + at);
  MC_CHECK(static_cast<long>(g.m()) == m, "number of edges" + at);
  if (r.n()) MC_CHECK(static_cast<long>(g.max_node_weight()) == *std::max_element(r.vw.begin(), r.vw.end()), "stored maximum vertex weight " + std::to_string(g.max_node_weight()) + at);
}

// `map`: coarse vertex of every fine vertex
void check_quotient(const RefGraph &f, const RefGraph &c, const std::vector<BlockID> &map, const std::string &at) {
  std::vector<long> w(c.n(), 0);
  std::vector<std::map<int, long>> q(c.n()), got(c.n());
  for (int u = 0; u < f.n(); ++u) {
    MC_CHECK(map[u] < static_cast<BlockID>(c.n()), "vertex " + std::to_string(u) + " is mapped to no coarse vertex" + at);
    w[map[u]] += f.vw[u];
    for (auto [v, x] : f.adj[u])
      if (map[u] != map[v]) q[map[u]][static_cast<int>(map[v])] += x;
  }
  for (int a = 0; a < c.n(); ++a) {
    for (auto [b, x] : c.adj[a]) got[a][b] += x;
    MC_CHECK(got[a].size() == c.adj[a].size(), "parallel edges at coarse vertex " + std::to_string(a) + at);
    MC_CHECK(w[a] == c.vw[a], "coarse vertex " + std::to_string(a) + " weighs " + std::to_string(c.vw[a]) + ", its members " + std::to_string(w[a]) + at);
    MC_CHECK(got[a] == q[a], "edges of coarse vertex " + std::to_string(a) + at);
  }
}

std::vector<BlockID> partition_of(int n, int kind, int k) { // kind 0: singletons
  std::vector<BlockID> p(n);
  for (int u = 0; u < n; ++u) p[u] = static_cast<BlockID>(kind == 0 ? u : kind == 1 ? 0 : kind == 2 ? u % k : kind == 3 ? (u * k) / std::max(n, 1) : hash64(u * 11 + kind) % k);
  return p;
}
template <typename T> StaticArray<T> arr(const std::vector<T> &v) {
  StaticArray<T> a(v.size(), kaminpar::static_array::seq);
  std::copy(v.begin(), v.end(), a.begin());
  return a;
}

void check_projection(const RefGraph &f, const RefGraph &c, const std::vector<BlockID> &cp, int k, const PartitionedGraph &p, const std::string &at) {
  MC_CHECK(static_cast<int>(p.k()) == k, "projected partition has " + std::to_string(p.k()) + " blocks instead of " + std::to_string(k) + at);
  std::vector<BlockID> fp(f.n());
  for (int u = 0; u < f.n(); ++u) {
    fp[u] = p.block(u);
    MC_CHECK(fp[u] < static_cast<BlockID>(k), "projected block " + std::to_string(fp[u]) + " of vertex " + std::to_string(u) + at);
  }
  MC_CHECK(ref_cut(f, fp) == ref_cut(c, cp), "cut " + std::to_string(ref_cut(f, fp)) + " after uncoarsening, " + std::to_string(ref_cut(c, cp)) + " before" + at);
  const auto bw = ref_block_weights(c, cp, k);
  MC_CHECK(ref_block_weights(f, fp, k) == bw, "block weights changed by uncoarsening" + at);
  for (int b = 0; b < k; ++b) MC_CHECK(static_cast<long>(p.block_weight(static_cast<BlockID>(b))) == bw[b], "stored block weight" + at);
}

// ------------------------------------------------------------------ cluster coarsener
struct Conf {
  int id = 0;
  int contraction = 0, limit = 0, two_hop = 0, isolated = 0, mem = 0, forced = 0, impl = 2;
  double multiplier = 1.0, convergence = 0.05, shrink = 1e18;
  NodeID contraction_limit = 2000;
  std::string str() const {
    std::ostringstream o;
    o << " conf" << id << "(contraction " << contraction << " limit " << limit << "*" << multiplier << " twohop " << two_hop << " iso " << isolated << " mem " << mem << " forced " << forced << ")";
    return o.str();
  }
};
std::vector<Conf> confs() {
  std::vector<Conf> v;
  int id = 0;
  for (int contraction = 0; contraction < 3; ++contraction)
    for (int limit = 0; limit < 4; ++limit)
      for (int mem : {0, 1, 99}) {
        Conf c;
        c.id = id;
        c.contraction = contraction, c.limit = limit, c.mem = mem;
        c.multiplier = limit == 0 ? (id % 2 ? 1.0 : 20.0) : limit == 1 ? (id % 2 ? 0.5 : 0.1) : limit == 2 ? 3.0 : 1.0;
        c.two_hop = id % 5, c.isolated = (id / 2) % 3, c.forced = id % 3, c.impl = id % 3;
        c.convergence = id % 4 == 3 ? 0.3 : id % 4 == 2 ? 0.0 : 0.05;
        c.contraction_limit = id % 2 ? 2000 : 2;
        c.shrink = id % 5 == 4 ? 2.0 : 1e18;
        v.push_back(c);
        ++id;
      }
  return v;
}
Context context(const Conf &c) {
  Context ctx = kaminpar::shm::create_default_context();
  ctx.parallel.num_threads = 1;
  auto &cc = ctx.coarsening;
  cc.algorithm = CoarseningAlgorithm::CLUSTERING;
  cc.contraction.algorithm = c.contraction == 0 ? ContractionAlgorithm::BUFFERED : c.contraction == 1 ? ContractionAlgorithm::UNBUFFERED : ContractionAlgorithm::BUFFERED_LEGACY;
  cc.clustering.lp.impl = static_cast<LabelPropagationImplementation>(c.impl);
  cc.clustering.lp.two_hop_strategy = static_cast<TwoHopStrategy>(c.two_hop);
  cc.clustering.lp.isolated_nodes_strategy = static_cast<IsolatedNodesClusteringStrategy>(c.isolated);
  cc.clustering.cluster_weight_limit = static_cast<ClusterWeightLimit>(c.limit);
  cc.clustering.cluster_weight_multiplier = c.multiplier;
  cc.clustering.max_mem_free_coarsening_level = static_cast<size_t>(c.mem);
  cc.clustering.forced_kc_level = c.forced == 1;
  cc.clustering.forced_pc_level = c.forced == 2;
  cc.clustering.shrink_factor = c.shrink;
  cc.convergence_threshold = c.convergence;
  cc.contraction_limit = c.contraction_limit;
  return ctx;
}

Graph make(const RefGraph &r, int rep) {
  if (rep == 1) {
    CSRGraph c = csr(r);
    return kaminpar::shm::graph::rearrange_by_degree_buckets(c);
  }
  if (rep == 2) {
    CSRGraph tmp = csr(r);
    return Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp)));
  }
  return mkgraph(r);
}

struct Run {
  Coarsener &co;
  std::vector<Level> levels; // snapshots; levels.back() is current
  const Context &ctx;
  std::string at;
  bool communities;

  void start(const Graph &g) {
    co.initialize(&g);
    levels.assign(1, snapshot(g));
    MC_CHECK(co.level() == 0 && co.empty() && &co.current() == &g, "the coarsener does not start with the input graph" + at);
  }
  void use(const std::vector<NodeID> &com) {
    co.use_communities(com);
    levels[0].com = com;
    communities = true;
  }
  // returns whether the graph shrank
  bool coarsen(const std::string &hist) {
    const std::string here = " after " + hist + at;
    const long before = levels.back().g.n();
    const bool more = co.coarsen();
    const long after = static_cast<long>(co.current().n());
    if (ctx.coarsening.algorithm == CoarseningAlgorithm::NOOP) {
      MC_CHECK(!more && after == before && co.level() == 0, "the coarsener without coarsening did something" + here);
      return false;
    }
    MC_CHECK(after <= before, "coarsening grew the graph from " + std::to_string(before) + " to " + std::to_string(after) + here);
    MC_CHECK(after > 0, "the coarse graph is empty" + here);
    const double shrunk = 1.0 - 1.0 * static_cast<double>(after) / static_cast<double>(before);
    MC_CHECK(more == (shrunk > ctx.coarsening.convergence_threshold), std::string("coarsening reported ") + (more ? "progress" : "convergence") + " from " + std::to_string(before) + " to " + std::to_string(after) + here);
    MC_CHECK(co.level() == levels.size(), "level " + std::to_string(co.level()) + here);
    levels.push_back(snapshot(co.current()));
    MC_CHECK(levels.back().g.total_vw() == levels[0].g.total_vw(), "the level weighs " + std::to_string(levels.back().g.total_vw()) + " instead of " + std::to_string(levels[0].g.total_vw()) + here);
    check_totals(co.current(), levels.back().g, here);
    if (communities) {
      auto com = co.current_communities();
      levels.back().com.assign(com.begin(), com.end());
      MC_CHECK(static_cast<long>(com.size()) == after, "communities of " + std::to_string(com.size()) + " vertices" + here);
    }
    return more;
  }
  void uncoarsen(const std::vector<BlockID> &cp, int k, bool identity, const std::string &hist) {
    const std::string here = " after " + hist + " P=" + (cp.size() <= 64 ? vec(cp) : std::string()) + at;
    const Level c = levels.back();
    MC_CHECK(same(read_back(co.current()), c.g), "the current level changed" + here);
    PartitionedGraph p(co.current(), static_cast<BlockID>(k), arr(cp));
    PartitionedGraph q = co.uncoarsen(std::move(p));
    levels.pop_back();
    const Level &f = levels.back();
    MC_CHECK(co.level() + 1 == levels.size(), "level " + std::to_string(co.level()) + here);
    MC_CHECK(&q.graph() == &co.current(), "the uncoarsened partition is of another graph" + here);
    MC_CHECK(same(read_back(co.current()), f.g), "uncoarsening returned a different graph" + here);
    check_projection(f.g, c.g, cp, k, q, here);
    if (communities) {
      auto com = co.current_communities();
      MC_CHECK(std::equal(com.begin(), com.end(), f.com.begin(), f.com.end()), "communities of the finer level changed" + here);
    }
    if (identity) {
      std::vector<BlockID> map(f.g.n());
      for (int u = 0; u < f.g.n(); ++u) map[u] = q.block(u);
      check_quotient(f.g, c.g, map, here);
      if (communities)
        for (int u = 0; u < f.g.n(); ++u) MC_CHECK(c.com[map[u]] == f.com[u], "vertex " + std::to_string(u) + " and its coarse vertex are of different communities" + here);
    }
  }
};

// every sequence of coarsening and uncoarsening steps up to a depth
void histories(const RefGraph &r, int rep, const Conf &conf, int depth, int com_kind, int seed) {
  const Context base = context(conf);
  const Graph g = make(r, rep);
  Context ctx = base;
  ctx.partition.setup(g, 3, 0.03, true);
  ctx.compression.enabled = rep == 2;
  for (uint32_t seq = 0; seq < (1u << depth); ++seq) {
    bool valid = true;
    int level = 0;
    for (int i = 0; i < depth && valid; ++i) {
      level += (seq >> i & 1) ? -1 : 1;
      valid = level >= 0;
      // the clustering keeps arrays of the size of the smallest graph so far unless it is told to release them, and does not return to the compressed representation: no partitioner
      // coarsens again after uncoarsening
      if (i && !(seq >> i & 1) && (seq >> (i - 1) & 1) && (conf.mem != 99 || rep == 2)) valid = false;
    }
    if (!valid) continue;
    mc::count_case();
    reseed(seed);
    auto co = kaminpar::shm::factory::create_coarsener(ctx);
    Run run{*co, {}, ctx, conf.str() + " rep" + std::to_string(rep) + " seed" + std::to_string(seed) + " " + r.str(), false};
    run.start(g);
    std::vector<NodeID> com(g.n());
    if (com_kind) {
      for (NodeID u = 0; u < g.n(); ++u) com[u] = com_kind == 1 ? u % 2 : static_cast<NodeID>(hash64(u) % 3);
      run.use(com);
    }
    std::string hist;
    for (int i = 0; i < depth; ++i) {
      if (seq >> i & 1) {
        const int n = run.levels.back().g.n(), kind = (static_cast<int>(seq) + i) % 5, k = kind == 0 ? n : 1 + i % 4;
        hist += "U";
        run.uncoarsen(partition_of(n, kind, k), k, kind == 0, hist);
      } else {
        hist += "C";
        run.coarsen(hist);
      }
    }
    while (co->level() > 0) {
      hist += "U";
      const int n = run.levels.back().g.n();
      run.uncoarsen(partition_of(n, 0, n), n, true, hist);
    }
  }
}

// coarsen as far as possible, then down with every partition of the coarsest graph
void full(const RefGraph &r, int rep, const Conf &conf, int seed) {
  const Graph g = make(r, rep);
  Context ctx = context(conf);
  ctx.partition.setup(g, 2, 0.03, true);
  ctx.compression.enabled = rep == 2;
  int cn = 0;
  for (long part = 0, parts = 1; part < parts; ++part) {
    mc::count_case();
    reseed(seed);
    auto co = kaminpar::shm::factory::create_coarsener(ctx);
    Run run{*co, {}, ctx, conf.str() + " rep" + std::to_string(rep) + " seed" + std::to_string(seed) + " " + r.str(), false};
    run.start(g);
    std::string hist;
    while (run.levels.size() < 12 && run.coarsen(hist += "C")) {}
    if (part == 0) {
      cn = run.levels.back().g.n();
      parts = cn <= 4 ? 1l << (2 * cn) : 6;
    }
    MC_CHECK(run.levels.back().g.n() == cn, "the same calls with the same seed led to different coarsest graphs" + run.at);
    if (part % 2) co->release_allocated_memory();
    std::vector<BlockID> p(cn);
    int k = 4;
    if (cn <= 4)
      for (int u = 0; u < cn; ++u) p[u] = static_cast<BlockID>(part >> (2 * u) & 3);
    else
      p = partition_of(cn, static_cast<int>(part), k = part == 0 ? cn : 4);
    while (co->level() > 0) {
      run.uncoarsen(p, k, false, hist += "U");
      // the next step continues with what a partitioner would have: the projected partition, one vertex moved
      const int n = run.levels.back().g.n();
      p = partition_of(n, 4 + static_cast<int>(part % 7), k);
    }
  }
}

void cluster_coarsener() {
  const auto cs = confs();
  const int N = mc::thorough() ? 6 : 5;
  for (int n = 1; n <= N; ++n) {
    const auto masks = iso_classes(n);
    for (size_t mi = 0; mi < masks.size(); ++mi)
      for (int wk : {0, 3, 4}) {
        if (n >= 4 && wk == 4 && !mc::thorough()) continue;
        mc::run("hierarchy n=" + std::to_string(n) + "/" + std::to_string(masks[mi]) + " w" + std::to_string(wk), [&, n, mi, wk] {
          const RefGraph r = with_weights(by_mask(n, masks[mi]), wk);
          for (auto &c : cs) {
            for (int rep = 0; rep < 3; ++rep) {
              if (n == 5 && (c.id + rep + mi) % 2 && !mc::thorough()) continue;
              histories(r, rep, c, n <= 3 || mc::thorough() ? 4 : 3, (c.id + rep) % 3, c.id % 3);
              if (c.id % 3 == rep || (mc::thorough() && n <= 4)) full(r, rep, c, c.id % 3);
            }
          }
        });
      }
  }
  for (auto &base : {path(40), cycle(33), star(25), clique(12), grid(7, 9), caveman(5, 6), matching(20), empty(12), disjoint(grid(5, 5), empty(9)), disjoint(star(12), matching(8)), prand(80, 5, 1), prand(60, 9, 2), scattered(caveman(6, 5)), prand(600, 5, 4)})
    for (int wk : {0, 3, 4, 5})
      mc::run("hierarchy " + base.name + " w" + std::to_string(wk), [&, base, wk] {
        const RefGraph r = with_weights(base, wk);
        for (auto &c : cs)
          for (int rep = 0; rep < 3; ++rep) {
            if (r.n() > 100 && (c.id + rep) % 3) continue;
            histories(r, rep, c, r.n() > 100 ? 4 : mc::thorough() ? 6 : 5, (c.id + rep) % 3, c.id % 2);
            full(r, rep, c, c.id % 2);
          }
      });
  // one instance for several graphs, one after the other
  mc::run("hierarchy reuse", [&] {
    for (auto &c : cs)
      for (int com = 0; com < 2; ++com) {
        if (c.mem != 99) continue;
        const std::vector<RefGraph> chain{with_weights(prand(90, 5, 1), 3), grid(8, 8), with_weights(caveman(5, 5), 4), cycle(20), empty(7), path(2)};
        std::vector<Graph> gs;
        for (size_t i = 0; i < chain.size(); ++i) gs.push_back(make(chain[i], 0));
        Context ctx = context(c);
        ctx.partition.setup(gs[0], 4, 0.03, true);
        reseed(1);
        auto co = kaminpar::shm::factory::create_coarsener(ctx);
        for (size_t i = 0; i < chain.size(); ++i) {
          mc::count_case();
          Run run{*co, {}, ctx, c.str() + " graph " + std::to_string(i) + " of the chain", false};
          run.start(gs[i]);
          std::vector<NodeID> cm(gs[i].n());
          for (NodeID u = 0; u < gs[i].n(); ++u) cm[u] = u % 3;
          if (com) run.use(cm);
          std::string hist;
          for (int l = 0; l < 3; ++l) run.coarsen(hist += "C");
          while (co->level() > (i % 2 ? 1 : 0)) { // sometimes the hierarchy is left behind
            const int n = run.levels.back().g.n();
            run.uncoarsen(partition_of(n, 0, n), n, true, hist += "U");
          }
        }
      }
  });
  mc::run("no coarsening", [&] {
    Context ctx = context(cs[0]);
    ctx.coarsening.algorithm = CoarseningAlgorithm::NOOP;
    const Graph g = make(with_weights(grid(3, 4), 3), 0);
    ctx.partition.setup(g, 3, 0.03, true);
    auto co = kaminpar::shm::factory::create_coarsener(ctx);
    Run run{*co, {}, ctx, " noop", false};
    run.start(g);
    for (int i = 0; i < 3; ++i) MC_CHECK(!run.coarsen("C"), "progress without coarsening");
    PartitionedGraph q = co->uncoarsen(PartitionedGraph(g, 3, arr(partition_of(12, 2, 3))));
    for (NodeID u = 0; u < 12; ++u) MC_CHECK(q.block(u) == u % 3, "partition changed without coarsening");
  });
}

// ------------------------------------------------------------------ sequential coarsener of initial bipartitioning
struct SeqRun {
  InitialCoarsener &co;
  const InitialCoarseningContext &ctx;
  std::vector<Level> levels;
  std::vector<const CSRGraph *> ptr;
  std::string at;

  void start(const CSRGraph &g) {
    co.init(g);
    levels.assign(1, snapshot(g));
    ptr.assign(1, &g);
    MC_CHECK(co.empty() && co.level() == 0 && co.current() == &g, "the coarsener does not start with the input graph" + at);
  }
  bool coarsen(long limit, const std::string &hist) {
    const std::string here = " after " + hist + at;
    const CSRGraph *g = co.coarsen(static_cast<NodeWeight>(limit));
    MC_CHECK(g == co.current(), "coarsen() returned another graph than current()" + here);
    const long before = levels.back().g.n();
    if (co.level() + 1 == levels.size()) {
      MC_CHECK(same(read_back(*g), levels.back().g), "convergence was reported, but the graph changed" + here);
      return false;
    }
    MC_CHECK(co.level() == levels.size(), "level " + std::to_string(co.level()) + here);
    levels.push_back(snapshot(*g));
    const RefGraph &c = levels.back().g;
    MC_CHECK(c.n() < before && c.n() > 0, "coarsened from " + std::to_string(before) + " to " + std::to_string(c.n()) + here);
    MC_CHECK(1.0 - 1.0 * c.n() / static_cast<double>(before) > ctx.convergence_threshold, "a level was added although coarsening has converged" + here);
    MC_CHECK(c.total_vw() == levels[0].g.total_vw(), "the level weighs " + std::to_string(c.total_vw()) + " instead of " + std::to_string(levels[0].g.total_vw()) + here);
    for (int u = 0; u < c.n(); ++u)
      for (auto [v, w] : c.adj[u]) MC_CHECK(v >= 0 && v < c.n() && v != u && w > 0 && c.weight(v, u) == w, "broken coarse edge " + std::to_string(u) + "-" + std::to_string(v) + here);
    check_totals(*g, c, here);
    return true;
  }
  // map_out: the projection if the partition was into singletons
  PartitionedCSRGraph uncoarsen(PartitionedCSRGraph &&p, const std::vector<BlockID> &cp, int k, bool identity, long limit, const std::string &hist) {
    const std::string here = " after " + hist + " P=" + (cp.size() <= 64 ? vec(cp) : std::string()) + at;
    const Level c = levels.back();
    PartitionedCSRGraph q = co.uncoarsen(std::move(p));
    levels.pop_back();
    const RefGraph &f = levels.back().g;
    MC_CHECK(co.level() + 1 == levels.size(), "level " + std::to_string(co.level()) + here);
    MC_CHECK(&q.graph() == co.current(), "the uncoarsened partition is of another graph" + here);
    MC_CHECK(same(read_back(*co.current()), f), "uncoarsening returned a different graph" + here);
    MC_CHECK(static_cast<int>(q.k()) == k && static_cast<int>(q.n()) == f.n(), "size of the projected partition" + here);
    std::vector<BlockID> fp(f.n());
    for (int u = 0; u < f.n(); ++u) {
      fp[u] = q.block(u);
      MC_CHECK(fp[u] < static_cast<BlockID>(k), "projected block" + here);
    }
    MC_CHECK(ref_cut(f, fp) == ref_cut(c.g, cp), "cut " + std::to_string(ref_cut(f, fp)) + " after uncoarsening, " + std::to_string(ref_cut(c.g, cp)) + " before" + here);
    const auto bw = ref_block_weights(c.g, cp, k);
    MC_CHECK(ref_block_weights(f, fp, k) == bw, "block weights changed by uncoarsening" + here);
    for (int b = 0; b < k; ++b)
      MC_CHECK(static_cast<long>(q.block_weight(static_cast<BlockID>(b))) == bw[b], "stored weight " + std::to_string(q.block_weight(static_cast<BlockID>(b))) + " of block " + std::to_string(b) + " that weighs " + std::to_string(bw[b]) + here);
    if (identity) {
      check_quotient(f, c.g, fp, here);
      std::vector<int> size(c.g.n(), 0);
      for (int u = 0; u < f.n(); ++u) ++size[fp[u]];
      for (int x = 0; x < c.g.n(); ++x)
        if (size[x] > 1) MC_CHECK(c.g.vw[x] <= limit, "coarse vertex " + std::to_string(x) + " weighs " + std::to_string(c.g.vw[x]) + ", limit " + std::to_string(limit) + here);
    }
    return q;
  }
};

InitialCoarseningContext seq_context(int i) {
  InitialCoarseningContext c = kaminpar::shm::create_default_context().initial_partitioning.coarsening;
  c.convergence_threshold = i % 3 == 0 ? 0.05 : i % 3 == 1 ? 0.0 : 0.4;
  if (i >= 3) c.large_degree_threshold = i >= 6 ? 2 : 1000000;
  return c;
}

void once(InitialCoarsener &co, const InitialCoarseningContext &ctx, const RefGraph &r, const CSRGraph &g, long limit, int levels, int part, int keep, const std::string &at) {
  SeqRun run{co, ctx, {}, {}, at + " limit " + std::to_string(limit) + " part " + std::to_string(part) + " " + r.str()};
  run.start(g);
  std::string hist;
  for (int l = 0; l < levels && run.coarsen(limit, hist += "C"); ++l) {}
  int n = run.levels.back().g.n(), k = part == 0 ? n : 2;
  std::vector<BlockID> p = partition_of(n, part, k);
  if (part >= 100)
    for (int u = 0; u < n; ++u) p[u] = static_cast<BlockID>((part - 100) >> u & 1);
  auto wrap = [&](const CSRGraph &x) { return PartitionedCSRGraph(PartitionedCSRGraph::seq{}, x, static_cast<BlockID>(k), arr(p)); };
  PartitionedCSRGraph pg = wrap(*co.current());
  while (static_cast<int>(co.level()) > keep) {
    PartitionedCSRGraph q = run.uncoarsen(std::move(pg), p, k, part == 0, limit, hist += "U");
    n = run.levels.back().g.n();
    if (part == 0) { // the mapping of the next level: a fresh partition into singletons
      k = n, p = partition_of(n, 0, n);
      pg = wrap(*co.current());
    } else {
      // as a refiner would: move one vertex, pass the projected object on
      const int u = static_cast<int>(hash64(part + n) % static_cast<uint64_t>(n));
      q.set_block(static_cast<NodeID>(u), 1 - q.block(static_cast<NodeID>(u)));
      p.resize(n);
      for (int v = 0; v < n; ++v) p[v] = q.block(static_cast<NodeID>(v));
      pg = std::move(q);
    }
  }
}

void sequential_coarsener() {
  const int N = mc::thorough() ? 6 : 5;
  for (int n = 1; n <= N; ++n) {
    const auto masks = iso_classes(n);
    for (int wk = 0; wk < 6; ++wk)
      mc::run("sequential n=" + std::to_string(n) + " w" + std::to_string(wk), [&, n, wk] {
        for (int ci = 0; ci < 9; ++ci) {
          const auto ctx = seq_context(ci);
          reseed(ci);
          InitialCoarsener co(ctx); // one instance for all graphs
          for (uint32_t mask : masks) {
            const RefGraph r = with_weights(by_mask(n, mask), wk);
            const CSRGraph g = csr(r, ci % 2);
            for (long limit : {1l, 2l, 3l, 5l, r.total_vw()})
              for (int levels : {1, 2, 6})
                for (int part = 0; part < (1 << n); ++part) {
                  mc::count_case();
                  once(co, ctx, r, g, limit, levels, part == 0 ? 0 : 100 + part, levels == 6 && part % 5 == 0 ? 1 : 0, " ctx" + std::to_string(ci));
                }
          }
        }
      });
  }
  std::vector<RefGraph> gs{path(50), cycle(60), star(40), clique(14), grid(9, 9), caveman(6, 6), matching(30), empty(10), disjoint(grid(5, 5), empty(9)), prand(300, 6, 1), prand(600, 4, 2), prand(1100, 3, 3), prand(200, 20, 4), scattered(caveman(10, 7))};
  for (int order = 0; order < 3; ++order)
    for (int ci = 0; ci < 9; ++ci)
      mc::run("sequential chain " + std::to_string(order) + "/" + std::to_string(ci), [&, order, ci] {
        const auto ctx = seq_context(ci);
        for (int seed = 0; seed < (mc::thorough() ? 20 : 4); ++seed) {
          reseed(seed);
          InitialCoarsener co(ctx);
          for (size_t i = 0; i < gs.size() * 2; ++i) {
            const size_t idx = order == 0 ? i : order == 1 ? gs.size() * 2 - 1 - i : (i * 5 + 3);
            const RefGraph r = with_weights(gs[idx % gs.size()], static_cast<int>((idx + ci + seed) % 6));
            const bool sort = (i + ci) % 3 == 0;
            const CSRGraph plain = csr(r, i % 2);
            if (sort) {
              Graph s = kaminpar::shm::graph::rearrange_by_degree_buckets(const_cast<CSRGraph &>(plain));
              const RefGraph rr = read_back(s);
              for (int part : {0, 4})
                once(co, ctx, rr, s.csr_graph(), 1 + r.total_vw() / 10, 9, part, 0, " ctx" + std::to_string(ci) + " seed " + std::to_string(seed) + " sorted " + r.name);
            } else {
              for (long limit : {3l, 20l, r.total_vw() / 4})
                for (int part : {0, 1, 2, 5}) {
                  mc::count_case();
                  once(co, ctx, r, plain, limit, part == 5 ? 2 : 9, part, part == 5 ? 1 : 0, " ctx" + std::to_string(ci) + " seed " + std::to_string(seed) + " chain " + std::to_string(order) + "." + std::to_string(i));
                }
            }
          }
        }
      });
  // vertex weights around powers of two up to the largest total
  mc::run("sequential weights", [&] {
    const auto ctx = seq_context(1);
    reseed(0);
    InitialCoarsener co(ctx);
    for (auto base : {path(4), cycle(5), clique(4), star(5)})
      for (int bit = 1; bit <= 30; ++bit)
        for (long d : {-1l, 0l, 1l})
          for (int pos = 0; pos < base.n(); ++pos) {
            RefGraph r = base;
            const long w = (1l << bit) + d;
            if (w < 1) continue;
            r.vw[pos] = w;
            if (bit < 30) r.vw[(pos + 1) % base.n()] = w;
            for (long limit : {w, w + 1, 2 * w, 2147483647l})
              for (int part : {0, 2}) {
                if (limit > 2147483647l) continue;
                mc::count_case();
                once(co, ctx, r, csr(r), limit, 4, part, 0, " bit " + std::to_string(bit));
              }
          }
  });
}
} // namespace

void mc_main() {
  mc::watchdog(60);
#if defined(__SANITIZE_THREAD__)
  // the clustering and the contraction are explored on their own (C10, C11): here the whole step
  int i = 0;
  for (auto &r : {path(5), disjoint(star(4), empty(3)), caveman(2, 3), with_weights(cycle(6), 3)})
    for (int rep = 0; rep < 3; ++rep)
      for (int com = 0; com < 2; ++com) {
        const Conf conf = confs()[static_cast<size_t>(i * 7 % 36)];
        ++i;
        for (int threads : {2, 3}) {
          mc::Config cfg;
          cfg.workers = threads;
          cfg.preemptions = (threads == 2 ? 2 : 1) + (mc::thorough() ? 1 : 0);
          cfg.assign = i % 2 ? mc::Assign::RoundRobin : mc::Assign::Mirrored;
          cfg.max_exec = mc::thorough() ? 2000000 : 100000;
          cfg.monitor_locals = false;
          mc::explore("mt " + r.name + " rep" + std::to_string(rep) + " com" + std::to_string(com) + " T" + std::to_string(threads), cfg, [&] {
            reseed(i);
            Context ctx = context(conf);
            ctx.parallel.num_threads = threads;
            Graph g;
            {
              mc::RtGuard guard;
              g = make(r, rep);
              ctx.partition.setup(g, 3, 0.03, true);
              ctx.compression.enabled = rep == 2;
            }
            auto co = kaminpar::shm::factory::create_coarsener(ctx);
            Run run{*co, {}, ctx, conf.str() + " rep" + std::to_string(rep) + " " + r.str(), false};
            run.start(g);
            std::vector<NodeID> cm(g.n());
            for (NodeID u = 0; u < g.n(); ++u) cm[u] = u % 2;
            if (com) run.use(cm);
            run.coarsen("C");
            run.coarsen("CC");
            for (std::string hist = "CC"; co->level() > 0;) {
              const int n = run.levels.back().g.n();
              run.uncoarsen(partition_of(n, 0, n), n, true, hist += "U");
            }
          });
        }
      }
#else
  cluster_coarsener();
  sequential_coarsener();
#endif
}
