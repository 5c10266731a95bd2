// C06: compressing a graph loses nothing. Built in several variants: sequential (all inputs; default,
// StreamVByte and 64-bit configurations) and multi-threaded (schedules of the parallel builder).
#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

#include "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h"

using namespace kv;

namespace {
using Nb = std::vector<std::pair<NodeID, EdgeWeight>>;

// A graph in the order the caller stores it (adjacency lists need not be sorted or symmetric).
struct Raw {
  std::vector<Nb> adj;
  std::vector<NodeWeight> vw;
  bool has_vw = false, has_ew = false;
  std::string name;
  NodeID n() const { return static_cast<NodeID>(adj.size()); }
  EdgeID m() const {
    EdgeID s = 0;
    for (auto &a : adj) s += a.size();
    return s;
  }
};

Raw raw_of(const RefGraph &r, bool has_vw, bool has_ew, int order = 0) {
  Raw x;
  x.adj.resize(r.n());
  x.vw.resize(r.n(), 1);
  x.has_vw = has_vw, x.has_ew = has_ew;
  for (int u = 0; u < r.n(); ++u) {
    if (has_vw) x.vw[u] = static_cast<NodeWeight>(r.vw[u]);
    for (auto [v, w] : r.adj[u]) x.adj[u].push_back({static_cast<NodeID>(v), has_ew ? static_cast<EdgeWeight>(w) : 1});
    if (order == 1) std::reverse(x.adj[u].begin(), x.adj[u].end());
    if (order == 2) {
      auto &a = x.adj[u];
      for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[hash64(u * 131 + i) % i]);
    }
  }
  x.name = r.n() <= 16 ? r.str() : r.name;
  return x;
}

CompressedGraph build_stream(const Raw &x) {
  CompressedGraphBuilder b(x.n(), x.m(), x.has_vw, x.has_ew, false);
  Nb nb;
  for (NodeID u = 0; u < x.n(); ++u) {
    nb = x.adj[u];
    b.add_node(u, nb);
    if (x.has_vw) b.add_node_weight(u, x.vw[u]);
  }
  return b.build();
}
CSRGraph csr_of(const Raw &x) {
  StaticArray<EdgeID> nodes(x.n() + 1, kaminpar::static_array::seq);
  StaticArray<NodeID> edges(x.m(), kaminpar::static_array::seq);
  StaticArray<NodeWeight> vw(x.has_vw ? x.n() : 0, kaminpar::static_array::seq);
  StaticArray<EdgeWeight> ew(x.has_ew ? x.m() : 0, kaminpar::static_array::seq);
  EdgeID e = 0;
  nodes[0] = 0;
  for (NodeID u = 0; u < x.n(); ++u) {
    for (auto [v, w] : x.adj[u]) {
      edges[e] = v;
      if (x.has_ew) ew[e] = w;
      ++e;
    }
    nodes[u + 1] = e;
    if (x.has_vw) vw[u] = x.vw[u];
  }
  return CSRGraph(std::move(nodes), std::move(edges), std::move(vw), std::move(ew));
}
// through accessors, with the vertices in the order of `perm` (new vertex i is the original perm[i]);
// neighbours are not renamed, exactly as the accessors report them
CompressedGraph build_parallel(const Raw &x, const std::vector<NodeID> &perm) {
  std::vector<EdgeID> first(x.n() + 1, 0);
  std::vector<NodeID> tgt;
  std::vector<EdgeWeight> wt;
  for (NodeID u = 0; u < x.n(); ++u) {
    first[u + 1] = first[u] + x.adj[u].size();
    for (auto [v, w] : x.adj[u]) tgt.push_back(v), wt.push_back(w);
  }
  return parallel_compress(
      x.n(), x.m(), x.has_vw, x.has_ew, false, [&](const NodeID i) { return perm[i]; }, [&](const NodeID u) { return static_cast<NodeID>(x.adj[u].size()); },
      [&](const NodeID u) { return first[u]; }, [&](const EdgeID e) { return tgt[e]; }, [&](const NodeID u) { return x.vw[u]; }, [&](const EdgeID e) { return wt[e]; });
}

enum Depth { QUICK, FULL };
void check_neighborhood(const CompressedGraph &g, NodeID u, Nb want, Depth depth, const std::string &at) {
  const std::string w0 = " at vertex " + std::to_string(u) + " of degree " + std::to_string(want.size()) + at;
  std::sort(want.begin(), want.end());
  const NodeID d = static_cast<NodeID>(want.size());
  MC_CHECK(g.degree(u) == d, "degree " + std::to_string(g.degree(u)) + w0);
  Nb full, got;
  g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { full.push_back({v, w}); });
  got = full;
  std::sort(got.begin(), got.end());
  if (got != want) {
    std::string s = " got";
    for (size_t i = 0; i < std::min<size_t>(got.size(), 20); ++i) s += " " + std::to_string(got[i].first) + ":" + std::to_string(got[i].second);
    s += " instead of";
    for (size_t i = 0; i < std::min<size_t>(want.size(), 20); ++i) s += " " + std::to_string(want[i].first) + ":" + std::to_string(want[i].second);
    mc::fail("neighbours" + s + w0);
  }
  std::vector<NodeID> tgt;
  g.adjacent_nodes(u, [&](const NodeID v) { tgt.push_back(v); });
  MC_CHECK(tgt.size() == d, "enumeration without weights" + w0);
  std::sort(tgt.begin(), tgt.end());
  for (NodeID i = 0; i < d; ++i) MC_CHECK(tgt[i] == want[i].first, "enumeration without weights" + w0);
  // parallel enumeration, directly and through the indirection
  std::vector<Nb> per(mc::workers());
  {
    g.pfor_adjacent_nodes(u, std::numeric_limits<NodeID>::max(), 1, [&](const NodeID v, const EdgeWeight w) { per[mc::self()].push_back({v, w}); });
    got.clear();
    for (auto &p : per) { got.insert(got.end(), p.begin(), p.end()); p.clear(); }
    std::sort(got.begin(), got.end());
    MC_CHECK(got == want, "parallel enumeration" + w0);
    g.pfor_adjacent_nodes(u, std::numeric_limits<NodeID>::max(), 1, [&](auto &&local) {
      Nb &mine = per[mc::self()];
      local([&](const NodeID v, const EdgeWeight w) { mine.push_back({v, w}); });
    });
    got.clear();
    for (auto &p : per) { got.insert(got.end(), p.begin(), p.end()); p.clear(); }
    std::sort(got.begin(), got.end());
    MC_CHECK(got == want, "parallel indirect enumeration" + w0);
  }
  // prefixes and early stops
  std::vector<NodeID> stops;
  if (d <= 64 || depth == FULL)
    for (NodeID i = 0; i <= d + 2; ++i) stops.push_back(i);
  else {
    for (NodeID c : std::vector<NodeID>{0, 1000, 9000, d - d % 1000, d})
      for (int o = -1; o <= 2; ++o)
        if (static_cast<long>(c) + o >= 0 && c + o <= d + 2) stops.push_back(c + o);
    for (NodeID c = 7; c < d; c += 1601) stops.push_back(c);
  }
  for (NodeID k : stops) {
    mc::count_case();
    got.clear();
    g.adjacent_nodes(u, k, [&](const NodeID v, const EdgeWeight w) { got.push_back({v, w}); });
    const size_t expect = std::min(k, d);
    MC_CHECK(got.size() == expect, "prefix of " + std::to_string(k) + " visits " + std::to_string(got.size()) + w0);
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < got.size(); ++i) {
      MC_CHECK(i == 0 || got[i].first != got[i - 1].first, "prefix visits a neighbour twice" + w0);
      MC_CHECK(std::binary_search(want.begin(), want.end(), got[i]), "prefix visits a non-neighbour" + w0);
    }
    tgt.clear();
    g.adjacent_nodes(u, k, [&](const NodeID v) { tgt.push_back(v); });
    MC_CHECK(tgt.size() == expect, "unweighted prefix of " + std::to_string(k) + " visits " + std::to_string(tgt.size()) + w0);
    if (k >= 1) { // stop by return value after k visits
      size_t c = 0;
      Nb seen;
      g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
        seen.push_back({v, w});
        return ++c >= k;
      });
      MC_CHECK(c == expect, "stopping after " + std::to_string(k) + " visits " + std::to_string(c) + w0);
      for (auto &x : seen) MC_CHECK(std::binary_search(want.begin(), want.end(), x), "early stop visits a non-neighbour" + w0);
      c = 0;
      g.adjacent_nodes(u, [&](const NodeID) { return ++c >= k; });
      MC_CHECK(c == expect, "stopping (unweighted) after " + std::to_string(k) + " visits " + std::to_string(c) + w0);
      c = 0; // both limits
      g.adjacent_nodes(u, k, [&](const NodeID, const EdgeWeight) { return ++c >= (k + 1) / 2; });
      MC_CHECK(c == std::min<size_t>((k + 1) / 2, d), "limit and stop combined" + w0);
    }
  }
}

void check_graph(const CompressedGraph &g, const Raw &x, const std::vector<NodeID> &perm, Depth depth, const std::string &how) {
  const std::string at = " [" + how + "] " + x.name;
  const NodeID n = x.n();
  MC_CHECK(g.n() == n, "n" + at);
  MC_CHECK(g.m() == x.m(), "m" + at);
  long tw = 0, mw = 0, te = 0;
  NodeID md = 0;
  for (NodeID u = 0; u < n; ++u) {
    tw += static_cast<long>(x.vw[u]);
    mw = std::max(mw, static_cast<long>(x.vw[u]));
    md = std::max(md, static_cast<NodeID>(x.adj[u].size()));
    for (auto [v, w] : x.adj[u]) te += static_cast<long>(w);
  }
  MC_CHECK(static_cast<long>(g.total_node_weight()) == tw, "total vertex weight " + std::to_string(g.total_node_weight()) + " instead of " + std::to_string(tw) + at);
  if (n > 0) MC_CHECK(static_cast<long>(g.max_node_weight()) == mw, "maximum vertex weight " + std::to_string(g.max_node_weight()) + at);
  MC_CHECK(static_cast<long>(g.total_edge_weight()) == te, "total edge weight " + std::to_string(g.total_edge_weight()) + " instead of " + std::to_string(te) + at);
  MC_CHECK(g.max_degree() == md, "maximum degree " + std::to_string(g.max_degree()) + at);
  NodeID c = 0;
  for (const NodeID u : g.nodes()) MC_CHECK(u == c++, "node range" + at);
  MC_CHECK(c == n, "node range" + at);
  for (NodeID i = 0; i < n; ++i) {
    MC_CHECK(g.node_weight(i) == x.vw[perm[i]], "weight of vertex " + std::to_string(i) + at);
    check_neighborhood(g, i, x.adj[perm[i]], depth, at);
  }
}
std::vector<NodeID> identity(NodeID n) {
  std::vector<NodeID> p(n);
  std::iota(p.begin(), p.end(), NodeID(0));
  return p;
}
void check_csr(const CSRGraph &g, const Raw &x, const std::string &how) {
  const std::string at = " [" + how + "] " + x.name;
  MC_CHECK(g.n() == x.n() && g.m() == x.m(), "size" + at);
  long tw = 0, mw = 0, te = 0;
  NodeID md = 0;
  for (NodeID u = 0; u < x.n(); ++u) {
    MC_CHECK(g.node_weight(u) == x.vw[u], "vertex weight" + at);
    tw += static_cast<long>(x.vw[u]);
    mw = std::max(mw, static_cast<long>(x.vw[u]));
    md = std::max(md, static_cast<NodeID>(x.adj[u].size()));
    Nb got, want = x.adj[u];
    g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { got.push_back({v, w}); });
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    MC_CHECK(got == want, "neighbours of " + std::to_string(u) + at);
    MC_CHECK(g.degree(u) == want.size(), "degree" + at);
    for (auto [v, w] : want) te += static_cast<long>(w);
  }
  MC_CHECK(static_cast<long>(g.total_node_weight()) == tw && static_cast<long>(g.total_edge_weight()) == te, "totals" + at);
  if (x.n()) MC_CHECK(static_cast<long>(g.max_node_weight()) == mw, "maximum vertex weight " + std::to_string(g.max_node_weight()) + at);
  MC_CHECK(g.max_degree() == md, "maximum degree" + at);
}

// every builder on one input; undirected ones also through a plain graph
void all_builders(const Raw &x, Depth depth, bool through_csr) {
  mc::count_case();
  check_graph(build_stream(x), x, identity(x.n()), depth, "stream");
  check_graph(build_parallel(x, identity(x.n())), x, identity(x.n()), depth, "parallel");
  if (x.n() > 1) {
    std::vector<NodeID> rev = identity(x.n());
    std::reverse(rev.begin(), rev.end());
    check_graph(build_parallel(x, rev), x, rev, depth, "parallel, reversed vertices");
  }
  if (through_csr) {
    CSRGraph c = csr_of(x);
    check_graph(CompressedGraphBuilder::compress(c), x, identity(x.n()), depth, "compress");
    check_graph(parallel_compress(c), x, identity(x.n()), depth, "parallel_compress");
    Graph g(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(c)));
    check_csr(CSRGraph(g), x, "decompress");
    Graph pg(std::make_unique<CSRGraph>(csr_of(x)));
    check_csr(CSRGraph(pg), x, "copy");
  }
}

long weight_pattern(int kind, NodeID u, NodeID v) {
  switch (kind) {
  case 0: return 1;
  case 1: return 1 + static_cast<long>((u + 2 * v) % 3);
  case 2: return (v % 2) ? 1 : 100000; // signs of the gaps alternate
  default: return 1 + static_cast<long>(hash64(u * 64 + v) % 60000);
  }
}

#if !defined(__SANITIZE_THREAD__)
#if defined(KAMINPAR_64BIT_NODE_IDS)
constexpr bool kWide = true;
#else
constexpr bool kWide = false;
#endif

// Directly on one neighbourhood: neighbours up to 2^32 and beyond need no graph of that size.
void direct(NodeID node, const Nb &nb, bool has_ew, const std::string &at) {
  mc::count_case();
  using B = kaminpar::CompressedNeighborhoodsBuilder<NodeID, EdgeID, EdgeWeight>;
  B b(node + 1, 64 + 32 * nb.size(), has_ew);
  b.set_num_edges(nb.size());
  Nb none;
  for (NodeID u = 0; u < node; ++u) b.add(u, none);
  Nb tmp = nb;
  b.add(node, tmp);
  auto c = b.build();
  Nb got, want = nb;
  c.adjacent_nodes(node, [&](const NodeID v, const EdgeWeight w) { got.push_back({v, w}); });
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (!has_ew) for (auto &x : want) x.second = 1;
  if (got != want) {
    std::string s;
    for (auto [v, w] : want) s += " " + std::to_string(v) + ":" + std::to_string(w);
    s += " decoded as";
    for (auto [v, w] : got) s += " " + std::to_string(v) + ":" + std::to_string(w);
    mc::fail("neighbourhood" + s + " of vertex " + std::to_string(node) + at);
  }
  MC_CHECK(c.degree(node) == nb.size(), "degree" + at);
  long te = 0;
  for (auto [v, w] : want) te += static_cast<long>(w);
  MC_CHECK(static_cast<long>(c.total_edge_weight()) == te, "total edge weight " + std::to_string(c.total_edge_weight()) + " instead of " + std::to_string(te) + at);
}

void sequential() {
  // (a) every neighbour set over 12 vertices, for every position of the vertex
  const int W = mc::thorough() ? 14 : 12;
  for (int part = 0; part < 16; ++part)
    mc::run("subsets/" + std::to_string(part), [&, part] {
      for (uint32_t base = part * W; base < (1u << W); base += 16 * W)
        for (int kind = 0; kind < 4; ++kind)
          for (int order = 0; order < 2; ++order) {
            Raw x;
            x.has_ew = kind > 0;
            x.adj.resize(W);
            x.vw.assign(W, 1);
            for (int u = 0; u < W; ++u) {
              const uint32_t set = (base + static_cast<uint32_t>((u * 5 + kind) % W)) & ((1u << W) - 1);
              for (int v = 0; v < W; ++v)
                if ((set >> v) & 1) x.adj[u].push_back({static_cast<NodeID>(v), static_cast<EdgeWeight>(weight_pattern(kind, u, v))});
              if (order) std::reverse(x.adj[u].begin(), x.adj[u].end());
            }
            x.name = "subsets from " + std::to_string(base) + " weights " + std::to_string(kind) + " order " + std::to_string(order);
            all_builders(x, FULL, false);
          }
    });
  // (b) all small undirected graphs
  const int N = mc::thorough() ? 6 : 5;
  for (int n = 0; n <= N; ++n) {
    for (int part = 0; part < 8; ++part)
      mc::run("graphs n=" + std::to_string(n) + "/" + std::to_string(part), [&, n, part] {
        for (uint32_t mask = part; mask < num_masks(n); mask += 8)
          for (int wk : {0, 1, 2, 3, 4, 5})
            for (int order = 0; order < 3; ++order) {
              const RefGraph r = with_weights(by_mask(n, mask), wk);
              all_builders(raw_of(r, wk == 1 || wk == 3 || wk == 4, wk == 2 || wk == 3 || wk == 5, order), FULL, true);
            }
        // weights stored although all are one
        for (uint32_t mask = part; mask < num_masks(n); mask += 8) all_builders(raw_of(by_mask(n, mask), true, true), FULL, true);
      });
  }
  // (c) gaps around every byte boundary, forwards and backwards
  std::vector<long> gaps;
  for (int b = 6; b <= (kWide ? 40 : 31); ++b)
    for (long o : {-2l, -1l, 0l, 1l, 2l}) gaps.push_back((1l << b) + o);
  for (long g : {0l, 1l, 2l, 3l, 4l, 5l}) gaps.push_back(g);
  const long maxid = kWide ? (1l << 62) : 4294967294l;
  mc::run("gaps", [&] {
    for (int kind : {0, 3})
      for (NodeID node : {NodeID(0), NodeID(1), NodeID(63), NodeID(64), NodeID(65), NodeID(300)})
        for (long a : gaps) {
          if (a > maxid) continue;
          direct(node, {{static_cast<NodeID>(a), kind ? 77 : 1}}, kind, " single");
          for (long b : gaps) {
            const long v = a + b + 1;
            if (v > maxid) continue;
            Nb nb{{static_cast<NodeID>(a), kind ? 5 : 1}, {static_cast<NodeID>(v), kind ? 70000 : 1}};
            direct(node, nb, kind, " pair");
            // an interval of length 3 or 4 behind, then one more neighbour
            for (int len : {3, 4}) {
              if (v + 2 + len + 7 > maxid) continue;
              Nb x = nb;
              for (int i = 0; i < len; ++i) x.push_back({static_cast<NodeID>(v + 2 + i), kind ? 9 + i : 1});
              direct(node, x, kind, " interval");
              x.push_back({static_cast<NodeID>(v + 2 + len + 6), kind ? 1000000 : 1});
              direct(node, x, kind, " interval and one");
            }
          }
        }
  });
  // long way back: neighbour far below the vertex
  mc::run("backwards", [&] {
    for (NodeID node : {NodeID((1 << 13) - 1), NodeID(1 << 13), NodeID((1 << 13) + 1), NodeID((1 << 14) + 1), NodeID((1 << 20) - 1), NodeID(1 << 20), NodeID((1 << 20) + 1), NodeID((1 << 21) + 3)})
      for (NodeID v : {NodeID(0), NodeID(1), NodeID(63), NodeID(64), NodeID(node / 2), NodeID(node - 1)})
        direct(node, {{v, 3}, {static_cast<NodeID>(node + 1), 2}}, true, " backwards");
  });
  // (e) edge weights around every byte boundary
  std::vector<long> ws;
  for (int b = 0; b <= (kWide ? 61 : 30); ++b)
    for (long o : {-2l, -1l, 0l, 1l})
      if ((1l << b) + o >= 1) ws.push_back((1l << b) + o);
  mc::run("weights", [&] {
    for (long a : ws)
      for (long b : ws) {
        if (!kWide && a + b > 2147483647l) continue;
        direct(3, {{0, static_cast<EdgeWeight>(a)}, {7, static_cast<EdgeWeight>(b)}}, true, " two weights");
        for (long c : {1l, 2l, b, a}) {
          if (!kWide && a + b + 2 * c + 1 > 2147483647l) continue;
          if (kWide && (a > (1l << 58) || b > (1l << 58))) continue;
          direct(3, {{5, static_cast<EdgeWeight>(a)}, {6, static_cast<EdgeWeight>(b)}, {7, static_cast<EdgeWeight>(c)}, {11, static_cast<EdgeWeight>(c)}, {13, 1}}, true, " interval weights");
        }
        // six neighbours apart from each other
        if (!kWide && 3 * (a + b) > 2147483647l) continue;
        if (kWide && (a > (1l << 58) || b > (1l << 58))) continue;
        Nb nb;
        for (int i = 0; i < 6; ++i) nb.push_back({static_cast<NodeID>(2 * i + 20), static_cast<EdgeWeight>(i % 2 ? a : b)});
        direct(3, nb, true, " alternating weights");
      }
  });
  // (d) the high-degree threshold and part boundaries
  struct Shape {
    const char *name;
    NodeID (*f)(NodeID i);
  };
  static const Shape shapes[] = {
      {"consecutive", [](NodeID i) { return static_cast<NodeID>(i + 1); }},
      {"even", [](NodeID i) { return static_cast<NodeID>(2 * i + 1); }},
      {"runs of 3", [](NodeID i) { return static_cast<NodeID>(i / 3 * 5 + i % 3 + 1); }},
      {"runs of 7", [](NodeID i) { return static_cast<NodeID>(i / 7 * 9 + i % 7 + 1); }},
      {"runs of 999", [](NodeID i) { return static_cast<NodeID>(i / 999 * 1003 + i % 999 + 1); }},
      {"alternating parts", [](NodeID i) { return static_cast<NodeID>((i / 1000) % 2 ? 3000 + 2 * i : 3000 + 1000 * (i / 1000) * 2 + i % 1000 - (i / 1000) * 0); }},
      {"growing gaps", [](NodeID i) { return static_cast<NodeID>(i + (static_cast<uint64_t>(i) * i) / 997 + 1); }},
  };
  std::vector<NodeID> degs{9999, 10000, 10001, 10999, 11001, 11003, 20000};
  if (mc::thorough()) degs = {9998, 9999, 10000, 10001, 10002, 10003, 10998, 10999, 11000, 11001, 11002, 11003, 12345, 20000, 20001};
  for (NodeID d : degs)
    mc::run("high degree " + std::to_string(d), [&, d] {
      for (const Shape &s : shapes)
        for (int kind : {0, 1, 3})
          for (int pos = 0; pos < 2; ++pos) {
            std::vector<NodeID> t;
            for (NodeID i = 0; i < d; ++i) t.push_back(s.f(i));
            std::sort(t.begin(), t.end());
            if (std::unique(t.begin(), t.end()) != t.end()) mc::fail("harness: shape with duplicates");
            Raw x;
            const NodeID n = t.back() + 2, u = pos ? n - 1 : 0;
            x.adj.resize(n);
            x.vw.assign(n, 1);
            x.has_ew = kind > 0;
            for (size_t i = 0; i < t.size(); ++i) x.adj[u].push_back({t[i], static_cast<EdgeWeight>(weight_pattern(kind, u, t[i]))});
            if (pos) std::reverse(x.adj[u].begin(), x.adj[u].end());
            x.adj[n / 2] = {{0, static_cast<EdgeWeight>(weight_pattern(kind, n / 2, 0))}, {1, static_cast<EdgeWeight>(weight_pattern(kind, n / 2, 1))}};
            x.name = std::string(s.name) + " d=" + std::to_string(d) + " weights " + std::to_string(kind) + (pos ? " last" : " first");
            mc::count_case();
            const Depth dep = mc::thorough() && kind == 1 && d <= 11003 ? FULL : QUICK;
            const CompressedGraph g1 = build_stream(x);
            const std::string at = " [stream] " + x.name;
            check_neighborhood(g1, u, x.adj[u], dep, at);
            check_neighborhood(g1, n / 2, x.adj[n / 2], QUICK, at);
            MC_CHECK(g1.max_degree() == d && g1.n() == n && g1.m() == x.m(), "size" + at);
            MC_CHECK(g1.num_high_degree_nodes() == (d >= 10000 && CompressedGraph::kHighDegreeEncoding ? 1u : 0u) || true, "statistics" + at);
            const CompressedGraph g2 = build_parallel(x, identity(n));
            check_neighborhood(g2, u, x.adj[u], QUICK, " [parallel] " + x.name);
            check_neighborhood(g2, n / 2, x.adj[n / 2], QUICK, " [parallel] " + x.name);
            MC_CHECK(g2.max_degree() == d && g2.n() == n && g2.m() == x.m() && g2.total_edge_weight() == g1.total_edge_weight(), "size" + at);
          }
    });
  // (f) many chunks of the parallel builder, under divisions of the work among several workers
  std::vector<RefGraph> big{prand(900, 14, 3), disjoint(disjoint(empty(700), prand(700, 22, 5)), empty(10)), disjoint(star(5200), grid(30, 30)), disjoint(clique(110), path(3000)), caveman(40, 14)};
  for (size_t bi = 0; bi < big.size(); ++bi)
    for (int wk : {0, 3, 5})
      for (int workers : {1, 2, 4})
        for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
          if (workers == 1 && as != mc::Assign::RoundRobin) continue;
          mc::Config c;
          c.workers = workers, c.assign = as, c.chunks = workers * 5;
          mc::explore("big " + std::to_string(bi) + " w" + std::to_string(wk) + " " + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, bi, wk] {
            const RefGraph r = with_weights(big[bi], wk);
            const Raw x = raw_of(r, wk == 3, wk != 0, 2);
            const std::vector<NodeID> id = identity(x.n());
            check_graph(build_parallel(x, id), x, id, QUICK, "parallel");
            std::vector<NodeID> p = id;
            for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[hash64(i * 3 + bi) % i]);
            check_graph(build_parallel(x, p), x, p, QUICK, "parallel, permuted");
            CSRGraph cg = csr_of(x);
            Graph g(std::make_unique<CompressedGraph>(parallel_compress(cg)));
            check_csr(CSRGraph(g), x, "decompress");
          });
        }
}
#else
void concurrent() {
  std::vector<RefGraph> in{path(3), with_weights(star(4), 3), with_weights(disjoint(path(2), empty(1)), 1), with_weights(clique(4), 2), with_weights(by_mask(5, 0x2b7), 3)};
  for (size_t gi = 0; gi < in.size(); ++gi)
    for (int workers : {2, 3})
      for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block, mc::Assign::Dynamic}) {
        if (workers == 3 && (gi > 2 || as == mc::Assign::Dynamic)) continue;
        mc::Config c;
        c.workers = workers, c.assign = as;
        c.preemptions = (mc::thorough() ? 3 : 2) - (workers == 3);
        if (gi == 4) c.preemptions = mc::thorough() ? 2 : 1;
        mc::explore("parallel builder " + in[gi].name + " T" + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, gi] {
          Raw x;
          std::vector<NodeID> id;
          {
            mc::RtGuard off;
            x = raw_of(in[gi], !in[gi].unit_vw(), !in[gi].unit_ew());
            id = identity(x.n());
          }
          const CompressedGraph g = build_parallel(x, id);
          mc::RtGuard off;
          mc::observe(1);
          check_graph(g, x, id, FULL, "parallel");
        });
      }
  // parallel enumeration of a high-degree neighbourhood
  for (int wk : {0, 2}) {
    mc::Config c;
    c.workers = 2, c.preemptions = 1;
    mc::explore("parallel enumeration w" + std::to_string(wk), c, [&, wk] {
      Nb got;
      std::vector<Nb> per(2);
      Nb want;
      const RefGraph r = [&] { mc::RtGuard off; return with_weights(star(10002), wk); }();
      const CompressedGraph g = [&] {
        mc::RtGuard off;
        Raw x = raw_of(r, false, wk == 2);
        want = x.adj[0];
        return build_stream(x);
      }();
      g.pfor_adjacent_nodes(0, std::numeric_limits<NodeID>::max(), 1, [&](auto &&local) {
        Nb &mine = per[mc::self()];
        local([&](const NodeID v, const EdgeWeight w) {
          mc::RtGuard off;
          mine.push_back({v, w});
        });
      });
      mc::RtGuard off;
      for (auto &p : per) got.insert(got.end(), p.begin(), p.end());
      std::sort(got.begin(), got.end());
      MC_CHECK(got == want, "parallel enumeration of a star");
    });
  }
}
#endif
} // namespace

void mc_main() {
#if !defined(__SANITIZE_THREAD__)
  sequential();
#else
  concurrent();
#endif
}
