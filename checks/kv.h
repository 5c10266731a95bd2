// Shared helpers of the harnesses that use KaMinPar's shared-memory graphs: reference graphs (plain
// vectors), exhaustive graph enumerations, structured graph menus, reference metrics.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "mc.h"

#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/kaminpar.h"

#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/random.h"

namespace kv {
using kaminpar::Random;
using kaminpar::StaticArray;
using namespace kaminpar::shm;

// ------------------------------------------------------------------ reference graph
struct RefGraph {
  std::vector<std::vector<std::pair<int, long>>> adj; // neighbour, weight (both directions stored)
  std::vector<long> vw;
  std::string name;

  explicit RefGraph(int n = 0) : adj(n), vw(n, 1) {}
  int n() const { return static_cast<int>(adj.size()); }
  long m() const {
    long s = 0;
    for (auto &a : adj) s += static_cast<long>(a.size());
    return s;
  }
  void add(int u, int v, long w = 1) {
    adj[u].push_back({v, w});
    adj[v].push_back({u, w});
  }
  long weight(int u, int v) const {
    long s = 0;
    for (auto [x, w] : adj[u])
      if (x == v) s += w;
    return s;
  }
  long total_vw() const { return std::accumulate(vw.begin(), vw.end(), 0l); }
  bool unit_vw() const { return std::all_of(vw.begin(), vw.end(), [](long w) { return w == 1; }); }
  bool unit_ew() const {
    for (auto &a : adj)
      for (auto [v, w] : a)
        if (w != 1) return false;
    return true;
  }
  void sort_adj() {
    for (auto &a : adj) std::sort(a.begin(), a.end());
  }
  std::string str() const {
    std::ostringstream o;
    o << (name.empty() ? "" : name + " ") << "n=" << n();
    if (n() > 64) return o.str() + " m=" + std::to_string(m());
    if (!unit_vw()) {
      o << " vw=";
      for (long w : vw) o << w << ",";
    }
    o << " E=";
    for (int u = 0; u < n(); ++u)
      for (auto [v, w] : adj[u])
        if (u < v) {
          o << u << "-" << v;
          if (w != 1) o << ":" << w;
          o << " ";
        }
    return o.str();
  }
};

inline CSRGraph csr(const RefGraph &g, bool keep_weights = false) {
  StaticArray<EdgeID> nodes(g.n() + 1, kaminpar::static_array::seq);
  StaticArray<NodeID> edges(g.m(), kaminpar::static_array::seq);
  StaticArray<NodeWeight> vw(keep_weights || !g.unit_vw() ? g.n() : 0, kaminpar::static_array::seq);
  StaticArray<EdgeWeight> ew(keep_weights || !g.unit_ew() ? g.m() : 0, kaminpar::static_array::seq);
  std::size_t e = 0;
  nodes[0] = 0;
  for (int u = 0; u < g.n(); ++u) {
    for (auto [v, w] : g.adj[u]) {
      edges[e] = static_cast<NodeID>(v);
      if (ew.size()) ew[e] = static_cast<EdgeWeight>(w);
      ++e;
    }
    nodes[u + 1] = static_cast<EdgeID>(e);
    if (vw.size()) vw[u] = static_cast<NodeWeight>(g.vw[u]);
  }
  return CSRGraph(std::move(nodes), std::move(edges), std::move(vw), std::move(ew));
}
inline Graph mkgraph(const RefGraph &g, bool keep_weights = false) {
  return Graph(std::make_unique<CSRGraph>(csr(g, keep_weights)));
}

// Reads any graph object back into a reference graph.
template <typename G> RefGraph read_back(const G &g) {
  RefGraph r(static_cast<int>(g.n()));
  for (NodeID u = 0; u < g.n(); ++u) {
    r.vw[u] = static_cast<long>(g.node_weight(u));
    g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { r.adj[u].push_back({static_cast<int>(v), static_cast<long>(w)}); });
  }
  return r;
}

// ------------------------------------------------------------------ reference metrics
template <typename P> long ref_cut(const RefGraph &g, const P &part) {
  long c = 0;
  for (int u = 0; u < g.n(); ++u)
    for (auto [v, w] : g.adj[u])
      if (part[u] != part[v]) c += w;
  return c / 2;
}
template <typename P> std::vector<long> ref_block_weights(const RefGraph &g, const P &part, int k) {
  std::vector<long> b(k, 0);
  for (int u = 0; u < g.n(); ++u) b[static_cast<size_t>(part[u])] += g.vw[u];
  return b;
}

// ------------------------------------------------------------------ enumerations
// The graph on n nodes whose edge set is the bitmask (pairs in lexicographic order).
inline RefGraph by_mask(int n, uint32_t mask) {
  RefGraph g(n);
  int b = 0;
  for (int u = 0; u < n; ++u)
    for (int v = u + 1; v < n; ++v, ++b)
      if ((mask >> b) & 1) g.add(u, v);
  g.name = "G" + std::to_string(n) + "." + std::to_string(mask);
  g.sort_adj();
  return g;
}
inline uint32_t num_masks(int n) { return 1u << (n * (n - 1) / 2); }

// All graphs with n nodes up to isomorphism (canonical representative: smallest mask), n <= 6.
inline std::vector<uint32_t> iso_classes(int n) {
  std::vector<uint32_t> out;
  std::vector<std::vector<int>> perms;
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::vector<std::pair<int, int>> pairs;
  std::vector<std::vector<int>> id(n, std::vector<int>(n, -1));
  for (int u = 0; u < n; ++u)
    for (int v = u + 1; v < n; ++v) {
      id[u][v] = id[v][u] = static_cast<int>(pairs.size());
      pairs.push_back({u, v});
    }
  do {
    std::vector<int> e;
    for (auto [u, v] : pairs) e.push_back(id[p[u]][p[v]]);
    perms.push_back(e);
  } while (std::next_permutation(p.begin(), p.end()));
  std::vector<char> seen(num_masks(n), 0);
  for (uint32_t m = 0; m < num_masks(n); ++m) {
    if (seen[m]) continue;
    out.push_back(m);
    for (auto &e : perms) {
      uint32_t q = 0;
      for (size_t i = 0; i < e.size(); ++i)
        if ((m >> i) & 1) q |= 1u << e[i];
      seen[q] = 1;
    }
  }
  return out;
}

// Deterministic pseudo-random mixing for menu weights (no sampling: a fixed function of the index).
inline uint64_t hash64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_add(uint64_t h, uint64_t v) { return hash64(h * 31 + v); }

// weights menu: 0 unit, 1 node weights 1..3, 2 edge weights 1..3, 3 both, 4 large node weights, 5 large edge weights
inline RefGraph with_weights(RefGraph g, int kind) {
  if (kind == 1 || kind == 3)
    for (int u = 0; u < g.n(); ++u) g.vw[u] = 1 + static_cast<long>(hash64(u * 7 + 1) % 3);
  if (kind == 4)
    for (int u = 0; u < g.n(); ++u) g.vw[u] = (u % 3 == 0) ? 50 : 1 + u % 4;
  if (kind == 2 || kind == 3 || kind == 5)
    for (int u = 0; u < g.n(); ++u)
      for (auto &[v, w] : g.adj[u]) {
        const int a = std::min(u, v), b = std::max(u, v);
        w = 1 + static_cast<long>(hash64(static_cast<uint64_t>(a) * 1000003 + b) % (kind == 5 ? 1000 : 3));
      }
  if (kind) g.name += ".w" + std::to_string(kind);
  return g;
}

inline RefGraph path(int n) { RefGraph g(n); for (int i = 0; i + 1 < n; ++i) g.add(i, i + 1); g.name = "path" + std::to_string(n); g.sort_adj(); return g; }
inline RefGraph cycle(int n) { RefGraph g(n); for (int i = 0; i < n; ++i) if (n > 2 || i == 0) g.add(i, (i + 1) % n); g.name = "cycle" + std::to_string(n); g.sort_adj(); return g; }
inline RefGraph star(int n) { RefGraph g(n); for (int i = 1; i < n; ++i) g.add(0, i); g.name = "star" + std::to_string(n); g.sort_adj(); return g; }
inline RefGraph clique(int n) { RefGraph g(n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.add(i, j); g.name = "clique" + std::to_string(n); g.sort_adj(); return g; }
inline RefGraph grid(int r, int c) {
  RefGraph g(r * c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) {
      if (i + 1 < r) g.add(i * c + j, (i + 1) * c + j);
      if (j + 1 < c) g.add(i * c + j, i * c + j + 1);
    }
  g.name = "grid" + std::to_string(r) + "x" + std::to_string(c);
  g.sort_adj();
  return g;
}
inline RefGraph empty(int n) { RefGraph g(n); g.name = "empty" + std::to_string(n); return g; }
inline RefGraph matching(int n) { RefGraph g(n); for (int i = 0; i + 1 < n; i += 2) g.add(i, i + 1); g.name = "matching" + std::to_string(n); return g; }
// c cliques of size s, consecutive ones joined by one edge
inline RefGraph caveman(int c, int s) {
  RefGraph g(c * s);
  for (int b = 0; b < c; ++b) {
    for (int i = 0; i < s; ++i)
      for (int j = i + 1; j < s; ++j) g.add(b * s + i, b * s + j);
    if (b + 1 < c) g.add(b * s + s - 1, (b + 1) * s);
  }
  g.name = "caveman" + std::to_string(c) + "x" + std::to_string(s);
  g.sort_adj();
  return g;
}
// pseudo-random graph with a fixed seed (a fixed member of the menu)
inline RefGraph prand(int n, int avg_deg, uint64_t seed) {
  RefGraph g(n);
  std::set<std::pair<int, int>> e;
  const long want = static_cast<long>(n) * avg_deg / 2;
  for (uint64_t i = 0; static_cast<long>(e.size()) < want && i < static_cast<uint64_t>(want) * 20; ++i) {
    int u = static_cast<int>(hash64(seed * 1000003 + 2 * i) % n), v = static_cast<int>(hash64(seed * 1000003 + 2 * i + 1) % n);
    if (u != v) e.insert({std::min(u, v), std::max(u, v)});
  }
  for (auto [u, v] : e) g.add(u, v);
  g.name = "prand" + std::to_string(n) + "d" + std::to_string(avg_deg) + "s" + std::to_string(seed);
  g.sort_adj();
  return g;
}
inline RefGraph disjoint(const RefGraph &a, const RefGraph &b) {
  RefGraph g(a.n() + b.n());
  for (int u = 0; u < a.n(); ++u) { g.adj[u] = a.adj[u]; g.vw[u] = a.vw[u]; }
  for (int u = 0; u < b.n(); ++u) {
    for (auto [v, w] : b.adj[u]) g.adj[a.n() + u].push_back({a.n() + v, w});
    g.vw[a.n() + u] = b.vw[u];
  }
  g.name = a.name + "+" + b.name;
  return g;
}
// relabel: node u becomes p[u]
inline RefGraph relabel(const RefGraph &a, const std::vector<int> &p) {
  RefGraph g(a.n());
  for (int u = 0; u < a.n(); ++u) {
    g.vw[p[u]] = a.vw[u];
    for (auto [v, w] : a.adj[u]) g.adj[p[u]].push_back({p[v], w});
  }
  g.name = a.name + "~";
  g.sort_adj();
  return g;
}
inline RefGraph scattered(const RefGraph &a, uint64_t seed = 1) { // fixed permutation
  std::vector<int> p(a.n());
  std::iota(p.begin(), p.end(), 0);
  for (int i = a.n() - 1; i > 0; --i) std::swap(p[i], p[hash64(seed * 77 + i) % (i + 1)]);
  return relabel(a, p);
}

template <typename C> std::string vec(const C &c) {
  std::ostringstream o;
  o << "[";
  bool f = true;
  for (auto x : c) { o << (f ? "" : ",") << +x; f = false; }
  o << "]";
  return o.str();
}

// Pre-creates the per-worker random generators, then reseeds: call at the start of each execution.
inline void reseed(int seed) {
  mc::on_each_worker([] { (void)Random::instance(); });
  Random::reseed(seed);
}
} // namespace kv
