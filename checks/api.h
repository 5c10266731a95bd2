// Helpers of the checks that call KaMinPar through its public interface.
#pragma once
#include "kv.h"

#include <cmath>

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"

namespace kv {
using kaminpar::KaMinPar;
using kaminpar::OutputLevel;

enum class Input : int { Copy, Borrow, Set, Compressed };
inline const char *input_name(Input i) {
  static const char *n[] = {"copied", "borrowed", "set", "compressed"};
  return n[static_cast<int>(i)];
}

struct Arrays {
  std::vector<EdgeID> xadj;
  std::vector<NodeID> adjncy;
  std::vector<NodeWeight> vwgt;
  std::vector<EdgeWeight> adjwgt;
  bool operator==(const Arrays &) const = default;
};
inline Arrays arrays(const RefGraph &g) {
  Arrays a;
  a.xadj.push_back(0);
  const bool vw = !g.unit_vw(), ew = !g.unit_ew();
  for (int u = 0; u < g.n(); ++u) {
    for (auto [v, w] : g.adj[u]) {
      a.adjncy.push_back(static_cast<NodeID>(v));
      if (ew) a.adjwgt.push_back(static_cast<EdgeWeight>(w));
    }
    a.xadj.push_back(static_cast<EdgeID>(a.adjncy.size()));
    if (vw) a.vwgt.push_back(static_cast<NodeWeight>(g.vw[u]));
  }
  return a;
}

// How the limits of one call are given.
struct Limits {
  int k = 2;
  double eps = 0.03;
  enum Style { DEFAULT, EPS, ABSOLUTE, RELATIVE } style = EPS;
  std::vector<BlockWeight> abs;
  std::vector<double> rel;
  std::string str() const {
    std::ostringstream o;
    o << "k=" << k;
    if (style == EPS) o << " eps=" << eps;
    if (style == ABSOLUTE) o << " limits=" << vec(abs);
    if (style == RELATIVE) {
      o << " factors=";
      for (double d : rel) o << d << ",";
    }
    return o.str();
  }
};
inline Limits by_eps(int k, double eps) {
  Limits l;
  l.k = k, l.eps = eps;
  return l;
}
inline Limits by_default(int k) {
  Limits l;
  l.k = k, l.style = Limits::DEFAULT;
  return l;
}
inline Limits by_abs(std::vector<BlockWeight> w) {
  Limits l;
  l.k = static_cast<int>(w.size()), l.style = Limits::ABSOLUTE, l.abs = std::move(w);
  return l;
}
inline Limits by_rel(std::vector<double> w) {
  Limits l;
  l.k = static_cast<int>(w.size()), l.style = Limits::RELATIVE, l.rel = std::move(w);
  return l;
}

struct Result {
  long cut = 0;
  std::vector<BlockID> part;
};

// Keeps the arrays of a borrowed graph alive.
struct Call {
  std::unique_ptr<Arrays> arr;
};

inline void give_graph(KaMinPar &p, const RefGraph &g, Input in, std::unique_ptr<Arrays> &hold) {
  hold = std::make_unique<Arrays>(arrays(g));
  p.context().compression.enabled = in == Input::Compressed; // must match the representation
  switch (in) {
  case Input::Copy: p.copy_graph(hold->xadj, hold->adjncy, hold->vwgt, hold->adjwgt); break;
  case Input::Borrow: p.borrow_and_mutate_graph(hold->xadj, hold->adjncy, hold->vwgt, hold->adjwgt); break;
  case Input::Set: p.set_graph(mkgraph(g)); break;
  case Input::Compressed: {
    CSRGraph tmp = csr(g);
    p.set_graph(Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(tmp))));
  } break;
  }
}
inline Result compute(KaMinPar &p, int n, const Limits &l) {
  Result r;
  r.part.assign(n + 2, 0xabcdef01u); // two guards behind the output
  std::span<BlockID> out(r.part.data(), static_cast<size_t>(n));
  switch (l.style) {
  case Limits::DEFAULT: r.cut = static_cast<long>(p.compute_partition(static_cast<BlockID>(l.k), out)); break;
  case Limits::EPS: r.cut = static_cast<long>(p.compute_partition(static_cast<BlockID>(l.k), l.eps, out)); break;
  case Limits::ABSOLUTE: r.cut = static_cast<long>(p.compute_partition(l.abs, out)); break;
  case Limits::RELATIVE: r.cut = static_cast<long>(p.compute_partition(l.rel, out)); break;
  }
  MC_CHECK(r.part[n] == 0xabcdef01u && r.part[n + 1] == 0xabcdef01u, "wrote behind the output array");
  r.part.resize(n);
  return r;
}
inline Result partition(const RefGraph &g, const Context &ctx, const Limits &l, Input in, int seed) {
  KaMinPar::reseed(seed);
  KaMinPar p(mc::workers(), ctx);
  p.set_output_level(OutputLevel::QUIET);
  std::unique_ptr<Arrays> hold;
  give_graph(p, g, in, hold);
  const Arrays before = in == Input::Copy ? *hold : Arrays{};
  Result r = compute(p, g.n(), l);
  if (in == Input::Copy) MC_CHECK(*hold == before, "modified the caller's arrays");
  return r;
}

// C01
inline void check_valid(const RefGraph &g, const Result &r, int k, const std::string &at) {
  for (int u = 0; u < g.n(); ++u) MC_CHECK(r.part[u] < static_cast<BlockID>(k), "block " + std::to_string(r.part[u]) + " of vertex " + std::to_string(u) + at);
  const long cut = ref_cut(g, r.part);
  MC_CHECK(r.cut == cut, "returned cut " + std::to_string(r.cut) + " but the partition " + (g.n() <= 64 ? vec(r.part) : std::string()) + " cuts " + std::to_string(cut) + at);
}
// C02: the limits the caller can rely on for unit weights
inline std::vector<long> limits_of(const RefGraph &g, const Limits &l) {
  std::vector<long> out(l.k);
  const long W = g.total_vw();
  if (l.style == Limits::EPS || l.style == Limits::DEFAULT) {
    const double eps = l.style == Limits::EPS ? l.eps : 0.03;
    const long perfect = (W + l.k - 1) / l.k;
    // floor((1 + eps) * perfect) with a margin for the rounding of the product itself
    for (auto &x : out) x = std::max(perfect, static_cast<long>(std::floor((1.0 + eps) * static_cast<double>(perfect) + 1e-9)));
  } else if (l.style == Limits::ABSOLUTE) {
    for (int b = 0; b < l.k; ++b) out[b] = static_cast<long>(l.abs[b]);
  } else {
    for (int b = 0; b < l.k; ++b) out[b] = static_cast<long>(std::ceil(l.rel[b] * static_cast<double>(W)));
  }
  return out;
}
inline void check_balanced(const RefGraph &g, const Result &r, const Limits &l, const std::string &at) {
  const auto lim = limits_of(g, l);
  const auto w = ref_block_weights(g, r.part, l.k);
  for (int b = 0; b < l.k; ++b)
    MC_CHECK(w[b] <= lim[b], "block " + std::to_string(b) + " weighs " + std::to_string(w[b]) + " > " + std::to_string(lim[b]) + (g.n() <= 64 ? " in " + vec(r.part) : std::string()) + at);
}

struct Preset {
  std::string name;
  Context ctx;
};
inline std::vector<Preset> presets(bool with_vcycle = true) {
  std::vector<Preset> v;
  std::vector<std::string> names{"default", "fast", "strong", "largek", "terapart", "terapart-strong", "terapart-largek", "largek-fast", "largek-strong", "jet", "4xjet", "noref", "fm", "vcycle", "restricted-vcycle"};
  for (auto &n : names) {
    if (!with_vcycle && n.find("vcycle") != std::string::npos) continue;
    v.push_back({n, create_context_by_preset_name(n)});
  }
  return v;
}
// small graphs are coarsened instead of being partitioned directly
inline Context deepened(Context c, NodeID contraction_limit = 4, NodeID ip_limit = 2) {
  c.coarsening.contraction_limit = contraction_limit;
  c.initial_partitioning.coarsening.contraction_limit = ip_limit;
  return c;
}
} // namespace kv
