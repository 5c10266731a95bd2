// C04: a partitioner object can be reused in any order of calls.
#include "api.h"

#include <map>

using namespace kv;

namespace {
struct Step {
  int graph;  // index into the graphs, -1: keep the current one
  int limits; // index into the ways to give limits
  int seed;
};
struct Item {
  RefGraph g;
  Input in;
};
RefGraph weighted(const RefGraph &g) { return with_weights(g, 3); }

// the ways to give limits, depending on the graph of the call
Limits limits(int i, const RefGraph &g) {
  const int W = static_cast<int>(g.total_vw());
  switch (i) {
  case 0: return by_default(2);
  case 1: return by_eps(3, 0.5);
  case 2: return by_eps(1, 0.0);
  case 3: return by_abs({static_cast<BlockWeight>(W), static_cast<BlockWeight>((W + 1) / 2)});
  case 4: return by_rel({0.5, 0.4, 0.3});
  case 5: return by_eps(4, 0.0);
  case 6: return by_eps(2, 0.5);
  default: return by_default(5);
  }
}

struct World {
  const Preset &preset;
  const std::vector<Item> &items;
  std::map<std::tuple<int, int, int>, Result> memo; // results of fresh instances

  const Result &fresh(int gi, int li, int seed) {
    auto [it, isnew] = memo.try_emplace({gi, li, seed});
    if (isnew) it->second = partition(items[gi].g, preset.ctx, limits(li, items[gi].g), items[gi].in, seed);
    return it->second;
  }
};

bool same_arrays(const Arrays &a, const RefGraph &g) {
  const Arrays b = arrays(g);
  if (a.xadj != b.xadj || a.vwgt != b.vwgt) return false;
  for (size_t u = 0; u + 1 < a.xadj.size(); ++u) {
    std::map<NodeID, long> x, y;
    for (auto e = a.xadj[u]; e < a.xadj[u + 1]; ++e) {
      x[a.adjncy[e]] += a.adjwgt.empty() ? 1 : a.adjwgt[e];
      y[b.adjncy[e]] += b.adjwgt.empty() ? 1 : b.adjwgt[e];
    }
    if (x != y) return false;
  }
  return true;
}

void history(World &w, const std::vector<Step> &steps, bool compare) {
  std::string at = " [" + w.preset.name + "]";
  KaMinPar p(mc::workers(), w.preset.ctx);
  p.set_output_level(OutputLevel::QUIET);
  std::vector<std::unique_ptr<Arrays>> hold;
  int cur = -1;
  for (auto &s : steps) {
    const bool setting = s.graph >= 0;
    if (setting) cur = s.graph;
    const Item &it = w.items[cur];
    const Limits l = limits(s.limits, it.g);
    at += (setting ? std::string(" | ") + input_name(it.in) + " " + it.g.name : std::string(" | same")) + " " + l.str() + " seed " + std::to_string(s.seed);
    mc::label(at);
    mc::count_case();
    KaMinPar::reseed(s.seed);
    if (setting) {
      hold.emplace_back();
      give_graph(p, it.g, it.in, hold.back());
    }
    const Result r = compute(p, it.g.n(), l);
    check_valid(it.g, r, l.k, at);
    if (it.g.unit_vw()) check_balanced(it.g, r, l, at);
    MC_CHECK(p.graph()->n() == static_cast<NodeID>(it.g.n()) && static_cast<long>(p.graph()->m()) == it.g.m(), "the instance's graph changed its size" + at);
    if (it.in == Input::Copy) MC_CHECK(*hold.back() == arrays(it.g), "modified the caller's arrays" + at);
    if (it.in == Input::Borrow) MC_CHECK(same_arrays(*hold.back(), it.g), "the borrowed arrays describe a different graph" + at);
    if (compare) {
      const Result &f = w.fresh(cur, s.limits, s.seed);
      MC_CHECK(r.part == f.part && r.cut == f.cut, "partition " + vec(r.part) + " differs from the fresh instance's " + vec(f.part) + at);
    }
  }
}
} // namespace

void mc_main() {
  mc::watchdog(20);
  std::vector<Preset> ps;
  for (const char *n : {"default", "strong", "jet", "terapart", "largek", "vcycle", "fm"}) ps.push_back({n, deepened(create_context_by_preset_name(n))});
  for (auto &p : ps)
    if (p.name == "vcycle") p.ctx.partitioning.vcycles = {2};
  auto add = [&](const char *n, auto &&f) {
    ps.push_back({n, deepened(create_default_context())});
    f(ps.back().ctx);
  };
  add("kway", [](Context &c) { c.partitioning.mode = PartitioningMode::KWAY; });
  add("natural/edge order", [](Context &c) { c.node_ordering = NodeOrdering::NATURAL, c.edge_ordering = EdgeOrdering::COMPRESSION; });
  add("edge order", [](Context &c) { c.edge_ordering = EdgeOrdering::COMPRESSION; });
  add("unbuffered", [](Context &c) { c.coarsening.contraction.algorithm = ContractionAlgorithm::UNBUFFERED; });
  add("async", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::ASYNCHRONOUS_PARALLEL; });

  const RefGraph iso = disjoint(disjoint(empty(2), path(5)), empty(1)), dense = caveman(2, 5), wt = weighted(disjoint(cycle(7), empty(2)));
  const std::vector<Item> items{{iso, Input::Copy}, {dense, Input::Borrow}, {wt, Input::Set}, {iso, Input::Compressed}, {empty(3), Input::Copy}, {weighted(scattered(grid(4, 4))), Input::Copy}, {star(9), Input::Borrow}};
  const int G = static_cast<int>(items.size()), L = 8;

  // all histories of three calls
  for (auto &p : ps)
    for (int g0 = 0; g0 < G; ++g0)
      mc::run("three " + p.name + " " + std::to_string(g0), [&, g0] {
        World w{p, items, {}};
        for (int l0 = 0; l0 < L; ++l0)
          for (int g1 = -1; g1 < G; ++g1)
            for (int l1 = 0; l1 < L; ++l1)
              for (int g2 = -1; g2 < G; ++g2)
                for (int l2 = 0; l2 < L; ++l2) {
                  const uint64_t h = hash64(((g0 * L + l0) * (G + 1) + g1 + 1) * L + l1);
                  if (!mc::thorough() && (l2 != static_cast<int>(h % L) || (g2 >= 0 && g2 != static_cast<int>(h / L % G)) || (h >> 20) % 4)) continue;
                  history(w, {{g0, l0, 1}, {g1, l1, 2 - l1 % 2}, {g2, l2, 1}}, true);
                }
      });
  // longer histories on one graph, with a change in the middle
  for (auto &p : ps)
    mc::run("long " + p.name, [&] {
      World w{p, items, {}};
      for (int g = 0; g < G; ++g)
        for (int h = -1; h < G; ++h)
          for (int x = 0; x < (mc::thorough() ? 30 : 6); ++x) {
            std::vector<Step> s{{g, x % L, 1}};
            for (int i = 1; i < 12; ++i) s.push_back({i == 6 ? h : i == 9 && x % 2 ? g : -1, static_cast<int>(hash64(x * 100 + i) % L), static_cast<int>(i % 3)});
            history(w, s, true);
          }
    });
  // a rejected call in between (recursive bipartitioning only accepts powers of two)
  Preset rb{"rb", deepened(create_default_context())};
  rb.ctx.partitioning.mode = PartitioningMode::RB;
  for (int g = 0; g < G; ++g)
    mc::run("rejected " + items[g].g.name + std::to_string(g), [&, g] {
      World w{rb, items, {}};
      const Item &it = items[g];
      for (int before : {-1, 0, 5})
        for (int after : {0, 5, 2, 6})
          for (int times : {1, 2}) {
            const std::string at = " [rb] " + it.g.name + " after a rejected call, before=" + std::to_string(before) + " " + limits(after, it.g).str();
            mc::label(at);
            mc::count_case();
            KaMinPar p(1, rb.ctx);
            p.set_output_level(OutputLevel::QUIET);
            std::unique_ptr<Arrays> hold;
            give_graph(p, it.g, it.in, hold);
            if (before >= 0) (void)compute(p, it.g.n(), limits(before, it.g));
            for (int i = 0; i < times; ++i) {
              bool thrown = false;
              try {
                (void)compute(p, it.g.n(), limits(1, it.g));
              } catch (const std::exception &) {
                thrown = true;
              }
              MC_CHECK(thrown, "k=3 accepted" + at);
            }
            KaMinPar::reseed(1);
            const Result r = compute(p, it.g.n(), limits(after, it.g));
            check_valid(it.g, r, limits(after, it.g).k, at);
            MC_CHECK(r.part == w.fresh(g, after, 1).part, "partition differs from the fresh instance's" + at);
          }
    });
  // several workers (results may depend on the schedule, the guarantees may not)
  for (auto &p : ps)
    for (mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
      mc::Config c;
      c.workers = 3, c.assign = as;
      mc::explore("workers " + p.name + "/" + std::to_string(static_cast<int>(as)), c, [&] {
        World w{p, items, {}};
        for (int g0 = 0; g0 < G; ++g0)
          for (int g1 = -1; g1 < G; ++g1)
            for (int x = 0; x < L; ++x) history(w, {{g0, x, 1}, {g1, (x * 3 + 1) % L, 2}, {-1, (x * 5 + 2) % L, 1}}, false);
      });
    }
  // two instances used alternately
  for (auto &p : ps)
    mc::run("alternating " + p.name, [&] {
      World w{p, items, {}};
      for (auto &q : ps)
        for (int g0 = 0; g0 < G; ++g0)
          for (int g1 = 0; g1 < G; ++g1) {
            if (items[g0].in == Input::Compressed || items[g1].in == Input::Compressed) continue;
            mc::count_case();
            const std::string at = " [" + p.name + " and " + q.name + "] " + items[g0].g.name + " and " + items[g1].g.name;
            mc::label(at);
            KaMinPar a(1, p.ctx), b(1, q.ctx);
            a.set_output_level(OutputLevel::QUIET), b.set_output_level(OutputLevel::QUIET);
            std::unique_ptr<Arrays> ha, hb;
            give_graph(a, items[g0].g, items[g0].in, ha);
            give_graph(b, items[g1].g, items[g1].in, hb);
            for (int x = 0; x < 3; ++x) {
              const int la = (g0 * 2 + x * 3) % L, lb = (g1 + x) % L;
              KaMinPar::reseed(2);
              (void)compute(b, items[g1].g.n(), limits(lb, items[g1].g));
              KaMinPar::reseed(1);
              const Result r = compute(a, items[g0].g.n(), limits(la, items[g0].g));
              MC_CHECK(r.part == w.fresh(g0, la, 1).part, "partition differs from the fresh instance's" + at);
            }
          }
    });
}
