// C28: the graph tools report and write what their input says. Every tool is run, as a whole program, on every
// small graph with a menu of weights, formats and options; what it prints and writes is compared with values
// computed from the reference graph.
#include "apps/io/shm_io.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

#include "apps/io/shm_compressed_graph_binary.h"

#include "text.h"

int tool_components_main(int argc, char **argv);
int tool_weights_main(int argc, char **argv);
int tool_compression_main(int argc, char **argv);
int tool_properties_main(int argc, char **argv);
int tool_rearrange_main(int argc, char **argv);
int tool_partition_main(int argc, char **argv);

using namespace kv;
namespace kio = kaminpar::shm::io;

namespace {
enum { COMPONENTS, WEIGHTS, COMPRESSION, PROPERTIES, REARRANGE, PARTITION };
int (*const mains[])(int, char **) = {tool_components_main, tool_weights_main, tool_compression_main, tool_properties_main, tool_rearrange_main, tool_partition_main};

struct Case {
  RefGraph g;
  int tool;
  std::vector<std::string> args;
  int in = 0; // METIS, ParHIP, compressed binary
  bool parhip_out = false;
  std::string extra; // contents of the second input file
  bool bad = false;  // the second input file does not belong to the graph
  std::function<void(const Case &, const std::string &out, const std::string &file, const std::string &at)> check = nullptr;
};
std::vector<std::string> arguments(const Case &c) {
  std::vector<std::string> a = {"-G", files::path("in")};
  if (c.in == 1) a.insert(a.end(), {"-f", "parhip"});
  for (auto &x : c.args) a.push_back(x == "@in2" ? files::path("in2") : x == "@out" ? files::path("out") : x);
  return a;
}
const char *SEP = "\1file\1";
void run(const std::vector<Case> &cases) {
  const auto all = files::children(static_cast<int>(cases.size()), [&](int i) {
    const Case &c = cases[static_cast<size_t>(i)];
    for (const char *f : {"in", "in2", "out"}) unlink(files::path(f).c_str());
    files::put(files::path("in"), c.in == 1 ? text::parhip(c.g) : text::metis(c.g));
    if (c.in == 2) kio::compressed_binary::write(files::path("in"), kaminpar::shm::parallel_compress(mkgraph(c.g).concretize<kaminpar::shm::CSRGraph>()));
    files::put(files::path("in2"), c.extra);
    const std::string s = text::program(mains[c.tool], arguments(c));
    std::string out = SEP + files::get(files::path("out"));
    if (c.tool == COMPRESSION) { // decoded by the library (property C06, C24)
      const RefGraph h = read_back(kaminpar::shm::Graph(std::make_unique<kaminpar::shm::CompressedGraph>(kio::compressed_binary::read(files::path("out")))));
      out = SEP + text::metis(h);
    }
    return s + out;
  });
  for (size_t i = 0; i < cases.size(); ++i) {
    const Case &c = cases[i];
    const files::Outcome &o = all[i];
    const std::string at = " [" + c.g.str() + text::joined(arguments(c)) + (c.extra.empty() ? "" : " in2=" + c.extra.substr(0, 60)) + "]";
    if (c.bad && !o.done) {
      MC_CHECK(o.clean(), "the tool did not reject its input: " + o.str() + at);
    } else if (c.bad) {
      MC_CHECK(o.text[0] != '0', "the tool accepted an input that does not belong to the graph: " + o.str() + at);
    } else {
      MC_CHECK(o.done && o.text[0] == '0', "the tool failed: " + o.str() + at);
      const size_t p = o.text.find(SEP);
      c.check(c, o.text.substr(0, p), o.text.substr(p + strlen(SEP)), at);
    }
    mc::count_case();
  }
}
// the output graph h equals g under some renaming of the vertices; tried exhaustively
bool isomorphic(const RefGraph &g, const RefGraph &h) {
  if (g.n() != h.n() || g.m() != h.m()) return false;
  std::vector<int> p(static_cast<size_t>(g.n()));
  for (int i = 0; i < g.n(); ++i) p[static_cast<size_t>(i)] = i;
  auto norm = [](RefGraph x) { for (auto &a : x.adj) std::sort(a.begin(), a.end()); return x; };
  const RefGraph hn = norm(h);
  do {
    RefGraph r = h;
    for (int u = 0; u < g.n(); ++u) {
      r.vw[p[u]] = g.vw[u];
      r.adj[p[u]].clear();
      for (auto [v, w] : g.adj[u]) r.adj[p[u]].push_back({p[v], w});
    }
    r = norm(r);
    if (r.adj == hn.adj && r.vw == hn.vw) return true;
  } while (std::next_permutation(p.begin(), p.end()));
  return false;
}
RefGraph parsed(const Case &c, const std::string &file) { return c.parhip_out ? text::parse_parhip(file) : text::parse_metis(file); }
void expect(const std::string &out, const std::string &key, const std::string &want, const std::string &at) {
  MC_CHECK(text::after(out, key) == want, "the tool prints " + key + " " + text::after(out, key) + " instead of " + want + at);
}

// ------------------------------------------------------------------ connected components
void check_components(const Case &c, const std::string &out, const std::string &file, const std::string &at) {
  const RefGraph &g = c.g;
  std::vector<int> comp(static_cast<size_t>(g.n()), -1);
  std::vector<std::vector<int>> list;
  for (int s = 0; s < g.n(); ++s)
    if (comp[s] < 0) {
      std::vector<int> todo = {s};
      list.emplace_back();
      comp[s] = static_cast<int>(list.size()) - 1;
      while (!todo.empty()) {
        const int u = todo.back();
        todo.pop_back();
        list.back().push_back(u);
        for (auto [v, w] : g.adj[u])
          if (comp[v] < 0) comp[v] = comp[u], todo.push_back(v);
      }
    }
  size_t most = 0;
  std::map<int, int> hist;
  for (auto &l : list) {
    most = std::max(most, l.size());
    int b = 0;
    while ((2u << b) <= l.size()) ++b;
    hist[b]++;
  }
  expect(out, "Number of connected components:", std::to_string(list.size()), at);
  expect(out, "Largest connected component:", std::to_string(most), at);
  expect(out, "Isolated nodes:", std::to_string(hist[0]), at);
  for (auto [b, count] : hist)
    if (b > 0) {
      std::string flat; // without spaces
      for (char x : out)
        if (x != ' ') flat += x;
      const std::string line = std::to_string(1 << b) + "-" + std::to_string(2 << b) + "nodes:" + std::to_string(count) + "\n";
      MC_CHECK(flat.find("\n" + line) != std::string::npos, "the tool does not print the histogram line " + line + at);
    }
  if (std::find(c.args.begin(), c.args.end(), "@out") == c.args.end()) return;
  const RefGraph h = parsed(c, file);
  bool found = false;
  for (auto &l : list)
    if (l.size() == most) {
      std::vector<int> l2 = l, id(static_cast<size_t>(g.n()), -1);
      std::sort(l2.begin(), l2.end());
      RefGraph r;
      for (size_t i = 0; i < l2.size(); ++i) id[l2[i]] = static_cast<int>(i), r.vw.push_back(g.vw[l2[i]]);
      r.adj.resize(l2.size());
      for (size_t i = 0; i < l2.size(); ++i)
        for (auto [v, w] : g.adj[l2[i]]) r.adj[i].push_back({id[v], w});
      RefGraph hh = h;
      for (auto &a : r.adj) std::sort(a.begin(), a.end());
      for (auto &a : hh.adj) std::sort(a.begin(), a.end());
      found |= r.adj == hh.adj && r.vw == hh.vw;
    }
  MC_CHECK(found || g.n() == 0, "the file holds no largest component: " + h.str() + at);
}
void components(std::vector<Case> &v, const RefGraph &g) {
  for (int in = 0; in < 3; ++in)
    for (int o = 0; o < 3; ++o)
      for (bool compress : {false, true}) {
        if (in == 2 && !compress) continue;
        Case c{g, COMPONENTS, {}, in, o == 2};
        if (compress) c.args.push_back("-c");
        if (o) c.args.insert(c.args.end(), {"--out", "@out", "--out-f", o == 2 ? "parhip" : "metis"});
        c.check = check_components;
        v.push_back(c);
      }
}

// ------------------------------------------------------------------ edge weights
void weights(std::vector<Case> &v, const RefGraph &g) {
  struct Dist {
    std::vector<std::string> args;
    std::vector<std::pair<long, long>> ranges;
  };
  const long M = std::numeric_limits<int>::max();
  const std::vector<Dist> dists = {
      {{"-d", "uniform"}, {{1, 65536}}},
      {{"-d", "uniform", "--u-min", "3", "--u-max", "4"}, {{3, 4}}},
      {{"-d", "uniform", "--u-min", "7", "--u-max", "7"}, {{7, 7}}},
      {{"-d", "alternating"}, {{1, 1}, {65536, 65536}}},
      {{"-d", "alternating", "--a-min-small", "2", "--a-max-small", "3", "--a-min-large", "10", "--a-max-large", "12"}, {{2, 3}, {10, 12}}},
      {{"-d", "exponential"}, {{1, M}}},
      {{"-d", "exponential", "--e-lambda", "10"}, {{1, 10}}},
  };
  for (int in = 0; in < 2; ++in)
    for (auto &d : dists)
      for (int seed : {0, 1, 5})
        for (bool po : {false, true}) {
          Case c{g, WEIGHTS, d.args, in, po};
          c.args.insert(c.args.end(), {"--out", "@out", "-s", std::to_string(seed), "--out-f", po ? "parhip" : "metis", "-t", seed ? "1" : "3"});
          c.check = [ranges = d.ranges](const Case &c, const std::string &, const std::string &file, const std::string &at) {
            const RefGraph h = parsed(c, file);
            MC_CHECK(h.n() == c.g.n() && h.m() == c.g.m() && h.vw == c.g.vw, "the vertices differ: " + h.str() + at);
            std::map<std::pair<int, int>, long> w;
            for (int u = 0; u < h.n(); ++u) {
              auto a = c.g.adj[u];
              MC_CHECK(a.size() == h.adj[u].size(), "the edges of vertex " + std::to_string(u) + " differ: " + h.str() + at);
              for (size_t i = 0; i < a.size(); ++i) {
                MC_CHECK(a[i].first == h.adj[u][i].first, "the edges of vertex " + std::to_string(u) + " differ: " + h.str() + at);
                const long x = h.adj[u][i].second;
                bool ok = false;
                for (auto [lo, hi] : ranges) ok |= lo <= x && x <= hi;
                MC_CHECK(ok, "the weight " + std::to_string(x) + " is out of range" + at);
                auto [it, fresh] = w.insert({{std::min(u, a[i].first), std::max(u, a[i].first)}, x});
                MC_CHECK(it->second == x, "the two directions of an edge have weights " + std::to_string(it->second) + " and " + std::to_string(x) + at);
              }
            }
          };
          v.push_back(c);
        }
}

// ------------------------------------------------------------------ compression
void compression(std::vector<Case> &v, const RefGraph &g) {
  for (int in = 0; in < 2; ++in)
    for (const std::string order : {"natural", "external-deg-buckets"}) {
      if (order != "natural" && in == 0) continue;
      Case c{g, COMPRESSION, {"--out", "@out", "--node-order", order}, in};
      c.check = [order](const Case &c, const std::string &, const std::string &file, const std::string &at) {
        const RefGraph h = text::parse_metis(file);
        if (order == "natural") text::same(c.g, h, text::identity(c.g.n()), at);
        else MC_CHECK(c.g.n() > 6 || isomorphic(c.g, h), "the file holds another graph: " + h.str() + at);
      };
      v.push_back(c);
    }
}

// ------------------------------------------------------------------ graph properties
void properties(std::vector<Case> &v, const RefGraph &g) {
  for (int in = 0; in < 3; ++in)
    for (bool compress : {false, true}) {
      if (in == 2 && !compress) continue;
      Case c{g, PROPERTIES, {}, in};
      if (compress) c.args.push_back("-c");
      c.check = [](const Case &c, const std::string &out, const std::string &, const std::string &at) {
        size_t deg = 0, iso = 0;
        long ew = 0;
        for (auto &a : c.g.adj) {
          deg = std::max(deg, a.size()), iso += a.empty();
          for (auto [x, w] : a) ew += w;
        }
        expect(out, "Number of nodes:", std::to_string(c.g.n()), at);
        expect(out, "Number of edges:", std::to_string(c.g.m()), at);
        expect(out, "Max degree:", std::to_string(deg), at);
        expect(out, "Isolated nodes:", std::to_string(iso), at);
        if (c.g.n()) {
          const double d = std::atof(text::after(out, "Average degree:").c_str()), w = 1.0 * c.g.m() / c.g.n();
          MC_CHECK(std::abs(d - w) < 1e-4 * (1 + w), "the average degree is " + std::to_string(d) + at);
        }
        const size_t p = out.find("Number of nodes:"), q = out.find("Number of edges:"), r = out.find("Max degree:");
        auto weight = [&](size_t a, size_t b, bool unit, long w) {
          const std::string s = out.substr(a, b - a);
          if (unit) MC_CHECK(s.find("(unweighted)") != std::string::npos, "the tool prints " + s + at);
          else expect(s, "(total weight:", std::to_string(w) + ")", at);
        };
        weight(p, q, c.g.total_vw() == c.g.n(), c.g.total_vw());
        if (c.in != 2) weight(q, r, ew == c.g.m(), ew);
      };
      v.push_back(c);
    }
}

// ------------------------------------------------------------------ rearrangement
int bucket(size_t d) {
  int b = 0;
  while (d) ++b, d /= 2;
  return b;
}
void rearrange(std::vector<Case> &v, const RefGraph &g) {
  for (int in = 0; in < 2; ++in)
    for (const std::string order : {"natural", "deg-buckets", "external-deg-buckets"})
      for (bool eo : {false, true})
        for (bool po : {false, true}) {
          if (order == "external-deg-buckets" && in == 0) continue;
          Case c{g, REARRANGE, {"--node-order", order, "--edge-order", eo ? "compression" : "natural", "-O", "@out", "--out-f", po ? "parhip" : "metis"}, in, po};
          c.check = [order](const Case &c, const std::string &, const std::string &file, const std::string &at) {
            const RefGraph h = parsed(c, file);
            if (order == "natural") {
              text::same(c.g, h, text::identity(c.g.n()), at);
              return;
            }
            // the buckets are consecutive, the isolated vertices first or last
            std::vector<int> b;
            for (auto &a : h.adj) b.push_back(bucket(a.size()));
            while (!b.empty() && b.back() == 0) b.pop_back();
            MC_CHECK(std::is_sorted(b.begin(), b.end()), "the degree buckets are not sorted: " + h.str() + at);
            if (c.g.n() <= 6) MC_CHECK(isomorphic(c.g, h), "the file holds another graph: " + h.str() + at);
            else {
              // invariants that do not need the renaming
              auto sig = [](const RefGraph &x) {
                std::multiset<std::vector<long>> s;
                for (int u = 0; u < x.n(); ++u) {
                  std::vector<long> t;
                  for (auto [y, w] : x.adj[u]) t.push_back(static_cast<long>(x.adj[y].size()) * 1000003 + x.vw[y] * 1009 + w);
                  std::sort(t.begin(), t.end());
                  t.push_back(x.vw[u]);
                  s.insert(t);
                }
                return s;
              };
              MC_CHECK(sig(c.g) == sig(h), "the file holds another graph: " + h.str().substr(0, 300) + at);
            }
          };
          v.push_back(c);
        }
}

// ------------------------------------------------------------------ partition properties
void check_partition(const Case &c, const std::string &out, const std::vector<long> &p, const std::string &at) {
  long k = 0, cut = 0, most = 0;
  for (long b : p) k = std::max(k, b + 1);
  std::vector<long> bw(static_cast<size_t>(k), 0);
  for (int u = 0; u < c.g.n(); ++u) {
    bw[p[u]] += c.g.vw[u];
    for (auto [x, w] : c.g.adj[u])
      if (p[u] < p[x]) cut += w;
  }
  for (long w : bw) most = std::max(most, w);
  expect(out, "Number of blocks:", std::to_string(k), at);
  expect(out, "Edge cut:", std::to_string(cut), at);
  const double want = static_cast<double>(most) / std::ceil(1.0 * c.g.total_vw() / static_cast<double>(k)) - 1, got = std::atof(text::after(out, "Imbalance:").c_str());
  MC_CHECK(std::abs(want - got) < 1e-4 * (1 + want), "the tool prints the imbalance " + std::to_string(got) + " instead of " + std::to_string(want) + at);
}
void partition(std::vector<Case> &v, const RefGraph &g, const std::vector<std::vector<long>> &partitions, int full) {
  for (auto &p : partitions)
    for (int in = 0; in < 3; ++in)
      for (int form = 0; form < 5; ++form) {
        if (!full && in && form) continue;
        Case c{g, PARTITION, {}, in};
        if (in == 2 || form == 4) c.args.push_back("-c");
        std::vector<long> q = p;
        if (form == 1) { // block sizes
          long k = 0;
          for (long b : p) k = std::max(k, b + 1);
          std::vector<long> size(static_cast<size_t>(k), 0);
          for (long b : p) size[b]++;
          q.clear();
          for (long b = 0; b < k; ++b) {
            c.extra += std::to_string(size[b]) + "\n";
            for (long i = 0; i < size[b]; ++i) q.push_back(b);
          }
        } else {
          if (form == 2 && !q.empty()) q.pop_back(), c.bad = true;
          if (form == 3) q.push_back(0), c.bad = true;
          for (long b : q) c.extra += std::to_string(b) + "\n";
        }
        if (form == 1) c.args.insert(c.args.end(), {"--block-sizes", "@in2"});
        else c.args.insert(c.args.end(), {"-P", "@in2"});
        c.bad |= q.empty() && g.n() > 0;
        c.check = [q](const Case &c, const std::string &out, const std::string &, const std::string &at) {
          if (c.g.n()) check_partition(c, out, q, at);
        };
        v.push_back(c);
      }
}

void all_tools(const std::string &name, const std::function<std::vector<RefGraph>()> &graphs, const std::vector<int> &kinds) {
  using F = void (*)(std::vector<Case> &, const RefGraph &);
  const std::pair<const char *, F> tools[] = {{"components", components}, {"weights", weights}, {"compression", compression}, {"properties", properties}, {"rearrange", rearrange}};
  for (auto [t, f] : tools)
    mc::run(std::string(t) + "/" + name, [=, f = f] {
      for (const RefGraph &g : graphs())
        for (int kind : kinds) {
          std::vector<Case> v;
          f(v, with_weights(g, kind));
          run(v);
        }
    });
}
} // namespace

void mc_main() {
  for (int n = 0; n <= 4; ++n) {
    auto graphs = [n] {
      std::vector<RefGraph> r;
      for (uint32_t m = 0; m < num_masks(n); ++m) r.push_back(by_mask(n, m));
      return r;
    };
    all_tools("n" + std::to_string(n), graphs, {0, 3});
    mc::run("partition/n" + std::to_string(n), [=] {
      for (const RefGraph &g : graphs()) {
        std::vector<std::vector<long>> ps(1);
        for (int i = 0; i < n; ++i) {
          std::vector<std::vector<long>> next;
          for (auto &p : ps)
            for (long b = 0; b < (n < 4 ? 3 : 2); ++b) next.push_back(p), next.back().push_back(b);
          ps = next;
        }
        std::vector<Case> v;
        partition(v, with_weights(g, 0), ps, n < 4);
        if (n < 4) partition(v, with_weights(g, 3), ps, 0);
        run(v);
      }
    });
  }
  const std::vector<RefGraph> shapes = {disjoint(caveman(4, 5), empty(3)), scattered(grid(5, 6)), disjoint(star(20), disjoint(path(9), empty(4))), scattered(prand(120, 5, 3)), disjoint(empty(2), clique(12)), empty(9), star(300)};
  for (size_t i = 0; i < shapes.size(); ++i) {
    all_tools("shape" + std::to_string(i), [=] { return std::vector<RefGraph>{shapes[i]}; }, {0, 1, 2, 3});
    mc::run("partition/shape" + std::to_string(i), [=] {
      std::vector<Case> v;
      for (int kind : {0, 1, 2, 3}) {
        std::vector<std::vector<long>> ps;
        for (long k : {1, 2, 7, 40}) {
          ps.emplace_back();
          for (int u = 0; u < shapes[i].n(); ++u) ps.back().push_back(static_cast<long>(hash64(static_cast<uint64_t>(u) * 31 + 7) % static_cast<uint64_t>(k)));
        }
        partition(v, with_weights(shapes[i], kind), ps, 1);
      }
      run(v);
    });
  }
}
