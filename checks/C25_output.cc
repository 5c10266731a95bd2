// C25: what the partitioner computed is what its output files say. The writers are called with every small
// partition; the program itself is run on a menu of graphs, formats, limits and orderings, and its files are
// parsed independently and compared with the input graph and the printed summary.
#include "apps/io/shm_io.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

#include "apps/io/shm_compressed_graph_binary.h"

#include "text.h"

int kaminpar_main(int argc, char **argv);

using namespace kv;
namespace kio = kaminpar::shm::io;

namespace {
// ------------------------------------------------------------------ the writers
void writers(const std::vector<BlockID> &p, const BlockID k) {
  const std::string f = files::path("p"), at = " for the partition " + (p.size() < 50 ? vec(p) : std::to_string(p.size()) + " vertices") + " k=" + std::to_string(k);
  kio::partition::write(f, p);
  std::string want;
  for (BlockID b : p) want += std::to_string(b) + "\n";
  MC_CHECK(files::get(f) == want, "partition file differs" + at);
  const auto r = kio::partition::read(f);
  MC_CHECK(r.size() == p.size() && std::equal(p.begin(), p.end(), r.begin()), "partition file does not read back" + at);
  files::put(f, want.empty() ? want : want.substr(0, want.size() - 1)); // the last line need not end
  const auto r2 = kio::partition::read(f);
  MC_CHECK(r2.size() == p.size() && std::equal(p.begin(), p.end(), r2.begin()), "partition file without final newline does not read back" + at);
  if (k > 0 && k < 1000) {
    std::vector<long> size(k, 0);
    for (BlockID b : p) size[b]++;
    kio::partition::write_block_sizes(f, k, p);
    MC_CHECK(text::numbers(files::get(f), "the block sizes") == size, "block sizes differ" + at);
    const auto q = kio::partition::read_block_sizes(f);
    MC_CHECK(q.size() == p.size(), "block sizes read back as " + std::to_string(q.size()) + " vertices" + at);
    size_t i = 0;
    for (BlockID b = 0; b < k; ++b)
      for (long j = 0; j < size[b]; ++j) MC_CHECK(q[i++] == b, "block sizes read back differently" + at);
  }
  std::vector<NodeID> map(p.begin(), p.end());
  kio::remapping::write(f, map);
  MC_CHECK(files::get(f) == want, "mapping file differs" + at);
  mc::count_case();
}

// ------------------------------------------------------------------ the program
struct Case {
  RefGraph g;
  std::vector<std::string> args;
  BlockID k;
  std::vector<long> limits; // absolute limits that must hold, if any
  bool parhip_in, parhip_out, compressed_in, ignore_ew, rearrange;
};
std::string input(const Case &c) { return files::path("in"); }
std::vector<std::string> arguments(const Case &c) {
  std::vector<std::string> a = {"-G", files::path("in")};
  if (c.parhip_in) a.insert(a.end(), {"-f", "parhip"});
  if (c.ignore_ew) a.push_back("--ignore-edge-weights");
  a.insert(a.end(), {"-o", files::path("part"), "--output-block-sizes", files::path("sizes")});
  if (c.rearrange) a.insert(a.end(), {"--output-rearranged-graph", files::path("graph"), "--output-rearranged-graph-mapping", files::path("map"), "--output-graph-file-format", c.parhip_out ? "parhip" : "metis"});
  a.insert(a.end(), c.args.begin(), c.args.end());
  return a;
}
const char *SEP = "\1file\1";
void judge(const Case &c, const files::Outcome &o) {
  const std::string at = " [" + c.g.str() + text::joined(arguments(c)) + "]";
  MC_CHECK(o.done, "the program failed: " + o.str() + at);
  std::vector<std::string> part;
  for (size_t p = 0;;) {
    const size_t q = o.text.find(SEP, p);
    part.push_back(o.text.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos) break;
    p = q + strlen(SEP);
  }
  const std::string &out = part[0];
  MC_CHECK(out[0] == '0', "exit code " + out.substr(0, 100) + at);
  // the partition belongs to the vertices in the order of the input file
  const std::vector<long> p = text::numbers(part[1], "the partition");
  MC_CHECK(static_cast<int>(p.size()) == c.g.n(), "the partition has " + std::to_string(p.size()) + " lines" + at);
  std::vector<long> bw(c.k, 0), size(c.k, 0);
  long cut = 0, most = 0;
  for (int u = 0; u < c.g.n(); ++u) {
    MC_CHECK(p[u] >= 0 && p[u] < static_cast<long>(c.k), "illegal block" + at);
    bw[p[u]] += c.g.vw[u], size[p[u]]++;
    for (auto [v, w] : c.g.adj[u])
      if (p[u] < p[v]) cut += c.ignore_ew ? 1 : w;
  }
  for (long w : bw) most = std::max(most, w);
  MC_CHECK(text::after(out, "Edge cut:") == std::to_string(cut), "the program prints the cut " + text::after(out, "Edge cut:") + ", its file has " + std::to_string(cut) + " " + vec(p) + at);
  MC_CHECK(text::after(out, "RESULT cut=") == std::to_string(cut), "the RESULT line has the cut " + text::after(out, "RESULT cut=") + at);
  MC_CHECK(text::after(out, "Number of blocks:") == std::to_string(c.k), "the program prints the number of blocks " + text::after(out, "Number of blocks:") + at);
  const double imbalance = static_cast<double>(most) / std::ceil(1.0 * c.g.total_vw() / c.k) - 1;
  if (c.g.n() > 0) {
    const double printed = std::atof(text::after(out, "Imbalance:").c_str());
    MC_CHECK(std::abs(printed - imbalance) < 1e-4 * (1 + imbalance), "the program prints the imbalance " + std::to_string(printed) + ", its file has " + std::to_string(imbalance) + " " + vec(p) + at);
  }
  for (size_t b = 0; b < c.limits.size(); ++b) MC_CHECK(bw[b] <= c.limits[b], "block " + std::to_string(b) + " weighs " + std::to_string(bw[b]) + " > " + std::to_string(c.limits[b]) + " " + vec(p) + at);
  MC_CHECK(text::numbers(part[2], "the block sizes") == size, "the block sizes are " + part[2].substr(0, 100) + " instead of " + vec(size) + at);
  if (c.rearrange) {
    const std::vector<long> map = text::numbers(part[4], "the mapping");
    const RefGraph h = c.parhip_out ? text::parse_parhip(part[3]) : text::parse_metis(part[3]);
    text::same(c.g, h, map, " in the rearranged graph" + at);
    std::vector<long> order(p.size());
    for (size_t u = 0; u < p.size(); ++u) order[map[u]] = p[u];
    MC_CHECK(std::is_sorted(order.begin(), order.end()), "the blocks are not consecutive in the rearranged graph: " + vec(order) + at);
  }
  mc::count_case();
}
void run(const std::vector<Case> &cases) {
  const auto all = files::children(static_cast<int>(cases.size()), [&](int i) {
    const Case &c = cases[static_cast<size_t>(i)];
    for (const char *f : {"part", "sizes", "graph", "map", "in"}) unlink(files::path(f).c_str());
    files::put(files::path("in"), c.parhip_in ? text::parhip(c.g) : text::metis(c.g));
    if (c.compressed_in) kio::compressed_binary::write(files::path("in"), kaminpar::shm::parallel_compress(mkgraph(c.g).concretize<kaminpar::shm::CSRGraph>()));
    std::string s = text::program(kaminpar_main, arguments(c));
    for (const char *f : {"part", "sizes", "graph", "map"}) s += SEP + files::get(files::path(f));
    return s;
  });
  for (size_t i = 0; i < cases.size(); ++i) judge(cases[i], all[i]);
}

// every way to state the limits, format, ordering
std::vector<Case> cases_of(const RefGraph &g, const std::vector<std::string> &presets, int density) {
  std::vector<Case> v;
  int count = 0;
  struct Lim {
    std::vector<std::string> args;
    BlockID k;
    std::vector<long> limits;
  };
  std::vector<Lim> lims;
  const long t = g.total_vw();
  long most = 1;
  for (long w : g.vw) most = std::max(most, w);
  for (BlockID k : {2u, 3u, 5u, 8u}) lims.push_back({{"-k", std::to_string(k)}, k, {}});
  for (const BlockID k : {2u, 3u, 4u}) { // generous, different limits
    Lim a{{"-B"}, k, {}}, b{{"-b"}, k, {}};
    for (BlockID i = 0; i < k; ++i) {
      const long l = t / k + most + 1 + static_cast<long>(i) * t / 4;
      a.args.push_back(std::to_string(l));
      a.limits.push_back(l);
      char f[32];
      snprintf(f, sizeof f, "%.6f", t ? 1.0 * l / t : 1.5);
      b.args.push_back(f);
    }
    lims.push_back(a), lims.push_back(b);
  }
  for (const Lim &l : lims)
    for (const std::string &pre : presets)
      for (int in = 0; in < 3; ++in) // METIS, ParHIP, compressed binary
        for (const std::string order : {"", "natural", "deg-buckets", "external-deg-buckets"})
          for (const bool compress : {false, true})
            for (const bool ignore : {false, true}) {
              if (in == 2 && (!compress || ignore || order == "external-deg-buckets")) continue;
              if (order == "external-deg-buckets" && in != 1) continue; // only supported for ParHIP
              if (ignore && (compress || g.unit_ew())) continue;
              if (++count % density) continue;
              Case c{g, {}, l.k, l.limits, in == 1, count / density % 2 == 1, in == 2, ignore, in != 2};
              c.args = {"-P", pre, "-v"};
              if (!order.empty()) c.args.insert(c.args.end(), {"--node-order", order});
              if (compress) c.args.push_back("-c");
                      if (count % 5 == 0) c.args.insert(c.args.end(), {"--edge-order", "compression"});
              if (count % 3 == 0) c.args.insert(c.args.end(), {"--c-contraction-limit", "4"});
              c.args.insert(c.args.end(), l.args.begin(), l.args.end());
              v.push_back(c);
            }
  return v;
}
} // namespace

void mc_main() {
  mc::run("writers", [] {
    const int n = static_cast<int>(mc::choose(7)), k = 1 + static_cast<int>(mc::choose(4));
    std::vector<BlockID> p(static_cast<size_t>(n));
    for (auto &b : p) b = static_cast<BlockID>(mc::choose(k));
    writers(p, static_cast<BlockID>(k));
  });
  mc::run("writers-large", [] {
    for (const size_t n : {1000ul, 2047ul, 2048ul, 2049ul, 4096ul, 8192ul, 100000ul})
      for (const BlockID k : {1u, 2u, 10u, 11u, 999u, 4294967294u}) {
        std::vector<BlockID> p(n);
        for (size_t i = 0; i < n; ++i) p[i] = static_cast<BlockID>(hash64(i * 7 + 1) % k);
        p[n / 2] = k - 1;
        writers(p, k);
      }
  });
  for (int n = 0; n <= 4; ++n)
    for (const int kind : {0, 3})
      mc::run("program/" + std::to_string(n) + "/w" + std::to_string(kind), [=] {
        std::vector<uint32_t> masks = n < 4 || mc::thorough() ? std::vector<uint32_t>() : iso_classes(4);
        if (masks.empty())
          for (uint32_t m = 0; m < num_masks(n); ++m) masks.push_back(m);
        for (uint32_t m : masks) run(cases_of(with_weights(by_mask(n, m), kind), {"default"}, 1));
      });
  const std::vector<RefGraph> shapes = {scattered(disjoint(caveman(4, 5), empty(3))), scattered(grid(5, 6), 3), disjoint(star(20), disjoint(path(9), empty(4))), scattered(prand(120, 5, 3)), clique(12)};
  for (size_t i = 0; i < shapes.size(); ++i)
    for (const int kind : {0, 1, 2, 3})
      mc::run("program/" + std::to_string(i) + "/shape/w" + std::to_string(kind), [=] {
        run(cases_of(with_weights(shapes[i], kind), mc::thorough() ? std::vector<std::string>{"default", "fast", "strong", "largek", "terapart", "jet"} : std::vector<std::string>{"default", "fm"}, 1));
      });
}
