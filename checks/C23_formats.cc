// C23: graph files round-trip through every format. All small graphs x weightings x writers x readers
// (METIS, ParHIP, compressed binary; plain and compressed; every vertex ordering), all spacing and
// comment variants of the text format, all index widths of the binary format the build can hold.
#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/permutator.h"

#include "apps/io/shm_compressed_graph_binary.h"
#include "apps/io/shm_input_validator.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"

#include "files.h"

using namespace kv;
namespace kio = kaminpar::shm::io;

namespace {
// g is r with vertex u renamed to map[u]; the order of the neighbours of a vertex is irrelevant
template <typename G> void same(const RefGraph &r, const G &g, const std::vector<int> &map, const std::string &at) {
  const int n = r.n();
  MC_CHECK(static_cast<int>(g.n()) == n, "number of vertices " + std::to_string(g.n()) + at);
  MC_CHECK(static_cast<long>(g.m()) == r.m(), "number of edges " + std::to_string(g.m()) + at);
  std::vector<int> inv(n, -1);
  for (int u = 0; u < n; ++u) inv[map[u]] = u;
  MC_CHECK(static_cast<long>(g.total_node_weight()) == r.total_vw(), "total vertex weight " + std::to_string(g.total_node_weight()) + at);
  long tew = 0;
  for (int u = 0; u < n; ++u) {
    std::vector<std::pair<int, long>> want = r.adj[u], got;
    const NodeID x = static_cast<NodeID>(map[u]);
    g.adjacent_nodes(x, [&](const NodeID v, const EdgeWeight w) {
      MC_CHECK(v < g.n(), "neighbour out of range" + at);
      got.push_back({inv[v], static_cast<long>(w)});
    });
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    MC_CHECK(want == got, "neighbours of vertex " + std::to_string(u) + at);
    MC_CHECK(static_cast<long>(g.node_weight(x)) == r.vw[u], "weight of vertex " + std::to_string(u) + " is " + std::to_string(g.node_weight(x)) + " instead of " + std::to_string(r.vw[u]) + at);
    MC_CHECK(static_cast<size_t>(g.degree(x)) == want.size(), "degree of vertex " + std::to_string(u) + at);
    for (auto [v, w] : want) tew += w;
  }
  MC_CHECK(static_cast<long>(g.total_edge_weight()) == tew, "total edge weight" + at);
  MC_CHECK(g.is_node_weighted() || r.unit_vw(), "vertex weights lost" + at);
  MC_CHECK(g.is_edge_weighted() || r.unit_ew(), "edge weights lost" + at);
}
template <typename G> void same_graph(const RefGraph &r, const G &g, const std::string &at) {
  std::vector<int> id(r.n());
  std::iota(id.begin(), id.end(), 0);
  MC_CHECK(!g.permuted(), "a vertex mapping is reported for an unpermuted graph" + at);
  same(r, g, id, at);
}
// a graph rearranged while it was read: the reported mapping explains the result
template <typename G> void rearranged(const RefGraph &r, const G &g, const std::string &at) {
  MC_CHECK(g.permuted() || r.n() == 0, "no vertex mapping reported" + at);
  MC_CHECK(g.sorted(), "not marked as sorted" + at);
  std::vector<int> map(r.n(), -1);
  std::vector<char> hit(r.n(), 0);
  for (int u = 0; u < r.n(); ++u) {
    const long x = static_cast<long>(g.map_original_node(static_cast<NodeID>(u)));
    MC_CHECK(x >= 0 && x < r.n() && !hit[x], "the mapping is not a bijection" + at);
    hit[x] = 1, map[u] = static_cast<int>(x);
  }
  same(r, g, map, at);
  long last = 0;
  for (NodeID u = 0; u < g.n(); ++u) { // isolated vertices last, otherwise ascending degree classes
    const long d = static_cast<long>(g.degree(u));
    const long b = d == 0 ? 1000 : 64 - __builtin_clzll(static_cast<unsigned long long>(d));
    MC_CHECK(b >= last, "vertices are not ordered by degree class" + at);
    last = b;
  }
}

RefGraph weighted(RefGraph g, int kind) {
  if (kind <= 3) return with_weights(std::move(g), kind);
  if (kind == 4) { // extreme values of the 32-bit weight types
    if (g.n()) g.vw[g.n() - 1] = 2147483647l - (g.n() - 1);
    bool first = true;
    for (int u = 0; u < g.n(); ++u)
      for (auto &[v, w] : g.adj[u])
        if (u < v && first) {
          first = false;
          w = (2147483647l - g.m()) / 2;
          for (auto &[x, y] : g.adj[v])
            if (x == u) y = w;
        }
  }
  g.name += ".w" + std::to_string(kind);
  return g;
}

// ------------------------------------------------------------------ METIS text
enum { LEAD = 1, WIDE = 2, TRAIL = 4, HEAD_COMMENT = 8, MID_COMMENT = 16, END_COMMENT = 32, NO_NEWLINE = 64, EXPLICIT = 128, SIZES = 256, PAGE = 512, VARIANTS = 1024 };
std::string metis_text(const RefGraph &g, int v) {
  const std::string sp = (v & WIDE) ? "   " : " ", lead = (v & LEAD) ? "  " : "", trail = (v & TRAIL) ? "  " : "";
  const bool nw = !g.unit_vw() || (v & EXPLICIT), ew = !g.unit_ew() || (v & EXPLICIT), sz = v & SIZES;
  std::string s;
  s += lead + std::to_string(g.n()) + sp + std::to_string(g.m() / 2);
  if (nw || ew || sz) {
    std::string f = std::string(sz ? "1" : "0") + (nw ? "1" : "0") + (ew ? "1" : "0");
    if (!(v & EXPLICIT)) f.erase(0, f.find('1'));
    s += sp + f;
  } else if (v & WIDE) {
    s += sp + "0";
  }
  s += trail + "\n";
  for (int u = 0; u < g.n(); ++u) {
    if (v & MID_COMMENT) s += lead + "% vertex 7 8 9\n";
    std::string line;
    auto tok = [&](long x) { line += (line.empty() ? "" : sp) + std::to_string(x); };
    if (sz) tok(g.n() + 5);
    if (nw) tok(g.vw[u]);
    for (auto [x, w] : g.adj[u]) {
      tok(x + 1);
      if (ew) tok(w);
    }
    s += lead + line + trail + "\n";
  }
  if (v & END_COMMENT) s += "% the end 1 2\n%\n";
  if (v & HEAD_COMMENT) s = "%\n% 1 2 3\n" + s;
  if ((v & NO_NEWLINE) && s.back() == '\n') s.pop_back();
  if (v & PAGE) { // fill up to a whole page
    const size_t want = (s.size() + 2 + 4095) / 4096 * 4096;
    s = "%" + std::string(want - s.size() - 2, 'x') + "\n" + s;
  }
  return s;
}
void read_metis(const RefGraph &g, const std::string &f, const std::string &at) {
  same_graph(g, kio::metis::csr_read(f, false), " (METIS -> plain)" + at);
  same_graph(g, kio::metis::compress_read(f, false), " (METIS -> compressed)" + at);
}

// ------------------------------------------------------------------ ParHIP bytes
// version bits: 1 no edge weights, 2 no vertex weights, 4/8/16/32: 32-bit edge ids/node ids/vertex weights/edge weights
std::string parhip_bytes(const RefGraph &g, bool nw, bool ew, bool e64, bool n64, bool nw64, bool ew64) {
  std::string s;
  auto put = [&](uint64_t x, int width) { s.append(reinterpret_cast<const char *>(&x), static_cast<size_t>(width)); };
  put((ew ? 0 : 1) | (nw ? 0 : 2) | (e64 ? 0 : 4) | (n64 ? 0 : 8) | (nw64 ? 0 : 16) | (ew64 ? 0 : 32), 8);
  put(static_cast<uint64_t>(g.n()), 8), put(static_cast<uint64_t>(g.m()), 8);
  uint64_t at = 24 + static_cast<uint64_t>(g.n() + 1) * (e64 ? 8 : 4);
  for (int u = 0; u <= g.n(); ++u) {
    put(at, e64 ? 8 : 4);
    if (u < g.n()) at += g.adj[u].size() * (n64 ? 8 : 4);
  }
  for (auto &a : g.adj)
    for (auto [v, w] : a) put(static_cast<uint64_t>(v), n64 ? 8 : 4);
  if (nw)
    for (long w : g.vw) put(static_cast<uint64_t>(w), nw64 ? 8 : 4);
  if (ew)
    for (auto &a : g.adj)
      for (auto [v, w] : a) put(static_cast<uint64_t>(w), ew64 ? 8 : 4);
  return s;
}
void read_parhip(const RefGraph &g, const std::string &f, const std::string &at) {
  same_graph(g, kio::parhip::csr_read(f, NodeOrdering::NATURAL), " (ParHIP -> plain)" + at);
  same_graph(g, kio::parhip::compressed_read(f, false), " (ParHIP -> compressed)" + at);
  same_graph(g, kio::parhip::compressed_read_parallel(f, NodeOrdering::NATURAL), " (ParHIP -> compressed, parallel)" + at);
  rearranged(g, kio::parhip::csr_read(f, NodeOrdering::EXTERNAL_DEGREE_BUCKETS), " (ParHIP -> plain, rearranged)" + at);
  rearranged(g, kio::parhip::compressed_read_parallel(f, NodeOrdering::EXTERNAL_DEGREE_BUCKETS), " (ParHIP -> compressed, rearranged)" + at);
}
void read_binary(const RefGraph &g, const CompressedGraph &c, const std::string &f, const std::string &at) {
  kio::compressed_binary::write(f, c);
  MC_CHECK(kio::compressed_binary::is_compressed(f), "compressed file not recognised" + at);
  const CompressedGraph d = kio::compressed_binary::read(f);
  same_graph(g, d, " (compressed binary)" + at);
  MC_CHECK(d.sorted() == c.sorted(), "sorted flag of the compressed binary" + at);
  MC_CHECK(d.max_degree() == c.max_degree(), "maximum degree of the compressed binary" + at);
  MC_CHECK(d.num_high_degree_nodes() == c.num_high_degree_nodes() && d.num_high_degree_parts() == c.num_high_degree_parts() && d.num_interval_nodes() == c.num_interval_nodes() && d.num_intervals() == c.num_intervals(),
           "statistics of the compressed binary" + at);
  if (d.sorted()) {
    MC_CHECK(d.number_of_buckets() == c.number_of_buckets(), "degree buckets of the compressed binary" + at);
    for (size_t b = 0; b < d.number_of_buckets(); ++b) MC_CHECK(d.bucket_size(b) == c.bucket_size(b), "degree bucket " + std::to_string(b) + " of the compressed binary" + at);
  }
}

void round_trip(const RefGraph &g) {
  const std::string at = " of " + g.str(), f = files::path("g"), f2 = files::path("h");
  const Graph plain = mkgraph(g), kept = mkgraph(g, true);
  // METIS
  for (const Graph *w : {&plain, &kept}) {
    kio::metis::write(f, *w);
    MC_CHECK(!kio::compressed_binary::is_compressed(f), "METIS file taken for a compressed binary" + at);
    read_metis(g, f, at);
  }
  {
    kio::metis::write(f, plain);
    const Graph a = kio::read(f, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, false);
    const Graph b = kio::read(f, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, true);
    same_graph(g, a.concretize<CSRGraph>(), " (METIS via io::read)" + at);
    same_graph(g, b.concretize<CompressedGraph>(), " (METIS via io::read, compressed)" + at);
    kio::metis::write(f2, b); // writing a compressed graph as text
    read_metis(g, f2, " written from the compressed graph" + at);
    validate_undirected_graph(a);
    validate_undirected_graph(b);
  }
  // ParHIP
  for (const Graph *w : {&plain, &kept}) {
    kio::parhip::write(f, w->concretize<CSRGraph>());
    MC_CHECK(!kio::compressed_binary::is_compressed(f), "ParHIP file taken for a compressed binary" + at);
    read_parhip(g, f, at);
  }
  for (const NodeOrdering o : {NodeOrdering::NATURAL, NodeOrdering::EXTERNAL_DEGREE_BUCKETS, NodeOrdering::DEGREE_BUCKETS}) {
    const Graph a = kio::read(f, kio::GraphFileFormat::PARHIP, o, false);
    const Graph b = kio::read(f, kio::GraphFileFormat::PARHIP, o, true);
    if (o == NodeOrdering::EXTERNAL_DEGREE_BUCKETS) {
      rearranged(g, a.concretize<CSRGraph>(), " (ParHIP via io::read, rearranged)" + at);
      rearranged(g, b.concretize<CompressedGraph>(), " (ParHIP via io::read, compressed, rearranged)" + at);
    } else {
      same_graph(g, a.concretize<CSRGraph>(), " (ParHIP via io::read)" + at);
      same_graph(g, b.concretize<CompressedGraph>(), " (ParHIP via io::read, compressed)" + at);
    }
  }
  // compressed binary
  read_binary(g, parallel_compress(plain.concretize<CSRGraph>()), f, at);
  MC_CHECK(!files::get(f).empty(), "empty compressed file" + at);
  const Graph c = kio::read(f, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, true);
  same_graph(g, c.concretize<CompressedGraph>(), " (compressed binary via io::read)" + at);
  // a graph stored in degree-bucket order, read as such
  {
    Graph s = kaminpar::shm::graph::rearrange_by_degree_buckets(mkgraph(g).concretize<CSRGraph>());
    RefGraph r = read_back(s.concretize<CSRGraph>());
    r.sort_adj();
    r.name = g.name + ".sorted";
    const auto buckets = [&](const auto &x, const std::string &what) {
      MC_CHECK(x.sorted(), "not marked as sorted" + what + at);
      for (size_t b = 0; b < s.number_of_buckets(); ++b) MC_CHECK(x.bucket_size(b) == s.bucket_size(b), "size of degree bucket " + std::to_string(b) + what + at);
    };
    kio::metis::write(f, s);
    buckets(kio::csr_read(f, kio::GraphFileFormat::METIS, NodeOrdering::IMPLICIT_DEGREE_BUCKETS), " (METIS, stored in degree order)");
    same_graph(r, kio::csr_read(f, kio::GraphFileFormat::METIS, NodeOrdering::IMPLICIT_DEGREE_BUCKETS), " (METIS, stored in degree order)" + at);
    buckets(kio::compressed_read(f, kio::GraphFileFormat::METIS, NodeOrdering::IMPLICIT_DEGREE_BUCKETS), " (METIS, compressed, stored in degree order)");
    same_graph(r, kio::compressed_read(f, kio::GraphFileFormat::METIS, NodeOrdering::IMPLICIT_DEGREE_BUCKETS), " (METIS, compressed, stored in degree order)" + at);
    kio::parhip::write(f, s.concretize<CSRGraph>());
    buckets(kio::csr_read(f, kio::GraphFileFormat::PARHIP, NodeOrdering::IMPLICIT_DEGREE_BUCKETS), " (ParHIP, stored in degree order)");
    same_graph(r, kio::csr_read(f, kio::GraphFileFormat::PARHIP, NodeOrdering::IMPLICIT_DEGREE_BUCKETS), " (ParHIP, stored in degree order)" + at);
    const CompressedGraph d = kio::compressed_read(f, kio::GraphFileFormat::PARHIP, NodeOrdering::IMPLICIT_DEGREE_BUCKETS);
    buckets(d, " (ParHIP, compressed, stored in degree order)");
    same_graph(r, d, " (ParHIP, compressed, stored in degree order)" + at);
    read_binary(r, d, f2, " stored in degree order" + at);
  }
  mc::count_case();
}

void widths(const RefGraph &g) {
  const std::string f = files::path("g");
  const bool nw = !g.unit_vw(), ew = !g.unit_ew();
  for (int b = 0; b < 64; ++b) {
    const bool hn = nw || (b & 1), he = ew || (b & 2), e64 = b & 4, n64 = b & 8, w64 = b & 16, x64 = b & 32;
    if ((e64 && sizeof(EdgeID) == 4) || (n64 && sizeof(NodeID) == 4)) continue;
    if ((hn && w64 && sizeof(NodeWeight) == 4) || (he && x64 && sizeof(EdgeWeight) == 4)) continue;
    files::put(f, parhip_bytes(g, hn, he, e64, n64, w64, x64));
    // weights that are stored although all of them are 1 need not be kept as weights
    const std::string at = " of " + g.str() + " stored with version bits " + std::to_string(b);
    read_parhip(g, f, at);
    mc::count_case();
  }
}

// ------------------------------------------------------------------ menus
std::vector<RefGraph> shapes() {
  std::vector<RefGraph> v = {path(2), path(5), cycle(6), star(6), clique(5), grid(2, 3), matching(5), empty(4), disjoint(star(4), empty(2)), disjoint(empty(3), path(3)), scattered(star(40)), scattered(caveman(3, 5)), clique(20), prand(60, 5, 3), star(300), disjoint(scattered(prand(100, 3, 9)), empty(20))};
  if (mc::thorough())
    for (auto &g : {star(12000), path(5000), prand(3000, 8, 5), clique(200)}) v.push_back(g);
  return v;
}
} // namespace

void mc_main() {
#if defined(__SANITIZE_THREAD__)
  // the readers and writers that work in parallel, under every schedule
  const std::vector<RefGraph> in = {path(3), weighted(star(4), 3), weighted(disjoint(empty(1), disjoint(cycle(3), empty(1))), 1), weighted(caveman(2, 3), 2), weighted(scattered(star(70)), 3)};
  for (size_t gi = 0; gi < in.size(); ++gi)
    for (int what = 0; what < 6; ++what)
      for (const int workers : {2, 3})
        for (const mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Block}) {
          if (workers == 3 && !mc::thorough() && (gi != 1 || what == 4)) continue;
          mc::Config c;
          c.workers = workers, c.assign = as, c.preemptions = mc::thorough() ? 2 : 1;
          const std::string at = in[gi].name + "/" + std::to_string(what) + "/T" + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as));
          mc::explore("schedules/" + at, c, [&, gi, what] {
            std::string f, w;
            {
              mc::RtGuard off;
              reseed(0);
              f = files::path("g"), w = " of " + in[gi].str();
              files::put(f, parhip_bytes(in[gi], !in[gi].unit_vw(), !in[gi].unit_ew(), false, false, false, false));
              if (what == 3 || what == 5) files::put(f, metis_text(in[gi], 0));
            }
            const RefGraph &g = in[gi];
            if (what == 0) {
              const CSRGraph x = kio::parhip::csr_read(f, NodeOrdering::EXTERNAL_DEGREE_BUCKETS);
              mc::RtGuard off;
              rearranged(g, x, w);
            } else if (what == 1) {
              const CompressedGraph x = kio::parhip::compressed_read_parallel(f, NodeOrdering::NATURAL);
              mc::RtGuard off;
              same_graph(g, x, w);
            } else if (what == 2) {
              const CompressedGraph x = kio::parhip::compressed_read_parallel(f, NodeOrdering::EXTERNAL_DEGREE_BUCKETS);
              mc::RtGuard off;
              rearranged(g, x, w);
            } else if (what == 3) {
              const Graph x = kio::read(f, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, true);
              mc::RtGuard off;
              same_graph(g, x.concretize<CompressedGraph>(), w);
            } else if (what == 4) {
              const CSRGraph x = kio::parhip::csr_read(f, NodeOrdering::NATURAL);
              const CompressedGraph y = parallel_compress(x);
              kio::compressed_binary::write(f, y);
              const CompressedGraph z = kio::compressed_binary::read(f);
              mc::RtGuard off;
              same_graph(g, z, w);
            } else {
              const CSRGraph x = kio::metis::csr_read(f, false);
              kio::parhip::write(f, x);
              const CSRGraph y = kio::parhip::csr_read(f, NodeOrdering::NATURAL);
              mc::RtGuard off;
              same_graph(g, y, w);
            }
            mc::observe(1);
          });
        }
#else
  // divisions of the parallel loops
  const std::vector<RefGraph> big = {prand(900, 14, 3), disjoint(disjoint(empty(300), prand(300, 22, 5)), empty(10)), disjoint(star(1200), grid(20, 20))};
  for (size_t gi = 0; gi < big.size(); ++gi)
    for (const int kind : {0, 3, 4})
      for (const int workers : {2, 4})
        for (const mc::Assign as : {mc::Assign::RoundRobin, mc::Assign::Mirrored, mc::Assign::Block}) {
          mc::Config c;
          c.workers = workers, c.assign = as, c.chunks = workers * 5;
          mc::explore("divided/" + std::to_string(gi) + "/w" + std::to_string(kind) + "/T" + std::to_string(workers) + "/" + std::to_string(static_cast<int>(as)), c, [&, gi, kind] {
            const RefGraph g = weighted(big[gi], kind);
            round_trip(g);
            widths(g);
          });
        }
  for (int kind = 0; kind < 5; ++kind) {
    mc::run("round-trip-small/w" + std::to_string(kind), [=] {
      const int n = static_cast<int>(mc::choose(6));
      const uint32_t mask = static_cast<uint32_t>(mc::choose(static_cast<int>(num_masks(n))));
      const RefGraph g = weighted(by_mask(n, mask), kind);
      round_trip(g);
      if (n < 5) widths(g);
      mc::observe(hash64(mask * 8 + static_cast<uint64_t>(n)));
    });
    if (mc::thorough())
      mc::run("round-trip-6/w" + std::to_string(kind), [=] {
        static const auto c = iso_classes(6);
        const RefGraph g = weighted(by_mask(6, c[static_cast<size_t>(mc::choose(static_cast<int>(c.size())))]), kind);
        round_trip(g);
        widths(g);
      });
  }
  mc::run("round-trip-shapes", [] {
    const auto s = shapes();
    RefGraph g = s[static_cast<size_t>(mc::choose(static_cast<int>(s.size())))];
    g = weighted(g, static_cast<int>(mc::choose(5)));
    round_trip(g);
    widths(g);
  });
  mc::run("text-variants", [] {
    std::vector<RefGraph> v = {empty(0), empty(1), empty(3), path(2), star(4), disjoint(path(2), empty(1)), disjoint(empty(1), path(3)), cycle(4)};
    RefGraph g = v[static_cast<size_t>(mc::choose(static_cast<int>(v.size())))];
    g = weighted(g, static_cast<int>(mc::choose(5)));
    const std::string f = files::path("g");
    for (int x = 0; x < VARIANTS; ++x) {
      const std::string t = metis_text(g, x);
      files::put(f, t);
      read_metis(g, f, " of " + g.str() + " in text variant " + std::to_string(x) + (t.size() < 300 ? ": " + t : ""));
      mc::count_case();
    }
  });
  if (mc::thorough())
    mc::run("text-variants-small", [] {
      const int n = static_cast<int>(mc::choose(5));
      const RefGraph g = weighted(by_mask(n, static_cast<uint32_t>(mc::choose(static_cast<int>(num_masks(n))))), static_cast<int>(mc::choose(5)));
      const std::string f = files::path("g");
      for (int x = 0; x < VARIANTS; x += 1) {
        const std::string t = metis_text(g, x);
        files::put(f, t);
        read_metis(g, f, " of " + g.str() + " in text variant " + std::to_string(x) + ": " + t.substr(0, 300));
        mc::count_case();
      }
    });
#endif
}
