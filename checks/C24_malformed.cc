// C24: malformed graph input is rejected, never misread. Every truncation and every single-character and
// single-token corruption of small files, every format and reader; each is judged by an independent,
// strict parser of the format. The validator is run on all small adjacency structures.
// Built with the address sanitizer; the code under test runs in child processes.
#include "kv.h"

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

#include "apps/io/shm_compressed_graph_binary.h"
#include "apps/io/shm_input_validator.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"

#include "files.h"

using namespace kv;
namespace kio = kaminpar::shm::io;
using U128 = unsigned __int128;

namespace {
struct Verdict {
  enum { REJECT, ACCEPT, MAY, SKIP } kind = REJECT; // MAY: accepting is fine if the result is `graph`
  std::string graph, why;
};
Verdict no(const std::string &why) { return {Verdict::REJECT, "", why}; }

std::string text_of(const std::vector<std::vector<std::pair<uint64_t, long>>> &adj, const std::vector<long> &vw) {
  std::string s = "n=" + std::to_string(adj.size());
  for (size_t u = 0; u < adj.size(); ++u) {
    auto a = adj[u];
    std::sort(a.begin(), a.end());
    s += " [" + std::to_string(vw[u]) + "|";
    for (auto [v, w] : a) s += std::to_string(v) + ":" + std::to_string(w) + ",";
    s += "]";
  }
  return s;
}
template <typename G> std::string text_of(const G &g, const std::vector<NodeID> *orig = nullptr) {
  std::vector<std::vector<std::pair<uint64_t, long>>> adj(g.n());
  std::vector<long> vw(g.n());
  uint64_t m = 0;
  for (NodeID x = 0; x < g.n(); ++x) {
    const NodeID u = orig ? (*orig)[x] : x;
    vw[u] = static_cast<long>(g.node_weight(x));
    g.adjacent_nodes(x, [&](const NodeID v, const EdgeWeight w) {
      if (v >= g.n()) return adj[u].push_back({1000000000, 0});
      adj[u].push_back({orig ? (*orig)[v] : v, static_cast<long>(w)});
    });
    m += adj[u].size();
  }
  return m == g.m() ? text_of(adj, vw) : "inconsistent number of edges";
}
template <typename G> std::string text_mapped(const G &g) {
  if (!g.permuted()) return text_of(g);
  std::vector<NodeID> orig(g.n());
  for (NodeID u = 0; u < g.n(); ++u) orig[g.map_original_node(u)] = u;
  return text_of(g, &orig);
}

// ------------------------------------------------------------------ reference parser: METIS
struct Scan {
  const std::string &s;
  size_t p = 0;
  bool bad = false;
  bool eof() const { return p >= s.size(); }
  char c() const { return eof() ? '\0' : s[p]; }
  bool digit() const { return !eof() && s[p] >= '0' && s[p] <= '9'; }
  void spaces() { while (!eof() && s[p] == ' ') ++p; }
  void comments() {
    spaces();
    while (!eof() && s[p] == '%') {
      while (!eof() && s[p] != '\n') ++p;
      if (!eof()) ++p;
      spaces();
    }
  }
  U128 num() {
    if (!digit()) return bad = true, 0;
    U128 x = 0;
    for (; digit(); ++p)
      if (x < (static_cast<U128>(1) << 100)) x = x * 10 + static_cast<U128>(s[p] - '0');
    spaces();
    return x;
  }
};
Verdict metis(const std::string &s) {
  Scan t{s};
  t.comments();
  const U128 n = t.num();
  if (t.bad) return no("no number of vertices");
  const U128 m = t.num();
  if (t.bad) return no("no number of edges");
  U128 fmt = 0;
  if (t.digit()) fmt = t.num();
  if (!t.eof() && t.c() != '\n') return no("unexpected character in the header");
  if (!t.eof()) ++t.p;
  if (!(fmt == 0 || fmt == 1 || fmt == 10 || fmt == 11 || fmt == 100 || fmt == 101 || fmt == 110 || fmt == 111)) return no("unknown format");
  const bool sz = fmt >= 100, nw = (fmt % 100) >= 10, ew = fmt % 10;
  if (n >= 0xfffffffe) return no("too many vertices");
  if (m >= 0x7ffffffe) return no("too many edges");
  std::vector<std::vector<std::pair<uint64_t, long>>> adj;
  std::vector<long> vw;
  U128 tv = 0, te = 0, e = 0;
  for (U128 u = 0; u < n; ++u) {
    t.comments();
    if (sz) t.num();
    if (t.bad) return no("missing vertex size");
    U128 w = 1;
    if (nw) {
      w = t.num();
      if (t.bad) return no("missing vertex weight");
      if (w == 0 || (tv += w) > 0x7fffffff) return no("illegal vertex weight");
    }
    adj.emplace_back();
    vw.push_back(static_cast<long>(w));
    while (t.digit()) {
      const U128 v = t.num();
      U128 x = 1;
      if (ew) {
        x = t.num();
        if (t.bad) return no("missing edge weight");
        if (x == 0 || (te += x) > 0x7fffffff) return no("illegal edge weight");
      }
      if (v == 0 || v > n) return no("neighbour out of range");
      if (v == u + 1) return no("self-loop");
      if (++e > 2 * m) return no("more edges than announced");
      adj.back().push_back({static_cast<uint64_t>(v) - 1, static_cast<long>(x)});
    }
    if (!t.eof() && t.c() != '\n') return no("unexpected character in the line of vertex " + std::to_string(static_cast<long>(u) + 1));
    if (t.eof() && u + 1 < n) return no("missing lines");
    if (!t.eof()) ++t.p;
  }
  if (e != 2 * m) return no("fewer edges than announced");
  return {Verdict::ACCEPT, text_of(adj, vw), ""};
}

// ------------------------------------------------------------------ reference parser: ParHIP
Verdict parhip(const std::string &s) {
  auto u64 = [&](size_t p) { uint64_t x; memcpy(&x, s.data() + p, 8); return x; };
  auto u32 = [&](size_t p) { uint32_t x; memcpy(&x, s.data() + p, 4); return x; };
  if (s.size() < 24) return no("truncated header");
  const uint64_t ver = u64(0), n = u64(8), m = u64(16);
  const bool ew = !(ver & 1), nw = !(ver & 2), e64 = !(ver & 4), n64 = !(ver & 8), w64 = !(ver & 16), x64 = !(ver & 32);
  if (e64 || n64 || (nw && w64) || (ew && x64)) return no("64-bit data");
  const U128 size = 24 + (static_cast<U128>(n) + 1) * 4 + static_cast<U128>(m) * 4 + (nw ? static_cast<U128>(n) * 4 : 0) + (ew ? static_cast<U128>(m) * 4 : 0);
  if (size > s.size()) return no("truncated");
  const uint64_t base = 24 + (n + 1) * 4;
  std::vector<uint64_t> off(n + 1);
  for (uint64_t u = 0; u <= n; ++u) {
    const uint64_t o = u32(24 + 4 * u);
    if (o < base || (o - base) % 4 || (o - base) / 4 > m) return no("illegal offset of vertex " + std::to_string(u));
    off[u] = (o - base) / 4;
    if (u && off[u] < off[u - 1]) return no("descending offsets");
  }
  if (off[0] != 0 || off[n] != m) return no("offsets do not cover the edges");
  std::vector<std::vector<std::pair<uint64_t, long>>> adj(n);
  std::vector<long> vw(n, 1);
  bool odd = s.size() != size || (ver >> 6) != 0;
  for (uint64_t u = 0; u < n; ++u) {
    std::set<uint64_t> seen;
    for (uint64_t e = off[u]; e < off[u + 1]; ++e) {
      const uint64_t v = u32(base + 4 * e);
      if (v >= n) return no("neighbour out of range");
      const long w = ew ? static_cast<int32_t>(u32(base + 4 * m + (nw ? 4 * n : 0) + 4 * e)) : 1;
      adj[u].push_back({v, w});
      if (v == u || !seen.insert(v).second || w <= 0) odd = true; // not a legal graph, but well-formed
    }
    if (nw) vw[u] = static_cast<int32_t>(u32(base + 4 * m + 4 * u));
    if (vw[u] <= 0) odd = true;
  }
  long tv = 0, te = 0;
  bool illegal = false;
  for (long w : vw) tv += w, illegal |= w <= 0;
  for (auto &a : adj)
    for (auto &p : a) te += p.second, illegal |= p.second <= 0;
  if (illegal || tv != static_cast<int32_t>(tv) || te != static_cast<int32_t>(te)) return {Verdict::SKIP, "", ""}; // not representable: weights are not judged
  return {odd ? Verdict::MAY : Verdict::ACCEPT, text_of(adj, vw), ""};
}

// ------------------------------------------------------------------ judging
std::string show(const std::string &s) {
  std::string o;
  bool text = std::all_of(s.begin(), s.end(), [](char c) { return (c >= 32 && c < 127) || c == '\n'; });
  for (unsigned char c : s)
    if (text) o += c == '\n' ? std::string("\\n") : std::string(1, static_cast<char>(c));
    else {
      char b[4];
      snprintf(b, sizeof b, "%02x ", c);
      o += b;
    }
  return o.substr(0, 500);
}
struct Case {
  std::string bytes;
  Verdict v;
};
// every case through `read`, which returns the text of the graph
void judge(const std::vector<Case> &cases, const std::string &what, const std::function<std::string(const std::string &)> &read) {
  const std::string f = files::path("g");
  const auto out = files::children(static_cast<int>(cases.size()), [&](int i) {
    files::put(f, cases[static_cast<size_t>(i)].bytes);
    return read(f);
  });
  for (size_t i = 0; i < cases.size(); ++i) {
    const auto &o = out[i];
    const auto &v = cases[i].v;
    const std::string at = " (" + what + ") on: " + show(cases[i].bytes);
    MC_CHECK(o.done || o.clean(), "no clean end: " + o.str() + at);
    if (!o.done) MC_CHECK(!o.text.empty(), "the input is rejected without any message" + at);
    if (v.kind == Verdict::REJECT) MC_CHECK(!o.done, "malformed input (" + v.why + ") is accepted as " + o.text.substr(0, 200) + at);
    else if (o.done) MC_CHECK(o.text == v.graph, "misread as " + o.text.substr(0, 250) + " instead of " + v.graph.substr(0, 250) + at);
    else MC_CHECK(v.kind == Verdict::MAY, "well-formed input is rejected: " + o.str() + at);
    mc::count_case();
  }
}

// ------------------------------------------------------------------ METIS
std::string metis_text(const RefGraph &g, const std::string &fmt) {
  const bool sz = fmt.size() == 3 && fmt[0] == '1', nw = fmt.size() >= 2 && fmt[fmt.size() - 2] == '1', ew = !fmt.empty() && fmt.back() == '1';
  std::string s = std::to_string(g.n()) + " " + std::to_string(g.m() / 2) + (fmt.empty() ? "" : " " + fmt) + "\n";
  for (int u = 0; u < g.n(); ++u) {
    std::string l;
    auto tok = [&](long x) { l += (l.empty() ? "" : " ") + std::to_string(x); };
    if (sz) tok(7);
    if (nw) tok(g.vw[u]);
    for (auto [v, w] : g.adj[u]) {
      tok(v + 1);
      if (ew) tok(w);
    }
    s += l + "\n";
  }
  return s;
}
std::vector<std::pair<std::string, std::string>> metis_bases() {
  std::vector<std::pair<std::string, std::string>> b;
  auto add = [&](const std::string &name, const std::string &t) { b.push_back({name, t}); };
  add("empty", "0 0\n");
  add("one", "1 0\n\n");
  add("path2", metis_text(path(2), ""));
  add("path3", metis_text(path(3), ""));
  add("star4", metis_text(star(4), ""));
  add("isolated", metis_text(disjoint(path(2), empty(2)), ""));
  add("node-weights", metis_text(with_weights(path(3), 1), "10"));
  add("edge-weights", metis_text(with_weights(path(3), 2), "1"));
  add("both", metis_text(with_weights(path(3), 3), "11"));
  add("sizes", metis_text(path(3), "100"));
  add("all", metis_text(with_weights(path(3), 3), "111"));
  add("explicit", metis_text(path(3), "011"));
  add("isolated-weighted", metis_text(with_weights(disjoint(path(2), empty(1)), 3), "11"));
  add("comments", "% c\n 3 2\n%\n 2\n1 3\n% x\n2 \n% end\n");
  add("two-digits", metis_text(path(11), ""));
  if (mc::thorough()) {
    add("clique4", metis_text(with_weights(clique(4), 3), "11"));
    add("cycle12", metis_text(with_weights(cycle(12), 3), "111"));
  }
  return b;
}
std::vector<Case> corrupt_text(const std::string &t) {
  std::vector<std::string> out{t};
  for (size_t i = 0; i <= t.size(); ++i) out.push_back(t.substr(0, i)); // truncations
  static const std::string alphabet("0127 \n-x%\t\r.\0\xff", 14);
  for (size_t i = 0; i < t.size(); ++i) {
    out.push_back(t.substr(0, i) + t.substr(i + 1)); // deletion
    for (char c : alphabet) {
      if (c != t[i]) out.push_back(t.substr(0, i) + c + t.substr(i + 1)); // replacement
      out.push_back(t.substr(0, i) + c + t.substr(i));                    // insertion
    }
  }
  for (char c : alphabet) out.push_back(t + c);
  // tokens
  std::vector<std::pair<size_t, size_t>> tok;
  for (size_t i = 0; i < t.size();) {
    if (!isdigit(t[i])) { ++i; continue; }
    size_t j = i;
    while (j < t.size() && isdigit(t[j])) ++j;
    tok.push_back({i, j});
    i = j;
  }
  for (auto [a, b] : tok)
    for (const char *x : {"", "0", "00", "1", "2", "3", "4", "5", "13", "100", "-1", "1.5", "1e1", "abc", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "4294967298", "8589934593", "9223372036854775807",
                          "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551618", "18446744073709551619", "99999999999999999999999999999999999999999999"})
      out.push_back(t.substr(0, a) + x + t.substr(b));
  // lines
  std::vector<std::string> lines;
  for (size_t i = 0; i < t.size();) {
    size_t j = t.find('\n', i);
    j = j == std::string::npos ? t.size() : j + 1;
    lines.push_back(t.substr(i, j - i));
    i = j;
  }
  auto join = [&](const std::vector<std::string> &l) { std::string s; for (auto &x : l) s += x; return s; };
  for (size_t i = 0; i < lines.size(); ++i) {
    auto l = lines;
    l.erase(l.begin() + static_cast<long>(i));
    out.push_back(join(l));
    l = lines;
    l.insert(l.begin() + static_cast<long>(i), l[i]);
    out.push_back(join(l));
    for (size_t j = i + 1; j < lines.size(); ++j) {
      l = lines;
      std::swap(l[i], l[j]);
      out.push_back(join(l));
    }
  }
  // the same at the end of a page: the mapping ends where the file ends
  const size_t plain = out.size();
  for (size_t i = 0; i < plain; ++i)
    if (i < 40 || i % 7 == 0) {
      const std::string x = out[i];
      const size_t want = (x.size() + 2 + 4095) / 4096 * 4096;
      out.push_back("%" + std::string(want - x.size() - 2, 'x') + "\n" + x);
    }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  std::vector<Case> c;
  for (auto &x : out) c.push_back({x, metis(x)});
  return c;
}

// ------------------------------------------------------------------ ParHIP
std::string parhip_bytes(const RefGraph &g, bool nw, bool ew) {
  std::string s;
  auto put = [&](uint64_t x, int width) { s.append(reinterpret_cast<const char *>(&x), static_cast<size_t>(width)); };
  put((ew ? 0 : 1) | (nw ? 0 : 2) | 4 | 8 | 16 | 32, 8);
  put(static_cast<uint64_t>(g.n()), 8), put(static_cast<uint64_t>(g.m()), 8);
  uint64_t at = 24 + static_cast<uint64_t>(g.n() + 1) * 4;
  for (int u = 0; u <= g.n(); ++u) {
    put(at, 4);
    if (u < g.n()) at += g.adj[u].size() * 4;
  }
  for (auto &a : g.adj)
    for (auto [v, w] : a) put(static_cast<uint64_t>(v), 4);
  if (nw)
    for (long w : g.vw) put(static_cast<uint64_t>(w), 4);
  if (ew)
    for (auto &a : g.adj)
      for (auto [v, w] : a) put(static_cast<uint64_t>(w), 4);
  return s;
}
std::vector<Case> corrupt_bytes(const std::string &t) {
  std::vector<std::string> out{t};
  for (size_t i = 0; i <= t.size(); ++i) out.push_back(t.substr(0, i));
  out.push_back(t + std::string(1, '\0'));
  for (size_t i = 0; i < t.size(); ++i) {
    std::set<unsigned char> vals{0, 1, 0x7f, 0x80, 0xff};
    const unsigned char c = static_cast<unsigned char>(t[i]);
    for (int d : {1, 2, 4, 8, -1, -4}) vals.insert(static_cast<unsigned char>(c + d));
    for (unsigned char x : vals)
      if (x != c) {
        std::string y = t;
        y[i] = static_cast<char>(x);
        out.push_back(y);
      }
  }
  for (size_t i = 0; i + 4 <= t.size(); i += 4) { // whole words
    for (uint64_t x : {0ull, 1ull, 3ull, 4ull, 24ull, 0x7fffffffull, 0x80000000ull, 0xfffffffcull, 0xffffffffull}) {
      std::string y = t;
      memcpy(y.data() + i, &x, 4);
      out.push_back(y);
    }
    if (i < 24 && i % 8 == 0)
      for (uint64_t x : {1ull << 32, 1ull << 61, 1ull << 62, (1ull << 62) - 1, 1ull << 63, ~0ull, ~0ull - 1, ~0ull - 7, 0x3fffffffffffffffull, 0x4000000000000003ull}) {
        std::string y = t;
        memcpy(y.data() + i, &x, 8);
        out.push_back(y);
      }
    if (i + 8 <= t.size()) { // exchanged words
      std::string y = t;
      for (int b = 0; b < 4; ++b) std::swap(y[i + static_cast<size_t>(b)], y[i + 4 + static_cast<size_t>(b)]);
      out.push_back(y);
    }
  }
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  std::vector<Case> c;
  for (auto &x : out) {
    const Verdict v = parhip(x);
    if (v.kind != Verdict::SKIP) c.push_back({x, v});
  }
  return c;
}

// ------------------------------------------------------------------ validator
struct Digraph {
  std::vector<std::vector<std::pair<int, int>>> adj;
  bool legal() const {
    const int n = static_cast<int>(adj.size());
    for (int u = 0; u < n; ++u)
      for (size_t i = 0; i < adj[u].size(); ++i) {
        const auto [v, w] = adj[u][i];
        if (v < 0 || v >= n || v == u) return false;
        for (size_t j = 0; j < i; ++j)
          if (adj[u][j].first == v) return false;
        int back = 0;
        for (auto [x, y] : adj[v]) back += x == u && y == w;
        if (back != 1) return false;
      }
    return true;
  }
  std::string str() const {
    std::string s;
    for (auto &a : adj) {
      s += "[";
      for (auto [v, w] : a) s += std::to_string(v) + ":" + std::to_string(w) + " ";
      s += "]";
    }
    return s;
  }
};
void validate(const std::vector<Digraph> &ds, bool weighted) {
  const auto out = files::children(static_cast<int>(ds.size()), [&](int i) {
    const Digraph &d = ds[static_cast<size_t>(i)];
    size_t m = 0;
    for (auto &a : d.adj) m += a.size();
    StaticArray<EdgeID> nodes(d.adj.size() + 1, kaminpar::static_array::seq);
    StaticArray<NodeID> edges(m, kaminpar::static_array::seq);
    StaticArray<EdgeWeight> ew(weighted ? m : 0, kaminpar::static_array::seq);
    size_t e = 0;
    nodes[0] = 0;
    for (size_t u = 0; u < d.adj.size(); ++u) {
      for (auto [v, w] : d.adj[u]) {
        edges[e] = static_cast<NodeID>(v);
        if (weighted) ew[e] = w;
        ++e;
      }
      nodes[u + 1] = static_cast<EdgeID>(e);
    }
    const Graph g(std::make_unique<CSRGraph>(std::move(nodes), std::move(edges), StaticArray<NodeWeight>{}, std::move(ew)));
    validate_undirected_graph(g);
    return std::string("ok");
  });
  for (size_t i = 0; i < ds.size(); ++i) {
    const auto &o = out[i];
    MC_CHECK(o.done || o.clean(), "no clean end of the validator: " + o.str() + " on " + ds[i].str());
    MC_CHECK(o.done == ds[i].legal(), std::string("the validator ") + (o.done ? "accepts the illegal" : "rejects the legal") + " graph " + ds[i].str() + (o.done ? "" : ": " + o.text.substr(0, 200)));
    if (!o.done) MC_CHECK(!o.text.empty(), "rejected without any message: " + ds[i].str());
    mc::count_case();
  }
}
std::vector<std::vector<int>> compositions(int n, int m) { // degree sequences
  std::vector<std::vector<int>> r;
  if (n == 0) return m == 0 ? std::vector<std::vector<int>>{{}} : r;
  for (int d = 0; d <= m; ++d)
    for (auto t : compositions(n - 1, m - d)) {
      t.insert(t.begin(), d);
      r.push_back(t);
    }
  return r;
}
} // namespace

void mc_main() {
  for (auto &[name, t] : metis_bases())
    for (bool compress : {false, true})
      mc::run("metis/" + name + (compress ? "/compressed" : ""), [=, t = t] {
        judge(corrupt_text(t), compress ? "METIS -> compressed" : "METIS -> plain", [=](const std::string &f) {
          const Graph g = kio::read(f, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, compress);
          return compress ? text_of(g.concretize<CompressedGraph>()) : text_of(g.concretize<CSRGraph>());
        });
      });
  std::vector<std::pair<std::string, std::string>> bases = {{"empty", parhip_bytes(empty(0), false, false)}, {"one", parhip_bytes(empty(1), false, false)}, {"path3", parhip_bytes(path(3), false, false)},
      {"path3w", parhip_bytes(with_weights(path(3), 3), true, true)}, {"node", parhip_bytes(with_weights(star(4), 1), true, false)}, {"edge", parhip_bytes(with_weights(cycle(4), 2), false, true)}, {"isolated", parhip_bytes(disjoint(empty(1), disjoint(path(2), empty(1))), false, false)}};
  if (mc::thorough()) bases.push_back({"clique5", parhip_bytes(with_weights(clique(5), 3), true, true)});
  for (auto &[name, t] : bases)
    for (int reader = 0; reader < 5; ++reader)
      mc::run("parhip/" + name + "/" + std::to_string(reader), [=, t = t] {
        const char *what[] = {"ParHIP -> plain", "ParHIP -> plain, rearranged", "ParHIP -> compressed", "ParHIP -> compressed, rearranged", "ParHIP -> compressed, sequential"};
        judge(corrupt_bytes(t), what[reader], [=](const std::string &f) {
          if (reader == 4) return text_of(kio::parhip::compressed_read(f, false));
          const Graph g = kio::read(f, kio::GraphFileFormat::PARHIP, reader % 2 ? NodeOrdering::EXTERNAL_DEGREE_BUCKETS : NodeOrdering::NATURAL, reader >= 2);
          return reader >= 2 ? text_mapped(g.concretize<CompressedGraph>()) : text_mapped(g.concretize<CSRGraph>());
        });
      });
  // compressed binary: truncations, foreign data and header fields that must match the build or the data
  for (int kind = 0; kind < 4; ++kind)
    mc::run("binary/w" + std::to_string(kind), [=] {
      const RefGraph r = with_weights(disjoint(star(5), empty(1)), kind);
      const std::string f = files::path("b");
      kio::compressed_binary::write(f, parallel_compress(csr(r)));
      const std::string t = files::get(f);
      std::vector<std::vector<std::pair<uint64_t, long>>> adj(static_cast<size_t>(r.n()));
      for (int u = 0; u < r.n(); ++u)
        for (auto [v, w] : r.adj[u]) adj[static_cast<size_t>(u)].push_back({static_cast<uint64_t>(v), w});
      std::vector<Case> c{{t, {Verdict::ACCEPT, text_of(adj, r.vw), ""}}};
      for (size_t i = 0; i < t.size(); ++i) c.push_back({t.substr(0, i), no("truncated")});
      c.push_back({t + "x", no("trailing data")});
      auto flip = [&](size_t i, int bit, const std::string &why) {
        std::string y = t;
        y[i] = static_cast<char>(y[i] ^ (1 << bit));
        c.push_back({y, no(why)});
      };
      for (size_t i = 0; i < 8; ++i)
        for (int b = 0; b < 8; ++b) flip(i, b, "magic number");
      flip(8, 0, "flag of vertex weights");
      for (int b : {2, 3, 4, 5}) flip(8, b, "width flag");
      flip(8, 7, "encoding flag"), flip(9, 0, "encoding flag"), flip(9, 1, "encoding flag");
      for (size_t i = 10; i < 10 + 4 * 8; ++i)
        for (int b = 0; b < 8; ++b) flip(i, b, i < 34 ? "encoding parameter" : "number of vertices");
      const size_t arrays = 10 + 11 * 8; // byte width (1), size (8), vertex array, size (8), edges, ...
      for (int b = 0; b < 8; ++b) flip(arrays, b, "byte width");
      for (size_t i = arrays + 1; i < arrays + 9; ++i)
        for (int b = 0; b < 8; ++b) flip(i, b, "size of the vertex array");
      judge(c, "compressed binary", [=](const std::string &g) {
        const Graph x = kio::read(g, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, true);
        return text_of(x.concretize<CompressedGraph>());
      });
      // without compression, such a file must be refused
      judge({{t, no("compressed file without compression")}}, "compressed binary -> plain", [=](const std::string &g) {
        const Graph x = kio::read(g, kio::GraphFileFormat::METIS, NodeOrdering::NATURAL, false);
        return text_of(x.concretize<CSRGraph>());
      });
    });
  mc::run("unreadable", [] {
    const std::string dir = mc::scratch() + "/dir", missing = mc::scratch() + "/missing", empty = mc::scratch() + "/empty";
    mkdir(dir.c_str(), 0700);
    files::put(empty, "");
    for (const std::string &f : {dir, missing, empty, missing + "/x", std::string("/dev/null")})
      for (int form = 0; form < 2; ++form)
        for (int compress = 0; compress < 2; ++compress)
          for (int ord = 0; ord < 2; ++ord) {
            const auto o = files::child([=] {
              const Graph g = kio::read(f, form ? kio::GraphFileFormat::PARHIP : kio::GraphFileFormat::METIS, ord ? NodeOrdering::EXTERNAL_DEGREE_BUCKETS : NodeOrdering::NATURAL, compress);
              return std::string("a graph");
            });
            MC_CHECK(o.clean() && !o.text.empty(), "reading " + f.substr(f.rfind('/') + 1) + ": " + o.str());
            mc::count_case();
          }
    for (const std::string &f : {dir, missing})
      for (int which = 0; which < 3; ++which) {
        const auto o = files::child([=] {
          if (which == 0) kio::partition::read(f);
          if (which == 1) kio::partition::read_block_sizes(f);
          if (which == 2) kio::compressed_binary::read(f);
          return std::string("data");
        });
        MC_CHECK(o.clean() && !o.text.empty(), "reading " + f.substr(f.rfind('/') + 1) + " as a " + (which == 2 ? "compressed graph: " : "partition: ") + o.str());
        mc::count_case();
      }
  });
  // partition and block-size files
  mc::run("partition-files", [] {
    std::vector<std::string> texts = {"", "0", "0\n", "0\n1\n2\n", "0\n1", "10\n20\n", "3\n0\n0\n7", "00\n", "1 \n2\n"};
    std::set<std::string> all;
    for (const auto &t : texts) {
      all.insert(t);
      for (size_t i = 0; i <= t.size(); ++i)
        for (char c : std::string("0 x\n-\t\r.\0\xff", 10)) {
          all.insert(t.substr(0, i) + c + t.substr(i));
          if (i < t.size()) all.insert(t.substr(0, i) + c + t.substr(i + 1));
        }
      for (size_t i = 0; i < t.size(); ++i) all.insert(t.substr(0, i) + t.substr(i + 1));
    }
    for (const char *x : {"4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "99999999999999999999999"}) all.insert(std::string(x) + "\n0\n"), all.insert(std::string("0\n") + x + "\n");
    for (int which = 0; which < 2; ++which) {
      std::vector<Case> c;
      for (const std::string &t : all) {
        Scan s{t};
        std::string want;
        bool ok = true;
        long block = 0;
        while (!s.eof() && ok) {
          const U128 x = s.num();
          if (s.bad || x > 0xffffffffull) { ok = false; break; }
          if (which == 0) want += std::to_string(static_cast<unsigned long>(x)) + " ";
          else for (long i = 0; i < static_cast<long>(x); ++i) want += std::to_string(block) + " ";
          ++block;
          if (!s.eof() && s.c() != '\n') { ok = false; break; }
          if (!s.eof()) ++s.p;
        }
        want = "[" + want + "]";
        c.push_back({t, ok ? Verdict{Verdict::ACCEPT, want, ""} : no("not a list of numbers")});
      }
      judge(c, which ? "block sizes" : "partition", [=](const std::string &f) {
        const auto p = which ? kio::partition::read_block_sizes(f) : kio::partition::read(f);
        std::string s;
        for (size_t i = 0; i < p.size(); ++i) s += std::to_string(p[i]) + " ";
        return "[" + s + "]";
      });
    }
  });
  // ------------------------------------------------------------------ validator
  for (int n = 1; n <= 4; ++n)
    for (int m = 0; m <= (n == 4 ? 3 : 4); ++m)
      for (int weighted = 0; weighted < 2; ++weighted) {
        if (weighted && m > (mc::thorough() ? 4 : 3)) continue;
        mc::run("validator/n" + std::to_string(n) + "m" + std::to_string(m) + (weighted ? "w" : ""), [=] {
          const auto comp = compositions(n, m);
          const auto &deg = comp[static_cast<size_t>(mc::choose(static_cast<int>(comp.size())))];
          const int per = (n + 1) * (weighted ? 2 : 1); // neighbour 0..n (n is out of range), weight 1 or 2
          long total = 1;
          for (int i = 0; i < m; ++i) total *= per;
          std::vector<Digraph> ds;
          for (long x = 0; x < total; ++x) {
            Digraph d;
            long y = x;
            for (int k : deg) {
              d.adj.emplace_back();
              for (int i = 0; i < k; ++i) {
                const int z = static_cast<int>(y % per);
                y /= per;
                d.adj.back().push_back({z % (n + 1), 1 + z / (n + 1)});
              }
            }
            ds.push_back(d);
          }
          validate(ds, weighted);
        });
      }
  // legal graphs with every neighbour order, and all their single defects
  mc::run("validator/defects", [] {
    const std::vector<RefGraph> base = {path(4), cycle(5), star(5), clique(4), disjoint(clique(3), path(3)), scattered(caveman(2, 4)), prand(12, 4, 1)};
    RefGraph r = base[static_cast<size_t>(mc::choose(static_cast<int>(base.size())))];
    const int kind = static_cast<int>(mc::choose(2)) * 2, order = static_cast<int>(mc::choose(3));
    r = with_weights(r, kind);
    Digraph d;
    for (int u = 0; u < r.n(); ++u) {
      d.adj.emplace_back();
      for (auto [v, w] : r.adj[u]) d.adj.back().push_back({v, static_cast<int>(w)});
      auto &a = d.adj.back();
      if (order == 1) std::reverse(a.begin(), a.end());
      if (order == 2) for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[hash64(u * 131 + i) % i]);
    }
    std::vector<Digraph> ds{d};
    for (int u = 0; u < r.n(); ++u)
      for (size_t i = 0; i < d.adj[u].size(); ++i) {
        Digraph x = d;
        x.adj[u].erase(x.adj[u].begin() + static_cast<long>(i)); // missing reverse edge
        ds.push_back(x);
        for (size_t at : {size_t(0), d.adj[u].size()}) { // duplicate on one side, on both sides
          x = d;
          x.adj[u].insert(x.adj[u].begin() + static_cast<long>(at), d.adj[u][i]);
          ds.push_back(x);
          const int v = d.adj[u][i].first;
          x.adj[v].push_back({u, d.adj[u][i].second});
          ds.push_back(x);
          x.adj[v].back().second += 1, x.adj[u][at ? x.adj[u].size() - 1 : 0].second += 1; // with other weights
          if (kind) ds.push_back(x);
        }
        for (int v = 0; v <= r.n(); ++v) { // redirected
          x = d;
          x.adj[u][i].first = v;
          ds.push_back(x);
        }
        x = d;
        x.adj[u][i].first = -1;
        ds.push_back(x);
        if (kind)
          for (int w : {0, 1, 2, 3, 4}) {
            x = d;
            x.adj[u][i].second = w;
            ds.push_back(x);
          }
        x = d;
        x.adj[u].push_back({u, 1}); // self-loop
        ds.push_back(x);
        x.adj[u].push_back({u, 1});
        ds.push_back(x);
      }
    validate(ds, kind);
  });
}
