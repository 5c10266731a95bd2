// Text and binary forms of RefGraph, written and read independently of the code under test.
#pragma once
#include "files.h"
#include "kv.h"

namespace text {
using kv::RefGraph;
inline std::string metis(const RefGraph &g) {
  const bool nw = !g.unit_vw(), ew = !g.unit_ew();
  std::string s = std::to_string(g.n()) + " " + std::to_string(g.m() / 2) + (nw ? (ew ? " 11" : " 10") : (ew ? " 1" : "")) + "\n";
  for (int u = 0; u < g.n(); ++u) {
    std::string line;
    auto tok = [&](long x) { line += (line.empty() ? "" : " ") + std::to_string(x); };
    if (nw) tok(g.vw[u]);
    for (auto [v, w] : g.adj[u]) {
      tok(v + 1);
      if (ew) tok(w);
    }
    s += line + "\n";
  }
  return s;
}
inline std::string parhip(const RefGraph &g) {
  const bool nw = !g.unit_vw(), ew = !g.unit_ew();
  std::string s;
  auto put = [&](uint64_t x, int width) { s.append(reinterpret_cast<const char *>(&x), static_cast<size_t>(width)); };
  put((ew ? 0 : 1) | (nw ? 0 : 2) | 60, 8);
  put(static_cast<uint64_t>(g.n()), 8), put(static_cast<uint64_t>(g.m()), 8);
  uint64_t at = 24 + static_cast<uint64_t>(g.n() + 1) * 4;
  for (int u = 0; u <= g.n(); ++u) {
    put(at, 4);
    if (u < g.n()) at += g.adj[u].size() * 4;
  }
  for (auto &a : g.adj)
    for (auto [v, w] : a) put(static_cast<uint64_t>(v), 4);
  if (nw)
    for (long w : g.vw) put(static_cast<uint64_t>(w), 4);
  if (ew)
    for (auto &a : g.adj)
      for (auto [v, w] : a) put(static_cast<uint64_t>(w), 4);
  return s;
}
inline std::vector<std::vector<long>> lines(const std::string &s) {
  std::vector<std::vector<long>> r;
  std::stringstream in(s);
  for (std::string l; std::getline(in, l);) {
    std::stringstream ls(l);
    r.emplace_back();
    for (long x; ls >> x;) r.back().push_back(x);
    if (!ls.eof()) mc::fail("not a number: " + l);
  }
  return r;
}
// one number per line
inline std::vector<long> numbers(const std::string &s, const std::string &what) {
  MC_CHECK(s.empty() || s.back() == '\n', "the last line of " + what + " is incomplete");
  std::vector<long> r;
  for (auto &l : lines(s)) {
    MC_CHECK(l.size() == 1, "not one number per line in " + what);
    r.push_back(l[0]);
  }
  return r;
}
inline RefGraph parse_metis(const std::string &s) {
  auto l = lines(s);
  MC_CHECK(!l.empty() && l[0].size() >= 2, "no header");
  const long n = l[0][0], f = l[0].size() > 2 ? l[0][2] : 0;
  MC_CHECK(static_cast<long>(l.size()) == n + 1, "the file has " + std::to_string(l.size()) + " lines");
  RefGraph g;
  g.adj.resize(static_cast<size_t>(n)), g.vw.assign(static_cast<size_t>(n), 1);
  for (long u = 0; u < n; ++u) {
    size_t i = 0;
    auto &x = l[static_cast<size_t>(u) + 1];
    if (f >= 10) {
      MC_CHECK(!x.empty(), "vertex weight missing");
      g.vw[static_cast<size_t>(u)] = x[i++];
    }
    while (i < x.size()) {
      const long v = x[i++];
      MC_CHECK(v >= 1 && v <= n && (f % 10 == 0 || i < x.size()), "malformed vertex line");
      const long w = f % 10 ? x[i++] : 1;
      g.adj[static_cast<size_t>(u)].push_back({static_cast<int>(v - 1), w});
    }
  }
  MC_CHECK(g.m() == 2 * l[0][1], "wrong number of edges in the header");
  return g;
}
inline RefGraph parse_parhip(const std::string &s) {
  auto u64 = [&](size_t p) { uint64_t x = 0; if (p + 8 <= s.size()) memcpy(&x, s.data() + p, 8); return x; };
  auto u32 = [&](size_t p) { uint32_t x = 0; MC_CHECK(p + 4 <= s.size(), "truncated"); memcpy(&x, s.data() + p, 4); return x; };
  const uint64_t ver = u64(0), n = u64(8), m = u64(16);
  MC_CHECK((ver & 60) == 60, "not a 32-bit file: version " + std::to_string(ver));
  const uint64_t base = 24 + (n + 1) * 4;
  RefGraph g;
  g.adj.resize(n), g.vw.assign(n, 1);
  for (uint64_t u = 0; u < n; ++u) {
    const uint64_t a = (u32(24 + 4 * u) - base) / 4, b = (u32(28 + 4 * u) - base) / 4;
    MC_CHECK(a <= b && b <= m, "illegal offsets");
    if (!(ver & 2)) g.vw[u] = static_cast<int32_t>(u32(base + 4 * m + 4 * u));
    for (uint64_t e = a; e < b; ++e) g.adj[u].push_back({static_cast<int>(u32(base + 4 * e)), (ver & 1) ? 1 : static_cast<int32_t>(u32(base + 4 * m + ((ver & 2) ? 0 : 4 * n) + 4 * e))});
  }
  MC_CHECK(static_cast<uint64_t>(g.m()) == m, "wrong number of edges");
  return g;
}
// h is g with vertex u renamed to map[u], the order of the neighbours aside
inline void same(const RefGraph &g, const RefGraph &h, const std::vector<long> &map, const std::string &at) {
  MC_CHECK(g.n() == h.n() && g.m() == h.m(), "the graph has " + std::to_string(h.n()) + " vertices and " + std::to_string(h.m()) + " edges" + at);
  MC_CHECK(static_cast<int>(map.size()) == g.n(), "the mapping has " + std::to_string(map.size()) + " entries" + at);
  std::vector<char> hit(map.size(), 0);
  for (long x : map) {
    MC_CHECK(x >= 0 && x < g.n() && !hit[static_cast<size_t>(x)], "the mapping is not a bijection" + at);
    hit[static_cast<size_t>(x)] = 1;
  }
  for (int u = 0; u < g.n(); ++u) {
    const size_t x = static_cast<size_t>(map[static_cast<size_t>(u)]);
    std::vector<std::pair<int, long>> want;
    for (auto [v, w] : g.adj[static_cast<size_t>(u)]) want.push_back({static_cast<int>(map[static_cast<size_t>(v)]), w});
    auto got = h.adj[x];
    std::sort(want.begin(), want.end()), std::sort(got.begin(), got.end());
    MC_CHECK(want == got, "edges of vertex " + std::to_string(u) + " differ" + at);
    MC_CHECK(g.vw[static_cast<size_t>(u)] == h.vw[x], "weight of vertex " + std::to_string(u) + " differs" + at);
  }
}
inline std::vector<long> identity(int n) {
  std::vector<long> v(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) v[static_cast<size_t>(i)] = i;
  return v;
}
// ---- programs: `code out` of main(args) in the current (child) process
inline std::string program(int (*main)(int, char **), const std::vector<std::string> &args) {
  std::vector<std::string> a = args;
  a.insert(a.begin(), "program");
  std::vector<char *> v;
  for (auto &x : a) v.push_back(x.data());
  v.push_back(nullptr);
  const int rc = main(static_cast<int>(a.size()), v.data());
  std::cout.flush(), std::cerr.flush(), fflush(stdout), fflush(stderr);
  std::string out(1 << 16, 0);
  const ssize_t k = pread(1, out.data(), out.size(), 0);
  out.resize(k > 0 ? static_cast<size_t>(k) : 0);
  return std::to_string(rc) + "\n" + out;
}
inline std::string after(const std::string &out, const std::string &key) {
  const size_t p = out.find(key);
  if (p == std::string::npos) return "";
  size_t a = p + key.size();
  while (a < out.size() && out[a] == ' ') ++a;
  return out.substr(a, out.find_first_of(" \n", a) - a);
}
inline std::string joined(const std::vector<std::string> &a) {
  std::string s;
  for (auto &x : a) s += " " + (x.rfind("/", 0) == 0 ? x.substr(x.rfind('/') + 1) : x);
  return s;
}
} // namespace text
