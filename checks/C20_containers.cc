// C20: sequential containers against std:: reference models, over all operation sequences up to a depth.
#include <array>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <vector>

#include "mc.h"

#include "kaminpar-common/datastructures/bitvector_rank.h"
#include "kaminpar-common/datastructures/compact_hash_map.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
#include "kaminpar-common/ranges.h"
#include "kaminpar-common/datastructures/dynamic_map.h"
#include "kaminpar-common/datastructures/fast_reset_array.h"
#include "kaminpar-common/datastructures/fixed_size_sparse_map.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/maxsize_vector.h"
#include "kaminpar-common/datastructures/queue.h"
#include "kaminpar-common/datastructures/rating_map.h"
#include "kaminpar-common/datastructures/sparse_map.h"
#include "kaminpar-common/datastructures/static_array.h"

using namespace kaminpar;

namespace {
std::string g_hist;
[[noreturn]] void bad(const std::string &what) { mc::fail(what + " after: " + g_hist); }
void want(bool c, const char *what) {
  if (!c) [[unlikely]] bad(what);
}

// Runs step(state, op) for all op sequences of length `depth` over `ops` operations; fresh state per sequence.
// step returns false if the op is not enabled (the branch is cut).
template <typename Make, typename Step, typename Name> void sequences(const std::string &cname, int ops, int depth, Make make, Step step, Name opname) {
  std::vector<int> seq(depth, 0);
  while (true) {
    auto s = make();
    g_hist = cname + ":";
    int cut = depth;
    for (int i = 0; i < depth; ++i) {
      g_hist += " " + opname(seq[i]);
      if (!step(*s, seq[i])) { cut = i + 1; break; }
    }
    mc::count_case();
    int i = std::min(cut, depth) - 1;
    for (int j = i + 1; j < depth; ++j) seq[j] = 0;
    while (i >= 0 && ++seq[i] == ops) seq[i--] = 0;
    if (i < 0) break;
  }
}

uint64_t murmur(uint64_t key) {
  key ^= key >> 33;
  key *= 0xff51afd7ed558ccdL;
  key ^= key >> 33;
  key *= 0xc4ceb9fe1a85ec53L;
  key ^= key >> 33;
  return key;
}
// keys whose home slots in a table of `cap` slots are equal / adjacent (wrapping around the end)
std::vector<unsigned> colliding_keys(std::size_t cap) {
  std::vector<unsigned> same, out;
  for (unsigned k = 0; k < 5000 && same.size() < 3; ++k)
    if ((murmur(k) & (cap - 1)) == cap - 1) same.push_back(k);
  out = same;
  for (unsigned k = 0; k < 5000; ++k)
    if ((murmur(k) & (cap - 1)) == 0) { out.push_back(k); break; }
  return out;
}

// ---------------------------------------------------------------- growing maps
template <typename Map> struct Dyn {
  Map map;
  std::map<unsigned, long> ref;
};
template <typename M, typename R> void check_assoc(M &map, R &ref, const std::vector<unsigned> &keys, unsigned upto) {
  want(map.size() == ref.size(), "size");
  auto one = [&](unsigned k) {
    const bool in = ref.count(k);
    want(map.contains(k) == in, "contains");
    if constexpr (requires { map.get_if_contained(k); }) {
      const auto *p = map.get_if_contained(k);
      want((p != map.end()) == in && (!in || *p == ref[k]), "get_if_contained");
    }
    if (in) want(map.get(k) == ref[k], "get");
  };
  for (unsigned k : keys) one(k);
  for (unsigned k = 0; k < upto; ++k) one(k);
  if constexpr (requires { map.for_each([](unsigned, long) {}); }) {
    std::map<unsigned, long> seen;
    map.for_each([&](unsigned k, long v) { want(seen.emplace(k, v).second, "for_each repeats a key"); });
    want(seen == ref, "for_each content");
  }
  if constexpr (requires { map.entries().begin()->key; }) {
    std::map<unsigned, long> seen;
    for (const auto &e : map.entries()) want(seen.emplace(e.key, e.value).second, "entries repeats a key");
    want(seen == ref, "entries content");
  } else if constexpr (requires { map.entries(); }) {
    std::map<unsigned, long> seen;
    for (const auto &[k, v] : map.entries()) want(seen.emplace(k, v).second, "entries repeats a key");
    want(seen == ref, "entries content");
  }
}
template <typename Map> void dyn_map(const std::string &name, int depth) {
  const auto keys = colliding_keys(16);
  const int K = static_cast<int>(keys.size());
  // ops: add 1 to key i; write 7 to key 0; clear; bulk-insert 3 fresh keys; bulk-insert 40 fresh keys (several growths)
  const int ops = K + 4;
  mc::run(name, [=] {
    sequences(name, ops, depth, [] { return std::make_unique<Dyn<Map>>(); },
              [&](Dyn<Map> &s, int op) {
                if (op < K) { s.map[keys[op]] += op + 1; s.ref[keys[op]] += op + 1; }
                else if (op == K) { s.map[keys[0]] = 7; s.ref[keys[0]] = 7; }
                else if (op == K + 1) { s.map.clear(); s.ref.clear(); }
                else {
                  const unsigned cnt = op == K + 2 ? 3 : 40, base = 100000 * (1 + static_cast<unsigned>(s.ref.size()));
                  for (unsigned i = 0; i < cnt; ++i) { s.map[base + i * 17] = i; s.ref[base + i * 17] = i; }
                }
                check_assoc(s.map, s.ref, keys, 4);
                return true;
              },
              [K](int op) { return op < K ? "[k" + std::to_string(op) + "]+=" : op == K ? "[k0]=7" : op == K + 1 ? "clear" : op == K + 2 ? "insert3" : "insert40"; });
  });
  mc::run(name + " long histories", [=] {
    for (unsigned stride : {1u, 16u, 17u, 1024u, 4096u})
      for (int rounds : {1, 3}) {
        g_hist = name + " stride " + std::to_string(stride) + " rounds " + std::to_string(rounds);
        Dyn<Map> s;
        for (int r = 0; r < rounds; ++r) {
          s.map.clear();
          s.ref.clear();
          for (unsigned i = 0; i < 700; ++i) {
            s.map[i * stride] += static_cast<long>(i) + r;
            s.ref[i * stride] += static_cast<long>(i) + r;
            s.map[(i / 2) * stride] += 1;
            s.ref[(i / 2) * stride] += 1;
            if (i % 37 == 0) check_assoc(s.map, s.ref, {}, 64);
          }
          check_assoc(s.map, s.ref, {}, 2000);
        }
        // many clears in a row do not resurrect entries
        for (int c = 0; c < 600; ++c) {
          s.map.clear();
          s.ref.clear();
          s.map[5] = c; s.ref[5] = c;
          check_assoc(s.map, s.ref, {}, 8);
        }
        mc::count_case();
      }
  });
}

// ---------------------------------------------------------------- fixed size sparse map
template <std::size_t N, typename V> void fixed_map(int depth) {
  struct S {
    FixedSizeSparseMap<unsigned, V, N> map;
    std::map<unsigned, long> ref;
    long init;
    explicit S(V i) : map(i), init(static_cast<long>(i)) {}
  };
  const auto keys = colliding_keys(N);
  const int K = static_cast<int>(keys.size());
  const std::string name = "FixedSizeSparseMap<" + std::to_string(N) + ">";
  for (int init : {0, 3})
    mc::run(name + " initial value " + std::to_string(init), [=] {
      sequences(name, K + 4, depth, [&] { return std::make_unique<S>(static_cast<V>(init)); },
                [&](S &s, int op) {
                  if (op < K) {
                    if (!s.ref.count(keys[op]) && s.ref.size() + 2 > s.map.capacity()) return false;
                    if (!s.ref.count(keys[op])) s.ref[keys[op]] = s.init;
                    s.map[keys[op]] += static_cast<V>(op + 1);
                    s.ref[keys[op]] += op + 1;
                  } else if (op == K) { s.map.clear(); s.ref.clear(); }
                  else if (op == K + 1) { s.map.set_max_size(4 * N); if (s.map.capacity() < 4 * N) bad("capacity"); if (s.ref.size() != s.map.size()) s.ref.clear(); }
                  else if (op == K + 2) { s.map.set_max_size(2); }
                  else { // fill up to one below capacity
                    for (unsigned i = 0; s.ref.size() + 1 < s.map.capacity(); ++i) { s.map[1000 + 3 * i] = static_cast<V>(i % 100); s.ref[1000 + 3 * i] = i % 100; }
                  }
                  check_assoc(s.map, s.ref, keys, 4);
                  return true;
                },
                [K](int op) { return op < K ? "[k" + std::to_string(op) + "]+=" : op == K ? "clear" : op == K + 1 ? "grow" : op == K + 2 ? "shrink(no-op)" : "fill"; });
    });
}

// ---------------------------------------------------------------- sparse map (dense + sparse array)
void sparse_map(int depth) {
  struct S {
    SparseMap<unsigned, long> map{4};
    std::map<unsigned, long> ref;
  };
  mc::run("SparseMap", [=] {
    const int ops = 4 * 3 + 2;
    sequences("SparseMap", ops, depth, [] { return std::make_unique<S>(); },
              [](S &s, int op) {
                if (op < 4) { s.map[op] += op + 1; s.ref[op] += op + 1; }
                else if (op < 8) { s.map.add(op - 4, 9); s.ref.emplace(op - 4, 9); }
                else if (op < 12) { s.map.remove(op - 8); s.ref.erase(op - 8); }
                else if (op == 12) { s.map.clear(); s.ref.clear(); }
                else { if (!s.ref.empty()) return false; s.map.resize(4); }
                want(s.map.capacity() == 4, "capacity");
                check_assoc(s.map, s.ref, {}, 4);
                return true;
              },
              [](int op) { return op < 4 ? "[" + std::to_string(op) + "]+=" : op < 8 ? "add" + std::to_string(op - 4) : op < 12 ? "remove" + std::to_string(op - 8) : op == 12 ? "clear" : "resize"; });
  });
}

// ---------------------------------------------------------------- rating map
template <template <typename, typename> typename Large> void rating_map(const std::string &name) {
  mc::run("RatingMap " + name, [=] {
    for (std::size_t max_size : {1ul, 41ul, 43ul, 100ul, 10922ul, 10924ul, 32767ul, 32768ul, 40000ul}) {
      RatingMap<long, unsigned, Large> map(max_size);
      for (std::size_t ub : {0ul, 1ul, 41ul, 42ul, 43ul, 99ul, 10921ul, 10922ul, 10923ul, 10924ul, 32768ul, 1ul, 43ul, 40000ul, 41ul})
        for (int pass = 0; pass < 2; ++pass) {
          const std::size_t cnt = std::min(ub, max_size);
          g_hist = "RatingMap " + name + " max " + std::to_string(max_size) + " bound " + std::to_string(ub) + " pass " + std::to_string(pass);
          mc::count_case();
          map.execute(ub, [&](auto &m) {
            for (std::size_t i = 0; i < cnt; ++i) m[static_cast<unsigned>(max_size - 1 - i)] += static_cast<long>(i) + 1;
            for (std::size_t i = 0; i < cnt; i += 3) m[static_cast<unsigned>(max_size - 1 - i)] += 1;
            std::vector<char> seen(max_size, 0);
            std::size_t num = 0;
            for (const auto e : m.entries()) {
              unsigned k;
              long v;
              if constexpr (requires { e.key; }) { k = e.key; v = e.value; }
              else { k = e.first; v = e.second; }
              want(k < max_size && !seen[k], "entries");
              seen[k] = 1;
              ++num;
              const std::size_t i = max_size - 1 - k;
              want(i < cnt && v == static_cast<long>(i) + 1 + (i % 3 == 0), "value");
            }
            want(num == cnt, "number of entries");
            m.clear();
            std::size_t left = 0;
            for ([[maybe_unused]] const auto e : m.entries()) ++left;
            want(left == 0, "clear");
          });
        }
      // growing the key universe
      map.change_max_size(max_size * 2);
      want(map.max_size() == max_size * 2, "max_size");
      map.execute(max_size * 2, [&](auto &m) {
        for (unsigned k = 0; k < max_size * 2; ++k) m[k] = k + 1;
        std::size_t num = 0;
        for ([[maybe_unused]] const auto e : m.entries()) ++num;
        want(num == max_size * 2, "entries after change_max_size");
        m.clear();
      });
    }
  });
}

// ---------------------------------------------------------------- compact hash map
template <typename T, bool full> void compact_hash(int cap, int k, int depth) {
  struct S {
    std::vector<T> data;
    CompactHashMap<T, full> map;
    std::map<unsigned, long> ref;
    S(int cap, int k) : data(cap + 2, 0), map(data.data() + 1, cap, CompactHashMap<std::uint64_t>::compute_key_bits(static_cast<std::uint64_t>(k))) { data[0] = data[cap + 1] = static_cast<T>(0x5a); }
  };
  const std::string name = "CompactHashMap<u" + std::to_string(sizeof(T) * 8) + (full ? ",full" : "") + "> cap " + std::to_string(cap) + " keys " + std::to_string(k);
  mc::run(name, [=] {
    // per key: +1, +2, -1 (or erase), erase
    sequences(name, 4 * k, depth, [&] { return std::make_unique<S>(cap, k); },
              [&](S &s, int op) {
                const unsigned key = op / 4;
                if (op % 4 < 2) {
                  const bool fresh = !s.ref.count(key);
                  if (fresh && static_cast<int>(s.ref.size()) + (full ? 0 : 1) >= cap) return false;
                  const long d = op % 4 == 0 ? 1 : 3;
                  want(s.map.increase_by(static_cast<T>(key), static_cast<T>(d)) == fresh, "increase_by result");
                  s.ref[key] += d;
                } else {
                  if (!s.ref.count(key)) return false;
                  const long d = op % 4 == 2 ? 1 : s.ref[key];
                  const bool gone = s.ref[key] == d;
                  if (op % 4 == 3 && d == 1) return false; // same as -1
                  want(s.map.decrease_by(static_cast<T>(key), static_cast<T>(d)) == gone, "decrease_by result");
                  if ((s.ref[key] -= d) == 0) s.ref.erase(key);
                }
                for (int x = 0; x < k; ++x) want(static_cast<long>(s.map.get(static_cast<T>(x))) == (s.ref.count(x) ? s.ref[x] : 0), "get");
                want(s.map.count() == s.ref.size() && static_cast<int>(s.map.capacity()) == cap, "count");
                std::map<unsigned, long> seen;
                s.map.for_each([&](T a, T b) { want(seen.emplace(a, b).second, "for_each repeats"); });
                want(seen == s.ref, "for_each");
                want(s.data[0] == static_cast<T>(0x5a) && s.data[cap + 1] == static_cast<T>(0x5a), "storage of a neighbour overwritten");
                return true;
              },
              [](int op) { return std::string(op % 4 == 0 ? "+1@" : op % 4 == 1 ? "+3@" : op % 4 == 2 ? "-1@" : "erase@") + std::to_string(op / 4); });
  });
}
// All subsets of keys inserted in all rotations, then erased one by one in all rotations (wrap-around clusters).
template <typename T, bool full> void compact_hash_cycles(int cap, int universe) {
  const std::string name = "CompactHashMap<u" + std::to_string(sizeof(T) * 8) + (full ? ",full" : "") + "> erase orders, cap " + std::to_string(cap);
  mc::run(name, [=] {
    const int bits = CompactHashMap<std::uint64_t>::compute_key_bits(static_cast<std::uint64_t>(universe));
    const T maxval = static_cast<T>((static_cast<T>(~T(0))) >> bits);
    for (unsigned sub = 1; sub < (1u << universe); ++sub) {
      std::vector<unsigned> keys;
      for (int i = 0; i < universe; ++i)
        if ((sub >> i) & 1) keys.push_back(i);
      if (static_cast<int>(keys.size()) > cap - (full ? 0 : 1)) continue;
      const int n = static_cast<int>(keys.size());
      for (int rot = 0; rot < n; ++rot)
        for (int rev = 0; rev < 2; ++rev)
          for (int erot = 0; erot < n; ++erot) {
            std::vector<T> data(cap, 0);
            CompactHashMap<T, full> map(data.data(), cap, bits);
            std::map<unsigned, T> ref;
            g_hist = name + " keys:";
            for (int i = 0; i < n; ++i) {
              const unsigned k = keys[(i + rot) % n];
              g_hist += " " + std::to_string(k);
              const T v = i % 2 ? maxval : static_cast<T>(1);
              map.increase_by(static_cast<T>(k), v);
              ref[k] = v;
            }
            g_hist += " erase:";
            for (int i = 0; i < n; ++i) {
              const unsigned k = keys[rev ? (erot + n - i) % n : (erot + i) % n];
              g_hist += " " + std::to_string(k);
              want(map.decrease_by(static_cast<T>(k), ref[k]), "decrease_by to zero reports erased");
              ref.erase(k);
              for (int x = 0; x < universe; ++x) want(map.get(static_cast<T>(x)) == (ref.count(x) ? ref[x] : T(0)), "get");
              want(map.count() == ref.size(), "count");
            }
            mc::count_case();
          }
    }
  });
}

// ---------------------------------------------------------------- markers
template <std::size_t N, typename V, template <typename...> typename C> void marker(const std::string &name, int depth, bool track) {
  struct S {
    Marker<N, V, C> m{3};
    std::array<std::set<int>, N> ref;
  };
  constexpr int M = N > 3 ? 3 : static_cast<int>(N);
  const auto idx = [](int j) { return j == M - 1 ? static_cast<std::size_t>(N - 1) : static_cast<std::size_t>(j); };
  mc::run("Marker " + name + (track ? " tracking" : ""), [=] {
    const int ops = 3 * M + 3;
    sequences("Marker " + name, ops, depth, [] { return std::make_unique<S>(); },
              [&](S &s, int op) {
                if (op < 3 * M) {
                  if (track) s.m.template set<true>(op / M, idx(op % M));
                  else s.m.set(op / M, idx(op % M));
                  s.ref[idx(op % M)].insert(op / M);
                } else if (op < 3 * M + 2) {
                  const int times = op == 3 * M ? 1 : 125;
                  for (int i = 0; i < times; ++i) s.m.reset();
                  for (auto &r : s.ref) r.clear();
                } else {
                  // a reset per marked element, like one search per start node
                  for (int i = 0; i < 3; ++i) {
                    s.m.reset();
                    if (track) s.m.template set<true>(i, 0); else s.m.set(i, 0);
                  }
                  for (auto &r : s.ref) r.clear();
                  s.ref[0].insert(2);
                }
                for (int j = 0; j < M; ++j) {
                  std::size_t first = 0;
                  for (int e = 0; e < 3; ++e) want(s.m.get(e, idx(j)) == (s.ref[idx(j)].count(e) > 0), "get");
                  while (first < 3 && s.ref[idx(j)].count(static_cast<int>(first))) ++first;
                  if (track) want(s.m.first_unmarked_element(idx(j)) == first, "first_unmarked_element");
                }
                want(s.m.size() == 3 && s.m.capacity() == 3, "size");
                return true;
              },
              [M3 = 3 * M](int op) -> std::string { const int M = M3 / 3; return op < 3 * M ? "set(" + std::to_string(op / M) + "," + std::to_string(op % M) + ")" : op == 3 * M ? "reset" : op == 3 * M + 1 ? "reset*125" : "reset+set"; });
  });
}

// ---------------------------------------------------------------- arrays
void fast_reset(int depth) {
  struct S {
    FastResetArray<int, unsigned> a{4};
    std::vector<int> ref{0, 0, 0, 0};
  };
  mc::run("FastResetArray", [=] {
    sequences("FastResetArray", 4 * 2 + 2, depth, [] { return std::make_unique<S>(); },
              [](S &s, int op) {
                if (op < 4) { s.a[op] += op + 1; s.ref[op] += op + 1; }
                else if (op < 8) { s.a.set(op - 4, 9); s.ref[op - 4] = 9; }
                else if (op == 8) { s.a.clear(); std::fill(s.ref.begin(), s.ref.end(), 0); }
                else { if (!s.a.empty()) return false; s.a.resize(4); }
                std::map<unsigned, int> nz, seen;
                for (unsigned i = 0; i < 4; ++i) {
                  if (s.ref[i]) nz[i] = s.ref[i];
                  want(s.a.get(i) == s.ref[i] && std::as_const(s.a)[i] == s.ref[i], "value");
                  want(s.a.exists(i) == (s.ref[i] != 0), "exists");
                }
                for (const auto [k, v] : s.a.entries()) want(seen.emplace(k, v).second, "entries repeats");
                want(seen == nz, "entries");
                std::multiset<int> vals, rv;
                for (const auto v : s.a.used_entry_values()) vals.insert(v);
                for (auto [k, v] : nz) rv.insert(v);
                want(vals == rv, "used_entry_values");
                want(s.a.size() == nz.size() && s.a.empty() == nz.empty() && s.a.capacity() == 4, "size");
                return true;
              },
              [](int op) { return op < 4 ? "[" + std::to_string(op) + "]+=" : op < 8 ? "set" + std::to_string(op - 4) : op == 8 ? "clear" : "resize"; });
  });
}

void queue(int depth) {
  struct S {
    Queue<int> q{3};
    std::deque<int> ref;
    int head = 0, tail = 0, next = 1;
  };
  mc::run("Queue", [=] {
    sequences("Queue", 6, depth, [] { return std::make_unique<S>(); },
              [](S &s, int op) {
                if (op == 0) { if (s.tail == 3) return false; s.q.push_tail(s.next); s.ref.push_back(s.next++); ++s.tail; }
                else if (op == 1) { if (s.head == 0) return false; s.q.push_head(s.next); s.ref.push_front(s.next++); --s.head; }
                else if (op == 2) { if (s.ref.empty()) return false; s.q.pop_head(); s.ref.pop_front(); ++s.head; }
                else if (op == 3) { if (s.ref.empty()) return false; s.q.pop_tail(); s.ref.pop_back(); --s.tail; }
                else if (op == 4) { s.q.clear(); s.ref.clear(); s.head = s.tail = 0; }
                else { s.q.resize(3); s.ref.clear(); s.head = s.tail = 0; }
                want(s.q.size() == s.ref.size() && s.q.empty() == s.ref.empty() && s.q.capacity() == 3, "size");
                if (!s.ref.empty()) want(s.q.head() == s.ref.front(), "head");
                if (!s.ref.empty()) want(s.q.tail() == s.ref.back(), "tail");
                want(std::vector<int>(s.q.begin(), s.q.end()) == std::vector<int>(s.ref.begin(), s.ref.end()), "content");
                want(std::vector<int>(s.q.cbegin(), s.q.cend()) == std::vector<int>(s.ref.begin(), s.ref.end()), "const content");
                for (std::size_t i = 0; i < s.ref.size(); ++i) want(s.q[i] == s.ref[i], "operator[]");
                return true;
              },
              [](int op) { static const char *n[] = {"push_tail", "push_head", "pop_head", "pop_tail", "clear", "resize"}; return std::string(n[op]); });
  });
}

template <typename Int> void compact_array(const std::string &ty) {
  mc::run("CompactStaticArray<" + ty + ">", [=] {
    for (std::size_t bw = 1; bw <= sizeof(Int); ++bw) {
      const Int max = bw == sizeof(Int) ? ~Int(0) : static_cast<Int>((Int(1) << (8 * bw)) - 1);
      const std::vector<Int> vals = {0, 1, max, static_cast<Int>(max / 3), static_cast<Int>(max - 1), static_cast<Int>(max ^ (max >> 4))};
      for (std::size_t n = 1; n <= 4; ++n) {
        long combos = 1;
        for (std::size_t i = 0; i < n; ++i) combos *= static_cast<long>(vals.size());
        for (long c = 0; c < combos; ++c) {
          g_hist = "CompactStaticArray width " + std::to_string(bw) + " n " + std::to_string(n) + " combo " + std::to_string(c);
          CompactStaticArray<Int> a(bw, n);
          std::vector<Int> ref(n, 0);
          long x = c;
          for (std::size_t i = 0; i < n; ++i, x /= static_cast<long>(vals.size())) {
            const std::size_t p = (i * 3 + 1) % n == i ? i : n - 1 - i; // written in an order that is not ascending
            a.write(p, vals[x % vals.size()]);
            ref[p] = vals[x % vals.size()];
            for (std::size_t j = 0; j < n; ++j) want(a[j] == ref[j], "value after write");
          }
          for (std::size_t p = 0; p < n; ++p) { // overwrite each position with each value: neighbours keep theirs
            const Int old = ref[p];
            for (Int v : vals) {
              a.write(p, v);
              ref[p] = v;
              for (std::size_t j = 0; j < n; ++j) want(a[j] == ref[j], "value after overwrite");
            }
            a.write(p, old);
            ref[p] = old;
          }
          want(a.size() == n && !a.empty() && a.byte_width() == bw, "size");
          std::vector<Int> it;
          for (auto i = a.begin(); i != a.end(); ++i) it.push_back(*i);
          want(it == ref, "iteration");
          it.clear();
          for (auto i = a.begin(); i != a.end();) { it.push_back(*i); i++; if (it.size() > n) break; }
          want(it == ref, "iteration with postfix increment");
          {
            auto i = a.begin();
            auto j = i++;
            want(*j == ref[0] && i == a.begin() + 1, "postfix increment returns the old position");
            auto l = i--;
            want(l == a.begin() + 1 && i == a.begin(), "postfix decrement returns the old position");
          }
          want(a.end() - a.begin() == static_cast<long>(n), "iterator distance");
          for (std::size_t j = 0; j < n; ++j) {
            want(*(a.begin() + static_cast<long>(j)) == ref[j], "iterator +");
            want(*(a.end() - static_cast<long>(n - j)) == ref[j], "iterator -");
            auto i = a.begin();
            i += static_cast<long>(j);
            want(*i == ref[j], "iterator +=");
            auto e = a.end();
            e -= static_cast<long>(n - j);
            want(e == i && !(e < i) && e <= i && (j == 0 || a.begin() < i), "iterator order");
          }
          const std::size_t mem = a.memory_space();
          for (std::size_t r = 0; r <= n; ++r) {
            a.restrict(r);
            want(a.size() == r && a.empty() == (r == 0), "restricted size");
            it.clear();
            for (auto i = a.begin(); i != a.end() && it.size() <= n; ++i) it.push_back(*i);
            want(it == std::vector<Int>(ref.begin(), ref.begin() + static_cast<long>(r)), "restricted iteration");
            a.unrestrict();
            want(a.size() == n && a.memory_space() == mem, "unrestricted size");
            for (std::size_t j = 0; j < n; ++j) want(a[j] == ref[j], "value after unrestrict");
          }
          // adopt the raw bytes
          auto copy = std::make_unique<std::uint8_t[]>(a.memory_space());
          std::copy(a.data(), a.data() + a.memory_space(), copy.get());
          CompactStaticArray<Int> b(bw, a.memory_space(), std::move(copy));
          want(b.size() == n, "size of adopted array");
          for (std::size_t j = 0; j < n; ++j) want(b[j] == ref[j], "value of adopted array");
          CompactStaticArray<Int> d(std::move(b));
          for (std::size_t j = 0; j < n; ++j) want(d[j] == ref[j], "value of moved array");
          d.resize(sizeof(Int) - bw + 1, n + 1);
          want(d.size() == n + 1 && d.byte_width() == sizeof(Int) - bw + 1, "resize");
          mc::count_case();
        }
      }
    }
  });
}

template <std::size_t BW, std::size_t HW> void rank_bits(const std::string &name) {
  mc::run("RankCombinedBitVector " + name, [=] {
    constexpr std::size_t D = BW - HW, SD = (std::size_t(1) << HW) - ((std::size_t(1) << HW) / BW) * HW;
    std::vector<std::size_t> lens = {1, 2, 49, 50, 51, 63, 64, 65, D - 1, D, D + 1, 2 * D - 1, 2 * D, 2 * D + 1, SD - 1, SD, SD + 1, 2 * SD + D + 7};
    for (std::size_t n : lens)
      for (int pat = 0; pat < 10; ++pat)
        for (int init = 0; init < 3; ++init) {
          g_hist = "RankCombinedBitVector " + name + " n " + std::to_string(n) + " pattern " + std::to_string(pat) + " init " + std::to_string(init);
          RankCombinedBitVector<BW, HW> b = init == 2 ? RankCombinedBitVector<BW, HW>(n) : RankCombinedBitVector<BW, HW>(n, init == 1);
          std::vector<char> ref(n, init == 1);
          if (init < 2)
            for (std::size_t i = 0; i < n; ++i) want(b.is_set(i) == static_cast<bool>(ref[i]), "initial bit");
          for (std::size_t i = 0; i < n; ++i) {
            bool v = false;
            switch (pat) {
            case 0: v = false; break;
            case 1: v = true; break;
            case 2: v = i % 2; break;
            case 3: v = i % D == D - 1; break;
            case 4: v = i % D == 0; break;
            case 5: v = i == n - 1; break;
            case 6: v = i == 0; break;
            case 7: v = murmur(i) & 1; break;
            case 8: v = murmur(i) % 50 != 0; break;
            case 9: v = (i / 64) % 2; break;
            }
            ref[i] = v;
            if (pat % 2) b.set(i, v);
            else if (v) b.set(i);
            else b.unset(i);
          }
          for (int round = 0; round < 3; ++round) {
            b.update();
            std::size_t r = 0;
            for (std::size_t i = 0; i < n; ++i) {
              want(b.is_set(i) == static_cast<bool>(ref[i]), "bit");
              want(b.rank(i) == r, "rank");
              r += ref[i];
            }
            // flip a few bits and update again
            for (std::size_t p : {std::size_t(0), n / 2, n - 1, std::min(n - 1, D), std::min(n - 1, SD)}) {
              ref[p] = !ref[p];
              b.set(p, ref[p]);
            }
          }
          want(b.length() == n, "length");
          mc::count_case();
        }
  });
}

template <typename T> void static_array_check(const std::string &ty) {
  mc::run("StaticArray<" + ty + ">", [=] {
    const T hi = static_cast<T>(T(1) << (sizeof(T) * 8 - 2));
    const std::vector<T> vals = {0, 1, hi, static_cast<T>(hi + 1)};
    for (std::size_t n = 0; n <= 3; ++n) {
      long combos = 1;
      for (std::size_t i = 0; i < n; ++i) combos *= 4;
      for (long c = 0; c < combos; ++c) {
        std::vector<T> ref(n);
        long x = c;
        for (std::size_t i = 0; i < n; ++i, x /= 4) ref[i] = vals[x % 4];
        g_hist = "StaticArray<" + ty + "> n " + std::to_string(n) + " combo " + std::to_string(c);
        StaticArray<T> a = static_array::create(ref);
        want(a.size() == n && a.empty() == (n == 0), "size");
        want(std::vector<T>(a.begin(), a.end()) == ref, "content");
        // equality against every other array of the same length
        for (long d = 0; d < combos; ++d) {
          StaticArray<T> b(n, static_array::noinit);
          long y = d;
          bool eq = true;
          for (std::size_t i = 0; i < n; ++i, y /= 4) { b[i] = vals[y % 4]; eq &= b[i] == ref[i]; }
          want((a == b) == eq, "operator==");
          mc::count_case();
        }
        StaticArray<T> other(n + 1);
        want(!(a == other), "operator== of different sizes");
        for (std::size_t r = 0; r <= n; ++r) {
          a.restrict(r);
          want(a.size() == r && std::vector<T>(a.begin(), a.end()) == std::vector<T>(ref.begin(), ref.begin() + static_cast<long>(r)), "restrict");
          a.unrestrict();
          want(a.size() == n && std::vector<T>(a.begin(), a.end()) == ref, "unrestrict");
        }
        StaticArray<T> span(n, ref.data());
        want(span.is_span() && span == a && (n == 0 || !a.is_span()), "span");
        if (n) { span[0] = 5; want(ref[0] == 5, "a span writes through"); ref[0] = a[0]; want(a.front() == ref.front() && a.back() == ref.back(), "front/back"); }
        StaticArray<T> moved(std::move(a));
        want(std::vector<T>(moved.begin(), moved.end()) == ref, "move");
        moved.assign(n, hi);
        want(std::all_of(moved.begin(), moved.end(), [&](T v) { return v == hi; }), "assign");
        moved.resize(n + 2, static_cast<T>(3), static_array::seq);
        want(moved.size() == n + 2 && std::all_of(moved.begin(), moved.end(), [](T v) { return v == 3; }), "resize");
        moved.resize(n + 3);
        want(moved.size() == n + 3 && std::all_of(moved.begin(), moved.end(), [](T v) { return v == 0; }), "resize default");
        auto it = moved.begin();
        want(&*(it + 1) == moved.data() + 1 && moved.end() - it == static_cast<long>(n + 3) && it++ == moved.begin() && it-- == moved.begin() + 1 && *(1 + it) == 0, "iterator");
        moved.free();
        want(moved.empty(), "free");
      }
    }
  });
  mc::run("StaticArray<" + ty + "> parallel initialisation", [=] {
    for (std::size_t n : {0ul, 1ul, 2ul, 7ul, 8ul, 63ul, 64ul, 65ul, 127ul, 1000ul, 4099ul}) {
      g_hist = "StaticArray n " + std::to_string(n);
      StaticArray<T> a(n, static_cast<T>(7));
      want(std::count(a.begin(), a.end(), static_cast<T>(7)) == static_cast<long>(n), "fill");
      a.assign(n, static_cast<T>(9));
      want(std::count(a.begin(), a.end(), static_cast<T>(9)) == static_cast<long>(n), "assign");
      mc::count_case();
    }
  });
}

void max_size_vector() {
  mc::run("MaxSizeVector", [] {
    for (std::size_t cap : {1ul, 2ul, 3ul, 5ul, 8ul, 100ul}) {
      for (int rounds = 0; rounds < 2; ++rounds) {
        g_hist = "MaxSizeVector " + std::to_string(cap);
        MaxSizeVector<int> v(cap);
        want(v.max_size() == cap, "max_size");
        for (int r = 0; r <= rounds; ++r) {
          for (std::size_t i = 0; i < cap; ++i) {
            v.push_back(static_cast<int>(i * 3));
            want(v.size() == i + 1 && v.capacity() <= cap && v.capacity() >= v.size(), "size");
            for (std::size_t j = 0; j <= i; ++j) want(v[j] == static_cast<int>(j * 3), "content");
          }
          v.clear();
          want(v.empty(), "clear");
          v.resize(cap);
          want(v.size() == cap, "resize");
          v.clear();
        }
        mc::count_case();
      }
    }
  });
}
template <typename V> using StdVec = std::vector<V>;
} // namespace

void mc_main() {
  const bool t = mc::thorough();
  dyn_map<DynamicFlatMap<unsigned, long>>("DynamicFlatMap", t ? 7 : 6);
  dyn_map<DynamicFlatMap<std::size_t, int>>("DynamicFlatMap<size_t,int>", t ? 6 : 5);
  dyn_map<DynamicRememberingFlatMap<unsigned, long>>("DynamicRememberingFlatMap", t ? 7 : 6);
  dyn_map<DynamicRememberingFlatMap<unsigned, int, unsigned>>("DynamicRememberingFlatMap<u32 stamps>", t ? 6 : 5);
  fixed_map<8, long>(t ? 7 : 6);
  fixed_map<16, int>(t ? 6 : 5);
  sparse_map(t ? 7 : 6);
  rating_map<rm_backyard::FastResetArray>("fast reset array");
  rating_map<rm_backyard::SparseMap>("sparse map");
  rating_map<rm_backyard::UnorderedMap>("unordered map");
  for (int cap : {2, 4}) {
    compact_hash<std::uint64_t, false>(cap, 4, cap == 2 ? 4 : t ? 7 : 6);
    compact_hash<std::uint64_t, true>(cap, 4, cap == 2 ? 5 : t ? 7 : 6);
    compact_hash<std::uint32_t, true>(cap, 3, t ? 7 : 6);
    compact_hash<std::uint16_t, true>(cap, 5, t ? 6 : 5);
    compact_hash<std::uint8_t, true>(cap, 4, t ? 6 : 5);
    compact_hash<std::uint8_t, false>(cap, 4, t ? 6 : 5);
  }
  compact_hash<std::uint64_t, false>(8, 9, 3);
  compact_hash<std::uint64_t, true>(8, 9, 3);
  for (int cap : {1, 2, 4, 8}) {
    compact_hash_cycles<std::uint64_t, true>(cap, t ? 12 : 10);
    compact_hash_cycles<std::uint16_t, true>(cap, t ? 12 : 10);
    if (cap > 1) compact_hash_cycles<std::uint64_t, false>(cap, t ? 12 : 10);
    if (cap > 1) compact_hash_cycles<std::uint32_t, false>(cap, t ? 12 : 10);
  }
  for (bool track : {false, true}) {
    marker<1, std::size_t, std::vector>("<1,size_t>", 5, track);
    marker<1, std::uint8_t, std::vector>("<1,uint8>", 5, track);
    marker<3, std::uint8_t, std::vector>("<3,uint8>", 4, track);
    marker<3, std::size_t, std::vector>("<3,size_t>", 4, track);
    marker<1, std::uint8_t, StaticArray>("<1,uint8,StaticArray>", 4, track);
    marker<31, std::size_t, std::vector>("<31,size_t>", 4, track);
    marker<1, std::uint16_t, StaticArray>("<1,uint16,StaticArray>", 4, track);
  }
  fast_reset(t ? 7 : 6);
  queue(t ? 9 : 7);
  compact_array<std::uint64_t>("u64");
  compact_array<std::uint32_t>("u32");
  rank_bits<512, 14>("512/14");
  rank_bits<128, 8>("128/8");
  rank_bits<256, 12>("256/12");
  static_array_check<std::uint32_t>("u32");
  static_array_check<std::uint64_t>("u64");
  static_array_check<int>("int");
  static_array_check<std::uint8_t>("u8");
  max_size_vector();
}
