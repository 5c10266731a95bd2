// C18: parallel primitives equal their sequential definitions for every division of the range; integer
// helpers are exact over their whole type.
#include <algorithm>
#include <bit>
#include <cmath>
#include <cstring>
#include <numeric>
#include <vector>

#include "mc.h"

#include "kaminpar-common/degree_buckets.h"
#include "kaminpar-common/math.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/loops.h"

using namespace kaminpar;

namespace {
template <typename C> std::string vec(const C &c) {
  std::string s = "[";
  for (auto x : c) s += std::to_string(x) + ",";
  return s + "]";
}
template <typename T> void all_vectors(int len, const std::vector<T> &alphabet, const std::function<void(const std::vector<T> &)> &f) {
  std::vector<int> idx(len, 0);
  std::vector<T> v(len, alphabet[0]);
  while (true) {
    f(v);
    int i = 0;
    for (; i < len; ++i) {
      if (++idx[i] < static_cast<int>(alphabet.size())) { v[i] = alphabet[idx[i]]; break; }
      idx[i] = 0;
      v[i] = alphabet[0];
    }
    if (i == len) break;
  }
}

template <typename T> void reductions(const std::vector<T> &v) {
  mc::count_case();
  T sum{};
  for (T x : v) sum += x;
  const T init = static_cast<T>(5);
  if (parallel::accumulate(v, init) != static_cast<T>(sum + init)) mc::fail("accumulate(container) of " + vec(v));
  if (parallel::accumulate(v.begin(), v.end(), init) != static_cast<T>(sum + init)) mc::fail("accumulate(iterators) of " + vec(v));
  const long long sq = parallel::accumulate(v.begin(), v.end(), 7ll, [](const T x) { return static_cast<long long>(x) * 3 + 1; });
  long long ref = 7;
  for (T x : v) ref += static_cast<long long>(x) * 3 + 1;
  if (sq != ref) mc::fail("accumulate(op) of " + vec(v));
  if (!v.empty()) {
    const T m = *std::max_element(v.begin(), v.end());
    if (parallel::max_element(v) != m || parallel::max_element(v.begin(), v.end()) != m) mc::fail("max_element of " + vec(v));
  }
  if (v.size() >= 2) {
    bool mono = std::is_sorted(v.begin(), v.end());
    if (mono || std::is_signed_v<T>) {
      T d = static_cast<T>(v[1] - v[0]);
      for (std::size_t i = 1; i < v.size(); ++i) d = std::max<T>(d, v[i] - v[i - 1]);
      if (parallel::max_difference(v) != d || parallel::max_difference(v.begin(), v.end()) != d) mc::fail("max_difference of " + vec(v));
    }
  } else if (v.size() == 1 && parallel::max_difference(v) != 0) {
    mc::fail("max_difference of one element");
  }
  {
    std::vector<T> out(v.size() + 1, static_cast<T>(9)), r(v.size()), in = v;
    std::partial_sum(v.begin(), v.end(), r.begin());
    parallel::prefix_sum(v.begin(), v.end(), out.begin() + 1);
    if (out[0] != 9 || !std::equal(r.begin(), r.end(), out.begin() + 1)) mc::fail("prefix_sum of " + vec(v));
    parallel::prefix_sum(in.begin(), in.end(), in.begin()); // in place
    if (in != r) mc::fail("in-place prefix_sum of " + vec(v));
  }
}

void loops(const std::vector<int> &sizes) {
  mc::count_case();
  std::vector<std::vector<int>> buf;
  std::size_t total = 0;
  for (int s : sizes) {
    buf.emplace_back(s, 0);
    total += s;
  }
  parallel::chunked_for(buf, [](int &x) { x += 1; });
  for (auto &b : buf)
    for (int x : b)
      if (x != 1) mc::fail("chunked_for visited an element " + std::to_string(x) + " times, buffer sizes " + vec(sizes));
  parallel::chunked_for(buf, [](int &x, const int chunk) { x += 100 * (chunk + 1); });
  for (std::size_t i = 0; i < buf.size(); ++i)
    for (int x : buf[i])
      if (x != 1 + 100 * static_cast<int>(i + 1)) mc::fail("chunked_for with chunk ids, buffer sizes " + vec(sizes));
  const int from = static_cast<int>(sizes.size()), to = from + static_cast<int>(total);
  std::vector<int> cnt(to + 1, 0), cpu_of(to + 1, -1);
  const int p = parallel::deterministic_for<int>(from, to, [&](const int a, const int b, const int cpu) {
    if (a < from || b > to || a > b) mc::fail("deterministic_for range");
    for (int i = a; i < b; ++i) { ++cnt[i]; cpu_of[i] = cpu; }
  });
  for (int i = 0; i <= to; ++i)
    if (cnt[i] != (i >= from && i < to)) mc::fail("deterministic_for visits index " + std::to_string(i) + " " + std::to_string(cnt[i]) + " times");
  for (int i = from; i < to; ++i)
    if (cpu_of[i] < 0 || cpu_of[i] >= p || (i > from && cpu_of[i] < cpu_of[i - 1])) mc::fail("deterministic_for cpu ids not consecutive");
  const int q = parallel::deterministic_for<int>(from, to, [&](const int a, const int b, const int cpu) {
    for (int i = a; i < b; ++i)
      if (cpu_of[i] != cpu) mc::fail("deterministic_for assigns differently the second time");
  });
  if (p != q) mc::fail("deterministic_for cpu count");
}

void aligned(const std::vector<int> &code) { // code digit: alignment index * 4 + value
  mc::count_case();
  static const int al[] = {0, 1, 2, 4, 8};
  const auto f = [&](const std::size_t i) { return std::make_pair(static_cast<std::size_t>(al[code[i] / 4]), static_cast<std::size_t>((code[i] % 4) * (code[i] % 4))); };
  std::vector<std::size_t> a(code.size() + 1, 77), b(code.size() + 1, 77);
  const std::size_t ra = parallel::aligned_prefix_sum(a.begin(), a.begin() + code.size(), f);
  if (a[code.size()] != 77) mc::fail("aligned_prefix_sum wrote past the end");
  for (std::size_t i = 0; i < code.size(); ++i) {
    const auto [alignment, value] = f(i);
    if (alignment && a[i] % alignment) mc::fail("aligned_prefix_sum: entry " + std::to_string(i) + " misaligned for codes " + vec(code) + " result " + vec(a));
    const std::size_t next = i + 1 < code.size() ? a[i + 1] : ra;
    if (next < a[i] + value || next > a[i] + value + 16 * (1 + i)) mc::fail("aligned_prefix_sum: entry " + std::to_string(i) + " overlaps the next one for codes " + vec(code) + " result " + vec(a) + " total " + std::to_string(ra));
  }
  if (!code.empty() && a[0] != 0) mc::fail("aligned_prefix_sum does not start at 0");
}

// ---------------------------------------------------------------- integer helpers
template <typename T> std::vector<T> bounds(int window) {
  std::vector<T> out;
  for (int b = 0; b < std::numeric_limits<T>::digits; ++b)
    for (int d = -window; d <= window; ++d) {
      const T base = static_cast<T>(T(1) << b);
      if (d < 0 && base < static_cast<T>(-d)) continue;
      const T x = static_cast<T>(base + d);
      if (x >= 1) out.push_back(x);
    }
  for (int d = 0; d <= window; ++d) out.push_back(static_cast<T>(std::numeric_limits<T>::max() - d));
  return out;
}
template <typename T> void unsigned_helpers(const T x) { // x >= 1
  mc::count_case();
  const std::string n = std::to_string(x) + " (" + std::to_string(sizeof(T) * 8) + " bit)";
  const T fl = static_cast<T>(std::bit_width(x) - 1);
  if (math::floor_log2<T>(x) != fl) mc::fail("floor_log2 " + n);
  const T cl = static_cast<T>(fl + !std::has_single_bit(x));
  if (math::ceil_log2<T>(x) != cl) mc::fail("ceil_log2 " + n);
  if (math::floor2<T>(x) != std::bit_floor(x)) mc::fail("floor2 " + n + " = " + std::to_string(math::floor2<T>(x)));
  if (x <= static_cast<T>(T(1) << (std::numeric_limits<T>::digits - 1)) && math::ceil2<T>(x) != std::bit_ceil(x)) mc::fail("ceil2 " + n + " = " + std::to_string(math::ceil2<T>(x)));
  if (math::is_power_of_2(x) != std::has_single_bit(x)) mc::fail("is_power_of_2 " + n);
  if (math::byte_width<T>(x) != static_cast<T>((std::bit_width(x) + 7) / 8)) mc::fail("byte_width " + n);
  if (math::is_msb_set<T>(x) != ((x >> (std::numeric_limits<T>::digits - 1)) & 1)) mc::fail("is_msb_set " + n);
  if (degree_bucket<T>(x) != static_cast<int>(fl) + 1) mc::fail("degree_bucket " + n);
  const T low = lowest_degree_in_bucket<T>(static_cast<int>(fl) + 1);
  if (low != std::bit_floor(x)) mc::fail("lowest_degree_in_bucket of bucket " + std::to_string(fl + 1) + " is " + std::to_string(low) + " for " + n);
}
template <typename T> void masks() {
  for (int b = 0; b < std::numeric_limits<T>::digits; ++b) {
    mc::count_case();
    if (math::create_mask<T>(b) != static_cast<T>((T(1) << b) - 1)) mc::fail("create_mask<" + std::to_string(sizeof(T) * 8) + " bit>(" + std::to_string(b) + ") = " + std::to_string(math::create_mask<T>(b)));
  }
  if (math::byte_width<T>(0) != 1) mc::fail("byte_width(0)");
  if (degree_bucket<T>(0) != 0 || lowest_degree_in_bucket<T>(0) != 0) mc::fail("bucket of degree 0");
  if (math::is_power_of_2<T>(0)) mc::fail("is_power_of_2(0)");
}
template <typename T> void divisions(const T x, const T y) { // y >= 1
  mc::count_case();
  using W = unsigned __int128;
  if (static_cast<W>(math::div_ceil<T, T>(x, y)) != (W(x) + W(y) - 1) / W(y)) mc::fail("div_ceil " + std::to_string(x) + "/" + std::to_string(y));
  const W m = W(x) % W(y);
  if (static_cast<W>(math::mod_ceil<T, T>(x, y)) != (m ? m : W(y))) mc::fail("mod_ceil " + std::to_string(x) + "," + std::to_string(y));
  if (math::abs_diff(x, y) != static_cast<std::size_t>(x > y ? x - y : y - x)) mc::fail("abs_diff");
  const auto [i, j] = math::decode_grid_position<T>(x, y);
  if (j >= y || math::encode_grid_position<T>(i, j, y) != x) mc::fail("grid position " + std::to_string(x) + "," + std::to_string(y));
}
template <typename T> void ranges(const T n, const T size, bool full) {
  mc::count_case();
  const std::string what = " n=" + std::to_string(n) + " size=" + std::to_string(size);
  T prev = 0, mn = std::numeric_limits<T>::max(), mx = 0;
  const auto one = [&](const T r) {
    const auto [a, b] = math::compute_local_range<T>(n, size, r);
    if (a > b || b > n) mc::fail("compute_local_range" + what);
    const T len = b - a;
    if (len != n / size && len != n / size + 1) mc::fail("compute_local_range uneven" + what);
    for (const T e : {a, static_cast<T>(b - 1), static_cast<T>(a + len / 2)})
      if (len > 0 && math::compute_local_range_rank<T>(n, size, e) != static_cast<std::size_t>(r)) mc::fail("compute_local_range_rank of " + std::to_string(e) + what);
    mn = std::min(mn, len);
    mx = std::max(mx, len);
    return std::pair<T, T>(a, b);
  };
  if (full) {
    for (T r = 0; r < size; ++r) {
      const auto [a, b] = one(r);
      if (a != prev) mc::fail("compute_local_range not consecutive" + what);
      prev = b;
    }
    if (prev != n || mx - mn > 1) mc::fail("compute_local_range does not cover" + what);
    for (T e = 0; e < n; ++e) {
      const auto r = math::compute_local_range_rank<T>(n, size, e);
      const auto [a, b] = math::compute_local_range<T>(n, size, static_cast<T>(r));
      if (e < a || e >= b) mc::fail("compute_local_range_rank of " + std::to_string(e) + what);
    }
    std::vector<T> dist;
    for (T r = 0; r <= size; ++r) dist.push_back(r < size ? math::compute_local_range<T>(n, size, r).first : n);
    for (T e = 0; e < n; ++e) {
      const auto r = math::find_in_distribution<T>(e, dist);
      if (e < dist[r] || e >= dist[r + 1]) mc::fail("find_in_distribution of " + std::to_string(e) + what);
    }
    // documented for an even distribution only (the uneven test case is disabled upstream)
    if (n % (size * size) == 0) {
      std::vector<char> hit(n, 0);
      for (T e = 0; e < n; ++e) {
        const T x = math::distribute_round_robin<T>(n, size, e);
        if (x >= n || hit[x]) mc::fail("distribute_round_robin is no permutation" + what);
        hit[x] = 1;
        // element i of PE r becomes an element of PE i mod size
        if (math::compute_local_range_rank<T>(n, size, x) != static_cast<std::size_t>((e % (n / size)) % size)) mc::fail("distribute_round_robin sends an element to the wrong PE" + what);
      }
    }
  } else {
    for (const T r : {T(0), T(1), static_cast<T>(size / 2), static_cast<T>(size - 1)})
      if (r < size) one(r);
    if (math::compute_local_range<T>(n, size, size - 1).second != n || math::compute_local_range<T>(n, size, 0).first != 0) mc::fail("compute_local_range ends" + what);
  }
}
} // namespace

void mc_main() {
  const bool th = mc::thorough();
  // reductions under every division of the range
  struct Div { int workers, chunks; bool reverse; int conc; };
  std::vector<Div> divs = {{1, 1, false, 0}, {1, 1, false, 3}, {2, 2, false, 0}, {2, 3, true, 0}, {3, 3, false, 0}, {3, 64, true, 0}, {4, 64, false, 0}, {1, 64, true, 5}};
  for (auto d : divs) {
    mc::Config c;
    c.workers = d.workers;
    c.chunks = d.chunks;
    c.reverse = d.reverse;
    c.max_concurrency = d.conc;
    const std::string dn = " T=" + std::to_string(d.workers) + " chunks=" + std::to_string(d.chunks) + (d.reverse ? " reversed" : "") + " conc=" + std::to_string(d.conc);
    const int L = th ? 6 : 5;
    mc::explore("reductions int" + dn, c, [&] { for (int l = 0; l <= L; ++l) all_vectors<int>(l, {-3, -1, 0, 2, 7}, reductions<int>); });
    mc::explore("reductions u64" + dn, c, [&] { for (int l = 0; l <= L; ++l) all_vectors<std::uint64_t>(l, {0, 1, 5, 1ull << 33}, reductions<std::uint64_t>); });
    mc::explore("reductions i64" + dn, c, [&] { for (int l = 0; l <= L; ++l) all_vectors<std::int64_t>(l, {-9, 0, 4, -(1ll << 40)}, reductions<std::int64_t>); });
    mc::explore("loops" + dn, c, [&] {
      for (int l = 1; l <= (th ? 6 : 5); ++l) all_vectors<int>(l, {0, 1, 2, 3}, loops);
      for (int l = 1; l <= 3; ++l) all_vectors<int>(l, {0, 1, 7, 16}, loops);
    });
    mc::explore("aligned" + dn, c, [&] {
      std::vector<int> abc;
      for (int i = 0; i < 20; ++i) abc.push_back(i);
      for (int l = 0; l <= (th ? 5 : 4); ++l) all_vectors<int>(l, abc, aligned);
      all_vectors<int>(7, {0, 5, 14, 18}, aligned);
      for (int l = 8; l <= 12; ++l) all_vectors<int>(l, {9, 19}, aligned);
    });
  }
  mc::run("helpers 32", [&] {
    masks<std::uint32_t>();
    masks<std::uint64_t>();
    for (auto x : bounds<std::uint64_t>(300)) unsigned_helpers<std::uint64_t>(x);
    for (auto x : bounds<std::uint32_t>(300)) unsigned_helpers<std::uint32_t>(x);
    const std::uint32_t lim = th ? 0xFFFFFFFFu : (1u << 22);
    for (std::uint32_t x = 1; x != 0 && x <= lim; ++x) unsigned_helpers<std::uint32_t>(x);
    mc::sample("floor_log2, ceil_log2, floor2, ceil2, byte_width, degree_bucket on every 32-bit value up to " + std::to_string(lim) + " and around each power of two (64 bit)");
  });
  mc::run("divisions", [&] {
    for (std::uint32_t x = 0; x < 300; ++x)
      for (std::uint32_t y = 1; y < 300; ++y) { divisions<std::uint32_t>(x, y); divisions<std::uint64_t>(x, y); }
    const auto b32 = bounds<std::uint32_t>(2);
    for (auto x : b32) for (auto y : b32) divisions<std::uint32_t>(x, y);
    const auto b64 = bounds<std::uint64_t>(1);
    for (auto x : b64) for (auto y : b64) divisions<std::uint64_t>(x, y);
    for (int x = -300; x <= 300; ++x)
      if (math::abs(x) != static_cast<std::size_t>(std::abs(x))) mc::fail("abs");
    for (std::int64_t s = 0; s < 3000; ++s) {
      if (!math::is_square(s * s) || (s > 1 && (math::is_square(s * s - 1) || math::is_square(s * s + 1)))) mc::fail("is_square around " + std::to_string(s * s));
    }
    for (int bit = 12; bit < 31; ++bit)
      for (int d = -3; d <= 3; ++d) {
        const std::int64_t s = (1ll << bit) + d;
        if (!math::is_square(s * s) || math::is_square(s * s - 1) || math::is_square(s * s + 1)) mc::fail("is_square around " + std::to_string(s * s));
      }
  });
  mc::run("local ranges", [&] {
    const int N = th ? 200 : 80;
    for (int n = 0; n <= N; ++n)
      for (int s = 1; s <= 40; ++s) {
        ranges<std::uint32_t>(n, s, true);
        ranges<std::uint64_t>(n, s, true);
        ranges<int>(n, s, true);
      }
    for (auto n : bounds<std::uint64_t>(3))
      for (std::uint64_t s : {1, 2, 3, 5, 8, 13, 64, 1000, 4096})
        if (n < (1ull << 62)) ranges<std::uint64_t>(n, s, false);
    for (auto n : bounds<std::uint32_t>(3))
      for (std::uint32_t s : {1, 2, 3, 5, 8, 13, 64, 1000, 4096}) ranges<std::uint32_t>(n, s, false);
  });
  mc::run("split and percentile", [&] {
    for (std::uint32_t v = 0; v < 70000; ++v) {
      mc::count_case();
      const auto [a, b] = math::split_integral(v);
      if (a + b != v || (a != b && a != b + 1 && b != a + 1)) mc::fail("split_integral " + std::to_string(v));
    }
    for (auto v : bounds<std::uint32_t>(5)) {
      const auto [a, b] = math::split_integral(v);
      if (std::uint64_t(a) + b != v || math::abs_diff(a, b) > 1) mc::fail("split_integral " + std::to_string(v));
    }
    for (int len = 1; len <= 40; ++len) {
      std::vector<int> s(len);
      std::iota(s.begin(), s.end(), 100);
      for (int p = 0; p <= 100; ++p) {
        mc::count_case();
        // smallest element such that at least p percent of the elements are at most as large
        // (nearest-rank definition; exact rational arithmetic, tolerate the floating point ceiling)
        const double q = p / 100.0;
        const int lo = std::max(1, (p * len + 99) / 100), hi = std::max(1, static_cast<int>(std::ceil(q * len)));
        const int got = math::percentile(s, q) - 100 + 1;
        if (got != lo && got != hi) mc::fail("percentile " + std::to_string(p) + " of " + std::to_string(len) + " elements has rank " + std::to_string(got));
      }
    }
  });
}
