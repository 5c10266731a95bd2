// C07: integer codecs round-trip, report their exact length, and advance exactly over their bytes.
#include <cstring>
#include <type_traits>
#include <vector>

#include "mc.h"

#include "kaminpar-common/graph_compression/streamvbyte.h"
#include "kaminpar-common/graph_compression/varint.h"

using namespace kaminpar;

namespace {
template <typename Int> std::string num(Int v) { return std::to_string(v); }

template <typename Int> void check_unsigned(const Int v) {
  // Reference: little-endian base-128 length
  std::size_t ref = 1;
  for (auto x = v; x >= 128; x = static_cast<Int>(x >> 7)) ++ref;
  std::uint8_t a[32], b[32];
  std::memset(a, 0xEE, sizeof a);
  std::memset(b, 0x11, sizeof b);
  const std::size_t n = varint_encode<Int>(v, a);
  std::uint8_t *p = b;
  varint_encode<Int>(v, &p);
  const std::size_t n2 = static_cast<std::size_t>(p - b);
  if (n != n2 || n != varint_length<Int>(v) || n != ref || n > varint_max_length<Int>() || std::memcmp(a, b, n) || a[n] != 0xEE || b[n] != 0x11)
    mc::fail("varint encode/length of " + num(v));
  const std::uint8_t *q = a, *q2 = a, *q3 = a;
  const Int d1 = varint_decode<Int>(static_cast<const std::uint8_t *>(a)), d2 = varint_decode<Int>(&q);
  const Int d3 = varint_decode_loop<Int>(&q2), d4 = varint_decode_pext_unrolled<Int>(&q3);
  if (d1 != v || d2 != v || d3 != v || d4 != v || q != a + n || q2 != a + n || q3 != a + n) mc::fail("varint decode of " + num(v));
  for (int marked = 0; marked < 2; ++marked) {
    std::memset(a, 0xEE, sizeof a);
    std::memset(b, 0x11, sizeof b);
    const std::size_t k = marked_varint_encode<Int>(v, marked, a);
    p = b;
    marked_varint_encode<Int>(v, marked, &p);
    if (k != static_cast<std::size_t>(p - b) || k != marked_varint_length<Int>(v) || std::memcmp(a, b, k) || a[k] != 0xEE || b[k] != 0x11)
      mc::fail("marked varint encode/length of " + num(v));
    q = a;
    const auto r1 = marked_varint_decode<Int>(static_cast<const std::uint8_t *>(a));
    const auto r2 = marked_varint_decode<Int>(&q);
    if (r1.first != v || r2.first != v || r1.second != !!marked || r2.second != !!marked || q != a + k)
      mc::fail("marked varint decode of " + num(v));
  }
}
template <typename Int> void check_signed(const Int v) {
  using U = std::make_unsigned_t<Int>;
  const U z = zigzag_encode<Int>(v);
  const U ref = v >= 0 ? static_cast<U>(static_cast<U>(v) * 2) : static_cast<U>(static_cast<U>(-(v + 1)) * 2 + 1);
  if (z != ref || zigzag_decode<U>(z) != v) mc::fail("zigzag of " + num(v));
  std::uint8_t a[32], b[32];
  std::memset(a, 0xEE, sizeof a);
  std::memset(b, 0x11, sizeof b);
  const std::size_t n = signed_varint_encode<Int>(v, a);
  std::uint8_t *p = b;
  signed_varint_encode<Int>(v, &p);
  if (n != signed_varint_length<Int>(v) || n != static_cast<std::size_t>(p - b) || std::memcmp(a, b, n) || a[n] != 0xEE || b[n] != 0x11) mc::fail("signed varint encode/length of " + num(v));
  const std::uint8_t *q = a;
  if (signed_varint_decode<Int>(static_cast<const std::uint8_t *>(a)) != v || signed_varint_decode<Int>(&q) != v || q != a + n)
    mc::fail("signed varint decode of " + num(v));
}

template <typename Int> std::vector<Int> boundaries(int window) {
  using U = std::make_unsigned_t<Int>;
  std::vector<Int> out;
  for (int bit = 0; bit <= static_cast<int>(sizeof(Int) * 8); ++bit) {
    const U base = bit == static_cast<int>(sizeof(Int) * 8) ? U(0) : static_cast<U>(U(1) << bit);
    for (int d = -window; d <= window; ++d) {
      out.push_back(static_cast<Int>(static_cast<U>(base + static_cast<U>(d))));
      out.push_back(static_cast<Int>(static_cast<U>(U(0) - (base + static_cast<U>(d)))));
    }
  }
  // every pair of bits
  for (std::size_t i = 0; i < sizeof(Int) * 8; ++i)
    for (std::size_t j = 0; j < i; ++j) out.push_back(static_cast<Int>((U(1) << i) | (U(1) << j)));
  return out;
}

// ------------------------------------------------------------------ StreamVByte
using streamvbyte::DifferentialCodingKind;
template <typename Int, DifferentialCodingKind K> void check_stream(const std::vector<Int> &vals) {
  const std::size_t n = vals.size();
  std::vector<std::uint8_t> buf(n * (sizeof(Int) + 1) + 64, 0xEE), buf2 = buf;
  const auto describe = [&](const char *what) {
    std::string s = std::string("streamvbyte ") + what + " kind=" + std::to_string(static_cast<int>(K)) + " width=" + std::to_string(sizeof(Int) * 8) + " values:";
    for (Int v : vals) s += " " + num(v);
    return s;
  };
  std::size_t announced = 0;
  std::uint8_t *end;
  {
    streamvbyte::StreamVByteEncoder<Int, K> enc(n, buf.data());
    for (Int v : vals) announced += enc.add(v);
    end = enc.flush();
  }
  const std::size_t used = static_cast<std::size_t>(end - buf.data());
  if (used != announced) mc::fail(describe("announced length differs from written length"));
  if (used > n * (sizeof(Int) + 1) || buf[used] != 0xEE) mc::fail(describe("wrote past its announced end"));
  // the stream must be self-contained: whatever follows it is irrelevant
  std::memcpy(buf2.data(), buf.data(), used);
  std::memset(buf2.data() + used, 0x00, buf2.size() - used);
  for (auto *data : {buf.data(), buf2.data()}) {
    std::size_t i = 0;
    bool ok = true;
    streamvbyte::StreamVByteDecoder<Int, false, K> dec(n, data);
    dec.decode([&](const Int v) { ok = ok && i < n && vals[i] == v; ++i; });
    if (!ok || i != n) mc::fail(describe("decode"));
    // early stop after `stop` values
    for (std::size_t stop = 1; stop <= n; ++stop) {
      std::size_t c = 0;
      bool good = true;
      streamvbyte::StreamVByteDecoder<Int, false, K> d2(n, data);
      d2.decode([&](const Int v) { good = good && c < n && vals[c] == v; return ++c == stop; });
      if (!good || c != stop) mc::fail(describe("decode with early stop"));
    }
    if (n % 2 == 0 && (n % 4 == 0 || n % 4 == 2)) {
      if constexpr (sizeof(Int) == 4 && (K == DifferentialCodingKind::D2 || K == DifferentialCodingKind::NONE)) {
        std::size_t j = 0;
        bool good = true;
        streamvbyte::StreamVByteDecoder<Int, true, K> dp(n, data);
        dp.decode([&](const Int x, const Int y) { good = good && j + 1 < n && vals[j] == x && vals[j + 1] == y; j += 2; });
        if (!good || j != n) mc::fail(describe("pair decode"));
        if (n >= 4 && n % 4 == 0 && dp.get() != data + used) mc::fail(describe("decoder end position"));
        for (std::size_t stop = 1; stop <= n / 2; ++stop) {
          std::size_t c = 0;
          good = true;
          streamvbyte::StreamVByteDecoder<Int, true, K> d2(n, data);
          d2.decode([&](const Int x, const Int y) { good = good && vals[2 * c] == x && vals[2 * c + 1] == y; return ++c == stop; });
          if (!good || c != stop) mc::fail(describe("pair decode with early stop"));
        }
      }
    }
  }
  mc::count_case();
}
template <typename Int> void check_all_kinds(const std::vector<Int> &vals) {
  check_stream<Int, DifferentialCodingKind::NONE>(vals);
  if constexpr (sizeof(Int) == 8) return; // differential coding of 64-bit values: see known_findings.txt
  check_stream<Int, DifferentialCodingKind::D1>(vals);
  check_stream<Int, DifferentialCodingKind::D2>(vals);
  check_stream<Int, DifferentialCodingKind::D4>(vals);
  std::vector<Int> s = vals;
  std::sort(s.begin(), s.end());
  check_stream<Int, DifferentialCodingKind::DM>(s);
  check_stream<Int, DifferentialCodingKind::D1>(s);
}
template <typename Int> void sequences(const char *name, const std::vector<Int> &alphabet, int len) {
  // all sequences over the alphabet, one scenario per first symbol
  const std::size_t A = alphabet.size();
  for (std::size_t first = 0; first < (len ? A : 1); ++first) {
    mc::run(std::string("streamvbyte/") + name + "/len" + std::to_string(len) + "/first" + std::to_string(first), [&, first] {
      std::vector<std::size_t> idx(static_cast<std::size_t>(len), 0);
      if (len) idx[0] = first;
      for (;;) {
        std::vector<Int> v;
        for (std::size_t i : idx) v.push_back(alphabet[i]);
        check_all_kinds<Int>(v);
        uint64_t h = 7;
        for (Int x : v) h = h * 1000003 + static_cast<uint64_t>(x);
        mc::observe(h);
        int p = len - 1;
        while (p > 0 && ++idx[static_cast<std::size_t>(p)] == A) idx[static_cast<std::size_t>(p--)] = 0;
        if (p <= 0) break;
      }
    });
  }
}
} // namespace

void mc_main() {
  const bool T = mc::thorough();
  // --- every value of the 16-bit types' range and every value below 2^k, as 32 and 64 bit
  for (uint64_t block = 0; block < (T ? 4096u : 16u); ++block)
    mc::run("varint/u32/block" + std::to_string(block), [&, block] {
      for (uint64_t v = block << 20; v < (block + 1) << 20; ++v) {
        check_unsigned<std::uint32_t>(static_cast<std::uint32_t>(v));
        check_signed<std::int32_t>(static_cast<std::int32_t>(static_cast<std::uint32_t>(v)));
      }
      mc::count_case(1 << 20);
      mc::observe(block);
    });
  for (uint64_t block = 0; block < 4; ++block)
    mc::run("varint/u64/block" + std::to_string(block), [&, block] {
      for (uint64_t v = block << 19; v < (block + 1) << 19; ++v) {
        check_unsigned<std::uint64_t>(v);
        check_unsigned<std::uint64_t>(v << 35 | (v * 77777) >> 3);
        check_signed<std::int64_t>(static_cast<std::int64_t>(v));
        check_signed<std::int64_t>(-static_cast<std::int64_t>(v));
        check_signed<std::int64_t>(static_cast<std::int64_t>(v << 44));
      }
      mc::count_case(1 << 19);
      mc::observe(block + 100);
    });
  mc::run("varint/boundaries", [&] {
    for (auto v : boundaries<std::uint32_t>(600)) { check_unsigned(v); mc::observe(v); }
    for (auto v : boundaries<std::uint64_t>(600)) { check_unsigned(v); mc::observe(v); }
    for (auto v : boundaries<std::int32_t>(600)) check_signed(v);
    for (auto v : boundaries<std::int64_t>(600)) check_signed(v);
    mc::count_case(4 * 65 * 1200);
    mc::sample("varint 2^35-1, zigzag of INT64_MIN");
  });
  // --- concatenated varints: decoding one leaves the pointer at the next (all width combinations)
  mc::run("varint/concatenation", [&] {
    std::vector<std::uint64_t> w;
    for (int i = 0; i < 10; ++i) w.push_back(i == 0 ? 5 : (std::uint64_t(1) << std::min(63, 7 * i)) + 1);
    for (auto a : w)
      for (auto b : w)
        for (auto c : w) {
          std::uint8_t buf[64], *p = buf;
          varint_encode<std::uint64_t>(a, &p);
          marked_varint_encode<std::uint64_t>(b, true, &p);
          signed_varint_encode<std::int64_t>(-static_cast<std::int64_t>(c >> 1), &p);
          varint_encode<std::uint64_t>(a, &p);
          const std::uint8_t *q = buf;
          bool ok = varint_decode<std::uint64_t>(&q) == a;
          ok = ok && marked_varint_decode<std::uint64_t>(&q) == std::make_pair(b, true);
          ok = ok && signed_varint_decode<std::int64_t>(&q) == -static_cast<std::int64_t>(c >> 1);
          ok = ok && varint_decode<std::uint64_t>(&q) == a && q == p;
          if (!ok) mc::fail("concatenated varints " + num(a) + " " + num(b) + " " + num(c));
          mc::count_case();
        }
  });
  // --- StreamVByte
  mc::run("streamvbyte/u64-differential", [&] {
    std::uint8_t buf[64] = {};
    streamvbyte::StreamVByteEncoder<std::uint64_t, DifferentialCodingKind::D1> enc(2, buf);
    enc.add(3);
    enc.add(5);
    enc.flush();
    std::vector<std::uint64_t> got;
    streamvbyte::StreamVByteDecoder<std::uint64_t, false, DifferentialCodingKind::D1> dec(2, buf);
    dec.decode([&](const std::uint64_t v) { got.push_back(v); });
    if (got != std::vector<std::uint64_t>{3, 5}) mc::finding("streamvbyte-u64-d1", "decoding the 64-bit D1 stream of {3, 5} yields other values");
  });
  const std::vector<std::uint32_t> a32 = {0, 1, 255, 256, 65535, 65536, 16777215, 16777216, 0xFFFFFFFFu};
  const std::vector<std::uint32_t> w32 = {7, 300, 70000, 0x80000001u};
  for (int len = 0; len <= (T ? 6 : 5); ++len) sequences<std::uint32_t>("u32", a32, len);
  for (int len = 6; len <= (T ? 10 : 8); ++len) sequences<std::uint32_t>("u32w", w32, len);
  const std::vector<std::uint64_t> a64 = {0,          1,          255,        256,         65535,       65536,           16777215,       16777216,
                                          0xFFFFFFFF, 1ull << 32, 1ull << 40, (1ull << 40) - 1, 1ull << 48, (1ull << 56) - 1, 1ull << 56, ~0ull};
  const std::vector<std::uint64_t> w64 = {7, 300, 70000, 1ull << 41};
  for (int len = 0; len <= (T ? 5 : 4); ++len) sequences<std::uint64_t>("u64", a64, len);
  for (int len = 5; len <= (T ? 9 : 7); ++len) sequences<std::uint64_t>("u64w", w64, len);
}
