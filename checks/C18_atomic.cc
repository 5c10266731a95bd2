// C18: the atomic wrapper and the parallel loops under all interleavings.
#include <vector>

#include "mc.h"

#include <tbb/parallel_for.h>

#include "kaminpar-common/parallel/atomic.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/loops.h"
#include "kaminpar-common/parallel/vector_ets.h"

using namespace kaminpar;

namespace {
using A = parallel::Atomic<int>;
struct Op {
  const char *name;
  std::function<int(A &)> run;
  std::function<int(int &)> ref;
};
const std::vector<Op> ops = {
    {"++x", [](A &x) { return ++x; }, [](int &x) { return ++x; }},
    {"x++", [](A &x) { return x++; }, [](int &x) { return x++; }},
    {"--x", [](A &x) { return --x; }, [](int &x) { return --x; }},
    {"x--", [](A &x) { return x--; }, [](int &x) { return x--; }},
    {"x+=5", [](A &x) { return x += 5; }, [](int &x) { return x += 5; }},
    {"x-=3", [](A &x) { return x -= 3; }, [](int &x) { return x -= 3; }},
    {"x&=6", [](A &x) { return x &= 6; }, [](int &x) { return x &= 6; }},
    {"x|=9", [](A &x) { return x |= 9; }, [](int &x) { return x |= 9; }},
    {"x^=5", [](A &x) { return x ^= 5; }, [](int &x) { return x ^= 5; }},
    {"x=4", [](A &x) { x = 4; return 4; }, [](int &x) { x = 4; return 4; }},
    {"store", [](A &x) { x.store(11); return 11; }, [](int &x) { x = 11; return 11; }},
    {"load", [](A &x) { return x.load(); }, [](int &x) { return x; }},
    {"conv", [](A &x) { return static_cast<int>(x); }, [](int &x) { return x; }},
    {"exchange", [](A &x) { return x.exchange(8); }, [](int &x) { int o = x; x = 8; return o; }},
    {"fetch_add", [](A &x) { return x.fetch_add(2); }, [](int &x) { int o = x; x += 2; return o; }},
    {"fetch_sub", [](A &x) { return x.fetch_sub(2); }, [](int &x) { int o = x; x -= 2; return o; }},
    {"fetch_and", [](A &x) { return x.fetch_and(12); }, [](int &x) { int o = x; x &= 12; return o; }},
    {"fetch_or", [](A &x) { return x.fetch_or(3); }, [](int &x) { int o = x; x |= 3; return o; }},
    {"fetch_xor", [](A &x) { return x.fetch_xor(7); }, [](int &x) { int o = x; x ^= 7; return o; }},
    {"cas 7->20", [](A &x) { int e = 7; bool b = x.compare_exchange_strong(e, 20); return b * 1000 + e; },
     [](int &x) { int e = x; bool b = x == 7; if (b) x = 20; return b * 1000 + e; }},
};
} // namespace

void mc_main() {
  mc::run("single-threaded semantics of the atomic wrapper", [&] {
    for (int v = -9; v <= 25; ++v)
      for (auto &a : ops)
        for (auto &b : ops) {
          mc::count_case();
          A x(v);
          int y = v;
          const int r1 = a.run(x), q1 = a.ref(y), s1 = x.load(), t1 = y;
          const int r2 = b.run(x), q2 = b.ref(y);
          if (r1 != q1 || s1 != t1 || r2 != q2 || x.load() != y)
            mc::fail(std::string("Atomic: ") + a.name + " then " + b.name + " on " + std::to_string(v) + " returned " + std::to_string(r1) + "," + std::to_string(r2) + " left " + std::to_string(x.load()) + "; expected " + std::to_string(q1) + "," + std::to_string(q2) + " left " + std::to_string(y));
          A c(x), d;
          d = x;
          A e(std::move(c));
          if (d.load() != y || e.load() != y) mc::fail("Atomic copy");
        }
  });
  // every pair of operations from two threads is linearizable
  for (std::size_t i = 0; i < ops.size(); ++i)
    for (std::size_t j = i; j < ops.size(); ++j) {
      mc::Config c;
      c.workers = 2;
      c.preemptions = 3;
      mc::explore(std::string("atomic ") + ops[i].name + " || " + ops[j].name, c, [&] {
        A x(7);
        int r[2] = {0, 0};
        tbb::parallel_for(0, 2, [&](int w) { r[w] = (w == 0 ? ops[i] : ops[j]).run(x); });
        bool ok = false;
        for (int first = 0; first < 2; ++first) {
          int y = 7, q[2];
          q[first] = (first == 0 ? ops[i] : ops[j]).ref(y);
          q[1 - first] = (first == 0 ? ops[j] : ops[i]).ref(y);
          ok = ok || (q[0] == r[0] && q[1] == r[1] && y == x.load());
        }
        if (!ok) mc::fail(std::string("Atomic operations not linearizable: ") + ops[i].name + " || " + ops[j].name);
        mc::observe(static_cast<std::uint64_t>(x.load()) * 1000003 + r[0] * 1009 + r[1]);
      });
    }
  for (int T = 2; T <= 3; ++T)
    for (auto as : {mc::Assign::RoundRobin, mc::Assign::Block, mc::Assign::Dynamic}) {
      mc::Config c;
      c.workers = T;
      c.preemptions = 2;
      c.assign = as;
      mc::explore("parallel primitives, threads T=" + std::to_string(T) + " assign=" + std::to_string(static_cast<int>(as)), c, [&] {
        std::vector<int> v = {3, -1, 4, 1, -5, 9};
        if (parallel::accumulate(v, 0) != 11) mc::fail("accumulate");
        if (parallel::max_element(v) != 9) mc::fail("max_element");
        if (parallel::max_difference(v) != 14) mc::fail("max_difference");
        parallel::prefix_sum(v.begin(), v.end(), v.begin());
        if (v != std::vector<int>{3, 2, 6, 7, 2, 11}) mc::fail("prefix_sum");
        std::vector<std::vector<int>> b = {{0, 0}, {}, {0}, {0, 0, 0}, {}};
        parallel::chunked_for(b, [](int &x, int c) { x += c + 1; });
        if (b != std::vector<std::vector<int>>{{1, 1}, {}, {3}, {4, 4, 4}, {}}) mc::fail("chunked_for");
        parallel::vector_ets<int> ets(3);
        tbb::parallel_for(0, 6, [&](int i) { ets.local()[i % 3] += i; });
        auto s = ets.combine([](int x, int y) { return x + y; });
        if (s[0] != 3 || s[1] != 5 || s[2] != 7) mc::fail("vector_ets");
        parallel::Atomic<int> cnt(0);
        const int p = parallel::deterministic_for<int>(0, 5, [&](int f, int t, int) { cnt += t - f; });
        if (cnt != 5 || p != T) mc::fail("deterministic_for");
      });
    }
}
