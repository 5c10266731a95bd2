// C05: single-threaded runs are reproducible from the seed, whatever memory contains, however time passes and whatever ran before.
#include "api.h"

#include <ctime>
#include <malloc.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
int clock_mode = 0; // 0 real, 1 frozen, 2 an hour per call, 3 backwards
long ticks = 0;
} // namespace
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  if (clock_mode == 0) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  ++ticks;
  ts->tv_sec = clock_mode == 1 ? 1000000 : clock_mode == 2 ? 1000000 + 3600 * ticks : 100000000 - 5 * ticks;
  ts->tv_nsec = clock_mode == 2 ? ticks * 7919 % 1000000000 : 0;
  return 0;
}
extern "C" time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

using namespace kv;

namespace {
__attribute__((noinline)) void paint_stack(unsigned char c) {
  volatile unsigned char b[96 * 1024];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = c;
}

struct Env {
  const char *name;
  int perturb, clock, stack;
  long leak;     // shifts addresses
  int preceding; // work done before in this process
};
const Env kEnvs[] = {{"heap ff", 0x00, 0, 0xff, 0, 0}, {"heap 00", 0xff, 1, 0x00, 40, 0}, {"heap 01", 0xfe, 2, 0x01, 4096 + 24, 1}, {"heap 7f", 0x80, 3, 0x7f, 100008, 2}};

void preceding_work(int kind, const Preset &other, const RefGraph &g) {
  if (kind == 0) return;
  mc::cfg().workers = kind == 2 ? 3 : 1;
  (void)partition(g, other.ctx, by_eps(kind == 1 ? 4 : 2, 0.2), kind == 1 ? Input::Copy : Input::Compressed, 77 + kind);
  (void)partition(kind == 1 ? path(5) : scattered(caveman(4, 6)), other.ctx, by_eps(3, 0.1), Input::Borrow, 5);
  mc::cfg().workers = 1;
}

void one(const RefGraph &g, const Preset &p, const Preset &other, const Limits &l, Input in, int seed) {
  const std::string at = " [" + p.name + "] " + l.str() + " seed " + std::to_string(seed) + " " + input_name(in) + " " + g.str();
  mc::label(at);
  const Result base = partition(g, p.ctx, l, in, seed);
  for (auto &e : kEnvs) {
    mc::count_case();
    preceding_work(e.preceding, other, g);
    mallopt(M_PERTURB, e.perturb);
    std::unique_ptr<char[]> shift[3];
    if (e.leak)
      for (int i = 0; i < 3; ++i) shift[i] = std::make_unique<char[]>(static_cast<size_t>(e.leak) * (i + 1) + 16);
    paint_stack(static_cast<unsigned char>(e.stack));
    ticks = 0, clock_mode = e.clock;
    const Result r = partition(g, p.ctx, l, in, seed);
    clock_mode = 0;
    mallopt(M_PERTURB, 0xA5);
    MC_CHECK(r.part == base.part, std::string("partition with ") + e.name + " clock " + std::to_string(e.clock) + " preceding work " + std::to_string(e.preceding) + " differs: " + (g.n() < 65 ? vec(r.part) + " and " + vec(base.part) : "") + at);
    MC_CHECK(r.cut == base.cut, "returned cut differs" + at);
  }
}
} // namespace

void mc_main() {
  mc::watchdog(30);
  std::vector<Preset> ps;
  for (auto &p : presets()) {
    ps.push_back(p);
    ps.push_back({p.name + "/deepened", deepened(p.ctx)});
  }
  auto add = [&](const char *n, auto &&f) {
    ps.push_back({n, deepened(create_default_context())});
    f(ps.back().ctx);
  };
  add("kway", [](Context &c) { c.partitioning.mode = PartitioningMode::KWAY; });
  add("sequential", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::SEQUENTIAL; });
  add("sync", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::SYNCHRONOUS_PARALLEL; });
  add("async", [](Context &c) { c.partitioning.deep_initial_partitioning_mode = InitialPartitioningMode::ASYNCHRONOUS_PARALLEL; });
  add("natural", [](Context &c) { c.node_ordering = NodeOrdering::NATURAL; });
  add("eager memory", [](Context &c) { c.partitioning.use_lazy_subgraph_memory = false; });
  for (auto a : {ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE})
    add("contraction", [&](Context &c) { c.coarsening.contraction.algorithm = a, c.node_ordering = NodeOrdering::NATURAL; });
  for (auto t : {TwoHopStrategy::MATCH, TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER, TwoHopStrategy::CLUSTER_THREADWISE})
    add("two-hop", [&](Context &c) { c.coarsening.clustering.lp.two_hop_strategy = t, c.coarsening.clustering.lp.two_hop_threshold = 1.0, c.node_ordering = NodeOrdering::NATURAL; });
  for (auto gc : {GainCacheStrategy::COMPACT_HASHING, GainCacheStrategy::SPARSE, GainCacheStrategy::HASHING, GainCacheStrategy::DENSE, GainCacheStrategy::ON_THE_FLY})
    add("fm cache", [&](Context &c) {
      c = deepened(create_context_by_preset_name("fm"));
      c.refinement.kway_fm.gain_cache_strategy = gc;
    });
  const Preset other{"other", deepened(create_context_by_preset_name("strong"))};
  auto usable = [](const Preset &p, Input in) { return in != Input::Compressed || p.name.find("contraction") == std::string::npos; };

  for (int n = 1; n <= 5; ++n) {
    const auto masks = iso_classes(n);
    for (size_t pi = 0; pi < ps.size(); ++pi)
      mc::run("iso n=" + std::to_string(n) + " " + ps[pi].name + std::to_string(pi), [&, n, pi] {
        for (size_t mi = 0; mi < masks.size(); ++mi)
          for (int wk : {0, 3}) {
            const RefGraph g = with_weights(by_mask(n, masks[mi]), wk);
            for (int k = 2; k <= std::min(n, 4); ++k)
              for (int seed : {0, 1, 2}) {
                if (!mc::thorough() && (mi + k + wk + pi) % 3 != static_cast<size_t>(seed)) continue;
                const Input in = (mi + k) % 2 ? Input::Copy : Input::Compressed;
                if (usable(ps[pi], in)) one(g, ps[pi], other, by_eps(k, k % 2 ? 0.03 : 0.2), in, seed);
              }
          }
      });
  }
  const std::vector<RefGraph> gs{grid(4, 5), caveman(4, 5), disjoint(grid(3, 4), empty(5)), prand(60, 6, 2), scattered(grid(8, 8)), star(70), scattered(caveman(12, 9)), prand(250, 8, 4), matching(12), clique(9), prand(1200, 6, 9), disjoint(star(30), star(40)), prand(4200, 6, 2), grid(70, 70)};
  for (size_t gi = 0; gi < gs.size(); ++gi)
    for (size_t pi = 0; pi < ps.size(); ++pi) {
      if (gs[gi].n() > 1000 && !mc::thorough() && pi % 6 != gi % 6) continue;
      mc::run("structured " + gs[gi].name + " " + ps[pi].name + std::to_string(pi), [&, gi, pi] {
        for (int wk : {0, 3, 4, 5}) {
          if (gs[gi].n() > 1000 && !mc::thorough() && wk != static_cast<int>(pi % 2 ? 0 : 3)) continue;
          const RefGraph g = with_weights(gs[gi], wk);
          for (int k : {2, 3, 7, 16}) {
            if (!mc::thorough() && (gs[gi].n() > 1000 || wk) && (pi + wk + k) % 4 != 0) continue;
            const Input in = (k + wk) % 2 ? Input::Copy : (pi % 3 ? Input::Compressed : Input::Borrow);
            if (usable(ps[pi], in)) one(g, ps[pi], other, by_eps(k, 0.03), in, static_cast<int>(k + pi));
          }
        }
      });
    }
}
