// Controlled-execution runtime: the API used by the TBB/MPI stand-ins and by the harnesses.
// See DESIGN.md, "The runtime".
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc {

// ---------------------------------------------------------------- execution control
enum class Assign : int { RoundRobin = 0, Mirrored = 1, Block = 2, Dynamic = 3 };

struct Config {
  int workers = 1;                      // number of (virtual) worker threads, T
  int preemptions = 0;                  // preemption bound
  long max_exec = 1000000000;           // cap on explored executions (reported when hit)
  Assign assign = Assign::RoundRobin;   // how chunks of a parallel region are given to workers
  int chunks = 0;                       // max chunks per region (0: 2 * T; 1: whole range at once)
  int max_concurrency = 0;              // value reported as max_concurrency (0: workers)
  bool reverse = false;                 // sequential runs: execute chunks back to front
  bool monitor_locals = true;           // explore scheduling points while constructing per-thread objects
  long horizon = 20000000;              // scheduling points per execution before "livelock"
};

Config &cfg();

int workers();        // cfg().workers
int self();           // index of the running worker
int slot();           // index of the running worker or rank: the key of per-thread storage
bool in_parallel();   // inside a parallel region
int num_chunks(size_t n);

// Runs fn(ctx, chunk) for each chunk in [0, n), distributed over the workers.
void region(int n, void (*fn)(void *, int), void *ctx);

template <typename F> inline void region_f(int n, F &f) {
  region(n, [](void *c, int i) { (*static_cast<F *>(c))(i); }, &f);
}

// Scheduling point / blocking primitives (used by stand-ins).
void point(const void *addr);
void block_while(bool (*blocked)(void *), void *ctx); // deschedules until !blocked(ctx)
void on_each_worker(const std::function<void()> &f);  // run f once on every worker 0..T-1

struct RtGuard { // suspends access monitoring for the current worker
  RtGuard();
  ~RtGuard();
};

// Generic fibers ("ranks") for the MPI stand-in: run f(0..n-1) as cooperatively scheduled tasks.
void run_ranks(int n, const std::function<void(int)> &f);

// ---------------------------------------------------------------- harness API
// Environment choice in [0, n): explored exhaustively. `cost`: deviations charged if nonzero chosen.
int choose(int n, const char *tag = "env", int cost = 0);

[[noreturn]] void fail(const std::string &msg);
void fail_if(bool bad, const char *msg);
void observe(uint64_t h);                // record an outcome (distinct outcomes are counted)
void sample(const std::string &s);       // keep as an example in the evidence (first few)
void label(const std::string &what);     // names the current case in crash and watchdog messages
void count_steps(long n); // transitions of a stand-in that are not counted by the scheduler
void count_case(long n = 1);             // count additional evaluated cases inside one execution
void watchdog(int seconds);              // CPU seconds without a new execution or case before "no progress"
// A violation with an identity: suppressed (and printed) iff listed in the known-findings file.
void finding(const std::string &key, const std::string &msg);

// One scenario: explores all executions of `body` under `c`. Sharded: a scenario runs in exactly one
// shard, chosen by its running index. Returns false if the scenario does not belong to this shard.
bool explore(const std::string &name, const Config &c, const std::function<void()> &body);
// A batch of plain deterministic cases (a single execution, one worker).
inline bool run(const std::string &name, const std::function<void()> &body) {
  return explore(name, Config{}, body);
}
bool thorough();
unsigned seed();
const std::string &scratch(); // private scratch directory of this process (removed at exit)

// Harness entry point, defined by each check.
} // namespace mc
void mc_main();

#define MC_CHECK(cond, msg)                                                                        \
  do {                                                                                             \
    if (!(cond)) [[unlikely]] {                                                                    \
      ::mc::fail(std::string(#cond) + " -- " + (msg));                                             \
    }                                                                                              \
  } while (0)
