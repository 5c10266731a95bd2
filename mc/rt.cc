// Controlled-execution runtime (see mc.h). Never instrumented; all its containers use types of
// namespace mc so that no template instance is shared with instrumented code.
#include "mc.h"

#include <chrono>
#include <cxxabi.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <thread>
#include <vector>

#define RT __attribute__((no_sanitize("thread")))

// Fixed, so that runs do not depend on the machine (and without reading /sys on every call).
unsigned std::thread::hardware_concurrency() noexcept { return 4; }

namespace mc {
namespace {

// ------------------------------------------------------------------ small containers
struct Pc {
  uintptr_t v;
};
struct Choice {
  uint16_t n;       // number of alternatives
  uint16_t c;       // chosen
  uint16_t cost;    // deviation cost of any alternative != 0
  uint16_t before;  // deviations spent before this point
  uint32_t tag;     // hash of what the choice is about (divergence detection)
};
struct U64Set { // open addressing
  std::vector<Pc> slots;
  size_t size = 0;
  bool insert(uint64_t v) {
    if (v == 0) v = 0x9e3779b97f4a7c15ull;
    if (slots.empty()) slots.assign(1024, Pc{0});
    if (2 * size >= slots.size()) {
      std::vector<Pc> old;
      old.swap(slots);
      slots.assign(old.size() * 2, Pc{0});
      size = 0;
      for (Pc p : old)
        if (p.v) insert(p.v);
    }
    size_t m = slots.size() - 1, i = (v * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (slots[i].v) {
      if (slots[i].v == v) return false;
      i = (i + 1) & m;
    }
    slots[i].v = v;
    ++size;
    return true;
  }
};

// ------------------------------------------------------------------ global state
constexpr int kMaxFibers = 40;
constexpr size_t kStack = 16u << 20;

enum class St : uint8_t { Idle, Ready, Blocked, Done };

constexpr long kClaims = 1 << 22;
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  char *tls = nullptr;
  char *statics = nullptr;
  void *cxa[2] = {nullptr, nullptr};
  St st = St::Idle;
  int rt_depth = 0;
  bool (*blocked)(void *) = nullptr;
  void *bctx = nullptr;
  // spin detection
  const void *spin_addr = nullptr;
  int spin_cnt = 0;
  uint64_t spin_writes = 0;
  bool spinning = false;
  int cursor = 0; // static chunk assignment
};

struct Cell {
  uintptr_t addr;
  uint32_t epoch;
  uint16_t readers, writers;
  uint32_t pcs[6];
};

struct Global {
  Config cfg;
  Fiber f[kMaxFibers];
  int cur = 0;
  int nfibers = 1;        // fibers participating in the current region
  bool exploring = false; // inside an execution (choices recorded)
  bool in_region = false; // worker fibers run
  bool ranks_mode = false;
  // region
  int rn = 0, rnext = 0;
  void (*rfn)(void *, int) = nullptr;
  void *rctx = nullptr;
  uint32_t epoch = 0;
  uint64_t writes = 0;
  // exploration
  std::vector<Choice> trace;
  size_t pos = 0;     // next choice index
  size_t prefix = 0;  // forced length
  int deviations = 0;
  long steps = 0;     // scheduling points in this execution
  bool new_promo = false;
  // statistics
  long execs = 0, transitions = 0, nodes = 0, cases = 0, scenarios = 0, capped = 0, maxdepth = 0;
  long preemptive = 0, restarts = 0, promoted_total = 0;
  U64Set outcomes;
  long nsamples = 0;
  std::string samples;
  // identity
  std::string scen;
  long scen_index = 0;
  int shard = 0, nshards = 1;
  char *claims = nullptr; // shared by the shards: scenario index -> taken
  bool thorough = false;
  unsigned seed = 1;
  std::string prop = "X00", replay_dir = "/tmp", only, known;
  bool replay = false;
  std::vector<Choice> replay_trace;
  std::string replay_scen;
  int replay_bound = 0;
  std::string argv0;
  std::string scratch;
  std::string known_file;
  std::string known_printed;
  // watchdog
  volatile long wd_exec = -1;
  volatile int wd_ticks = 0;
  int wd_limit = 100;
} *g;

// ------------------------------------------------------------------ TLS handling
char *tls_base = nullptr;
size_t tls_size = 0;
const char *tls_init = nullptr;
size_t tls_init_size = 0;
uintptr_t text_lo = ~0ull, text_hi = 0, load_base = 0;

int phdr_cb(dl_phdr_info *info, size_t, void *) {
  if (tls_base == nullptr && text_hi == 0) { // first entry: the executable
    load_base = info->dlpi_addr;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
      const auto &ph = info->dlpi_phdr[i];
      if (ph.p_type == PT_TLS) {
        tls_base = static_cast<char *>(info->dlpi_tls_data);
        tls_size = ph.p_memsz;
        tls_init = reinterpret_cast<const char *>(info->dlpi_addr + ph.p_vaddr);
        tls_init_size = ph.p_filesz;
      } else if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X)) {
        uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
        if (lo < text_lo) text_lo = lo;
        if (hi > text_hi) text_hi = hi;
      }
    }
  }
  return 1;
}

std::vector<Pc> *promoted_bits; // bitmap over text

inline bool is_promoted(uintptr_t pc) {
  if (pc < text_lo || pc >= text_hi) return false;
  uintptr_t o = pc - text_lo;
  return ((*promoted_bits)[o >> 6].v >> (o & 63)) & 1;
}
inline bool promote(uintptr_t pc) {
  if (pc < text_lo || pc >= text_hi) return false;
  uintptr_t o = pc - text_lo;
  auto &w = (*promoted_bits)[o >> 6].v;
  if ((w >> (o & 63)) & 1) return false;
  w |= 1ull << (o & 63);
  ++g->promoted_total;
  return true;
}

// ------------------------------------------------------------------ fibers
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

struct CxaGlobals {
  void *caught;
  unsigned int uncaught;
};

// Ranks of a distributed program are processes: they have their own static variables (see build.py, dist).
extern "C" {
extern char __start_kv_rank_data[] __attribute__((weak));
extern char __stop_kv_rank_data[] __attribute__((weak));
extern char __start_kv_rank_bss[] __attribute__((weak));
extern char __stop_kv_rank_bss[] __attribute__((weak));
}
struct Statics {
  char *begin;
  size_t size;
};
inline Statics rank_data() { return {__start_kv_rank_data, static_cast<size_t>(__stop_kv_rank_data - __start_kv_rank_data)}; }
inline Statics rank_bss() { return {__start_kv_rank_bss, static_cast<size_t>(__stop_kv_rank_bss - __start_kv_rank_bss)}; }

void swap_statics(Fiber &a, Fiber &b) {
  const Statics d = rank_data(), z = rank_bss();
  if (d.size) memcpy(a.statics, d.begin, d.size), memcpy(d.begin, b.statics, d.size);
  if (z.size) memcpy(a.statics + d.size, z.begin, z.size), memcpy(z.begin, b.statics + d.size, z.size);
}

void switch_to(int w) {
  if (w == g->cur) return;
  Fiber &a = g->f[g->cur], &b = g->f[w];
  auto *cg = reinterpret_cast<CxaGlobals *>(abi::__cxa_get_globals());
  memcpy(a.cxa, cg, 16);
  if (tls_size) memcpy(a.tls, tls_base, tls_size);
  memcpy(cg, b.cxa, 16);
  if (tls_size) memcpy(tls_base, b.tls, tls_size);
  swap_statics(a, b);
  g->cur = w;
  mc_switch(&a.sp, b.sp);
}

void fiber_main();

void make_fiber(int i) {
  Fiber &f = g->f[i];
  if (f.tls == nullptr) {
    f.tls = static_cast<char *>(calloc(1, tls_size + 64));
    memcpy(f.tls, tls_init, tls_init_size);
  }
  if (f.statics == nullptr) { // made before any rank ran: the image after static initialisation
    const Statics d = rank_data(), z = rank_bss();
    f.statics = static_cast<char *>(calloc(1, d.size + z.size + 1));
    if (d.size) memcpy(f.statics, d.begin, d.size);
    if (z.size) memcpy(f.statics + d.size, z.begin, z.size);
  }
  if (i == 0) return;
  if (f.stack == nullptr) {
    f.stack = static_cast<char *>(mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mprotect(f.stack, 4096, PROT_NONE);
    auto **sp = reinterpret_cast<void **>(f.stack + 4096 + kStack);
    *--sp = nullptr; // fake return address of fiber_main: rsp = 8 (mod 16) at its entry
    *--sp = reinterpret_cast<void *>(&fiber_main);    // ret target
    for (int k = 0; k < 6; ++k) *--sp = nullptr;      // callee-saved
    --sp;
    unsigned mx;
    unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    reinterpret_cast<unsigned *>(sp)[0] = mx;
    reinterpret_cast<unsigned *>(sp)[1] = cw;
    f.sp = sp;
  }
}

// ------------------------------------------------------------------ reporting
volatile sig_atomic_t reporting = 0;

void append_json_string(std::string &o, const std::string &s) {
  o += '"';
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (static_cast<unsigned char>(c) < 32) o += ' ';
    else o += c;
  }
  o += '"';
}

void print_stats() {
  std::string o = "STATS {";
  char b[512];
  snprintf(b, sizeof b,
           "\"executions\":%ld,\"transitions\":%ld,\"nodes\":%ld,\"cases\":%ld,\"scenarios\":%ld,"
           "\"capped_scenarios\":%ld,\"max_choice_depth\":%ld,\"distinct_outcomes\":%zu,"
           "\"restarts\":%ld,\"promoted_pcs\":%ld,\"preemptive_executions\":%ld,\"samples\":[",
           g->execs, g->transitions, g->nodes, g->cases, g->scenarios, g->capped, g->maxdepth,
           g->outcomes.size, g->restarts, g->promoted_total, g->preemptive);
  o += b;
  o += g->samples;
  o += "]}\n";
  fflush(stdout);
  (void)!write(1, o.data(), o.size());
}

[[noreturn]] void report(const std::string &msg) {
  if (reporting) _exit(70);
  reporting = 1;
  if (g->replay) {
    printf("REPLAY-VIOLATION property=%s scenario=%s: %s\n", g->prop.c_str(), g->scen.c_str(), msg.c_str());
    fflush(stdout);
    _exit(1);
  }
  // write the replay file
  mkdir(g->replay_dir.c_str(), 0755);
  std::string path = g->replay_dir + "/" + g->prop + "-" + std::to_string(getpid()) + ".replay";
  FILE *fp = fopen(path.c_str(), "w");
  if (fp) {
    fprintf(fp, "property %s\nbinary %s\nscenario %s\nseed %u\nthorough %d\nmessage ", g->prop.c_str(),
            g->argv0.c_str(), g->scen.c_str(), g->seed, g->thorough ? 1 : 0);
    for (char c : msg) fputc(c == '\n' ? ' ' : c, fp);
    fputc('\n', fp);
    fprintf(fp, "bound %d\nchoices %zu", g->cfg.preemptions, g->pos);
    for (size_t i = 0; i < g->pos; ++i)
      fprintf(fp, " %u/%u/%u", g->trace[i].c, g->trace[i].n, g->trace[i].tag);
    fprintf(fp, "\npromoted");
    for (size_t w = 0; w < promoted_bits->size(); ++w)
      for (int k = 0; k < 64; ++k)
        if (((*promoted_bits)[w].v >> k) & 1) fprintf(fp, " %zx", (w << 6) + k);
    fprintf(fp, "\n");
    fclose(fp);
  }
  // replay before reporting
  int confirmed = 0;
  for (int attempt = 0; attempt < 3 && !confirmed; ++attempt) {
    pid_t p = fork();
    if (p == 0) {
      sigset_t none; // we may be inside a signal handler, and a blocked mask survives exec
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      execl(g->argv0.c_str(), g->argv0.c_str(), "--replay", path.c_str(), "--known", g->known_file.c_str(), (char *)nullptr);
      _exit(99);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) confirmed = 1;
  }
  if (!confirmed) {
    printf("NOT-REPLAYED property=%s scenario=%s replay=%s: %s\n", g->prop.c_str(), g->scen.c_str(),
           path.c_str(), msg.c_str());
    print_stats();
    _exit(3);
  }
  printf("FAILED scenario %s: %s\n", g->scen.c_str(), msg.c_str());
  printf("VIOLATION property=%s replay=%s\n", g->prop.c_str(), path.c_str());
  print_stats();
  _exit(1);
}

char g_label[512]; // what the harness is doing: appended to crash and watchdog messages
std::string with_label(std::string m) { return g_label[0] ? m + " during " + g_label : m; }

void on_signal(int sig) {
  if (sig == SIGVTALRM) {
    if (g->wd_exec != g->execs + g->cases) {
      g->wd_exec = g->execs + g->cases;
      g->wd_ticks = 0;
    } else if ((g->wd_ticks = g->wd_ticks + 1) >= g->wd_limit && g->exploring) {
      report(with_label("no progress: one case used more than " + std::to_string(g->wd_limit) + " s of CPU time"));
    }
    return;
  }
  report(with_label(std::string("fatal signal ") + strsignal(sig)));
}

// ------------------------------------------------------------------ choices
uint32_t mix(uint32_t h, uint64_t v) {
  uint64_t x = (h ^ v) * 0x9e3779b97f4a7c15ull;
  return static_cast<uint32_t>(x >> 32) ^ static_cast<uint32_t>(x);
}

int take_choice(int n, int cost, uint32_t tag) {
  if (n <= 1) return 0;
  if (g->pos < g->prefix) {
    Choice &c = g->trace[g->pos];
    if (c.n != n || c.tag != tag) {
      if (g->replay) { printf("REPLAY-DIVERGENCE at %zu\n", g->pos); fflush(stdout); _exit(4); }
      printf("DIVERGENCE scenario=%s choice %zu: expected n=%u tag=%u got n=%d tag=%u\n",
             g->scen.c_str(), g->pos, c.n, c.tag, n, tag);
      fflush(stdout);
      _exit(5);
    }
    ++g->pos;
    if (c.c != 0) g->deviations += cost;
    return c.c;
  }
  g->trace.push_back(Choice{static_cast<uint16_t>(n), 0, static_cast<uint16_t>(cost),
                            static_cast<uint16_t>(g->deviations), tag});
  ++g->pos;
  ++g->nodes;
  return 0;
}

bool fiber_enabled(Fiber &f) {
  if (f.st == St::Ready) {
    if (f.spinning && f.spin_writes == g->writes) return false;
    return true;
  }
  if (f.st == St::Blocked && f.blocked && !f.blocked(f.bctx)) return true;
  return false;
}

// Select the next fiber to run; current fiber may or may not be enabled.
void schedule() {
  int en[kMaxFibers], n = 0;
  Fiber &me = g->f[g->cur];
  bool cur_enabled = fiber_enabled(me);
  if (cur_enabled) en[n++] = g->cur;
  for (int i = 0; i < g->nfibers; ++i)
    if (i != g->cur && fiber_enabled(g->f[i])) en[n++] = i;
  if (n == 0) { // maybe everyone who could run is only "spinning": let them retry
    for (int i = 0; i < g->nfibers; ++i)
      if (g->f[i].st == St::Ready) en[n++] = i;
    if (n == 0) report("deadlock: no worker can proceed");
    for (int k = 0; k < n; ++k) g->f[en[k]].spinning = false;
    if (n > 1) n = 1;
  }
  int k = 0;
  if (n > 1 && g->ranks_mode) { // default order of the ranks: next enabled rank, cyclically
    if (!cur_enabled)
      while (k + 1 < n && en[k] < g->cur) ++k;
    if (en[k] < g->cur) k = 0;
    if (g->exploring && g->deviations < g->cfg.preemptions) {
      std::rotate(en, en + k, en + n);
      uint32_t tag = mix(18, n);
      for (int i = 0; i < n; ++i) tag = mix(tag, en[i]);
      k = take_choice(n, 1, tag);
    }
  } else if (n > 1) {
    // Every deviation from the default schedule (continue the running worker; if it cannot run, the
    // enabled one with the lowest index) costs one, so a bound of 0 is a single execution.
    if (g->deviations >= g->cfg.preemptions) {
      k = 0; // bound exhausted; not recorded: identical on replay because the deviations spent are
    } else {
      uint32_t tag = mix(17, n);
      for (int i = 0; i < n; ++i) tag = mix(tag, en[i]);
      k = take_choice(n, 1, tag);
    }
  }
  int w = en[k];
  Fiber &t = g->f[w];
  if (t.st == St::Blocked) { t.st = St::Ready; t.blocked = nullptr; }
  t.spinning = false;
  switch_to(w);
}


// ------------------------------------------------------------------ regions
int static_chunk(int w, int k, int T, int n) { // k-th chunk of worker w, or -1
  int c = -1;
  switch (g->cfg.assign) {
  case Assign::RoundRobin: c = w + k * T; break;
  case Assign::Mirrored: c = (T - 1 - w) + k * T; break;
  case Assign::Block: {
    int lo = static_cast<int>(static_cast<long>(n) * w / T), hi = static_cast<int>(static_cast<long>(n) * (w + 1) / T);
    c = lo + k < hi ? lo + k : -1;
    break;
  }
  case Assign::Dynamic: break;
  }
  return c >= 0 && c < n ? c : -1;
}

void run_chunks(int me) {
  for (;;) {
    int c;
    if (g->cfg.assign == Assign::Dynamic) {
      point(&g->rnext);
      c = g->rnext < g->rn ? g->rnext++ : -1;
    } else {
      c = static_chunk(me, g->f[me].cursor++, g->nfibers, g->rn);
    }
    if (c < 0) return;
    g->rfn(g->rctx, c);
  }
}

void fiber_main() {
  for (;;) {
    int me = g->cur;
    if (g->ranks_mode) {
      g->rfn(g->rctx, me - 1);
    } else {
      run_chunks(me);
    }
    ++g->writes;
    g->f[me].st = St::Done;
    schedule();
  }
}

bool others_running(void *) {
  for (int i = 1; i < g->nfibers; ++i)
    if (g->f[i].st != St::Done) return true;
  return false;
}

struct StepGuard {};

void start_region(int nf, bool ranks, int n, void (*fn)(void *, int), void *ctx) {
  g->rn = n;
  g->rnext = 0;
  g->rfn = fn;
  g->rctx = ctx;
  g->nfibers = nf;
  g->ranks_mode = ranks;
  if (++g->epoch == 0) g->epoch = 1;
  for (int i = 0; i < nf; ++i) {
    make_fiber(i);
    Fiber &f = g->f[i];
    f.cursor = 0;
    f.rt_depth = 0;
    f.spin_addr = nullptr;
    f.spin_cnt = 0;
    f.spinning = false;
    f.st = St::Ready;
    if (i > 0 && !ranks && g->cfg.assign != Assign::Dynamic && static_chunk(i, 0, nf, n) < 0) f.st = St::Done;
  }
  g->in_region = true;
}

// Memory freed inside a parallel region is not reused before its end: otherwise, two workers that own the same
// piece of memory one after the other look like they share it.
constexpr size_t kQuarantine = 1 << 18;
void **quarantine = nullptr;
size_t quarantined = 0;
extern "C" void __libc_free(void *);
void release_quarantine() {
  while (quarantined > 0) __libc_free(quarantine[--quarantined]);
}

void join_region() {
  Fiber &me = g->f[0];
  while (others_running(nullptr)) {
    me.st = St::Blocked;
    me.blocked = others_running;
    me.bctx = nullptr;
    schedule();
  }
  me.st = St::Ready;
  g->in_region = false;
  g->ranks_mode = false;
  g->nfibers = 1;
#ifndef KV_ASAN
  release_quarantine();
#endif
}

// ------------------------------------------------------------------ access monitoring
std::vector<Cell> *cells;
size_t cells_used = 0;
uint32_t cells_epoch = 0;

void monitor(uintptr_t addr, uintptr_t pc, bool write) {
  if (addr - reinterpret_cast<uintptr_t>(tls_base) < tls_size) return; // one copy per worker at the same address
  if (cells_epoch != g->epoch) { cells_epoch = g->epoch; cells_used = 0; }
  size_t m = cells->size() - 1;
  size_t i = (addr * 0x9e3779b97f4a7c15ull >> 22) & m;
  while ((*cells)[i].epoch == g->epoch && (*cells)[i].addr != addr) i = (i + 1) & m;
  Cell &c = (*cells)[i];
  uint32_t off = static_cast<uint32_t>(pc - text_lo);
  if (c.epoch != g->epoch) {
    if (2 * ++cells_used > cells->size()) { cells_used = cells->size(); return; } // saturated: stop learning
    c.addr = addr;
    c.epoch = g->epoch;
    c.readers = c.writers = 0;
    for (auto &p : c.pcs) p = 0;
  }
  uint16_t bit = static_cast<uint16_t>(1u << (g->cur & 15));
  if (write) c.writers |= bit; else c.readers |= bit;
  bool have = false;
  for (auto &p : c.pcs) {
    if (p == off) { have = true; break; }
    if (p == 0) { p = off; have = true; break; }
  }
  uint16_t all = c.readers | c.writers;
  if (c.writers && (all & (all - 1))) { // two workers, at least one write
    if (!have && promote(pc)) g->new_promo = true;
    for (auto &p : c.pcs)
      if (p && promote(text_lo + p)) g->new_promo = true;
  }
}

inline bool monitored() {
  return g != nullptr && g->in_region && g->exploring && !g->ranks_mode && g->f[g->cur].rt_depth == 0;
}

// A busy-waiting loop that copies what it reads into a local variable is still only waiting.
inline bool own_stack(const Fiber &f, uintptr_t a) {
  uintptr_t sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  uintptr_t hi = f.stack != nullptr && sp - reinterpret_cast<uintptr_t>(f.stack) < kStack + 4096 ? reinterpret_cast<uintptr_t>(f.stack) + 4096 + kStack : sp + (1 << 20);
  return a >= sp && a < hi;
}

// called before an access; write: this access may modify memory; spin: load or failed CAS
void access(const volatile void *a, uintptr_t pc, bool write, bool atomic) {
  Fiber &f = g->f[g->cur];
  if (!write && atomic) {
    if (f.spin_addr == const_cast<const void *>(a)) {
      if (++f.spin_cnt >= (is_promoted(pc) ? 4 : 64)) { // busy waiting: sleep until somebody writes
        if (promote(pc)) g->new_promo = true;
        f.spin_cnt = 0;
        f.spinning = true;
        f.spin_writes = g->writes;
      }
    } else {
      f.spin_addr = const_cast<const void *>(a);
      f.spin_cnt = 0;
    }
  }
  if (is_promoted(pc)) point(const_cast<const void *>(a));
  if (write && !(!atomic && own_stack(f, reinterpret_cast<uintptr_t>(a)))) { ++g->writes; if (!atomic) f.spin_addr = nullptr; }
  monitor(reinterpret_cast<uintptr_t>(a), pc, write);
}

void run_once(const std::function<void()> &body) {
  g->pos = 0;
  g->deviations = 0;
  g->steps = 0;
  g->new_promo = false;
  g->f[0].rt_depth = 0;
  g->exploring = true;
  try {
    body();
  } catch (const std::exception &e) {
    report(std::string("uncaught exception: ") + e.what());
  } catch (...) {
    report("uncaught exception");
  }
  g->exploring = false;
  ++g->execs;
  if (g->deviations) ++g->preemptive;
  if (g->pos < g->prefix) {
    printf("DIVERGENCE scenario=%s: execution ended after %zu of %zu forced choices\n", g->scen.c_str(), g->pos, g->prefix);
    fflush(stdout);
    _exit(5);
  }
  if (static_cast<long>(g->pos) > g->maxdepth) g->maxdepth = static_cast<long>(g->pos);
}

bool advance(int bound) {
  while (!g->trace.empty()) {
    Choice &c = g->trace.back();
    if (c.c + 1 < c.n && (c.c > 0 || c.before + c.cost <= bound)) {
      ++c.c;
      g->prefix = g->trace.size();
      return true;
    }
    g->trace.pop_back();
  }
  return false;
}

} // namespace

// ------------------------------------------------------------------ API
Config &cfg() { return g->cfg; }
int workers() { return g && g->cfg.workers > 0 ? g->cfg.workers : 1; }
int self() { return g && !g->ranks_mode ? g->cur : 0; }
int slot() { return !g ? 0 : g->ranks_mode ? std::max(0, g->cur - 1) : g->cur; }
bool in_parallel() { return g && g->in_region; }
bool thorough() { return g->thorough; }
unsigned seed() { return g->seed; }
const std::string &scratch() {
  if (g->scratch.empty()) {
    char t[] = "/tmp/kvmc.XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); _exit(70); }
    g->scratch = t;
  }
  return g->scratch;
}

int num_chunks(size_t n) {
  size_t c = g->cfg.chunks > 0 ? static_cast<size_t>(g->cfg.chunks) : static_cast<size_t>(2 * workers());
  if (workers() == 1 && g->cfg.chunks <= 0) c = 1;
  return static_cast<int>(n < c ? n : c);
}

void region(int n, void (*fn)(void *, int), void *ctx) {
  if (g == nullptr || g->in_region || n <= 1 || workers() == 1) {
    if (g != nullptr && g->cfg.reverse && !g->in_region) {
      for (int i = n; i-- > 0;) fn(ctx, i);
    } else {
      for (int i = 0; i < n; ++i) fn(ctx, i);
    }
    return;
  }
  start_region(workers(), false, n, fn, ctx);
  run_chunks(0);
  ++g->writes;
  join_region();
}

void run_ranks(int n, const std::function<void(int)> &f) {
  struct C { const std::function<void(int)> *f; } c{&f};
  start_region(n + 1, true, n, [](void *p, int r) { (*static_cast<C *>(p)->f)(r); }, &c);
  join_region();
}

void on_each_worker(const std::function<void()> &f) {
  auto saved = g->cfg;
  g->cfg.assign = Assign::RoundRobin;
  g->cfg.preemptions = 0;
  const bool ex = g->exploring;
  g->exploring = false;
  struct C { const std::function<void()> *f; } c{&f};
  region(workers(), [](void *p, int) { (*static_cast<C *>(p)->f)(); }, &c);
  g->exploring = ex;
  g->cfg = saved;
}

void point(const void *) {
  if (!g->exploring || !g->in_region) return;
  ++g->steps;
  ++g->transitions;
  if (g->steps > g->cfg.horizon) {
    std::string st;
    for (int i = 0; i < g->nfibers; ++i) st += " " + std::to_string(i) + (i == g->cur ? "*" : "") + ":" + std::to_string(static_cast<int>(g->f[i].st)) + (g->f[i].spinning ? "s" : "") + std::to_string(g->f[i].spin_writes);
    report("livelock: more than " + std::to_string(g->cfg.horizon) + " scheduling points in one execution (workers" + st + ", writes " + std::to_string(g->writes) + ", deviations " + std::to_string(g->deviations) + ")");
  }
  if (g->f[g->cur].spinning || g->deviations < g->cfg.preemptions) schedule();
}

void block_while(bool (*blocked)(void *), void *ctx) {
  while (blocked(ctx)) {
    if (!g->in_region) report("deadlock: blocking operation outside any parallel region");
    Fiber &f = g->f[g->cur];
    f.st = St::Blocked;
    f.blocked = blocked;
    f.bctx = ctx;
    schedule();
  }
}

RtGuard::RtGuard() { if (g) ++g->f[g->cur].rt_depth; }
RtGuard::~RtGuard() { if (g) --g->f[g->cur].rt_depth; }

int choose(int n, const char *tag, int cost) {
  uint32_t h = mix(99, n);
  for (const char *p = tag; *p; ++p) h = mix(h, static_cast<unsigned char>(*p));
  if (n <= 0) report("harness: choose(0)");
  if (cost && g->deviations + cost > g->cfg.preemptions && g->pos >= g->prefix) return 0;
  int k = take_choice(n, cost, h);
  return k;
}

void fail(const std::string &msg) { report(msg); }
void fail_if(bool bad, const char *msg) { if (bad) report(msg); }
void observe(uint64_t h) { g->outcomes.insert(mix(static_cast<uint32_t>(g->scen_index), h) ^ (h << 7)); }
void sample(const std::string &s) {
  if (g->nsamples >= 3) return;
  if (g->nsamples++) g->samples += ",";
  append_json_string(g->samples, g->scen + ": " + s);
}
void count_steps(long n) { g->transitions += n; }
void count_case(long n) { g->cases += n; }
void label(const std::string &what) {
  const size_t n = std::min(what.size(), sizeof g_label - 1);
  memcpy(g_label, what.data(), n);
  g_label[n] = 0;
}
void watchdog(int seconds) { g->wd_limit = seconds; }

void finding(const std::string &key, const std::string &msg) {
  const std::string needle = "known: property=" + g->prop + " key=" + key + " ";
  size_t at = g->known.find(needle);
  if (at == std::string::npos || (at > 0 && g->known[at - 1] != '\n')) report("[" + key + "] " + msg);
  if (g->known_printed.find("|" + key + "|") == std::string::npos) {
    g->known_printed += "|" + key + "|";
    size_t e = g->known.find('\n', at);
    std::string rest = g->known.substr(at + needle.size(), e - at - needle.size());
    printf("KNOWN-FINDING: property=%s %s: %s\n", g->prop.c_str(), key.c_str(), rest.c_str());
    fflush(stdout);
  }
}

bool explore(const std::string &name, const Config &c, const std::function<void()> &body) {
  ++g->scen_index;
  if (g->replay) {
    if (name != g->replay_scen) return false;
    g->scen = name;
    g->cfg = c;
    g->cfg.preemptions = g->replay_bound;
    if (c.workers > kMaxFibers) { printf("too many workers\n"); _exit(70); }
    g->trace = g->replay_trace;
    g->prefix = g->trace.size();
    run_once(body);
    printf("REPLAY-OK scenario=%s\n", name.c_str());
    fflush(stdout);
    _exit(0);
  }
  if (g->claims == nullptr && g->scen_index % g->nshards != g->shard) return false;
  if (!g->only.empty() && name.find(g->only) == std::string::npos) return false;
  if (g->claims != nullptr && g->scen_index < kClaims && __atomic_exchange_n(g->claims + g->scen_index, (char)1, __ATOMIC_SEQ_CST)) return false;
  ++g->scenarios;
  g->scen = name;
  for (auto &w : *promoted_bits) w.v = 0;
  long here = 0;
  bool capped = false;
  const auto t0 = std::chrono::steady_clock::now();
  for (int b = 0; b <= c.preemptions && !capped;) {
    g->cfg = c;
    g->cfg.preemptions = b;
    g->trace.clear();
    g->prefix = 0;
    bool restart = false;
    do {
      run_once(body);
      ++here;
      if (g->new_promo && c.preemptions > 0) { restart = true; break; }
      if (here >= c.max_exec) { capped = true; break; }
    } while (advance(b));
    if (restart) { ++g->restarts; continue; }
    ++b;
  }
  if (capped) ++g->capped;
  static const bool times = getenv("KV_TIMES") != nullptr;
  if (times)
    fprintf(stderr, "%8.3f s %6ld exec%s  %s\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), here, capped ? " CAPPED" : "", name.c_str());
  g->cfg = Config{};
  return true;
}

} // namespace mc

// ------------------------------------------------------------------ assertion hook
extern "C" [[noreturn]] void kv_assert_failed(const char *expr, const char *file, int line, const char *msg) {
  const char *s = strstr(file, "/src/");
  mc::report(std::string("assertion failed: ") + expr + " (" + (s ? s + 5 : file) + ":" + std::to_string(line) + ") " + (msg ? msg : ""));
}

// ------------------------------------------------------------------ free
#ifndef KV_ASAN
extern "C" void free(void *p) {
  using namespace mc;
  if (p == nullptr) return;
  if (g != nullptr && g->in_region && g->exploring && !g->ranks_mode && quarantine != nullptr && quarantined < kQuarantine) {
    quarantine[quarantined++] = p;
    return;
  }
  __libc_free(p);
}
#endif

// ------------------------------------------------------------------ pthread mutexes (std::mutex)
extern "C" {
static bool kv_mx_blocked(void *m) { return static_cast<pthread_mutex_t *>(m)->__data.__lock != 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  using namespace mc;
  auto &d = m->__data;
  int me = g ? g->cur + 1 : 1;
  if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && d.__lock && d.__owner == me) { ++d.__count; return 0; }
  if (g && g->in_region) {
    if (g->f[g->cur].rt_depth == 0) point(m);
    block_while(kv_mx_blocked, m);
  } else if (d.__lock && g) {
    report("deadlock: mutex locked twice");
  }
  d.__lock = 1;
  d.__owner = me;
  d.__count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  using namespace mc;
  auto &d = m->__data;
  int me = g ? g->cur + 1 : 1;
  if (g && g->in_region && g->f[g->cur].rt_depth == 0) point(m);
  if (d.__lock) {
    if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && d.__owner == me) { ++d.__count; return 0; }
    return EBUSY;
  }
  d.__lock = 1;
  d.__owner = me;
  d.__count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  using namespace mc;
  auto &d = m->__data;
  if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && --d.__count > 0) return 0;
  d.__lock = 0;
  d.__owner = 0;
  if (g) ++g->writes;
  return 0;
}

// ------------------------------------------------------------------ instrumentation entry points
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n)                                                                                      \
  void __tsan_read##n(void *a) { if (mc::monitored()) mc::access(a, PC, false, false); }           \
  void __tsan_write##n(void *a) { if (mc::monitored()) mc::access(a, PC, true, false); }           \
  void __tsan_unaligned_read##n(void *a) { if (mc::monitored()) mc::access(a, PC, false, false); } \
  void __tsan_unaligned_write##n(void *a) { if (mc::monitored()) mc::access(a, PC, true, false); } \
  void __tsan_volatile_read##n(void *a) { if (mc::monitored()) mc::access(a, PC, false, false); }  \
  void __tsan_volatile_write##n(void *a) { if (mc::monitored()) mc::access(a, PC, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n && mc::monitored()) mc::access(a, PC, false, false); }
void __tsan_write_range(void *a, size_t n) { if (n && mc::monitored()) mc::access(a, PC, true, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define AT(bits, T)                                                                                \
  T __tsan_atomic##bits##_load(const volatile T *a, int) {                                         \
    if (mc::monitored()) mc::access(a, PC, false, true);                                           \
    return *a;                                                                                     \
  }                                                                                                \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                      \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    *a = v;                                                                                        \
  }                                                                                                \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                      \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = v; return o;                                                                    \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                     \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = static_cast<T>(o + v); return o;                                                \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                     \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = static_cast<T>(o - v); return o;                                                \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                     \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = o & v; return o;                                                                \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                      \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = o | v; return o;                                                                \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                                     \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = o ^ v; return o;                                                                \
  }                                                                                                \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) {                                    \
    if (mc::monitored()) mc::access(a, PC, true, true);                                            \
    T o = *a; *a = static_cast<T>(~(o & v)); return o;                                             \
  }                                                                                                \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) {          \
    if (mc::monitored()) mc::cas_access(a, PC);                                                    \
    T x_; __builtin_memcpy(&x_, e, sizeof(T)); if (*a == x_) { *a = v; if (mc::g) { ++mc::g->writes; mc::g->f[mc::g->cur].spin_addr = nullptr; } return 1; } \
    { T o = *a; __builtin_memcpy(e, &o, sizeof(T)); } return 0;                                                                             \
  }                                                                                                \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) {            \
    if (mc::monitored()) mc::cas_access(a, PC);                                                    \
    T x_; __builtin_memcpy(&x_, e, sizeof(T)); if (*a == x_) { *a = v; if (mc::g) { ++mc::g->writes; mc::g->f[mc::g->cur].spin_addr = nullptr; } return 1; } \
    { T o = *a; __builtin_memcpy(e, &o, sizeof(T)); } return 0;                                                                             \
  }                                                                                                \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) {                \
    if (mc::monitored()) mc::cas_access(a, PC);                                                    \
    T o = *a;                                                                                      \
    if (o == e) { *a = v; if (mc::g) { ++mc::g->writes; mc::g->f[mc::g->cur].spin_addr = nullptr; } } \
    return o;                                                                                      \
  }
} // extern "C"
namespace mc {
namespace {
void cas_access(const volatile void *a, uintptr_t pc) {
  Fiber &f = g->f[g->cur];
  if (is_promoted(pc)) {
    if (f.spin_addr == const_cast<const void *>(a)) {
      if (++f.spin_cnt >= 4) { f.spin_cnt = 0; f.spinning = true; f.spin_writes = g->writes; }
    } else { f.spin_addr = const_cast<const void *>(a); f.spin_cnt = 0; }
    point(const_cast<const void *>(a));
  }
  monitor(reinterpret_cast<uintptr_t>(a), pc, true);
}
}
}
extern "C" {
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 kv_u128;
AT(128, kv_u128)
}

// ------------------------------------------------------------------ main
int main(int argc, char **argv) {
  using namespace mc;
  if (!getenv("KV_NOASLR")) {
    setenv("KV_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  mallopt(M_PERTURB, 0xA5);
  mallopt(M_MMAP_THRESHOLD, 1 << 26);
  mallopt(M_TRIM_THRESHOLD, 1 << 28);
  g = new Global;
  promoted_bits = new std::vector<Pc>;
  cells = new std::vector<Cell>;
  dl_iterate_phdr(phdr_cb, nullptr);
  promoted_bits->assign((text_hi - text_lo) / 64 + 2, Pc{0});
  cells->assign(1 << 16, Cell{});
  quarantine = static_cast<void **>(mmap(nullptr, kQuarantine * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  make_fiber(0);
  g->argv0 = argv[0];
  if (const char *s = getenv("VERIF_SEED")) g->seed = static_cast<unsigned>(strtoul(s, nullptr, 10));
  if (const char *s = getenv("VERIF_TIER")) g->thorough = !strcmp(s, "thorough");
  if (const char *s = getenv("KV_CLAIM")) {
    int fd = open(s, O_RDWR);
    if (fd >= 0 && ftruncate(fd, kClaims) == 0) { // otherwise: static distribution
      void *p = mmap(nullptr, kClaims, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) g->claims = static_cast<char *>(p);
      close(fd);
    }
  }
  std::string replay;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--shard") { std::string v = next(); sscanf(v.c_str(), "%d/%d", &g->shard, &g->nshards); }
    else if (a == "--property") g->prop = next();
    else if (a == "--replay-dir") g->replay_dir = next();
    else if (a == "--only") g->only = next();
    else if (a == "--thorough") g->thorough = true;
    else if (a == "--replay") replay = next();
    else if (a == "--watchdog") g->wd_limit = atoi(next().c_str());
    else if (a == "--known") {
      g->known_file = next();
      if (FILE *fp = fopen(g->known_file.c_str(), "r")) {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, fp)) > 0) g->known.append(b, n);
        fclose(fp);
      }
    }
  }
  if (!replay.empty()) {
    g->replay = true;
    FILE *fp = fopen(replay.c_str(), "r");
    if (!fp) { perror(replay.c_str()); return 70; }
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, fp) > 0) {
      std::string l = line;
      while (!l.empty() && l.back() == '\n') l.pop_back();
      if (l.rfind("property ", 0) == 0) g->prop = l.substr(9);
      else if (l.rfind("scenario ", 0) == 0) g->replay_scen = l.substr(9);
      else if (l.rfind("seed ", 0) == 0) g->seed = static_cast<unsigned>(strtoul(l.c_str() + 5, nullptr, 10));
      else if (l.rfind("thorough ", 0) == 0) g->thorough = l[9] == '1';
      else if (l.rfind("bound ", 0) == 0) g->replay_bound = atoi(l.c_str() + 6);
      else if (l.rfind("choices ", 0) == 0) {
        char *p = line + 8;
        long n = strtol(p, &p, 10);
        for (long i = 0; i < n; ++i) {
          Choice c{};
          c.c = static_cast<uint16_t>(strtoul(p, &p, 10)); ++p;
          c.n = static_cast<uint16_t>(strtoul(p, &p, 10)); ++p;
          c.tag = static_cast<uint32_t>(strtoul(p, &p, 10));
          g->replay_trace.push_back(c);
        }
      } else if (l.rfind("promoted", 0) == 0) {
        char *p = line + 8, *q;
        for (;;) {
          uintptr_t o = strtoull(p, &q, 16);
          if (q == p) break;
          p = q;
          promote(text_lo + o);
        }
      }
    }
    fclose(fp);
  }
  static char altstack[1 << 16];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_RESTART;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  mc_main();
  if (g->replay) { printf("REPLAY-SCENARIO-NOT-FOUND %s\n", g->replay_scen.c_str()); fflush(stdout); _exit(4); }
  print_stats();
  fflush(stdout);
  if (!g->scratch.empty() && g->scratch.rfind("/tmp/kvmc.", 0) == 0) {
    std::string c = "rm -rf '" + g->scratch + "'";
    (void)!system(c.c_str());
  }
  _exit(0);
}
