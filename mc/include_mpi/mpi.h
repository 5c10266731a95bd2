// Stand-in for MPI: the ranks are cooperatively scheduled fibers of one process (mc::run_ranks), each with its own
// thread-local storage. Collectives synchronise all members of a communicator and are matched strictly: two ranks that
// meet in different operations (or with different roots, reductions, counts) are reported. Point-to-point messages are
// delivered in order per (source, destination); KaMinPar never receives from MPI_ANY_SOURCE, so the outcome does not
// depend on the order in which the ranks run. What the standard leaves open is an explicit choice of the environment:
// kv_mpi::eager() decides whether sends complete immediately or only once they were received, kv_mpi::recycle() whether
// handles of freed communicators are reused.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "mc.h"

struct KvComm;
using MPI_Comm = KvComm *;
using MPI_Datatype = int;
using MPI_Op = int;
using MPI_Aint = long;
struct MPI_Status {
  int MPI_SOURCE = 0, MPI_TAG = 0, MPI_ERROR = 0;
  size_t kv_bytes = 0;
};
struct KvMessage;
using MPI_Request = std::shared_ptr<KvMessage> *;

#define MPI_COMM_NULL (static_cast<MPI_Comm>(nullptr))
#define MPI_COMM_WORLD (kv_mpi::world_comm())
#define MPI_STATUS_IGNORE (static_cast<MPI_Status *>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status *>(nullptr))
#define MPI_REQUEST_NULL (static_cast<MPI_Request>(nullptr))
#define MPI_IN_PLACE (reinterpret_cast<void *>(-1))
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_TAG (-1)
#define MPI_ANY_SOURCE (-2)
#define MPI_PROC_NULL (-3)
#define MPI_SUCCESS 0
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 256

enum : int { // kind << 16 | size
  MPI_DATATYPE_NULL = 0,
  MPI_INT8_T = 1 << 16 | 1, MPI_INT16_T = 1 << 16 | 2, MPI_INT32_T = 1 << 16 | 4, MPI_INT64_T = 1 << 16 | 8,
  MPI_UINT8_T = 2 << 16 | 1, MPI_UINT16_T = 2 << 16 | 2, MPI_UINT32_T = 2 << 16 | 4, MPI_UINT64_T = 2 << 16 | 8,
  MPI_FLOAT = 3 << 16 | 4, MPI_DOUBLE = 3 << 16 | 8, MPI_LONG_DOUBLE = 3 << 16 | 16,
  MPI_C_BOOL = 4 << 16 | 1, MPI_CXX_BOOL = 4 << 16 | 1,
  MPI_LONG_INT = 5 << 16 | 16, MPI_2INT = 6 << 16 | 8,
  MPI_FLOAT_INT = 7 << 16 | 8, MPI_DOUBLE_INT = 8 << 16 | 16, MPI_LONG_DOUBLE_INT = 9 << 16 | 32,
  KV_BYTES = 10 << 16, // contiguous, copies only
  MPI_CHAR = KV_BYTES | 1, MPI_BYTE = KV_BYTES | 1,
  MPI_INT = MPI_INT32_T, MPI_UNSIGNED = MPI_UINT32_T, MPI_LONG = MPI_INT64_T, MPI_LONG_LONG = MPI_INT64_T,
  MPI_UNSIGNED_LONG = MPI_UINT64_T, MPI_UNSIGNED_LONG_LONG = MPI_UINT64_T
};
enum : int { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR, MPI_MINLOC, MPI_MAXLOC, MPI_PROD, MPI_BAND, MPI_BOR };

struct KvMessage {
  int tag = 0;
  const char *data = nullptr;
  size_t bytes = 0;
  std::vector<char> copy;
  bool received = false;
  int type = 0;
};

struct KvCall { // one rank's arguments of a collective
  const char *what = nullptr;
  const void *sbuf = nullptr;
  void *rbuf = nullptr;
  long scount = 0, rcount = 0;
  const int *scounts = nullptr, *sdispls = nullptr, *rcounts = nullptr, *rdispls = nullptr;
  int stype = 0, rtype = 0, op = 0, root = 0;
  int color = 0, key = 0;
  MPI_Comm *out = nullptr;
};

struct KvGroup {
  int size = 0;
  std::vector<int> world; // world rank of each member
  std::vector<KvCall> calls;
  int arrived = 0, freed = 0;
  long epoch = 0;
  std::map<std::pair<int, int>, std::deque<std::shared_ptr<KvMessage>>> mail; // (source, destination)
};

struct KvComm {
  KvGroup *group = nullptr;
  int rank = 0;
  bool live = true;
  std::map<int, void *> attributes = {};
};
using MPI_Comm_copy_attr_function = int(MPI_Comm, int, void *, void *, void *, int *);
using MPI_Comm_delete_attr_function = int(MPI_Comm, int, void *, void *);
#define MPI_COMM_NULL_COPY_FN (static_cast<MPI_Comm_copy_attr_function *>(nullptr))
#define MPI_COMM_NULL_DELETE_FN (static_cast<MPI_Comm_delete_attr_function *>(nullptr))
#define MPI_KEYVAL_INVALID (-1)

namespace kv_mpi {
struct World {
  std::vector<MPI_Comm> comms;
  std::deque<std::unique_ptr<KvGroup>> groups;
  std::vector<std::vector<MPI_Comm>> freed; // per world rank
  bool eager = true, recycle = false;
  long collectives = 0, messages = 0, bytes = 0;
};
inline World *world = nullptr;
inline MPI_Comm world_comm() {
  if (world == nullptr) mc::fail("harness: MPI used outside a world");
  return world->comms[static_cast<size_t>(mc::slot())];
}
inline MPI_Comm make(KvGroup *g, const int r) {
  const size_t w = static_cast<size_t>(g->world[static_cast<size_t>(r)]);
  if (world->recycle && w < world->freed.size() && !world->freed[w].empty()) {
    MPI_Comm c = world->freed[w].back();
    world->freed[w].pop_back();
    *c = KvComm{g, r, true};
    return c;
  }
  return new KvComm{g, r, true}; // handles are never reused by another world: caches may be keyed by them
}
inline size_t size_of(const int t) { return static_cast<size_t>(t & 0xffff); }
inline std::string where(const MPI_Comm c) { return "rank " + std::to_string(c->rank) + " of " + std::to_string(c->group->size); }

template <typename T> void fold(const int op, const T &x, T &acc) {
  switch (op) {
  case MPI_SUM: acc = static_cast<T>(acc + x); break;
  case MPI_PROD: acc = static_cast<T>(acc * x); break;
  case MPI_MAX: acc = x > acc ? x : acc; break;
  case MPI_MIN: acc = x < acc ? x : acc; break;
  case MPI_LAND: acc = static_cast<T>(acc && x); break;
  case MPI_LOR: acc = static_cast<T>(acc || x); break;
  default: mc::fail("mpi: reduction " + std::to_string(op) + " is not defined for this type");
  }
}
template <typename A> struct Loc { A v; int i; };
template <typename A> void fold_loc(const int op, const Loc<A> &x, Loc<A> &acc) {
  if (op != MPI_MINLOC && op != MPI_MAXLOC) mc::fail("mpi: only MINLOC and MAXLOC are defined for pairs");
  const bool better = op == MPI_MINLOC ? x.v < acc.v : x.v > acc.v;
  if (better || (x.v == acc.v && x.i < acc.i)) acc = x;
}
template <typename T> void each(const int op, const void *x, void *acc, const long n) {
  for (long i = 0; i < n; ++i) fold<T>(op, static_cast<const T *>(x)[i], static_cast<T *>(acc)[i]);
}
template <typename A> void each_loc(const int op, const void *x, void *acc, const long n) {
  for (long i = 0; i < n; ++i) fold_loc<A>(op, static_cast<const Loc<A> *>(x)[i], static_cast<Loc<A> *>(acc)[i]);
}
inline void reduce_into(const int op, const int t, const void *x, void *acc, const long n) {
  switch (t) {
  case MPI_INT8_T: return each<int8_t>(op, x, acc, n);
  case MPI_INT16_T: return each<int16_t>(op, x, acc, n);
  case MPI_INT32_T: return each<int32_t>(op, x, acc, n);
  case MPI_INT64_T: return each<int64_t>(op, x, acc, n);
  case MPI_UINT8_T: return each<uint8_t>(op, x, acc, n);
  case MPI_UINT16_T: return each<uint16_t>(op, x, acc, n);
  case MPI_UINT32_T: return each<uint32_t>(op, x, acc, n);
  case MPI_UINT64_T: return each<uint64_t>(op, x, acc, n);
  case MPI_FLOAT: return each<float>(op, x, acc, n);
  case MPI_DOUBLE: return each<double>(op, x, acc, n);
  case MPI_LONG_DOUBLE: return each<long double>(op, x, acc, n);
  case MPI_C_BOOL: {
    for (long i = 0; i < n; ++i) {
      bool &a = static_cast<bool *>(acc)[i];
      const bool b = static_cast<const bool *>(x)[i];
      if (op == MPI_LAND) a = a && b;
      else if (op == MPI_LOR) a = a || b;
      else mc::fail("mpi: reduction " + std::to_string(op) + " is not defined for booleans");
    }
    return;
  }
  case MPI_LONG_INT: return each_loc<long>(op, x, acc, n);
  case MPI_2INT: return each_loc<int>(op, x, acc, n);
  case MPI_FLOAT_INT: return each_loc<float>(op, x, acc, n);
  case MPI_DOUBLE_INT: return each_loc<double>(op, x, acc, n);
  case MPI_LONG_DOUBLE_INT: return each_loc<long double>(op, x, acc, n);
  default: mc::fail("mpi: no reduction is defined for this type");
  }
}

inline bool waiting(void *p) {
  const auto &[g, e] = *static_cast<std::pair<KvGroup *, long> *>(p);
  return g->epoch == e;
}
inline void live(const MPI_Comm c, const char *what) {
  if (c == nullptr) mc::fail(std::string("mpi: ") + what + " on the null communicator");
  if (!c->live) mc::fail(std::string("mpi: ") + what + " on a freed communicator");
}
inline void copy(void *dst, const void *src, const size_t n) {
  if (n > 0 && dst != src) std::memmove(dst, src, n);
}
inline char *at(void *p, const long i, const int t) { return static_cast<char *>(p) + i * static_cast<long>(size_of(t)); }
inline const char *at(const void *p, const long i, const int t) { return static_cast<const char *>(p) + i * static_cast<long>(size_of(t)); }

// Runs `exec` once all members have arrived; the members' buffers are stable meanwhile.
template <typename F> int collective(MPI_Comm c, const KvCall &call, F &&exec) {
  live(c, call.what);
  KvGroup &g = *c->group;
  g.calls[static_cast<size_t>(c->rank)] = call;
  std::pair<KvGroup *, long> wait{&g, g.epoch};
  if (++g.arrived == g.size) {
    for (int r = 1; r < g.size; ++r) {
      const KvCall &a = g.calls[0], &b = g.calls[static_cast<size_t>(r)];
      if (std::strcmp(a.what, b.what) != 0)
        mc::fail(std::string("mpi: rank 0 is in ") + a.what + " while rank " + std::to_string(r) + " is in " + b.what);
      if (a.op != b.op || a.root != b.root)
        mc::fail(std::string("mpi: ") + a.what + " with different operations or roots");
    }
    exec(g);
    ++world->collectives;
    g.arrived = 0;
    ++g.epoch;
  } else {
    mc::block_while(waiting, &wait);
  }
  return MPI_SUCCESS;
}
inline void same_length(const KvGroup &g) {
  for (int r = 1; r < g.size; ++r) {
    const KvCall &a = g.calls[0], &b = g.calls[static_cast<size_t>(r)];
    if (a.scount != b.scount || a.stype != b.stype)
      mc::fail(std::string("mpi: ") + a.what + " of " + std::to_string(a.scount) + " values on rank 0 but " + std::to_string(b.scount) + " on rank " + std::to_string(r));
  }
}
inline void fits(const char *what, const int from, const int to, const long sent, const long room) {
  if (sent != room)
    mc::fail(std::string("mpi: ") + what + ": rank " + std::to_string(from) + " sends " + std::to_string(sent) + " bytes to rank " + std::to_string(to) + ", which expects " + std::to_string(room));
}
inline const void *in(const KvCall &k) { return k.sbuf == MPI_IN_PLACE ? k.rbuf : k.sbuf; }
inline std::vector<char> reduced(const KvGroup &g, const int last) {
  const KvCall &k = g.calls[0];
  std::vector<char> acc(static_cast<size_t>(k.scount) * size_of(k.stype));
  copy(acc.data(), in(k), acc.size());
  for (int r = 1; r <= last; ++r) reduce_into(k.op, k.stype, in(g.calls[static_cast<size_t>(r)]), acc.data(), k.scount);
  return acc;
}

struct Stats { long collectives = 0, messages = 0, worlds = 0; };
inline Stats stats;

// Runs f(rank) on `size` ranks and checks that nothing is left over.
inline void run(const int size, const bool eager, const bool recycle, const std::function<void(int)> &f) {
  World w;
  w.eager = eager;
  w.recycle = recycle;
  w.freed.resize(static_cast<size_t>(size));
  world = &w;
  w.groups.push_back(std::make_unique<KvGroup>());
  KvGroup &g = *w.groups.back();
  g.size = size;
  for (int r = 0; r < size; ++r) g.world.push_back(r);
  g.calls.resize(static_cast<size_t>(size));
  for (int r = 0; r < size; ++r) w.comms.push_back(make(&g, r));
  mc::run_ranks(size, f);
  for (const auto &gr : w.groups) {
    if (gr->arrived != 0) mc::fail("mpi: a collective was never completed");
    for (const auto &[k, q] : gr->mail)
      if (!q.empty()) mc::fail("mpi: a message from rank " + std::to_string(k.first) + " to rank " + std::to_string(k.second) + " was never received");
  }
  stats.collectives += w.collectives;
  stats.messages += w.messages;
  ++stats.worlds;
  mc::count_steps(w.collectives + w.messages);
  world = nullptr;
}
} // namespace kv_mpi

inline int MPI_Init_thread(int *, char ***, int, int *provided) { if (provided) *provided = MPI_THREAD_FUNNELED; return 0; }
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Abort(MPI_Comm, int) { mc::fail("mpi: MPI_Abort"); }
inline int MPI_Comm_size(MPI_Comm c, int *n) { kv_mpi::live(c, "MPI_Comm_size"); *n = c->group->size; return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { kv_mpi::live(c, "MPI_Comm_rank"); *r = c->rank; return 0; }
inline double MPI_Wtime() { return 0; }
inline int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *out) {
  const size_t s = static_cast<size_t>(n) * kv_mpi::size_of(t);
  if (s > 0xffff) mc::fail("mpi: type too large");
  *out = KV_BYTES | static_cast<int>(s);
  return 0;
}
inline int MPI_Type_commit(MPI_Datatype *) { return 0; }
inline int MPI_Type_free(MPI_Datatype *) { return 0; }
inline int MPI_Type_size(MPI_Datatype t, int *s) { *s = static_cast<int>(kv_mpi::size_of(t)); return 0; }

inline int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  KvCall k; k.what = "MPI_Comm_split"; k.color = color; k.key = key; k.out = out;
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    std::map<int, std::vector<std::pair<int, int>>> parts;
    for (int r = 0; r < g.size; ++r) {
      const KvCall &x = g.calls[static_cast<size_t>(r)];
      *x.out = MPI_COMM_NULL;
      if (x.color != MPI_UNDEFINED) parts[x.color].push_back({x.key, r});
    }
    for (auto &[color, members] : parts) {
      std::stable_sort(members.begin(), members.end());
      kv_mpi::world->groups.push_back(std::make_unique<KvGroup>());
      KvGroup &n = *kv_mpi::world->groups.back();
      n.size = static_cast<int>(members.size());
      n.calls.resize(members.size());
      for (const auto &[key, r] : members) n.world.push_back(g.world[static_cast<size_t>(r)]);
      int i = 0;
      for (const auto &[key, r] : members) *g.calls[static_cast<size_t>(r)].out = kv_mpi::make(&n, i++);
    }
  });
}
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return MPI_Comm_split(c, 0, c->rank, out); }
namespace kv_mpi {
struct Keyval {
  MPI_Comm_copy_attr_function *copy;
  MPI_Comm_delete_attr_function *del;
  void *extra;
};
inline std::deque<Keyval> keyvals;
inline void drop_attributes(MPI_Comm c) {
  auto attributes = std::move(c->attributes);
  c->attributes.clear();
  for (auto &[key, value] : attributes)
    if (const Keyval &k = keyvals[static_cast<size_t>(key)]; k.del != nullptr) k.del(c, key, value, k.extra);
}
} // namespace kv_mpi
inline int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *copy, MPI_Comm_delete_attr_function *del, int *key, void *extra) {
  mc::RtGuard guard;
  kv_mpi::keyvals.push_back({copy, del, extra});
  *key = static_cast<int>(kv_mpi::keyvals.size()) - 1;
  return MPI_SUCCESS;
}
inline int MPI_Comm_free_keyval(int *key) { *key = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
inline int MPI_Comm_set_attr(MPI_Comm c, int key, void *value) {
  kv_mpi::live(c, "MPI_Comm_set_attr");
  if (auto it = c->attributes.find(key); it != c->attributes.end())
    if (const auto &k = kv_mpi::keyvals[static_cast<size_t>(key)]; k.del != nullptr) k.del(c, key, it->second, k.extra);
  c->attributes[key] = value;
  return MPI_SUCCESS;
}
inline int MPI_Comm_get_attr(MPI_Comm c, int key, void *value, int *found) {
  kv_mpi::live(c, "MPI_Comm_get_attr");
  const auto it = c->attributes.find(key);
  *found = it != c->attributes.end();
  if (*found) *static_cast<void **>(value) = it->second;
  return MPI_SUCCESS;
}
inline int MPI_Comm_delete_attr(MPI_Comm c, int key) {
  kv_mpi::live(c, "MPI_Comm_delete_attr");
  const auto it = c->attributes.find(key);
  if (it == c->attributes.end()) mc::fail("mpi: MPI_Comm_delete_attr of an attribute that is not set");
  if (const auto &k = kv_mpi::keyvals[static_cast<size_t>(key)]; k.del != nullptr) k.del(c, key, it->second, k.extra);
  c->attributes.erase(it);
  return MPI_SUCCESS;
}
inline int MPI_Comm_free(MPI_Comm *c) {
  kv_mpi::live(*c, "MPI_Comm_free");
  kv_mpi::drop_attributes(*c);
  (*c)->live = false;
  kv_mpi::world->freed[static_cast<size_t>((*c)->group->world[static_cast<size_t>((*c)->rank)])].push_back(*c);
  *c = MPI_COMM_NULL;
  return 0;
}
inline int MPI_Barrier(MPI_Comm c) { KvCall k; k.what = "MPI_Barrier"; return kv_mpi::collective(c, k, [](KvGroup &) {}); }
inline int MPI_Bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm c) {
  KvCall k; k.what = "MPI_Bcast"; k.sbuf = buf; k.rbuf = buf; k.scount = n; k.stype = t; k.root = root;
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    kv_mpi::same_length(g);
    const KvCall &s = g.calls[static_cast<size_t>(g.calls[0].root)];
    for (KvCall &r : g.calls) kv_mpi::copy(r.rbuf, s.sbuf, static_cast<size_t>(s.scount) * kv_mpi::size_of(s.stype));
  });
}
inline int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  KvCall k; k.what = "MPI_Reduce"; k.sbuf = s; k.rbuf = r; k.scount = n; k.stype = t; k.op = op; k.root = root;
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    kv_mpi::same_length(g);
    const auto acc = kv_mpi::reduced(g, g.size - 1);
    kv_mpi::copy(g.calls[static_cast<size_t>(g.calls[0].root)].rbuf, acc.data(), acc.size());
  });
}
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  KvCall k; k.what = "MPI_Allreduce"; k.sbuf = s; k.rbuf = r; k.scount = n; k.stype = t; k.op = op;
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    kv_mpi::same_length(g);
    const auto acc = kv_mpi::reduced(g, g.size - 1);
    for (KvCall &x : g.calls) kv_mpi::copy(x.rbuf, acc.data(), acc.size());
  });
}
inline int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  KvCall k; k.what = "MPI_Scan"; k.sbuf = s; k.rbuf = r; k.scount = n; k.stype = t; k.op = op;
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    kv_mpi::same_length(g);
    std::vector<std::vector<char>> acc;
    for (int i = 0; i < g.size; ++i) acc.push_back(kv_mpi::reduced(g, i));
    for (int i = 0; i < g.size; ++i) kv_mpi::copy(g.calls[static_cast<size_t>(i)].rbuf, acc[static_cast<size_t>(i)].data(), acc[static_cast<size_t>(i)].size());
  });
}
inline int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { // rank 0: undefined, left as is
  KvCall k; k.what = "MPI_Exscan"; k.sbuf = s; k.rbuf = r; k.scount = n; k.stype = t; k.op = op;
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    kv_mpi::same_length(g);
    std::vector<std::vector<char>> acc;
    for (int i = 0; i < g.size; ++i) acc.push_back(kv_mpi::reduced(g, i));
    for (int i = 1; i < g.size; ++i) kv_mpi::copy(g.calls[static_cast<size_t>(i)].rbuf, acc[static_cast<size_t>(i - 1)].data(), acc[static_cast<size_t>(i - 1)].size());
  });
}
inline int MPI_Reduce_scatter(const void *s, void *r, const int *counts, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  KvCall k; k.what = "MPI_Reduce_scatter"; k.sbuf = s; k.rbuf = r; k.rcounts = counts; k.stype = t; k.op = op;
  for (int i = 0; i < c->group->size; ++i) k.scount += counts[i];
  return kv_mpi::collective(c, k, [](KvGroup &g) {
    kv_mpi::same_length(g);
    const auto acc = kv_mpi::reduced(g, g.size - 1);
    long d = 0;
    for (int i = 0; i < g.size; ++i) {
      const KvCall &x = g.calls[static_cast<size_t>(i)];
      kv_mpi::copy(x.rbuf, kv_mpi::at(acc.data(), d, x.stype), static_cast<size_t>(g.calls[0].rcounts[i]) * kv_mpi::size_of(x.stype));
      d += g.calls[0].rcounts[i];
    }
  });
}
namespace kv_mpi {
inline int gather(MPI_Comm c, KvCall k, const bool all) {
  return collective(c, k, [all](KvGroup &g) {
    for (int to = 0; to < g.size; ++to) {
      if (!all && to != g.calls[0].root) continue;
      const KvCall &r = g.calls[static_cast<size_t>(to)];
      for (int from = 0; from < g.size; ++from) {
        const KvCall &s = g.calls[static_cast<size_t>(from)];
        const long n = r.rcounts ? r.rcounts[from] : r.rcount, d = r.rdispls ? r.rdispls[from] : from * r.rcount;
        const long room = n * static_cast<long>(size_of(r.rtype));
        if (s.sbuf == MPI_IN_PLACE) {
          if (from != to) {
            const long o = s.rdispls ? s.rdispls[from] : from * s.rcount;
            copy(at(r.rbuf, d, r.rtype), at(s.rbuf, o, s.rtype), static_cast<size_t>(room));
          }
          continue;
        }
        fits(r.what, from, to, s.scount * static_cast<long>(size_of(s.stype)), room);
        copy(at(r.rbuf, d, r.rtype), s.sbuf, static_cast<size_t>(room));
      }
    }
  });
}
inline int scatter(MPI_Comm c, KvCall k) {
  return collective(c, k, [](KvGroup &g) {
    const int root = g.calls[0].root;
    const KvCall &s = g.calls[static_cast<size_t>(root)];
    for (int to = 0; to < g.size; ++to) {
      const KvCall &r = g.calls[static_cast<size_t>(to)];
      if (r.rbuf == MPI_IN_PLACE) continue;
      const long n = s.scounts ? s.scounts[to] : s.scount, d = s.sdispls ? s.sdispls[to] : to * s.scount;
      const long bytes = n * static_cast<long>(size_of(s.stype));
      fits(s.what, root, to, bytes, r.rcount * static_cast<long>(size_of(r.rtype)));
      copy(r.rbuf, at(s.sbuf, d, s.stype), static_cast<size_t>(bytes));
    }
  });
}
inline int alltoall(MPI_Comm c, KvCall k) {
  return collective(c, k, [](KvGroup &g) {
    for (int to = 0; to < g.size; ++to) {
      const KvCall &r = g.calls[static_cast<size_t>(to)];
      for (int from = 0; from < g.size; ++from) {
        const KvCall &s = g.calls[static_cast<size_t>(from)];
        if (s.sbuf == MPI_IN_PLACE) mc::fail("mpi: MPI_IN_PLACE is not supported here");
        const long n = s.scounts ? s.scounts[to] : s.scount, d = s.sdispls ? s.sdispls[to] : to * s.scount;
        const long m = r.rcounts ? r.rcounts[from] : r.rcount, e = r.rdispls ? r.rdispls[from] : from * r.rcount;
        const long bytes = n * static_cast<long>(size_of(s.stype));
        fits(r.what, from, to, bytes, m * static_cast<long>(size_of(r.rtype)));
        copy(at(r.rbuf, e, r.rtype), at(s.sbuf, d, s.stype), static_cast<size_t>(bytes));
        ++world->messages;
      }
    }
  });
}
} // namespace kv_mpi
inline int MPI_Gather(const void *s, int n, MPI_Datatype st, void *r, int m, MPI_Datatype rt, int root, MPI_Comm c) {
  KvCall k; k.what = "MPI_Gather"; k.sbuf = s; k.scount = n; k.stype = st; k.rbuf = r; k.rcount = m; k.rtype = rt; k.root = root;
  return kv_mpi::gather(c, k, false);
}
inline int MPI_Gatherv(const void *s, int n, MPI_Datatype st, void *r, const int *m, const int *d, MPI_Datatype rt, int root, MPI_Comm c) {
  KvCall k; k.what = "MPI_Gatherv"; k.sbuf = s; k.scount = n; k.stype = st; k.rbuf = r; k.rcounts = m; k.rdispls = d; k.rtype = rt; k.root = root;
  return kv_mpi::gather(c, k, false);
}
inline int MPI_Allgather(const void *s, int n, MPI_Datatype st, void *r, int m, MPI_Datatype rt, MPI_Comm c) {
  KvCall k; k.what = "MPI_Allgather"; k.sbuf = s; k.scount = n; k.stype = st; k.rbuf = r; k.rcount = m; k.rtype = rt;
  return kv_mpi::gather(c, k, true);
}
inline int MPI_Allgatherv(const void *s, int n, MPI_Datatype st, void *r, const int *m, const int *d, MPI_Datatype rt, MPI_Comm c) {
  KvCall k; k.what = "MPI_Allgatherv"; k.sbuf = s; k.scount = n; k.stype = st; k.rbuf = r; k.rcounts = m; k.rdispls = d; k.rtype = rt;
  return kv_mpi::gather(c, k, true);
}
inline int MPI_Scatter(const void *s, int n, MPI_Datatype st, void *r, int m, MPI_Datatype rt, int root, MPI_Comm c) {
  KvCall k; k.what = "MPI_Scatter"; k.sbuf = s; k.scount = n; k.stype = st; k.rbuf = r; k.rcount = m; k.rtype = rt; k.root = root;
  return kv_mpi::scatter(c, k);
}
inline int MPI_Scatterv(const void *s, const int *n, const int *d, MPI_Datatype st, void *r, int m, MPI_Datatype rt, int root, MPI_Comm c) {
  KvCall k; k.what = "MPI_Scatterv"; k.sbuf = s; k.scounts = n; k.sdispls = d; k.stype = st; k.rbuf = r; k.rcount = m; k.rtype = rt; k.root = root;
  return kv_mpi::scatter(c, k);
}
inline int MPI_Alltoall(const void *s, int n, MPI_Datatype st, void *r, int m, MPI_Datatype rt, MPI_Comm c) {
  KvCall k; k.what = "MPI_Alltoall"; k.sbuf = s; k.scount = n; k.stype = st; k.rbuf = r; k.rcount = m; k.rtype = rt;
  return kv_mpi::alltoall(c, k);
}
inline int MPI_Alltoallv(const void *s, const int *n, const int *sd, MPI_Datatype st, void *r, const int *m, const int *rd, MPI_Datatype rt, MPI_Comm c) {
  KvCall k; k.what = "MPI_Alltoallv"; k.sbuf = s; k.scounts = n; k.sdispls = sd; k.stype = st; k.rbuf = r; k.rcounts = m; k.rdispls = rd; k.rtype = rt;
  return kv_mpi::alltoall(c, k);
}

// ---------------------------------------------------------------- point to point
inline int MPI_Isend(const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request *req) {
  kv_mpi::live(c, "MPI_Isend");
  if (dest < 0 || dest >= c->group->size) mc::fail("mpi: message to a rank that does not exist: " + std::to_string(dest));
  auto m = std::make_shared<KvMessage>();
  m->tag = tag;
  m->bytes = static_cast<size_t>(n) * kv_mpi::size_of(t);
  m->data = static_cast<const char *>(buf);
  m->type = t;
  if (kv_mpi::world->eager) {
    m->copy.assign(m->data, m->data + m->bytes);
    m->data = m->copy.data();
  }
  ++kv_mpi::world->messages;
  c->group->mail[{c->rank, dest}].push_back(m);
  *req = new std::shared_ptr<KvMessage>(m);
  return 0;
}
inline int MPI_Wait(MPI_Request *req, MPI_Status *) {
  if (*req == MPI_REQUEST_NULL) return 0;
  if (!kv_mpi::world->eager)
    mc::block_while([](void *p) { return !static_cast<KvMessage *>(p)->received; }, (*req)->get());
  delete *req;
  *req = MPI_REQUEST_NULL;
  return 0;
}
inline int MPI_Waitall(int n, MPI_Request *reqs, MPI_Status *) {
  for (int i = 0; i < n; ++i) MPI_Wait(reqs + i, MPI_STATUS_IGNORE);
  return 0;
}
inline int MPI_Send(const void *buf, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  MPI_Request r;
  MPI_Isend(buf, n, t, dest, tag, c, &r);
  return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
namespace kv_mpi {
struct Match { MPI_Comm c; int source, tag; };
inline std::shared_ptr<KvMessage> *find(const Match &m) {
  auto it = m.c->group->mail.find({m.source, m.c->rank});
  if (it == m.c->group->mail.end()) return nullptr;
  for (auto &x : it->second)
    if (m.tag == MPI_ANY_TAG || m.tag == x->tag) return &x;
  return nullptr;
}
inline std::shared_ptr<KvMessage> await(MPI_Comm c, int source, int tag, const char *what) {
  live(c, what);
  if (source < 0 || source >= c->group->size) mc::fail("mpi: receive from a rank that does not exist: " + std::to_string(source));
  Match m{c, source, tag};
  mc::block_while([](void *p) { return find(*static_cast<Match *>(p)) == nullptr; }, &m);
  return *find(m);
}
inline void fill(MPI_Status *s, const int source, const KvMessage &m) {
  if (s == MPI_STATUS_IGNORE) return;
  s->MPI_SOURCE = source;
  s->MPI_TAG = m.tag;
  s->kv_bytes = m.bytes;
}
} // namespace kv_mpi
inline int MPI_Probe(int source, int tag, MPI_Comm c, MPI_Status *s) {
  kv_mpi::fill(s, source, *kv_mpi::await(c, source, tag, "MPI_Probe"));
  return 0;
}
inline int MPI_Recv(void *buf, int n, MPI_Datatype t, int source, int tag, MPI_Comm c, MPI_Status *s) {
  auto m = kv_mpi::await(c, source, tag, "MPI_Recv");
  if (m->bytes > static_cast<size_t>(n) * kv_mpi::size_of(t)) mc::fail("mpi: message truncated");
  kv_mpi::copy(buf, m->data, m->bytes);
  m->received = true;
  auto &q = c->group->mail[{source, c->rank}];
  for (auto it = q.begin(); it != q.end(); ++it)
    if (*it == m) { q.erase(it); break; }
  kv_mpi::fill(s, source, *m);
  return 0;
}
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) {
  *n = s->kv_bytes % kv_mpi::size_of(t) == 0 ? static_cast<int>(s->kv_bytes / kv_mpi::size_of(t)) : MPI_UNDEFINED;
  return 0;
}
