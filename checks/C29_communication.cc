// C29: communication between ranks delivers exactly the messages that were sent.
#include "kaminpar-common/datastructures/static_array.h"
#include "dist.h"

#include "kaminpar-dist/graphutils/communication.h"

#include "kaminpar-mpi/binary_reduction_tree.h"
#include "kaminpar-mpi/grid_topology.h"
#include "kaminpar-mpi/sparse_allreduce.h"
#include "kaminpar-mpi/sparse_alltoall.h"

using namespace kd;

namespace {
struct Msg {
  int from, to, index;
  bool operator==(const Msg &o) const { return from == o.from && to == o.to && index == o.index; }
};
using Buffer = kaminpar::NoinitVector<Msg>;
using Matrix = std::vector<std::vector<int>>; // number of messages from, to

std::string str(const Matrix &m) {
  std::string o;
  for (auto &r : m) o += kv::vec(r);
  return o;
}
Buffer message(const Matrix &m, const int from, const int to) {
  Buffer b;
  for (int i = 0; i < m[static_cast<size_t>(from)][static_cast<size_t>(to)]; ++i) b.push_back({from, to, i});
  return b;
}
template <typename B> void expect(const B &b, const Matrix &m, const int from, const int to, const std::string &where) {
  MC_CHECK(b.size() == static_cast<size_t>(m[from][to]), where + ": rank " + std::to_string(to) + " received " + std::to_string(b.size()) + " messages from rank " + std::to_string(from));
  for (size_t i = 0; i < b.size(); ++i) MC_CHECK((b[i] == Msg{from, to, static_cast<int>(i)}), where + ": rank " + std::to_string(to) + " received the message " + std::to_string(b[i].from) + ">" + std::to_string(b[i].to) + "#" + std::to_string(b[i].index) + " from rank " + std::to_string(from) + " at position " + std::to_string(i));
}

enum Algo { Grid, Alltoallv, Complete, Auto, Get, GetRvalue, Dense, kAlgos };
const char *const kNames[] = {"grid", "alltoallv", "complete", "automatic", "get", "get (moved)", "sparse_alltoallv"};

void exchange(const Matrix &m, const int rank, const Algo a, const bool move, const bool with_pe, MPI_Comm comm, const std::string &where) {
  const int p = static_cast<int>(m.size());
  std::vector<Buffer> send;
  for (int to = 0; to < p; ++to) send.push_back(message(m, rank, to));
  std::vector<int> calls(static_cast<size_t>(p), 0);
  std::vector<Msg> got;
  const auto with = [&](auto b, const kmpi::PEID pe) {
    MC_CHECK(pe >= 0 && pe < p, where + ": message from rank " + std::to_string(pe));
    ++calls[static_cast<size_t>(pe)];
    expect(b, m, pe, rank, where);
  };
  const auto without = [&](auto b) { got.insert(got.end(), b.begin(), b.end()); };
  const auto go = [&](auto &&buffers, auto &&recv) {
    using S = decltype(buffers);
    switch (a) {
    case Grid: kmpi::sparse_alltoall<Msg, Buffer>(kmpi::tag::grid, std::forward<S>(buffers), recv, comm); break;
    case Alltoallv: kmpi::sparse_alltoall<Msg, Buffer>(kmpi::tag::alltoallv, std::forward<S>(buffers), recv, comm); break;
    case Complete: kmpi::sparse_alltoall<Msg, Buffer>(kmpi::tag::complete_send_recv, std::forward<S>(buffers), recv, comm); break;
    default: kmpi::sparse_alltoall<Msg, Buffer>(std::forward<S>(buffers), recv, comm); break;
    }
  };
  if (a == Get || a == GetRvalue) {
    const auto r = a == Get ? kmpi::sparse_alltoall_get<Msg, Buffer>(send, comm) : kmpi::sparse_alltoall_get<Msg, Buffer>(std::move(send), comm);
    MC_CHECK(static_cast<int>(r.size()) == p, where + ": number of receive buffers");
    for (int from = 0; from < p; ++from) expect(r[static_cast<size_t>(from)], m, from, rank, where);
  } else if (a == Dense) {
    std::vector<int> sc, sd, rc, rd;
    std::vector<Msg> out;
    int r = 0;
    for (int x = 0; x < p; ++x) {
      sc.push_back(m[rank][x]);
      sd.push_back(static_cast<int>(out.size()));
      for (const Msg &y : send[static_cast<size_t>(x)]) out.push_back(y);
      rc.push_back(m[x][rank]);
      rd.push_back(r);
      r += m[x][rank];
    }
    std::vector<Msg> in(static_cast<size_t>(r), Msg{-1, -1, -1});
    kmpi::sparse_alltoallv<Msg>(out.data(), sc.data(), sd.data(), in.data(), rc.data(), rd.data(), comm);
    for (int x = 0; x < p; ++x) expect(std::vector<Msg>(in.begin() + rd[static_cast<size_t>(x)], in.begin() + rd[static_cast<size_t>(x)] + rc[static_cast<size_t>(x)]), m, x, rank, where);
  } else {
    if (with_pe && move) go(std::move(send), with);
    else if (with_pe) go(std::as_const(send), with);
    else if (move) go(std::move(send), without);
    else go(std::as_const(send), without);
    if (with_pe)
      for (int from = 0; from < p; ++from) {
        // every rank with messages is reported exactly once (ranks without messages may be left out)
        const int c = calls[static_cast<size_t>(from)];
        MC_CHECK(c == 1 || (c == 0 && m[from][rank] == 0), where + ": receiver called " + std::to_string(c) + " times for rank " + std::to_string(from));
      }
    else {
      size_t total = 0;
      for (int from = 0; from < p; ++from) {
        total += static_cast<size_t>(m[from][rank]);
        for (int i = 0; i < m[from][rank]; ++i) MC_CHECK(std::count(got.begin(), got.end(), Msg{from, rank, i}) == 1, where + ": message not delivered exactly once");
      }
      MC_CHECK(got.size() == total, where + ": surplus messages");
    }
    if (!move)
      for (int to = 0; to < p; ++to) MC_CHECK(send[static_cast<size_t>(to)].size() == static_cast<size_t>(m[rank][to]), where + ": the caller's buffers were changed");
  }
}

void all_ways(const Matrix &m, const bool eager, const bool every) {
  const int p = static_cast<int>(m.size());
  kv_mpi::run(p, eager, false, [&](const int rank) {
    for (int a = 0; a < kAlgos; ++a)
      for (int form = 0; form < 4; ++form) {
        if (a > Auto && form) continue;
        if (!every && form != (a + p) % 4 && a <= Auto) continue;
        exchange(m, rank, static_cast<Algo>(a), form & 1, !(form & 2), MPI_COMM_WORLD,
                 std::string(kNames[a]) + (form & 1 ? " moved" : "") + (form & 2 ? " without rank" : "") + (eager ? "" : " rendezvous") + " p=" + std::to_string(p) + " counts " + str(m));
      }
  });
  mc::count_case();
}

// A reduction along a tree combines every rank's contribution exactly once and delivers it to rank 0.
void reduction(const int p, const std::vector<int> &sizes, const bool eager) {
  const std::string where = "binary reduction p=" + std::to_string(p) + " sizes " + kv::vec(sizes);
  kv_mpi::run(p, eager, false, [&](const int rank) {
    kaminpar::NoinitVector<int> mine, none;
    for (int i = 0; i < sizes[static_cast<size_t>(rank)]; ++i) mine.push_back(100 * rank + i);
    int combined = 0;
    const auto r = kmpi::perform_binary_reduction(std::move(mine), std::move(none), [&](auto a, auto b) {
      for (const int x : b) a.push_back(x);
      ++combined;
      return a;
    }, MPI_COMM_WORLD);
    if (rank == 0) {
      std::vector<int> got(r.begin(), r.end()), want;
      for (int q = 0; q < p; ++q)
        for (int i = 0; i < sizes[static_cast<size_t>(q)]; ++i) want.push_back(100 * q + i);
      std::sort(got.begin(), got.end());
      MC_CHECK(got == want, where + ": root has " + kv::vec(got) + " instead of " + kv::vec(want));
      MC_CHECK(combined >= 1, where + ": the root never combines");
    }
  });
  mc::count_case();
}

// Messages along the edges of a distributed graph
struct EdgeMsg {
  GlobalNodeID u, v;
  long w;
};
void edges(const RefGraph &g, const Spread &s, const bool comp, const int filter, const int from_f, const int to_f, const bool eager) {
  const int p = static_cast<int>(s.size()) - 1;
  const std::string where = g.str() + " " + kd::str(s) + " filter " + std::to_string(filter) + " range " + std::to_string(from_f) + "," + std::to_string(to_f);
  const auto keep = [&](const int gu) { return filter == 0 || (filter == 1 && gu % 2 == 0) || (filter == 2 && g.adj[gu].size() > 1); };
  const auto local_range = [&](const int rank) {
    const int n = s[rank + 1] - s[rank];
    return std::pair<int, int>{std::min(n, from_f), std::min(n, to_f)};
  };
  kv_mpi::run(p, eager, false, [&](const int rank) {
    const DistributedGraph graph = make(g, s, comp);
    const auto [from, to] = local_range(rank);
    const auto global = [&](const NodeID u) { return static_cast<int>(graph.local_to_global_node(u)); };
    // one message per cut edge
    std::multiset<std::tuple<int, int, int, long>> want, got; // sender rank, u, v, w
    std::multiset<std::pair<int, int>> want_pe, got_pe;      // sender rank, u
    for (int q = 0; q < p; ++q) {
      if (q == rank) continue;
      const auto [f, t] = local_range(q);
      for (int u = s[q] + f; u < s[q] + t; ++u) {
        if (!keep(u)) continue;
        bool any = false;
        for (auto [v, w] : g.adj[u])
          if (owner(s, v) == rank) want.insert({q, u, v, w}), any = true;
        if (any) want_pe.insert({q, u});
      }
    }
    const auto build = [&](const NodeID u, const NodeID v, const EdgeWeight w) -> EdgeMsg {
      MC_CHECK(graph.is_owned_node(u) && graph.is_ghost_node(v), where + ": message built for an edge that is not cut");
      return {static_cast<GlobalNodeID>(global(u)), static_cast<GlobalNodeID>(global(v)), static_cast<long>(w)};
    };
    const auto recv = [&](const auto &b, const kmpi::PEID pe) {
      for (const EdgeMsg &x : b) got.insert({pe, static_cast<int>(x.u), static_cast<int>(x.v), x.w});
    };
    kmpi::graph::sparse_alltoall_interface_to_ghost<EdgeMsg>(graph, static_cast<NodeID>(from), static_cast<NodeID>(to), [&](const NodeID u) { return keep(global(u)); }, build, recv);
    MC_CHECK(got == want, where + ": interface_to_ghost delivers " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " messages");
    got.clear();
    kmpi::graph::sparse_alltoall_interface_to_ghost_custom_range<EdgeMsg>(
        graph, static_cast<NodeID>(from), static_cast<NodeID>(to), [&](const NodeID i) { return static_cast<NodeID>(to - 1 - (static_cast<int>(i) - from)); }, [&](const NodeID u, NodeID, EdgeWeight) { return keep(global(u)); },
        [&](const NodeID u, const NodeID v, const EdgeWeight w, const kmpi::PEID pe) -> EdgeMsg {
          MC_CHECK(pe == graph.ghost_owner(v), where + ": message for the wrong rank");
          return build(u, v, w);
        },
        recv);
    MC_CHECK(got == want, where + ": interface_to_ghost_custom_range delivers " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " messages");
    // one message per interface vertex and adjacent rank
    const auto recv_pe = [&](const auto &b, const kmpi::PEID pe) {
      for (const EdgeMsg &x : b) got_pe.insert({pe, static_cast<int>(x.u)});
    };
    kmpi::graph::sparse_alltoall_interface_to_pe<EdgeMsg>(graph, static_cast<NodeID>(from), static_cast<NodeID>(to), [&](const NodeID u) { return keep(global(u)); }, [&](const NodeID u) -> EdgeMsg { return {static_cast<GlobalNodeID>(global(u)), 0, 0}; }, recv_pe);
    MC_CHECK(got_pe == want_pe, where + ": interface_to_pe delivers " + std::to_string(got_pe.size()) + " of " + std::to_string(want_pe.size()) + " messages");
    got_pe.clear();
    kmpi::graph::sparse_alltoall_interface_to_pe_custom_range<EdgeMsg>(
        graph, static_cast<NodeID>(from), static_cast<NodeID>(to), [&](const NodeID i) { return static_cast<NodeID>(to - 1 - (static_cast<int>(i) - from)); },
        [&](const NodeID seq, const NodeID u) {
          MC_CHECK(static_cast<int>(seq) - from == to - 1 - static_cast<int>(u), where + ": the filter gets the wrong vertex");
          return keep(global(u));
        },
        [&](const NodeID, const NodeID u, const kmpi::PEID) -> EdgeMsg { return {static_cast<GlobalNodeID>(global(u)), 0, 0}; }, recv_pe);
    MC_CHECK(got_pe == want_pe, where + ": interface_to_pe_custom_range delivers " + std::to_string(got_pe.size()) + " of " + std::to_string(want_pe.size()) + " messages");
    if (from_f == 0 && to_f >= g.n()) {
      const auto r = filter == 0 ? kmpi::graph::sparse_alltoall_interface_to_pe_get<EdgeMsg>(graph, [&](const NodeID u) -> EdgeMsg { return {static_cast<GlobalNodeID>(global(u)), 0, 0}; })
                                 : kmpi::graph::sparse_alltoall_interface_to_pe_get<EdgeMsg>(graph, [&](const NodeID u) { return keep(global(u)); }, [&](const NodeID u) -> EdgeMsg { return {static_cast<GlobalNodeID>(global(u)), 0, 0}; });
      got_pe.clear();
      for (int q = 0; q < p; ++q) recv_pe(r[static_cast<size_t>(q)], q);
      MC_CHECK(got_pe == want_pe, where + ": interface_to_pe_get");
      const auto e = kmpi::graph::sparse_alltoall_interface_to_ghost_get<EdgeMsg>(graph, [&](const NodeID u) { return keep(global(u)); }, build);
      got.clear();
      for (int q = 0; q < p; ++q) recv(e[static_cast<size_t>(q)], q);
      MC_CHECK(got == want, where + ": interface_to_ghost_get");
    }
    // arbitrary targets
    std::multiset<std::pair<int, int>> want_c, got_c;
    for (int q = 0; q < p; ++q) {
      const auto [f, t] = local_range(q);
      for (int u = s[q] + f; u < s[q] + t; ++u)
        if (keep(u) && (u + q) % p == rank) want_c.insert({q, u});
    }
    const auto c = kmpi::graph::sparse_alltoall_custom<EdgeMsg>(graph, static_cast<NodeID>(from), static_cast<NodeID>(to), [&](const NodeID u) { return keep(global(u)); }, [&](const NodeID u) { return static_cast<kmpi::PEID>((global(u) + rank) % p); }, [&](const NodeID u) -> EdgeMsg { return {static_cast<GlobalNodeID>(global(u)), 0, 0}; });
    for (int q = 0; q < p; ++q)
      for (const EdgeMsg &x : c[static_cast<size_t>(q)]) got_c.insert({q, static_cast<int>(x.u)});
    MC_CHECK(got_c == want_c, where + ": sparse_alltoall_custom");
  });
  mc::count_case();
}
} // namespace

void mc_main() {
  const bool deep = mc::thorough();
  // All message patterns between few ranks
  for (int p = 1; p <= 3; ++p)
    for (const bool eager : {true, false})
      for (int part = 0; part < (p == 3 ? 4 : 1); ++part)
        mc::run("patterns p=" + std::to_string(p) + (eager ? " eager " : " rendezvous ") + std::to_string(part), [&] {
          for (long code = 0; code < 1l << (p * p); ++code) {
            if (p == 3 && code % 4 != part) continue;
            Matrix m(static_cast<size_t>(p), std::vector<int>(static_cast<size_t>(p), 0));
            for (int i = 0; i < p * p; ++i)
              if (code >> i & 1) m[i / p][i % p] = 1 + (i + p) % 3;
            all_ways(m, eager, p < 3 || deep);
          }
        });
  if (deep)
    for (int part = 0; part < 16; ++part)
      mc::run("patterns p=4 " + std::to_string(part), [&] {
        for (long code = part; code < 1l << 16; code += 16) {
          Matrix m(4, std::vector<int>(4, 0));
          for (int i = 0; i < 16; ++i)
            if (code >> i & 1) m[i / 4][i % 4] = 1 + i % 3;
          all_ways(m, code & 1, false);
        }
      });
  // Every number of ranks (all shapes of the grid), structured patterns and every single message
  for (int p = 1; p <= (deep ? 37 : 26); ++p)
    mc::run("ranks " + std::to_string(p), [&] {
      const auto pattern = [&](auto f) {
        Matrix m(static_cast<size_t>(p), std::vector<int>(static_cast<size_t>(p), 0));
        for (int a = 0; a < p; ++a)
          for (int b = 0; b < p; ++b) m[a][b] = f(a, b);
        for (const bool eager : {true, false}) all_ways(m, eager, false);
      };
      pattern([](int, int) { return 0; });
      pattern([](int a, int b) { return 1 + (7 * a + 3 * b) % 4; });
      pattern([](int a, int b) { return a == b ? 2 : 0; });
      pattern([&](int a, int b) { return b == (a + 1) % p ? 3 : 0; });
      pattern([&](int a, int b) { return a == p - 1 || b == p - 1 ? 1 : 0; });
      pattern([](int a, int b) { return (a * b) % 3; });
      if (p <= (deep ? 37 : 12))
        for (int a = 0; a < p; ++a)
          for (int b = 0; b < p; ++b) {
            Matrix m(static_cast<size_t>(p), std::vector<int>(static_cast<size_t>(p), 0));
            m[a][b] = 2;
            kv_mpi::run(p, true, false, [&](const int rank) { exchange(m, rank, Grid, false, true, MPI_COMM_WORLD, "grid p=" + std::to_string(p) + " single message " + std::to_string(a) + ">" + std::to_string(b)); });
            mc::count_case();
          }
    });
  // Large messages select another algorithm
  for (int p = 1; p <= 5; ++p)
    for (const bool eager : {true, false})
      mc::run("large p=" + std::to_string(p) + (eager ? "" : " synchronous"), [&] {
        for (const int size : {499, 500, 501, 1100}) {
          if (!deep && size == 499) continue;
          Matrix m(static_cast<size_t>(p), std::vector<int>(static_cast<size_t>(p), size));
          all_ways(m, eager, true);
          for (auto &r : m) std::fill(r.begin(), r.end(), 0);
          m[p - 1][0] = size * p * p; // one rank sends everything
          all_ways(m, eager, true);
        }
      });
  // The order in which ranks proceed does not matter
  for (int p = 2; p <= 4; ++p)
    for (int a = 0; a < kAlgos; ++a)
      for (const bool eager : {true, false}) {
        mc::Config cfg;
        cfg.preemptions = p == 2 ? 12 : p == 3 ? (deep ? 7 : 5) : (deep ? 5 : 3);
        mc::explore(std::string("interleavings ") + kNames[a] + " p=" + std::to_string(p) + (eager ? "" : " synchronous"), cfg, [&, a, p, eager] {
          Matrix m(static_cast<size_t>(p), std::vector<int>(static_cast<size_t>(p), 0));
          for (int x = 0; x < p; ++x)
            for (int y = 0; y < p; ++y) m[x][y] = (2 * x + y + 1) % 3;
          kv_mpi::run(p, eager, false, [&](const int rank) {
            exchange(m, rank, static_cast<Algo>(a), false, true, MPI_COMM_WORLD, std::string(kNames[a]) + " in another order of the ranks, p=" + std::to_string(p));
            exchange(m, rank, static_cast<Algo>(a), false, true, MPI_COMM_WORLD, std::string(kNames[a]) + " in another order of the ranks, p=" + std::to_string(p));
          });
          mc::count_case();
        });
      }
  // Communicators that are split off and freed again
  for (const bool recycle : {false, true})
    mc::run(recycle ? "subsets recycled" : "subsets", [&] {
      for (int p = 2; p <= 6; ++p)
        for (int groups = 1; groups <= p; ++groups)
          for (int round = 0; round < 2; ++round) {
            kv_mpi::run(p, true, recycle, [&](const int rank) {
              for (int again = 0; again < 3; ++again) {
                const int color = again == 1 ? rank / std::max(1, p / groups) : rank % groups;
                MPI_Comm sub;
                MPI_Comm_split(MPI_COMM_WORLD, color, round ? -rank : rank, &sub);
                const int q = kmpi::get_comm_size(sub), me = kmpi::get_comm_rank(sub);
                Matrix m(static_cast<size_t>(q), std::vector<int>(static_cast<size_t>(q), 0));
                for (int a = 0; a < q; ++a)
                  for (int b = 0; b < q; ++b) m[a][b] = (a + 2 * b + again) % 3;
                for (const Algo a : {Grid, Complete, Auto}) exchange(m, me, a, false, true, sub, std::string(kNames[a]) + " on a communicator of " + std::to_string(q) + " of " + std::to_string(p) + " ranks, use " + std::to_string(again));
                MPI_Comm_free(&sub);
              }
            });
            mc::count_case();
          }
    });
  // Reductions
  mc::run("reduction", [&] {
    for (int p = 1; p <= (deep ? 36 : 20); ++p)
      for (const bool eager : {true, false}) {
        reduction(p, std::vector<int>(static_cast<size_t>(p), 1), eager);
        reduction(p, std::vector<int>(static_cast<size_t>(p), 0), eager);
        std::vector<int> v(static_cast<size_t>(p));
        for (int r = 0; r < p; ++r) v[static_cast<size_t>(r)] = r % 4;
        reduction(p, v, eager);
        for (int r = 0; r < p; ++r) {
          std::vector<int> one(static_cast<size_t>(p), 0);
          one[static_cast<size_t>(r)] = 2;
          reduction(p, one, eager);
        }
      }
  });
  mc::run("allreduce", [&] {
    for (int p = 1; p <= 20; ++p)
      for (int pat = 0; pat < 6; ++pat)
        for (const bool eager : {true, false}) {
          const auto val = [&](int r, int i) { return pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (r == i ? 5 : 0) : pat == 3 ? (i % 2 ? r : -r) : pat == 4 ? r - i : (i == 0 ? 1 << r : 0); };
          kv_mpi::run(p, eager, false, [&](const int rank) {
            const auto test = [&](auto tag, const char *name) {
              std::vector<long> b;
              for (int i = 0; i < 7; ++i) b.push_back(val(rank, i));
              kmpi::inplace_sparse_allreduce(tag, b, 6, MPI_SUM, MPI_COMM_WORLD);
              for (int i = 0; i < 6; ++i) {
                long want = 0;
                for (int r = 0; r < p; ++r) want += val(r, i);
                MC_CHECK(b[static_cast<size_t>(i)] == want, std::string(name) + " allreduce p=" + std::to_string(p) + " pattern " + std::to_string(pat) + ": value " + std::to_string(i) + " is " + std::to_string(b[static_cast<size_t>(i)]));
              }
              MC_CHECK(b[6] == val(rank, 6), std::string(name) + " allreduce writes behind the buffer");
            };
            test(kmpi::tag::mpi_allreduce, "MPI");
            if ((p & (p - 1)) == 0) test(kmpi::tag::doubling_allreduce, "doubling");
            // prefix helpers
            const auto d = kmpi::build_distribution_from_local_count<long, kaminpar::StaticArray>(rank + 1, MPI_COMM_WORLD);
            const auto c = kmpi::build_counts_from_value<long>(rank + 1, MPI_COMM_WORLD);
            const auto f = kmpi::build_displs_from_counts(c);
            for (int r = 0; r <= p; ++r) MC_CHECK(d[r] == static_cast<long>(r) * (r + 1) / 2 && f[r] == d[r], "prefix sums over the ranks");
          });
          mc::count_case();
        }
  });
  // Grid topology: rows and (virtual) columns partition the ranks, element() inverts
  mc::run("grid", [&] {
    for (int p = 1; p <= 400; ++p) {
      const kmpi::GridTopology t(p);
      std::map<int, int> rows, cols;
      std::set<std::pair<int, int>> cells;
      for (int pe = 0; pe < p; ++pe) {
        const int r = t.row(pe), c = t.col(pe), vc = t.virtual_col(pe);
        ++rows[r];
        ++cols[vc];
        const std::string where = "grid of " + std::to_string(p) + " ranks, rank " + std::to_string(pe);
        MC_CHECK(r >= 0 && r < t.num_rows() && c >= 0 && c < t.num_cols() && vc >= 0 && vc < t.num_full_cols(), where + ": outside of the grid");
        MC_CHECK(cells.insert({r, c}).second, where + ": cell used twice");
      }
      for (int r = 0; r < t.num_rows(); ++r) MC_CHECK(rows[r] == t.row_size(r) && rows[r] == t.num_cols_in_row(r), "grid of " + std::to_string(p) + " ranks: size of row " + std::to_string(r));
      for (int c = 0; c < t.num_full_cols(); ++c) MC_CHECK(cols[c] == t.virtual_col_size(c), "grid of " + std::to_string(p) + " ranks: size of virtual column " + std::to_string(c));
      std::set<int> seen;
      for (int c = 0; c < t.num_full_cols(); ++c)
        for (int r = 0; r < t.virtual_col_size(c); ++r) {
          const int pe = t.virtual_element(r, c);
          MC_CHECK(pe >= 0 && pe < p && seen.insert(pe).second && t.virtual_col(pe) == c, "grid of " + std::to_string(p) + " ranks: virtual element " + std::to_string(r) + "," + std::to_string(c) + " is " + std::to_string(pe));
        }
      mc::count_case();
    }
  });
  // Graph communication
  for (int p = 1; p <= (deep ? 4 : 3); ++p)
    mc::run("edges all p=" + std::to_string(p), [&] {
      for (uint32_t mask = 0; mask < 64; ++mask)
        for (const Spread &s : spreads(4, p))
          for (int filter = 0; filter < 3; ++filter) edges(kv::with_weights(kv::by_mask(4, mask), filter), s, filter == 1, filter, filter == 2 ? 1 : 0, mask % 2 ? 2 : 4, mask % 3);
    });
  for (const int p : {2, 3, 5, 7, 10})
    mc::run("edges menu p=" + std::to_string(p), [&] {
      for (const RefGraph &g : {kv::path(9), kv::star(10), kv::clique(6), kv::grid(3, 4), kv::empty(6), kv::caveman(3, 4)})
        for (const Spread &s : some_spreads(g.n(), p))
          for (int filter = 0; filter < 3; ++filter)
            for (const bool eager : {true, false})
              for (const auto &[f, t] : {std::pair<int, int>{0, 100}, {1, 3}, {2, 2}}) edges(kv::with_weights(g, filter), s, eager, filter, f, t, eager);
    });
}
