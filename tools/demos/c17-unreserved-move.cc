// Two threads move one vertex each into a block that has room for one of them.
#include <tbb/parallel_for.h>

#include "kv.h"

#include "kaminpar-shm/datastructures/partitioned_graph.h"
using namespace kv;
void mc_main() {
  mc::Config c;
  c.workers = 2;
  c.preemptions = 2;
  mc::explore("two moves", c, [] {
    Graph g = mkgraph(kv::path(2));
    StaticArray<BlockID> p(2, kaminpar::static_array::seq);
    p[0] = 0;
    p[1] = 1;
    PartitionedGraph pg(PartitionedGraph::seq{}, g, 3, std::move(p));
    tbb::parallel_for(0, 2, [&](int u) { (void)pg.move(u, u, 2, 1); });
    MC_CHECK(pg.block_weight(2) <= 1, "limit exceeded");
  });
}
