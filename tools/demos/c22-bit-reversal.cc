#include "kv.h"

#include "kaminpar-shm/partitioning/partition_utils.h"
using namespace kv;
void mc_main() {
  mc::run("sums", [] {
    for (BlockID k = 1; k < 300; ++k)
      for (BlockID ck = 1; ck <= k; ck *= 2) {
        BlockID sum = 0;
        for (BlockID b = 0; b < ck; ++b) {
          MC_CHECK(partitioning::compute_first_sub_block(b, ck, k) == sum, "ranges are not consecutive");
          sum += partitioning::compute_final_k(b, ck, k);
        }
        MC_CHECK(sum == k, "final blocks not covered");
      }
  });
}
