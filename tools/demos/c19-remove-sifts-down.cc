#include <map>
#include <vector>

#include "mc.h"

#include "kaminpar-common/datastructures/binary_heap.h"
using namespace kaminpar;
void mc_main() {
  mc::run("remove", [] {
    for (std::size_t seed = 0; seed < 500; ++seed) {
      std::vector<std::size_t> h(40, SharedBinaryMaxHeap<int>::kInvalidID);
      SharedBinaryMaxHeap<int> heap(40, h.data());
      std::map<std::size_t, int> ref;
      for (std::size_t i = 0; i < 30; ++i) heap.push(i, ref[i] = static_cast<int>((i * 37 + seed * 11) * (seed + 3) % 101));
      for (std::size_t i = seed % 5; i < 30; i += 1 + seed % 3) { heap.remove(i); ref.erase(i); }
      while (!ref.empty()) {
        int best = -1;
        for (auto [i, k] : ref) best = std::max(best, k);
        MC_CHECK(heap.peek_key() == best, "top is not maximal");
        ref.erase(heap.peek_id());
        heap.pop();
      }
    }
  });
}
