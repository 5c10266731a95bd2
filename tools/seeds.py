SHM = ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/factories.cc", "kaminpar-shm/presets.cc", "kaminpar-shm/context_io.cc"]
CORE = dict(optional=["kaminpar-shm/kaminpar.cc", "kaminpar-shm/presets.cc"], unused=r"kaminpar::shm::(factory::|print\(|operator<<|to_string|get_)")
SEEDS = []


def seed(id, property, edits, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **kw))


seed("c17-unreserved-move", "C17", [("kaminpar-shm/datastructures/partitioned_graph.h", """    for (BlockWeight new_weight = block_weight(to); new_weight + delta <= max_to_weight;) {
      if (__atomic_compare_exchange_n(
              &_block_weights[to],
              &new_weight,
              new_weight + delta,
              false,
              __ATOMIC_RELAXED,
              __ATOMIC_RELAXED
          )) {
        decrease_block_weight(from, delta);
        return true;
      }
    }
""", """    if (block_weight(to) + delta <= max_to_weight) {
      increase_block_weight(to, delta);
      decrease_block_weight(from, delta);
      return true;
    }
""")], "two threads moving vertices to the same block, the second checking between the check and the update of the first",
     "conditional moves jointly exceed the weight limit of the target block", variant="mt")

seed("c22-bit-reversal", "C22", [("kaminpar-shm/partitioning/partition_utils.cc", "(lut[(block & 0x00'00'00'F0) >> 4] << 24)", "(lut[(block & 0x00'00'00'F0) >> 4] << 20)")],
     "at least 32 current blocks and a number of final blocks that is not a power of two", "blocks stand for the wrong number of final blocks, ranges no longer cover all of them", **CORE)

seed("c19-remove-sifts-down", "C19", [("kaminpar-common/datastructures/binary_heap.h", """    KASSERT(contains(id));
    decrease_priority(id, Comparator<Key>::kMinValue);
    pop();
    KASSERT(!contains(id));
  }

  void pop() {
    KASSERT(!empty());
    std::swap(_heap.front(), _heap.back());
    _id_pos[_heap.front().id] = 0;
    _id_pos[_heap.back().id] = kInvalidID;
    _heap.pop_back();
    sift_down(0);
  }

  void push(const ID id, const Key &key) {
    KASSERT(!contains(id));
    const std::size_t pos = size();
    _heap.emplace_back(id, key);
    _id_pos[id] = pos;
    sift_up(pos);
  }

  void push_or_change_priority(const ID id, const Key &new_key) {
    if (contains(id)) {
      change_priority(id, new_key);
    } else {
      push(id, new_key);
""", """    KASSERT(contains(id));
    const std::size_t pos = _id_pos[id];
    std::swap(_heap[pos], _heap.back());
    _id_pos[_heap[pos].id] = pos;
    _id_pos[_heap.back().id] = kInvalidID;
    _heap.pop_back();
    sift_down(pos);
    KASSERT(!contains(id));
  }

  void pop() {
    KASSERT(!empty());
    std::swap(_heap.front(), _heap.back());
    _id_pos[_heap.front().id] = 0;
    _id_pos[_heap.back().id] = kInvalidID;
    _heap.pop_back();
    sift_down(0);
  }

  void push(const ID id, const Key &key) {
    KASSERT(!contains(id));
    const std::size_t pos = size();
    _heap.emplace_back(id, key);
    _id_pos[id] = pos;
    sift_up(pos);
  }

  void push_or_change_priority(const ID id, const Key &new_key) {
    if (contains(id)) {
      change_priority(id, new_key);
    } else {
      push(id, new_key);
""")], "a heap of at least three levels from which an inner element is removed whose replacement belongs above its new parent",
     "the queue delivers an element that is not extremal", tus="none")
