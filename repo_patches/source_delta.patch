From 9f81bd26d1a016c2b9f78097b728999d88604d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 01/55] fix: pad 64-bit StreamVByte values to their announced
 width

The number of padding bytes was computed after the value had been shifted to zero, so values that need 3, 5, 6 or 7 bytes were written without padding and could not be decoded.
---
 kaminpar-common/graph_compression/streamvbyte.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/graph_compression/streamvbyte.h b/kaminpar-common/graph_compression/streamvbyte.h
index feea51f..c0ca8e0 100644
--- a/kaminpar-common/graph_compression/streamvbyte.h
+++ b/kaminpar-common/graph_compression/streamvbyte.h
@@ -179,6 +179,7 @@ private:
 
     for (std::size_t i = 0; i < num_values; ++i) {
       Int value = _buffer[i];
+      std::size_t num_padding_bytes = required_byte_width(value) - math::byte_width(value);
 
       do {
         *_data_ptr++ = static_cast<std::uint8_t>(value);
@@ -186,7 +187,6 @@ private:
       } while (value > 0);
 
       if constexpr (kIntByteWidth == 8) {
-        std::size_t num_padding_bytes = required_byte_width(value) - math::byte_width(value);
         while (num_padding_bytes > 0) {
           *_data_ptr++ = static_cast<std::uint8_t>(0);
           num_padding_bytes -= 1;
-- 
2.43.0


From 84d975db4dcf2888a81119e32fbd373f78f76be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 02/55] fix: let the atomic wrapper's post-decrement decrement

---
 kaminpar-common/parallel/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/atomic.h b/kaminpar-common/parallel/atomic.h
index 3f06fcf..b1095f3 100644
--- a/kaminpar-common/parallel/atomic.h
+++ b/kaminpar-common/parallel/atomic.h
@@ -100,7 +100,7 @@ public:
   }
 
   T operator--(int) & noexcept {
-    return _value++;
+    return _value--;
   } // NOLINT
 
   T operator+=(T arg) noexcept {
-- 
2.43.0


From 9c9bb984890c6c3b887453c50145deee5545489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 03/55] fix: count the only element of a single-element aligned
 prefix sum

---
 kaminpar-common/parallel/aligned_prefix_sum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/aligned_prefix_sum.h b/kaminpar-common/parallel/aligned_prefix_sum.h
index ad39fa7..efb35ef 100644
--- a/kaminpar-common/parallel/aligned_prefix_sum.h
+++ b/kaminpar-common/parallel/aligned_prefix_sum.h
@@ -57,7 +57,7 @@ std::size_t aligned_prefix_sum(OutputIt begin, OutputIt end, AlignedValueLambda
   *begin = 0;
   --n;
   if (n == 0) {
-    return 0;
+    return l(0).second;
   }
 
   auto compute_alignment_offset = [&](const std::size_t alignment, const std::size_t value) {
-- 
2.43.0


From bf753106b33c81a4c3e97a5588695cba4c3dc9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 04/55] fix: compute powers of two and bit masks in the width
 of the result type

---
 kaminpar-common/math.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 180b47a..7384e91 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -96,7 +96,7 @@ template <typename T> T floor_log2(const T arg) {
 }
 
 template <typename T> T floor2(const T arg) {
-  return 1 << floor_log2(arg);
+  return static_cast<T>(1) << floor_log2(arg);
 }
 
 //! With `UInt = uint32_t`, same as
@@ -106,7 +106,7 @@ template <typename T> T ceil_log2(const T arg) {
 }
 
 template <typename T> T ceil2(const T arg) {
-  return 1 << ceil_log2(arg);
+  return static_cast<T>(1) << ceil_log2(arg);
 }
 
 template <typename Int> constexpr Int byte_width(const Int i) {
@@ -243,6 +243,6 @@ auto find_min_mean_max(const Container &container)
 }
 
 template <typename Int> Int create_mask(const int num_bits) {
-  return (1 << num_bits) - 1;
+  return (static_cast<Int>(1) << num_bits) - 1;
 }
 } // namespace kaminpar::math
-- 
2.43.0


From 11e6232915fd5d1d1d2bfe8cc00f55f102a43fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 05/55] fix: return the smallest element as the 0th percentile

---
 kaminpar-common/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 7384e91..920c372 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -130,7 +130,8 @@ double percentile(const std::vector<E> &sorted_sequence, const double percentile
   }());
   KASSERT(0 <= percentile && percentile <= 1);
 
-  return sorted_sequence[std::ceil(percentile * sorted_sequence.size()) - 1];
+  const auto rank = static_cast<std::size_t>(std::ceil(percentile * sorted_sequence.size()));
+  return sorted_sequence[std::max<std::size_t>(rank, 1) - 1];
 }
 
 template <typename T> auto split_integral(const T value, const double ratio = 0.5) {
-- 
2.43.0


From 9a609c1649dd875403afe886ebe8748f4fb16c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 06/55] fix: compute the lowest degree of large degree buckets
 without overflow

---
 kaminpar-common/degree_buckets.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/degree_buckets.h b/kaminpar-common/degree_buckets.h
index 095fb60..881b6bd 100644
--- a/kaminpar-common/degree_buckets.h
+++ b/kaminpar-common/degree_buckets.h
@@ -17,7 +17,7 @@ template <typename NodeID>
 static constexpr int kNumberOfDegreeBuckets = std::numeric_limits<NodeID>::digits + 1;
 
 template <typename NodeID> inline NodeID lowest_degree_in_bucket(const int bucket) {
-  return (1u << bucket) >> 1u;
+  return (bucket == 0) ? 0 : static_cast<NodeID>(1) << (bucket - 1);
 }
 
 template <typename NodeID> inline int degree_bucket(const NodeID degree) {
-- 
2.43.0


From d17bac67a92b130d6b4c009b9376d6b9f8b8f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 07/55] fix: skip unassigned vertices when summing the weights
 of many blocks

---
 kaminpar-shm/datastructures/partitioned_graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/datastructures/partitioned_graph.h b/kaminpar-shm/datastructures/partitioned_graph.h
index 40f6068..d84034b 100644
--- a/kaminpar-shm/datastructures/partitioned_graph.h
+++ b/kaminpar-shm/datastructures/partitioned_graph.h
@@ -273,7 +273,9 @@ private:
   void init_block_weights_par() {
     if (k() >= 65536) {
       this->pfor_nodes([&](const NodeID u) {
-        __atomic_fetch_add(&_block_weights[block(u)], this->node_weight(u), __ATOMIC_RELAXED);
+        if (const BlockID b = block(u); b != kInvalidBlockID) {
+          __atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED);
+        }
       });
       return;
     }
-- 
2.43.0


From 7d6bd0cf71442ad26ea65fca212200aa0896569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 08/55] fix: make push_or_change_priority of the binary forest
 compile

---
 kaminpar-common/datastructures/binary_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/binary_heap.h b/kaminpar-common/datastructures/binary_heap.h
index 1d3423e..b718b1f 100644
--- a/kaminpar-common/datastructures/binary_heap.h
+++ b/kaminpar-common/datastructures/binary_heap.h
@@ -531,7 +531,7 @@ public:
   }
 
   void push_or_change_priority(const std::size_t heap, const ID id, const Key &new_key) {
-    if (contains(heap, id)) {
+    if (contains(id)) {
       change_priority(heap, id, new_key);
     } else {
       push(heap, id, new_key);
-- 
2.43.0


From e2e0e7a01060d39a638db8883ed0d4f3a95b7a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 09/55] fix: return the last element as the tail of the queue

---
 kaminpar-common/datastructures/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/queue.h b/kaminpar-common/datastructures/queue.h
index 4f242f3..17881f9 100644
--- a/kaminpar-common/datastructures/queue.h
+++ b/kaminpar-common/datastructures/queue.h
@@ -45,7 +45,7 @@ public:
   // Access operators
   const_reference tail() const {
     KASSERT(!empty());
-    return _data[_tail];
+    return _data[_tail - 1];
   }
 
   const_reference head() const {
-- 
2.43.0


From f081a30cb7c9229492f593315222557b89e237fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 10/55] fix: compare all bytes of static arrays

---
 kaminpar-common/datastructures/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..8df1240 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -193,7 +193,7 @@ public:
     if (size() != other.size()) {
       return false;
     }
-    return std::memcmp(_data, other._data, size()) == 0;
+    return std::memcmp(_data, other._data, size() * sizeof(T)) == 0;
   }
 
   [[nodiscard]] bool is_span() const {
-- 
2.43.0


From 7a7ca99c304c3a3f7e5709f8979b4efb71da06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 11/55] fix: let postfix operators of compact array iterators
 move the iterator

---
 kaminpar-common/datastructures/compact_static_array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/datastructures/compact_static_array.h b/kaminpar-common/datastructures/compact_static_array.h
index a9373f1..98935c8 100644
--- a/kaminpar-common/datastructures/compact_static_array.h
+++ b/kaminpar-common/datastructures/compact_static_array.h
@@ -62,12 +62,14 @@ template <std::unsigned_integral Int> class CompactStaticArray {
       return _data -= _byte_width, *this;
     }
 
-    CompactStaticArrayIterator operator++(int) const {
-      return CompactStaticArrayIterator{_byte_width, _data + _byte_width};
+    CompactStaticArrayIterator operator++(int) {
+      const CompactStaticArrayIterator old = *this;
+      return ++*this, old;
     }
 
-    CompactStaticArrayIterator operator--(int) const {
-      return CompactStaticArrayIterator{_byte_width, _data - _byte_width};
+    CompactStaticArrayIterator operator--(int) {
+      const CompactStaticArrayIterator old = *this;
+      return --*this, old;
     }
 
     CompactStaticArrayIterator operator+(const difference_type n) const {
-- 
2.43.0


From d34a3afaf7ff3528db1d9c6dac88220ef6ef0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 12/55] fix: compute marker masks in the width of the stored
 values

---
 kaminpar-common/datastructures/marker.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kaminpar-common/datastructures/marker.h b/kaminpar-common/datastructures/marker.h
index e32e160..d6e7e5c 100644
--- a/kaminpar-common/datastructures/marker.h
+++ b/kaminpar-common/datastructures/marker.h
@@ -23,6 +23,9 @@ template <
     typename Value = std::size_t,
     template <typename...> typename Container = std::vector>
 class Marker {
+  // Bits of the concurrent markers, in the width of the stored values
+  static constexpr Value kMarkerMask = (static_cast<Value>(1) << kNumConcurrentMarkers) - 1;
+
 public:
   explicit Marker() : _marker_id(0), _first_unmarked_element{0} {
     RECORD_DATA_STRUCT(0, _struct);
@@ -46,9 +49,9 @@ public:
     KASSERT(marker < kNumConcurrentMarkers);
     KASSERT(element < _data.size());
 
-    _data[element] = ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id)
-                         ? _data[element] | (1u << marker)
-                         : _marker_id | (1u << marker);
+    _data[element] = ((_data[element] & ~kMarkerMask) == _marker_id)
+                         ? _data[element] | (static_cast<Value>(1) << marker)
+                         : _marker_id | (static_cast<Value>(1) << marker);
 
     if constexpr (track_first_unmarked_element) {
       while (_first_unmarked_element[marker] < _data.size() &&
@@ -65,8 +68,8 @@ public:
 
   [[nodiscard]] bool get(const std::size_t element, const std::size_t marker = 0) const {
     KASSERT(marker < kNumConcurrentMarkers);
-    return ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id) &&
-           ((_data[element] & (1u << marker)) != 0);
+    return ((_data[element] & ~kMarkerMask) == _marker_id) &&
+           ((_data[element] & (static_cast<Value>(1) << marker)) != 0);
   }
 
   [[nodiscard]] inline std::size_t size() const {
@@ -80,11 +83,11 @@ public:
   // Increase timestamp s.t. the least significant
   // num_concurrent_markers bits are zeroed
   void reset() {
-    _marker_id |= (1u << kNumConcurrentMarkers) - 1u;
+    _marker_id |= kMarkerMask;
     _marker_id += 1u;
     _first_unmarked_element.fill(0);
 
-    if ((_marker_id | ((1u << kNumConcurrentMarkers) - 1u)) == std::numeric_limits<Value>::max()) {
+    if ((_marker_id | kMarkerMask) == std::numeric_limits<Value>::max()) {
       _marker_id = 0;
 
       if constexpr (std::is_same_v<Container<Value>, std::vector<Value>>) {
-- 
2.43.0


From b45c186f5656dda52c0a8bf51c44aeb270b65e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 13/55] fix: make mutable access to elements of the buffered
 list compile

---
 kaminpar-common/datastructures/ts_navigable_linked_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/ts_navigable_linked_list.h b/kaminpar-common/datastructures/ts_navigable_linked_list.h
index b4890b0..52c5dd8 100644
--- a/kaminpar-common/datastructures/ts_navigable_linked_list.h
+++ b/kaminpar-common/datastructures/ts_navigable_linked_list.h
@@ -56,7 +56,7 @@ public:
   }
 
   [[nodiscard]] Element &get(const std::size_t position) {
-    return const_cast<Element &>(static_cast<const Self &>(this).get(position));
+    return const_cast<Element &>(static_cast<const Self &>(*this).get(position));
   }
 
   void flush() {
-- 
2.43.0


From bb6107f68c7ab7193fb75dab892cd56054c6e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 14/55] fix: allocate weights of reused subgraph memory when
 the graph is weighted

---
 kaminpar-shm/partitioning/helper.cc | 48 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/kaminpar-shm/partitioning/helper.cc b/kaminpar-shm/partitioning/helper.cc
index 8eb408d..bc9a404 100644
--- a/kaminpar-shm/partitioning/helper.cc
+++ b/kaminpar-shm/partitioning/helper.cc
@@ -281,24 +281,24 @@ void extend_partition_lazy_extraction(
       const NodeID subgraph_memory_n = num_block_nodes + final_kb;
       const EdgeID num_block_edges = block_num_edges[b];
 
+      // The memory might have been allocated for an unweighted (coarser) graph: thus, check the size
+      // of the weight arrays separately
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
@@ -528,24 +528,24 @@ void complete_partial_extend_partition(
       const NodeID subgraph_memory_n = num_block_nodes + final_kb;
       const EdgeID num_block_edges = block_num_edges[b];
 
+      // The memory might have been allocated for an unweighted (coarser) graph: thus, check the size
+      // of the weight arrays separately
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
-- 
2.43.0


From bfab3b72fa93d95351c9f221b6e88153ef652ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 15/55] fix: let the projection of communities compile with
 64-bit vertex ids

---
 kaminpar-shm/coarsening/contraction/cluster_contraction.h       | 2 +-
 .../coarsening/contraction/cluster_contraction_preprocessing.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction.h b/kaminpar-shm/coarsening/contraction/cluster_contraction.h
index 6da4657..6213b9d 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction.h
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction.h
@@ -27,7 +27,7 @@ public:
 
   virtual void project_up(std::span<const BlockID> coarse, std::span<BlockID> fine) = 0;
 
-  virtual void project_down(std::span<const BlockID> fine, std::span<BlockID> coarse) = 0;
+  virtual void project_down(std::span<const NodeID> fine, std::span<NodeID> coarse) = 0;
 };
 
 namespace contraction {
diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h
index 12ec1a7..eaeba07 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h
@@ -35,7 +35,7 @@ public:
     });
   }
 
-  void project_down(std::span<const BlockID> fine, const std::span<BlockID> coarse) final {
+  void project_down(std::span<const NodeID> fine, const std::span<NodeID> coarse) final {
     tbb::parallel_for<std::size_t>(0, fine.size(), [&](const std::size_t i) {
       __atomic_store_n(&coarse[_mapping[i]], fine[i], __ATOMIC_RELAXED);
     });
-- 
2.43.0


From 35e32cec7fe729c4b2b13dbd19b85b7b0eb58b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 16/55] fix: record the maximum degree when compressing
 neighborhoods

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 7cdba2a..d9e89ce 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -196,6 +196,8 @@ public:
       return offset;
     }
 
+    _max_degree = std::max(_max_degree, degree);
+
     if constexpr (kIsWeightedNeighbor) {
       std::sort(neighborhood.begin(), neighborhood.end(), [](const auto &a, const auto &b) {
         return a.first < b.first;
-- 
2.43.0


From 447455e78fcec3801622553891367ab130a500dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 17/55] fix: compare the total vertex weight with the number of
 vertices when compressing

---
 kaminpar-shm/graphutils/compressed_graph_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/graphutils/compressed_graph_builder.cc b/kaminpar-shm/graphutils/compressed_graph_builder.cc
index 7b7ef0b..7bef4e2 100644
--- a/kaminpar-shm/graphutils/compressed_graph_builder.cc
+++ b/kaminpar-shm/graphutils/compressed_graph_builder.cc
@@ -71,7 +71,7 @@ CompressedGraph CompressedGraphBuilder::build() {
   CompressedNeighborhoods compressed_neighborhoods = _compressed_neighborhoods_builder.build();
 
   const bool unit_node_weights =
-      std::cmp_equal(_total_node_weight + 1, compressed_neighborhoods.num_nodes());
+      std::cmp_equal(_total_node_weight, compressed_neighborhoods.num_nodes());
   if (unit_node_weights) {
     _node_weights.free();
   }
-- 
2.43.0


From 7f5cd47e4ca07fbc295df4d53af8989ce671438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 18/55] fix: report no degree buckets for empty sorted graphs

---
 kaminpar-shm/datastructures/compressed_graph.cc | 5 ++++-
 kaminpar-shm/datastructures/csr_graph.cc        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/datastructures/compressed_graph.cc b/kaminpar-shm/datastructures/compressed_graph.cc
index eb00685..d6da4fe 100644
--- a/kaminpar-shm/datastructures/compressed_graph.cc
+++ b/kaminpar-shm/datastructures/compressed_graph.cc
@@ -60,7 +60,10 @@ void CompressedGraph::init_degree_buckets() {
 
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets =
+        (last_nonempty_bucket == _buckets.rend())
+            ? 0
+            : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..b5f7b72 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -219,7 +219,10 @@ void CSRGraph::init_degree_buckets() {
     );
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets =
+        (last_nonempty_bucket == _buckets.rend())
+            ? 0
+            : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
-- 
2.43.0


From 97389da0e82e1408079dc91c6b42c731d4f07062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 19/55] fix: visit no neighbors of a compressed graph if zero
 are requested

---
 kaminpar-common/graph_compression/compressed_neighborhoods.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_neighborhoods.h b/kaminpar-common/graph_compression/compressed_neighborhoods.h
index d8c4df1..3d77d29 100644
--- a/kaminpar-common/graph_compression/compressed_neighborhoods.h
+++ b/kaminpar-common/graph_compression/compressed_neighborhoods.h
@@ -269,6 +269,10 @@ public:
     constexpr bool kNonStoppable =
         std::is_void_v<std::invoke_result_t<Callback, NodeID, EdgeWeight>>;
 
+    if (max_num_neighbors == 0) [[unlikely]] {
+      return;
+    }
+
     NodeID num_neighbors_visited = 1;
     const auto invoke_and_check = [&](const NodeID v, const EdgeWeight w) {
       bool abort = num_neighbors_visited++ >= max_num_neighbors;
-- 
2.43.0


From 3540789dacc48f2c59b26cd59b3c93acaedff3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 20/55] fix: keep the maximum node weight when copying a graph
 into CSR format

---
 kaminpar-shm/datastructures/csr_graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index b5f7b72..f347019 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -43,6 +43,7 @@ CSRGraph::CSRGraph(const Graph &graph)
     });
 
     _total_node_weight = graph.total_node_weight();
+    _max_node_weight = graph.max_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
     init_degree_buckets();
-- 
2.43.0


From 667293edf96e5e446c023a3af20e24ae7831e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 21/55] fix: count stream-encoded edge weights towards the
 total edge weight

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index d9e89ce..9d6fcf5 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -553,6 +553,7 @@ private:
               const EdgeWeight weight = get_edge_weight(neighborhood, i);
               _cur_compressed_edges += encoder.add(adjacent_node);
               _cur_compressed_edges += encoder.add(weight);
+              _total_edge_weight += weight;
 
               i += 1;
             }
-- 
2.43.0


From 043376879434a11c8ede12604346b3f4473669f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 22/55] fix: a partition into one block assigned vertices to a
 second block

---
 kaminpar-shm/kaminpar.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 7d36a4e..2d2c118 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -368,6 +368,12 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
 
   // Perform actual partitioning
   PartitionedGraph p_graph = [&] {
+    // The partitioners always start from a bipartition
+    if (_ctx.partition.k == 1) {
+      StaticArray<BlockID> single_block(_graph_ptr->n());
+      return PartitionedGraph(*_graph_ptr, 1, std::move(single_block));
+    }
+
     auto partitioner = factory::create_partitioner(*_graph_ptr, _ctx);
     if (_output_level >= OutputLevel::DEBUG) {
       partitioner->enable_metrics_output();
-- 
2.43.0


From 8e386602b36eed24eb95d429776a56cbe6afc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 23/55] fix: the greedy balancer did not terminate if an
 overload cannot be resolved

---
 kaminpar-shm/refinement/balancer/greedy_balancer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/balancer/greedy_balancer.cc b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
index 02c1a7b..80f1365 100644
--- a/kaminpar-shm/refinement/balancer/greedy_balancer.cc
+++ b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
@@ -201,7 +201,9 @@ private:
                 _marker.set(v);
               }
             });
-          } else {
+          } else if (to != from) {
+            // Do not try again if there is no block left that could take the node: the loop would
+            // not terminate if the overload cannot be resolved
             add_to_pq(from, u, u_weight, actual_relative_gain);
           }
         } else { // gain changed after insertion --> try again with new gain
-- 
2.43.0


From c3455eef47c702d31fdb4f2a21d94ec8ddd351e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 24/55] fix: eager subgraph memory was freed before the last
 partition extension

---
 kaminpar-shm/partitioning/deep/deep_multilevel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/partitioning/deep/deep_multilevel.cc b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
index c6364bd..00ac6ae 100644
--- a/kaminpar-shm/partitioning/deep/deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
@@ -397,7 +397,9 @@ void DeepMultilevelPartitioner::extend_partition(PartitionedGraph &p_graph, cons
     );
   }
 
-  if (_last_initial_partitioning_level == _coarsener->level()) {
+  // The toplevel graph might be extended twice: keep the memory until there are k blocks
+  if (_last_initial_partitioning_level == _coarsener->level() &&
+      p_graph.k() == _input_ctx.partition.k) {
     SCOPED_TIMER("Deallocation");
     _subgraph_memory.free();
     _extraction_mem_pool_ets.clear();
-- 
2.43.0


From 609ed3805ecd7f6e62a8ca2989adf5c759b56683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 25/55] fix: a compressed graph disabled degree bucket ordering
 for all later graphs

---
 kaminpar-shm/kaminpar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 2d2c118..837bdd9 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -335,9 +335,9 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
   if (!_was_rearranged) {
     if (_ctx.node_ordering == NodeOrdering::DEGREE_BUCKETS) {
       if (_ctx.compression.enabled) {
+        // Keep the setting: it still applies to uncompressed graphs partitioned later on
         LOG_WARNING << "A compressed graph cannot be rearranged by degree buckets. Disabling "
                        "degree bucket ordering!";
-        _ctx.node_ordering = NodeOrdering::NATURAL;
       } else if (!_graph_ptr->sorted()) {
         CSRGraph &csr_graph = _graph_ptr->csr_graph();
         _graph_ptr = std::make_unique<Graph>(graph::rearrange_by_degree_buckets(csr_graph));
-- 
2.43.0


From 44811281e1329bd81605ef2ab606b3c36c439e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 26/55] fix: a rejected call left the isolated vertices of the
 graph removed

---
 kaminpar-shm/kaminpar.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 837bdd9..f42854b 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -374,7 +374,17 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
       return PartitionedGraph(*_graph_ptr, 1, std::move(single_block));
     }
 
-    auto partitioner = factory::create_partitioner(*_graph_ptr, _ctx);
+    std::unique_ptr<Partitioner> partitioner;
+    try {
+      partitioner = factory::create_partitioner(*_graph_ptr, _ctx);
+    } catch (...) {
+      // Parameters rejected by the partitioner: leave the graph as it was for later calls
+      if (_graph_ptr->sorted()) {
+        _graph_ptr->integrate_isolated_nodes();
+      }
+      throw;
+    }
+
     if (_output_level >= OutputLevel::DEBUG) {
       partitioner->enable_metrics_output();
     }
-- 
2.43.0


From bc10cfaa8a20aec3d03607f52981f61259ccc6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 27/55] fix: views of a large-k gain cache reported gains
 instead of connections for newly adjacent blocks

---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..0bb88ee 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,9 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            const EdgeWeight gain =
+                kIteratesExactGains ? _gain_cache.gain(node, from, to) : _gain_cache.conn(node, to);
+            return gain + conn_delta(node, to) - conn_from_delta;
           });
         }
       }
-- 
2.43.0


From 399494e7686c6ecd7062e15437cb2cf99123267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 28/55] fix: a reused hashing gain cache was sized by stale
 offsets of a previous graph

---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..d02e834 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -84,7 +84,7 @@ public:
       _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0


From 519ebd408d0feaed06a1f304eb3b5527eb64656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 29/55] fix: two-hop matching moved vertices into full or
 unrelated clusters

A vertex that was visited before another vertex joined it kept a favored
cluster that was used as the representative of a two-hop cluster.
---
 kaminpar-shm/label_propagation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index d48da25..7ff169f 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -1071,7 +1071,12 @@ protected:
           derived_move_node(u, cluster);
           --_current_num_clusters;
         }
-      } else {
+      }
+    });
+
+    // The moves above can turn nodes into non-singleton clusters which were already visited
+    tbb::parallel_for(from, std::min(to, _graph->n()), [&](const NodeID u) {
+      if (!is_considered_for_two_hop_clustering(u)) {
         _favored_clusters[u] = u;
       }
     });
-- 
2.43.0


From 4157ada0cb2682dc4df529659b65b32dab42e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 30/55] fix: two-hop and isolated-node clustering ignored
 communities

---
 .../coarsening/clustering/lp_clusterer.cc      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
index 8a29feb..6dab73c 100644
--- a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
+++ b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
@@ -178,6 +178,19 @@ public:
     return _max_cluster_weight;
   }
 
+  bool move_cluster_weight(
+      const ClusterID old_cluster,
+      const ClusterID new_cluster,
+      const NodeWeight delta,
+      const NodeWeight max_weight
+  ) {
+    // Isolated nodes are clustered regardless of their neighborhood
+    if (!_communities.empty() && _communities[old_cluster] != _communities[new_cluster]) {
+      return false;
+    }
+    return ClusterWeightBase::move_cluster_weight(old_cluster, new_cluster, delta, max_weight);
+  }
+
   template <typename RatingMap>
   [[nodiscard]] ClusterID select_best_cluster(
       const bool store_favored_cluster,
@@ -208,7 +221,7 @@ public:
         state.current_gain = rating - gain_delta;
         state.current_cluster_weight = cluster_weight(cluster);
 
-        if (store_favored_cluster) {
+        if (store_favored_cluster && accept_cluster_community()) {
           if (state.current_gain > state.overall_best_gain) {
             state.overall_best_gain = state.current_gain;
             favored_cluster = state.current_cluster;
@@ -263,7 +276,8 @@ public:
         state.current_gain = rating - gain_delta;
         state.current_cluster_weight = cluster_weight(cluster);
 
-        if (store_favored_cluster && state.current_gain > state.overall_best_gain) {
+        if (store_favored_cluster && state.current_gain > state.overall_best_gain &&
+            accept_cluster_community()) {
           state.overall_best_gain = state.current_gain;
           favored_cluster = state.current_cluster;
         }
-- 
2.43.0


From 20250f458d4f11a14913ffe2d42f3f1317c5cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 31/55] fix: relabelled clusters were looked up as nodes when
 comparing communities

---
 kaminpar-shm/coarsening/clustering/lp_clusterer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
index 6dab73c..59dc5b4 100644
--- a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
+++ b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
@@ -87,6 +87,11 @@ public:
   }
 
   void compute_clustering(StaticArray<NodeID> &clustering, const Graph &graph) {
+    // Communities are looked up by cluster ID, which must thus remain the ID of one of its nodes
+    Base::set_relabel_before_second_phase(
+        _lp_ctx.relabel_before_second_phase && _communities.empty()
+    );
+
     ClusterWeightBase::reset_cluster_weights();
     ClusterBase::init_clusters_ref(clustering);
     Base::initialize(&graph, graph.n());
-- 
2.43.0


From 87bbb213502caf63d49a53afe4ec3e158d31587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 32/55] fix: cluster weights of at least 2^30 overflowed during
 initial coarsening

---
 kaminpar-shm/initial_partitioning/initial_coarsener.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/initial_partitioning/initial_coarsener.h b/kaminpar-shm/initial_partitioning/initial_coarsener.h
index 05dacf7..5773679 100644
--- a/kaminpar-shm/initial_partitioning/initial_coarsener.h
+++ b/kaminpar-shm/initial_partitioning/initial_coarsener.h
@@ -7,6 +7,7 @@
  ******************************************************************************/
 #pragma once
 
+#include <type_traits>
 #include <utility>
 
 #include "kaminpar-shm/datastructures/csr_graph.h"
@@ -48,9 +49,9 @@ class InitialCoarsener {
 
 public:
   struct Cluster {
-    // Steal one bit from the weight field to achieve 8 instead 12 bytes per entry
+    // Steal the sign bit from the weight field to achieve 8 instead 12 bytes per entry
     bool locked : 1;
-    NodeWeight weight : std::numeric_limits<NodeWeight>::digits - 1;
+    std::make_unsigned_t<NodeWeight> weight : std::numeric_limits<NodeWeight>::digits;
     NodeID leader;
   };
 
-- 
2.43.0


From 58e4a078937d51bce8d864a533f2c5717d02afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 33/55] fix: re-initialized binary forests kept the elements of
 their previous use

---
 kaminpar-common/datastructures/binary_heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kaminpar-common/datastructures/binary_heap.h b/kaminpar-common/datastructures/binary_heap.h
index b718b1f..e46939b 100644
--- a/kaminpar-common/datastructures/binary_heap.h
+++ b/kaminpar-common/datastructures/binary_heap.h
@@ -487,6 +487,9 @@ public:
 
   void init(const std::size_t capacity, const std::size_t heaps) {
     _id_pos.resize(capacity, kInvalidID);
+    for (auto &heap : _heaps) {
+      heap.clear();
+    }
     _heaps.resize(heaps);
   }
 
-- 
2.43.0


From a61dcf6feb675c862c6d5a0de0731d0fd01f119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 34/55] fix: the tokenizer read past the end of files and
 accepted anything as a number

---
 apps/io/file_toker.h | 61 +++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/apps/io/file_toker.h b/apps/io/file_toker.h
index a093663..3878cf3 100644
--- a/apps/io/file_toker.h
+++ b/apps/io/file_toker.h
@@ -10,10 +10,10 @@
 #include <cctype>
 #include <cstdint>
 #include <exception>
+#include <limits>
 #include <string>
 
 #include <fcntl.h>
-#include <kassert/kassert.hpp>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -49,6 +49,11 @@ public:
     _position = 0;
     _length = static_cast<std::size_t>(file_info.st_size);
 
+    _contents = nullptr;
+    if (_length == 0) { // cannot be mapped
+      return;
+    }
+
     _contents = static_cast<char *>(mmap(nullptr, _length, PROT_READ, MAP_PRIVATE, _fd, 0));
     if (_contents == MAP_FAILED) {
       close(_fd);
@@ -57,7 +62,9 @@ public:
   }
 
   ~MappedFileToker() {
-    munmap(_contents, _length);
+    if (_contents != nullptr) {
+      munmap(_contents, _length);
+    }
     close(_fd);
   }
 
@@ -85,12 +92,22 @@ public:
     }
   }
 
+  [[nodiscard]] inline bool test_digit() const {
+    return std::isdigit(static_cast<unsigned char>(current()));
+  }
+
   inline std::uint64_t scan_uint() {
-    KASSERT(valid_position() && std::isdigit(current()));
+    require_digit();
+
+    constexpr std::uint64_t kMax = std::numeric_limits<std::uint64_t>::max();
 
     std::uint64_t number = 0;
-    while (valid_position() && std::isdigit(current())) {
-      const int digit = current() - '0';
+    while (test_digit()) {
+      const std::uint64_t digit = current() - '0';
+      if (number > (kMax - digit) / 10) {
+        throw TokerException("Number is too large" + position_info());
+      }
+
       number = number * 10 + digit;
       advance();
     }
@@ -100,9 +117,9 @@ public:
   }
 
   inline void skip_uint() {
-    KASSERT(valid_position() && std::isdigit(current()));
+    require_digit();
 
-    while (valid_position() && std::isdigit(current())) {
+    while (test_digit()) {
       advance();
     }
 
@@ -112,21 +129,18 @@ public:
   inline void consume_string(const char *str) {
     std::size_t i = 0;
     while (str[i] != '\0') {
-      KASSERT(
-          valid_position() && str[i] == current(),
-          "unexpected symbol: " << current() << ", but expected " << str[i]
-      );
-
-      advance();
+      consume_char(str[i]);
       ++i;
     }
   }
 
   inline void consume_char(const char ch) {
-    KASSERT(
-        valid_position() && current() == ch,
-        "unexpected symbol: " << current() << ", but expected " << ch
-    );
+    if (!valid_position() || current() != ch) {
+      throw TokerException(
+          (ch == '\n' ? "Expected the end of the line" : std::string("Expected '") + ch + "'") +
+          position_info()
+      );
+    }
 
     advance();
   }
@@ -153,8 +167,9 @@ public:
     return _position < _length;
   }
 
+  // Behind the end of the file, there is a null character.
   [[nodiscard]] inline char current() const {
-    return _contents[_position];
+    return valid_position() ? _contents[_position] : '\0';
   }
 
   inline void advance() {
@@ -170,6 +185,16 @@ public:
   }
 
 private:
+  inline void require_digit() const {
+    if (!test_digit()) {
+      throw TokerException("Expected a number" + position_info());
+    }
+  }
+
+  [[nodiscard]] std::string position_info() const {
+    return valid_position() ? " at byte " + std::to_string(_position) : " at the end of the file";
+  }
+
   int _fd;
   std::size_t _position;
   std::size_t _length;
-- 
2.43.0


From b63ef197cd4e92aadeee43732f9dd3c4a1526a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 35/55] fix: malformed METIS files were misread or overflowed
 the graph arrays

---
 apps/io/shm_io.cc           |  17 +++++-
 apps/io/shm_metis_parser.cc | 108 ++++++++++++++++++++----------------
 2 files changed, 74 insertions(+), 51 deletions(-)

diff --git a/apps/io/shm_io.cc b/apps/io/shm_io.cc
index a06922a..2767f41 100644
--- a/apps/io/shm_io.cc
+++ b/apps/io/shm_io.cc
@@ -19,6 +19,19 @@
 
 namespace kaminpar::shm::io {
 
+namespace {
+
+template <typename Reader> auto exit_on_error(const std::string &filename, Reader &&reader) {
+  try {
+    return reader();
+  } catch (const kaminpar::io::TokerException &e) {
+    LOG_ERROR << "Cannot read " << filename << ": " << e.what();
+    std::exit(EXIT_FAILURE);
+  }
+}
+
+} // namespace
+
 std::unordered_map<std::string, GraphFileFormat> get_graph_file_formats() {
   return {
       {"metis", GraphFileFormat::METIS},
@@ -37,7 +50,7 @@ CSRGraph csr_read(
     }
 
     const bool sorted = ordering == NodeOrdering::IMPLICIT_DEGREE_BUCKETS;
-    return metis::csr_read(filename, sorted);
+    return exit_on_error(filename, [&] { return metis::csr_read(filename, sorted); });
   }
   case GraphFileFormat::PARHIP: {
     return parhip::csr_read(filename, ordering);
@@ -58,7 +71,7 @@ CompressedGraph compressed_read(
     }
 
     const bool sorted = ordering == NodeOrdering::IMPLICIT_DEGREE_BUCKETS;
-    return metis::compress_read(filename, sorted);
+    return exit_on_error(filename, [&] { return metis::compress_read(filename, sorted); });
   }
   case GraphFileFormat::PARHIP: {
     return parhip::compressed_read_parallel(filename, ordering);
diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index acf73c8..45d8f9e 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -25,10 +25,17 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
 
+void require(const bool condition, const char *message) {
+  if (!condition) {
+    throw TokerException(message);
+  }
+}
+
 MetisHeader parse_header(MappedFileToker &toker) {
   toker.skip_spaces();
   while (toker.current() == '%') {
@@ -38,38 +45,41 @@ MetisHeader parse_header(MappedFileToker &toker) {
 
   const std::uint64_t num_nodes = toker.scan_uint();
   const std::uint64_t num_edges = toker.scan_uint();
-  const std::uint64_t format = (toker.current() != '\n') ? toker.scan_uint() : 0;
-  toker.consume_char('\n');
+  const std::uint64_t format = toker.test_digit() ? toker.scan_uint() : 0;
+  if (toker.valid_position()) {
+    toker.consume_char('\n');
+  }
 
-  if (format != 0 && format != 1 && format != 10 && format != 11 && format && format != 100 &&
+  if (format != 0 && format != 1 && format != 10 && format != 11 && format != 100 &&
       format != 110 && format != 101 && format != 111) {
-    LOG_WARNING << "invalid or unsupported graph format";
+    throw TokerException("Invalid or unsupported graph format");
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
-  const bool has_node_weights = (format % 100) / 10;         // == x1x
-  const bool has_edge_weights = format % 10;                 // == xx1
+  const bool has_node_sizes = format / 100;          // == 1xx
+  const bool has_node_weights = (format % 100) / 10; // == x1x
+  const bool has_edge_weights = format % 10;         // == xx1
 
   if (has_node_sizes) {
     LOG_WARNING << "ignoring node sizes";
   }
 
-  KASSERT(
-      num_nodes <= static_cast<std::uint64_t>(std::numeric_limits<NodeID>::max()),
-      "number of nodes is too large for the node ID type"
-  );
-  KASSERT(
-      num_edges <= static_cast<std::uint64_t>(std::numeric_limits<EdgeID>::max()),
-      "number of edges is too large for the edge ID type"
+  // Each node has its own line and each edge is contained twice, hence the numbers of nodes and edges
+  // are also bounded by the length of the file.
+  require(
+      num_nodes < static_cast<std::uint64_t>(std::numeric_limits<NodeID>::max()),
+      "Number of nodes is too large for the node ID type"
   );
-  KASSERT(
-      num_edges <= (num_nodes * (num_nodes - 1)) / 2,
-      "specified number of edges is impossibly large"
+  require(num_nodes <= toker.length(), "Number of nodes is too large for the file");
+  require(
+      num_edges < static_cast<std::uint64_t>(std::numeric_limits<EdgeID>::max()) / 2,
+      "Number of edges is too large for the edge ID type"
   );
+  require(num_edges <= toker.length(), "Number of edges is too large for the file");
 
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -86,6 +96,13 @@ void parse_graph(
   static_assert(std::is_invocable_v<NextEdgeCB, std::uint64_t, std::uint64_t>);
   constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t>;
 
+  constexpr std::uint64_t kMaxNodeWeight = std::numeric_limits<NodeWeight>::max();
+  constexpr std::uint64_t kMaxEdgeWeight = std::numeric_limits<EdgeWeight>::max();
+
+  std::uint64_t num_edges = 0;
+  std::uint64_t total_node_weight = 0;
+  std::uint64_t total_edge_weight = 0;
+
   bool has_exited_preemptively = false;
   for (std::uint64_t u = 0; u < header.num_nodes; ++u) {
     toker.skip_spaces();
@@ -94,15 +111,20 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
 
-      KASSERT(
-          node_weight <= static_cast<std::uint64_t>(std::numeric_limits<NodeWeight>::max()),
-          "node weight is too large for the node weight type"
+      require(node_weight > 0u, "Zero node weights are not supported");
+      require(
+          node_weight <= kMaxNodeWeight - total_node_weight,
+          "Total node weight does not fit into the node weight type"
       );
-      KASSERT(node_weight > 0u, "zero node weights are not supported");
+      total_node_weight += node_weight;
     }
     if constexpr (stoppable) {
       if (next_node_cb(node_weight)) {
@@ -113,32 +135,37 @@ void parse_graph(
       next_node_cb(node_weight);
     }
 
-    while (std::isdigit(toker.current())) {
+    while (toker.test_digit()) {
       const std::uint64_t v = toker.scan_uint() - 1;
 
       std::uint64_t edge_weight = 1;
       if (header.has_edge_weights) {
         edge_weight = toker.scan_uint();
 
-        KASSERT(
-            edge_weight <= static_cast<std::uint64_t>(std::numeric_limits<EdgeWeight>::max()),
-            "edge weight is too large for the edge weight type"
+        require(edge_weight > 0u, "Zero edge weights are not supported");
+        require(
+            edge_weight <= kMaxEdgeWeight - total_edge_weight,
+            "Total edge weight does not fit into the edge weight type"
         );
-        KASSERT(edge_weight > 0u, "zero edge weights are not supported");
+        total_edge_weight += edge_weight;
       }
 
-      KASSERT(v < header.num_nodes, "neighbor out of bounds");
-      KASSERT(u != v, "detected illegal self-loop");
+      require(v < header.num_nodes, "Neighbor out of bounds");
+      require(u != v, "Detected illegal self-loop");
+      require(num_edges++ < 2 * header.num_edges, "More edges than specified in the header");
 
       next_edge_cb(edge_weight, v);
     }
 
-    if (toker.valid_position()) {
+    // The line of the last node may end with the file
+    if (toker.valid_position() || u + 1 < header.num_nodes) {
       toker.consume_char('\n');
     }
   }
 
   if (!has_exited_preemptively) {
+    require(num_edges == 2 * header.num_edges, "Fewer edges than specified in the header");
+
     while (toker.current() == '%') {
       toker.skip_line();
     }
@@ -216,15 +243,6 @@ CSRGraph csr_read(const std::string &filename, const bool sorted) {
     edge_weights.free();
   }
 
-  KASSERT(
-      total_node_weight <= static_cast<std::int64_t>(std::numeric_limits<NodeWeight>::max()),
-      "total node weight does not fit into the node weight type"
-  );
-  KASSERT(
-      total_edge_weight <= static_cast<std::int64_t>(std::numeric_limits<EdgeWeight>::max()),
-      "total edge weight does not fit into the edge weight type"
-  );
-
   return CSRGraph(
       std::move(nodes), std::move(edges), std::move(node_weights), std::move(edge_weights), sorted
   );
@@ -275,18 +293,10 @@ CompressedGraph compress_read(const std::string &filename, const bool sorted) {
         edge += 1;
       }
   );
-  builder.add_node(node - 1, neighbourhood);
+  if (node > 0) {
+    builder.add_node(node - 1, neighbourhood);
+  }
 
-  KASSERT(
-      builder.total_node_weight() <=
-          static_cast<std::int64_t>(std::numeric_limits<NodeWeight>::max()),
-      "total node weight does not fit into the node weight type"
-  );
-  KASSERT(
-      builder.total_edge_weight() <=
-          static_cast<std::int64_t>(std::numeric_limits<EdgeWeight>::max()),
-      "total edge weight does not fit into the edge weight type"
-  );
   IF_HEAP_PROFILING(neighbourhood_stats->size = neighbourhood.capacity() * sizeof(NodeID));
 
   return builder.build();
-- 
2.43.0


From 445cc0a3c8c8cb4bb81194c2e3618e8db2d10e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 36/55] fix: truncated or inconsistent ParHIP files were read
 out of bounds

---
 apps/io/binary_util.h        |  13 +++++
 apps/io/shm_parhip_parser.cc | 106 ++++++++++++++++++++++++++++++-----
 2 files changed, 105 insertions(+), 14 deletions(-)

diff --git a/apps/io/binary_util.h b/apps/io/binary_util.h
index 8cc1016..8a6731e 100644
--- a/apps/io/binary_util.h
+++ b/apps/io/binary_util.h
@@ -49,6 +49,11 @@ public:
     }
 
     _length = static_cast<std::size_t>(file_info.st_size);
+    if (_length == 0) {
+      close(_file);
+      throw BinaryReaderException("The file that stores the graph is empty");
+    }
+
     _data = static_cast<std::uint8_t *>(mmap(nullptr, _length, PROT_READ, MAP_PRIVATE, _file, 0));
     if (_data == MAP_FAILED) {
       close(_file);
@@ -62,6 +67,10 @@ public:
   }
 
   template <typename T> [[nodiscard]] T read(const std::size_t position) const {
+    if (_length < sizeof(T) || position > _length - sizeof(T)) {
+      throw BinaryReaderException("The file that stores the graph is truncated");
+    }
+
     return *reinterpret_cast<T *>(_data + position);
   }
 
@@ -69,6 +78,10 @@ public:
     return reinterpret_cast<const T *>(_data + position);
   }
 
+  [[nodiscard]] std::size_t length() const {
+    return _length;
+  }
+
 private:
   int _file;
   std::size_t _length;
diff --git a/apps/io/shm_parhip_parser.cc b/apps/io/shm_parhip_parser.cc
index 4556fcb..fe5cd83 100644
--- a/apps/io/shm_parhip_parser.cc
+++ b/apps/io/shm_parhip_parser.cc
@@ -7,9 +7,12 @@
  ******************************************************************************/
 #include "apps/io/shm_parhip_parser.h"
 
+#include <algorithm>
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
 #include <functional>
+#include <limits>
 
 #include <tbb/parallel_for.h>
 
@@ -107,7 +110,9 @@ public:
     return (edge_offset - _nodes_offset_base) / _node_id_width;
   }
 
-  void validate() const {
+  // Checks that the build can represent the graph, that the file is as long as specified by the header
+  // and that the offsets of the nodes partition the edges.
+  void validate(const BinaryReader &reader) const {
     if (has_64_bit_node_id && sizeof(NodeID) == 4) {
       LOG_ERROR << "The stored graph uses 64-Bit node IDs but this build uses 32-Bit node IDs.";
       std::exit(1);
@@ -129,6 +134,35 @@ public:
           << "The stored graph uses 64-Bit edge weights but this build uses 32-Bit edge weights.";
       std::exit(1);
     }
+
+    // Bound the number of nodes and edges before multiplying them
+    const std::size_t edge_weight_width = has_64_bit_edge_weight ? 8 : 4;
+    if (num_nodes >= std::min<std::uint64_t>(std::numeric_limits<NodeID>::max(), reader.length()) ||
+        num_edges >= std::min<std::uint64_t>(std::numeric_limits<EdgeID>::max(), reader.length()) ||
+        edge_weights_offset() + (has_edge_weights ? num_edges * edge_weight_width : 0) >
+            reader.length()) {
+      throw BinaryReaderException("The file that stores the graph is truncated");
+    }
+
+    const auto *offsets = reader.fetch<std::uint8_t>(nodes_offset());
+    const auto offset = [&](const std::uint64_t u) -> std::uint64_t {
+      return has_64_bit_edge_id ? reinterpret_cast<const std::uint64_t *>(offsets)[u]
+                                : reinterpret_cast<const std::uint32_t *>(offsets)[u];
+    };
+
+    std::atomic<bool> valid =
+        offset(0) == edges_offset() && offset(num_nodes) == node_weights_offset();
+    tbb::parallel_for(tbb::blocked_range<std::uint64_t>(0, num_nodes), [&](const auto &r) {
+      for (std::uint64_t u = r.begin(); u != r.end(); ++u) {
+        if (offset(u) > offset(u + 1) || (offset(u) - edges_offset()) % _node_id_width != 0) {
+          valid.store(false, std::memory_order_relaxed);
+        }
+      }
+    });
+
+    if (!valid) {
+      throw BinaryReaderException("The file that stores the graph contains invalid offsets");
+    }
   }
 
 private:
@@ -138,6 +172,33 @@ private:
   std::size_t _nodes_offset_base;
 };
 
+// Maps neighbors that are out of bounds to the first node, but remembers that there was one.
+class NeighborChecker {
+  using NodeID = kaminpar::shm::NodeID;
+
+public:
+  explicit NeighborChecker(const ParHIPHeader &header) : _num_nodes(header.num_nodes) {}
+
+  [[nodiscard]] NodeID operator()(const std::uint64_t neighbor) {
+    if (neighbor >= _num_nodes) [[unlikely]] {
+      _out_of_bounds.store(true, std::memory_order_relaxed);
+      return 0;
+    }
+
+    return static_cast<NodeID>(neighbor);
+  }
+
+  void throw_if_out_of_bounds() const {
+    if (_out_of_bounds) {
+      throw BinaryReaderException("The file that stores the graph contains invalid neighbors");
+    }
+  }
+
+private:
+  std::uint64_t _num_nodes;
+  std::atomic<bool> _out_of_bounds = false;
+};
+
 template <typename T, typename U = T, typename Transformer = std::identity>
 kaminpar::StaticArray<T> read(
     const BinaryReader &reader,
@@ -181,7 +242,7 @@ CSRGraph csr_read(const std::string &filename, const bool sorted) {
   try {
     const BinaryReader reader(filename);
     const ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
     StaticArray<EdgeID> nodes = read<EdgeID>(
@@ -193,8 +254,15 @@ CSRGraph csr_read(const std::string &filename, const bool sorted) {
     );
 
     const bool upcast_node_id = !header.has_64_bit_node_id && sizeof(NodeID) == 8;
-    StaticArray<NodeID> edges =
-        read<NodeID>(upcast_node_id, reader, header.edges_offset(), header.num_edges);
+    NeighborChecker check_neighbor(header);
+    StaticArray<NodeID> edges = read<NodeID>(
+        upcast_node_id,
+        reader,
+        header.edges_offset(),
+        header.num_edges,
+        [&](const NodeID v) { return check_neighbor(v); }
+    );
+    check_neighbor.throw_if_out_of_bounds();
 
     StaticArray<NodeWeight> node_weights;
     if (header.has_node_weights) {
@@ -225,7 +293,7 @@ CSRGraph csr_read_deg_buckets(const std::string &filename) {
   try {
     const BinaryReader reader(filename);
     const ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const auto *raw_nodes = reader.fetch<void>(header.nodes_offset());
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
@@ -239,11 +307,12 @@ CSRGraph csr_read_deg_buckets(const std::string &filename) {
 
     const auto *raw_edges = reader.fetch<void>(header.edges_offset());
     const bool upcast_node_id = !header.has_64_bit_node_id && sizeof(NodeID) == 8;
+    NeighborChecker check_neighbor(header);
     const auto edge_mapper = [&](const EdgeID e) -> NodeID {
       if (upcast_node_id) [[unlikely]] {
-        return reinterpret_cast<const std::uint32_t *>(raw_edges)[e];
+        return check_neighbor(reinterpret_cast<const std::uint32_t *>(raw_edges)[e]);
       } else {
-        return reinterpret_cast<const NodeID *>(raw_edges)[e];
+        return check_neighbor(reinterpret_cast<const NodeID *>(raw_edges)[e]);
       }
     };
 
@@ -340,6 +409,8 @@ CSRGraph csr_read_deg_buckets(const std::string &filename) {
       );
     };
 
+    check_neighbor.throw_if_out_of_bounds();
+
     CSRGraph csr_graph = CSRGraph(
         std::move(nodes), std::move(edges), std::move(node_weights), std::move(edge_weights), true
     );
@@ -365,7 +436,7 @@ CompressedGraph compressed_read(const std::string &filename, const bool sorted)
   try {
     BinaryReader reader(filename);
     ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const auto *nodes = reader.fetch<void>(header.nodes_offset());
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
@@ -379,11 +450,12 @@ CompressedGraph compressed_read(const std::string &filename, const bool sorted)
 
     const auto *edges = reader.fetch<void>(header.edges_offset());
     const bool upcast_node_id = !header.has_64_bit_node_id && sizeof(NodeID) == 8;
+    NeighborChecker check_neighbor(header);
     const auto edge = [&](const EdgeID e) -> NodeID {
       if (upcast_node_id) [[unlikely]] {
-        return reinterpret_cast<const std::uint32_t *>(edges)[e];
+        return check_neighbor(reinterpret_cast<const std::uint32_t *>(edges)[e]);
       } else {
-        return reinterpret_cast<const NodeID *>(edges)[e];
+        return check_neighbor(reinterpret_cast<const NodeID *>(edges)[e]);
       }
     };
 
@@ -434,6 +506,7 @@ CompressedGraph compressed_read(const std::string &filename, const bool sorted)
       neighbourhood.clear();
     }
 
+    check_neighbor.throw_if_out_of_bounds();
     return builder.build();
   } catch (const BinaryReaderException &e) {
     LOG_ERROR << e.what();
@@ -445,7 +518,7 @@ CompressedGraph compressed_read_parallel(const std::string &filename, const Node
   try {
     const BinaryReader reader(filename);
     const ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const auto *nodes = reader.fetch<void>(header.nodes_offset());
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
@@ -459,11 +532,12 @@ CompressedGraph compressed_read_parallel(const std::string &filename, const Node
 
     const auto *edges = reader.fetch<void>(header.edges_offset());
     const bool upcast_node_id = !header.has_64_bit_node_id && sizeof(NodeID) == 8;
+    NeighborChecker check_neighbor(header);
     const auto edge = [&](const EdgeID e) -> NodeID {
       if (upcast_node_id) [[unlikely]] {
-        return reinterpret_cast<const std::uint32_t *>(edges)[e];
+        return check_neighbor(reinterpret_cast<const std::uint32_t *>(edges)[e]);
       } else {
-        return reinterpret_cast<const NodeID *>(edges)[e];
+        return check_neighbor(reinterpret_cast<const NodeID *>(edges)[e]);
       }
     };
 
@@ -510,11 +584,12 @@ CompressedGraph compressed_read_parallel(const std::string &filename, const Node
           [&](const NodeID u) { return node_weight(u); },
           [&](const EdgeID e) { return edge_weight(e); }
       );
+      check_neighbor.throw_if_out_of_bounds();
 
       compressed_graph.set_permutation(std::move(perm));
       return compressed_graph;
     } else {
-      return parallel_compress(
+      CompressedGraph compressed_graph = parallel_compress(
           header.num_nodes,
           header.num_edges,
           header.has_node_weights,
@@ -529,6 +604,9 @@ CompressedGraph compressed_read_parallel(const std::string &filename, const Node
           [&](const NodeID u) { return node_weight(u); },
           [&](const EdgeID e) { return edge_weight(e); }
       );
+      check_neighbor.throw_if_out_of_bounds();
+
+      return compressed_graph;
     }
   } catch (const BinaryReaderException &e) {
     LOG_ERROR << e.what();
-- 
2.43.0


From 3996e5f655f62a23e3cc5621a25153c0666ddb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 37/55] fix: truncated compressed graph files and unreadable
 files were not detected

---
 apps/io/shm_compressed_graph_binary.cc | 51 ++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/apps/io/shm_compressed_graph_binary.cc b/apps/io/shm_compressed_graph_binary.cc
index 2925a8e..844c4a0 100644
--- a/apps/io/shm_compressed_graph_binary.cc
+++ b/apps/io/shm_compressed_graph_binary.cc
@@ -9,6 +9,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <system_error>
 
 #include "kaminpar-common/datastructures/static_array.h"
 #include "kaminpar-common/logger.h"
@@ -135,12 +136,37 @@ void write(const std::string &filename, const CompressedGraph &graph) {
   }
 }
 
+static void verify(const bool condition, const char *message) {
+  if (!condition) {
+    LOG_ERROR << "Cannot read the stored compressed graph: " << message;
+    std::exit(EXIT_FAILURE);
+  }
+}
+
+static void read_bytes(std::ifstream &in, void *data, const std::size_t size) {
+  in.read(static_cast<char *>(data), size);
+  verify(static_cast<std::size_t>(in.gcount()) == size, "the file is truncated.");
+}
+
 template <typename T> static T read_int(std::ifstream &in) {
   T t;
-  in.read(reinterpret_cast<char *>(&t), sizeof(T));
+  read_bytes(in, &t, sizeof(T));
   return t;
 }
 
+// Reads the size of an array, which is bounded by the size of the remaining file.
+static std::size_t read_size(std::ifstream &in, const std::size_t element_size) {
+  const auto size = read_int<std::size_t>(in);
+
+  const auto position = in.tellg();
+  in.seekg(0, std::ios::end);
+  const auto end = in.tellg();
+  in.seekg(position);
+
+  verify(size <= static_cast<std::size_t>(end - position) / element_size, "the file is truncated.");
+  return size;
+}
+
 CompressedBinaryHeader read_header(std::ifstream &in) {
   const auto boolean_values = read_int<std::uint16_t>(in);
   return {
@@ -263,22 +289,27 @@ void verify_header(const CompressedBinaryHeader header) {
 
 template <typename T> static CompactStaticArray<T> read_compact_static_array(std::ifstream &in) {
   const auto byte_width = read_int<std::uint8_t>(in);
-  const auto allocated_size = read_int<std::size_t>(in);
+  verify(byte_width >= 1 && byte_width <= sizeof(T), "invalid byte width.");
+
+  const auto allocated_size = read_size(in, 1);
+  verify(allocated_size >= sizeof(T), "invalid array size.");
 
   auto data = std::make_unique<std::uint8_t[]>(allocated_size);
-  in.read(reinterpret_cast<char *>(data.get()), allocated_size);
+  read_bytes(in, data.get(), allocated_size);
   return CompactStaticArray<T>(byte_width, allocated_size, std::move(data));
 }
 
 template <typename T> static StaticArray<T> read_static_array(std::ifstream &in) {
-  const auto size = read_int<std::size_t>(in);
+  const auto size = read_size(in, sizeof(T));
   StaticArray<T> array(size, static_array::noinit);
-  in.read(reinterpret_cast<char *>(array.data()), sizeof(T) * size);
+  read_bytes(in, array.data(), sizeof(T) * size);
   return array;
 }
 
 CompressedGraph read(const std::string &filename) {
   std::ifstream in(filename, std::ios::binary);
+  verify(in.is_open(), "the file cannot be opened.");
+
   if (kMagicNumber != read_int<std::uint64_t>(in)) {
     LOG_ERROR << "The magic number of the file is not correct!";
     std::exit(EXIT_FAILURE);
@@ -288,13 +319,18 @@ CompressedGraph read(const std::string &filename) {
   verify_header(header);
 
   CompactStaticArray<EdgeID> nodes = read_compact_static_array<EdgeID>(in);
+  verify(nodes.size() == header.num_nodes + 1, "invalid number of nodes.");
+
   StaticArray<std::uint8_t> compressed_edges = read_static_array<std::uint8_t>(in);
 
   StaticArray<NodeWeight> node_weights;
   if (header.has_node_weights) {
     node_weights = read_static_array<NodeWeight>(in);
+    verify(node_weights.size() == header.num_nodes, "invalid number of node weights.");
   }
 
+  verify(in.peek() == std::ifstream::traits_type::eof(), "unexpected data at the end of the file.");
+
   CompressedNeighborhoods<NodeID, EdgeID, EdgeWeight> compressed_neighborhoods(
       std::move(nodes),
       std::move(compressed_edges),
@@ -314,8 +350,9 @@ CompressedGraph read(const std::string &filename) {
 }
 
 bool is_compressed(const std::string &filename) {
-  const auto size = std::filesystem::file_size(filename);
-  if (size < sizeof(kMagicNumber)) {
+  std::error_code error;
+  const auto size = std::filesystem::file_size(filename, error);
+  if (error || size < sizeof(kMagicNumber)) {
     return false;
   }
 
-- 
2.43.0


From 5fe09db915f8f4a97aba50e0f76222cafd252a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 38/55] fix: partition files without numbers were accepted

---
 apps/io/shm_io.cc | 51 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/apps/io/shm_io.cc b/apps/io/shm_io.cc
index 2767f41..06c3731 100644
--- a/apps/io/shm_io.cc
+++ b/apps/io/shm_io.cc
@@ -7,8 +7,11 @@
  ******************************************************************************/
 #include "apps/io/shm_io.h"
 
+#include <cstdint>
 #include <fstream>
+#include <limits>
 #include <numeric>
+#include <vector>
 
 #include "kaminpar-common/logger.h"
 
@@ -113,16 +116,36 @@ void write(const std::string &filename, const std::span<const BlockID> partition
   }
 }
 
-StaticArray<BlockID> read(const std::string &filename) {
+namespace {
+
+// Reads a file that contains one number per line.
+std::vector<std::uint64_t> read_numbers(const std::string &filename, const std::uint64_t max) {
   using namespace kaminpar::io;
-  MappedFileToker toker(filename);
 
-  std::vector<BlockID> partition;
-  while (toker.valid_position()) {
-    partition.push_back(toker.scan_uint());
-    toker.consume_char('\n');
-  }
+  return exit_on_error(filename, [&] {
+    MappedFileToker toker(filename);
+
+    std::vector<std::uint64_t> numbers;
+    while (toker.valid_position()) {
+      numbers.push_back(toker.scan_uint());
+      if (numbers.back() > max) {
+        throw TokerException("Number is too large");
+      }
+
+      if (toker.valid_position()) {
+        toker.consume_char('\n');
+      }
+    }
+
+    return numbers;
+  });
+}
+
+} // namespace
 
+StaticArray<BlockID> read(const std::string &filename) {
+  const std::vector<std::uint64_t> partition =
+      read_numbers(filename, std::numeric_limits<BlockID>::max());
   return {partition.begin(), partition.end()};
 }
 
@@ -141,16 +164,10 @@ void write_block_sizes(
 }
 
 StaticArray<BlockID> read_block_sizes(const std::string &filename) {
-  using namespace kaminpar::io;
-  MappedFileToker toker(filename);
-
-  std::vector<NodeID> block_sizes;
-  while (toker.valid_position()) {
-    block_sizes.push_back(toker.scan_uint());
-    toker.consume_char('\n');
-  }
-
-  const NodeID n = std::accumulate(block_sizes.begin(), block_sizes.end(), 0);
+  const std::vector<std::uint64_t> block_sizes =
+      read_numbers(filename, std::numeric_limits<NodeID>::max());
+  const NodeID n =
+      std::accumulate(block_sizes.begin(), block_sizes.end(), static_cast<NodeID>(0));
 
   StaticArray<BlockID> partition(n);
   NodeID cur = 0;
-- 
2.43.0


From 552d8b287f49faf601bb3f0a0af24e34158deff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 39/55] fix: the input validator accepted self-loops and
 scattered multi-edges

---
 apps/io/shm_input_validator.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/apps/io/shm_input_validator.cc b/apps/io/shm_input_validator.cc
index ff8744d..7e29024 100644
--- a/apps/io/shm_input_validator.cc
+++ b/apps/io/shm_input_validator.cc
@@ -48,10 +48,22 @@ void validate_undirected_graph(
         [&](const auto &lhs, const auto &rhs) { return std::get<0>(lhs) < std::get<0>(rhs); }
     );
 
-    // Check for multi edges
-    for (EdgeID e = nodes[u] + 1; e < nodes[u + 1]; ++e) {
-      if (edges[e - 1] == edges[e]) {
-        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << edges[e] << "\n";
+    for (EdgeID e = nodes[u]; e < nodes[u + 1]; ++e) {
+      const NodeID v = std::get<0>(edges_with_weights[e]);
+
+      // Check for invalid neighbors
+      if (v >= n) {
+        std::cerr << "node " << u + 1 << " has a neighbor that is out of bounds\n";
+        std::exit(1);
+      }
+      if (v == u) {
+        std::cerr << "node " << u + 1 << " has a self-loop\n";
+        std::exit(1);
+      }
+
+      // Check for multi edges
+      if (e > nodes[u] && std::get<0>(edges_with_weights[e - 1]) == v) {
+        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << v + 1 << "\n";
         std::exit(1);
       }
     }
-- 
2.43.0


From d0aed0277f6f2a4e95e26d9c7d5d94f5f6158c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 40/55] fix: block sizes and rearranged graphs were written for
 0 blocks with explicit block weights

---
 apps/KaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 77b42e7..f490453 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -457,6 +457,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weight_factors.size());
     partitioner.compute_partition(
         std::move(app.max_block_weight_factors), {partition.data(), partition.size()}
     );
@@ -471,6 +472,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weights.size());
     partitioner.compute_partition(
         std::move(app.max_block_weights), {partition.data(), partition.size()}
     );
-- 
2.43.0


From 60c4ea1879d5ff8a2f13673998886d36139cfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 41/55] fix: --ignore-edge-weights lost the vertex order of
 graphs rearranged during IO

---
 apps/KaMinPar.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index f490453..905c407 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -416,12 +416,21 @@ int main(int argc, char *argv[]) {
 
   if (app.ignore_edge_weights && !ctx.compression.enabled) {
     auto &csr_graph = graph.concretize<CSRGraph>();
-    graph = {std::make_unique<CSRGraph>(
+    const bool sorted = csr_graph.sorted();
+    const bool permuted = csr_graph.permuted();
+
+    auto unweighted_graph = std::make_unique<CSRGraph>(
         csr_graph.take_raw_nodes(),
         csr_graph.take_raw_edges(),
         csr_graph.take_raw_node_weights(),
-        StaticArray<EdgeWeight>{}
-    )};
+        StaticArray<EdgeWeight>{},
+        sorted
+    );
+    if (permuted) {
+      unweighted_graph->set_permutation(csr_graph.take_raw_permutation());
+    }
+
+    graph = {std::move(unweighted_graph)};
   } else if (app.ignore_edge_weights) {
     LOG_WARNING << "Ignoring edge weights is currently only supported for uncompressed graphs; "
                    "ignoring option.";
-- 
2.43.0


From b33e8a59b87c938069652ff350f1ef857144d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 42/55] fix: dumped configurations could not be loaded (empty
 lists) or lost settings

---
 kaminpar-cli/kaminpar_arguments.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index e29d3dc..caac7e0 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -58,7 +58,7 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       "Fraction of cores that should be used for the coarse graph replication phase of deep MGP. A "
       "value of '1' will replicate the graph once for every PE, whereas smaller values lead to "
       "fewer replications."
-  );
+  )->capture_default_str();
   partitioning
       ->add_option(
           "--p-min-consecutive-seq-bipartitioning-levels",
@@ -82,7 +82,10 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       )
       ->capture_default_str();
 
-  partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles)->capture_default_str();
+  auto *vcycles = partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles);
+  if (!ctx.partitioning.vcycles.empty()) { // empty lists cannot be read from configuration files
+    vcycles->capture_default_str();
+  }
   partitioning
       ->add_flag("--p-restrict-vcycle-refinement", ctx.partitioning.restrict_vcycle_refinement)
       ->capture_default_str();
@@ -354,8 +357,8 @@ CLI::Option_group *create_initial_partitioning_options(CLI::App *app, Context &c
 CLI::Option_group *create_refinement_options(CLI::App *app, Context &ctx) {
   auto *refinement = app->add_option_group("Refinement");
 
-  refinement->add_option("--r-algorithms", ctx.refinement.algorithms)
-      ->transform(CLI::CheckedTransformer(get_kway_refinement_algorithms()).description(""))
+  auto *algorithms = refinement->add_option("--r-algorithms", ctx.refinement.algorithms);
+  algorithms->transform(CLI::CheckedTransformer(get_kway_refinement_algorithms()).description(""))
       ->description(
           R"(This option can be used multiple times to define a sequence of refinement algorithms. 
 The following algorithms can be used:
@@ -363,8 +366,10 @@ The following algorithms can be used:
   - lp:              label propagation
   - fm:              FM
   - greedy-balancer: greedy balancer)"
-      )
-      ->capture_default_str();
+      );
+  if (!ctx.refinement.algorithms.empty()) { // empty lists cannot be read from configuration files
+    algorithms->capture_default_str();
+  }
 
   create_lp_refinement_options(app, ctx);
   create_kway_fm_refinement_options(app, ctx);
@@ -449,17 +454,17 @@ CLI::Option_group *create_kway_fm_refinement_options(CLI::App *app, Context &ctx
       ->capture_default_str();
 
   fm->add_flag(
-      "--r-fm-lock-locally-moved-nodes{false},--r-fm-unlock-locally-moved-nodes",
+      "--r-fm-unlock-locally-moved-nodes,--r-fm-lock-locally-moved-nodes{false}",
       ctx.refinement.kway_fm.unlock_locally_moved_nodes,
       "If set, unlock all nodes after a batch that were only moved thread-locally, but not "
       "globally."
-  );
+  )->capture_default_str();
   fm->add_flag(
-      "--r-fm-lock-seed-nodes{false},--r-fm-unlock-seed-nodes",
+      "--r-fm-unlock-seed-nodes,--r-fm-lock-seed-nodes{false}",
       ctx.refinement.kway_fm.unlock_seed_nodes,
       "If set, keep seed nodes locked even if they were never moved. If this flag is not set, they "
       "are treated the same way as touched nodes."
-  );
+  )->capture_default_str();
 
   // Flags for gain caches
   fm->add_option("--r-fm-gc", ctx.refinement.kway_fm.gain_cache_strategy)
-- 
2.43.0


From 54fe62fe408bb9b477727b785240586e582e2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 43/55] fix: the help listed two-hop and isolated nodes
 strategies that do not exist

---
 kaminpar-cli/kaminpar_arguments.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index caac7e0..1a2b5bb 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -270,7 +270,8 @@ Options are:
   - disable: Do not merge two-hop singleton clusters
   - match:   Join two-hop singleton clusters pairwise
   - cluster: Cluster two-hop singleton clusters into a single cluster (respecting the maximum cluster weight limit)
-  - legacy:  Use v2.1 default behaviour
+  - match-threadwise:   Same as match, but only considers pairs found by the same thread
+  - cluster-threadwise: Same as cluster, but only considers clusters found by the same thread
   )")
       ->capture_default_str();
   lp->add_option(
@@ -290,8 +291,8 @@ Options are:
       ->description(R"(Determines the strategy for handling isolated nodes during graph clustering.
 Options are:
   - keep:                   Keep isolated nodes in the graph
-  - match-always:           Pack pairs of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
-  - cluster-always:         Pack any number of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
+  - match:                  Pack pairs of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
+  - cluster:                Pack any number of isolated nodes into the same cluster (respecting the maximum cluster weight limit)
   - match-during-two-hop:   Only match isolated nodes after two-hop clustering was triggered
   - cluster-during-two-hop: Only cluster isolated nodes after two-hop clustering was triggered
   )")
-- 
2.43.0


From f332a7043c54dcdf94016ee5c0418c42d1a260e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 44/55] fix: dumped configurations contained floating-point
 numbers with only six digits

---
 kaminpar-cli/CLI11.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kaminpar-cli/CLI11.h b/kaminpar-cli/CLI11.h
index 92d209a..35c66d6 100644
--- a/kaminpar-cli/CLI11.h
+++ b/kaminpar-cli/CLI11.h
@@ -1298,6 +1298,19 @@ template <
 std::string to_string(T &&value) {
   std::stringstream stream;
   stream << value;
+
+  // Use as many digits as required to read the same number again
+  using Value = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
+  if constexpr (std::is_floating_point<Value>::value) {
+    for (int digits = std::numeric_limits<Value>::digits10;
+         static_cast<Value>(std::strtold(stream.str().c_str(), nullptr)) != value &&
+         digits <= std::numeric_limits<Value>::max_digits10;
+         ++digits) {
+      stream.str("");
+      stream << std::setprecision(digits) << value;
+    }
+  }
+
   return stream.str();
 }
 
-- 
2.43.0


From c3e7f00838297bb02c09413f5a74b3b48452cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 45/55] fix: dumped configurations did not contain the preset,
 and dumping was reported as failure

Also, -v was bound to both --version and --verbose.
---
 apps/KaMinPar.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 905c407..08c1c6e 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -45,6 +45,8 @@ struct ApplicationContext {
   bool dump_config = false;
   bool show_version = false;
 
+  std::string preset = "default";
+
   int seed = 0;
   int num_threads = 1;
 
@@ -83,7 +85,10 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
   cli.set_config("-C,--config", "", "Read parameters from a TOML configuration file.", false);
   cli.add_option_function<std::string>(
          "-P,--preset",
-         [&](const std::string preset) { ctx = create_context_by_preset_name(preset); }
+         [&](const std::string preset) {
+           app.preset = preset;
+           ctx = create_context_by_preset_name(preset);
+         }
   )
       ->check(CLI::IsMember(get_preset_names()))
       ->description(R"(Use configuration preset:
@@ -100,7 +105,7 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
       ->configurable(false)
       ->description(R"(Print the current configuration and exit.
 The output should be stored in a file and can be used by the -C,--config option.)");
-  mandatory->add_flag("-v,--version", app.show_version, "Show version and exit.");
+  mandatory->add_flag("--version", app.show_version, "Show version and exit.");
 
   // Mandatory -> ... or partition a graph
   auto *gp_group = mandatory->add_option_group("Partitioning")->silent();
@@ -360,9 +365,11 @@ int main(int argc, char *argv[]) {
 
   if (app.dump_config) {
     CLI::App dump;
+    // Presets also change settings for which there are no options
+    dump.add_option("-P,--preset", app.preset)->capture_default_str();
     create_all_options(&dump, ctx);
     std::cout << dump.config_to_str(true, true);
-    std::exit(1);
+    std::exit(0);
   }
 
   if (app.show_version) {
-- 
2.43.0


From f55c90a2fac42624d26712fe7c347fbfba24eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 46/55] fix: dumped configurations stored every flag as false

---
 kaminpar-cli/CLI11.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kaminpar-cli/CLI11.h b/kaminpar-cli/CLI11.h
index 35c66d6..11d9560 100644
--- a/kaminpar-cli/CLI11.h
+++ b/kaminpar-cli/CLI11.h
@@ -6867,6 +6867,9 @@ public:
       return CLI::detail::lexical_cast(res[0], flag_result);
     };
     auto *opt = _add_flag_internal(flag_name, std::move(fun), std::move(flag_description));
+    opt->default_function([&flag_result]() {
+      return CLI::detail::checked_to_string<T, T>(flag_result);
+    });
     return detail::default_flag_modifiers<T>(opt);
   }
 
-- 
2.43.0


From 9c6f529b6aaebfc33caae0c312f111107d0f92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 47/55] fix: loading a dumped configuration activated all debug
 output, empty lists could still not be loaded

---
 kaminpar-cli/kaminpar_arguments.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index 1a2b5bb..a821b3d 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -83,7 +83,9 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       ->capture_default_str();
 
   auto *vcycles = partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles);
-  if (!ctx.partitioning.vcycles.empty()) { // empty lists cannot be read from configuration files
+  if (ctx.partitioning.vcycles.empty()) { // empty lists cannot be read from configuration files
+    vcycles->run_callback_for_default(false);
+  } else {
     vcycles->capture_default_str();
   }
   partitioning
@@ -368,7 +370,9 @@ The following algorithms can be used:
   - fm:              FM
   - greedy-balancer: greedy balancer)"
       );
-  if (!ctx.refinement.algorithms.empty()) { // empty lists cannot be read from configuration files
+  if (ctx.refinement.algorithms.empty()) { // empty lists cannot be read from configuration files
+    algorithms->run_callback_for_default(false);
+  } else {
     algorithms->capture_default_str();
   }
 
@@ -618,7 +622,10 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
 
   debug->add_flag(
       "--d-dump-everything",
-      [&](auto) {
+      [&](const std::int64_t count) {
+        if (count <= 0) { // e.g., d-dump-everything=false in a configuration file
+          return;
+        }
         ctx.debug.dump_toplevel_graph = true;
         ctx.debug.dump_toplevel_partition = true;
         ctx.debug.dump_coarsest_graph = true;
-- 
2.43.0


From a35243f60aa3795c20e73408f5a322f26589263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 48/55] fix: the connected components tool wrote uninitialized
 memory for isolated vertices and crashed on empty graphs

---
 apps/tools/shm_connected_components_tool.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/tools/shm_connected_components_tool.cc b/apps/tools/shm_connected_components_tool.cc
index b68481d..e8350e0 100644
--- a/apps/tools/shm_connected_components_tool.cc
+++ b/apps/tools/shm_connected_components_tool.cc
@@ -79,7 +79,7 @@ struct ConnectedComponentsStats {
 
   ConnectedComponentsStats(const NodeID num_nodes)
       : num_connected_component(0),
-        size_histogram(num_nodes),
+        size_histogram(std::max<NodeID>(num_nodes, 1)),
         largest_connected_component_initial_node(0),
         largest_connected_component_order(0),
         largest_connected_component_size(0) {}
@@ -97,7 +97,7 @@ template <typename Graph>
     }
 
     NodeID current_component_order = 0;
-    NodeID current_component_size = 0;
+    EdgeID current_component_size = 0;
 
     visited_nodes[node] = true;
     current_component.push(node);
@@ -137,8 +137,12 @@ template <typename Graph>
   RankCombinedBitVector<> rank_bitvector(graph.n(), false);
 
   std::stack<NodeID> next_nodes;
-  next_nodes.push(initial_node);
-  do {
+  if (order > 0) {
+    rank_bitvector.set(initial_node);
+    next_nodes.push(initial_node);
+  }
+
+  while (!next_nodes.empty()) {
     const NodeID node = next_nodes.top();
     next_nodes.pop();
 
@@ -150,7 +154,7 @@ template <typename Graph>
       rank_bitvector.set(adjacent_node);
       next_nodes.push(adjacent_node);
     });
-  } while (!next_nodes.empty());
+  }
 
   rank_bitvector.update();
 
-- 
2.43.0


From 3522eabce7e40b668a0da8e104adcf9d8ec14e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 49/55] fix: the partition properties tool read beyond
 partitions that are shorter than the graph

---
 apps/tools/shm_partition_properties_tool.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/tools/shm_partition_properties_tool.cc b/apps/tools/shm_partition_properties_tool.cc
index d65b2b6..a6fd8ff 100644
--- a/apps/tools/shm_partition_properties_tool.cc
+++ b/apps/tools/shm_partition_properties_tool.cc
@@ -74,7 +74,14 @@ int main(int argc, char *argv[]) {
     return 1;
   }
 
-  const BlockID k = *std::max_element(partition.begin(), partition.end()) + 1;
+  if (partition.size() != graph.n()) {
+    LOG_ERROR << "The partition assigns " << partition.size() << " nodes, but the graph has "
+              << graph.n() << " nodes";
+    return 1;
+  }
+
+  const BlockID k =
+      partition.empty() ? 1 : *std::max_element(partition.begin(), partition.end()) + 1;
   PartitionedGraph p_graph(graph, k, std::move(partition));
 
   LOG << "Number of blocks: " << k;
-- 
2.43.0


From 8394c865d9e557d0695e2c664adc73ab1d4ebadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 50/55] fix: coloring-based distributed algorithms dereferenced
 an empty range on ranks without vertices

---
 kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc | 3 ++-
 kaminpar-dist/graphutils/rearrangement.cc                | 3 ++-
 kaminpar-dist/refinement/lp/clp_refiner.cc               | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
index 9b0ef82..439bc9e 100644
--- a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
@@ -110,7 +110,8 @@ private:
       return compute_node_coloring_sequentially(*_graph, _ctx.chunks.compute(_input_ctx.parallel));
     }();
 
-    const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+    const ColorID num_local_colors =
+        coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
     const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, _graph->communicator());
 
     TIMED_SCOPE("Allocation") {
diff --git a/kaminpar-dist/graphutils/rearrangement.cc b/kaminpar-dist/graphutils/rearrangement.cc
index 0518cb1..786fb22 100644
--- a/kaminpar-dist/graphutils/rearrangement.cc
+++ b/kaminpar-dist/graphutils/rearrangement.cc
@@ -56,7 +56,8 @@ DistributedCSRGraph rearrange_by_coloring(DistributedCSRGraph graph, const Conte
   auto coloring = compute_node_coloring_sequentially(
       graph, ctx.refinement.colored_lp.coloring_chunks.compute(ctx.parallel)
   );
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
 
   START_TIMER("Allocation");
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b49e272..b78a222 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -96,7 +96,8 @@ void ColoredLPRefiner::initialize() {
     );
   }();
 
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
   STATS << "Number of colors: " << num_colors;
 
-- 
2.43.0


From 07134b73566b20b48cd1eaaf6e02eaab532702a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 51/55] fix: degree buckets of sorted distributed graphs were
 broken on ranks without vertices

---
 kaminpar-dist/datastructures/distributed_compressed_graph.cc | 2 +-
 kaminpar-dist/datastructures/distributed_csr_graph.cc        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/datastructures/distributed_compressed_graph.cc b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
index bf64658..145116e 100644
--- a/kaminpar-dist/datastructures/distributed_compressed_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
@@ -59,7 +59,7 @@ inline EdgeID degree_bucket(const EdgeID degree) {
 void DistributedCompressedGraph::init_degree_buckets() {
   KASSERT(std::all_of(_buckets.begin(), _buckets.end(), [](const auto n) { return n == 0; }));
 
-  if (_sorted) {
+  if (_sorted && n() > 0) {
     parallel::vector_ets<NodeID> buckets_ets(_buckets.size());
     tbb::parallel_for(tbb::blocked_range<NodeID>(0, n()), [&](const auto &r) {
       auto &buckets = buckets_ets.local();
diff --git a/kaminpar-dist/datastructures/distributed_csr_graph.cc b/kaminpar-dist/datastructures/distributed_csr_graph.cc
index 6c2f73b..f156a08 100644
--- a/kaminpar-dist/datastructures/distributed_csr_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_csr_graph.cc
@@ -59,7 +59,7 @@ inline EdgeID degree_bucket(const EdgeID degree) {
 void DistributedCSRGraph::init_degree_buckets() {
   KASSERT(std::all_of(_buckets.begin(), _buckets.end(), [](const auto n) { return n == 0; }));
 
-  if (_sorted) {
+  if (_sorted && n() > 0) {
     parallel::vector_ets<NodeID> buckets_ets(_buckets.size());
     tbb::parallel_for(tbb::blocked_range<NodeID>(0, n()), [&](const auto &r) {
       auto &buckets = buckets_ets.local();
-- 
2.43.0


From be96f4d1b2e7042eef3e7571396a0b6b24b91cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 52/55] fix: grid communicators of freed communicators were
 used for new communicators with the same handle

---
 kaminpar-mpi/grid_topology.cc | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/kaminpar-mpi/grid_topology.cc b/kaminpar-mpi/grid_topology.cc
index f38fcd4..5a3090e 100644
--- a/kaminpar-mpi/grid_topology.cc
+++ b/kaminpar-mpi/grid_topology.cc
@@ -7,14 +7,33 @@
  ******************************************************************************/
 #include "kaminpar-mpi/grid_topology.h"
 
-#include <unordered_map>
-
 #include <mpi.h>
 
 namespace kaminpar::mpi {
+namespace {
+int delete_grid_communicator(MPI_Comm, int, void *grid_comm, void *) {
+  delete static_cast<GridCommunicator *>(grid_comm);
+  return MPI_SUCCESS;
+}
+} // namespace
+
 GridCommunicator &get_grid_communicator(MPI_Comm comm) {
-  static std::unordered_map<MPI_Comm, GridCommunicator> grid_communicators;
-  auto [grid_comm_it, ignored] = grid_communicators.try_emplace(comm, comm);
-  return grid_comm_it->second;
+  // Cache the grid communicator as an attribute of `comm`: MPI may reuse the handle of a freed
+  // communicator for another one, thus the handle itself does not identify the communicator.
+  static const int keyval = [] {
+    int keyval;
+    MPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, delete_grid_communicator, &keyval, nullptr);
+    return keyval;
+  }();
+
+  void *grid_comm = nullptr;
+  int found = 0;
+  MPI_Comm_get_attr(comm, keyval, &grid_comm, &found);
+  if (!found) {
+    grid_comm = new GridCommunicator(comm);
+    MPI_Comm_set_attr(comm, keyval, grid_comm);
+  }
+
+  return *static_cast<GridCommunicator *>(grid_comm);
 }
 } // namespace kaminpar::mpi
-- 
2.43.0


From d6250b76d5d18f3399899146b4297157a576922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 53/55] fix: coarse vertex and edge counts of distributed
 graphs were sent as 32-bit and received as 64-bit integers

---
 .../coarsening/contraction/global_cluster_contraction.cc      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 556f040..082a1d7 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -524,10 +524,10 @@ template <typename T> StaticArray<T> build_distribution(const T count, MPI_Comm
   MPI_Allgather(
       &count,
       1,
-      mpi::type::get<NodeID>(),
+      mpi::type::get<T>(),
       distribution.data(),
       1,
-      mpi::type::get<GlobalNodeID>(),
+      mpi::type::get<T>(),
       comm
   );
   std::exclusive_scan(
-- 
2.43.0


From ae5a26da38fd05181b22ba36fd61093c0f69aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 54/55] fix: contracting a local clustering left the weights of
 ghost nodes out and read beyond the mapping on ranks without vertices

---
 .../contraction/local_cluster_contraction.cc      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
index 7460298..b85a6ca 100644
--- a/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
@@ -16,6 +16,7 @@
 #include "kaminpar-dist/datastructures/ghost_node_mapper.h"
 #include "kaminpar-dist/dkaminpar.h"
 #include "kaminpar-dist/graphutils/communication.h"
+#include "kaminpar-dist/graphutils/synchronization.h"
 
 #include "kaminpar-common/datastructures/rating_map.h"
 #include "kaminpar-common/datastructures/static_array.h"
@@ -89,7 +90,7 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
       leader_mapping.begin(), leader_mapping.begin() + graph.n(), leader_mapping.begin()
   );
 
-  const NodeID c_n = leader_mapping.back();
+  const NodeID c_n = leader_mapping.empty() ? 0 : leader_mapping.back();
   const GlobalNodeID last_node = mpi::scan(static_cast<GlobalNodeID>(c_n), MPI_SUM, comm);
   const GlobalNodeID first_node = last_node - c_n;
 
@@ -270,21 +271,27 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
   c_edge_distribution[rank + 1] = last_edge;
   mpi::allgather(&c_edge_distribution[rank + 1], 1, c_edge_distribution.data() + 1, 1, comm);
 
+  // add space for the weights of ghost nodes, which are synchronized below
+  StaticArray<NodeWeight> c_all_node_weights(ghost_mapper.next_ghost_node());
+  std::copy(c_node_weights.begin(), c_node_weights.end(), c_all_node_weights.begin());
+
   auto [c_global_to_ghost, c_ghost_to_global, c_ghost_owner] = ghost_mapper.finalize();
 
-  DistributedGraph c_graph(std::make_unique<DistributedCSRGraph>(
+  auto c_csr_graph = std::make_unique<DistributedCSRGraph>(
       std::move(c_node_distribution),
       std::move(c_edge_distribution),
       std::move(c_nodes),
       std::move(c_edges),
-      std::move(c_node_weights),
+      std::move(c_all_node_weights),
       std::move(c_edge_weights),
       std::move(c_ghost_owner),
       std::move(c_ghost_to_global),
       std::move(c_global_to_ghost),
       false,
       graph.communicator()
-  ));
+  );
+  graph::synchronize_ghost_node_weights(*c_csr_graph);
+  DistributedGraph c_graph(std::move(c_csr_graph));
 
   return std::make_unique<LocalCoarseGraphImpl>(fine_graph, std::move(c_graph), std::move(mapping));
 }
-- 
2.43.0


From b0328b176c12193130518e053847301b20066b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 55/55] fix: rebalancing coarse vertices recursed forever if
 there are fewer coarse vertices than ranks

---
 .../coarsening/contraction/global_cluster_contraction.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 082a1d7..9fceb15 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -912,7 +912,7 @@ AssignmentShifts compute_assignment_shifts(
   pe_overload.front() = 0;
   pe_underload.front() = 0;
 
-  const auto avg_cnode_count = static_cast<NodeID>(c_n / size);
+  const auto avg_cnode_count = std::max<NodeID>(1, static_cast<NodeID>(c_n / size));
   const auto max_cnode_count = static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count);
 
   // Determine overloaded PEs
-- 
2.43.0

